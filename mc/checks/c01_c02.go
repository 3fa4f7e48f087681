package checks

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"verif/mc/engine"
)

// ---- C01: every input gets an answer of the promised shape ----

// console catches what the code under test writes to the standard streams.
type console struct{ out, err *os.File }

var consoleFile *os.File

func setupConsole() {
	f, err := os.CreateTemp("", "mc-console")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	consoleFile = f
}

func withConsole(f func()) string {
	if consoleFile == nil {
		f()
		return ""
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = consoleFile, consoleFile
	defer func() { os.Stdout, os.Stderr = so, se }()
	f()
	n, _ := consoleFile.Seek(0, io.SeekCurrent)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	consoleFile.ReadAt(b, 0)
	consoleFile.Truncate(0)
	consoleFile.Seek(0, io.SeekStart)
	return string(b)
}

func judgeTotal(c engine.Case) engine.Verdict {
	in := c.In[0]
	var v engine.Verdict
	var class []string
	printed := withConsole(func() {
		l, err := rfc5322.ParseAddressList(in)
		switch {
		case err != nil && len(l) != 0:
			v.Bad = fmt.Sprintf("ParseAddressList: error %v together with %d addresses", err, len(l))
		case err != nil:
			class = append(class, "addr:error")
			if reflect.ValueOf(err).Kind() == reflect.Ptr && reflect.ValueOf(err).IsNil() {
				v.Bad = "ParseAddressList: a nil pointer as error"
			} else if err.Error() == "" {
				v.Bad = "ParseAddressList: an empty error message"
			}
		default:
			for i, a := range l {
				if a == nil {
					v.Bad = fmt.Sprintf("ParseAddressList: entry %d is nil", i)
				}
			}
			class = append(class, fmt.Sprintf("addr:%d", min(len(l), 4)))
		}
		if in == "" && (err != nil || len(l) != 0) {
			v.Bad = fmt.Sprintf("ParseAddressList: empty input gave %v, %v", l, err)
		}
		t, err := rfc5322.ParseDateTime(in)
		switch {
		case err != nil && !t.IsZero():
			v.Bad = fmt.Sprintf("ParseDateTime: error %v together with time %v", err, t)
		case err != nil:
			class = append(class, "date:error")
			if err.Error() == "" {
				v.Bad = "ParseDateTime: an empty error message"
			}
		default:
			class = append(class, "date:ok")
		}
		if in == "" && (err != nil || !t.IsZero()) {
			v.Bad = fmt.Sprintf("ParseDateTime: empty input gave %v, %v", t, err)
		}
	})
	if printed != "" && v.Bad == "" {
		v.Bad = fmt.Sprintf("the call wrote to the standard streams: %q", printed)
	}
	v.Outcome = strings.Join(class, " ")
	return v
}

func init() {
	register(&engine.Check{
		ID: "C01", Level: "model_checking", Judge: judgeTotal, Setup: setupConsole,
		Rule:        "inputs are all strings over a class-representative alphabet up to a length, every edit-distance-1 neighbour, prefix and suffix of seeds that use every construct, and powers of single symbols; each is given to both entry points; all are distinct; an input counts as non-trivial because each must terminate with a well-formed outcome; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"memory is not exhausted", "a call that takes longer than 150 s counts as a hang; the slowest explored input needs under 3 s"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "total", "")
			al := symbols
			if g.Thorough() {
				al = append(append([]string{}, symbols...), "\u0000\u0000", "M", "o", "n", "J", "S", "U", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3", "%", "$", "&", "|", "}")
			}
			one := func(s string) bool { return emit(g, "total", s) }
			one("")
			sequences(al, 1, 2, func(q []string) bool { return one(strings.Join(q, "")) })
			core := []string{"a", "1", "@", "<", ">", ",", ":", ";", "\"", "(", ")", " ", "\r\n ", "\\", "[", "]", ".", "=?", "?", "\xff", "é", "\x00"}
			hi := 3
			if g.Thorough() {
				hi = 4
			}
			sequences(core, 3, hi, func(q []string) bool { return one(strings.Join(q, "")) })
			seeds := append(append([]string{}, seedAddrs...), seedDates...)
			sym := al
			if !g.Thorough() {
				sym = []string{"\"", "(", ")", "<", "@", ",", ":", ";", "\\", " ", "\r\n", "\x00", "\xff", "😀", "1", "["}
			}
			for _, s := range seeds {
				neighbours(s, sym, one)
			}
			// powers of one or two symbols, alone and inside an address
			ns := []int{3, 8, 17, 33}
			if g.Thorough() {
				ns = []int{3, 4, 5, 8, 16, 17, 31, 32, 33, 63, 64, 65, 100}
			}
			for _, n := range ns {
				for _, s := range al {
					if len(s) > 4 && n > 33 {
						continue // encoded words are slow
					}
					r := strings.Repeat(s, n)
					one(r)
					one(r + "a@b")
					one("a@b" + r)
					one("<" + r)
					one("1 Jan 2006 15:04" + r)
				}
				for _, p := range [][2]string{{"(", ")"}, {"\"", "\""}, {"<", ">"}, {"[", "]"}, {"g:", ";"}, {"=?", "?="}, {"(\\", ")"}} {
					one(strings.Repeat(p[0], n) + strings.Repeat(p[1], n))
					one(strings.Repeat(p[0], n) + strings.Repeat(p[1], n) + "a@b")
					one(strings.Repeat(p[0]+p[1], n))
				}
			}
		},
	})

	// ---- C02: exactly the documented address language is accepted ----
	register(&engine.Check{
		ID: "C02", Level: "model_checking", Judge: judgeStd,
		Rule:        "a breadth-first exploration of all token sequences whose proper prefixes are viable in the reference grammar, plus every edit-distance-1 neighbour of seeds that use every construct; every explored input is given to the implementation and its acceptance compared with the reference grammar's; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"the reference grammar is the documented one: RFC 5322/2047/6532 plus the relaxations the grammar files comment on", "inputs are valid UTF-8"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "accept", "")
			al := []string{"a", ".", "@", "<", ">", ",", ";", ":", "\"", "(", ")", " ", "[", "]", "\\", "1", "\r\n", "=?utf-8?q?b?="}
			d := 4
			if g.Thorough() {
				d = 6
			}
			tree(g, "accept", []string{""}, al, []string{""}, d, viableAddr)
			// deeper below prefixes that open a construct
			al2 := []string{"a", "@", "<", ">", ",", ";", ":", "\"", " "}
			d2 := 3
			if g.Thorough() {
				d2 = 5
			}
			tree(g, "accept", []string{"g:a@b", "a <b@c", "<@r", "g:", "\"g\":", "a@[1", "a@b,", "(c", "\"q"}, al2, []string{""}, d2, viableAddr)
			sym := []string{"\x00", "\x01", "\t", "\n", "\x0b", "\r", "\x0e", " ", "!", "\"", "(", ")", ",", ".", "0", ":", ";", "<", "=", ">", "?", "@", "a", "[", "\\", "]", "\x7f", "é", "😀"}
			if g.Thorough() {
				sym = nil
				for _, s := range symbols {
					if s != "\xff" {
						sym = append(sym, s)
					}
				}
			}
			for i, s := range seedAddrs {
				if !g.Thorough() && i >= 10 {
					break
				}
				neighbours(s, sym, func(x string) bool {
					return emit(g, "accept", x)
				})
			}
		},
	})
}
