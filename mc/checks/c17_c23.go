package checks

import (
	"errors"
	"fmt"
	"io"
	"net/mail"
	"os"
	"os/exec"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"verif/mc/engine"
	"verif/mc/model"
)

// ---- C17: histories ----

func csUpper(charset string, b []byte) (string, bool) {
	return strings.ToUpper(string(b)) + "/" + charset, true
}
func csRev(charset string, b []byte) (string, bool) {
	r := append([]byte{}, b...)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r), true
}
func csFail(string, []byte) (string, bool) { return "", false }

func installCS(f model.CharsetFunc) {
	if f == nil {
		rfc5322.CharsetReader = nil
		return
	}
	rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
		b, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		s, ok := f(charset, b)
		if !ok {
			return nil, errors.New("charset not supported")
		}
		return strings.NewReader(s), nil
	}
}

var charsetFuncs = map[string]model.CharsetFunc{"cs:nil": nil, "cs:upper": csUpper, "cs:rev": csRev, "cs:fail": csFail}

// operations of a history: addr:<input>, date:<input>, cs:<name>, scribble
// (overwrite the last result), append (append to the last result).
var historyOps = []string{
	"addr:a@b", "addr:c@d", "addr:N n <a@b>", "addr:M m <a@b>", "addr:\"N, n\" <a@b>", "addr:a@b, X <c@d>", "addr:g: a@b, Y <e@f>;", "addr:=?x-u?q?w?= <a@b>", "addr:=?utf-8?q?w_?= =?x-u?b?dnY=?= <a@b>",
	"addr:<>", "addr:a@b,", "addr:N n <a@b", "addr:\"q\\\"\" (c) <a@[1]>", "addr:", "addr:(c", "addr:J. Q <a.b@c.>",
	"date:1 Jan 2006 15:04:05 +0100", "date:31 Dec 99 3:04 EST", "date:30 Feb 2006 15:04:05 +0100", "date:1 Jan 2006 15:04", "date:Mon, 2", "date:",
	"cs:nil", "cs:upper", "cs:rev", "cs:fail", "scribble", "append",
}

type heldAddr struct {
	list []*mail.Address
	want []model.Mailbox // expected content of list now
}

func judgeHistory(c engine.Case) (v engine.Verdict) {
	if c.Kind == "cold" {
		return judgeCold(c)
	}
	defer func() { rfc5322.CharsetReader = nil }()
	rfc5322.CharsetReader = nil
	var cs model.CharsetFunc
	var held []*heldAddr
	ops := c.In
	if c.Kind == "many" {
		ops = manyOps(c)
	}
	var out []string
	for i, op := range ops {
		where := fmt.Sprintf("step %d (%q)", i+1, op)
		switch {
		case strings.HasPrefix(op, "addr:"):
			in := op[5:]
			m := model.Addresses(in, model.DecodeWord(cs))
			l, err := rfc5322.ParseAddressList(in)
			if (err == nil) != m.OK {
				return engine.Verdict{Bad: fmt.Sprintf("%s: error %v, but alone it would be accepted=%v", where, err, m.OK), Outcome: "history"}
			}
			if err != nil {
				if len(l) != 0 {
					return engine.Verdict{Bad: fmt.Sprintf("%s: an error together with %d addresses", where, len(l)), Outcome: "history"}
				}
				out = append(out, "e")
				break
			}
			h := &heldAddr{list: l, want: append([]model.Mailbox(nil), m.Parses[0]...)}
			held = append(held, h)
			out = append(out, fmt.Sprint(len(l)))
		case strings.HasPrefix(op, "date:"):
			if w := judgeDate(op[5:], thisYear()); w.Bad != "" {
				return engine.Verdict{Bad: where + ": " + w.Bad, Outcome: "history"}
			}
			out = append(out, "d")
		case strings.HasPrefix(op, "cs:"):
			cs = charsetFuncs[op]
			installCS(cs)
			out = append(out, "c")
		case op == "scribble":
			if len(held) > 0 {
				h := held[len(held)-1]
				for k, a := range h.list {
					a.Name, a.Address = fmt.Sprintf("scribble%d", i), fmt.Sprintf("entry%d", k)
					h.want[k] = mb(a.Name, a.Address)
				}
			}
			out = append(out, "s")
		case op == "append":
			if len(held) > 0 {
				h := held[len(held)-1]
				h.list = append(h.list, &mail.Address{Name: "appended", Address: "x"})
				h.want = append(h.want, mb("appended", "x"))
				h.list[0], h.list[len(h.list)-1] = h.list[len(h.list)-1], h.list[0]
				h.want[0], h.want[len(h.want)-1] = h.want[len(h.want)-1], h.want[0]
			}
			out = append(out, "p")
		default:
			panic("harness: unknown operation " + op)
		}
		// no call and no change of one result touches another result
		for k, h := range held {
			var now []model.Mailbox
			for _, a := range h.list {
				if a == nil {
					return engine.Verdict{Bad: fmt.Sprintf("after %s: result %d has a nil entry", where, k+1), Outcome: "history"}
				}
				now = append(now, mb(valid(a.Name), valid(a.Address)))
			}
			if !sameList(now, h.want) {
				return engine.Verdict{Bad: fmt.Sprintf("after %s: result %d is %s, expected %s", where, k+1, fmtList(now), fmtList(h.want)), Outcome: "history"}
			}
		}
		if len(held) > 40 {
			held = held[1:]
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return engine.Verdict{Outcome: strings.Join(out, "")}
}

// manyOps: n different inputs, then all of them again in another order.
func manyOps(c engine.Case) []string {
	var n int
	fmt.Sscan(c.In[1], &n)
	f := func(i int) string {
		switch c.In[0] {
		case "addr":
			return fmt.Sprintf("addr:u%d@h", i)
		case "name":
			return fmt.Sprintf("addr:N%d <u@h>", i)
		case "same":
			return "addr:a@b"
		case "error":
			return fmt.Sprintf("addr:u%d@h,<", i)
		case "date":
			return fmt.Sprintf("date:%d Jan %d 12:00:%02d +0100", i%28+1, 1990+i, i%60)
		case "samedate":
			return "date:3 Jan 2010 12:00:05 -0100"
		}
		panic("harness")
	}
	var ops []string
	for i := 0; i < n; i++ {
		ops = append(ops, f(i))
	}
	for i := n - 1; i >= 0; i-- {
		ops = append(ops, f(i))
	}
	return append(ops, "addr:x <y@z>", "date:1 Jan 2006 15:04")
}

// judgeCold runs the history in a fresh process, so that its first call is
// the first call of a process.
func judgeCold(c engine.Case) engine.Verdict {
	cmd := exec.Command(os.Args[0], append([]string{"history", "-"}, c.In...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return engine.Verdict{Bad: fmt.Sprintf("in a fresh process: %v: %.400s", err, b), Outcome: "cold"}
	}
	if s := strings.TrimSpace(string(b)); s != "held" {
		return engine.Verdict{Bad: "in a fresh process: " + s, Outcome: "cold"}
	}
	return engine.Verdict{Outcome: "cold"}
}

// History is the entry point of such a fresh process.
func History(ops []string) int {
	v := engine.SafeJudge(Find("C17"), engine.Case{Kind: "history", In: ops})
	if v.Bad != "" {
		fmt.Println(v.Bad)
	} else {
		fmt.Println("held")
	}
	return 0
}

// ---- C23: the charset reader ----

// A script is what the reader returned by the callback answers to its Read
// calls: 1 = one byte, a = all that is left, 0 = nothing yet, E = the rest
// together with EOF, x = an error, X = a byte together with an error. When
// the script ends, the rest is delivered at once.
type scriptReader struct {
	data   []byte
	script string
}

var errScript = errors.New("read failed")

func (r *scriptReader) Read(p []byte) (int, error) {
	step := byte('a')
	if r.script != "" {
		step, r.script = r.script[0], r.script[1:]
	} else if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := 0
	switch step {
	case '0':
		return 0, nil
	case 'x':
		return 0, errScript
	case '1', 'X':
		n = copy(p[:min(1, len(p))], r.data)
	default:
		n = copy(p, r.data)
	}
	r.data = r.data[n:]
	switch {
	case step == 'X':
		return n, errScript
	case step == 'E' && len(r.data) == 0:
		return n, io.EOF
	case n == 0 && len(r.data) == 0:
		return 0, io.EOF
	}
	return n, nil
}

// scriptFails tells whether such a reader ends in an error.
func scriptFails(data string, script string) bool {
	left := len(data)
	for _, s := range script {
		switch s {
		case 'x', 'X':
			return true
		case '1':
			if left == 0 {
				return false // EOF was reported
			}
			left--
		case 'a', 'E':
			if left == 0 || s == 'E' {
				return false
			}
			left = 0
		}
	}
	return false
}

type csCall struct{ charset, bytes string }

// judgeCharset. In = template, payload bytes, charset as written, encoding,
// mode, script. The template's # is the encoded word.
func judgeCharset(c engine.Case) engine.Verdict {
	defer func() { rfc5322.CharsetReader = nil }()
	if c.Kind == "switch" {
		return judgeSwitch(c)
	}
	tmpl, payload, charset, enc, mode, script := c.In[0], c.In[1], c.In[2], c.In[3], c.In[4], c.In[5]
	text := b64(payload)
	if enc == "q" || enc == "Q" {
		text = qenc(payload)
	}
	word := "=?" + charset + "?" + enc + "?" + text + "?="
	in := strings.ReplaceAll(tmpl, "#", word)
	known := map[string]bool{"utf-8": true, "iso-8859-1": true, "us-ascii": true}[strings.ToLower(charset)]
	var calls []csCall
	conv := convert([]byte(payload))
	fails := mode == "error" || mode == "panic-free nil"
	if mode == "script" {
		fails = scriptFails(conv, script)
	}
	if mode != "nil" {
		rfc5322.CharsetReader = func(cs string, r io.Reader) (io.Reader, error) {
			switch mode {
			case "noread":
				calls = append(calls, csCall{cs, payload})
				return strings.NewReader(conv), nil
			case "reentrant":
				l, err := rfc5322.ParseAddressList("I n <x@y>, z@z")
				if err != nil || len(l) != 2 || l[0].Name != "I n" || l[0].Address != "x@y" || l[1].Address != "z@z" {
					return nil, fmt.Errorf("nested call: %v %v", l, err)
				}
				t, err := rfc5322.ParseDateTime("2 Jan 2006 15:04:05 -0700")
				if err != nil || t.Unix() != 1136239445 {
					return nil, fmt.Errorf("nested date: %v %v", t, err)
				}
			case "one byte":
				r = &oneByte{r}
			}
			b, err := io.ReadAll(r)
			if err != nil {
				return nil, err
			}
			calls = append(calls, csCall{cs, string(b)})
			if mode == "error" {
				return nil, errors.New("unsupported")
			}
			if mode == "error and reader" {
				return strings.NewReader(conv), errors.New("unsupported")
			}
			return &scriptReader{[]byte(conv), script}, nil
		}
	}
	if mode == "error and reader" {
		fails = true
	}
	dec := func(raw, cs, enc, text string) string {
		return model.DecodeWord(func(cs string, b []byte) (string, bool) {
			if mode == "nil" || fails {
				return "", false
			}
			return convert(b), true
		})(raw, cs, enc, text)
	}
	v := judgeAddr(in, dec)
	v.Outcome = mode + " " + v.Outcome
	v.Trivial = known || strings.HasPrefix(c.Kind, "unused") || mode == "nil"
	if v.Bad != "" {
		return v
	}
	n := strings.Count(tmpl, "#")
	if known || mode == "nil" || strings.HasPrefix(c.Kind, "unused") {
		n = 0
	}
	if len(calls) != n {
		v.Bad = fmt.Sprintf("the charset reader was called %d times, expected %d", len(calls), n)
		return v
	}
	for _, k := range calls {
		if k.charset != strings.ToLower(charset) || k.bytes != payload {
			v.Bad = fmt.Sprintf("the charset reader was given %q %q, expected %q %q", k.charset, k.bytes, strings.ToLower(charset), payload)
		}
	}
	return v
}

// convert is what the charset reader of the check makes of its input.
func convert(b []byte) string {
	s := "<"
	for _, x := range b {
		s += string(rune(x))
	}
	return s + ">"
}

type oneByte struct{ r io.Reader }

func (o *oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

// judgeSwitch: readers are switched between calls, and inside a call. In =
// the readers in force.
func judgeSwitch(c engine.Case) engine.Verdict {
	for i, name := range c.In {
		f := charsetFuncs[name]
		installCS(f)
		for _, in := range []string{"=?x-u?q?ab?= <a@b>", "n =?X-V?b?Y2Q=?= (c) <a@b>, =?utf-8?q?e?= <c@d>"} {
			if v := judgeAddr(in, model.DecodeWord(f)); v.Bad != "" {
				v.Bad = fmt.Sprintf("call %d, reader %s, %q: %s", i+1, name, in, v.Bad)
				return v
			}
		}
	}
	return engine.Verdict{Outcome: "switch"}
}

func init() {
	register(&engine.Check{
		ID: "C17", Level: "model_checking", Judge: judgeHistory,
		Rule:        "all sequences of operations (parse one of a menu of inputs, change the charset reader, overwrite or extend the last result) up to a depth, on the real code in one process; after every step every call's result is compared with the reference model's answer for that input alone, and all results handed out so far are compared with what they must still contain; all single operations and pairs also as the first calls of a fresh process; and runs of up to n different inputs, repeated",
		Assumptions: []string{"operations outside the menu and deeper histories are not explored"},
		Enumerate: func(g *engine.Gen) {
			depth := 3
			if g.Thorough() {
				depth = 4
			}
			ops := historyOps
			for n := 1; n <= depth; n++ {
				al := ops
				if n == 3 && !g.Thorough() {
					al = []string{"addr:a@b", "addr:c@d", "addr:N n <a@b>", "addr:a@b, X <c@d>", "addr:g: a@b, Y <e@f>;", "addr:=?x-u?q?w?= <a@b>", "addr:N n <a@b", "addr:", "date:1 Jan 2006 15:04:05 +0100", "date:31 Dec 99 3:04 EST", "date:30 Feb 2006 15:04:05 +0100", "date:1 Jan 2006 15:04", "cs:nil", "cs:upper", "cs:fail", "scribble", "append"}
				}
				sequences(al, n, n, func(q []string) bool {
					g.Transitions++
					return g.Emit(engine.Case{Kind: "history", In: append([]string{}, q...)})
				})
			}
			sequences(ops, 1, 1, func(q []string) bool {
				return g.Emit(engine.Case{Kind: "cold", In: append([]string{}, q...)})
			})
			small := []string{"addr:a@b", "addr:N n <a@b>", "addr:g: a@b, Y <e@f>;", "addr:N n <a@b", "addr:=?utf-8?q?w_?= =?x-u?b?dnY=?= <a@b>", "date:31 Dec 99 3:04 EST", "date:30 Feb 2006 15:04:05 +0100", "date:1 Jan 2006 15:04", "cs:upper", "addr:"}
			sequences(small, 2, 2, func(q []string) bool {
				return g.Emit(engine.Case{Kind: "cold", In: append([]string{}, q...)})
			})
			for _, k := range []string{"addr", "name", "same", "error", "date", "samedate"} {
				ns := []int{5, 17, 65, 129}
				if strings.Contains(k, "date") {
					ns = append(ns, 257, 1025)
				}
				if g.Thorough() {
					ns = append(ns, 257, 513, 1025, 2049)
				}
				for _, n := range ns {
					g.Transitions++
					if !g.Emit(engine.Case{Kind: "many", In: []string{k, fmt.Sprint(n)}}) {
						return
					}
				}
			}
		},
	})

	register(&engine.Check{
		ID: "C23", Level: "fault_enumeration", Judge: judgeCharset,
		Rule:        "every payload, charset spelling, encoding and place of an encoded word, with a charset reader that works, is absent, refuses, does not read its input, calls the parser itself, or whose result is read through every script of read answers (short reads, empty reads, end of file with data, failures) up to a length; and every sequence of reader changes between calls; a case is non-trivial if its encoded words reach an installed charset reader",
		Assumptions: []string{"the charset reader does not panic and does not return a nil reader without an error"},
		Enumerate: func(g *engine.Gen) {
			one := func(kind string, in ...string) bool {
				g.Transitions++
				return g.Emit(engine.Case{Kind: kind, In: in})
			}
			n := 3
			if g.Thorough() {
				n = 5
			}
			// every script of read answers
			for _, payload := range []string{"ab", "\xe9", ""} {
				if payload == "" {
					continue // an encoded word is not empty
				}
				for l := 0; l <= n; l++ {
					sequences([]string{"1", "a", "0", "E", "x", "X"}, l, l, func(q []string) bool {
						return one("script", "N # m <a@b>", payload, "x-u", "b", "script", strings.Join(q, ""))
					})
				}
			}
			payloads := []string{"a", "a b", "\xe9", "\x80\xff", "<x@y>", "\"", "\\", "a,b", "\r\n", "=?utf-8?q?x?=", strings.Repeat("p", 45), "\x00"}
			charsets := []string{"x-u", "X-U", "Koi8-R", "windows-1252", "ISO-8859-15", "iso-8859-1", "UTF-8", "us-ascii", "utf-7", "UTF8", "latin1"}
			modes := []string{"plain", "nil", "error", "noread", "reentrant", "one byte", "error and reader"}
			for _, p := range payloads {
				for _, cs := range charsets {
					for _, e := range []string{"q", "b", "Q", "B"} {
						for _, m := range modes {
							if !g.Thorough() && (e == "Q" || e == "B") && p != "\xe9" {
								continue
							}
							if !one("mode", "# <a@b>", p, cs, e, m, "") {
								return
							}
						}
					}
				}
			}
			for _, t := range []string{"# <a@b>", "# # <a@b>", "x # y <a@b>", "# <a@b>, # <c@d>", "g: # <a@b>, # <c@d>;", "#(c)#<a@b>", "\"q\" # <a@b>", "# x # <a@b>"} {
				for _, m := range modes {
					for _, cs := range []string{"x-u", "ISO-2022-JP", "utf-8"} {
						one("place", t, "\xe9z", cs, "b", m, "")
					}
				}
			}
			for _, t := range []string{"\"#\" <a@b>", "(#) a@b", "#@b", "a@#", "<#@b>", "\"#\"@b", "a@[#]"} {
				for _, m := range modes {
					one("unused", t, "\xe9z", "x-u", "b", m, "")
				}
			}
			sequences([]string{"cs:nil", "cs:upper", "cs:rev", "cs:fail"}, 1, n, func(q []string) bool {
				return one("switch", append([]string{}, q...)...)
			})
		},
	})
}
