package checks

import (
	"fmt"
	"net/mail"
	"strings"
	"unicode"

	"verif/mc/engine"
	"verif/mc/model"
)

// judgeRoundTrip formats mailboxes with the standard library and parses them
// back. In = separator, name, address, name, address, ...
func judgeRoundTrip(c engine.Case) engine.Verdict {
	var parts []string
	var want []model.Mailbox
	for i := 1; i+1 < len(c.In); i += 2 {
		a := mail.Address{Name: c.In[i], Address: c.In[i+1]}
		parts = append(parts, a.String())
		want = append(want, model.Mailbox{Name: a.Name, Addr: a.Address})
	}
	in := strings.Join(parts, c.In[0])
	v := judgeAgainst(in, model.AddrResult{OK: true, Parses: [][]model.Mailbox{want}})
	if v.Bad != "" {
		v.Bad = fmt.Sprintf("formatted as %q: %s", in, v.Bad)
		return v
	}
	switch {
	case strings.Contains(in, "=?"):
		v.Outcome = "encoded, " + v.Outcome
	case strings.Contains(in, `\`):
		v.Outcome = "escaped, " + v.Outcome
	case strings.Contains(in, `"`):
		v.Outcome = "quoted, " + v.Outcome
	}
	return v
}

// position of a character inside an address
type position struct {
	pre, post string // around the characters under test
	name      bool   // the value is in the name
	vpre      string
	vpost     string
	enc       func(string) string
	dropped   bool // in a comment
	sep       string
}

func qenc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteString("=" + hexByte(int(s[i])))
	}
	return b.String()
}

// escape puts a backslash before every character.
func escape(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteByte('\\')
		b.WriteRune(r)
	}
	return b.String()
}

var positions = map[string]position{
	"atom name":    {pre: "", post: " <a@b>", name: true},
	"quoted name":  {pre: `"`, post: `" <a@b>`, name: true},
	"escaped name": {pre: `"`, post: `" <a@b>`, name: true, enc: escape},
	"local":        {pre: "", post: "@b", vpost: "@b"},
	"angle local":  {pre: "<x.", post: "@b>", vpre: "x.", vpost: "@b"},
	"quoted local": {pre: `"`, post: `"@b`, vpost: "@b"},
	"domain":       {pre: "a@", post: "", vpre: "a@"},
	"literal":      {pre: "a@[", post: "]", vpre: "a@[", vpost: "]"},
	"comment":      {pre: "(", post: ") a@b", dropped: true, vpre: "a@b"},
	"encoded q":    {pre: "=?utf-8?q?", post: "?= <a@b>", name: true, enc: qenc},
	"encoded b":    {pre: "=?utf-8?b?", post: "?= <a@b>", name: true, enc: b64},
	"second name":  {pre: "x y ", post: " z <a@b>", name: true, vpre: "x y ", vpost: " z"},
	"group member": {pre: "g: ", post: " <a@b>;", name: true},
}

var positionNames = []string{"quoted name", "atom name", "local", "domain", "encoded q", "literal", "quoted local", "comment", "escaped name", "angle local", "encoded b", "second name", "group member"}

func posInput(p position, s string) (string, model.AddrResult) {
	src := s
	if p.enc != nil {
		src = p.enc(s)
	}
	val := p.vpre + s + p.vpost
	m := mb("", val)
	switch {
	case p.dropped:
		m = mb("", p.vpre)
	case p.name:
		m = mb(val, "a@b")
	}
	return p.pre + src + p.post, model.AddrResult{OK: true, Parses: [][]model.Mailbox{{m}}}
}

// judgeChars checks that the characters lo..hi (in steps) survive in a
// position. In = position, characters. A failing pack is bisected to a single
// character if one suffices.
func judgeChars(c engine.Case) engine.Verdict {
	p, ok := positions[c.In[0]]
	if !ok {
		panic("harness: no such position")
	}
	test := func(s string) string {
		in, m := posInput(p, s)
		return judgeAgainst(in, m).Bad
	}
	bad := test(c.In[1])
	if bad == "" {
		return engine.Verdict{Outcome: c.In[0]}
	}
	s := []rune(c.In[1])
	for len(s) > 1 {
		if b := test(string(s[:len(s)/2])); b != "" {
			s, bad = s[:len(s)/2], b
			continue
		}
		if b := test(string(s[len(s)/2:])); b != "" {
			s, bad = s[len(s)/2:], b
			continue
		}
		break
	}
	if len(s) <= 4 {
		bad = fmt.Sprintf("%s, characters %U: %s", c.In[0], s, bad)
	} else {
		bad = fmt.Sprintf("%s, characters %U..%U: %.300s", c.In[0], s[0], s[len(s)-1], bad)
	}
	return engine.Verdict{Bad: bad, Outcome: c.In[0]}
}

func init() {
	// ---- C10: round trip with net/mail ----
	register(&engine.Check{
		ID: "C10", Level: "model_checking", Judge: judgeRoundTrip,
		Rule:        "all names over a class-representative alphabet up to a length, all local parts likewise, domains and list combinations; each is formatted with net/mail's Address.String and parsed back",
		Assumptions: []string{"net/mail formats correctly", "the address is not empty and its local part is printable (net/mail escapes nothing else there)"},
		Enumerate: func(g *engine.Gen) {
			one := func(na ...string) bool {
				g.Transitions++
				return g.Emit(engine.Case{Kind: "roundtrip", In: append([]string{", "}, na...)})
			}
			al := []string{"a", " ", ".", "\"", "\\", "@", ",", "é", "(", "1", "'"}
			n := 3
			if g.Thorough() {
				n = 4
			}
			sequences(al, 0, n, func(q []string) bool { return one(strings.Join(q, ""), "a@b") })
			wide := []string{"A", "z", "0", "\t", "!", "#", "$", "%", "&", "*", "+", "-", "/", ":", ";", "<", "=", ">", "?", "[", "]", "^", "_", "`", "{", "|", "}", "~", ")", "ü", "漢", "😀", "\u00a0", "\u200b", "\ufffd", "\x01", "\x7f", "\r", "\n", "e\u0301", "=?utf-8?q?x?=", "=?", "?=", "Jr.", "  "}
			sequences(append(append([]string{}, al...), wide...), 1, 2, func(q []string) bool {
				return one(strings.Join(q, ""), "a@b") && (len(q) == 2 || one("x"+q[0]+"y", "a@b"))
			})
			// local parts
			la := []string{"a", ".", " ", "\"", "\\", "@", "(", "<", ",", "B", "é", "+"}
			sequences(la, 1, n, func(q []string) bool { return one("N", strings.Join(q, "")+"@b.c") })
			for c := 33; c < 127; c++ {
				one("", string(rune(c))+"@b")
				one("", "x"+string(rune(c))+"@b")
				one("N", string(rune(c))+"y@b")
				one(string(rune(c)), "a@b")
				one("x"+string(rune(c))+"y", "a@b")
			}
			for _, d := range []string{"b", "b.c", "example.com", "sub.example.co.uk", "xn--bcher-kva.example", "bücher.example", "1.2.3.4", "a-b", "[1.2.3.4]", "[IPv6:::1]"} {
				for _, l := range []string{"a", "a.b", "a b", "\"", "é", "a+b"} {
					for _, nm := range []string{"", "N", "N n", "é", "x, y"} {
						one(nm, l+"@"+d)
					}
				}
			}
			// long names are split over several encoded words
			for _, u := range []string{"é", "漢字", "😀x", "a é", "é ", "_=?é", "ab"} {
				for _, k := range []int{2, 5, 6, 7, 10, 11, 12, 13, 20, 24, 25, 30} {
					if k > 13 && !g.Thorough() && len(u) > 4 {
						continue
					}
					one(strings.Repeat(u, k), "a@b")
				}
			}
			// lists
			ms := [][2]string{{"", "a@b"}, {"N n", "c@d"}, {"x, \"y\"", "e f@g"}, {"é", "h@[1]"}, {"J. Q.", "i@j.k"}}
			for _, sep := range []string{", ", ",", ";", ",\r\n "} {
				for _, a := range ms {
					for _, b := range ms {
						for _, c := range ms {
							g.Transitions++
							if !g.Emit(engine.Case{Kind: "roundtrip", In: []string{sep, a[0], a[1], b[0], b[1], c[0], c[1]}}) {
								return
							}
						}
					}
				}
			}
		},
	})

	// ---- C11: every character survives everywhere ----
	register(&engine.Check{
		ID: "C11", Level: "model_checking", Judge: judgeChars,
		Rule:        "non-ASCII Unicode scalar values, packed side by side into each position of an address, and singly at the edges of the value for every code point that string functions treat specially; a failing pack is bisected to the character",
		Assumptions: []string{"quick: all code points of the BMP and the edges of every 256-block above it; thorough: all 1,111,936 non-ASCII scalar values in every position"},
		Enumerate: func(g *engine.Gen) {
			one := func(pos, s string) bool {
				g.Transitions++
				return g.Emit(engine.Case{Kind: "chars", In: []string{pos, s}})
			}
			var total int64
			// Singles: a character alone, so that it is first and last.
			special := func(r rune) bool {
				return unicode.IsSpace(r) || unicode.Is(unicode.Zs, r) || unicode.Is(unicode.Zl, r) || unicode.Is(unicode.Zp, r) || unicode.Is(unicode.Cf, r) || unicode.Is(unicode.Cc, r) ||
					r < 0x180 || r&0xfffe == 0xfffe || r >= 0xff00 && r < 0xff70 || unicode.Is(unicode.Other_Default_Ignorable_Code_Point, r) || r >= 0x300 && r < 0x310 || unicode.Is(unicode.Pd, r) && r < 0x10000 ||
					r == 0xfffd || r == 0xfeff || r == 0x3002 || r == 0xd7ff || r == 0xe000 || r == 0x10000 || r == 0x1f600 || r == 0x10fffd
			}
			for i, pn := range positionNames {
				if !g.Thorough() && i > 8 {
					break
				}
				for r := rune(0x80); r <= unicode.MaxRune; r++ {
					if r >= 0xd800 && r < 0xe000 || !special(r) || r > 0xffff && !g.Thorough() && r&0xff > 4 && r&0xff < 0xfc {
						continue
					}
					if !g.Thorough() && i > 3 && r >= 0x180 && !unicode.IsSpace(r) && r != 0xfeff && r != 0xfffd && r != 0xffff && r != 0x10000 {
						continue
					}
					if !one(pn, string(r)) {
						return
					}
				}
			}
			// Packs.
			for i, pn := range positionNames {
				size := 64
				if pn == "escaped name" {
					size = 32
				}
				if pn == "encoded q" || pn == "encoded b" {
					size = 24
				}
				pack := make([]rune, 0, size)
				flush := func() bool {
					if len(pack) == 0 {
						return true
					}
					total += int64(len(pack))
					ok := one(pn, string(pack))
					pack = pack[:0]
					return ok
				}
				for r := rune(0x80); r <= unicode.MaxRune; r++ {
					if r >= 0xd800 && r < 0xe000 {
						continue
					}
					if !g.Thorough() {
						// The first position gets the whole BMP, the
						// others every code point below U+3100 or at the edge
						// of a 64-block; above the BMP the edges of 256-blocks.
						e := r & 63
						switch {
						case r > 0xffff && r&0xff != 0 && r&0xff != 0xff:
							continue
						case r > 0xffff && i > 0 && r&0xfff != 0 && r&0xfff != 0xfff:
							continue
						case r <= 0xffff && i > 0 && r >= 0x3100 && e != 0 && e != 63:
							continue
						case r <= 0xffff && i > 1 && r >= 0x800 && e > 1 && e < 62:
							continue
						}
					}
					pack = append(pack, r)
					if len(pack) == size && !flush() {
						return
					}
				}
				if !flush() {
					return
				}
			}
			g.Extra["character_placements"] = total
		},
	})
}
