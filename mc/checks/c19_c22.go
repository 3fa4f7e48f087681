package checks

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/model"
)

// unfold removes every CRLF that is followed by white space.
func unfold(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' && i+2 < len(s) && s[i+1] == '\n' && (s[i+2] == ' ' || s[i+2] == '\t') {
			i++
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// judgeFold: the input means what its unfolded form means.
func judgeFold(c engine.Case) engine.Verdict {
	switch c.Kind {
	case "foldaddr":
		return judgeAgainst(c.In[0], model.Addresses(unfold(c.In[0]), nil))
	case "folddate":
		return judgeDateAgainst(c.In[0], model.Date(unfold(c.In[0]), thisYear()))
	}
	return judgeStd(c)
}

// contexts in which a character stands; \x1a marks the place.
var charContexts = []string{
	"\x1a", "a\x1a", "\x1aa", "\x1aa@b", "a\x1ac@b", "a\x1a@b", "a@\x1ab", "a@b\x1ac", "a@b\x1a", "a@[\x1a]", "a@[1\x1a2]", "\"\x1a\" <a@b>", "\"x\x1ay\" <a@b>", "\"\x1ax\"@b",
	"x\x1ay <a@b>", "\x1ax <a@b>", "x\x1a<a@b>", "x \x1a y <a@b>", "x \x1a <a@b>", "(\x1a)a@b", "(x\x1ay) a@b", "(\\\x1a)a@b", "\"\\\x1a\"<a@b>", "\"x\\\x1ay\"@b",
	"<\x1aa@b>", "<a@b\x1a>", "<a\x1a@b>", "<a@b>\x1a", "<a@b> \x1a c@d", "a@b\x1ac@d", "a@b,\x1ac@d", "a@b:\x1a", "a@b:2\x1a5", "g\x1ah: a@b;", "g:\x1aa@b;", "g:a@b\x1a;", "g:a@b;\x1a", "g:a@b;\x1ac@d",
	"=?utf-8?q?\x1a?= <a@b>", "=?utf-8?q?x\x1ay?= <a@b>", "=?u\x1a?q?x?= <a@b>", "=?utf-8?\x1a?x?= <a@b>", "=?utf-8?b?\x1a?= <a@b>", "=\x1autf-8?q?x?= <a@b>", "=?utf-8?q?x?\x1a <a@b>", "<@r\x1as:a@b>", "<@r:\x1aa@b>", "\"g\": a@b\x1a", "\x1a\x1a", "a \x1a\x1a <b@c>", "\"\x1a\x1a\"@b",
}

var dateContexts = []string{
	"\x1a1 Jan 2006 15:04:05 +0000", "1\x1aJan 2006 15:04:05 +0000", "1 Jan\x1a2006 15:04:05 +0000", "1 Jan\x1a06 15:04:05 +0000", "1 J\x1an 2006 15:04", "1 Jan 20\x1a6 15:04", "1 Jan 2006\x1a15:04", "1 Jan 2006 15\x1a04", "1 Jan 2006 1\x1a:04",
	"1 Jan 2006 15:04\x1a05", "1 Jan 2006 15:04\x1a", "1 Jan 2006 15:04:0\x1a", "1 Jan 2006 15:04 \x1a0000", "1 Jan 2006 15:04 +00\x1a0", "1 Jan 2006 15:04 U\x1aC", "1 Jan 2006 15:04 \x1a", "1 Jan 2006 15:04 +0000\x1a", "Mon\x1a 1 Jan 2006 15:04", "M\x1an, 1 Jan 2006 15:04", "\x1aMon, 1 Jan 2006 15:04", "1 Jan 2006 15:04 +0000 (\x1a)", "1 Jan 2006 15:04 (\\\x1a)",
}

func init() {
	// ---- C19: characters have their role in each position ----
	register(&engine.Check{
		ID: "C19", Level: "model_checking", Judge: judgeStd,
		Rule:        "every ASCII character (and representatives of the others) in every context, where a context is a place inside an address or a date-time; acceptance and value must be those of the reference model",
		Assumptions: []string{"inputs are valid UTF-8"},
		Enumerate: func(g *engine.Gen) {
			cs := append([]string{}, charContexts...)
			if g.Thorough() {
				for _, c := range charContexts {
					for _, w := range []string{"x@y, \x1b", "\x1b, z <x@y>", "(c) \x1b", "k: \x1b"} {
						cs = append(cs, strings.Replace(w, "\x1b", c, 1))
					}
				}
			}
			for c := rune(0); c < 128; c++ {
				if c == 0x1a {
					continue // the mark itself; done below
				}
				for _, t := range cs {
					if !emit(g, "addr", strings.ReplaceAll(t, "\x1a", string(c))) {
						return
					}
				}
				for _, t := range dateContexts {
					if !emit(g, "date", strings.ReplaceAll(t, "\x1a", string(c))) {
						return
					}
				}
			}
			for _, c := range []string{"\u0080", "\u0085", "\u00a0", "é", "\u200b", "\u2028", "\u3000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "😀", "\U0010ffff", "\r\n", "\r\n ", "\n ", "\r ", " \r\n", "\r\n\r\n ", "\r\r\n ", "\n\n", "＠", "．", "，", "；", "＜", "\u201c", "İ", "ſ", "K"} {
				for _, t := range cs {
					if !emit(g, "addr", strings.ReplaceAll(t, "\x1a", c)) {
						return
					}
				}
				for _, t := range dateContexts {
					if !emit(g, "date", strings.ReplaceAll(t, "\x1a", c)) {
						return
					}
				}
			}
		},
	})

	// ---- C20: folding ----
	register(&engine.Check{
		ID: "C20", Level: "model_checking", Judge: judgeFold,
		Rule:        "seed inputs in which every run of white space, and every place where white space may be added, is folded in every way, up to two folds at a time; the input must mean what its unfolded form means in the reference model. Line ends that are not folds must not be taken for folds; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"one fold per run of white space, except for the listed obsolete inputs"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "foldaddr", "f")
			folds := []string{"\r\n ", "\r\n\t", " \r\n ", "\t\r\n\t ", "  \r\n  "}
			bad := []string{"\r\n", "\r ", "\n ", "\n\r ", "\r\r\n ", "\r\n\n", " \r\n", " \n ", " \r ", "\r\n\u00a0"}
			addr := []string{
				"\x1ax\x1ay\x1a<a@b>\x1a", "\"\x1ap\x1aq\x1a\"\x1a<\x1aa\x1a@\x1ab\x1a>", "a@b\x1a,\x1ac@d\x1a;\x1ae@f", "g\x1a:\x1aa@b\x1a,\x1an\x1a<c@d>\x1a;\x1a", "(\x1ac\x1ad\x1a)\x1aa@b\x1a(e)",
				"=?utf-8?q?x?=\x1a=?utf-8?q?y?=\x1a<a@b>", "\"\x1al\x1a\"@\x1ab", "a@[\x1a1\x1a2\x1a]", "a\x1a.\x1ab\x1a@\x1ac", ",\x1a,\x1aa@b,\x1a,\x1a", "<\x1a@\x1ar\x1a:\x1aa@b>", "\"x\x1a\\\"\x1ay\"\x1a<a@b>", "J.\x1aQ.\x1a\"R\"\x1a<a@b>", "\x1a\"p\"\x1a\"q\"\x1a<a@b>",
			}
			date := []string{"\x1aFri\x1a,\x1a21\x1aNov\x1a1997\x1a09\x1a:\x1a55\x1a:\x1a06\x1a-0600\x1a", "1\x1aMay\x1a97\x1a1:02\x1aEDT\x1a(c\x1ad)\x1a", "\x1a(a)\x1a2 Jan 2006\x1a15:04"}
			bound := 1
			for _, b := range []int{1, 2} {
				bound = b
				f := folds
				if bound == 2 {
					f = folds[:3]
					if !g.Thorough() {
						f = folds[:2]
					}
				}
				for ti, t := range addr {
					for _, def := range []string{" ", ""} {
						if bound == 2 && !g.Thorough() && (def == "" || ti > 8) {
							continue
						}
						if !slots(t, def, f, bound, func(s string) bool {
							if twoFolds(s) {
								return true
							}
							return emit(g, "foldaddr", s)
						}) {
							return
						}
					}
				}
				for _, t := range date {
					if !slots(t, " ", f, bound, func(s string) bool { return emit(g, "folddate", s) }) {
						return
					}
				}
			}
			for _, t := range addr {
				if !slots(t, " ", bad, 1, func(s string) bool { return emit(g, "addr", s) }) {
					return
				}
			}
			for _, t := range date {
				if !slots(t, " ", bad, 1, func(s string) bool { return emit(g, "date", s) }) {
					return
				}
			}
			// long lines folded at every word, and folds inside long quoted strings
			for n := 2; n <= 12; n++ {
				w := make([]string, n)
				for i := range w {
					w[i] = fmt.Sprintf("w%d", i)
				}
				emit(g, "foldaddr", strings.Join(w, "\r\n ")+" <a@b>")
				emit(g, "foldaddr", "\""+strings.Join(w, " \r\n\t")+"\"\r\n <a@b>")
				emit(g, "foldaddr", strings.Join(strings.Split(strings.Repeat("a@b ", n), " ")[:n], ",\r\n "))
			}
			// sections 3.2.2 and 4.2 also allow more folds in one run
			for _, x := range []struct{ in, name, addr string }{
				{"a \r\n \r\n <b@c>", "a", "b@c"},
				{"\" \r\n \r\n x\" <b@c>", "   x", "b@c"},
			} {
				emit(g, "want", x.in, wantList(mb(x.name, x.addr))...)
			}
		},
	})

	// ---- C21: obsolete forms ----
	register(&engine.Check{
		ID: "C21", Level: "model_checking", Judge: judgeStd,
		Rule:        "products of route spellings, obsolete local parts and domains, names with dots, empty list elements, control characters and obsolete escapes, whose value is known by construction and checked against the reference model, and token trees inside a route; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"obsolete domain-literal characters and one-letter zones are switched off in the grammar files on purpose and are not claimed"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addr", "o")
			routes := []string{"", "@r:", "@r,@s:", "@r.s,@t.u,@v:", ",@r:", ",,@r:", " , @r:", "(c)@r:", "@r,:", "@r,,@s:", "@r, ,@s:", "@[1]:", "@r (c):", "@r\r\n :", "@é:", "@r.:", "@r,(c):"}
			locals := []form{{"a", "a"}, {"a.b", "a.b"}, {`"a".b`, "a.b"}, {`a."b c"`, "a.b c"}, {`"a"."b"`, "a.b"}, {"a . b", "a.b"}, {"a(c).b", "a.b"}, {" a. b .c ", "a.b.c"}, {`"a" . b`, "a.b"}, {"a.(c)\"b\"(d).c", "a.b.c"}, {"(x)a(y).(z)b(w)", "a.b"}}
			domains := []form{{"d", "d"}, {"d.e", "d.e"}, {"(c)d.e(f)", "d.e"}, {" d ", "d"}, {"[1.2]", "[1.2]"}}
			names := []form{{"", ""}, {"n ", "n"}, {"J. Q. P ", "J.Q.P"}, {"a.b ", "a.b"}, {`"x". y `, "x.y"}, {"n .", "n."}, {"n. (c) m ", "n.m"}, {"n @ m ", "n@m"}}
			for _, r := range routes {
				for _, l := range locals {
					for di, d := range domains {
						for ni, nm := range names {
							if !g.Thorough() && ni > 0 && di > 0 {
								continue
							}
							s := nm.src + "<" + r + l.src + "@" + d.src + ">"
							if !emit(g, "both", s, wantList(mb(nm.val, l.val+"@"+d.val))...) {
								return
							}
						}
					}
				}
			}
			for _, l := range locals {
				for _, d := range domains {
					for _, w := range []string{"\x1a", ",,\x1a,,", "g:\x1a,;", "g:,\x1a;", "x@y,\x1a", "x@y,,\x1a"} {
						s := strings.Replace(w, "\x1a", l.src+"@"+d.src, 1)
						want := []model.Mailbox{mb("", l.val+"@"+d.val)}
						if strings.HasPrefix(w, "x@y") {
							want = append([]model.Mailbox{mb("", "x@y")}, want...)
						}
						emit(g, "both", s, wantList(want...)...)
					}
				}
			}
			// control characters and obsolete escapes
			for c := 0; c < 128; c++ {
				if c >= 32 && c != 127 {
					continue
				}
				ch := string(rune(c))
				for _, t := range []string{"\"\x1b\"@d", "\"a\x1bb\" <c@d>", "(\x1b)a@b", "\"\\\x1b\"@d", "\"a\\\x1bb\" <c@d>", "(\\\x1b)a@b", "\"\\\x1b\\\x1b\"<a@b>", "\x1ba@b", "a@[\x1b]", "a\x1b <b@c>"} {
					emit(g, "addr", strings.ReplaceAll(t, "\x1b", ch))
				}
			}
			d := 4
			if g.Thorough() {
				d = 6
			}
			tree(g, "addr", []string{"<"}, []string{"@r", ",", ":", " ", "(c)", "a@b", "@[1]"}, []string{">", ":a@b>"}, d, viableAddr)
			tree(g, "addr", []string{""}, []string{"a", "\"q\"", ".", " ", "(c)"}, []string{"@d", " <a@b>"}, d+1, viableAddr)
			// appendix A.6.3 and comments around the dots of a domain
			for _, x := range []struct{ in, name, addr string }{
				{"John Doe <jdoe@machine(comment).  example>", "John Doe", "jdoe@machine.example"},
				{"a@b . c", "", "a@b.c"},
				{"a@b.(x)c", "", "a@b.c"},
			} {
				emit(g, "want", x.in, wantList(mb(x.name, x.addr))...)
			}
		},
	})

	// ---- C22: size does not matter ----
	register(&engine.Check{
		ID: "C22", Level: "model_checking", Judge: judgeLadder,
		Rule:        "for every dimension in which an input can grow, every size 0..70 and the sizes around the powers of two and the limits mail standards name, up to the bound; the expected value is known by construction",
		Assumptions: []string{"sizes above the ladder are not explored"},
		Enumerate: func(g *engine.Gen) {
			ladder := func(dense, top int) []int {
				var ns []int
				for n := 0; n <= dense && n <= top; n++ {
					ns = append(ns, n)
				}
				for _, n := range []int{62, 63, 64, 65, 74, 75, 76, 77, 78, 79, 80, 99, 100, 101, 127, 128, 129, 199, 200, 253, 254, 255, 256, 257, 319, 320, 321, 499, 500, 501, 511, 512, 513, 900, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097} {
					if n > dense && n <= top {
						ns = append(ns, n)
					}
				}
				return ns
			}
			type dim struct {
				name       string
				dense, top int // quick
				dense2     int // thorough
				top2       int
			}
			dims := []dim{
				{"list", 20, 128, 70, 1025}, {"named list", 12, 65, 70, 257}, {"semicolon list", 12, 129, 70, 513}, {"empty elements", 20, 129, 70, 1025}, {"trailing elements", 20, 129, 70, 1025},
				{"group", 8, 12, 40, 80}, {"groups", 8, 33, 40, 129}, {"group empties", 24, 65, 40, 129}, {"words", 20, 129, 70, 513}, {"quoted words", 12, 65, 70, 257}, {"dots in name", 12, 65, 70, 257}, {"encoded words", 8, 16, 40, 65},
				{"atom", 70, 257, 257, 1025}, {"local", 70, 321, 321, 1025}, {"domain label", 70, 321, 321, 1025}, {"labels", 40, 129, 129, 513}, {"local dots", 40, 129, 129, 513}, {"obs local", 20, 40, 70, 129},
				{"quoted", 70, 513, 300, 2049}, {"escapes", 40, 129, 129, 513}, {"quoted spaces", 70, 513, 257, 1025}, {"quoted local", 40, 257, 257, 1025}, {"literal", 40, 257, 257, 1025},
				{"comments", 40, 129, 70, 513}, {"comment length", 70, 513, 257, 2049}, {"comment depth", 33, 65, 101, 257}, {"spaces", 70, 129, 129, 513}, {"folds", 20, 65, 70, 129}, {"port", 20, 129, 70, 513}, {"route", 30, 129, 70, 513},
				{"encoded q", 70, 101, 129, 513}, {"encoded b", 70, 129, 257, 513}, {"non-ascii", 33, 129, 129, 1025}, {"astral", 33, 129, 129, 513}, {"name and list", 5, 8, 20, 33},
				{"date spaces", 70, 257, 257, 1025}, {"date comments", 70, 513, 300, 2049}, {"date comment depth", 33, 129, 129, 513}, {"date comment length", 70, 1025, 300, 4097},
			}
			for _, d := range dims {
				dense, top := d.dense, d.top
				if g.Thorough() {
					dense, top = d.dense2, d.top2
				}
				ns := ladder(dense, top)
				g.Extra["max_size "+d.name] = ns[len(ns)-1]
				for _, n := range ns {
					g.Transitions++
					if !g.Emit(engine.Case{Kind: d.name, In: []string{fmt.Sprint(n)}}) {
						return
					}
				}
			}
		},
	})
}

// judgeLadder builds the input of one size of one dimension together with
// its meaning.
func judgeLadder(c engine.Case) engine.Verdict {
	var n int
	fmt.Sscan(c.In[0], &n)
	rep := strings.Repeat
	// numbered pieces, so that a lost, doubled or exchanged piece shows
	num := func(n int, sep string, f func(i int) string) string {
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, f(i))
		}
		return strings.Join(p, sep)
	}
	letters := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[(i*7+i/62)%62]
		}
		return string(b)
	}
	runes := func(n int, base rune, span int) string {
		r := make([]rune, n)
		for i := range r {
			r[i] = base + rune(i*11%span)
		}
		return string(r)
	}
	var in string
	var w []model.Mailbox
	one := func(name, addr string) { w = append(w, mb(name, addr)) }
	ok := true
	date := ""
	switch c.Kind {
	case "list":
		for i := 0; i <= n; i++ {
			one("", fmt.Sprintf("u%d@h", i))
		}
		in = num(n+1, ",", func(i int) string { return fmt.Sprintf("u%d@h", i) })
	case "named list":
		for i := 0; i <= n; i++ {
			one(fmt.Sprintf("N%d", i), fmt.Sprintf("u%d@h", i))
		}
		in = num(n+1, ", ", func(i int) string { return fmt.Sprintf("N%d <u%d@h>", i, i) })
	case "semicolon list":
		for i := 0; i <= n; i++ {
			one("", fmt.Sprintf("u%d@h", i))
		}
		in = num(n+1, ";", func(i int) string { return fmt.Sprintf("u%d@h", i) })
	case "empty elements":
		in = rep(",", n) + "a@b" + rep(",", n) + ",c@d"
		one("", "a@b")
		one("", "c@d")
	case "trailing elements":
		in = "a@b" + rep(",", n)
		one("", "a@b")
	case "group":
		in = "g:" + num(n+1, ",", func(i int) string { return fmt.Sprintf("u%d@h", i) }) + ";"
		for i := 0; i <= n; i++ {
			one("", fmt.Sprintf("u%d@h", i))
		}
	case "groups":
		in = num(n+1, ",", func(i int) string { return fmt.Sprintf("g%d:u%d@h;", i, i) })
		for i := 0; i <= n; i++ {
			one("", fmt.Sprintf("u%d@h", i))
		}
	case "group empties":
		in = "g:" + rep(",", n+1) + ";,a@b"
		one("", "a@b")
	case "words":
		in = num(n+1, " ", func(i int) string { return fmt.Sprintf("w%d", i) }) + " <a@b>"
		one(num(n+1, " ", func(i int) string { return fmt.Sprintf("w%d", i) }), "a@b")
	case "quoted words":
		in = num(n+1, " ", func(i int) string { return fmt.Sprintf(`"w %d"`, i) }) + " <a@b>"
		one(num(n+1, " ", func(i int) string { return fmt.Sprintf("w %d", i) }), "a@b")
	case "dots in name":
		in = num(n+1, ". ", func(i int) string { return fmt.Sprintf("w%d", i) }) + " <a@b>"
		one(num(n+1, ".", func(i int) string { return fmt.Sprintf("w%d", i) }), "a@b")
	case "encoded words":
		in = num(n+1, " ", func(i int) string { return fmt.Sprintf("=?utf-8?q?w=%02X_?=", 0x41+i%26) }) + " <a@b>"
		one(num(n+1, "", func(i int) string { return fmt.Sprintf("w%c ", 0x41+i%26) }), "a@b")
	case "atom":
		in = "x" + letters(n) + " <a@b>"
		one("x"+letters(n), "a@b")
	case "local":
		in = "x" + letters(n) + "@b"
		one("", in)
	case "domain label":
		in = "a@x" + letters(n)
		one("", in)
	case "labels":
		in = "a@" + num(n+1, ".", func(i int) string { return fmt.Sprintf("d%d", i) })
		one("", in)
	case "local dots":
		in = num(n+1, ".", func(i int) string { return fmt.Sprintf("l%d", i) }) + "@b"
		one("", in)
	case "obs local":
		in = num(n+1, " . ", func(i int) string { return fmt.Sprintf("\"l%d\"", i) }) + "@b"
		one("", num(n+1, ".", func(i int) string { return fmt.Sprintf("l%d", i) })+"@b")
	case "quoted":
		in = `"` + letters(n) + `" <a@b>`
		one(letters(n), "a@b")
	case "escapes":
		var src, val string
		for i := 0; i < n; i++ {
			c := []string{`"`, `\`, "x", " "}[i%4]
			src, val = src+`\`+c, val+c
		}
		in = `"` + src + `" <a@b>`
		one(val, "a@b")
	case "quoted spaces":
		in = `"x` + rep(" ", n) + `y" <a@b>`
		one("x"+rep(" ", n)+"y", "a@b")
	case "quoted local":
		in = `"` + letters(n) + `"@b`
		one("", letters(n)+"@b")
	case "literal":
		in = "a@[" + letters(n) + "]"
		one("", in)
	case "comments":
		in = rep("(c)", n) + "a@b" + rep(" (d)", n)
		one("", "a@b")
	case "comment length":
		in = "(" + letters(n) + ") a@b"
		one("", "a@b")
	case "comment depth":
		in = rep("(", n) + rep(")", n) + "a@b"
		one("", "a@b")
	case "spaces":
		in = "x" + rep(" ", n) + " y " + rep(" ", n) + "<a@b>"
		one("x y", "a@b")
	case "folds":
		in = num(n+1, "\r\n ", func(i int) string { return fmt.Sprintf("w%d", i) }) + " <a@b>"
		one(num(n+1, " ", func(i int) string { return fmt.Sprintf("w%d", i) }), "a@b")
	case "port":
		p := rep("1234567890", n/10+1)[:n+1]
		in = "a@b:" + p
		one("", in)
	case "route":
		in = "<" + num(n+1, ",", func(i int) string { return fmt.Sprintf("@r%d", i) }) + ":a@b>"
		one("", "a@b")
	case "encoded q":
		in = "=?utf-8?q?x" + num(n, "", func(i int) string { return []string{"_", "=41", "b", "=C3=A9"}[i%4] }) + "?= <a@b>"
		one("x"+num(n, "", func(i int) string { return []string{" ", "A", "b", "é"}[i%4] }), "a@b")
	case "encoded b":
		in = "=?utf-8?b?" + b64("x"+letters(n)) + "?= <a@b>"
		one("x"+letters(n), "a@b")
	case "non-ascii":
		in = `"` + runes(n+1, 0x100, 700) + `" é` + runes(n/4, 0x4e00, 5000) + " <a@b>"
		one(runes(n+1, 0x100, 700)+" é"+runes(n/4, 0x4e00, 5000), "a@b")
	case "astral":
		in = `"` + runes(n, 0x1f300, 600) + `" <a@` + runes(n, 0x10000, 50) + "b>"
		one(runes(n, 0x1f300, 600), "a@"+runes(n, 0x10000, 50)+"b")
	case "name and list":
		in = num(n+1, ", ", func(i int) string {
			return num(n+1, " ", func(k int) string { return fmt.Sprintf("w%dx%d", i, k) }) + fmt.Sprintf(" <u%d@h>", i)
		})
		for i := 0; i <= n; i++ {
			one(num(n+1, " ", func(k int) string { return fmt.Sprintf("w%dx%d", i, k) }), fmt.Sprintf("u%d@h", i))
		}
	case "date spaces":
		date = "2 Jan" + rep(" ", n) + " 2006 " + rep("\t", n) + "15:04:05 " + rep(" ", n) + "-0700"
	case "date comments":
		date = rep("(c)", n) + "2 Jan 2006 15:04:05 -0700" + rep(" (d)", n)
	case "date comment depth":
		date = "2 Jan 2006 15:04:05 -0700 " + rep("(", n) + rep(")", n)
	case "date comment length":
		date = "2 Jan 2006 15:04:05 -0700 (" + letters(n) + ")"
	default:
		panic("harness: unknown dimension " + c.Kind)
	}
	if date != "" {
		v := judgeDateAgainst(date, model.DateResult{Syntax: true, Parses: []model.DateTime{{Day: 2, Month: 1, Year: 2006, Hour: 15, Min: 4, Sec: 5, Offset: -25200}}})
		v.Outcome = c.Kind
		return v
	}
	v := judgeAgainst(in, model.AddrResult{OK: ok, Parses: [][]model.Mailbox{w}})
	if len(v.Bad) > 600 {
		v.Bad = v.Bad[:600] + "..."
	}
	v.Outcome = c.Kind
	return v
}
