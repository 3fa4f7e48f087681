package checks

import (
	"strings"

	"verif/mc/engine"
	"verif/mc/model"
)

// cfwsVariants are comments, white space and folds that may stand wherever
// the grammar has CFWS; none of them means anything.
var cfwsVariants = []string{
	"(c)", "()", " (c) ", "(c)(d)", " (a b)\t(c)", "((n)m(o))", `(\))`, `(\\)`, `(\"")`, "(<a@b>, x:y;)", "(=?utf-8?q?z?=)",
	"\r\n (c)", "(c)\r\n ", "(a\r\n b)", "(é😀)", "(\x01\x7f)", " ", "\t ", "\r\n ", " \r\n\t", "(@)", "(,)", "(\"", "(.)", "(\\\x00)", "([)", "(;:)",
}

func init() {
	// unbalanced on purpose in the list above: closed here
	for i, v := range cfwsVariants {
		if v == "(\"" {
			cfwsVariants[i] = "(\")"
		}
	}

	// ---- C06: comments and white space mean nothing ----
	type tmpl struct {
		t    string
		def  string
		want []string
	}
	templates := []tmpl{
		{"\x1aa\x1a@\x1ab\x1a", "", wantList(mb("", "a@b"))},
		{"\x1a<a@b>\x1a", "", wantList(mb("", "a@b"))},
		{"\x1ax\x1a<\x1aa\x1a@\x1ab\x1a>\x1a", "", wantList(mb("x", "a@b"))},
		{"\x1aa.b@c.d\x1a,\x1ae@f\x1a", "", wantList(mb("", "a.b@c.d"), mb("", "e@f"))},
		{"\x1a\"q r\"\x1a<a@b>\x1a;\x1ac@d\x1a", "", wantList(mb("q r", "a@b"), mb("", "c@d"))},
		{"\x1ag\x1a:\x1aa@b\x1a,\x1ac <d@e>\x1a;\x1a", "", wantList(mb("", "a@b"), mb("c", "d@e"))},
		{"\x1ag\x1a:\x1a;\x1a", "", wantList()},
		{"\x1a=?utf-8?q?=C3=A9?=\x1a<a@b>\x1a", "", wantList(mb("é", "a@b"))},
		{"\x1aa\x1a.\x1ab\x1a@c", "", wantList(mb("", "a.b@c"))},
		{"\x1a\"l\"\x1a.\x1ab\x1a@\x1ac\x1a", "", wantList(mb("", "l.b@c"))},
		{"\x1a\"l m\"\x1a@\x1a[1.2]\x1a", "", wantList(mb("", "l m@[1.2]"))},
		{"\x1a<\x1a@\x1ar\x1a,\x1a@\x1as\x1a:\x1aa\x1a@b>\x1a", "", wantList(mb("", "a@b"))},
		{"a@b,\x1a,\x1a,c@d,\x1a", "", wantList(mb("", "a@b"), mb("", "c@d"))},
		{"\x1a,\x1a,a@b", "", wantList(mb("", "a@b"))},
		{"g:\x1a,\x1a,\x1a;", "", wantList()},
		{"\x1ax\x1ay\x1a\"z\"\x1a<a@b>", " ", wantList(mb("x y z", "a@b"))},
		{"x\x1a=?utf-8?q?y?=\x1a=?utf-8?q?z?=\x1aw\x1a<a@b>", " ", wantList(mb("x yz w", "a@b"))},
		{"\x1a<>\x1a", "", nil},
	}
	register(&engine.Check{
		ID: "C06", Level: "model_checking", Judge: judgeStd,
		Rule:        "templates with a slot wherever the grammar allows CFWS; every slot gets every variant, and up to two slots deviate at the same time; the value must be that of the template without deviations, which is known by construction; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"folds are single (see C20)"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addr", "c")
			vs := cfwsVariants
			for round := 1; round <= 2; round++ {
				for ti, t := range templates {
					want := t.want
					if want == nil {
						want = wantList(mb("", ""))
					}
					v := vs
					if round == 2 && !g.Thorough() {
						if ti > 6 {
							continue
						}
						v = []string{"(c)", " ", "\r\n ", `(\))`}
					}
					ok := slots(t.t, t.def, v, round, func(s string) bool {
						// two folds meeting in one run of white space: C20
						if twoFolds(s) {
							return true
						}
						return emit(g, "both", s, want...)
					})
					if !ok {
						return
					}
				}
			}
			// all comment contents up to a length
			n := 3
			if g.Thorough() {
				n = 5
			}
			el := []string{"c", " ", "(d)", `\(`, `\)`, `\\`, "\r\n ", "\"", "@", "é"}
			sequences(el, 0, n, func(q []string) bool {
				c := "(" + strings.Join(q, "") + ")"
				if twoFolds(c) {
					return true
				}
				return emit(g, "both", c+"a@b", wantList(mb("", "a@b"))...) &&
					(len(q) > 2 || emit(g, "both", "x"+c+"y <a@"+c+"b>"+c, wantList(mb("x y", "a@b"))...))
			})
		},
	})

	// ---- C07: encoded words ----
	register(&engine.Check{
		ID: "C07", Level: "model_checking", Judge: judgeStd,
		Rule:        "charsets x encodings x all encoded texts up to a length, alone in a name; sequences of encoded and other words with all separators; and each place of an address where an encoded word must or must not be decoded; all against an independent RFC 2047 decoder in the reference model; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"no CharsetReader is installed (C23 covers that)", "an encoded word that starts where a word of a phrase may start is one"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addr", "e")
			one := func(s string) bool { return emit(g, "addr", s) }
			ew := func(cs, enc, text string) string { return "=?" + cs + "?" + enc + "?" + text + "?=" }
			// every byte in both encodings and every known charset
			for _, cs := range []string{"utf-8", "ISO-8859-1", "us-ascii"} {
				for b := 0; b < 256; b++ {
					one(ew(cs, "q", "="+hexByte(b)) + "<a@b>")
					one(ew(cs, "b", b64(string([]byte{byte(b)}))) + "<a@b>")
				}
			}
			charsets := []string{"utf-8", "UTF-8", "Utf-8", "us-ascii", "US-ASCII", "iso-8859-1", "ISO-8859-1", "x-unknown", "koi8-r", "utf8", "utf-8*en"}
			texts := []string{"a", "_", "=20", "=C3=A9", "=c3=a9", "=E9", "=3D", "=3F", "=", "=4", "=GG", "==", "YQ==", "w6k=", "w6k", "YQ=", "YWI=", "YWJj", "/+8=", "!", "a_b=20c", "=41=5F=09", "=0D=0A", "=00", "%", "\"", "(c)", ",", "@", "<", "\\"}
			for _, cs := range charsets {
				for _, e := range []string{"q", "Q", "b", "B", "x", "qq"} {
					for _, t := range texts {
						if !one(ew(cs, e, t) + " <a@b>") {
							return
						}
					}
				}
			}
			// all texts up to a length
			n := 3
			if g.Thorough() {
				n = 5
			}
			sequences([]string{"a", "_", "=41", "=c3=A9", "=", "1"}, 1, n, func(q []string) bool {
				return one(ew("utf-8", "q", strings.Join(q, "")) + "<a@b>")
			})
			sequences([]string{"Y", "Q", "=", "+", "/", "w6k="}, 1, n, func(q []string) bool {
				return one(ew("utf-8", "b", strings.Join(q, "")) + "<a@b>")
			})
			// all short byte strings through base64, with each padding
			sequences([]string{"a", " ", "\xc3", "\xa9", "\x00", "\xff"}, 0, n, func(q []string) bool {
				t := b64(strings.Join(q, ""))
				return t == "" || one(ew("utf-8", "B", t)+"<a@b>") && (len(q) > 2 || one(ew("iso-8859-1", "B", t)+"<a@b>"))
			})
			// adjacency
			words := []string{"=?utf-8?q?x_?=", "=?iso-8859-1?b?6Q==?=", "=?x-u?q?z?=", "w", "\"v\""}
			seps := []string{" ", "", "\r\n ", "(c)", "  ", "\t", " (c) "}
			for _, a := range words {
				for _, s := range seps {
					for _, b := range words {
						if !one(a + s + b + "<a@b>") {
							return
						}
						for _, s2 := range seps[:3] {
							for _, c := range words {
								if !g.Thorough() && (s != " " && s2 != " ") {
									continue
								}
								if !one(a + s + b + s2 + c + "<a@b>") {
									return
								}
							}
						}
					}
				}
			}
			// places
			for _, w := range []string{"=?utf-8?q?=C3=A9?=", "=?utf-8?b?w6k=?=", "=?utf-8?q?a,b?=", "=?x-u?q?=C3?="} {
				for _, p := range []string{
					"# <a@b>", "\"#\" <a@b>", "(#) a@b", "#@b", "a@#", "<#@b>", "<a@#>", "x#<a@b>", "#x <a@b>", "x # <a@b>", "\"x\" # <a@b>", "#\"x\" <a@b>",
					"#: a@b;", "g: # <a@b>;", "g: x@y, # <a@b>;", "a@b, # <c@d>", "a@b; # <c@d>", ",,# <a@b>", "# . x <a@b>", "x.# <a@b>", "x@# <a@b>", "#.#<a@b>",
					"#", "#,a@b", "a.#@b", "#.a@b", "\"#\"@b", "a@[#]", "<@r:#@b>", "<@#:a@b>", "a@b:#", "(x) # (y) <a@b>", "\r\n # <a@b>",
				} {
					if !one(strings.ReplaceAll(p, "#", w)) {
						return
					}
				}
			}
			// not quite encoded words
			base := "=?utf-8?q?ab?="
			for _, post := range []string{" <a@b>", "@b"} {
				neighbours(base, []string{"=", "?", "a", " ", "(", "\"", "é", ".", "*", "\\"}, func(x string) bool { return one(x + post) })
			}
		},
	})

	// ---- C08: list order, separators and empty elements ----
	type item struct {
		src   string
		boxes []model.Mailbox
		group bool
		open  bool // a group without its semicolon swallows what follows a comma
	}
	items := []item{
		{src: "a@b", boxes: []model.Mailbox{mb("", "a@b")}},
		{src: "c d <e@f>", boxes: []model.Mailbox{mb("c d", "e@f")}},
		{src: "<g@h>", boxes: []model.Mailbox{mb("", "g@h")}},
		{src: `"i, j; k" <l@m>`, boxes: []model.Mailbox{mb("i, j; k", "l@m")}},
		{src: "a@b", boxes: []model.Mailbox{mb("", "a@b")}},
		{src: "n: o@p, q <r@s>;", boxes: []model.Mailbox{mb("", "o@p"), mb("q", "r@s")}, group: true},
		{src: "t:;", group: true},
		{src: "=?utf-8?q?u,_v?= <w@x>", boxes: []model.Mailbox{mb("u, v", "w@x")}},
		{src: "<>", boxes: []model.Mailbox{mb("", "")}},
		{src: "y@[1,2;3]", boxes: []model.Mailbox{mb("", "y@[1,2;3]")}},
		{src: "(,) z@z (;)", boxes: []model.Mailbox{mb("", "z@z")}},
		{src: "<@r,@s:v@w>", boxes: []model.Mailbox{mb("", "v@w")}},
		{src: "A@b:25", boxes: []model.Mailbox{mb("", "A@b:25")}},
	}
	cat := func(l ...[]model.Mailbox) []model.Mailbox {
		var out []model.Mailbox
		for _, x := range l {
			out = append(out, x...)
		}
		return out
	}
	register(&engine.Check{
		ID: "C08", Level: "model_checking", Judge: judgeStd,
		Rule:        "all sequences of up to n addresses over a menu, with every separator, and with every placement of up to two empty elements; the list is the concatenation of the addresses' own lists, known by construction; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"empty elements belong to the comma-separated form only, as in the documented grammar"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addr", "l")
			seps := []string{",", ", ", ";", "; ", ",\r\n ", " ,", "(c),(d)", " ; "}
			// pairs with every separator, triples with two
			for _, a := range items {
				if !emit(g, "both", a.src, wantList(a.boxes...)...) {
					return
				}
				for _, b := range items {
					for _, s := range seps {
						if strings.HasSuffix(a.src, ":25") && s[0] != ',' && s[0] != ';' {
							continue
						}
						if !emit(g, "both", a.src+s+b.src, wantList(cat(a.boxes, b.boxes)...)...) {
							return
						}
					}
					for ci, c := range items {
						if ci > 6 && !g.Thorough() {
							break
						}
						for _, s := range []string{",", ";"} {
							for _, s2 := range []string{",", ";"} {
								if s != s2 && !g.Thorough() && ci > 3 {
									continue
								}
								if !emit(g, "both", a.src+s+b.src+s2+c.src, wantList(cat(a.boxes, b.boxes, c.boxes)...)...) {
									return
								}
							}
						}
					}
				}
			}
			// empty elements
			for _, pre := range []string{"", ",", ",,", " ,", "(c),", ", ,"} {
				for _, mid := range []string{",", ",,", ", ,", ",(c),", ",,,"} {
					for _, post := range []string{"", ",", ",,", ", ", ",(c)", ", , "} {
						for _, a := range items[:7] {
							for bi, b := range items[:7] {
								if bi > 1 && !g.Thorough() && (pre != "" || post != "") {
									continue
								}
								if !emit(g, "both", pre+a.src+mid+b.src+post, wantList(cat(a.boxes, b.boxes)...)...) {
									return
								}
							}
							if mid == "," && !emit(g, "both", pre+a.src+post, wantList(a.boxes...)...) {
								return
							}
						}
					}
				}
			}
			d := 6
			if g.Thorough() {
				d = 8
			}
			tree(g, "addr", []string{""}, []string{"a@b", ",", ";", " ", "g:", "c <d@e>"}, []string{""}, d, viableAddr)
			// every order of distinct addresses
			perm := []string{"a@b", "x <c@d>", "e@f", "\"y\" <g@h>", "i@j"}
			boxes := []model.Mailbox{mb("", "a@b"), mb("x", "c@d"), mb("", "e@f"), mb("y", "g@h"), mb("", "i@j")}
			permute(len(perm), func(p []int) {
				for _, s := range []string{",", ";"} {
					var parts []string
					var w []model.Mailbox
					for _, i := range p {
						parts = append(parts, perm[i])
						w = append(w, boxes[i])
					}
					emit(g, "both", strings.Join(parts, s), wantList(w...)...)
				}
			})
		},
	})

	// ---- C09: groups ----
	register(&engine.Check{
		ID: "C09", Level: "model_checking", Judge: judgeStd,
		Rule:        "the product of group names, member lists, closings and positions, whose list is known by construction, and token trees inside a group judged by the reference model; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"the closing semicolon is optional and may be quoted on either side, as the grammar documents"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addr", "g")
			names := []string{"g", "g h", `"g h"`, "=?utf-8?q?g?=", "g.h", "g@h", "é", "(c) g (d)", `"a@b, c"`, "g ", "\r\n g"}
			members := []struct {
				src   string
				boxes []model.Mailbox
			}{
				{"", nil}, {" ", nil}, {"(c)", nil}, {",", nil}, {" , ,", nil},
				{"a@b", []model.Mailbox{mb("", "a@b")}}, {" n <a@b> ", []model.Mailbox{mb("n", "a@b")}},
				{"a@b,c@d", []model.Mailbox{mb("", "a@b"), mb("", "c@d")}}, {"a@b, n <c@d>, <e@f>", []model.Mailbox{mb("", "a@b"), mb("n", "c@d"), mb("", "e@f")}},
				{",a@b", []model.Mailbox{mb("", "a@b")}}, {"a@b,", []model.Mailbox{mb("", "a@b")}}, {"a@b,,c@d", []model.Mailbox{mb("", "a@b"), mb("", "c@d")}}, {",,a@b,,c@d,,", []model.Mailbox{mb("", "a@b"), mb("", "c@d")}},
				{"a@b,a@b", []model.Mailbox{mb("", "a@b"), mb("", "a@b")}}, {`"x;y" <a@b>`, []model.Mailbox{mb("x;y", "a@b")}}, {"<>", []model.Mailbox{mb("", "")}},
				{"(c)a@b(d),\r\n c@d", []model.Mailbox{mb("", "a@b"), mb("", "c@d")}}, {"=?utf-8?q?m?= <a@b>", []model.Mailbox{mb("m", "a@b")}}, {"a@[1]", []model.Mailbox{mb("", "a@[1]")}},
			}
			type place struct {
				pre, post     string
				before, after []model.Mailbox
				needsSemi     bool
			}
			places := []place{
				{}, {pre: "x@y,", before: []model.Mailbox{mb("", "x@y")}}, {post: ",z@z", after: []model.Mailbox{mb("", "z@z")}},
				{pre: "x@y;", post: ";w <z@z>", before: []model.Mailbox{mb("", "x@y")}, after: []model.Mailbox{mb("w", "z@z")}, needsSemi: true},
				{pre: "k:p@q;,", before: []model.Mailbox{mb("", "p@q")}}, {post: ",k:p@q;", after: []model.Mailbox{mb("", "p@q")}, needsSemi: true},
				{pre: ",", post: ",,", needsSemi: true},
			}
			for ni, n := range names {
				for _, m := range members {
					for _, cl := range []string{";", "", "; (c)", " ;"} {
						for pi, p := range places {
							if !g.Thorough() && ni > 3 && pi > 2 {
								continue
							}
							if cl == "" && (p.needsSemi || p.post != "" && m.boxes == nil) {
								continue
							}
							if cl == " ;" && strings.HasSuffix(m.src, " ") {
								continue
							}
							if !emit(g, "both", p.pre+n+":"+m.src+cl+p.post, wantList(cat(p.before, m.boxes, p.after)...)...) {
								return
							}
						}
					}
					// the quoted form
					for _, q := range []string{"\"g: " + m.src + "\"", "\"g: " + m.src + "\";", "g:" + m.src + "\";"} {
						if !emit(g, "addr", q) {
							return
						}
					}
				}
			}
			d := 4
			if g.Thorough() {
				d = 6
			}
			tree(g, "addr", []string{"g:"}, []string{"a@b", ",", ";", " ", "<c@d>", "\"", "x", ":"}, []string{"", ";", ";,y@z"}, d, viableAddr)
			tree(g, "addr", []string{"\"g:"}, []string{"a@b", ",", ";", "\"", " "}, []string{""}, d, viableAddr)
		},
	})
}

// twoFolds tells whether a run of white space has more than one fold.
func twoFolds(s string) bool {
	n := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			n++
			if n > 1 {
				return true
			}
		case '\r', ' ', '\t':
		default:
			n = 0
		}
	}
	return false
}

func hexByte(b int) string {
	const h = "0123456789ABCDEF"
	return string([]byte{h[b>>4], h[b&15]})
}

func permute(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}
