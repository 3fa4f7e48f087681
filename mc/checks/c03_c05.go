package checks

import (
	"strings"

	"verif/mc/engine"
	"verif/mc/model"
)

// form is a spelling and what it denotes.
type form struct{ src, val string }

// spellings of local parts, with their value by construction
var localForms = []form{
	{"a", "a"}, {"Ab", "Ab"}, {"a.b", "a.b"}, {"a.b.C.4", "a.b.C.4"}, {"a.", "a."}, {"a+b", "a+b"}, {"-_", "-_"},
	{"!#$%&'*+/=?^_`{|}~-", "!#$%&'*+/=?^_`{|}~-"}, {"1", "1"}, {"éß", "éß"}, {"😀", "😀"}, {"e\u0301", "e\u0301"},
	{`""`, ""}, {`"a"`, "a"}, {`"a b"`, "a b"}, {`" a"`, " a"}, {`"a "`, "a "}, {"\"a\tb\"", "a\tb"}, {`"a  b"`, "a  b"},
	{`"\""`, `"`}, {`"\\"`, `\`}, {`"\a"`, "a"}, {`"\ "`, " "}, {`"a\"b\\c"`, `a"b\c`}, {`"@"`, "@"}, {`"a@b.c"`, "a@b.c"},
	{`"(x)"`, "(x)"}, {`"<>,;:"`, "<>,;:"}, {`"a..b"`, "a..b"}, {`".a."`, ".a."}, {"\"é\\é\"", "éé"}, {"\"\x01\"", "\x01"}, {"\"\\\x00\"", "\x00"},
	{`"a".b`, "a.b"}, {`a."b"`, "a.b"}, {`"a b"."c d"`, "a b.c d"}, {`a . b`, "a.b"}, {`a .b. c`, "a.b.c"}, {`a(x).(y)b`, "a.b"},
	{`(x)a`, "a"}, {`a(x)`, "a"}, {` a `, "a"}, {"\r\n a", "a"}, {`(x)"a b"(y)`, "a b"}, {"\"a\r\n b\"", "a b"},
	{"=?utf-8?q?x?=", "=?utf-8?q?x?="}, {"a.=?utf-8?q?x?=", "a.=?utf-8?q?x?="},
	{"AbCdEfGhIjKlMnOpQrStUvWxYz", "AbCdEfGhIjKlMnOpQrStUvWxYz"},
}

var domainForms = []form{
	{"b", "b"}, {"b.c", "b.c"}, {"B.cO.Uk", "B.cO.Uk"}, {"b.", "b."}, {"b-c", "b-c"}, {"1.2.3.4", "1.2.3.4"}, {"bücher.de", "bücher.de"}, {"xn--x", "xn--x"},
	{"😀", "😀"}, {"_b", "_b"},
	{"[]", "[]"}, {"[1.2.3.4]", "[1.2.3.4]"}, {"[IPv6:2001:DB8::1]", "[IPv6:2001:DB8::1]"}, {"[a b]", "[a b]"}, {"[ 1 ]", "[ 1 ]"}, {"[\r\n 1]", "[ 1]"},
	{"[\"(<@>,;:)\"]", "[\"(<@>,;:)\"]"}, {"[é]", "[é]"},
	{" b", "b"}, {"b ", "b"}, {"(x)b(y)", "b"}, {"(x)[1](y)", "[1]"}, {"(a.b@c) b.c", "b.c"},
	{"b:25", "b:25"}, {"b:0", "b:0"}, {"[1]:587", "[1]:587"}, {"b.:1", "b.:1"}, {"b :25", "b:25"}, {"b:0025", "b:0025"}, {"b:123456", "b:123456"}, {"[::]:1", "[::]:1"},
	{"=?utf-8?q?x?=", "=?utf-8?q?x?="},
}

// wrappers put an addr-spec into an address
type wrapper struct {
	pre, post string
	name      string
	before    []model.Mailbox
	after     []model.Mailbox
	obsRoute  bool
}

var addrWrappers = []wrapper{
	{}, {pre: "<", post: ">"}, {pre: "N n <", post: ">", name: "N n"}, {pre: "<@r:", post: ">"}, {pre: `"q" <@r,@s:`, post: "> (k)", name: "q"},
	{pre: "g:", post: ";"}, {pre: "g:x@y,", post: ",z <z@z>;", before: []model.Mailbox{mb("", "x@y")}, after: []model.Mailbox{mb("z", "z@z")}},
	{pre: "x <x@y>,", post: ",z@z", before: []model.Mailbox{mb("x", "x@y")}, after: []model.Mailbox{mb("", "z@z")}},
	{pre: "x@y;", post: ";z@z", before: []model.Mailbox{mb("", "x@y")}, after: []model.Mailbox{mb("", "z@z")}},
	{pre: "(k) ", post: " (k)"},
}

func wantIn(w wrapper, addr string) []string {
	var l []model.Mailbox
	l = append(l, w.before...)
	l = append(l, mb(w.name, addr))
	l = append(l, w.after...)
	return wantList(l...)
}

func init() {
	// ---- C03: the address is the addr-spec that was written ----
	register(&engine.Check{
		ID: "C03", Level: "model_checking", Judge: judgeStd,
		Rule:        "the product of local-part spellings, domain spellings and surroundings, with the value known by construction, and token trees inside the local part, the domain and a literal judged by the reference model; every explored input is executed; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"inputs are valid UTF-8"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addrs", "aolg")
			for wi, w := range addrWrappers {
				for li, l := range localForms {
					for di, d := range domainForms {
						// outside the first three surroundings, one of the two is plain
						if wi > 2 && li > 0 && di > 0 && !g.Thorough() {
							continue
						}
						if w.pre == "(k) " && strings.Contains(d.src[strings.LastIndex(d.src, "]")+1:], ":") {
							continue // nothing but the end may follow a port
						}
						kind := "both"
						if !emit(g, kind, w.pre+l.src+"@"+d.src+w.post, wantIn(w, l.val+"@"+d.val)...) {
							return
						}
					}
				}
			}
			d, d2 := 4, 3
			if g.Thorough() {
				d, d2 = 6, 5
			}
			tree(g, "addr", []string{""}, []string{"a", ".", "B", "\"", "\\", " ", "(c)", "\r\n "}, []string{"@d"}, d, viableAddr)
			tree(g, "addr", []string{"a@"}, []string{"b", ".", "C", "1", "[", "]", " ", "(c)", ":", "\\"}, []string{"", ">", ",c@d"}, d2, viableAddr)
			tree(g, "addr", []string{"a@["}, []string{"b", "1", ":", " ", "\r\n\t", "(", "\"", ".", "@", "é"}, []string{"]", "]:25"}, d2, viableAddr)
			tree(g, "addr", []string{"\""}, []string{"b", " ", "\t", "\\\\", "\\\"", "\r\n ", "(", "@", ".", "\\", "é"}, []string{"\"@c", "\".d@e"}, d2, viableAddr)
		},
	})

	// ---- C04: the name is the phrase that was written ----
	register(&engine.Check{
		ID: "C04", Level: "model_checking", Judge: judgeStd,
		Rule:        "all sequences of up to n name elements (atoms, quoted strings, encoded words, dots, at-signs) with every separator, whose name is known by construction, and a token tree judged by the reference model; every input is executed; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"inputs are valid UTF-8", "empty quoted strings are words of no characters"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "names", "n")
			elems := []form{{"a", "a"}, {"Bc", "Bc"}, {`"q r"`, "q r"}, {`"\"x, y"`, `"x, y`}, {"é", "é"}, {"1", "1"}, {"&-'", "&-'"}, {`" s "`, " s "}, {"=?utf-8?q?=C3=A9_f?=", "é f"}}
			seps := []string{" ", "\t", "  ", "\r\n ", " (c) ", "(c)", " (c)(d) ", "\t(c\r\n )\t"}
			n := 3
			if g.Thorough() {
				n = 4
			}
			isEW := func(f form) bool { return strings.HasPrefix(f.src, "=?") }
			// words joined by each separator: deviations from the plain space are bounded
			var rec func(src, name string, last form, k, dev int) bool
			rec = func(src, name string, last form, k, dev int) bool {
				if !emit(g, "both", src+" <a@b>", wantList(mb(name, "a@b"))...) {
					return false
				}
				if k < n && !emit(g, "both", src+"<a@b>", wantList(mb(name, "a@b"))...) {
					return false
				}
				if k == n {
					return true
				}
				for ei, e := range elems {
					if k == 2 && ei > 5 && !g.Thorough() {
						break
					}
					for si, s := range seps {
						if si > 0 && dev == 0 {
							continue
						}
						d := dev
						if si > 0 {
							d--
						}
						nm := name + " " + e.val
						if isEW(last) && isEW(e) {
							nm = name + e.val
						}
						if !rec(src+s+e.src, nm, e, k+1, d) {
							return false
						}
					}
				}
				return true
			}
			for _, e := range elems {
				dev := 1
				if g.Thorough() {
					dev = 2
				}
				if !rec(e.src, e.val, e, 1, dev) {
					return
				}
			}
			d := 4
			if g.Thorough() {
				d = 6
			}
			tree(g, "addr", []string{""}, []string{"a", "B", ".", "@", "\"q \"", " ", "(c)", "=?utf-8?q?e?=", "é"}, []string{" <a@b>"}, d, viableAddr)
			tree(g, "addr", []string{"J. "}, []string{"a", ".", "@", "\"q\"", " ", "(c)"}, []string{"<a@b>"}, d, viableAddr)
			tree(g, "addr", []string{"x@y, "}, []string{"a", ".", "@", "\"q\"", " ", "(c)"}, []string{"<a@b>, c <d@e>"}, d-1, viableAddr)
		},
	})

	// ---- C05: a quoted string stands for its content ----
	register(&engine.Check{
		ID: "C05", Level: "model_checking", Judge: judgeStd,
		Rule:        "all sequences of up to n content elements (characters, escapes, white space, folds) inside a quoted string, in a display name, in a local part and next to other words; the value is known by construction and checked against the reference model as well; and the address universe (every pair of deviations from plain templates, see universe.go)",
		Assumptions: []string{"inputs are valid UTF-8"},
		Enumerate: func(g *engine.Gen) {
			addrUniverse(g, "addr", "q")
			elems := []form{
				{"a", "a"}, {" ", " "}, {"\t", "\t"}, {`\"`, `"`}, {`\\`, `\`}, {`\a`, "a"}, {`\ `, " "}, {"\\\t", "\t"}, {"\r\n ", " "}, {" \r\n\t", " \t"},
				{"(", "("}, {")", ")"}, {"<", "<"}, {">", ">"}, {",", ","}, {";", ";"}, {":", ":"}, {"@", "@"}, {".", "."}, {"[", "["}, {"]", "]"}, {"'", "'"},
				{"é", "é"}, {"😀", "😀"}, {`\é`, "é"}, {"\x01", "\x01"}, {"\x7f", "\x7f"}, {"\\\x00", "\x00"}, {"\\\x01", "\x01"}, {"\\\r", "\r"}, {"\\\n", "\n"},
				{"=?utf-8?q?x?=", "=?utf-8?q?x?="}, {"=?utf-8?b?w6k=?=", "=?utf-8?b?w6k=?="}, {"\u00a0", "\u00a0"}, {"Z", "Z"}, {"0", "0"}, {`\(`, "("}, {`\n`, "n"},
			}
			core := []form{{"a", "a"}, {" ", " "}, {`\"`, `"`}, {`\\`, `\`}, {"\r\n ", " "}, {"\t", "\t"}, {"é", "é"}, {`\ `, " "}}
			type ctx struct {
				pre, post string
				f         func(v string) []string
			}
			name := func(v string) []string { return wantList(mb(v, "a@b")) }
			ctxs := []ctx{
				{`"`, `" <a@b>`, name},
				{`"`, `"@d`, func(v string) []string { return wantList(mb("", v+"@d")) }},
				{`w "`, `" x <a@b>`, func(v string) []string { return wantList(mb("w "+v+" x", "a@b")) }},
				{`<"`, `".x@d>`, func(v string) []string { return wantList(mb("", v+".x@d")) }},
				{`g:"`, `"<a@b>;`, name},
			}
			isFold := func(s string) bool { return strings.Contains(s, "\r\n") }
			isWsp := func(s string) bool { return strings.Trim(s, " \t\r\n") == "" }
			run := func(al []form, lo, hi int, cs []ctx) {
				idx := make([]string, len(al))
				for i := range al {
					idx[i] = al[i].src
				}
				m := map[string]string{}
				for _, e := range al {
					m[e.src] = e.val
				}
				sequences(idx, lo, hi, func(q []string) bool {
					var src, val string
					folds := 0
					for i, e := range q {
						src += e
						val += m[e]
						// two folds in one run of white space are not one FWS
						if isFold(e) {
							folds++
						} else if !isWsp(e) || e[0] == '\\' {
							folds = 0
						}
						if folds > 1 {
							return true
						}
						_ = i
					}
					for _, c := range cs {
						if val == "" && c.pre == `w "` {
							continue
						}
						if !emit(g, "both", c.pre+src+c.post, c.f(val)...) {
							return false
						}
					}
					return true
				})
			}
			run(elems, 0, 2, ctxs[:3])
			run(elems, 0, 1, ctxs)
			if g.Thorough() {
				run(elems, 3, 3, ctxs[:2])
				run(core, 0, 5, ctxs)
			} else {
				run(core, 0, 4, ctxs[:2])
				run(core, 0, 3, ctxs)
			}
		},
	})
}
