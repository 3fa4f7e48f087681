package checks

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/model"
)

// The address universe is one template of an address list, whose slots each
// have a plain filling and a menu of others that together use every construct
// of the grammar. All combinations in which up to a bound of slots deviate
// from the plain filling are explored. Each variant carries tags, so that a
// property can restrict itself to the combinations that concern it:
// q quoted string, c comment or white space, e encoded word, l list, g group,
// o obsolete form, u non-ASCII, n name, a address, f fold.
type variant struct {
	src, post string // post: the closing part of a variant that surrounds something
	tags      string
}

type slot struct {
	name string
	vs   []variant // the first is the plain one
}

func vars(tags string, src ...string) []variant {
	var out []variant
	for _, s := range src {
		t := tags
		if strings.ContainsAny(s, "(\t") || strings.Contains(s, "  ") {
			t += "c"
		}
		if strings.Contains(s, "\r\n") {
			t += "fc"
		}
		if strings.Contains(s, `"`) {
			t += "q"
		}
		if strings.Contains(s, "=?") {
			t += "e"
		}
		for _, r := range s {
			if r > 127 {
				t += "u"
				break
			}
		}
		out = append(out, variant{src: s, tags: t})
	}
	return out
}

func cats(l ...[]variant) []variant {
	var out []variant
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

func around(tags string, pairs ...string) []variant {
	var out []variant
	for i := 0; i < len(pairs); i += 2 {
		v := vars(tags, pairs[i])[0]
		v.post = pairs[i+1]
		v.tags += vars("", pairs[i+1])[0].tags
		out = append(out, v)
	}
	return out
}

var (
	uLead = slot{"lead", cats(vars("", ""), vars("lo", ",", " ,"), vars("l", "x@y,", "x@y;", "k:;,", "k:p@q;,", "<>,"), vars("c", "(c)"))}
	uTail = slot{"tail", cats(vars("", ""), vars("lo", ",", ",,", ", (c)"), vars("l", ",x@y", ";x@y", ",k:;", ", k <x@y>", ";k:p@q;", ",<>", ",a@b"))}
	uWrap = slot{"wrap", cats(around("", "", ""), around("g", "g:", ";", "g:", "", "g h: ", " ;", "\"g h\":", ";", "\"g:", "\";", "\"g: ", "\"", "g:x@y,", ";", "g:", ",x@y;", "g:<>,", ";", "g:", ",<>;", "(c)g(c):(c)", "(c);(c)", "=?utf-8?q?g?=:", ";", "g.h:", ";", "é:", ";"),
		around("go", "g:,", ";", "g:", ",;", "g:, ,x@y,", ",,;", "g:<>,,", ";", "g:,", ",<>;"))}
	uWord = []string{"Bc", `"q r"`, `""`, `"Dr."`, `"x@"`, `".y"`, `" s "`, `"\""`, `"\\"`, `"\ "`, `"'z'"`, "'z'", "é", "\u00a0", "=?utf-8?q?e_?=", "=?x-u?q?e?=", `"=?utf-8?q?e?="`, "1", "-", "\"a\tb\"", `"<a@b>, (c);"`, "\"\x01\"", "\"p\r\n q\""}
	uW1   = slot{"word", cats(vars("n", "n"), vars("n", uWord...))}
	uW2   = slot{"word2", cats(vars("n", "m"), vars("n", uWord...))}
	uJoin = slot{"joint", cats(vars("n", " "), vars("no", ".", ". ", " .", " . ", "..", "@", " @ ", ". (c) "), vars("nc", "(c)", " (c) ", "\t", "  ", "\r\n ", `(\))`))}
	uOpen = slot{"open", cats(vars("", "<"), vars("c", " <", "(c)<", "\r\n <", "<(c)"), vars("oa", "<@r:", "<@r,@s:", "< @r :", "<,@r,:"))}
	uLoc  = slot{"local", cats(vars("a", "a"), vars("a", "A.b", "a.", "a.b.C", `""`, `" a"`, `"a "`, `"a\"b"`, `"@"`, `"\\"`, `"a.."`, `"(x)"`, "é", "!#$%&'*+/=?^_`{|}~-", "=?utf-8?q?x?=", "0", "\"\x01\"", "\"a\r\n b\""), vars("ao", `a . b`, `"a".b`, `"".b`, `a.""`, `"a b" . "c"`, "\"\\\x00\""), vars("ac", "(c)a", `a(\x)`, " a", "\r\n a"))}
	uAt   = slot{"at", cats(vars("", "@"), vars("c", "(c)@", " @", "@(c)", "@ ", `(\x)@(\y)`, "@\r\n "))}
	uDom  = slot{"domain", cats(vars("a", "b"), vars("a", "B.c", "b.", "[]", "[1.2]", "[ x ]", "[\r\n 1]", "[IPv6:::1]", "é.ß", "1", "b-c", "=?utf-8?q?x?="), vars("ac", "(c)b", "b(c)", `b(\x)`, "b.c ", "(a@z)b"))}
	uPort = slot{"port", cats(vars("a", ""), vars("a", ":25", ":025", ":0"))}
	uShut = slot{"close", cats(vars("", ">"), vars("c", "> ", ">(c)", ">\r\n (d) "))}
)

var addrBases = [][]slot{
	{uLead, uWrap, uLoc, uAt, uDom, uPort, uTail},
	{uLead, uWrap, uOpen, uLoc, uAt, uDom, uPort, uShut, uTail},
	{uLead, uWrap, uW1, uJoin, uW2, uOpen, uLoc, uAt, uDom, uPort, uShut, uTail},
	{uLead, uWrap, uW1, uOpen, uLoc, uAt, uDom, uPort, uShut, uTail},
}

// deviations calls f with every choice of variants in which at most bound
// slots deviate, and the tags of the deviating ones.
func deviations(base []slot, bound int, f func(src, tags string) bool) bool {
	idx := make([]int, len(base))
	var rec func(i, left int) bool
	render := func() (string, string) {
		var b strings.Builder
		var posts []string
		tags := ""
		for i, s := range base {
			v := s.vs[idx[i]]
			if s.name == "tail" {
				for k := len(posts) - 1; k >= 0; k-- {
					b.WriteString(posts[k])
				}
				posts = nil
			}
			b.WriteString(v.src)
			if v.post != "" {
				posts = append(posts, v.post)
			}
			if idx[i] > 0 {
				tags += v.tags
			}
		}
		return b.String(), tags
	}
	rec = func(i, left int) bool {
		if i == len(base) {
			return f(render())
		}
		idx[i] = 0
		if !rec(i+1, left) {
			return false
		}
		if left > 0 {
			for k := 1; k < len(base[i].vs); k++ {
				idx[i] = k
				if !rec(i+1, left-1) {
					return false
				}
			}
			idx[i] = 0
		}
		return true
	}
	return rec(0, bound)
}

// addrUniverse emits the universe, restricted to combinations with a
// deviating slot that carries one of the tags (all, if tags is empty).
func addrUniverse(g *engine.Gen, kind, tags string) {
	n := 0
	for round := 1; round <= 3; round++ {
		if round == 3 && !g.Thorough() {
			break
		}
		for _, base := range addrBases {
			ok := deviations(base, round, func(src, t string) bool {
				if tags != "" && !strings.ContainsAny(t, tags) {
					return true
				}
				if twoFolds(src) {
					return true // see C20
				}
				n++
				return emit(g, kind, src)
			})
			if !ok {
				break
			}
		}
	}
	g.Extra["universe_inputs"] = n
}

// judgeNames compares only the names, judgeAddrs only the addresses, of what
// the implementation and the model both accept.
func judgeAspect(in string, names bool) engine.Verdict {
	m := model.Addresses(in, nil)
	g := parseAddr(in)
	if g.odd != "" {
		return engine.Verdict{Bad: g.odd, Outcome: "odd"}
	}
	if m.OK && g.err != nil {
		return engine.Verdict{Bad: fmt.Sprintf("rejected (%v), expected %s", g.err, fmtList(m.Parses[0])), Outcome: "rejected"}
	}
	if !m.OK || g.err != nil {
		return engine.Verdict{Outcome: "rejected"}
	}
	want := m.Parses[0]
	bad := len(want) != len(g.list)
	for i := 0; i < len(want) && !bad; i++ {
		if names && want[i].Name != g.list[i].Name || !names && want[i].Addr != g.list[i].Addr {
			bad = true
		}
	}
	if bad {
		return engine.Verdict{Bad: fmt.Sprintf("got %s, expected %s", g, fmtList(want)), Outcome: shape(g.list)}
	}
	return engine.Verdict{Outcome: shape(g.list)}
}
