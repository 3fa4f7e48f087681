package checks

import (
	"strings"

	"verif/mc/engine"
	"verif/mc/model"
)

func viableAddr(s string) bool { return model.Addresses(s, nil).Viable }
func viableDate(s string) bool { return model.Date(s, 2024).Viable }

// neighbours yields every string at edit distance one from s: each prefix
// position gets each symbol inserted and each character is deleted, replaced
// by each symbol, doubled, or swapped with its successor; and every prefix
// and suffix of s.
func neighbours(s string, symbols []string, f func(string) bool) {
	rs := split(s)
	j := func(p ...[]string) string {
		var b strings.Builder
		for _, x := range p {
			for _, y := range x {
				b.WriteString(y)
			}
		}
		return b.String()
	}
	for i := 0; i <= len(rs); i++ {
		if !f(j(rs[:i])) || !f(j(rs[i:])) {
			return
		}
		for _, y := range symbols {
			if !f(j(rs[:i], []string{y}, rs[i:])) {
				return
			}
			if i < len(rs) && !f(j(rs[:i], []string{y}, rs[i+1:])) {
				return
			}
		}
		if i < len(rs) {
			if !f(j(rs[:i], rs[i+1:])) || !f(j(rs[:i+1], rs[i:])) {
				return
			}
		}
		if i+1 < len(rs) && !f(j(rs[:i], rs[i+1:i+2], rs[i:i+1], rs[i+2:])) {
			return
		}
	}
}

// split cuts a string into characters, keeping invalid bytes.
func split(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		n := 1
		for i+n < len(s) && s[i] >= 0xc0 && s[i+n]&0xc0 == 0x80 {
			n++
		}
		out = append(out, s[i:i+n])
		i += n
	}
	return out
}

// slots fills the "\x1a" marks of a template: all marks get the default
// filling but at most `bound` of them, which get every variant.
func slots(template, def string, variants []string, bound int, f func(string) bool) bool {
	parts := strings.Split(template, "\x1a")
	n := len(parts) - 1
	cur := make([]string, n)
	for i := range cur {
		cur[i] = def
	}
	var rec func(i, left int) bool
	rec = func(i, left int) bool {
		if i == n {
			var b strings.Builder
			b.WriteString(parts[0])
			for k := 0; k < n; k++ {
				b.WriteString(cur[k])
				b.WriteString(parts[k+1])
			}
			return f(b.String())
		}
		cur[i] = def
		if !rec(i+1, left) {
			return false
		}
		if left > 0 {
			for _, v := range variants {
				if v == def {
					continue
				}
				cur[i] = v
				if !rec(i+1, left-1) {
					return false
				}
			}
			cur[i] = def
		}
		return true
	}
	return rec(0, bound)
}

// sequences calls f with every sequence over the alphabet of length lo..hi,
// shortest first.
func sequences(alphabet []string, lo, hi int, f func(seq []string) bool) {
	for n := lo; n <= hi; n++ {
		seq := make([]string, n)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == n {
				return f(seq)
			}
			for _, a := range alphabet {
				seq[i] = a
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		if !rec(0) {
			return
		}
	}
}

func mb(name, addr string) model.Mailbox { return model.Mailbox{Name: name, Addr: addr} }

// emitter counts a transition for every case and a state for every distinct
// input.
func emit(g *engine.Gen, kind, in string, want ...string) bool {
	g.Transitions++
	return g.Emit(engine.Case{Kind: kind, In: []string{in}, Want: want})
}

// seedAddrs together use every construct of the address grammar.
var seedAddrs = []string{
	`a@b`,
	`Ab c <d.e@f.g>`,
	`"q \"r" <x@[1.2]>,y@z`,
	`g: a@b, "c d" <e@f>;, h@i`,
	"=?utf-8?q?=C3=A9?= x <a@b>",
	`"l p"@d:25; (c (n) \) ) e@f`,
	`<@r,@s:t.u@v>`,
	",, a <>,, b@c,",
	"é (ü) <ö.ä@ß>",
	"n\r\n (f)\r\n <a@b>",
	"J. Q. P <a@b.>",
	"=?iso-8859-1?b?6Q==?= =?utf-8?Q?_y?= <a@b>",
	`u@example.com <v@w>`,
	`"g": a@b";`,
	`(a) b (c) . d (e) @ (f) g (h)`,
	`g:;`,
	"a\tb <c@d>",
	"\"x\r\n y\" <a@b>",
}

var seedDates = []string{
	"Fri, 21 Nov 1997 09:55:06 -0600",
	"1 Jul 03 1:52 EST",
	"(a) Thu (b) , (c) 13 Feb (d) 69 (e) 23 (f) : (g) 32 : 54 (h) -0330 (i)",
	"Tue,\r\n 29 Feb 2000 23:59:60\r\n +0000",
	"31 dec 1999 00:00 UTC",
	"2 Jan 06 15:04:05 0700",
}

// symbols has a member of every character class any of the grammars tells
// apart, and of some they must not.
var symbols = []string{
	"\x00", "\x01", "\t", "\n", "\x0b", "\r", "\x0e", " ", "!", "\"", "#", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "9",
	":", ";", "<", "=", ">", "?", "@", "A", "Z", "a", "t", "[", "\\", "]", "^", "_", "`", "{", "~", "\x7f",
	"\u0080", "\u00a0", "é", "\u2028", "\ufeff", "\uffff", "😀", "\xff", "\r\n", "\r\n ", "(c)", "\\\"", "=?us-ascii?q?w?=",
}

// b64 is standard base64 with padding.
func b64(s string) string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var b strings.Builder
	for i := 0; i < len(s); i += 3 {
		var v uint
		n := 0
		for k := 0; k < 3; k++ {
			v <<= 8
			if i+k < len(s) {
				v |= uint(s[i+k])
				n++
			}
		}
		for k := 0; k < 4; k++ {
			if k > n {
				b.WriteByte('=')
			} else {
				b.WriteByte(al[v>>(18-6*uint(k))&63])
			}
		}
	}
	return b.String()
}
