// Package model is the reference model: an executable transcription of the
// documented grammar (RFC 5322 / 2047 / 6532 plus the relaxations that
// RFC5322Parser.g4 documents) with the RFC semantics of each construct.
// It shares no code with the implementation under test.
package model

// A parser maps a start position to every (end, value) it can produce, most
// preferred first. Values are strings so that results can be deduplicated.
type R struct {
	End int
	Val string
}

type ctx struct {
	in     []rune
	decode Decoder
	hitEnd bool // some derivation consumed the whole input and wanted more
	memo   map[memoKey][]R
}

type memoKey struct{ id, pos int }

type P func(c *ctx, pos int) []R

func addR(rs []R, r R) []R {
	for _, x := range rs {
		if x == r {
			return rs
		}
	}
	return append(rs, r)
}

// term matches one rune.
func term(pred func(rune) bool) P {
	return func(c *ctx, pos int) []R {
		if pos >= len(c.in) {
			c.hitEnd = true
			return nil
		}
		if pred(c.in[pos]) {
			return []R{{pos + 1, string(c.in[pos])}}
		}
		return nil
	}
}

func ch(r rune) P { return term(func(x rune) bool { return x == r }) }

// cat concatenates the values of its parts.
func cat(ps ...P) P { return mapCat(nil, ps...) }

// mapCat concatenates; keep[i] == false drops the value of part i.
func mapCat(keep []bool, ps ...P) P {
	return func(c *ctx, pos int) []R {
		cur := []R{{pos, ""}}
		for i, p := range ps {
			var next []R
			for _, r := range cur {
				for _, q := range p(c, r.End) {
					v := r.Val
					if keep == nil || keep[i] {
						v += q.Val
					}
					next = addR(next, R{q.End, v})
				}
			}
			if len(next) == 0 {
				return nil
			}
			cur = next
		}
		return cur
	}
}

func alt(ps ...P) P {
	return func(c *ctx, pos int) []R {
		var out []R
		for _, p := range ps {
			for _, r := range p(c, pos) {
				out = addR(out, r)
			}
		}
		return out
	}
}

func opt(p P) P {
	return func(c *ctx, pos int) []R {
		out := append([]R(nil), p(c, pos)...)
		return addR(out, R{pos, ""})
	}
}

func void(p P) P { return apply(p, func(string) string { return "" }) }

func apply(p P, f func(string) string) P {
	return func(c *ctx, pos int) []R {
		var out []R
		for _, r := range p(c, pos) {
			out = addR(out, R{r.End, f(r.Val)})
		}
		return out
	}
}

// star is greedy: prefers more iterations. The body must consume input.
func star(p P) P {
	var self P
	self = memo(func(c *ctx, pos int) []R {
		var out []R
		for _, r := range p(c, pos) {
			if r.End == pos {
				continue
			}
			for _, q := range self(c, r.End) {
				out = addR(out, R{q.End, r.Val + q.Val})
			}
		}
		return addR(out, R{pos, ""})
	})
	return self
}

func plus(p P) P { return cat(p, star(p)) }

// run1 matches a maximal run without enumerating shorter ones; right only
// where nothing that can follow may start with the same class.
func run1(pred func(rune) bool) P {
	return func(c *ctx, pos int) []R {
		i := pos
		for i < len(c.in) && pred(c.in[i]) {
			i++
		}
		if i == len(c.in) {
			c.hitEnd = true
		}
		if i == pos {
			return nil
		}
		return []R{{i, string(c.in[pos:i])}}
	}
}

var memoIDs int

func memo(p P) P {
	memoIDs++
	id := memoIDs
	return func(c *ctx, pos int) []R {
		k := memoKey{id, pos}
		if rs, ok := c.memo[k]; ok {
			return rs
		}
		rs := p(c, pos)
		c.memo[k] = rs
		return rs
	}
}

// lazy ties recursive knots.
func lazy(p *P) P { return func(c *ctx, pos int) []R { return (*p)(c, pos) } }
