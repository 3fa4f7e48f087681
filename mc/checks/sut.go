// Package checks holds one bounded exhaustive check per property.
package checks

import (
	"fmt"
	"net/mail"
	"strings"
	"time"
	"unicode/utf8"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"verif/mc/engine"
	"verif/mc/model"
)

// got is the observable outcome of one ParseAddressList call.
type got struct {
	list []model.Mailbox
	err  error
	odd  string // a breach of the result contract itself
}

func parseAddr(in string) got {
	l, err := rfc5322.ParseAddressList(in)
	return mkGot(l, err)
}

func mkGot(l []*mail.Address, err error) got {
	g := got{err: err}
	for i, a := range l {
		if a == nil {
			g.odd = fmt.Sprintf("entry %d is nil", i)
			return g
		}
		// Only an encoded word with an ill-formed payload can put ill-formed
		// UTF-8 into a result; every such byte counts as U+FFFD.
		g.list = append(g.list, model.Mailbox{Name: valid(a.Name), Addr: valid(a.Address)})
	}
	return g
}

func valid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}

func fmtList(l []model.Mailbox) string {
	var p []string
	for _, m := range l {
		p = append(p, fmt.Sprintf("{%q <%q>}", m.Name, m.Addr))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (g got) String() string {
	if g.odd != "" {
		return g.odd
	}
	if g.err != nil {
		return "error(" + g.err.Error() + ")"
	}
	return fmtList(g.list)
}

func sameList(a, b []model.Mailbox) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// shape abstracts a list for the outcome statistics.
func shape(l []model.Mailbox) string {
	var b strings.Builder
	for i, m := range l {
		if i == 6 {
			fmt.Fprintf(&b, "..x%d", len(l))
			break
		}
		if m.Name != "" {
			b.WriteByte('n')
		}
		if m.Addr != "" {
			b.WriteByte('a')
		}
		b.WriteByte(';')
	}
	return "list:" + b.String()
}

// judgeAddr compares the implementation with the model on one input.
func judgeAddr(in string, dec model.Decoder) engine.Verdict {
	m := model.Addresses(in, dec)
	return judgeAgainst(in, m)
}

func judgeAgainst(in string, m model.AddrResult) engine.Verdict {
	return judgeGot(parseAddr(in), m)
}

func judgeGot(g got, m model.AddrResult) engine.Verdict {
	if g.odd != "" {
		return engine.Verdict{Bad: g.odd, Outcome: "odd"}
	}
	if g.err != nil {
		if len(g.list) != 0 {
			return engine.Verdict{Bad: fmt.Sprintf("error %v together with addresses %s", g.err, fmtList(g.list)), Outcome: "odd"}
		}
		if m.OK {
			return engine.Verdict{Bad: fmt.Sprintf("rejected (%v), expected %s", g.err, fmtList(m.Parses[0])), Outcome: "rejected"}
		}
		return engine.Verdict{Outcome: "rejected"}
	}
	if !m.OK {
		return engine.Verdict{Bad: "accepted as " + g.String() + ", expected an error", Outcome: shape(g.list)}
	}
	// Where the grammar leaves more than one reading, the documented rules
	// prefer one: an encoded word is decoded where a phrase may hold one, and
	// an atom extends as far as it can.
	if sameList(m.Parses[0], g.list) {
		o := shape(g.list)
		if len(m.Parses) > 1 {
			o = "several readings, " + o
		}
		return engine.Verdict{Outcome: o}
	}
	return engine.Verdict{Bad: fmt.Sprintf("got %s, expected %s", g, fmtList(m.Parses[0])), Outcome: shape(g.list)}
}

// tree explores all token sequences up to depth whose proper prefixes are
// viable in the model: every state is a viable prefix, every transition
// appends one token, and every target (viable or dead) is executed.
func tree(g *engine.Gen, kind string, roots, alphabet []string, suffixes []string, depth int, viable func(string) bool) {
	level := roots
	seen := map[string]bool{}
	for _, r := range roots {
		seen[r] = true
	}
	viableCount := len(roots)
	defer func() {
		n, _ := g.Extra["viable_prefixes_expanded"].(int)
		g.Extra["viable_prefixes_expanded"] = n + viableCount
	}()
	for d := 0; d < depth; d++ {
		var next []string
		for _, s := range level {
			for _, t := range alphabet {
				c := s + t
				for _, suf := range suffixes {
					g.Transitions++
					if !g.Emit(engine.Case{Kind: kind, In: []string{c + suf}}) {
						return
					}
				}
				if !seen[c] {
					seen[c] = true
					if viable(c) {
						viableCount++
						next = append(next, c)
					}
				}
			}
		}
		level = next
	}
}

// ---- expectations computed by the generator ----

func wantList(l ...model.Mailbox) []string {
	w := []string{"ok"}
	for _, m := range l {
		w = append(w, m.Name, m.Addr)
	}
	return w
}

var wantErr = []string{"err"}

func unwant(w []string) (model.AddrResult, bool) {
	if len(w) == 0 {
		return model.AddrResult{}, false
	}
	if w[0] == "err" {
		return model.AddrResult{}, true
	}
	var l []model.Mailbox
	for i := 1; i+1 < len(w); i += 2 {
		l = append(l, model.Mailbox{Name: w[i], Addr: w[i+1]})
	}
	return model.AddrResult{OK: true, Parses: [][]model.Mailbox{l}}, true
}

// judgeStd is the judge most address checks use:
//
//	addr:   the model is the oracle
//	want:   the expectation by construction is the oracle
//	both:   both
//	accept: only acceptance is compared with the model
func judgeStd(c engine.Case) engine.Verdict {
	in := c.In[0]
	switch c.Kind {
	case "addr":
		return judgeAddr(in, nil)
	case "accept":
		return judgeAccept(in)
	case "names":
		return judgeAspect(in, true)
	case "addrs":
		return judgeAspect(in, false)
	case "date":
		return judgeDate(in, thisYear())
	case "want", "both":
		w, ok := unwant(c.Want)
		if !ok {
			return engine.Verdict{Bad: "harness: no expectation", Outcome: "harness"}
		}
		r := parseAddr(in)
		v := judgeGot(r, w)
		if v.Bad == "" && c.Kind == "both" {
			if m := judgeGot(r, model.Addresses(in, nil)); m.Bad != "" {
				return m
			}
		}
		return v
	}
	panic("harness: unknown kind " + c.Kind)
}

func judgeAccept(in string) engine.Verdict {
	m := model.Addresses(in, nil)
	g := parseAddr(in)
	if (g.err == nil) != m.OK {
		if m.OK {
			return engine.Verdict{Bad: fmt.Sprintf("rejected (%v), but it is in the documented language", g.err), Outcome: "rejected"}
		}
		return engine.Verdict{Bad: "accepted as " + g.String() + ", but it is not in the documented language", Outcome: "accepted"}
	}
	if g.err != nil {
		return engine.Verdict{Outcome: "rejected"}
	}
	return engine.Verdict{Outcome: shape(g.list)}
}

func thisYear() int { return time.Now().Year() }

// judgeDate compares ParseDateTime with the model.
func judgeDate(in string, now int) engine.Verdict {
	m := model.Date(in, now)
	if in == "" {
		m = model.DateResult{}
		t, err := rfc5322.ParseDateTime(in)
		if err != nil || !t.IsZero() {
			return engine.Verdict{Bad: fmt.Sprintf("empty input: %v, %v", t, err), Outcome: "empty"}
		}
		return engine.Verdict{Outcome: "empty"}
	}
	return judgeDateAgainst(in, m)
}

func judgeDateAgainst(in string, m model.DateResult) engine.Verdict {
	t, err := rfc5322.ParseDateTime(in)
	return judgeTime(t, err, m)
}

func judgeTime(t time.Time, err error, m model.DateResult) engine.Verdict {
	if err != nil {
		if !t.IsZero() {
			return engine.Verdict{Bad: fmt.Sprintf("error %v together with time %v", err, t), Outcome: "odd"}
		}
		for _, p := range m.Parses[:min(1, len(m.Parses))] {
			if !p.BadRange {
				return engine.Verdict{Bad: fmt.Sprintf("rejected (%v), expected %s", err, fmtDate(p)), Outcome: "rejected"}
			}
			return engine.Verdict{Outcome: "rejected: out of range"}
		}
		return engine.Verdict{Outcome: "rejected"}
	}
	if !m.Syntax {
		return engine.Verdict{Bad: fmt.Sprintf("accepted as %v, expected an error", t), Outcome: "accepted"}
	}
	for i, p := range m.Parses {
		if p.BadRange {
			continue
		}
		_, off := t.Zone()
		if t.Unix() == p.Unix() && off == p.Offset && t.Nanosecond() == 0 {
			o := fmt.Sprintf("accepted y%d off%v", t.Year()/1000, off != 0)
			if len(m.Parses) > 1 {
				o = fmt.Sprintf("ambiguous(%d/%d)", i, len(m.Parses))
			}
			return engine.Verdict{Outcome: o}
		}
	}
	p := m.Parses[0]
	if p.BadRange {
		return engine.Verdict{Bad: fmt.Sprintf("accepted as %v although a field is out of range", t), Outcome: "accepted"}
	}
	return engine.Verdict{Bad: fmt.Sprintf("got %v, expected %s", t, fmtDate(p)), Outcome: "accepted"}
}

func fmtDate(p model.DateTime) string {
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d offset %ds", p.Year, p.Month, p.Day, p.Hour, p.Min, p.Sec, p.Offset)
}
