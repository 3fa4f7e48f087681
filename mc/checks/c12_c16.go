package checks

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"verif/mc/engine"
	"verif/mc/model"
)

var monthCased = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var dayCased = []string{"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}

// judgeDays parses every day of one year (In = year, form) or every second of
// one hour.
func judgeBulk(c engine.Case) engine.Verdict {
	n := 0
	one := func(in string) string {
		n++
		m := model.Date(in, thisYear())
		if !m.Syntax {
			panic("harness: not a date-time in the model: " + in)
		}
		v := judgeDateAgainst(in, m)
		if v.Bad != "" {
			return fmt.Sprintf("%q: %s", in, v.Bad)
		}
		return ""
	}
	switch c.Kind {
	case "day": // In = template with D, year, month; every day 0..32
		for d := 0; d <= 32; d++ {
			ds := fmt.Sprintf("%02d", d)
			if c.In[0] == "short" && d < 10 {
				ds = fmt.Sprintf("%d", d)
			}
			if b := one(fmt.Sprintf("%s %s %s 12:34:56 +0000", ds, c.In[2], c.In[1])); b != "" {
				return engine.Verdict{Bad: b, Outcome: "days"}
			}
		}
		return engine.Verdict{Outcome: "days of " + c.In[2]}
	case "minute": // In = hour, minute, zone: every second
		for s := 0; s <= 61; s++ {
			if b := one(fmt.Sprintf("17 Mar 2011 %s:%s:%02d%s", c.In[0], c.In[1], s, c.In[2])); b != "" {
				return engine.Verdict{Bad: b, Outcome: "seconds"}
			}
		}
		if b := one(fmt.Sprintf("17 Mar 2011 %s:%s%s", c.In[0], c.In[1], c.In[2])); b != "" {
			return engine.Verdict{Bad: b, Outcome: "seconds"}
		}
		return engine.Verdict{Outcome: "seconds"}
	case "offset": // In = date-time, sign, hours: every minute
		for m := 0; m <= 99; m++ {
			if b := one(fmt.Sprintf("%s %s%s%02d", c.In[0], c.In[1], c.In[2], m)); b != "" {
				return engine.Verdict{Bad: b, Outcome: "offsets"}
			}
		}
		return engine.Verdict{Outcome: "offsets " + c.In[1]}
	case "date":
		return judgeDate(c.In[0], thisYear())
	case "zonewords": // In = date-time, prefix: every word prefix+letter in both cases
		for _, l := range "abcdefghijklmnopqrstuvwxyz" {
			for _, w := range []string{c.In[1] + string(l), strings.ToUpper(c.In[1] + string(l))} {
				if v := judgeDate(c.In[0]+" "+w, thisYear()); v.Bad != "" {
					v.Bad = fmt.Sprintf("zone %q: %s", w, v.Bad)
					return v
				}
			}
		}
		return engine.Verdict{Outcome: "zone words"}
	case "clock":
		return judgeClock(c)
	}
	panic("harness: unknown kind " + c.Kind)
}

// judgeClock runs the parser under a fake clock. In = year, month-day-time of
// the present moment, form. Every two-digit year is parsed at that moment.
func judgeClock(c engine.Case) (v engine.Verdict) {
	var at time.Time
	at, err := time.Parse("2006-01-02 15:04:05.999999999", c.In[0])
	if err != nil {
		panic("harness: " + err.Error())
	}
	v = engine.Verdict{Outcome: "clock"}
	bubble(func() {
		start := time.Now()
		d := at.Sub(start)
		if d < 0 {
			panic("harness: the fake clock starts at " + start.String())
		}
		time.Sleep(d)
		if !time.Now().Equal(at) {
			panic("harness: fake clock at " + time.Now().String())
		}
		for yy := 0; yy < 100 && v.Bad == ""; yy++ {
			in := strings.Replace(c.In[1], "YY", fmt.Sprintf("%02d", yy), 1)
			m := model.Date(in, at.Year())
			if len(m.Parses) != 1 || !m.Parses[0].TwoDigit {
				panic("harness: " + in)
			}
			w := judgeDateAgainst(in, m)
			if w.Bad != "" {
				v.Bad = fmt.Sprintf("%q at %s: %s", in, c.In[0], w.Bad)
			}
		}
		if !time.Now().Equal(at) {
			panic("harness: the fake clock moved")
		}
	})
	return v
}

// T is the test this binary runs as; a fake clock needs one.
var T *testing.T

// bubble runs f under a fake clock that stands still while f runs and starts
// at midnight UTC 2000-01-01.
func bubble(f func()) {
	var pan interface{}
	ran := false
	synctest.Test(T, func(*testing.T) {
		defer func() { pan = recover() }()
		f()
		ran = true
	})
	if pan != nil {
		panic(pan)
	}
	if !ran {
		panic("harness: the bubble did not run")
	}
}

func init() {
	// ---- C12: the calendar ----
	register(&engine.Check{
		ID: "C12", Level: "model_checking", Judge: judgeBulk,
		Rule:        "every day number 0..32 of every month of the explored years, and every second of the explored minutes; the expected moment comes from an independent proleptic Gregorian calendar; one case is a month (33 dates) or a minute (63 times)",
		Assumptions: []string{"quick: all months of 2,000 years (every year 1600..2400 and others) but every minute of the day at all seconds only in the thorough tier; thorough: all years 0000..9999 and all 86,400 seconds"},
		Enumerate: func(g *engine.Gen) {
			for h := 0; h <= 24; h++ {
				for m := 0; m <= 60; m++ {
					if !g.Thorough() && m%10 > 1 && m != 59 && m != 60 && h%6 != 5 {
						continue
					}
					g.Transitions++
					if !g.Emit(engine.Case{Kind: "minute", In: []string{fmt.Sprintf("%02d", h), fmt.Sprintf("%02d", m), " +0000"}}) {
						return
					}
				}
			}
			for y := 0; y <= 9999; y++ {
				for mi, mn := range monthCased {
					if !g.Thorough() {
						near := y >= 1895 && y <= 2105
						edge := y < 3 || y > 9997 || y%100 == 0 && y%400 <= 100 || y%1000 == 999
						feb := mi == 1 && (y%97 == 0 || y%100 == 0 || y >= 1600 && y <= 2400)
						if !near && !edge && !feb {
							continue
						}
						if near && mi != 1 && y%4 > 1 && y%10 != 9 && y%10 != 0 {
							continue
						}
					}
					form := "long"
					if (y+mi)%2 == 1 {
						form = "short"
					}
					g.Transitions++
					if !g.Emit(engine.Case{Kind: "day", In: []string{form, fmt.Sprintf("%04d", y), mn}}) {
						return
					}
				}
			}
		},
	})

	// ---- C13: zones ----
	register(&engine.Check{
		ID: "C13", Level: "model_checking", Judge: judgeBulk,
		Rule:        "all 10,000 four-digit offsets with each sign and without, on dates at the edges of days, months and years; all zone names in every mixture of cases; all one-, two- and three-letter words as zones",
		Assumptions: []string{"a date-time without a zone is in UTC"},
		Enumerate: func(g *engine.Gen) {
			dates := []string{"1 Jan 2000 00:00:00", "31 Dec 1999 23:59:59", "29 Feb 2004 12:00"}
			if g.Thorough() {
				dates = append(dates, "1 Mar 1900 00:00:01", "28 Feb 2100 23:59", "1 Jan 1970 00:00:00", "31 Dec 9999 23:59:59", "1 Jan 0001 00:00")
			}
			for di, d := range dates {
				for _, sign := range []string{"+", "-", ""} {
					if di > 0 && sign == "" && !g.Thorough() {
						continue
					}
					for h := 0; h < 100; h++ {
						g.Transitions++
						if !g.Emit(engine.Case{Kind: "offset", In: []string{d, sign, fmt.Sprintf("%02d", h)}}) {
							return
						}
					}
				}
			}
			names := []string{"ut", "utc", "gmt", "est", "edt", "cst", "cdt", "mst", "mdt", "pst", "pdt"}
			for _, n := range names {
				for mask := 0; mask < 1<<len(n); mask++ {
					b := []byte(n)
					for i := range b {
						if mask>>i&1 == 1 {
							b[i] -= 32
						}
					}
					for _, d := range dates {
						for _, sp := range []string{" ", "", "(c)", " (c) ", "\r\n "} {
							if !emit(g, "date", d+sp+string(b)) || !emit(g, "date", d+sp+string(b)+" (c)") {
								return
							}
						}
					}
				}
			}
			words := []string{""}
			for a := 'a'; a <= 'z'; a++ {
				words = append(words, string(a))
				for b := 'a'; b <= 'z'; b++ {
					words = append(words, string([]rune{a, b}))
				}
			}
			for _, w := range append(words, names...) {
				g.Transitions++
				if !g.Emit(engine.Case{Kind: "zonewords", In: []string{dates[0], w}}) {
					return
				}
			}
			// other spellings of offsets
			for _, z := range []string{"", " ", "+0100", " 0100", " +01:00", " +01", " +1", " +010", " +01000", " +0100 ", "  +0100", "\t-0330", " (c) -0330", " (c)+0100", "+ 0100", " ++0100", " +-0100", " UTC+0100", " +0100 UTC", " GMT +0100", " (UTC)", " Z", " z", " -0000", " +0000", " 0000"} {
				for _, d := range dates {
					emit(g, "date", d+z)
				}
			}
		},
	})

	// ---- C14: two-digit years ----
	register(&engine.Check{
		ID: "C14", Level: "model_checking", Judge: judgeBulk,
		Rule:        "a fake clock is put at the first and last instants of every year 2000..2099 (and inside it); at each instant all 100 two-digit years are parsed; a case is one instant and spelling (100 dates)",
		Assumptions: []string{"the century pivot is the current year in the local zone, which is UTC here", "the present lies in 2000..2099"},
		Setup:       func() { time.Local = time.UTC },
		Enumerate: func(g *engine.Gen) {
			forms := []string{"2 Jan YY 15:04:05 +0000", "Mon, 31 Dec YY 23:59 EST", "28 Feb(c)YY(d)00:00:00 -0100", "1 Jan YY 0:00"}
			moments := []string{"01-01 00:00:00", "12-31 23:59:59.999999999", "06-15 12:00:00"}
			for y := 2000; y <= 2099; y++ {
				for mi, m := range moments {
					for fi, f := range forms {
						if !g.Thorough() && fi > 0 && (y+mi+fi)%4 != 0 {
							continue
						}
						g.Transitions++
						if !g.Emit(engine.Case{Kind: "clock", In: []string{fmt.Sprintf("%d-%s", y, m), f}}) {
							return
						}
					}
				}
			}
			// the real clock
			for yy := 0; yy < 100; yy++ {
				emit(g, "date", fmt.Sprintf("2 Jan %02d 15:04:05 +0000", yy))
			}
		},
	})

	// ---- C15: what is not a date-time is refused ----
	register(&engine.Check{
		ID: "C15", Level: "model_checking", Judge: judgeBulk,
		Rule:        "a breadth-first exploration of token sequences around dates, all edit-distance-1 neighbours of seed dates, every two-digit value of every numeric field, and every pair of tokens exchanged or dropped; acceptance and value are compared with the reference date grammar",
		Assumptions: []string{"the documented relaxations: one-digit hours, unsigned offsets, optional zone, any day name with any date"},
		Enumerate: func(g *engine.Gen) {
			one := func(s string) bool { return emit(g, "date", s) }
			for v := 0; v < 100; v++ {
				for _, mn := range monthCased {
					one(fmt.Sprintf("%02d %s 2023 10:20:30 +0000", v, mn))
					one(fmt.Sprintf("%02d %s 2024 10:20:30 +0000", v, mn))
				}
				one(fmt.Sprintf("1 Jan 2023 %02d:20:30 +0000", v))
				one(fmt.Sprintf("1 Jan 2023 %d:20 +0000", v))
				one(fmt.Sprintf("1 Jan 2023 10:%02d:30 +0000", v))
				one(fmt.Sprintf("1 Jan 2023 10:%02d", v))
				one(fmt.Sprintf("1 Jan 2023 10:20:%02d +0000", v))
				one(fmt.Sprintf("31 Dec 2023 23:59:%02d", v))
				one(fmt.Sprintf("1 Jan 2023 10:20:30 +10%02d", v))
				one(fmt.Sprintf("1 Jan 2023 10:20:30 -%02d59", v))
				one(fmt.Sprintf("1 Jan 2023 10:20:30 %02d60", v))
				one(fmt.Sprintf("29 Feb %02d00 10:20:30 +0000", v))
			}
			for _, y := range []string{"1", "19", "199", "1999", "19999", "199999", "0", "00", "000", "0000", "-1999", "+1999", "1999 1999", "19 99"} {
				for _, d := range []string{"1", "01", "001", "0", "00", "32", "1 1", "-1", "+1", "1st", ""} {
					for _, t := range []string{"10:20:30", "1:2:3", "1:20:3", "10:2:30", "010:20", "10", "10:20:", "10::20", ":20", "10:20:30:40", "10:20:30.5", "10.20", "10:20 AM", "24:00", "23:59:60", "00:00:60", ""} {
						if !one(d + " Jan " + y + " " + t + " +0000") {
							return
						}
					}
				}
			}
			// every month and day name, right and wrong
			for _, mn := range append(append([]string{}, monthCased...), "January", "Foo", "Ja", "Janu", "1", "01", "", "Mai", "Okt", "Sept", "J", "jAN", "FEB", "mar", "Мар") {
				for _, dn := range append(append([]string{}, dayCased...), "Monday", "Foo", "Mo", "", "M", "mON", "TUE", "sun", "Thur", "Tues") {
					if !one(dn+", 2 "+mn+" 2006 15:04:05 -0700") || !one(dn+" 2 "+mn+" 2006 15:04 UTC") {
						return
					}
				}
			}
			tok := []string{"Mon", ",", " ", "1", "11", "Jan", "2006", "06", ":", "+0100", "UTC", "(c)", "\r\n ", "May"}
			d := 4
			if g.Thorough() {
				d = 6
			}
			tree(g, "date", []string{""}, tok, []string{""}, d, viableDate)
			d2 := 3
			if g.Thorough() {
				d2 = 5
			}
			tree(g, "date", []string{"Mon, 1 Jan", "1 Jan 2006 15:0", "1 Jan 06 1", "1 Jan 2006 15:04:05", "1 Jan"}, tok, []string{""}, d2, viableDate)
			sym := symbols
			if !g.Thorough() {
				sym = []string{"0", "9", "5", " ", ":", "+", "-", ",", "(", ")", "a", "J", "T", "\r\n", "\r\n ", "\t", "(c)", ".", "\x00", "é", "２", ";", "\"", "\\"}
			}
			sds := append(append([]string{}, seedDates...), "Mon, 02 Jan 2006 15:04:05 -0700", "9 Sep 1999 9:09 GMT", "Sat, 1 May 10 01:01:01 PDT")
			for _, s := range sds {
				if !strings.Contains(s, "\xff") {
					neighbours(s, sym, one)
				}
			}
			// dropping and exchanging tokens
			parts := []string{"Fri", ",", " ", "21", " ", "Nov", " ", "1997", " ", "09", ":", "55", ":", "06", " ", "-0600"}
			for i := range parts {
				for j := i; j <= len(parts); j++ {
					one(strings.Join(parts[:i], "") + strings.Join(parts[j:], ""))
					one(strings.Join(parts[i:j], ""))
					if j < len(parts) {
						q := append([]string{}, parts...)
						q[i], q[j] = q[j], q[i]
						one(strings.Join(q, ""))
					}
				}
			}
		},
	})

	// ---- C16: comments, white space, case and optional parts of dates ----
	register(&engine.Check{
		ID: "C16", Level: "model_checking", Judge: judgeDateWant,
		Rule:        "templates with a slot at every place where a date-time allows comments or white space, up to two of them deviating; every mixture of cases of month, day and zone names; presence of every optional part; the moment is that of the plain spelling, known by construction",
		Assumptions: []string{"folds are single"},
		Enumerate: func(g *engine.Gen) {
			one := func(in string, want model.DateTime) bool {
				g.Transitions++
				return g.Emit(engine.Case{Kind: "date", In: []string{in}, Want: []string{fmt.Sprint(want.Unix()), fmt.Sprint(want.Offset)}})
			}
			dt := func(y, mo, d, h, mi, s, off int) model.DateTime {
				return model.DateTime{Year: y, Month: mo, Day: d, Hour: h, Min: mi, Sec: s, Offset: off}
			}
			ts := []struct {
				t, def string
				w      model.DateTime
			}{
				{"\x1aFri\x1a,\x1a21 Nov 1997 09:55:06 -0600\x1a", "", dt(1997, 11, 21, 9, 55, 6, -21600)},
				{"\x1a21\x1aNov 1997 09\x1a:\x1a55\x1a:\x1a06 -0600\x1a", "", dt(1997, 11, 21, 9, 55, 6, -21600)},
				{"\x1a21\x1aNov\x1a97\x1a09:55\x1a-0600\x1a", " ", dt(1997, 11, 21, 9, 55, 0, -21600)},
				{"1\x1aMay\x1a97\x1a1\x1a:\x1a02\x1aEDT\x1a", "", dt(1997, 5, 1, 1, 2, 0, -14400)},
				{"\x1aTue\x1a,\x1a1\x1aJul\x1a03\x1a10\x1a:\x1a52\x1a:\x1a37\x1aGMT\x1a", "", dt(2003, 7, 1, 10, 52, 37, 0)},
				{"31 Dec 1999 \x1a23\x1a:\x1a59\x1a:\x1a60\x1a", "", dt(1999, 12, 31, 23, 59, 60, 0)},
			}
			for round := 1; round <= 2; round++ {
				for ti, t := range ts {
					v := cfwsVariants
					if round == 2 && !g.Thorough() {
						v = v[:16]
						if ti == 4 || ti == 5 {
							v = []string{"(c)", " ", "\r\n ", `(\))`, "(a) ", "\t(12:34)"}
						}
					}
					ok := slots(t.t, t.def, v, round, func(s string) bool {
						if twoFolds(s) {
							return true
						}
						if strings.Contains(s, ")-0600") || strings.Contains(s, "55-0600") {
							return true // an offset needs white space before it
						}
						return one(s, t.w)
					})
					if !ok {
						return
					}
				}
			}
			// the white space around a four-digit year is FWS, and must be there
			for _, a := range []string{" ", "\t", "  ", "\r\n ", " \r\n\t", " \t "} {
				for _, b := range []string{" ", "\t", "  ", "\r\n ", " \r\n\t", " \t "} {
					for _, c := range []string{" ", "\t", "  ", "\r\n ", " \r\n\t"} {
						one("21 Nov"+a+"1997"+b+"09:55:06"+c+"-0600", dt(1997, 11, 21, 9, 55, 6, -21600))
						one("Fri,"+a+"21"+c+"Nov 1997"+b+"09:55 -0600", dt(1997, 11, 21, 9, 55, 0, -21600))
					}
				}
			}
			// RFC 5322 section 4.3 also has comments there
			for _, s := range []string{"21 Nov (c) 1997 09:55:06 -0600", "21 Nov 1997 (c) 09:55:06 -0600", "21 Nov(c)1997(c)09:55:06 -0600"} {
				one(s, dt(1997, 11, 21, 9, 55, 6, -21600))
			}
			// case
			cases := func(s string, f func(string) bool) bool {
				for mask := 0; mask < 1<<len(s); mask++ {
					b := []byte(strings.ToLower(s))
					for i := range b {
						if mask>>i&1 == 1 {
							b[i] -= 32
						}
					}
					if !f(string(b)) {
						return false
					}
				}
				return true
			}
			for i, mn := range monthCased {
				w := dt(1980+i, i+1, 3+i, 4, 5, 6, 3600)
				cases(mn, func(s string) bool {
					return one(fmt.Sprintf("%d %s %d 04:05:06 +0100", 3+i, s, 1980+i), w) && one(fmt.Sprintf("%02d%s%02d 4:05:06 0100", 3+i, s, 80+i), w)
				})
			}
			for _, dn := range dayCased {
				cases(dn, func(s string) bool {
					return one(s+", 2 Jan 2006 15:04:05 -0700", dt(2006, 1, 2, 15, 4, 5, -25200)) && one(s+",2Jan06 15:04", dt(2006, 1, 2, 15, 4, 0, 0)) && one(" "+s+" , 2 Jan 2006 15:04:05 MST", dt(2006, 1, 2, 15, 4, 5, -25200))
				})
			}
			// optional parts: all combinations, with every field padded or not
			for _, dn := range []string{"", "Mon, ", "Mon,", "(c) Sun (d), "} {
				for _, d := range []string{"2", "02", " 2", "(c)2"} {
					for _, y := range []string{" 2006 ", " 06 ", "06 ", "\t2006\t"} {
						for _, h := range []string{"3", "03", "3 ", "03(c)"} {
							for _, s := range []string{"", ":05", " : 05", ":05 "} {
								for _, z := range []string{"", " +0130", " 0130", "UTC", " utc", " (c)"} {
									w := dt(2006, 1, 2, 3, 4, 0, 0)
									if s != "" {
										w.Sec = 5
									}
									if strings.Contains(z, "0130") {
										w.Offset = 5400
									}
									if !g.Thorough() && dn != "" && d != "2" && h != "3" && z != "" {
										continue
									}
									if !one(dn+d+" Jan"+y+h+":04"+s+z, w) {
										return
									}
								}
							}
						}
					}
				}
			}
		},
	})
}

// judgeDateWant compares with the expectation by construction. Want = Unix
// seconds, offset.
func judgeDateWant(c engine.Case) engine.Verdict {
	in := c.In[0]
	t, err := rfc5322.ParseDateTime(in)
	if err != nil {
		return engine.Verdict{Bad: fmt.Sprintf("rejected: %v", err), Outcome: "rejected"}
	}
	_, off := t.Zone()
	if got := []string{fmt.Sprint(t.Unix()), fmt.Sprint(off)}; got[0] != c.Want[0] || got[1] != c.Want[1] || t.Nanosecond() != 0 {
		return engine.Verdict{Bad: fmt.Sprintf("got %v (Unix time %s, offset %s), expected Unix time %s, offset %s", t, got[0], got[1], c.Want[0], c.Want[1]), Outcome: "accepted"}
	}
	return engine.Verdict{Outcome: fmt.Sprintf("%s %s", c.Want[0], c.Want[1])}
}
