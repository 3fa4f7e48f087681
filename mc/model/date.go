package model

import (
	"strconv"
	"strings"
)

// DateTime is the meaning of a date-time: civil fields and offset, before any
// calendar arithmetic.
type DateTime struct {
	Day, Month, Year int
	TwoDigit         bool // Year is the two digits as written
	Hour, Min, Sec   int
	Offset           int // seconds east of UTC
	BadRange         bool
}

// DateResult is what the model says about one date-time input.
type DateResult struct {
	Syntax bool // the input is in the date-time language
	Viable bool
	Parses []DateTime // distinct meanings, preferred first
}

var dateTimeRule = buildDate()

var monthNames = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

var obsZones = []struct {
	name  string
	hours int
}{{"ut", 0}, {"utc", 0}, {"gmt", 0}, {"est", -5}, {"edt", -4}, {"cst", -6}, {"cdt", -5}, {"mst", -7}, {"mdt", -6}, {"pst", -8}, {"pdt", -7}}

// lit matches a word without regard to ASCII case and yields val.
func lit(word, val string) P {
	return func(c *ctx, pos int) []R {
		for i := 0; i < len(word); i++ {
			if pos+i >= len(c.in) {
				c.hitEnd = true
				return nil
			}
			r := c.in[pos+i]
			if 'A' <= r && r <= 'Z' {
				r += 'a' - 'A'
			}
			if r != rune(word[i]) {
				return nil
			}
		}
		return []R{{pos + len(word), val}}
	}
}

// exactly-space helpers shared with the address grammar
type spaces struct{ fws, cfws P }

func buildSpaces() spaces {
	var comment P
	crlf := void(cat(ch('\r'), ch('\n')))
	wsps := plus(term(isWSP))
	fws := memo(void(alt(cat(opt(cat(star(term(isWSP)), crlf)), wsps), cat(wsps, crlf, wsps))))
	qp := void(cat(ch('\\'), term(func(r rune) bool {
		return isPrint(r) || isNonASCII(r) || isWSP(r) || r == 0 || isNoWSCTL(r) || r == '\n' || r == '\r'
	})))
	comment = memo(void(cat(ch('('), star(cat(opt(fws), alt(term(isCtext), qp, lazy(&comment)))), opt(fws), ch(')'))))
	cfws := memo(void(alt(cat(plus(cat(opt(fws), comment)), opt(fws)), fws)))
	return spaces{fws, cfws}
}

func buildDate() P {
	sp := buildSpaces()
	fws, oc := sp.fws, opt(sp.cfws)
	d := term(isDigit)
	field := func(tag string, p P) P { return apply(p, func(s string) string { return tag + s + ";" }) }

	var names []P
	for _, n := range []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"} {
		names = append(names, lit(n, ""))
	}
	dayOfWeek := cat(oc, alt(names...), oc)
	day := field("d", cat(oc, d, opt(d), oc))
	var ms []P
	for i, n := range monthNames {
		ms = append(ms, lit(n, strconv.Itoa(i+1)))
	}
	month := field("m", alt(ms...))
	year := field("y", alt(cat(fws, d, d, d, d, fws), cat(oc, d, d, oc)))
	hour := field("H", cat(oc, opt(d), d, oc))
	minute := field("M", cat(oc, d, d, oc))
	second := field("S", cat(oc, d, d, oc))
	offset := field("o", cat(opt(alt(void(ch('+')), ch('-'))), d, d, d, d))
	var zs []P
	for _, z := range obsZones {
		zs = append(zs, field("z", lit(z.name, strconv.Itoa(z.hours))))
	}
	zone := alt(cat(fws, offset), alt(zs...))
	return cat(opt(cat(dayOfWeek, void(ch(',')))), day, month, year, hour, void(ch(':')), minute,
		opt(cat(void(ch(':')), second)), opt(zone), oc)
}

// DaysIn gives the length of a month in the proleptic Gregorian calendar.
func DaysIn(month, year int) int {
	switch month {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if year%4 == 0 && (year%100 != 0 || year%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// Date evaluates the model; now is the current year, which gives two-digit
// years their century.
func Date(in string, now int) DateResult {
	c := &ctx{in: []rune(in), memo: map[memoKey][]R{}}
	var res DateResult
	for _, r := range dateTimeRule(c, 0) {
		if r.End == len(c.in) {
			res.Syntax = true
			res.Parses = append(res.Parses, undate(r.Val, now))
			c.hitEnd = true
		}
	}
	res.Viable = c.hitEnd
	return res
}

func undate(s string, now int) DateTime {
	var dt DateTime
	for _, f := range strings.Split(strings.TrimSuffix(s, ";"), ";") {
		v, _ := strconv.Atoi(strings.TrimPrefix(f[1:], "-"))
		switch f[0] {
		case 'd':
			dt.Day = v
		case 'm':
			dt.Month = v
		case 'y':
			dt.Year = v
			if len(f) == 3 {
				dt.TwoDigit = true
				dt.Year = Century(v, now)
			}
		case 'H':
			dt.Hour = v
		case 'M':
			dt.Min = v
		case 'S':
			dt.Sec = v
		case 'z':
			dt.Offset = -v * 3600
		case 'o':
			dt.Offset = v/100*3600 + v%100*60
			if f[1] == '-' {
				dt.Offset = -dt.Offset
			}
			dt.BadRange = dt.BadRange || v%100 > 59
		}
	}
	dt.BadRange = dt.BadRange || dt.Day < 1 || dt.Day > DaysIn(dt.Month, dt.Year) ||
		dt.Hour > 23 || dt.Min > 59 || dt.Sec > 60
	return dt
}

// Century gives a two-digit year its century: the latest year with these two
// digits that is not after the current one.
func Century(yy, now int) int {
	y := now - now%100 + yy
	if y > now {
		y -= 100
	}
	return y
}

// Unix is the number of seconds since 1970 of the moment dt denotes.
func (dt DateTime) Unix() int64 {
	// days before the year, then before the month (proleptic Gregorian)
	y := int64(dt.Year) - 1
	days := y*365 + fdiv(y, 4) - fdiv(y, 100) + fdiv(y, 400)
	for m := 1; m < dt.Month; m++ {
		days += int64(DaysIn(m, dt.Year))
	}
	days += int64(dt.Day) - 1
	const epoch = 719162 // days before 1970-01-01
	return (days-epoch)*86400 + int64(dt.Hour)*3600 + int64(dt.Min)*60 + int64(dt.Sec) - int64(dt.Offset)
}

func fdiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}
