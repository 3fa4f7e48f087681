package model

import "strings"

// Mailbox is one expected entry of an address list.
type Mailbox struct{ Name, Addr string }

// Decoder gives the meaning of a syntactically valid RFC 2047 encoded word.
type Decoder func(raw, charset, enc, text string) string

// ---- character classes (RFC 5322 3.2.3 and friends, RFC 6532) ----

func isAlpha(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
func isDigit(r rune) bool { return '0' <= r && r <= '9' }
func isNonASCII(r rune) bool {
	return r >= 0x80
}
func IsAtext(r rune) bool {
	return isAlpha(r) || isDigit(r) || isNonASCII(r) || r < 0x80 && strings.ContainsRune("!#$%&'*+-/=?^_`{|}~", r)
}
func isNoWSCTL(r rune) bool {
	return 1 <= r && r <= 8 || r == 11 || r == 12 || 14 <= r && r <= 31 || r == 127
}
func isPrint(r rune) bool { return 33 <= r && r <= 126 }
func isCtext(r rune) bool {
	return isPrint(r) && r != '(' && r != ')' && r != '\\' || isNoWSCTL(r) || isNonASCII(r)
}
func isQtext(r rune) bool {
	return isPrint(r) && r != '"' && r != '\\' || isNoWSCTL(r) || isNonASCII(r)
}
func isDtext(r rune) bool {
	return isPrint(r) && r != '[' && r != ']' && r != '\\' || isNonASCII(r)
}
func isTokenChar(r rune) bool {
	return isAlpha(r) || isDigit(r) || r < 0x80 && strings.ContainsRune("!#$%&'*+-\\^_`{|}~", r)
}
func isEncChar(r rune) bool { return isPrint(r) && r != '?' }
func isWSP(r rune) bool     { return r == ' ' || r == '\t' }

// Structure markers inside values. They are invalid UTF-8, so they can not
// collide with text.
const (
	mWord = "\xf8"
	mUnsp = "\xf9"
	mName = "\xfa" // ends a display name
	mAddr = "\xfb" // ends a mailbox
)

var addressList = buildAddr()

func buildAddr() P {
	var comment P

	crlf := void(cat(ch('\r'), ch('\n')))
	wsp := term(isWSP)
	wsps := plus(wsp)
	// Folding: a CRLF is semantically invisible, the white space stays.
	obsFWS := cat(wsps, crlf, wsps)
	fws := memo(alt(cat(opt(cat(star(wsp), crlf)), wsps), obsFWS))

	// A quoted-pair denotes the character after the backslash.
	quotedPair := mapCat([]bool{false, true}, ch('\\'), term(func(r rune) bool {
		return isPrint(r) || isNonASCII(r) || isWSP(r) || r == 0 || isNoWSCTL(r) || r == '\n' || r == '\r'
	}))

	ccontent := alt(term(isCtext), quotedPair, lazy(&comment))
	comment = memo(void(cat(ch('('), star(cat(opt(fws), ccontent)), opt(fws), ch(')'))))
	cfws := memo(void(alt(cat(plus(cat(opt(fws), comment)), opt(fws)), fws)))
	oc := opt(cfws)

	// atoms are maximal, except that one may end where an encoded word starts
	atomEnds := func(c *ctx, pos int) []R {
		i := pos
		for i < len(c.in) && IsAtext(c.in[i]) {
			i++
		}
		if i == len(c.in) {
			c.hitEnd = true
		}
		if i == pos {
			return nil
		}
		out := []R{{i, string(c.in[pos:i])}}
		for j := i - 1; j > pos; j-- {
			if c.in[j] == '=' && (j+1 == len(c.in) || c.in[j+1] == '?') {
				out = append(out, R{j, string(c.in[pos:j])})
			}
		}
		return out
	}
	atext := run1(IsAtext)
	atom := P(atomEnds)
	dotAtom := memo(cat(atext, star(cat(ch('.'), atext)), opt(ch('.'))))

	quotedContent := alt(term(isQtext), quotedPair)
	quotedString := memo(mapCat([]bool{false, true, true, false}, ch('"'), star(cat(opt(fws), quotedContent)), opt(fws), ch('"')))

	tokenRun := run1(isTokenChar)
	encRun := run1(isEncChar)
	encodedWord := func(c *ctx, pos int) []R {
		p := pos
		var parts [3]string
		step := func(q P) bool {
			rs := q(c, p)
			if len(rs) == 0 {
				return false
			}
			p = rs[0].End
			return true
		}
		if !step(ch('=')) || !step(ch('?')) {
			return nil
		}
		for i, q := range []P{tokenRun, tokenRun, encRun} {
			s := p
			if !step(q) {
				return nil
			}
			parts[i] = string(c.in[s:p])
			if !step(ch('?')) {
				return nil
			}
		}
		if !step(ch('=')) {
			return nil
		}
		raw := string(c.in[pos:p])
		return []R{{p, c.decode(raw, parts[0], parts[1], parts[2])}}
	}

	word := memo(alt(
		plus(cat(oc, encodedWord, oc)),
		cat(oc, atom, oc),
		cat(oc, quotedString, oc),
	))

	mword := apply(word, func(s string) string { return mWord + s })
	unspaced := apply(alt(ch('.'), ch('@')), func(s string) string { return mUnsp + s })
	displayName := memo(apply(alt(plus(mword), cat(mword, star(alt(mword, unspaced, cfws)))), joinName))

	domainLiteral := cat(ch('['), star(cat(opt(fws), term(isDtext))), opt(fws), ch(']'))
	obsDomain := cat(atom, star(cat(ch('.'), atom)))
	domain := memo(cat(oc, alt(dotAtom, domainLiteral, obsDomain), oc))
	obsLocal := cat(word, star(cat(ch('.'), word)))
	localPart := memo(alt(cat(oc, dotAtom, oc), cat(oc, quotedString, oc), obsLocal))
	port := run1(isDigit)
	addrSpec := memo(cat(localPart, ch('@'), domain, opt(cat(ch(':'), port))))

	obsDomainList := cat(star(alt(cfws, ch(','))), ch('@'), domain, star(cat(ch(','), oc, opt(cat(ch('@'), domain)))))
	obsRoute := void(cat(obsDomainList, ch(':')))
	angle := memo(alt(
		mapCat([]bool{true, false, true, false, true}, oc, ch('<'), opt(addrSpec), ch('>'), oc),
		mapCat([]bool{true, false, true, true, false, true}, oc, ch('<'), obsRoute, addrSpec, ch('>'), oc),
	))
	nameAddr := cat(apply(opt(displayName), func(s string) string { return s + mName }), angle)
	mailbox := memo(apply(alt(nameAddr, apply(addrSpec, func(s string) string { return mName + s })),
		func(s string) string { return s + mAddr }))

	comma := void(ch(','))
	mailboxList := alt(
		cat(mailbox, star(cat(comma, mailbox))),
		cat(star(cat(oc, comma)), mailbox, star(cat(comma, opt(alt(mailbox, cfws))))),
	)
	obsGroupList := cat(plus(cat(oc, comma)), oc)
	groupList := memo(alt(mailboxList, cfws, obsGroupList))
	group := memo(mapCat([]bool{false, false, false, true, false, false, true},
		opt(ch('"')), displayName, ch(':'), opt(groupList), opt(ch('"')), opt(ch(';')), oc))
	address := memo(alt(mailbox, group))
	sep := void(alt(ch(','), ch(';')))
	list := alt(
		cat(address, star(cat(sep, address))),
		cat(star(cat(oc, comma)), address, star(cat(comma, opt(alt(address, cfws))))),
	)
	return list
}

// joinName: words separated by one space, '.' and '@' stick to their
// neighbours.
func joinName(s string) string {
	var b strings.Builder
	glue := false
	for _, e := range splitMarked(s) {
		switch {
		case e[0] == mUnsp[0]:
			glue = true
		case glue:
			glue = false
		case b.Len() > 0:
			b.WriteByte(' ')
		}
		b.WriteString(e[1:])
	}
	return b.String()
}

func splitMarked(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		for j < len(s) && s[j] != mWord[0] && s[j] != mUnsp[0] {
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// AddrResult is what the model says about one input.
type AddrResult struct {
	OK     bool        // the input is in the language
	Viable bool        // some extension of the input is in the language
	Parses [][]Mailbox // distinct meanings, preferred first
}

// Addresses evaluates the model on one input.
func Addresses(in string, dec Decoder) AddrResult {
	if in == "" {
		return AddrResult{OK: true, Viable: true, Parses: [][]Mailbox{nil}}
	}
	if dec == nil {
		dec = DecodeWord(nil)
	}
	c := &ctx{in: []rune(in), decode: dec, memo: map[memoKey][]R{}}
	var res AddrResult
	for _, r := range addressList(c, 0) {
		if r.End == len(c.in) {
			res.OK = true
			res.Parses = append(res.Parses, unpack(r.Val))
			c.hitEnd = true
		}
	}
	res.Viable = c.hitEnd
	return res
}

func unpack(s string) []Mailbox {
	var out []Mailbox
	for s != "" {
		i := strings.IndexByte(s, mAddr[0])
		n := strings.IndexByte(s[:i], mName[0])
		out = append(out, Mailbox{Name: s[:n], Addr: s[n+1 : i]})
		s = s[i+1:]
	}
	return out
}
