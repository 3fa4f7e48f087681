package model

import (
	"encoding/base64"
	"strings"
	"unicode/utf8"
)

// CharsetFunc converts bytes of a charset that RFC 2047 decoding does not
// know by itself; ok == false means that the conversion fails.
type CharsetFunc func(charset string, b []byte) (s string, ok bool)

// DecodeWord is an independent RFC 2047 decoder: an encoded word that can not
// be decoded denotes itself.
func DecodeWord(cs CharsetFunc) Decoder {
	return func(raw, charset, enc, text string) string {
		var b []byte
		switch enc {
		case "q", "Q":
			var ok bool
			if b, ok = decodeQ(text); !ok {
				return raw
			}
		case "b", "B":
			var err error
			if b, err = base64.StdEncoding.DecodeString(text); err != nil {
				return raw
			}
		default:
			return raw
		}
		switch strings.ToLower(charset) {
		case "utf-8":
			var sb strings.Builder
			for len(b) > 0 {
				r, n := utf8.DecodeRune(b)
				sb.WriteRune(r)
				b = b[n:]
			}
			return sb.String()
		case "iso-8859-1":
			var sb strings.Builder
			for _, x := range b {
				sb.WriteRune(rune(x))
			}
			return sb.String()
		case "us-ascii":
			var sb strings.Builder
			for _, x := range b {
				if x >= 0x80 {
					sb.WriteRune(utf8.RuneError)
				} else {
					sb.WriteByte(x)
				}
			}
			return sb.String()
		}
		if cs != nil {
			if s, ok := cs(strings.ToLower(charset), b); ok {
				return s
			}
		}
		return raw
	}
}

func decodeQ(s string) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '_':
			out = append(out, ' ')
		case c == '=':
			if i+2 >= len(s) {
				return nil, false
			}
			h, l := hexv(s[i+1]), hexv(s[i+2])
			if h < 0 || l < 0 {
				return nil, false
			}
			out = append(out, byte(h<<4|l))
			i += 2
		case c >= '!' && c <= '~':
			out = append(out, c)
		default:
			return nil, false
		}
	}
	return out, true
}

func hexv(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	}
	return -1
}
