package sel

import (
	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

func isHex(c byte) bool {
	return vs.Or(vs.Or(vs.And('0' <= c, c <= '9'), vs.And('a' <= c, c <= 'f')), vs.And('A' <= c, c <= 'F'))
}

func isStart(c byte) bool {
	return vs.Or(vs.Or(vs.And('a' <= c, c <= 'z'), vs.And('A' <= c, c <= 'Z')), vs.Or(c == '_', c > 127))
}

func isName(c byte) bool {
	return vs.Or(isStart(c), vs.Or(vs.And('0' <= c, c <= '9'), c == '-'))
}

func hexVal(c byte) int {
	if c <= '9' {
		return int(c - '0')
	}
	return int(c|0x20) - 'a' + 10
}

// decodeEscape decodes the escape after the backslash before s[i], as CSS Syntax 4.3.7 says.
func decodeEscape(s string, i int) (string, int) {
	if !isHex(s[i]) {
		return s[i : i+1], i + 1
	}
	v, n := 0, 0
	for n < 6 && i < len(s) && isHex(s[i]) {
		v = v*16 + hexVal(s[i])
		i++
		n++
	}
	if i < len(s) {
		if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
			i += 2
		} else if vs.In(s[i], " \t\n\f\r") {
			i++
		}
	}
	if vs.Or(v == 0, vs.Or(v > 0x10FFFF, vs.And(v >= 0xD800, v <= 0xDFFF))) {
		v = 0xFFFD
	}
	return utf8of(v), i
}

// utf8of encodes a code point.
func utf8of(v int) string {
	switch {
	case v < 0x80:
		return string([]byte{byte(v)})
	case v < 0x800:
		return string([]byte{byte(0xC0 | v>>6), byte(0x80 | v&0x3F)})
	case v < 0x10000:
		return string([]byte{byte(0xE0 | v>>12), byte(0x80 | v>>6&0x3F), byte(0x80 | v&0x3F)})
	}
	return string([]byte{byte(0xF0 | v>>18), byte(0x80 | v>>12&0x3F), byte(0x80 | v>>6&0x3F), byte(0x80 | v&0x3F)})
}

// decodeName decodes a name that makes up all of s; ok is false if s is not one. first tells
// whether it begins as an identifier beyond doubt (one hyphen at most, then a letter or an
// escape).
func decodeName(s string) (name string, ok, first bool) {
	i := 0
	if i < len(s) && s[i] == '-' {
		name = "-"
		i++
	}
	first = i < len(s) && (isStart(s[i]) || s[i] == '\\')
	for i < len(s) {
		switch {
		case isName(s[i]):
			name += s[i : i+1]
			i++
		case s[i] == '\\' && i+1 < len(s) && !vs.In(s[i+1], "\n\r\f"):
			var t string
			t, i = decodeEscape(s, i+1)
			name += t
		default:
			return "", false, false
		}
	}
	return name, len(s) > 0, first
}

// name states that s is read as the name CSS says it is.
func name(s string) {
	want, ok, first := decodeName(s)
	sel, err := cascadia.ParseWithPseudoElement("." + s)
	vs.Observe("err", err != nil)
	if err != nil {
		vs.Assert(!(ok && first), "an identifier is rejected")
		return
	}
	c, isClass := sel.(cascadia.ClassSelector)
	if !isClass {
		vs.Assert(!ok, "an identifier is not read as one")
		return
	}
	vs.Observe("class", c.Class)
	if ok {
		vs.Assert(vs.Eq(c.Class, want), "a name is decoded wrongly")
	} else { // white space and comments may follow
		g := &gram{s: s}
		g.name()
		want, _, _ := decodeName(s[:g.i])
		vs.Assert(vs.Eq(c.Class, want), "a name is decoded wrongly")
		vs.Assert(g.i < len(s) && vs.In(s[g.i], " \t\n\r\f/"), "more than a name is read as one")
	}
	n := elem("a", "class", want, "id", want)
	if !first {
		return
	}
	id, err := cascadia.ParseWithPseudoElement("#" + s)
	vs.Assert(err == nil && id.Match(n), "an id is decoded wrongly")
	n.Data = want
	tag, err := cascadia.ParseWithPseudoElement(s)
	vs.Assert(err == nil && lowerIs(tag.String(), want, n, tag), "a type is decoded wrongly")
}

// lowerIs tells whether a type selector read from a name matches the element of that name.
func lowerIs(_, want string, n *html.Node, tag cascadia.Sel) bool {
	b := []byte(want)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	n.Data = string(b)
	return tag.Match(n)
}

// S03_names: names of up to three (thorough: four) bytes.
func S03_names() { name(vs.Bytes(1 + vs.Choose(pick(3, 4)))) }

// S03_escapes: a letter, a backslash and up to four (thorough: five) bytes, and an ending.
func S03_escapes() {
	s := []string{"a", "-", ""}[vs.Choose(3)] + "\\" + vs.Bytes(1+vs.Choose(pick(3, 4)))
	name(s + []string{"", "b", "1", "\\61"}[vs.Choose(4)])
}

// S03_hex: one to three hexadecimal digits in any case followed by up to two characters of any
// white space, a digit or a letter, in a class name and in a string.
func S03_hex() {
	hexed(vs.StrIn(1+vs.Choose(3), "0123456789abcdefABCDEF") + vs.StrIn(vs.Choose(3), " \t\n\r\f-b"))
}

// S03_hexlong: four to seven hexadecimal digits, all code points, with up to one character after
// them.
func S03_hexlong() {
	s := vs.StrIn(4+vs.Choose(4), "0123456789")
	if vs.Choose(2) == 1 {
		s = "10"[:len(s)&1] + vs.StrIn(2, "0123456789abcdef") + vs.StrIn(2, "CD89") + vs.StrIn(2, "0123456789ABCDEF")
	}
	hexed(s + vs.StrIn(vs.Choose(2), " \n-"))
}

// hexed states that an escape is decoded as CSS says in a class name and in a string.
func hexed(s string) {
	s = "\\" + s
	if vs.Choose(2) == 0 {
		name, ok, _ := decodeName(s)
		sel, err := cascadia.ParseWithPseudoElement("." + s)
		if err == nil && ok {
			vs.Reach("hex in a name")
			c, isClass := sel.(cascadia.ClassSelector)
			vs.Assert(isClass && vs.Eq(c.Class, name), "a name is decoded wrongly")
		} else if ok {
			vs.Assert(false, "a name is rejected")
		}
		return
	}
	sel, err := cascadia.ParseWithPseudoElement("[a=\"" + s + "\"]")
	want, ok := decodeString(s, '"')
	vs.Observe("want", want)
	if !ok {
		vs.Assert(err != nil, "a broken string is accepted")
		return
	}
	vs.Reach("hex in a string")
	vs.Assert(err == nil && sel.Match(elem("a", "a", want)), "a string is decoded wrongly")
}

// decodeString decodes the body of a string with the given quote; ok is false if it holds an
// unescaped newline, the quote, or an unfinished escape.
func decodeString(s string, quote byte) (v string, ok bool) {
	i := 0
	for i < len(s) {
		switch {
		case s[i] == quote || vs.In(s[i], "\n\r\f"):
			return "", false
		case s[i] == '\\':
			if i+1 == len(s) {
				return "", false
			}
			if s[i+1] == '\r' && i+2 < len(s) && s[i+2] == '\n' {
				i += 3
			} else if vs.In(s[i+1], "\n\r\f") {
				i += 2
			} else {
				var t string
				t, i = decodeEscape(s, i+1)
				v += t
			}
		default:
			v += s[i : i+1]
			i++
		}
	}
	return v, true
}

// str states that s is read as the string CSS says it is.
func str(s string, quote byte) {
	q := string([]byte{quote})
	want, ok := decodeString(s, quote)
	sel, err := cascadia.ParseWithPseudoElement("[a=" + q + s + q + "]")
	vs.Observe("err", err != nil)
	if !ok {
		vs.Assert(err != nil || hasQuote(s, quote), "a broken string is accepted")
		return
	}
	vs.Assert(err == nil, "a string is rejected")
	vs.Observe("want", want)
	vs.Assert(sel.Match(elem("a", "a", want)), "a string is decoded wrongly")
	other := vs.Bytes(len(want))
	vs.Assert(sel.Match(elem("a", "a", other)) == vs.Eq(other, want), "a string is decoded to several values")
	vs.Assert(!sel.Match(elem("a", "a", want+"x")), "a string is decoded to several values")
	// strings in :contains are read in the same way
	sel, err = cascadia.Parse(":contains(" + q + s + q + ")")
	vs.Assert(err == nil, "a string in :contains is rejected")
}

func hasQuote(s string, q byte) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = vs.Or(r, s[i] == q)
	}
	return r
}

// S03_strings: string bodies of up to three (thorough: four) bytes in both kinds of quotes.
func S03_strings() { str(vs.Bytes(vs.Choose(pick(3, 4)+1)), "\"'"[vs.Choose(2)]) }

// S03_newlines: strings of up to five (thorough: six) line ends, backslashes and quotes.
func S03_newlines() { str(vs.StrIn(vs.Choose(pick(5, 6)+1), "\\\r\n\f'\"a6"), "\"'"[vs.Choose(2)]) }
