package sel

import (
	"strings"

	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// fold is ASCII lower case.
func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if vs.And('A' <= c, c <= 'Z') {
			b[i] = c + 32
		}
	}
	return string(b)
}

func blank(c byte) bool { return vs.In(c, " \t\n\f\r") }

// relation is what each operator means.
func relation(op, s, val string) bool {
	switch op {
	case "=":
		return vs.Eq(s, val)
	case "~=":
		// one of the white-space-separated words; an empty text or one with white space is none
		r := false
		for i := 0; i+len(val) <= len(s); i++ {
			at := vs.Eq(s[i:i+len(val)], val)
			if i > 0 {
				at = vs.And(at, blank(s[i-1]))
			}
			if j := i + len(val); j < len(s) {
				at = vs.And(at, blank(s[j]))
			}
			r = vs.Or(r, at)
		}
		for i := 0; i < len(val); i++ {
			r = vs.And(r, !blank(val[i]))
		}
		return vs.And(r, val != "")
	case "|=":
		if len(s) < len(val) {
			return false
		}
		if len(s) == len(val) {
			return vs.Eq(s, val)
		}
		return vs.And(vs.Eq(s[:len(val)], val), s[len(val)] == '-')
	case "^=":
		return val != "" && len(s) >= len(val) && vs.And(vs.Eq(s[:len(val)], val), !allBlank(s))
	case "$=":
		return val != "" && len(s) >= len(val) && vs.And(vs.Eq(s[len(s)-len(val):], val), !allBlank(s))
	case "*=":
		r := false
		for i := 0; i+len(val) <= len(s); i++ {
			r = vs.Or(r, vs.Eq(s[i:i+len(val)], val))
		}
		return val != "" && vs.And(r, !allBlank(s))
	}
	return true
}

// allBlank tells whether s is nothing but white space.
func allBlank(s string) bool { return strings.TrimSpace(s) == "" }

// plain is any byte that stands for itself in a double-quoted string.
func plain(n int) string {
	s := vs.Bytes(n)
	for i := 0; i < n; i++ {
		vs.Assume(!vs.In(s[i], "\"\\\n\r\f"))
	}
	return s
}

var ops = []string{"=", "~=", "|=", "^=", "$=", "*=", "!="}

// rel states S06 for one element and text.
func rel(op, attr, val string, icase bool) {
	text := "[x" + op + "\"" + val + "\""
	if icase {
		text += " i"
	}
	text += "]"
	sel, err := cascadia.ParseWithPseudoElement(text)
	vs.Assert(err == nil, "an attribute selector is rejected")
	n := elem("a", "x", attr)
	got := sel.Match(n)
	if icase {
		attr, val = fold(attr), fold(val)
	}
	var want bool
	if op == "!=" {
		want = !relation("=", attr, val)
	} else {
		want = relation(op, attr, val)
	}
	vs.Observe("match", got)
	vs.Assert(got == want, "an attribute selector with "+op+" matches wrongly")
	if want {
		vs.Reach("match")
	} else {
		vs.Reach("no match")
	}
}

// S06_relations: every operator over attribute values of up to three bytes and texts of up to
// two (thorough: four and three), case sensitive.
func S06_relations() {
	op := ops[vs.Choose(len(ops))]
	rel(op, vs.Bytes(vs.Choose(pick(3, 4)+1)), plain(vs.Choose(pick(2, 3)+1)), false)
}

// S06_insensitive: the same ignoring case.
func S06_insensitive() {
	op := ops[vs.Choose(len(ops))]
	rel(op, vs.Bytes(vs.Choose(pick(3, 4)+1)), plain(vs.Choose(pick(2, 3)+1)), true)
}

// S06_words: the word and dash operators over longer values of letters and separators.
func S06_words() {
	op := []string{"~=", "|=", "^=", "$=", "*="}[vs.Choose(5)]
	rel(op, vs.StrIn(vs.Choose(pick(5, 6)+1), "ab -\t\n"), vs.StrIn(vs.Choose(3), "ab -"), vs.Choose(2) == 1)
}

// S06_class: class and id selectors over class attributes of up to five (thorough: six)
// characters and names of up to two.
func S06_class() {
	name := vs.StrIn(1, idents) + vs.StrIn(vs.Choose(2), idents)
	attr := vs.Bytes(vs.Choose(pick(4, 5) + 1))
	n := elem("a", "class", attr, "id", attr)
	sel, err := cascadia.Parse("." + name)
	vs.Assert(err == nil, "a class selector is rejected")
	got := sel.Match(n)
	vs.Observe("class", got)
	vs.Assert(got == relation("~=", attr, name), "a class selector matches wrongly")
	sel, err = cascadia.Parse("#" + name)
	vs.Assert(err == nil, "an id selector is rejected")
	vs.Assert(sel.Match(n) == vs.Eq(attr, name), "an id selector matches wrongly")
}

// S06_attributes: elements, text and comments with up to two attributes of any one-byte names;
// presence and equality.
func S06_attributes() {
	n := &html.Node{Type: html.ElementNode, Data: "a"}
	switch vs.Choose(4) {
	case 1:
		n.Type = html.TextNode
	case 2:
		n.Type = html.CommentNode
	case 3:
		n.Type = html.DocumentNode
	}
	key := vs.StrIn(1, "abAB")
	has, eq := false, false
	for i := vs.Choose(3); i > 0; i-- {
		k, v := vs.StrIn(1, "abAB"), vs.StrIn(vs.Choose(2), "xy")
		n.Attr = append(n.Attr, html.Attribute{Key: k, Val: v})
		has = vs.Or(has, vs.Eq(k, fold(key)))
		eq = vs.Or(eq, vs.And(vs.Eq(k, fold(key)), vs.Eq(v, "x")))
	}
	el := n.Type == html.ElementNode
	sel, err := cascadia.Parse("[" + key + "]")
	vs.Assert(err == nil && sel.Match(n) == (el && has), "an attribute selector of presence matches wrongly")
	sel, err = cascadia.Parse("[ " + key + " = x ]")
	vs.Assert(err == nil && sel.Match(n) == (el && eq), "an attribute selector of equality matches wrongly")
	sel, err = cascadia.Parse("[" + key + "!='x']")
	vs.Assert(err == nil && sel.Match(n) == (el && !eq), "an attribute selector of inequality matches wrongly")
}
