package sel

import (
	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// at tells whether position pos is a*k+b for some k >= 0.
func at(pos, a, b int) bool {
	d := pos - b
	if a == 0 {
		return d == 0
	}
	if a > 0 {
		return vs.And(d >= 0, d%a == 0)
	}
	return vs.And(d <= 0, -d%-a == 0)
}

var nths = []string{":nth-child", ":nth-last-child", ":nth-of-type", ":nth-last-of-type"}

// family is a parent with the given children: a and b are elements, t is text, c a comment.
func family(kinds string) []*html.Node {
	p := elem("p")
	var out []*html.Node
	for i := 0; i < len(kinds); i++ {
		n := elem(kinds[i : i+1])
		switch kinds[i] {
		case 't':
			n = &html.Node{Type: html.TextNode, Data: "a"}
		case 'c':
			n = &html.Node{Type: html.CommentNode, Data: "a"}
		}
		p.AppendChild(n)
		out = append(out, n)
	}
	return out
}

// position is the position of the i-th of the kinds as the form f counts, or 0 if it has none.
func position(kinds string, i, f int) int {
	if kinds[i] != 'a' && kinds[i] != 'b' {
		return 0
	}
	pos := 0
	for j := range kinds {
		if f&1 == 0 && j > i || f&1 == 1 && j < i {
			continue
		}
		if (kinds[j] == 'a' || kinds[j] == 'b') && (f < 2 || kinds[j] == kinds[i]) {
			pos++
		}
	}
	return pos
}

// number writes a number of n digits and gives its value.
func number(n int) (string, int) {
	s := vs.StrIn(n, "0123456789")
	v := 0
	for i := 0; i < n; i++ {
		v = v*10 + int(s[i]-'0')
	}
	return s, v
}

// S04_formula: every a and b of up to three (thorough: four) digits and either sign, each of the
// four forms, every position among up to four (thorough: six) siblings.
func S04_formula() {
	digits := pick(3, 4)
	f := vs.Choose(4)
	text, a, b := "", 0, 0
	shape := vs.Choose(3)
	if shape != 0 {
		if vs.Choose(2) == 1 {
			text = "-"
		}
		s, v := number(digits)
		if text == "-" {
			v = -v
		}
		text += s + "n"
		a = v
	}
	if shape != 1 {
		sign := "+"
		if vs.Choose(2) == 1 {
			sign = "-"
		}
		s, v := number(digits)
		if sign == "-" {
			v = -v
		}
		text += sign + s
		b = v
	}
	sel, err := cascadia.Parse(nths[f] + "(" + text + ")")
	vs.Assert(err == nil, "a formula is rejected")
	kinds := "aaaaaa"[:1+vs.Choose(pick(4, 6))]
	i := vs.Choose(len(kinds))
	want := at(position(kinds, i, f), a, b)
	got := sel.Match(family(kinds)[i])
	vs.Observe("match", bits(got))
	vs.Assert(got == want, "an element's position is matched wrongly by "+nths[f])
	if want {
		vs.Reach("matched")
	} else {
		vs.Reach("not matched")
	}
}

// S04_big: every a of one digit and b of ten digits, either sign, the four forms, up to three
// siblings.
func S04_big() {
	f := vs.Choose(4)
	sa, a := number(1)
	sb, b := number(10)
	text := sa + "n"
	if vs.Choose(2) == 1 {
		text, a = "-"+text, -a
	}
	if vs.Choose(2) == 1 {
		text, b = text+"-"+sb, -b
	} else {
		text += "+" + sb
	}
	sel, err := cascadia.Parse(nths[f] + "(" + text + ")")
	vs.Assert(err == nil, "a formula is rejected")
	kinds := "aaa"[:1+vs.Choose(3)]
	i := vs.Choose(len(kinds))
	got := sel.Match(family(kinds)[i])
	vs.Observe("match", bits(got))
	vs.Assert(got == at(position(kinds, i, f), a, b), "an element's position is matched wrongly by "+nths[f])
}

var formulas = []struct {
	s    string
	a, b int
}{{"odd", 2, 1}, {"EVEN", 2, 0}, {"n", 1, 0}, {"-n+2", -1, 2}, {"3", 0, 3}, {"1", 0, 1}, {"-1", 0, -1}, {"0", 0, 0},
	{"2n-1", 2, -1}, {"3n+2", 3, 2}, {"n+3", 1, 3}, {"-2n+3", -2, 3}, {"0n+2", 0, 2}, {"+n", 1, 0}, {"-n", -1, 0},
	{"-0n+1", 0, 1}, {"+2n", 2, 0}, {"+2", 0, 2}, {"n-2", 1, -2}}

// kindsOf is every arrangement of up to n siblings.
func kindsOf(n int) string {
	k := ""
	for i := vs.Choose(n) + 1; i > 0; i-- {
		k += "abtc"[vs.Choose(4):][:1]
	}
	return k
}

// S04_siblings: every arrangement of up to four (thorough: five) elements of two types, texts
// and comments, against a number of formulas, and the first, last and only forms.
func S04_siblings() {
	kinds := kindsOf(pick(4, 5))
	all := family(kinds)
	f := vs.Choose(5)
	if f == 4 {
		for i, n := range all {
			p := [4]int{}
			for j := range p {
				p[j] = position(kinds, i, j)
			}
			one(":first-child", n, p[0] == 1)
			one(":last-child", n, p[1] == 1)
			one(":first-of-type", n, p[2] == 1)
			one(":last-of-type", n, p[3] == 1)
			one(":only-child", n, p[0] == 1 && p[1] == 1)
			one(":only-of-type", n, p[2] == 1 && p[3] == 1)
		}
		return
	}
	x := formulas[vs.Choose(len(formulas))]
	sel, err := cascadia.Parse(nths[f] + "(" + x.s + ")")
	vs.Assert(err == nil, "a formula is rejected")
	for i, n := range all {
		pos := position(kinds, i, f)
		vs.Assert(sel.Match(n) == (pos > 0 && at(pos, x.a, x.b)), "an element's position is matched wrongly by "+nths[f]+"("+x.s+")")
	}
}

func one(s string, n *html.Node, want bool) {
	sel, err := cascadia.Parse(s)
	vs.Assert(err == nil && sel.Match(n) == want, "an element's position is matched wrongly by "+s)
}

// anb reads s as the an+b notation of CSS Syntax; known is false where the harness does not
// decide (escapes).
func anb(s string) (a, b int, ok, known bool) {
	i := 0
	space := func() {
		for i < len(s) && vs.In(s[i], " \t\r\n\f") {
			i++
		}
	}
	digits := func() (int, bool) {
		v, from := 0, i
		for i < len(s) && vs.And('0' <= s[i], s[i] <= '9') {
			v = v*10 + int(s[i]-'0')
			i++
		}
		return v, i > from
	}
	space()
	end := len(s)
	for end > i && vs.In(s[end-1], " \t\r\n\f") {
		end--
	}
	s = s[:end]
	if i == len(s) {
		return 0, 0, false, true
	}
	if vs.In(s[i], "oOeE") {
		for j := i; j < len(s); j++ {
			if s[j] == '\\' {
				return 0, 0, false, false
			}
		}
		switch w := fold(s[i:]); {
		case len(w) == 3 && vs.Eq(w, "odd"):
			return 2, 1, true, true
		case len(w) == 4 && vs.Eq(w, "even"):
			return 2, 0, true, true
		}
		return 0, 0, false, true
	}
	sign := 1
	if s[i] == '-' {
		sign = -1
		i++
	} else if s[i] == '+' {
		i++
	}
	v, have := digits()
	v *= sign
	if i == len(s) {
		return 0, v, have, true
	}
	if !vs.In(s[i], "nN") {
		return 0, 0, false, true
	}
	i++
	if !have {
		v = sign
	}
	a = v
	space()
	if i == len(s) {
		return a, 0, true, true
	}
	if s[i] == '+' {
		sign = 1
	} else if s[i] == '-' {
		sign = -1
	} else {
		return 0, 0, false, true
	}
	i++
	space()
	v, have = digits()
	return a, sign * v, have && i == len(s), true
}

// argument states S04 for the text of an argument.
func argument(s string) {
	a, b, ok, known := anb(s)
	if !known {
		return
	}
	sel, err := cascadia.Parse(":nth-child(" + s + ")")
	vs.Observe("err", err != nil)
	vs.Assert((err == nil) == ok, "the wrong texts are accepted as a formula")
	if !ok {
		vs.Reach("bad formula")
		return
	}
	vs.Reach("good formula")
	for i, n := range family("aaaaa") {
		vs.Assert(sel.Match(n) == at(i+1, a, b), "a formula is read wrongly")
	}
}

// S04_argument: every argument of up to three (thorough: four) bytes but a slash.
func S04_argument() {
	s := vs.Bytes(1 + vs.Choose(pick(3, 4)))
	for i := 0; i < len(s); i++ {
		vs.Assume(s[i] != '/')
	}
	argument(s)
}

// S04_spelling: every argument of up to six (thorough: seven) characters of the notation.
func S04_spelling() {
	argument(vs.StrIn(1+vs.Choose(pick(6, 7)), "012+-nN "))
}

// S04_words: every spelling of odd and even, and near misses.
func S04_words() {
	argument(vs.StrIn(vs.Choose(2), " \t\n") + vs.StrIn(3+vs.Choose(2), "oOdDeEvVnN-") + vs.StrIn(vs.Choose(2), " \f\rd"))
}
