package css

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// again states that each rule of a style sheet, written as CSS, loads as that rule.
func again(src string) {
	rules, err := cascadia.ExtractRules(strings.NewReader(src), false)
	if err != nil {
		return
	}
	rules2, err := cascadia.ExtractRules(strings.NewReader(src+".z{y:x}"), false)
	if err != nil || len(rules2) != len(rules)+1 || len(rules2[len(rules)].Declarations) != 1 {
		return // what comes after the sheet is part of it
	}
	for _, r := range rules {
		text := r.ToCssFormat()
		vs.Observe("text", text)
		got, err := cascadia.ExtractRules(strings.NewReader(text), false)
		vs.Reach("written")
		vs.Assert(err == nil && len(got) == 1, "the CSS text of a rule is not a rule")
		vs.Assert(vs.Eq(got[0].GetSelector(), r.GetSelector()), "the CSS text of a rule has another selector")
		vs.Assert(len(got[0].Declarations) == len(r.Declarations), "the CSS text of a rule has other declarations")
		for i, d := range r.Declarations {
			e := got[0].Declarations[i]
			vs.Assert(vs.Eq(d.Property, e.Property), "the CSS text of a rule sets another property")
			vs.Assert(vs.Eq(d.Value, e.Value), "the CSS text of a rule has another value")
		}
		vs.Assert(vs.Eq(got[0].ToCssFormat(), text), "the CSS text of a rule changes when it is loaded")
	}
}

// P03_items: rules among every two items of P02_items.
func P03_items() {
	g := &gen{}
	for i := 0; i < 2; i++ {
		g.item(vs.Choose(kinds), 1)
	}
	g.rule()
	again(g.b.String())
}

// P03_selectors: lists of two selectors as in P02_selectors.
func P03_selectors() {
	ws := blanks[vs.Choose(len(blanks))]
	a, b := vs.StrIn(1, ident), vs.StrIn(1, ident)+vs.StrIn(1, identMore)
	s, _ := selector(vs.Choose(forms), a, b, ws)
	t, _ := selector(vs.Choose(forms), b, a, ws)
	again(s + ws + "," + ws + t + ws + "{color:red;x-y:z}")
}

// P03_names: class and property names of up to two (thorough: three) letters, digits and signs, each written in one of three ways.
func P03_names() {
	w := ""
	for i := 1 + vs.Choose(pick(2, 3)); i > 0; i-- {
		switch vs.Choose(4) {
		case 0:
			w += vs.StrIn(1, ident)
		case 1:
			w += "\\" + vs.StrIn(1, "!\"#$%&'()*+,./:;<=>?@[]^`{|}~-_\\ghz")
		case 2:
			w += "\\3" + vs.StrIn(1, "0123456789abcdef") + " "
		case 3:
			w += "\\" + vs.StrIn(1, "012") + vs.StrIn(1, "0123456789abcdef") + " "
		}
	}
	switch vs.Choose(4) {
	case 0:
		again("." + w + "{a:b}")
	case 1:
		again(".a{" + w + ":b;c:d}")
	case 2:
		again(".a{--" + w + ":b;c:d}")
	case 3:
		again(".a{b:" + w + " x;c:d " + w + "}")
	}
}

// P03_holes: up to three (thorough: four) significant characters but quotes in a value, a property name, and a selector, and up to three (four)
// in a string.
func P03_holes() {
	h := vs.StrIn(vs.Choose(pick(3, 4)+1), "a.{};:@()[],\\/!#-<> \n\x00")
	switch vs.Choose(5) {
	case 0:
		again(".a{b:c" + h + "d;e:f}")
	case 1:
		again(".a{--b:c" + h + "d;e:f}")
	case 2:
		again(".a" + h + "{b:c;e:f}")
	case 3:
		again(".a{b" + h + ":c}")
	case 4:
		again(".a{b:c \"" + vs.StrIn(len(h), "a;{}':(/*\\ ") + "\";e:f}")
	}
}

// P03_values: two declarations with values of 18 forms and any letters, empty ones and important ones among them, in one or two selectors of a list.
func P03_values() {
	l := vs.StrIn(1, identMore)
	value := func() string {
		return []string{"x" + l, "1px " + l, "x !important", "x" + l + "!IMPORTANT", "\"" + l + ";}\"", "'" + l + "\"' x", "url(" + l + ")", "url('" + l + "')",
			"calc(1px + -2px*" + l + ")", "a,b" + l + ",  c", "1px/2px " + l, "#fff" + l, "-1.5e3 50% .5em", "var(--" + l + "x, 1px)", "U+26, " + l, "f(a(b) [c])",
			"", "\\" + l + " x"}[vs.Choose(18)]
	}
	p := []string{"color", "--x" + l, "-x-y" + l, "--X"}
	again([]string{".a", ".a,.b:hover", ".a .b"}[vs.Choose(3)] + "{" + p[vs.Choose(4)] + ":" + value() + ";" + p[vs.Choose(2)] + ": " + value() + "}")
}

// P03_large: rules of 40 (thorough: 150) declarations, names and values of 60 (300) characters.
func P03_large() {
	n := pick(40, 150)
	l := vs.StrIn(1, identMore)
	s := "." + strings.Repeat("a\\:"+l, n/2) + "{"
	for i := 0; i < n; i++ {
		s += "p" + letters2(i/2) + ":" + strings.Repeat("v"+l+" ", i%7) + "x;"
	}
	s += "--" + strings.Repeat("q"+l, n) + ":" + strings.Repeat("f("+l, n) + strings.Repeat(")", n) + "}"
	again(s)
}
