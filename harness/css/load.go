package css

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// gen writes a style sheet and what loading it should give.
type gen struct {
	b    strings.Builder
	want []want
	next int
}

type decl struct{ prop, val string }

// want is one rule a style sheet contains.
type want struct {
	sel     string   // selector in a form of its own
	classes []string // classes mentioned
	decls   []decl
}

func (g *gen) w(s string) { g.b.WriteString(s) }

// name is a class name no other rule uses.
func (g *gen) name() string {
	g.next++
	return "c" + string([]byte{byte('a' + g.next)})
}

// rule writes a rule for a class of its own.
func (g *gen) rule() {
	c := g.name()
	d := decl{"p" + c, "v" + c}
	g.w("." + c + "{" + d.prop + ":" + d.val + "}")
	g.want = append(g.want, want{"." + c, []string{c}, []decl{d}})
}

// hidden writes a rule that does not count.
func (g *gen) hidden() {
	c := g.name()
	g.w("." + c + "{" + "p" + c + ":v}")
}

const kinds = 20

// item writes one of the things style sheets are made of; deep says how many blocks may open.
func (g *gen) item(k, deep int) {
	switch k {
	case 0:
		g.rule()
	case 1:
		g.w("@media (min-width: 1px) {")
		g.inside(deep)
		g.w("}")
	case 2:
		g.w("@supports (display: grid) {")
		g.inside(deep)
		g.w("}\n")
	case 3:
		g.w("@font-face{font-family:x;src:url(y)}")
	case 4:
		g.w("@keyframes k{from{a:b}50%{a:c}to{a:d}}")
	case 5: // another at-rule holding rules
		g.w("@document url(x){")
		g.hidden()
		g.hidden()
		g.w("}")
	case 6: // an at-rule unknown to the grammar
		g.w("@layer base{")
		g.hidden()
		g.w("}")
	case 7: // a known block inside an unknown one
		g.w("@layer base{")
		g.hidden()
		g.w("@media print{")
		g.hidden()
		g.w("}")
		g.hidden()
		g.w("}")
	case 8: // a selector that is not understood
		c := g.name()
		g.w("." + c + ":bogus{p" + c + ":v;q:r}")
	case 9: // a list with such a selector
		c := g.name()
		g.w("." + c + ",." + c + "z:nope{p" + c + ":v}")
	case 10:
		g.w("@import \"x.css\";")
	case 11:
		g.w("@layer a, b;")
	case 12:
		g.w("/* .zz{a:b} */")
	case 13:
		g.w(" \n\t")
	case 14: // no declarations
		c := g.name()
		g.w("." + c + "{}")
		g.want = append(g.want, want{"." + c, []string{c}, nil})
	case 15:
		g.w("@charset \"utf-8\";")
	case 16: // a known block inside a skipped one that the grammar knows
		g.w("@document url(x){@media print{")
		g.hidden()
		g.w("}")
		g.hidden()
		g.w("}")
	case 17:
		g.w("@page{margin:1px}")
	case 18: // a rule for no class
		g.w("div > p{a:b}")
		g.want = append(g.want, want{"div>p", nil, []decl{{"a", "b"}}})
	case 19:
		g.w("@media screen{}")
	}
}

// inside writes what a block holds.
func (g *gen) inside(deep int) {
	if deep == 0 {
		g.rule()
		return
	}
	switch vs.Choose(3) {
	case 0:
		g.rule()
		g.item(vs.Choose(kinds), deep-1)
	case 1:
		g.item(vs.Choose(kinds), deep-1)
		g.rule()
	case 2:
		g.item(vs.Choose(kinds), deep-1)
	}
}

// check loads what was written and compares.
func (g *gen) check() {
	src := g.b.String()
	got, err := cascadia.ExtractRules(strings.NewReader(src), false)
	vs.Observe("src", src)
	vs.Observe("n", len(got))
	vs.Assert(err == nil, "a well-formed style sheet is rejected")
	vs.Assert(len(got) == len(g.want), "not the rules of the style sheet")
	for i, w := range g.want {
		sel, err := cascadia.ParseWithPseudoElement(w.sel)
		vs.Assert(err == nil, "the harness has a wrong selector")
		vs.Assert(vs.Eq(got[i].GetSelector(), sel.String()), "a rule has the wrong selector")
		sameDecls(got[i].Declarations, w.decls)
	}
	vs.Assert(m0.AddRules(strings.NewReader(src), false) == nil, "a well-formed style sheet is rejected")
	g.govern()
	vs.Reach("checked")
}

// govern asserts that the rules of m0 are those of g.
func (g *gen) govern() {
	m := m0
	var names []string
	for i := len(g.want) - 1; i >= 0; i-- {
		for _, c := range g.want[i].classes {
			seen := false
			for _, n := range names {
				if n == c {
					seen = true
				}
			}
			if seen {
				continue
			}
			names = append(names, c)
			r, ok := m.Rules()[c]
			vs.Assert(ok, "a class has no rule")
			sameDecls(r.Declarations, g.want[i].decls)
		}
	}
	vs.Assert(len(m.Rules()) == len(names), "a class has a rule that none mentions")
}

func sameDecls(got []cascadia.CssDeclaration, want []decl) {
	vs.Assert(len(got) == len(want), "a rule has other declarations")
	for j, d := range want {
		vs.Assert(vs.Eq(got[j].Property, d.prop), "a declaration has another property")
		vs.Assert(sameValue(got[j].Value, d.val), "a declaration has another value")
	}
}

// sameValue compares a recorded value with the value's normal form, in which words are
// separated by single spaces; a tilde there stands for a place where a space is optional.
func sameValue(got, want string) bool {
	i := 0
	for j := 0; j < len(want); j++ {
		if want[j] == '~' {
			if i < len(got) && got[i] == ' ' {
				i++
			}
			continue
		}
		if i >= len(got) || got[i] != want[j] {
			return false
		}
		i++
	}
	return i == len(got)
}

// P02_items: any two (thorough: three) items in a row before a last rule, out of 20 kinds: rules,
// @media and @supports blocks holding one or two items, skipped at-rules with and without
// blocks, selectors not understood, comments, white space, empty rules.
func P02_items() {
	g := &gen{}
	for i := 0; i < pick(2, 3); i++ {
		g.item(vs.Choose(kinds), 1-i/2)
	}
	g.rule()
	g.check()
}

// P02_nesting: blocks in blocks in blocks around any item.
func P02_nesting() {
	g := &gen{}
	n := 0
	for i := 0; i < 3; i++ {
		switch vs.Choose(4) {
		case 0:
			g.w("@media (min-width: 1px) {")
		case 1:
			g.w("@supports (a: b) {")
		case 2:
			g.w("@supports not (a: b) { ")
			g.rule()
		default:
			continue
		}
		n++
	}
	g.item(vs.Choose(kinds), 0)
	more := vs.Choose(2) == 0
	for i := 0; i < n; i++ {
		if more {
			g.rule()
		}
		g.w("}")
	}
	if vs.Thorough() {
		g.item(vs.Choose(kinds), 0)
	}
	g.rule()
	g.check()
}

const forms = 16

// selector writes one complex selector of the given form over classes a and b, and gives its
// meaning in a form of its own.
func selector(k int, a, b, ws string) (string, want) {
	switch k {
	case 0:
		return "." + a, want{"." + a, []string{a}, nil}
	case 1:
		return "." + a + ":hover", want{"." + a + ":hover", []string{a}, nil}
	case 2:
		return "." + a + ws + " ." + b, want{"." + a + " ." + b, []string{a, b}, nil}
	case 3:
		return "." + a + ws + ">" + ws + "." + b, want{"." + a + ">." + b, []string{a, b}, nil}
	case 4:
		return "." + a + "::before", want{"." + a + "::before", []string{a}, nil}
	case 5:
		return "div." + a, want{"div." + a, []string{a}, nil}
	case 6:
		return ":is(." + a + "," + ws + "." + b + ")", want{":is(." + a + ",." + b + ")", []string{a, b}, nil}
	case 7:
		return ":where(." + a + ")" + ws, want{":where(." + a + ")", []string{a}, nil}
	case 8:
		return "." + a + "." + b, want{"." + a + "." + b, []string{a, b}, nil}
	case 9:
		return "[x=\"y\"] ." + a, want{"[x=\"y\"] ." + a, []string{a}, nil}
	case 10:
		return "." + a + "~" + ws + "." + b, want{"." + a + "~." + b, []string{a, b}, nil}
	case 11:
		return "." + a + ":nth-child(2n+1)", want{"." + a + ":nth-child(2n+1)", []string{a}, nil}
	case 12:
		return "#i", want{"#i", nil, nil}
	case 13:
		return ":is(:where(." + a + " p), ." + b + "):hover", want{":is(:where(." + a + " p),." + b + "):hover", []string{a, b}, nil}
	case 14:
		return "." + a + "/*x*/" + ws + ":focus", want{}
	default:
		return "*", want{"*", nil, nil}
	}
}

const ident = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
const identMore = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-"

var blanks = []string{"", " ", "\n\t "}

// P02_selectors: a list of two selectors of 16 forms over arbitrary class names of one or two
// characters, with white space or comments around.
func P02_selectors() {
	ws := blanks[vs.Choose(len(blanks))]
	ds := []decl{{"color", "red"}, {"x-y", "z"}}
	g := &gen{}
	for i := 0; i < 2; i++ {
		a, b := vs.StrIn(1, ident), vs.StrIn(1, ident)+vs.StrIn(1, identMore)
		s, w := selector(vs.Choose(forms), a, b, ws)
		if w.sel == "" {
			if ws != "" {
				w = want{"." + a + " :focus", []string{a}, nil}
			} else {
				w = want{"." + a + ":focus", []string{a}, nil}
			}
		}
		w.decls = ds
		if i > 0 {
			g.w(ws + "," + ws)
		}
		g.w(s)
		g.want = append(g.want, w)
	}
	g.w(ws + "{color:red;x-y:z}")
	g.rule()
	g.checkNames()
}

// checkNames is check for class names that may be equal to one another.
func (g *gen) checkNames() {
	src := g.b.String()
	got, err := cascadia.ExtractRules(strings.NewReader(src), false)
	vs.Observe("src", src)
	vs.Observe("n", len(got))
	vs.Assert(err == nil, "a well-formed style sheet is rejected")
	vs.Assert(len(got) == len(g.want), "not the rules of the style sheet")
	for i, w := range g.want {
		sel, err := cascadia.ParseWithPseudoElement(w.sel)
		vs.Assert(err == nil, "the harness has a wrong selector")
		vs.Assert(vs.Eq(got[i].GetSelector(), sel.String()), "a rule has the wrong selector")
		sameDecls(got[i].Declarations, w.decls)
	}
	m := m0
	vs.Assert(m.AddRules(strings.NewReader(src), false) == nil, "a well-formed style sheet is rejected")
	n := 0
	for _, w := range g.want {
		for _, c := range w.classes {
			_, ok := m.Rules()[c]
			vs.Assert(ok, "a class has no rule")
			n++
		}
	}
	vs.Assert(len(m.Rules()) <= n, "a class has a rule that none mentions")
	vs.Reach("checked")
}

// P02_values: two declarations with arbitrary property names of two characters and values of
// up to three words, numbers, functions, strings and lists with any white space between.
func P02_values() {
	g := &gen{}
	w := want{sel: ".k", classes: []string{"k"}}
	g.w(".k{")
	n := pick(1, 2)
	for i := 0; i <= n; i++ {
		one, other := blanks[vs.Choose(3)], blanks[1+vs.Choose(2)]
		sp := func() string { return other }
		osp := func() string { return one }
		d := decl{prop: vs.StrIn(1, "abcdefghijklmnopqrstuvwxyz") + vs.StrIn(1, "abcdefghijklmnopqrstuvwxyz-0123456789")}
		g.w(osp() + d.prop + ":" + osp())
		v := vs.StrIn(1, ident)
		if i == n {
			g.w(v)
			d.val = v
			g.w(osp() + ";")
			w.decls = append(w.decls, d)
			continue
		}
		switch vs.Choose(12) {
		case 0:
			g.w(v)
			d.val = v
		case 1:
			g.w(v + sp() + "1px")
			d.val = v + " 1px"
		case 2:
			g.w(v + osp() + "," + osp() + v)
			d.val = v + "~,~" + v
		case 3:
			g.w("f(" + osp() + v + osp() + ")")
			d.val = "f(~" + v + "~)"
		case 4:
			g.w("\"" + v + ";} {\"" + sp() + v)
			d.val = "\"" + v + ";} {\" " + v
		case 5:
			g.w("1px" + osp() + "/" + osp() + "2px")
			d.val = "1px~/~2px"
		case 6:
			g.w("url(x)" + sp() + v + sp() + "3%")
			d.val = "url(x) " + v + " 3%"
		case 7:
			g.w(v + osp() + "!" + osp() + "important")
			d.val = v + "~!~important"
		case 8:
			g.w("#fff/**/" + sp() + v)
			d.val = "#fff " + v
		case 9:
			g.w("calc(1px" + sp() + "+" + sp() + "var(--" + v + "))" + sp() + "x")
			d.val = "calc(1px + var(--" + v + ")) x"
		case 10: // the last semicolon of a block is optional, several are allowed
			g.w(v + ";;")
			d.val = v
		case 11:
			g.w("-1.5e3" + sp() + "U+26" + sp() + "'" + v + "'")
			d.val = "-1.5e3 U+26 '" + v + "'"
		}
		g.w(osp() + ";")
		w.decls = append(w.decls, d)
	}
	g.w("}")
	g.want = append(g.want, w)
	g.check()
}

// P02_custom: a custom property with any name of two characters among ordinary declarations.
func P02_custom() {
	g := &gen{}
	w := want{sel: ".k", classes: []string{"k"}}
	n := "--" + vs.StrIn(1, ident) + vs.StrIn(1, identMore)
	v := vs.StrIn(1, identMore)
	osp := func() string { return blanks[vs.Choose(3)] }
	sp := osp()
	tail := []string{"", "(a,b)", "{x:y;z}", "\";\"", "[;]"}[vs.Choose(5)]
	g.w(".k{a:b;" + osp() + n + osp() + ":" + sp + v + tail + osp() + ";c:d}")
	w.decls = []decl{{"a", "b"}, {n, v + tail}, {"c", "d"}}
	g.want = append(g.want, w)
	g.check()
}

// P02_escapes: property names and values of up to four pieces (quick: three), each a letter, a character that is written with
// a backslash or one by its number, anywhere: recorded names have the characters, values are as written.
func P02_escapes() {
	piece := func(first bool) (string, string) {
		switch vs.Choose(4) {
		case 0:
			c := vs.StrIn(1, ident)
			return c, c
		case 3:
			c := vs.StrIn(1, "0123456789")
			if vs.Choose(2) == 1 {
				return "\\00004" + c, "@ABCDEFGHI"[c[0]-'0' : c[0]-'0'+1]
			}
			return "\\3" + c + vs.StrIn(1, " \t\n"), c
		case 1:
			c := vs.StrIn(1, "!\"#$%&'()*+,./:;<=>?@[]^`{|}~")
			return "\\" + c, c
		}
		c := vs.StrIn(1, "ghijklmnopqrstuvwxyz\\_-")
		return "\\" + c, c
	}
	word := func(n int) (src, val string) {
		for i := 0; i < n; i++ {
			s, v := piece(i == 0)
			src, val = src+s, val+v
		}
		return
	}
	g := &gen{}
	n, v := "p", "v"
	ns, vals := "p", "v"
	custom := ""
	switch vs.Choose(4) {
	case 0:
		ns, n = word(pick(2, 3))
		n = strings.ToLower(n) // those of custom properties are case-sensitive
	case 1:
		vals, _ = word(pick(2, 3))
		v = vals
	case 2:
		custom = "--x"
		ns, n = word(2)
	case 3:
		custom = "--"
		vals, _ = word(pick(2, 3))
		v = vals
	}
	if vs.Choose(2) == 1 {
		ws, _ := word(1)
		vals, v = vals+" var(--a"+ws+"b) x", v+" var(--a"+ws+"b) x"
	}
	g.w(".k{a:b;" + custom + ns + ":" + vals + ";c:d}")
	g.want = append(g.want, want{".k", []string{"k"}, []decl{{"a", "b"}, {custom + n, v}, {"c", "d"}}})
	got, err := cascadia.ExtractRules(strings.NewReader(g.b.String()), false)
	vs.Observe("src", g.b.String())
	vs.Observe("err", err != nil)
	vs.Assert(err == nil && len(got) == 1, "not the rules of the style sheet")
	ds := got[0].Declarations
	vs.Assert(len(ds) == 3, "a rule has other declarations")
	for i, d := range g.want[0].decls {
		vs.Observe("value", ds[i].Value)
		vs.Assert(vs.Eq(ds[i].Property, d.prop), "a declaration has another property")
		vs.Assert(vs.Eq(ds[i].Value, normal(d.val)), "a declaration has another value")
	}
	vs.Reach("checked")
}

// normal is a value with a space for each run of white space, and none around it.
func normal(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

// P02_spaces: white space of any kind, one or two characters in each place, around and inside the values of a custom
// property and an ordinary one and around selectors and preludes.
func P02_spaces() {
	g := &gen{}
	ws := func() string { return vs.StrIn(1, " \t\n\r\f") }
	two := vs.StrIn(vs.Choose(2), " \t\n\r\f")
	n := []string{"--x", "x", "color"}[vs.Choose(3)]
	a, b := vs.StrIn(1, ident), vs.StrIn(1, ident)
	s := ".k" + ws() + "{" + ws() + n + ":" + ws() + a + ws() + two + b + ws() + two + "1px" + ws() + ";" + two + "c:d" + ws() + "}" + ws()
	w := want{".k", []string{"k"}, []decl{{n, a + " " + b + " 1px"}, {"c", "d"}}}
	if vs.Choose(2) == 1 {
		s = "@media" + ws() + "print" + ws() + "{" + ws() + s + "}"
	}
	g.w(s)
	g.want = append(g.want, w)
	g.rule()
	g.check()
}

// P02_names: blocks of at-rules with any name of up to two characters before and one after "media", "supports" and other names,
// holding a rule, or a rule and a media block: rules count inside media and supports blocks only.
func P02_names() {
	g := &gen{}
	pre := vs.StrIn(1, "abimstx-")
	switch vs.Choose(5) {
	case 0:
		pre = ""
	case 1:
		pre = "-" + vs.StrIn(1, "abmx") + "-"
	case 2:
		pre += vs.StrIn(1, "abmx")
	case 3:
		pre = "-" + []string{"webkit", "moz", "ms", "o"}[vs.Choose(4)] + "-"
	}
	mid := []string{"media", "supports", "Media", "SUPPORTS", "layer", "container", "document", "scope", "starting-style", "view-transition"}[vs.Choose(10)]
	post := vs.StrIn(vs.Choose(2), "abmsx-_")
	in := g.hidden
	if pre == "" && post == "" && (strings.EqualFold(mid, "media") || strings.EqualFold(mid, "supports")) {
		in = g.rule
		vs.Reach("known")
	}
	g.w("@" + pre + mid + post + " (w:x){")
	in()
	if vs.Choose(2) == 1 {
		g.w("@media print{")
		in()
		g.w("}")
		in()
	}
	g.w("}")
	g.rule()
	g.check()
}
