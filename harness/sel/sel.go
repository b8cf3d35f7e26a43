// Package sel holds the harnesses for the selector engine.
package sel

import (
	"reflect"
	"strings"

	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// nodes of a small fixed document every accepted selector is tried on.
var nodes []*html.Node

// Setup makes the document.
func Setup() {
	doc := &html.Node{Type: html.DocumentNode}
	div := elem("div", "class", "a b", "id", "i", "a", "b")
	doc.AppendChild(div)
	div.AppendChild(&html.Node{Type: html.TextNode, Data: "a x"})
	p := elem("a", "href", "b")
	div.AppendChild(p)
	div.AppendChild(&html.Node{Type: html.CommentNode, Data: "c"})
	q := elem("a", "a", "bb")
	div.AppendChild(q)
	nodes = []*html.Node{doc, div, div.FirstChild, p, q}
}

func elem(tag string, attrs ...string) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag}
	for i := 0; i < len(attrs); i += 2 {
		n.Attr = append(n.Attr, html.Attribute{Key: attrs[i], Val: attrs[i+1]})
	}
	return n
}

func pick(quick, thorough int) int {
	if vs.Thorough() {
		return thorough
	}
	return quick
}

// use does with a selector all that can be done.
func use(s cascadia.Sel) string {
	str := s.String()
	s.Specificity()
	s.PseudoElement()
	for _, n := range nodes {
		s.Match(n)
	}
	return str
}

// hasPseudoElement tells whether the selector text has a pseudo-element outside a quoted
// string, judging by the serialised form.
func hasPseudoElement(s string) bool { return strings.Contains(s, "::") }

// total states S01 for the text s.
func total(s string) {
	one, err := cascadia.ParseWithPseudoElement(s)
	plain, perr := cascadia.Parse(s)
	grp, gerr := cascadia.ParseGroupWithPseudoElements(s)
	pgrp, pgerr := cascadia.ParseGroup(s)
	vs.Observe("errs", bits(err != nil, perr != nil, gerr != nil, pgerr != nil))
	vs.Assert((one == nil) == (err != nil), "neither or both of a selector and an error")
	vs.Assert((plain == nil) == (perr != nil), "neither or both of a selector and an error")
	if gerr == nil {
		vs.Reach("accepted")
		vs.Assert(len(grp) > 0, "an accepted group has no member")
		for _, m := range grp {
			vs.Assert(m != nil, "an accepted group has a nil member")
			use(m)
		}
		grp.Match(nodes[1])
		_, e := cascadia.ParseGroupWithPseudoElements(s + ")")
		vs.Assert(e != nil, "text after a selector group is ignored")
		g2, e := cascadia.ParseGroupWithPseudoElements(s + ",b")
		vs.Assert(e == nil && len(g2) == len(grp)+1, "appending a member to a group does not add it")
	} else {
		vs.Reach("rejected")
		vs.Assert(len(grp) == 0, "both a selector group and an error")
		vs.Assert(err != nil && perr != nil && pgerr != nil, "text is accepted as less than a group")
	}
	if err == nil {
		vs.Reach("single")
		str := one.String()
		vs.Observe("string", str)
		vs.Assert(len(grp) == 1, "a single selector is not a group of one")
		vs.Assert(vs.Eq(grp[0].String(), str), "a selector and the group of it have different meanings")
		_, e := cascadia.ParseWithPseudoElement(s + ")")
		vs.Assert(e != nil, "text after a selector is ignored")
		_, e = cascadia.ParseWithPseudoElement(s + ",b")
		vs.Assert(e != nil, "a selector list is accepted as a single selector")
		if perr != nil {
			vs.Assert(hasPseudoElement(str), "a selector without pseudo-element needs the parser for pseudo-elements")
		} else {
			vs.Assert(vs.Eq(plain.String(), str), "two parsers give different selectors")
			vs.Assert(plain.PseudoElement() == "", "a pseudo-element is accepted by Parse")
			vs.Assert(len(pgrp) == 1 && vs.Eq(pgrp[0].String(), str), "a selector and the group of it have different meanings")
		}
	} else {
		vs.Assert(perr != nil, "Parse accepts more than ParseWithPseudoElement")
		vs.Assert(gerr != nil || len(grp) > 1, "a group of one is not a single selector")
	}
	if pgerr == nil {
		vs.Assert(gerr == nil && vs.Eq(pgrp.String(), grp.String()), "two group parsers give different groups")
		for _, m := range pgrp {
			vs.Assert(m.PseudoElement() == "", "a pseudo-element is accepted by ParseGroup")
		}
	}
}

// S01_bytes: every string of up to four (thorough: five) bytes.
func S01_bytes() { total(vs.Bytes(vs.Choose(pick(4, 5) + 1))) }

const selChars = "a1.#:[]()='\"\\,*>+~|^$-!/ \n\f\x00\x7f\xff"

var around = []string{
	"[", "]",
	"[a", "=b]",
	"[a=", "]",
	"[a='", "']",
	"[a=b", "]",
	"[a=\"b\"", "",
	"[", "",
	":", "",
	":not(", ")",
	":not(a", "",
	":is(", "),b",
	":where(a,", ")",
	":has(", ")",
	":haschild(a", ")",
	":nth-child(", ")",
	":nth-child(2", ")",
	":nth-last-of-type(n", ")",
	":contains(", ")",
	":contains('", "')",
	":containsOwn(", "",
	":lang(", ")",
	":lang(a", "",
	"a", "b",
	"a ", "b",
	"a>", "b",
	"a::before", "",
	"::", "",
	"a:after", ",b",
	":not(::before", ")",
	"a,", ",b",
	".a\\", "",
	"*", ".a",
	"*|", "a",
	"a/*", "*/b",
	"a/", "*/b",
	"#", "a",
	"a:hover", "",
	"a\\6", " b",
	":nth-child", "",
	":root:", "empty",
}

// S01_holes: any three (thorough: four) characters that mean something to selectors in each of
// 40 places of a selector.
func S01_holes() {
	k := vs.Choose(len(around) / 2)
	total(around[2*k] + vs.StrIn(vs.Choose(pick(3, 4)+1), selChars) + around[2*k+1])
}

// S01_hole: any two (thorough: three) bytes there.
func S01_hole() {
	k := vs.Choose(len(around) / 2)
	total(around[2*k] + vs.Bytes(pick(2, 3)) + around[2*k+1])
}

var names = []string{"not", "has", "haschild", "is", "where", "contains", "containsown", "matches", "matchesown", "nth-child",
	"nth-last-child", "nth-of-type", "nth-last-of-type", "first-child", "last-child", "first-of-type", "last-of-type", "only-child",
	"only-of-type", "input", "empty", "root", "link", "lang", "enabled", "disabled", "checked", "visited", "hover", "active", "focus",
	"target", "popover-open", "read-only", "after", "backdrop", "before", "cue", "first-letter", "first-line", "grammar-error", "marker",
	"placeholder", "selection", "spelling-error", "moz-placeholder", "-moz-focusring", "-moz-placeholder", "focus-within",
	"focus-visible", "fullscreen", "modal", "picture-in-picture", "autofill", "host", "-moz-ui-invalid", "-webkit-outer-spin-button",
	"-webkit-search-decoration", "-webkit-file-upload-button", "-webkit-scrollbar", "-webkit-scrollbar-button",
	"-webkit-scrollbar-thumb", "-webkit-scrollbar-track", "-moz-read-only"}

var ends = []string{"", "(", "()", "(a)", "( a )", "(a", "(1)", "(n)", "('a')", ".b", "::after", ":hover", " b", ",", "(a,b)", "(::before)", "(a))"}

// S01_names: every pseudo-class and pseudo-element known, with one or two colons, in an
// arbitrary letter case of its first letter, followed by 17 kinds of text.
func S01_names() {
	n := names[vs.Choose(len(names))]
	b := []byte(n)
	if b[0] >= 'a' && vs.Choose(2) == 1 {
		b[0] -= 'a' - 'A'
	}
	total([]string{"", "a", ".a"}[vs.Choose(3)] + []string{":", "::"}[vs.Choose(2)] + string(b) + ends[vs.Choose(len(ends))])
}

const rxChars = "a.*+?()[]|\\^$-{1},: "

// S01_regexp: regular expressions of up to three (thorough: four) characters.
func S01_regexp() {
	s := vs.StrIn(vs.Choose(pick(3, 4)+1), rxChars)
	switch vs.Choose(2) {
	case 0:
		total(":matches(" + s + ")")
	default:
		total("[a#=" + s + "]")
	}
}

// round states S02 for the text s.
func round(s string) {
	sel, err := cascadia.ParseWithPseudoElement(s)
	if err != nil {
		vs.Reach("rejected")
		return
	}
	vs.Reach("accepted")
	str := sel.String()
	vs.Observe("string", str)
	sel2, err := cascadia.ParseWithPseudoElement(str)
	vs.Assert(err == nil, "the string form of a selector is not accepted")
	vs.Assert(vs.Eq(sel2.String(), str), "the string form of a selector changes when it is parsed again")
	vs.Assert(sel.Specificity() == sel2.Specificity(), "the string form has another specificity")
	vs.Assert(sel.PseudoElement() == sel2.PseudoElement(), "the string form has another pseudo-element")
	vs.Assert(reflect.DeepEqual(sel, sel2), "the string form parses to another selector")
}

// S02_bytes: every string of up to five (thorough: six) bytes.
func S02_bytes() { round(vs.Bytes(vs.Choose(pick(5, 6) + 1))) }

// S02_holes: any three (thorough: four) significant characters in each of the places.
func S02_holes() {
	k := vs.Choose(len(around) / 2)
	round(around[2*k] + vs.StrIn(vs.Choose(pick(3, 4)+1), selChars) + around[2*k+1])
}

// S02_hole: any two (thorough: three) bytes there.
func S02_hole() {
	k := vs.Choose(len(around) / 2)
	round(around[2*k] + vs.Bytes(pick(2, 3)) + around[2*k+1])
}

// S02_names: every pseudo-class and pseudo-element known.
func S02_names() {
	round([]string{"", "a"}[vs.Choose(2)] + []string{":", "::"}[vs.Choose(2)] + names[vs.Choose(len(names))] + ends[vs.Choose(len(ends))])
}

// S02_regexp: regular expressions of up to three (thorough: four) characters.
func S02_regexp() {
	s := vs.StrIn(vs.Choose(pick(3, 4)+1), rxChars)
	switch vs.Choose(2) {
	case 0:
		round(":matchesOwn(" + s + ")")
	default:
		round("[a#=" + s + "]")
	}
}

func bits(bs ...bool) int {
	r := 0
	for _, b := range bs {
		r *= 2
		if b {
			r++
		}
	}
	return r
}
