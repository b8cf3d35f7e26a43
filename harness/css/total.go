// Package css holds the harnesses for loading style sheets.
package css

import (
	"strings"

	"golang.org/x/net/html"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

var m0 *merge.Merger
var node *html.Node

// Setup makes the merger the paths start from.
func Setup() {
	m0 = merge.NewMerger(nil, true)
	root := &html.Node{Type: html.DocumentNode}
	par := &html.Node{Type: html.ElementNode, Data: "div"}
	root.AppendChild(par)
	node = &html.Node{Type: html.ElementNode, Data: "a", Attr: []html.Attribute{{Key: "class", Val: "a b"}}}
	par.AppendChild(node)
}

func pick(quick, thorough int) int {
	if vs.Thorough() {
		return thorough
	}
	return quick
}

// total loads css and uses what it gives.
func total(css string, inline bool) {
	rules, err := cascadia.ExtractRules(strings.NewReader(css), inline)
	vs.Observe("err", err != nil)
	vs.Observe("rules", len(rules))
	if err != nil {
		vs.Reach("error")
	} else {
		vs.Reach("loaded")
	}
	for _, r := range rules {
		vs.Reach("rule")
		vs.Assert(r.Selector != nil, "a rule has no selector")
		_ = r.GetSelector()
		_ = r.GetCondition()
		_ = r.ToCssFormat()
		_ = r.Selector.Specificity()
		_ = r.Selector.PseudoElement()
		r.Selector.Match(node)
	}
}

// load is total through AddRules, with a merge after it.
func load(css string, inline bool) {
	err := m0.AddRules(strings.NewReader(css), inline)
	out := m0.Merge("a b c")
	vs.Observe("err", err != nil)
	vs.Observe("out", out)
	vs.Reach("loaded")
}

// P01_bytes: style sheets of any three (thorough: four) bytes, in both modes.
func P01_bytes() {
	s := vs.Bytes(vs.Choose(pick(3, 4) + 1))
	total(s, vs.Choose(2) == 1)
}

const cssChars = "a.{};:@\"'()[],\\/*!#-<> \n\x00"

// P01_chars: style sheets of any three (thorough: four) characters that mean something to CSS.
func P01_chars() {
	s := vs.StrIn(vs.Choose(pick(3, 4)+1), cssChars)
	load(s, vs.Choose(2) == 1)
}

var around = []string{
	".a{", "}.b{c:d}",
	".a{c:d;", "}.b{c:d}",
	".a{c:", "}.b{c:d}",
	".a{c:", "",
	".a{--x:", "}.b{c:d}",
	".a{--x:", "",
	".a", "{c:d}.b{c:d}",
	".a:not(", "{c:d}",
	".a[", "]{c:d}",
	".a[b=", "]{c:d}",
	".a,", "{c:d}.b{c:d}",
	".a:", "{c:d}",
	".a:is(.b,", "){c:d}",
	"@media", "{.a{c:d}}.b{c:d}",
	"@media (", "{.a{c:d}}",
	"@media x{", "}.b{c:d}",
	"@media x{.a{c:d}", "",
	"@", "{.a{c:d}}.b{c:d}",
	"@layer x{", "}.b{c:d}",
	"@layer x{.a{", "",
	"@font-face{", "}.b{c:d}",
	"@keyframes x{", "}.b{c:d}",
	"@keyframes x{a{", "",
	"", ".b{c:d}",
	"", "}",
	"/", ".b{c:d}",
	".a{c:\"", "\"}",
	".a{c:url(", ")}",
	".\\", "{c:d}",
	".a{c:var(--", ")}",
}

// P01_holes: any two (thorough: three) of those characters in each of 30 places of a style sheet.
func P01_holes() {
	k := vs.Choose(len(around) / 2)
	s := vs.StrIn(vs.Choose(pick(2, 3)+1), cssChars)
	s = around[2*k] + s + around[2*k+1]
	total(s, false)
	load(s, vs.Choose(2) == 1)
}

// P01_hole: any two (thorough: three) bytes there.
func P01_hole() {
	k := vs.Choose(len(around) / 2)
	total(around[2*k]+vs.Bytes(pick(2, 3))+around[2*k+1], vs.Choose(2) == 1)
}
