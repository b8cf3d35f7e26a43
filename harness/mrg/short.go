package mrg

import (
	"sort"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

var shorthands []string

func init() {
	more = append(more, func() {
		shorthands = nil
		for k := range longhands {
			shorthands = append(shorthands, k)
		}
		sort.Strings(shorthands)
	})
}

// expand gives the longhands of a property.
func expand(p string) []string {
	if l, ok := longhands[p]; ok {
		return strings.Split(l, " ")
	}
	return []string{p}
}

// within tells whether each of xs is among ys.
func within(xs, ys []string) bool {
	for _, x := range xs {
		ok := false
		for _, y := range ys {
			if x == y {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

const propChars = "abcdefghijklmnopqrstuvwxyz-"

// anyProp is any property name of n characters.
func anyProp(n int) string {
	if n < 2 {
		return vs.StrIn(n, letters)
	}
	// the tokenizer does not take two hyphens in front for a property
	return vs.StrIn(1, propChars) + vs.StrIn(1, letters) + vs.StrIn(n-2, propChars)
}

func against(s, p string) {
	load(keep, ".a{"+p+":v}.b{"+s+":v}")
	vs.Reach("merged")
	o1, o2 := keep.Merge("a b"), keep.Merge("b a")
	vs.Observe("out", o1+"|"+o2)
	es, ep := expand(s), expand(p)
	vs.Assert(has(o1, "b") && has(o2, "a"), "the last class is dropped")
	if within(ep, es) {
		vs.Assert(!has(o1, "a"), "a shorthand does not override a property it resets")
	} else {
		vs.Assert(has(o1, "a"), "a shorthand overrides a property it does not reset")
	}
	if within(es, ep) {
		vs.Assert(!has(o2, "b"), "a shorthand does not override a property it resets")
	} else {
		vs.Assert(has(o2, "b"), "a shorthand is removed though only part of it is overridden")
	}
}

// M13_common: the shorthands style sheets use most, against any property name of 1 to 19 (thorough: 27) characters of
// a-z and - in either order.
func M13_common() {
	s := []string{"border", "border-width", "border-color", "background", "margin", "padding", "inset", "flex", "border-radius",
		"font", "gap", "overflow", "transition", "border-block", "grid-area"}[vs.Choose(15)]
	against(s, anyProp(1+vs.Choose(pick(19, 27))))
}

// M13_table: every shorthand of the table against any property name of the lengths of its longhands (the thorough tier: of any length up to 31).
func M13_table() {
	s := shorthands[vs.Choose(len(shorthands))]
	if vs.Thorough() {
		against(s, anyProp(1+vs.Choose(31)))
		return
	}
	var ls []int
	for _, l := range expand(s) {
		known := false
		for _, x := range ls {
			known = known || x == len(l)
		}
		if !known {
			ls = append(ls, len(l))
		}
	}
	against(s, anyProp(ls[vs.Choose(len(ls))]))
}

// M13_plain: properties that are not shorthands, in the table or not, of 1 to 12 characters, against any other of the same length.
func M13_plain() {
	n := 1 + vs.Choose(12)
	s := []string{"q", "zz", "top", "fill", "color", "stroke", "content", "position", "transform", "text-align", "font-weight", "margin-right"}[n-1]
	against(s, anyProp(n))
}

// M13_union: shorthands of two longhands against two later classes of one property each, any names of the lengths of the longhands.
func M13_union() {
	var two []string
	for _, s := range shorthands {
		if len(expand(s)) == 2 {
			two = append(two, s)
		}
	}
	s := two[vs.Choose(len(two))]
	e := expand(s)
	p1, p2 := anyProp(len(e[0])), e[1]
	if vs.Choose(2) == 1 {
		p1, p2 = e[0], anyProp(len(e[1]))
	}
	load(keep, ".a{"+s+":v}.b{"+p1+":v}.c{"+p2+":v}")
	vs.Reach("merged")
	out := keep.Merge("a b c")
	vs.Observe("out", out)
	all := append(append([]string{}, expand(p1)...), expand(p2)...)
	vs.Assert(has(out, "a") == !within(e, all), "a shorthand is kept or removed wrongly when later classes reset its parts")
}
