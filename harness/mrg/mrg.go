// Package mrg holds the harnesses for Merger.
package mrg

import (
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// mergers made by Setup; each path starts from them as they were then.
var (
	keep *merge.Merger // keeps the order, no cache
	free *merge.Merger // free order, no cache
)

// Setup makes the mergers the paths start from.
func Setup() {
	keep = merge.NewMerger(nil, true)
	free = merge.NewMerger(nil, false)
	for _, f := range more {
		f()
	}
}

var more []func()

const letters = "abcdefghijklmnopqrstuvwxyz"

func load(m *merge.Merger, css string) {
	if err := m.AddRules(strings.NewReader(css), false); err != nil {
		vs.Assert(false, "a well-formed style sheet is rejected")
	}
}

// toks splits a class list the way the property reads it.
func toks(s string) []string {
	var out []string
	st := -1
	for i := 0; i <= len(s); i++ {
		if i == len(s) || isSpace(s[i]) {
			if st >= 0 {
				out = append(out, s[st:i])
				st = -1
			}
		} else if st < 0 {
			st = i
		}
	}
	return out
}

func isSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'
}

// has tells whether class is among the classes of out.
func has(out, class string) bool {
	r := false
	for _, t := range toks(out) {
		r = vs.Or(r, vs.Eq(t, class))
	}
	return r
}

// decl is a declaration of a rule.
type decl struct {
	prop string
	val  string
	imp  bool
}

func (d decl) css() string {
	v := d.val
	if v == "" {
		v = "v"
	}
	if d.imp {
		v += " !important"
	}
	return d.prop + ":" + v
}

// rule is the rule of one class.
type rule struct {
	class string
	at    string // prelude of an enclosing @media block
	decls []decl
}

func (r rule) css() string {
	var b strings.Builder
	if r.at != "" {
		b.WriteString("@media ")
		b.WriteString(r.at)
		b.WriteString("{")
	}
	b.WriteString(".")
	b.WriteString(r.class)
	b.WriteString("{")
	for i, d := range r.decls {
		if i > 0 {
			b.WriteString(";")
		}
		b.WriteString(d.css())
	}
	b.WriteString("}")
	if r.at != "" {
		b.WriteString("}")
	}
	return b.String()
}

// lists are the orders in which up to n classes occur.
var lists = [][]int{{0, 1, 2}, {0, 1, 0, 2}, {0, 1, 2, 0}, {1, 0, 1, 2}}

func join(list []int, rs []rule) string {
	var b strings.Builder
	for i, k := range list {
		if k >= len(rs) {
			continue
		}
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(rs[k].class)
	}
	return b.String()
}

// sameCirc tells whether the rules apply in the same circumstance.
func sameCirc(a, b rule) bool { return vs.Eq(a.at, b.at) }

// lastPos is the last position of class k in list.
func lastPos(list []int, k int) int {
	r := -1
	for i, x := range list {
		if x == k {
			r = i
		}
	}
	return r
}

// overridden tells whether some class later in the list than k sets prop where rs[k] applies.
func overridden(list []int, rs []rule, k int, prop string, imp bool) bool {
	r := false
	p := lastPos(list, k)
	for j := range rs {
		if j == k || lastPos(list, j) < p {
			continue
		}
		for _, e := range rs[j].decls {
			if imp && !e.imp {
				continue
			}
			r = vs.Or(r, vs.And(sameCirc(rs[k], rs[j]), vs.Eq(prop, e.prop)))
		}
	}
	return r
}

// plainRules gives n classes with nd declarations each of arbitrary one-letter-tailed
// properties the table does not know, in arbitrary @media circumstances or none.
func plainRules(n, nd int, circ, imp bool) []rule {
	rs := make([]rule, n)
	for i := range rs {
		rs[i].class = string(rune('a' + i))
		if circ && vs.Choose(2) == 1 {
			rs[i].at = "(w:" + vs.StrIn(1, letters) + ")"
		}
		for j := 0; j < nd; j++ {
			d := decl{prop: "q" + vs.StrIn(1, letters)}
			if imp {
				d.imp = vs.Choose(2) == 1
			}
			rs[i].decls = append(rs[i].decls, d)
		}
	}
	return rs
}

func sheet(rs []rule) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(r.css())
	}
	return b.String()
}

const (
	chkLast = 1 << iota
	chkGone
	chkImp
)

// checkKept asserts that the last setter of each property is kept (M03), that classes
// overridden throughout are removed (M04), and that the last important setter is kept (M05).
func checkKept(list []int, rs []rule, out string, what int) {
	for k := range rs {
		if lastPos(list, k) < 0 {
			continue
		}
		kept := has(out, rs[k].class)
		all := true
		for _, d := range rs[k].decls {
			o := overridden(list, rs, k, d.prop, false)
			if what&chkLast != 0 {
				vs.Assert(vs.Or(o, kept), "the last class to set a property is dropped")
			}
			if d.imp {
				all = false
				if what&chkImp != 0 {
					vs.Assert(vs.Or(overridden(list, rs, k, d.prop, true), kept), "the last class to set a property with !important is dropped")
				}
			}
			all = vs.And(all, o)
		}
		if what&chkGone != 0 {
			vs.Assert(vs.Implies(all, !kept), "a class whose every declaration is overridden is kept")
		}
	}
}

func general(n, nd, nlist int, circ, imp bool, what int) {
	rs := plainRules(n, nd, circ, imp)
	list := lists[vs.Choose(nlist)]
	load(keep, sheet(rs))
	in := join(list, rs)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	checkKept(list, rs, out, what)
}

// M03_arrangements: three classes of one declaration each (any property name q?, important or
// not, under @media (w:?) or not, any letters), in four arrangements with repeats.
func M03_arrangements() { general(3, 1, 4, true, true, chkLast) }

// M03_declarations: three classes of two declarations each, any property names q?.
func M03_declarations() { general(3, 2, pick(1, 4), pick(0, 1) == 1, false, chkLast) }

// M04_arrangements: as M03_arrangements.
func M04_arrangements() { general(3, 1, 4, true, true, chkGone) }

// M04_declarations: as M03_declarations.
func M04_declarations() { general(3, 2, pick(1, 4), pick(0, 1) == 1, false, chkGone) }

// M05_arrangements: as M03_arrangements.
func M05_arrangements() { general(3, 1, 4, true, true, chkImp) }

// M05_declarations: two classes (three in the thorough tier) of two declarations each, each
// important or not, any property names q?.
func M05_declarations() { general(pick(2, 3), 2, 1, false, true, chkImp|chkLast) }

func pick(quick, thorough int) int {
	if vs.Thorough() {
		return thorough
	}
	return quick
}
