package mrg

import (
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// circ is a circumstance: a chain of at-rules and a selector around the class.
type circ struct {
	ats   []string // "@media (w:x)" ...
	pre   string   // selector text before .class
	post  string   // and after it
	kind  string   // what the selector says, apart from its names
	names []string // names in the selector
}

func (c circ) css(class, decls string) string {
	s := c.pre + "." + class + c.post + "{" + decls + "}"
	for i := len(c.ats) - 1; i >= 0; i-- {
		s = c.ats[i] + "{" + s + "}"
	}
	return s
}

func (c circ) same(d circ) bool {
	if c.kind != d.kind || len(c.ats) != len(d.ats) || len(c.names) != len(d.names) {
		return false
	}
	r := true
	for i := range c.ats {
		r = vs.And(r, vs.Eq(c.ats[i], d.ats[i]))
	}
	for i := range c.names {
		r = vs.And(r, vs.Eq(c.names[i], d.names[i]))
	}
	return r
}

// anyAts is up to two nested @media and @supports blocks with conditions on any one letter.
func anyAts(max int) []string {
	var out []string
	for n := vs.Choose(max + 1); n > 0; n-- {
		out = append(out, []string{"@media (w:", "@supports (w:"}[vs.Choose(2)]+vs.StrIn(1, letters)+")")
	}
	return out
}

// M07_atrules: any two chains of up to two nested @media and @supports blocks, conditions on any letter;
// classes plain or with :hover.
func M07_atrules() {
	c, d := circ{ats: anyAts(2)}, circ{ats: anyAts(2)}
	for _, x := range []*circ{&c, &d} {
		if vs.Choose(2) == 1 {
			x.post, x.kind = ":hover", ":hover"
		}
	}
	conflict(c, d)
}

// M07_preludes: one @media or @supports block each, whose preludes are any text from a set of
// conditions, with any letters.
func M07_preludes() {
	l := func() string { return vs.StrIn(1, letters) }
	one := func() circ {
		k := []string{"@media ", "@supports "}[vs.Choose(2)]
		p := []string{"(w:" + l() + ")", "not (w:" + l() + ")", "(w:" + l() + ") and (w:" + l() + ")", "(w:" + l() + ") or (w:" + l() + ")"}[vs.Choose(4)]
		return circ{ats: []string{k + p}}
	}
	conflict(one(), one())
}

// names is a class name of two letters none of the listed classes has.
func otherName() string { return vs.StrIn(2, "abx") }

var pseudos = []string{":hover", ":focus", ":first-child", ":nth-child(2n+1)", ":nth-child(2)", ":disabled", ":not(.zz)"}

func anySel() circ {
	n := otherName()
	switch vs.Choose(30) {
	case 0:
		return circ{}
	case 1:
		return circ{post: "::before", kind: "::before"}
	case 2:
		return circ{post: "::after", kind: "::after"}
	case 3:
		return circ{post: ":hover", kind: ":hover"}
	case 4:
		return circ{post: ":hover::before", kind: ":hover::before"}
	case 5:
		return circ{post: ":hover:focus", kind: ":focus:hover"}
	case 6:
		return circ{post: ":focus:hover", kind: ":focus:hover"}
	case 7:
		return circ{pre: "." + n + " ", kind: ". C", names: []string{n}}
	case 8:
		return circ{pre: "." + n + ">", kind: ".>C", names: []string{n}}
	case 9:
		return circ{pre: "." + n + "+", kind: ".+C", names: []string{n}}
	case 10:
		return circ{pre: "." + n + "~", kind: ".~C", names: []string{n}}
	case 11:
		return circ{post: " ." + n, kind: "C .", names: []string{n}}
	case 12:
		return circ{post: ">." + n, kind: "C>.", names: []string{n}}
	case 13:
		return circ{post: "~." + n, kind: "C~.", names: []string{n}}
	case 14:
		return circ{pre: "#" + n + " ", kind: "# C", names: []string{n}}
	case 15:
		return circ{pre: n + " ", kind: "t C", names: []string{n}}
	case 16:
		return circ{post: " " + n, kind: "C t", names: []string{n}}
	case 17:
		return circ{pre: "[" + n + "] ", kind: "[] C", names: []string{n}}
	case 18:
		return circ{pre: "." + n + ":hover ", kind: ".:hover C", names: []string{n}}
	case 19:
		return circ{pre: "." + n + ":focus ", kind: ".:focus C", names: []string{n}}
	case 20:
		return circ{pre: "." + n + " ", post: ":hover", kind: ". C:hover", names: []string{n}}
	case 21:
		return circ{pre: "." + n + " ", post: "::before", kind: ". C::before", names: []string{n}}
	case 22:
		return circ{post: ":not(." + n + ")", kind: "C:not(.)", names: []string{n}}
	case 23:
		return circ{post: ":is(." + n + " *)", kind: "C:is(. *)", names: []string{n}}
	case 24:
		return circ{post: ":where(." + n + " *)", kind: "C:where(. *)", names: []string{n}}
	case 25:
		return circ{post: "[" + n + "]", kind: "C[]", names: []string{n}}
	case 26:
		return circ{post: "[" + n + "=q]", kind: "C[=q]", names: []string{n}}
	case 27:
		return circ{post: ":not(:first-child)", kind: "C:not(:first-child)"}
	case 28:
		return circ{post: ":nth-child(" + vs.StrIn(1, "123") + ")", kind: "C:nth-child"}
	}
	m := otherName()
	return circ{pre: "." + n + ">." + m + " ", kind: ".>. C", names: []string{n, m}}
}

// M07_selectors: any two of thirty selector contexts around the classes a and b with any two-letter
// names over a, b and x in them.
func M07_selectors() {
	c, d := anySel(), anySel()
	if c.kind == "C:nth-child" {
		c.names = []string{c.post}
	}
	if d.kind == "C:nth-child" {
		d.names = []string{d.post}
	}
	conflict(c, d)
}

// M07_pseudoclasses: any two sequences of up to two pseudo-classes (thorough: three), the order of which does not matter.
func M07_pseudoclasses() {
	n := pick(2, 3)
	one := func() (circ, map[string]int) {
		c := circ{}
		set := map[string]int{}
		for k := vs.Choose(n + 1); k > 0; k-- {
			p := pseudos[vs.Choose(len(pseudos))]
			vs.Assume(set[p] == 0)
			set[p] = 1
			c.post += p
		}
		return c, set
	}
	c, s := one()
	d, t := one()
	eq := len(s) == len(t)
	for p := range s {
		if t[p] == 0 {
			eq = false
		}
	}
	if eq {
		c.kind, d.kind = "same", "same"
	} else {
		c.kind, d.kind = "one", "other"
	}
	conflict(c, d)
}

// conflict merges a class in each circumstance setting the same property.
func conflict(c, d circ) {
	load(keep, c.css("a", "q:v")+d.css("b", "q:w;z:w"))
	out := keep.Merge("a b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "b"), "the last class is dropped")
	same := c.same(d)
	vs.Assert(vs.Or(same, has(out, "a")), "classes in different circumstances conflict")
	vs.Assert(vs.Implies(same, !has(out, "a")), "classes in the same circumstance do not conflict")
}
