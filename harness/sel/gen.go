package sel

import (
	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// spec is a specificity.
type spec [3]int

func (a spec) plus(b spec) spec { return spec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }

func most(a, b spec) spec {
	for i := range a {
		if a[i] != b[i] {
			if a[i] > b[i] {
				return a
			}
			return b
		}
	}
	return a
}

const idents = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"

const simples = 22

// simple writes a simple selector other than a type selector and its specificity.
func simple(k, deep int) (string, spec) {
	n := vs.StrIn(1, idents)
	switch k {
	case 0:
		return "." + n, spec{0, 1, 0}
	case 1:
		return "#" + n, spec{1, 0, 0}
	case 2:
		return "[" + n + "]", spec{0, 1, 0}
	case 3:
		return "[a~='" + n + "']", spec{0, 1, 0}
	case 4:
		return ":hover", spec{0, 1, 0}
	case 5:
		return ":nth-child(2n+1)", spec{0, 1, 0}
	case 6:
		return ":first-child", spec{0, 1, 0}
	case 7:
		return ":lang(en)", spec{0, 1, 0}
	case 8:
		return ":-moz-focusring", spec{0, 1, 0}
	case 9:
		return ":empty", spec{0, 1, 0}
	case 10:
		return ":checked", spec{0, 1, 0}
	case 11:
		return ":read-only", spec{0, 1, 0}
	case 12:
		return ":only-of-type", spec{0, 1, 0}
	case 13:
		return ":root", spec{0, 1, 0}
	case 14:
		return ":link", spec{0, 1, 0}
	case 15:
		return "[a=b i]", spec{0, 1, 0}
	}
	if deep == 0 {
		return "." + n, spec{0, 1, 0}
	}
	s, sp := list(deep - 1)
	switch k {
	case 16:
		return ":not(" + s + ")", sp
	case 17:
		return ":is(" + s + ")", sp
	case 18:
		return ":where(" + s + ")", spec{}
	case 19:
		return ":has(" + s + ")", sp
	case 20:
		return ":haschild(" + s + ")", sp
	default:
		return ":IS(" + s + ")", sp
	}
}

// lim is subtracted from the number of selectors in a list.

var lim int

func list(deep int) (string, spec) {
	s, sp := "", spec{}
	n := 1 + vs.Choose(pick(2, 3)-lim)
	for i := 0; i < n; i++ {
		t, tp := part(deep)
		if i > 0 {
			s += ","
		}
		s += t
		sp = most(sp, tp)
	}
	return s, sp
}

var parts = []struct {
	s  string
	sp spec
}{{"a", spec{0, 0, 1}}, {"#i", spec{1, 0, 0}}, {".c.d", spec{0, 2, 0}}, {"a .c", spec{0, 1, 1}}, {"*", spec{}},
	{"#i>a", spec{1, 0, 1}}, {".a.b.c", spec{0, 3, 0}}, {"a b c d", spec{0, 0, 4}}, {":not(#j)", spec{1, 0, 0}}, {":where(#k) a", spec{0, 0, 1}}}

func part(deep int) (string, spec) {
	if deep == 0 || vs.Choose(2) == 0 {
		p := parts[vs.Choose(len(parts))]
		return p.s, p.sp
	}
	return simple(16+vs.Choose(6), deep)
}

func compound(deep int) (string, spec) {
	s, sp := "", spec{}
	switch vs.Choose(3) {
	case 0:
		s = vs.StrIn(1, idents)
		sp = spec{0, 0, 1}
	case 1:
		s = "*"
	}
	n := 1 + vs.Choose(2)
	for i := 0; i < n; i++ {
		k := vs.Choose(simples)
		if i > 0 {
			deep = 0
		}
		t, tp := simple(k, deep)
		s += t
		sp = sp.plus(tp)
	}
	return s, sp
}

func specOf(s string, sp spec) {
	sel, err := cascadia.ParseWithPseudoElement(s)
	vs.Observe("text", s)
	vs.Assert(err == nil, "a well-formed selector is rejected")
	got := sel.Specificity()
	vs.Observe("spec", got[0]*10000+got[1]*100+got[2])
	vs.Assert(got == cascadia.Specificity{sp[0], sp[1], sp[2]}, "wrong specificity")
	vs.Reach("computed")
}

// S05_compound: a compound selector of an optional type and one or two simple selectors of 22
// kinds, functional ones holding lists of one or two (thorough: three) selectors.
func S05_compound() {
	s, sp := compound(1)
	specOf(s, sp)
}

// S05_nested: functional pseudo-classes inside functional pseudo-classes.
func S05_nested() {
	lim = 1
	s, sp := simple(16+vs.Choose(6), 2)
	specOf(s, sp)
}

// S05_combined: three compound selectors joined by any combinators, with a pseudo-element.
func S05_combined() {
	s, sp := "", spec{}
	for i := 0; i < 3; i++ {
		if i > 0 {
			s += []string{" ", ">", " + ", "~"}[vs.Choose(4)]
		}
		p := parts[vs.Choose(len(parts))]
		s += p.s
		sp = sp.plus(p.sp)
	}
	switch vs.Choose(3) {
	case 1:
		s, sp = s+"::before", sp.plus(spec{0, 0, 1})
	case 2:
		s, sp = s+":hover:AFTER", sp.plus(spec{0, 1, 1})
	}
	specOf(s, sp)
}

// S05_order: comparison of specificities with arbitrary components.
func S05_order() {
	v := func() cascadia.Specificity {
		return cascadia.Specificity{vs.Int(0, 1<<40), vs.Int(0, 1<<40), vs.Int(0, 1<<40)}
	}
	a, b, c := v(), v(), v()
	ab, ba := a.Less(b), b.Less(a)
	want := a[0] < b[0] || a[0] == b[0] && (a[1] < b[1] || a[1] == b[1] && a[2] < b[2])
	vs.Assert(ab == want, "comparison is not lexicographic")
	vs.Assert(!(ab && ba), "two specificities are less than one another")
	vs.Assert(ab || ba || a == b, "two different specificities compare equal")
	vs.Assert(!a.Less(a), "a specificity is less than itself")
	if ab && b.Less(c) {
		vs.Assert(a.Less(c), "comparison is not transitive")
	}
	d := a.Add(b)
	vs.Assert(d[0] == a[0]+b[0] && d[1] == a[1]+b[1] && d[2] == a[2]+b[2], "addition is not componentwise")
}
