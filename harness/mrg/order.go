package mrg

import (
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// mixedRules are n classes of up to nd declarations: ordinary, important, shorthand, custom or reading a custom property.
func mixedRules(n, nd int) []rule {
	rs := make([]rule, n)
	for i := range rs {
		rs[i].class = string(rune('a' + i))
		for j := 0; j < nd; j++ {
			rs[i].decls = append(rs[i].decls, mixedDecl())
		}
	}
	return rs
}

func mixedDecl() decl {
	switch vs.Choose(6) {
	case 0:
		return decl{prop: "q" + vs.StrIn(1, letters)}
	case 1:
		return decl{prop: "q" + vs.StrIn(1, letters), imp: true}
	case 2:
		return decl{prop: "gap"}
	case 3:
		return decl{prop: "row-gap"}
	case 4:
		return decl{prop: "--" + vs.StrIn(1, letters)}
	}
	return decl{prop: "q" + vs.StrIn(1, letters), val: "var(--" + vs.StrIn(1, letters) + ")"}
}

// repeat merges in with m; the compiled code has only chance to vary map orders, so it tries often.
func again(f func() string, want string, msg string) {
	n := 1
	if vs.Native() {
		n = 300
	}
	for i := 0; i < n; i++ {
		vs.Assert(vs.Eq(f(), want), msg)
	}
}

// M08_maporder: three classes of one declaration each of six kinds over any names, merged once with maps iterated
// in insertion order and once with every map iterated in any order (maps of over four entries: rotations of the insertion order and its reverse), with and without keep-order.
func M08_maporder() {
	rs := mixedRules(pick(2, 3), 1)
	rs = append(rs, rule{class: "d", decls: []decl{{prop: "q" + vs.StrIn(1, letters), val: "var(--" + vs.StrIn(1, letters) + ")"}, {prop: "margin-left"}}})
	css := sheet(rs)
	list := []int{}
	for i := range rs {
		list = append(list, i)
	}
	in := join(list, rs)
	m := keep
	if vs.Choose(2) == 1 {
		m = free
	}
	load(m, css)
	want := m.Merge(in)
	vs.Observe("out", want)
	vs.Reach("merged")
	vs.MapOrder(true)
	again(func() string { return m.Merge(in) }, want, "the result depends on the order maps are iterated in")
}

// M08_custom: chains of custom properties read by one another, any map order.
func M08_custom() {
	l := func() string { return "--" + vs.StrIn(1, "xyz") }
	rs := []rule{
		{class: "a", decls: []decl{{prop: l(), val: "var(" + l() + ")"}}},
		{class: "b", at: "(w:1)", decls: []decl{{prop: l()}}},
		{class: "c", decls: []decl{{prop: "q", val: "var(" + l() + ")"}}},
	}
	m := keep
	if vs.Choose(2) == 1 {
		m = free
	}
	load(m, sheet(rs))
	want := m.Merge("a b c")
	vs.Observe("out", want)
	vs.Reach("merged")
	vs.MapOrder(true)
	again(func() string { return m.Merge("a b c") }, want, "the result depends on the order maps are iterated in")
}

// M08_order: lists of any three or four (thorough: five) one-letter classes over a, b, c, d, z, of which all but z have rules over any
// property names: the kept ones come in the order of their last occurrence, and keep-order
// changes nothing about which they are.
func M08_order() {
	n := 3 + vs.Choose(pick(2, 3))
	in := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			in += " "
		}
		in += vs.StrIn(1, "abcdz")
	}
	p := func() string { return "q" + vs.StrIn(1, letters) }
	css := ".a{" + p() + ":v}.b{" + p() + ":v}.c{" + p() + ":v!important}.d{color:v}"
	load(keep, css)
	load(free, css)
	out := keep.Merge(in)
	un := free.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	os, us, ts := toks(out), toks(un), toks(in)
	vs.Assert(len(os) == len(us), "keep-order changes which classes are kept")
	for _, u := range us {
		vs.Assert(has(out, u), "keep-order changes which classes are kept")
	}
	// position of the last occurrence, as a number of tokens from the end
	pos := func(o string) int {
		for i := len(ts) - 1; i >= 0; i-- {
			if ts[i] == o {
				return i
			}
		}
		return -1
	}
	for i := 1; i < len(os); i++ {
		vs.Assert(pos(os[i-1]) < pos(os[i]), "classes are not in the order of their last occurrence")
	}
}

// M09_mixed: three classes of one declaration each of six kinds over any names, in four
// arrangements with repeats; merging the result again changes nothing.
func M09_mixed() {
	rs := mixedRules(3, 1)
	idem(join(lists[vs.Choose(pick(2, 4))], rs), sheet(rs))
}

// M09_two: two classes of two declarations each (thorough: and a third of one).
func M09_two() {
	rs := mixedRules(2, 2)
	if vs.Thorough() {
		rs = append(rs, rule{class: "c", decls: []decl{mixedDecl()}})
	}
	idem(join(lists[0], rs), sheet(rs))
}

// M09_circumstances: three classes under @media (w:?) or not, important or not, any names.
func M09_circumstances() {
	rs := plainRules(3, 1, true, true)
	idem(join(lists[0], rs), sheet(rs))
}

// M09_bytes: class lists of any 5 bytes over letters and white space.
func M09_bytes() {
	n := vs.Choose(pick(5, 6) + 1)
	idem(vs.StrIn(n, "abc \t\n\f\r\v\x85\xa0\xc2\x00"), fixedRules)
}

// M09_vars: chains of custom properties across circumstances.
func M09_vars() {
	rs := make([]vrule, 3)
	css, in := "", ""
	for i := range rs {
		rs[i] = vrule{class: string(rune('a' + i)), decls: []vdecl{anyVDecl(4)}}
		if vs.Choose(2) == 1 {
			rs[i].at = "(w:" + vs.StrIn(1, letters) + ")"
		}
		if i < pick(0, 1) {
			rs[i].decls = append(rs[i].decls, anyVDecl(3))
		}
		css += rs[i].css(0)
		in += rs[i].class + " "
	}
	idem(in, css)
}

func idem(in, css string) {
	load(keep, css)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(vs.Eq(keep.Merge(out), out), "merging the result again changes it")
}
