package mrg

import (
	"strconv"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// largeRules gives n classes of which every three set one property, some with !important, some under a condition, some two
// properties; three of them, near the front, in the middle and at the end, set any property p?? and are important or not.
// The list has all of them in another order, and some once more at the end.
func largeRules(n int) ([]rule, []int) {
	rs := make([]rule, n)
	for i := range rs {
		rs[i].class = "k" + strconv.Itoa(i)
		d := decl{prop: "p" + string(rune('a'+i/3%26)) + string(rune('a'+i/78)), imp: i%11 == 5}
		rs[i].decls = []decl{d}
		if i%7 == 3 {
			rs[i].decls = append(rs[i].decls, decl{prop: "s" + string(rune('a'+i%13)), imp: i%14 == 3})
		}
		if i%5 == 4 {
			rs[i].at = "(w:1)"
		}
	}
	any := vs.StrIn(1, "abcdefgh")
	last := vs.Choose(2) == 1
	for _, k := range []int{1, n / 2, n - 2} {
		rs[k].decls = []decl{{prop: "p" + any + "a", imp: k != 1 && last}}
		rs[k].at = ""
	}
	var list []int
	for i := range rs {
		list = append(list, i*7%n)
	}
	for i := 0; i < n; i += 9 {
		list = append(list, i)
	}
	return rs, list
}

// largeCount is not divisible by seven.
func largeCount() int { return pick(260, 305) }

func large(what int) {
	rs, list := largeRules(pick(90, 106))
	load(keep, sheet(rs))
	out := keep.Merge(join(list, rs))
	vs.Observe("out", out)
	vs.Reach("merged")
	checkKept(list, rs, out, what)
}

// M03_large: lists of 90 classes (thorough: 106) and some of them again, as in largeRules.
func M03_large() { large(chkLast) }

// M04_large: as M03_large.
func M04_large() { large(chkGone) }

// M05_large: as M03_large.
func M05_large() { large(chkImp) }

// M01_large: as M03_large with 260 classes (thorough: 305), and with classes without rules of any two letters among them.
func M01_large() {
	rs, list := largeRules(largeCount())
	load(keep, sheet(rs))
	load(free, sheet(rs))
	in := "zz " + join(list, rs) + "\n" + vs.StrIn(2, "xyz") + " zz"
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	wellFormed(in, out)
	wellFormed(in, free.Merge(in))
}

// M02_large: a class of 4 to 24 (thorough: 60) letters, digits and signs without a rule, with one or among eight (thorough: 30) others.
func M02_large() {
	n := []int{4, 5, 8, 13, 24, 60}[vs.Choose(pick(5, 6))]
	u := vs.StrIn(n, letters+"ABCXYZ0123456789-_:/[]()&>.%#!,@*'")
	vs.Assume(u[0] != 'k')
	rs, list := largeRules(largeCount())
	load(keep, sheet(rs))
	in := "k1 " + u
	if vs.Choose(2) == 1 {
		in = join(list[:4], rs) + " " + u + " " + join(list[4:pick(8, 30)], rs)
	}
	vs.Reach("merged")
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Assert(has(out, u), "a class without a rule is dropped")
}

// M08_large: as M03_large with 260 classes (thorough: 305): with keep-order the classes come in the order of their last occurrence, without it they are the same ones.
func M08_large() {
	rs, list := largeRules(largeCount())
	load(keep, sheet(rs))
	load(free, sheet(rs))
	in := "zz " + join(list, rs) + " yy"
	out, other := keep.Merge(in), free.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	want := ""
	ts := toks(in)
	for i, t := range ts {
		again := false
		for _, u := range ts[i+1:] {
			again = again || t == u
		}
		if !again && has(out, t) {
			want += " " + t
		}
	}
	vs.Assert(" "+out == want, "the kept classes are not in the order of their last occurrence")
	a, b := toks(out), toks(other)
	vs.Assert(len(a) == len(b), "the order option changes which classes are kept")
	for _, t := range a {
		vs.Assert(has(other, t), "the order option changes which classes are kept")
	}
}

// M09_large: as M03_large with 260 classes (thorough: 305): merging the result again changes nothing.
func M09_large() {
	rs, list := largeRules(largeCount())
	load(keep, sheet(rs))
	out := keep.Merge("zz " + join(list, rs) + " yy")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(keep.Merge(out) == out, "merging the result again changes it")
}

// M12_large: 260 rules (thorough: 305), each for two classes out of many, one for any class t?? of two digits, loaded at once,
// one by one or in two parts: each class is governed by the last rule mentioning it.
func M12_large() {
	n := largeCount()
	k := vs.Choose(3)
	any := "t" + vs.StrIn(2, "012345678")
	var parts []string
	as, bs := make([]string, n), make([]string, n)
	for i := 0; i < n; i++ {
		as[i], bs[i] = "t"+strconv.Itoa(10+i*7%23), "t"+strconv.Itoa(10+i*5%31)
		if i == n/2 {
			bs[i] = any
		}
		parts = append(parts, "."+as[i]+",i ."+bs[i]+"{p"+strconv.Itoa(i)+":v}")
	}
	switch k {
	case 0:
		load(keep, strings.Join(parts, ""))
	case 1:
		for _, s := range parts {
			load(keep, s)
		}
	case 2:
		load(keep, strings.Join(parts[:n-3], "\n"))
		load(keep, strings.Join(parts[n-3:], "\n"))
	}
	vs.Reach("loaded")
	rules := keep.Rules()
	for i := 9; i < 41; i++ {
		c := "t" + strconv.Itoa(i)
		if i == 9 {
			c = any
		}
		want := ""
		for j := range as {
			if as[j] == c || bs[j] == c {
				want = "p" + strconv.Itoa(j)
			}
		}
		r, ok := rules[c]
		vs.Assert(ok == (want != ""), "a class of a rule is not recorded")
		if ok {
			vs.Assert(len(r.Declarations) == 1 && r.Declarations[0].Property == want, "a class is not governed by the last rule mentioning it")
			vs.Observe("prop", r.Declarations[0].Property)
		}
	}
}

// M10_large: 40 (thorough: 200) class lists merged with a cache against no cache, and the first ones once more, before and after rules are added for any
// class t??.
func M10_large() {
	n := pick(40, 200)
	any := "t" + vs.StrIn(2, "0123")
	var b strings.Builder
	for i := 0; i < 50; i++ {
		b.WriteString(".t" + strconv.Itoa(i) + "{p" + strconv.Itoa(i%3) + ":v}")
	}
	for _, m := range []*merge.Merger{cachedS, cachedM, plain} {
		load(m, b.String())
	}
	lists := make([]string, n)
	for i := range lists {
		lists[i] = "t" + strconv.Itoa(i%50) + " t" + strconv.Itoa(i*3%50) + " " + any + " x" + strconv.Itoa(i)
	}
	all := func(n int) {
		for i, l := range lists[:n] {
			want := plain.Merge(l)
			vs.Assert(cachedS.Merge(l) == want && cachedM.Merge(l) == want, "a result differs with a cache")
			if i == 3 {
				vs.Observe("out", want)
			}
		}
	}
	all(n)
	all(n / 4)
	for _, m := range []*merge.Merger{cachedS, cachedM, plain} {
		load(m, "."+any+"{p1:v}.t3{p0:v;p1:v}")
	}
	all(n)
	vs.Reach("merged")
}

// M06_large: 30 (thorough: 90) custom properties in a chain of which each uses the next, set by a class of its own, most of them once more by another class, and a class that uses
// any one of them, or 20 in one value: exactly the last setters of what is used on the way are kept.
func M06_large() {
	n := pick(30, 90)
	d1, d2 := vs.StrIn(1, "0123456789"), vs.StrIn(1, "0123456789")
	any := int(d1[0]-'0')*10 + int(d2[0]-'0')
	var b strings.Builder
	x := func(i int) string { return "--x" + string(rune('0'+i/10)) + string(rune('0'+i%10)) }
	list := ""
	for i := 0; i < n; i++ {
		v := "v"
		if i%27 != 26 {
			v = "f(var( " + x(i+1) + " , 1px))"
		}
		for _, c := range []string{"c", "d"} {
			if c == "c" || i%3 > 0 {
				b.WriteString("." + c + strconv.Itoa(i) + "{" + x(i) + ":" + v + "}")
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		list += "c" + strconv.Itoa(i) + " "
	}
	for i := 0; i < n; i++ {
		if i%3 > 0 {
			list += "d" + strconv.Itoa(i) + " "
		}
	}
	uses := make([]bool, 120)
	v := "var(--x" + d1 + d2 + ")"
	many := vs.Choose(2) == 1
	if many {
		for i := 0; i < 20; i++ {
			v += " var(" + x(i*7%n) + ")"
			uses[i*7%n] = true
		}
	}
	b.WriteString(".u{color:" + v + "}")
	uses[any] = true
	for i := 0; i < n; i++ {
		if uses[i] && i%27 != 26 {
			uses[i+1] = true
		}
	}
	load(keep, b.String())
	out := keep.Merge(list + "u")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "u"), "the class that uses custom properties is dropped")
	for i := 0; i < n; i++ {
		c, d := has(out, "c"+strconv.Itoa(i)), has(out, "d"+strconv.Itoa(i))
		if i%3 > 0 {
			vs.Assert(!c, "a setter that another overrides is kept")
			c = d
		}
		vs.Assert(c == uses[i], "a setter is kept without use, or dropped in spite of it")
	}
}
