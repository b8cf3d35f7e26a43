package mrg

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// vdecl sets an ordinary property or a custom property and reads custom properties.
type vdecl struct {
	custom bool
	name   string // q? or --?
	uses   []string
	imp    bool
}

type vrule struct {
	class string
	at    string
	decls []vdecl
}

func (r vrule) css(form int) string {
	b := ""
	for i, d := range r.decls {
		if i > 0 {
			b += ";"
		}
		v := "v"
		for _, u := range d.uses {
			switch form {
			case 0:
				v += " var(" + u + ")"
			case 1:
				v += " calc(1px + VAR( " + u + " , 2px))"
			case 2:
				v += " rgb(0 0 0/var(" + u + ",var(--zz)))"
			}
		}
		if d.imp {
			v += "!important"
		}
		b += d.name + ":" + v
	}
	b = "." + r.class + "{" + b + "}"
	if r.at != "" {
		b = "@media " + r.at + "{" + b + "}"
	}
	return b
}

// checkVars compares which setters of custom properties are kept in out, the result for the
// classes of rs in order, with what M06 says.
func checkVars(rs []vrule, out string) {
	// readers: the last (important) setter of an ordinary property, per circumstance
	type def struct{ r, d int }
	last := func(i, j int, imp bool) bool {
		d := rs[i].decls[j]
		r := vs.Implies(imp, d.imp)
		for k := i + 1; k < len(rs); k++ {
			for _, e := range rs[k].decls {
				if e.custom != d.custom || imp && !e.imp {
					continue
				}
				r = vs.And(r, !vs.And(vs.Eq(rs[k].at, rs[i].at), vs.Eq(e.name, d.name)))
			}
		}
		return r
	}
	var defs []def
	for i := range rs {
		for j, d := range rs[i].decls {
			if d.custom {
				defs = append(defs, def{i, j})
			}
		}
	}
	// used[x]: the definition defs[x] is the last of its name in its circumstance and something kept reads it
	used := make([]bool, len(defs))
	lastDef := make([]bool, len(defs))
	for x, f := range defs {
		lastDef[x] = last(f.r, f.d, false)
		u := false
		for i := range rs {
			for j, d := range rs[i].decls {
				if d.custom {
					continue
				}
				l := vs.Or(last(i, j, false), last(i, j, true))
				for _, n := range d.uses {
					u = vs.Or(u, vs.And(l, vs.Eq(n, rs[f.r].decls[f.d].name)))
				}
			}
		}
		used[x] = vs.And(u, lastDef[x])
	}
	for n := 0; n < len(defs); n++ {
		for x, f := range defs {
			u := used[x]
			for y, g := range defs {
				for _, nm := range rs[g.r].decls[g.d].uses {
					u = vs.Or(u, vs.And(vs.And(used[y], lastDef[x]), vs.Eq(nm, rs[f.r].decls[f.d].name)))
				}
			}
			used[x] = u
		}
	}
	for x, f := range defs {
		vs.Assert(vs.Implies(used[x], has(out, rs[f.r].class)), "the last setter of a custom property in use is dropped")
	}
	// classes that set only custom properties nobody reads
	for i, r := range rs {
		only := true
		read := false
		for _, d := range r.decls {
			if !d.custom || d.imp {
				only = false
			}
			for _, o := range rs {
				for _, e := range o.decls {
					for _, n := range e.uses {
						read = vs.Or(read, vs.Eq(n, d.name))
					}
				}
			}
		}
		_ = i
		if only {
			vs.Assert(vs.Or(read, !has(out, r.class)), "a class setting only unused custom properties is kept")
		}
	}
	// ordinary properties stay as ever
	for i, r := range rs {
		for j, d := range r.decls {
			if !d.custom {
				vs.Assert(vs.Implies(vs.Or(last(i, j, false), last(i, j, true)), has(out, r.class)), "the last class to set a property is dropped")
			}
		}
	}
}

func anyVDecl(kinds int) vdecl {
	switch vs.Choose(kinds) {
	case 0:
		return vdecl{custom: true, name: "--" + vs.StrIn(1, letters)}
	case 1:
		return vdecl{name: "q" + vs.StrIn(1, letters), uses: []string{"--" + vs.StrIn(1, letters)}}
	case 2:
		return vdecl{custom: true, name: "--" + vs.StrIn(1, letters), uses: []string{"--" + vs.StrIn(1, letters)}}
	case 3:
		return vdecl{name: "q" + vs.StrIn(1, letters)}
	}
	return vdecl{name: "q" + vs.StrIn(1, letters), uses: []string{"--" + vs.StrIn(1, letters), "--" + vs.StrIn(1, letters)}}
}

func mergeVars(rs []vrule, form int) {
	css, in := "", ""
	for i, r := range rs {
		if i > 0 {
			in += " "
		}
		in += r.class
		css += r.css(form)
	}
	load(keep, css)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	checkVars(rs, out)
}

// M06_chain: three classes (thorough: four) of one declaration each: an ordinary property reading a custom one or
// not, a custom property, or one defined by another; any names.
func M06_chain() {
	n := pick(3, 4)
	rs := make([]vrule, n)
	for i := range rs {
		rs[i] = vrule{class: string(rune('a' + i)), decls: []vdecl{anyVDecl(4)}}
	}
	mergeVars(rs, 0)
}

// M06_circumstances: three classes of one declaration each, each under @media (w:?) or not.
func M06_circumstances() {
	rs := make([]vrule, 3)
	for i := range rs {
		rs[i] = vrule{class: string(rune('a' + i)), decls: []vdecl{anyVDecl(3)}}
		if vs.Choose(2) == 1 {
			rs[i].at = "(w:" + vs.StrIn(1, letters) + ")"
		}
	}
	mergeVars(rs, 0)
}

// M06_pairs: two classes of two declarations each.
func M06_pairs() {
	rs := make([]vrule, 2)
	for i := range rs {
		rs[i] = vrule{class: string(rune('a' + i)), decls: []vdecl{anyVDecl(pick(3, 5)), anyVDecl(3)}}
	}
	mergeVars(rs, 0)
}

// M06_important: a reader, a setter and another reader of the same or another property, each important or not.
func M06_important() {
	s := vrule{class: "a", decls: []vdecl{{custom: true, name: "--" + vs.StrIn(1, letters), imp: vs.Choose(2) == 1}}}
	r1 := vrule{class: "b", decls: []vdecl{{name: "q" + vs.StrIn(1, letters), uses: []string{"--" + vs.StrIn(1, letters)}, imp: vs.Choose(2) == 1}}}
	r2 := vrule{class: "c", decls: []vdecl{anyVDecl(4)}}
	r2.decls[0].imp = vs.Choose(2) == 1
	rs := []vrule{s, r1, r2}
	switch vs.Choose(3) {
	case 1:
		rs = []vrule{r1, s, r2}
	case 2:
		rs = []vrule{r1, r2, s}
	}
	mergeVars(rs, 0)
}

// M06_spellings: names of any two characters over letters, digits, - and _ (starting with a letter or _, since others the CSS tokenizer rejects), read through
// var() in any letter case with white space, fallbacks and inside functions.
func M06_spellings() {
	nm := func() string { return "--" + vs.StrIn(1, "aZ_") + vs.StrIn(vs.Choose(2), "aZ9-_") }
	d := nm()
	u := nm()
	pre := []string{"", "1px ", "calc(1px*", "f(", "a,"}[vs.Choose(5)]
	post := []string{"", ")", ",2px)"}
	suf := ""
	if strings.HasSuffix(pre, "(") || strings.HasSuffix(pre, "*") {
		suf = ")"
	}
	ws1, ws2 := vs.StrIn(vs.Choose(2), " \n\t"), vs.StrIn(vs.Choose(2), " \n\t")
	fb := []string{"", ",2px", ", var(--zz)", ","}[vs.Choose(4)]
	_ = post
	load(keep, ".a{"+d+":1}.b{color:"+pre+anyCase("var")+"("+ws1+u+ws2+fb+")"+suf+"}")
	out := keep.Merge("a b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "b"), "the last class to set a property is dropped")
	vs.Assert(vs.Implies(vs.Eq(d, u), has(out, "a")), "the last setter of a custom property in use is dropped")
	vs.Assert(vs.Implies(!vs.Eq(d, u), !has(out, "a")), "a class setting only unused custom properties is kept")
}

// M06_many: one declaration reading twelve (thorough: twenty-four) custom properties and one of them or another
// once more, two setters of any of them (or of others), in any order of the letters.
func M06_many() {
	n := pick(12, 24)
	names := letters[:n]
	at, nm := vs.Choose(n), vs.StrIn(1, letters)
	var v strings.Builder
	for i := 0; i < n; i++ {
		if i == at {
			v.WriteString("calc(1px + var(--" + nm + ",2px)) ")
			continue
		}
		v.WriteString("var(--" + names[i:i+1] + ") ")
	}
	s1, s2 := vs.StrIn(1, letters), vs.StrIn(1, letters)
	load(keep, ".x{--"+s1+":1}.y{--"+s2+":2}.z{q:"+v.String()+"}")
	out := keep.Merge("x y z")
	vs.Observe("out", out)
	vs.Reach("merged")
	read := func(s string) bool {
		r := vs.Eq(s, nm)
		for i := 0; i < n; i++ {
			if i != at {
				r = vs.Or(r, vs.Eq(s, names[i:i+1]))
			}
		}
		return r
	}
	vs.Assert(has(out, "z"), "the last class to set a property is dropped")
	vs.Assert(has(out, "y") == read(s2), "the last setter of a custom property in use is dropped or an unused one kept")
	vs.Assert(has(out, "x") == vs.And(read(s1), !vs.Eq(s1, s2)), "the last setter of a custom property in use is dropped or an unused one kept")
}

// M06_long: a chain of twelve (thorough: thirty) custom properties, each defined by the next, of which one link reads
// an arbitrary one instead, read from an arbitrary place on, all in classes of their own in two orders.
func M06_long() {
	n := pick(12, 30)
	nm := func(i int) string { return string(rune('a'+i/26)) + letters[i%26:i%26+1] }
	at, to := vs.Choose(n), vs.Choose(n+1)
	start := vs.Choose(3) * n / 3
	var css, in strings.Builder
	for i := 0; i < n; i++ {
		next := i + 1
		if i == at {
			next = to
		}
		css.WriteString(".k" + nm(i) + "{--" + nm(i) + ":var(--" + nm(next) + ")}")
		in.WriteString("k" + nm(i) + " ")
	}
	css.WriteString(".r{q:var(--" + nm(start) + ")}")
	load(keep, css.String())
	list := in.String() + "r"
	if vs.Choose(2) == 1 {
		list = "r " + in.String()
	}
	out := keep.Merge(list)
	vs.Observe("out", out)
	vs.Reach("merged")
	want := map[int]bool{}
	for i := start; i < n && !want[i]; {
		want[i] = true
		if i == at {
			i = to
		} else {
			i++
		}
	}
	for i := 0; i < n; i++ {
		vs.Assert(has(out, "k"+nm(i)) == want[i], "the last setter of a custom property in use is dropped or an unused one kept")
	}
}

// spelt is a character of a name in one of its spellings.
func spelt(c string) string {
	const hex = "0123456789abcdef"
	switch vs.Choose(4) {
	case 0:
		return "\\" + c
	case 1: // by its number, of six digits
		return "\\0000" + hex[c[0]>>4:c[0]>>4+1] + hex[c[0]&15:c[0]&15+1]
	case 2: // by its number, ended by white space
		return "\\" + strings.ToUpper(hex[c[0]>>4:c[0]>>4+1]+hex[c[0]&15:c[0]&15+1]) + vs.StrIn(1, " \t\n")
	}
	return "\\0" + hex[c[0]>>4:c[0]>>4+1] + hex[c[0]&15:c[0]&15+1] + " "
}

// M06_escapes: names with a character of twenty that needs a backslash, written in any of four ways where it is set and where
// it is read, and between any letters.
func M06_escapes() {
	const special = ".:/,() !;{}\"'\\@&%#*+"
	i := vs.Choose(len(special))
	j := i
	if vs.Choose(2) == 1 {
		j = (i + 1 + vs.Choose(pick(2, len(special)-1))) % len(special)
	}
	c, d := special[i:i+1], special[j:j+1]
	x, y := vs.StrIn(1, "gxZ"), vs.StrIn(1, "gxZ")
	fb := []string{"", ",1px", " , var(--zz)"}[vs.Choose(3)]
	load(keep, ".a{--"+x+spelt(c)+x+":1}.b{color:f(1px var(--"+y+spelt(d)+y+fb+"))}.c{--"+x+":1}")
	out := keep.Merge("a c b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "b"), "the last class to set a property is dropped")
	vs.Assert(!has(out, "c"), "a class setting only unused custom properties is kept")
	vs.Assert(has(out, "a") == vs.And(c == d, vs.Eq(x, y)), "the last setter of a custom property in use is dropped or an unused one kept")
}
