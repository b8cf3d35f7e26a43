package mrg

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// anyCase is w with each letter in either case.
func anyCase(w string) string {
	s := ""
	for i := 0; i < len(w); i++ {
		if w[i] >= 'a' && w[i] <= 'z' {
			s += vs.StrIn(1, w[i:i+1]+string(rune(w[i]-32)))
		} else {
			s += w[i : i+1]
		}
	}
	return s
}

// M05_spellings: the word important in any letter case after any one or two white space characters
// or none, after values of any one letter; the other class is plain, or has the word in a string, a
// URL or an identifier.
func M05_spellings() {
	ws := vs.StrIn(vs.Choose(3), " \t\n\f\r")
	imp := vs.StrIn(1, letters) + []string{"", " ", "\n"}[vs.Choose(3)] + "!" + ws + anyCase("important")
	other := []string{"v", "\"!important\"", "'x !important'", "url(!important)", "url(\"!important\")", "important", "x !ie", "\"a\" \"!important\""}[vs.Choose(8)]
	semi := []string{"", ";", " ;", " "}[vs.Choose(4)]
	load(keep, ".a{color:"+imp+semi+"}.b{color:"+other+semi+"}")
	out := keep.Merge("a b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "a"), "an important declaration loses")
	vs.Assert(has(out, "b"), "the last class to set a property is dropped")
	// the other way round nothing of a class that is not important survives
	out = keep.Merge("b a")
	vs.Assert(has(out, "a"), "the last class to set a property is dropped")
	vs.Assert(!has(out, "b"), "a property is important without saying so")
}

// M05_shorthands: important shorthands against important or ordinary longhands and the other way round,
// with a second important or ordinary declaration of another property in each rule.
func M05_shorthands() {
	im := func() bool { return vs.Choose(2) == 1 }
	p := []decl{{prop: "padding"}, {prop: "padding-left"}, {prop: "padding-right"}}
	a, b := p[vs.Choose(3)], p[vs.Choose(3)]
	a.imp, b.imp = im(), im()
	a2, b2 := decl{prop: "q" + vs.StrIn(1, letters), imp: im()}, decl{prop: "q" + vs.StrIn(1, letters), imp: im()}
	ra, rb := rule{class: "a", decls: []decl{a2, a}}, rule{class: "b", decls: []decl{b, b2}}
	if vs.Choose(2) == 1 {
		ra.decls[0], ra.decls[1] = a, a2
	}
	load(keep, ra.css()+rb.css())
	out := keep.Merge("a b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "b") == true, "the last class to set a property is dropped")
	covers := func(x, y decl) bool { return x.prop == "padding" || x.prop == y.prop }
	// a goes exactly when each of its declarations is overridden and none is important but beaten
	gone := func(x decl, later ...decl) bool {
		r := false
		for _, y := range later {
			if y.prop == x.prop || y.prop == "padding" && x.prop != "" && x.prop[0] == 'p' && covers(y, x) {
				r = vs.Or(r, vs.Implies(x.imp, y.imp))
			} else {
				r = vs.Or(r, vs.And(vs.Eq(x.prop, y.prop), vs.Implies(x.imp, y.imp)))
			}
		}
		return r
	}
	both := vs.And(gone(a, b, b2), gone(a2, b, b2))
	vs.Assert(vs.Or(both, has(out, "a")), "the last important setter is dropped")
	if !a.imp && !a2.imp {
		vs.Assert(vs.Implies(both, !has(out, "a")), "a class is kept as important without saying so")
	}
}

// M05_escaped: up to four (thorough: seven) backslashes before the exclamation mark, after a letter or not, in an ordinary
// or a custom property: an odd number of them makes it a character of a name.
func M05_escaped() {
	n := vs.Choose(pick(5, 8))
	p := []string{"q", "--q", "color"}[vs.Choose(3)]
	v := vs.StrIn(vs.Choose(2), "vx1,") + strings.Repeat("\\", n) + "!" + vs.StrIn(vs.Choose(2), " \n\t") + anyCase("important")
	load(keep, ".a{"+p+":"+v+"}.b{"+p+":w}.r{z:var(--q)}")
	out := keep.Merge("a b r")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "b"), "the last class to set a property is dropped")
	vs.Assert(has(out, "a") == (n%2 == 0), "a property is important without saying so, or not in spite of it")
}
