package mrg

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// wellFormed asserts what M01 says of an output for the given input.
func wellFormed(in, out string) {
	ts := toks(in)
	if len(ts) < 2 {
		vs.Assert(vs.Eq(out, in), "an input of at most one class is changed")
		return
	}
	os := toks(out)
	vs.Assert(vs.Eq(strings.Join(os, " "), out), "classes of the result are not separated by single spaces")
	for i, o := range os {
		ok := false
		for _, t := range ts {
			ok = vs.Or(ok, vs.Eq(o, t))
		}
		vs.Assert(ok, "the result has a class the input does not have")
		for _, p := range os[:i] {
			vs.Assert(!vs.Eq(o, p), "a class occurs twice in the result")
		}
	}
}

const fixedRules = `.a{color:v}.b{color:v;padding:v}.c{padding-top:v!important}.aa{--x:v}.ab{color:var(--x)}.é{color:v}`

// M01_bytes: class lists of any 5 (thorough: 6) bytes over letters with rules, all ASCII white
// space and bytes that look like white space elsewhere (VT, NEL, NBSP, NUL), with and without keep-order.
func M01_bytes() {
	n := vs.Choose(pick(5, 6) + 1)
	in := vs.StrIn(n, "abc \t\n\f\r\v\x85\xa0\xc2\x00")
	load(keep, fixedRules)
	load(free, fixedRules)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	wellFormed(in, out)
	wellFormed(in, free.Merge(in))
}

// M01_rules: three classes with any two-letter names (equal or not) and rules over any
// property names, in three white-space separated positions each repeatable.
func M01_rules() {
	rs := make([]rule, 3)
	for i := range rs {
		rs[i].class = vs.StrIn(1+vs.Choose(2), "abz")
		rs[i].decls = []decl{{prop: "q" + vs.StrIn(1, letters), imp: i == 1 && vs.Bool()}}
	}
	load(keep, sheet(rs))
	list := lists[vs.Choose(2)]
	in := join(list, rs)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	wellFormed(in, out)
}

// M01_any: lists of any 4 (thorough: 5) bytes whatsoever.
func M01_any() {
	n := vs.Choose(pick(4, 5) + 1)
	in := vs.Bytes(n)
	load(keep, fixedRules)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	wellFormed(in, out)
}

// M02_any: any class of one to three bytes other than white space, without a rule, at the front,
// in the middle or at the end of a list of classes with conflicting rules.
func M02_any() {
	u := vs.Bytes(1 + vs.Choose(pick(2, 3)))
	for i := 0; i < len(u); i++ {
		vs.Assume(!vs.In(u[i], " \t\n\f\r"))
	}
	for _, k := range []string{"a", "b", "c", "aa", "ab", "é"} {
		vs.Assume(!vs.Eq(u, k))
	}
	load(keep, fixedRules)
	load(free, fixedRules)
	in := []string{u + " a b c", "c a " + u + " b", "a c b " + u, "aa\n" + u + "\tab", u + " é " + u}[vs.Choose(5)]
	vs.Reach("merged")
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Assert(has(out, u), "a class without a rule is dropped")
	vs.Assert(has(free.Merge(in), u), "a class without a rule is dropped")
}

// M02_partial: classes of two letters of which any subset has rules, two known ones and two
// that may or may not coincide with them.
func M02_partial() {
	k1, k2 := vs.StrIn(2, "abc"), vs.StrIn(2, "abc")
	u1, u2 := vs.StrIn(2, "abc"), vs.StrIn(1+vs.Choose(3), "abc")
	load(keep, "."+k1+"{color:v}."+k2+"{color:w;--x:v}")
	in := u1 + " " + k1 + " " + u2 + " " + k2
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	for _, u := range []string{u1, u2} {
		vs.Assert(vs.Or(vs.Or(vs.Eq(u, k1), vs.Eq(u, k2)), has(out, u)), "a class without a rule is dropped")
	}
}

// M07_escaped: property names of which a part, written with backslashes, reads like the name of a circumstance: any
// split of the text of ten circumstances between the name and the circumstance itself.
func M07_escaped() {
	t := []string{":hover", "::before", ":focus", " .x", ">.x", "@media x", ":not(.x)", "print", "(w:1)", "{print"}[vs.Choose(10)]
	n := []string{"q", "--q", "color"}[vs.Choose(3)]
	imp := []string{"", "!important"}[vs.Choose(2)]
	k := vs.Choose(len(t)) + 1
	name := n
	for _, c := range []byte(t[:k]) {
		if !('a' <= c && c <= 'z' || '0' <= c && c <= '9') {
			name += "\\"
		}
		name += string(rune(c))
	}
	a, b := classes()
	other := ""
	switch t {
	case "print", "(w:1)", "{print":
		other = "@media " + strings.TrimPrefix(t, "{") + "{." + b + "{" + n + ":2" + imp + "}}"
	case "@media x":
		other = "@media x{." + b + "{" + n + ":2" + imp + "}}"
	case " .x", ">.x":
		other = "." + b + t + "{" + n + ":2" + imp + "}"
	default:
		other = "." + b + t + "{" + n + ":2" + imp + "}"
	}
	css := "." + a + "{" + name + ":1" + imp + "}" + other
	if k < len(t) && t[k] == ':' {
		css = "." + a + t[k:] + "{" + name + ":1" + imp + "}" + other
	}
	css += ".r{z:var(" + name + ") var(" + n + ")}"
	if keep.AddRules(strings.NewReader(css), false) != nil {
		return // not a name the tokenizer knows
	}
	if r, ok := keep.Rules()[a]; !ok || len(r.Declarations) != 1 {
		return
	}
	vs.Reach("loaded")
	for _, l := range []string{a + " " + b + " r", b + " " + a + " r"} {
		out := keep.Merge(l)
		vs.Observe("out", out)
		vs.Assert(has(out, a) && has(out, b), "classes that set different properties conflict")
	}
}
