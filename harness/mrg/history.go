package mrg

import (
	"errors"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// badReader fails after giving its text.
type badReader struct {
	s string
	i int
}

func (r *badReader) Read(p []byte) (int, error) {
	if r.i >= len(r.s) {
		return 0, errors.New("bad reader")
	}
	n := copy(p, r.s[r.i:])
	r.i += n
	return n, nil
}

// mapCache is a cache as the interface describes it.
type mapCache struct{ m map[string]string }

func (c *mapCache) Get(k string) (string, bool) { v, ok := c.m[k]; return v, ok }
func (c *mapCache) Set(k, v string)             { c.m[k] = v }
func (c *mapCache) Clear()                      { c.m = map[string]string{} }

var (
	cachedS, cachedM, plain *merge.Merger
	freeS                   *merge.Merger
)

func init() {
	more = append(more, func() {
		cachedS = merge.NewMerger(merge.NewCache(), true)
		cachedM = merge.NewMerger(&mapCache{map[string]string{}}, true)
		plain = merge.NewMerger(nil, true)
		freeS = merge.NewMerger(merge.NewCache(), false)
	})
}

// step does one operation on both mergers and compares what they return.
func step(c, p *merge.Merger, op int, list func() string, obs *[]string) {
	add := func(css string) {
		e1 := c.AddRules(strings.NewReader(css), false)
		e2 := p.AddRules(strings.NewReader(css), false)
		vs.Assert((e1 == nil) == (e2 == nil), "the cache changes whether rules are accepted")
	}
	switch op {
	case 0:
		in := list()
		o1, o2 := c.Merge(in), p.Merge(in)
		*obs = append(*obs, o1)
		vs.Assert(vs.Eq(o1, o2), "a result differs with a cache")
	case 1:
		add(".a{color:v}.b{color:v}")
	case 2:
		add(".b{padding:v}.c{padding-top:v}")
	case 3:
		// fails
		e1 := c.AddRules(&badReader{s: ".a{padding:v}.c{color:v}"}, false)
		e2 := p.AddRules(&badReader{s: ".a{padding:v}.c{color:v}"}, false)
		vs.Assert(e1 != nil && e2 != nil, "a failing reader is accepted")
	case 4:
		add(".a{padding:v!important;--x:v}.c{q:var(--x)}")
	}
}

// M10_history: every history of five (thorough: six) operations, each merging any list of two or three of the classes a, b and c, loading
// one of three style sheets or failing to load one, with SimpleCache or another cache, against no cache.
func M10_history() {
	c := cachedS
	if vs.Choose(2) == 1 {
		c = cachedM
	}
	var obs []string
	n := pick(4, 5)
	for i := 0; i < n; i++ {
		step(c, plain, vs.Choose(5), func() string {
			return "c " + vs.StrIn(1, "abc") + " " + vs.StrIn(1, "ab")
		}, &obs)
	}
	vs.Reach("done")
	vs.Observe("out", strings.Join(obs, "|"))
}

// M10_lists: any three class lists of four bytes over letters and spaces (the same, alike or not), merged before and
// after rules are loaded, with SimpleCache against no cache.
func M10_lists() {
	n := pick(3, 4)
	l1, l2 := vs.StrIn(n, "ab \n"), vs.StrIn(n, "ab \n")
	load(cachedS, ".a{color:v}.b{color:w}")
	load(plain, ".a{color:v}.b{color:w}")
	for _, l := range []string{l1, l2, l1} {
		vs.Assert(vs.Eq(cachedS.Merge(l), plain.Merge(l)), "a result differs with a cache")
	}
	load(cachedS, ".a{padding:v}")
	load(plain, ".a{padding:v}")
	o := cachedS.Merge(l2)
	vs.Assert(vs.Eq(o, plain.Merge(l2)), "a result differs with a cache")
	vs.Assert(vs.Eq(cachedS.Merge(l1), plain.Merge(l1)), "a result differs with a cache")
	vs.Reach("done")
	vs.Observe("out", o)
}

// M10_names: classes of any one to three bytes, at the ends of lists that could be confused when joined.
func M10_names() {
	l := []string{vs.StrIn(vs.Choose(3), "a|\x00 ,") + " " + vs.StrIn(1, "ab"), vs.StrIn(1, "ab") + " " + vs.StrIn(vs.Choose(3), "a|\x00 ,")}
	for _, m := range []*merge.Merger{cachedS, plain} {
		load(m, ".a{color:v}.b{color:w}.aa{q:v}")
	}
	for _, i := range []int{0, 1, 0, 1} {
		vs.Assert(vs.Eq(cachedS.Merge(l[i]), plain.Merge(l[i])), "a result differs with a cache")
	}
	vs.Reach("done")
	vs.Observe("out", cachedS.Merge(l[0]))
}

// M12_concat: two style sheets of two rules each for any of the classes a, b and c, with any property names, loaded one after the
// other or as one, in either mode of nesting, govern the same classes the same way.
func M12_concat() {
	var sheets []string
	for i := 0; i < 2; i++ {
		s := ""
		for j := 0; j < 2; j++ {
			r := rule{class: vs.StrIn(1, "abc"), decls: []decl{{prop: "q" + vs.StrIn(1, letters)}}}
			if vs.Choose(2) == 1 {
				r.at = "(w:x)"
			}
			s += r.css()
		}
		sheets = append(sheets, s)
	}
	load(keep, sheets[0])
	load(keep, sheets[1])
	load(plain, sheets[0]+sheets[1])
	same(keep, plain)
}

// same compares the rules of two mergers and what they make of some lists.
func same(m, n *merge.Merger) {
	vs.Reach("compared")
	a, b := m.Rules(), n.Rules()
	vs.Assert(len(a) == len(b), "different classes have rules")
	for k, r := range a {
		s, ok := b[k]
		vs.Assert(ok, "different classes have rules")
		vs.Assert(vs.Eq(r.GetSelector(), s.GetSelector()), "the rules of a class differ")
		vs.Assert(vs.Eq(r.GetCondition(), s.GetCondition()), "the rules of a class differ")
		vs.Assert(len(r.Declarations) == len(s.Declarations), "the rules of a class differ")
		for i := range r.Declarations {
			vs.Assert(vs.Eq(r.Declarations[i].Property, s.Declarations[i].Property), "the rules of a class differ")
			vs.Assert(vs.Eq(r.Declarations[i].Value, s.Declarations[i].Value), "the rules of a class differ")
		}
	}
	out := m.Merge("a b c a")
	vs.Observe("out", out)
	vs.Assert(vs.Eq(out, n.Merge("a b c a")), "the rules of a class differ")
	vs.Assert(vs.Eq(m.Merge("c b"), n.Merge("c b")), "the rules of a class differ")
}

// M12_repeats: every history of four (thorough: five) calls, each with one of four style sheets with any property names, the same ones again
// among them, with nothing, or with a reader that fails after one of them: as their concatenation, but for those that failed.
func M12_repeats() {
	x := "q" + vs.StrIn(1, letters)
	texts := []string{".a{" + x + ":v}", ".a,.b{qq:v}", "@media (w:x){.b{" + x + ":w}}.c{qr:v}", ".c:hover{" + x + ":v}.a{qq:v}", ""}
	all := ""
	for i := 0; i < pick(4, 5); i++ {
		k := vs.Choose(7)
		if k >= len(texts) {
			vs.Assert(keep.AddRules(&badReader{s: texts[k-5]}, false) != nil, "a failing reader is accepted")
			continue
		}
		load(keep, texts[k])
		all += texts[k]
	}
	load(plain, all)
	same(keep, plain)
}

// M12_last: up to five rules for the classes a, b and c, some sharing a rule by a comma, a descendant combinator or a functional pseudo-class, in one
// or more calls: each class has the declarations of the last rule mentioning it.
func M12_last() {
	n := pick(3, 4)
	var owner [3]string
	css := ""
	for i := 0; i < n; i++ {
		d := string(rune('p' + i))
		k := vs.Choose(3)
		o := (k + 1) % 3
		ck, co := "."+string(rune('a'+k)), "."+string(rune('a'+o))
		owner[k] = d
		switch vs.Choose(6) {
		case 0:
			css += ck
		case 1:
			css += ck + ", " + co
			owner[o] = d
		case 2:
			css += ck + " " + co
			owner[o] = d
		case 3:
			css += ck + ":hover"
		case 4:
			css += ":is(" + ck + "," + co + ")"
			owner[o] = d
		case 5:
			css += ":where(" + ck + ") > " + co
			owner[o] = d
		}
		css += "{" + d + ":v}"
		if vs.Choose(2) == 1 {
			load(keep, css)
			css = ""
		}
	}
	load(keep, css)
	vs.Reach("done")
	rs := keep.Rules()
	for k, o := range owner {
		r, ok := rs[string(rune('a'+k))]
		vs.Assert(ok == (o != ""), "a class has a rule it is not mentioned in, or none")
		if ok {
			vs.Assert(len(r.Declarations) == 1 && r.Declarations[0].Property == o, "a class is not governed by the last rule mentioning it")
		}
	}
}

// M12_failed: a call that fails at the end of any of six texts changes no rule and no later result.
func M12_failed() {
	first := ".a{q" + vs.StrIn(1, letters) + ":v}.b{q" + vs.StrIn(1, letters) + ":v}"
	load(keep, first)
	load(plain, first)
	bad := []string{"", ".a{z:v}", ".b{z:v}.c{y:v}", "@media x{.a{z:v}}.a{x:v}", ".c{qq:v} .a{", "@font-face{x:y} .b{z:v;"}[vs.Choose(6)]
	vs.Assert(keep.AddRules(&badReader{s: bad}, false) != nil, "a failing reader is accepted")
	if vs.Choose(2) == 1 {
		load(keep, ".c{color:v}")
		load(plain, ".c{color:v}")
	}
	same(keep, plain)
}

// M12_syntax: style sheets with one piece of text that may not be CSS between two rules: when the call
// fails nothing changes, and otherwise both rules are there.
func M12_syntax() {
	load(keep, ".a{color:v}")
	load(plain, ".a{color:v}")
	css := ".b{q:v}" + vs.StrIn(pick(2, 3), "a.{};:}@!\"(\\") + ".c{z:v}"
	if keep.AddRules(strings.NewReader(css), false) != nil {
		vs.Reach("failed")
		vs.Observe("failed", true)
		same(keep, plain)
		return
	}
	vs.Reach("loaded")
	r, ok := keep.Rules()["b"]
	vs.Assert(ok && len(r.Declarations) >= 1, "a rule is missing")
	_, ok = keep.Rules()["a"]
	vs.Assert(ok, "a rule is missing")
}

// M10_spaces: two lists of two classes that differ in what is between them, white space or not, merged one after the
// other with a cache against no cache.
func M10_spaces() {
	seps := []string{" ", "  ", "\t", "\n", "\f", "\r", "\v", "\x00", "\x1f", ",", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u200b", "\u202f", "\u3000", "\ufeff", "/", "|", "."}
	for _, m := range []*merge.Merger{cachedS, plain} {
		load(m, ".a{color:v}.b{color:w}.aa{q:v}")
	}
	x, y, z := vs.StrIn(1, "abAB"), vs.StrIn(1, "abAB"), vs.StrIn(1, "abAB")
	s, t := seps[vs.Choose(len(seps))], seps[vs.Choose(len(seps))]
	l := []string{x + s + y + " " + z, x + t + y + " " + z}
	if vs.Choose(2) == 1 {
		l = []string{x + " " + y + s + z + t, t + x + " " + y + s + z}
	}
	for _, i := range []int{0, 1, 0, 1} {
		vs.Assert(vs.Eq(cachedS.Merge(l[i]), plain.Merge(l[i])), "a result differs with a cache")
	}
	vs.Reach("done")
	vs.Observe("out", cachedS.Merge(l[0])+cachedS.Merge(l[1]))
}

// M10_long: two long lists (of about 50, 130 and 520 bytes) that may differ in one byte at the start, in the middle
// or at the end, or in letter case, merged one after the other with a cache against no cache.
func M10_long() {
	for _, m := range []*merge.Merger{cachedM, plain} {
		load(m, ".a{color:v}.b{color:w}.c{q:v}.A{z:v}")
	}
	fill := strings.Repeat("filler ", []int{6, 18, 73}[vs.Choose(3)])
	x, y := vs.StrIn(1, "abcAB"), vs.StrIn(1, "abcAB")
	var l [2]string
	switch vs.Choose(4) {
	case 0:
		l = [2]string{x + " a " + fill + "b", y + " a " + fill + "b"}
	case 1:
		l = [2]string{"a " + fill + "b " + x, "a " + fill + "b " + y}
	case 2:
		l = [2]string{"a " + fill + x + " " + fill + "b", "a " + fill + y + " " + fill + "b"}
	case 3:
		l = [2]string{"a " + x + " " + y + " " + fill, "a " + y + " " + x + " " + fill}
	}
	for _, i := range []int{0, 1, 0, 1} {
		vs.Assert(vs.Eq(cachedM.Merge(l[i]), plain.Merge(l[i])), "a result differs with a cache")
	}
	vs.Reach("done")
	vs.Observe("out", cachedM.Merge(l[0])+cachedM.Merge(l[1]))
}
