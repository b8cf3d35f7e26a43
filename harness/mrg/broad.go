package mrg

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// The circumstances style sheets put classes in, many of them. In a template $ is the class, % a
// name of two letters, § a name of three letters and & a letter. Templates of different lines are
// different circumstances; the alternatives on one line, separated by " | ", are one. A line that
// starts with ? may be the same as others starting with ? and is not compared with them.
const templates = `$
$:hover
$:focus
$:focus-within
$:focus-visible
$:active
$:visited
$:target
$:link
$:enabled
$:disabled
$:checked
$:read-only
$:popover-open
$:empty
$:root
$:first-child | $:nth-child(1)
$:last-child
$:only-child
$:first-of-type
$:last-of-type
$:only-of-type
$:nth-child(odd) | $:nth-child(2n+1)
$:nth-child(2n) | $:nth-child(even)
$:nth-child(2)
$:nth-last-child(2)
$:nth-of-type(2)
$:nth-last-of-type(2)
$:nth-child(-n+2)
$:nth-child(n+2)
$:fullscreen
$:modal
$:autofill
$:host
$:input
$:lang(&)
$:not(.%)
$:not(:hover)
$:not(:first-child)
$:not(%)
$:not([%])
$:not(.% *)
$:has(.%)
$:has(:checked)
$:haschild(.%)
$:contains(&)
$:containsown(&)
$::before | $:before
$::after
$::placeholder
$::marker
$::selection
$::first-letter
$::first-line
$::backdrop
$:hover::before
$:focus::before
$:hover::after
$:hover:focus | $:focus:hover
$:hover:active | $:active:hover
$:focus:focus-within | $:focus-within:focus
$:focus:focus-visible | $:focus-visible:focus
$:hover:focus:active | $:active:focus:hover | $:focus:active:hover
$:lang(&):hover | $:hover:lang(&)
$:not(.%):hover | $:hover:not(.%)
$:nth-child(2):hover | $:hover:nth-child(2)
$:first-child:hover | $:hover:first-child
$:disabled:hover::before | $:hover:disabled::before
?$.%
?.%$
?$.%:hover
?$:hover.%
?%$
?$[%]
?$[%=&]
?$[%="& "]
?$[%^=&]
?$[%~=&]
?[%]$
?$#%
?#%$
?%$:hover
?$.%.§
?$.%.§:hover
?.%.§$
?.%$.§:focus
?[%]$:hover.§
.% $.§:hover
.%>$.§:hover:focus
.% $.§.%
.%.§ $
.%.§:hover>$
$ .%.§
$ .%:hover.§:focus
$ .% .§.%
.% [%]$.§:hover
$ [%].%.§:hover
.% $
.%:hover $
.%:focus $
.% $:hover
.% $::before
.%>$
.%>$:hover
.%+$
.%~$
.%:hover>$
.%:checked~$
.%:checked+$
#% $
% $
[%] $
[%=&] $
.% .§ $
.%>.§ $
.%:not(.§) $
:is(.%) $
:where(.%) $
:is(.% .§) $
:root $
$ .%
$ %
$>.%
$>%
$+.%
$~.%
$:hover .%
$:hover>.%
$ .%:hover
$ .%::before
$ *
$>*
$>*+*
$>:not(.%)
$>:not([%])~:not([%])
?:is($)
?:where($)
:is(.% $)
:is($ .%)
:is(.%>$)
:is($>*)
?:is($,.%)
?:is($,%)
?:is($,.%:hover)
?:is($,.%.§)
?:is(.%.§,$:hover)
?:is($.%.§:hover,.§)
?:where(.%:hover,$.§)
?:where(.§,.%,$)
?:is($,:is(.%,.§:hover))
:is(.% .§,.§ $)
:is(.%,.§ .%) $
:is($ .%,.§.%:hover)
:where($ .%)
:where($>*)
:where($~.%)
:is($ .%):hover
:is(.% $):hover
:is($:hover .%)
$:is(.% *)
$:where(.% *)
$:is(:where(.%) *)
$:is(:where(.%):hover *)
$:is(:where(.%):focus *)
$:is(:where(.%):hover~*)
$:is(:where(.%)~*)
$:is([%] *)
$:where([%] *)
$:is(%,[%])
?$:is(:hover)
?$:where(:hover)
$ $
$>$
$+$
$~$
$ $:hover
@media (w:&){$}
@media (W:&){$}
@media (w:& ){$:hover}
@media not (w:&){$}
@media &&{$}
@media &&,&{$}
@media (w:&) and (w:1){$}
@media (w:1) and (w:&){$}
@media (w:&){.% $}
@media (w:&){$::before}
@supports (w:&){$}
@supports (w:&){$:hover}
@supports not (w:&){$}
@supports (--&:1){$}
@supports (w:&) and (w:1){$}
@supports (w:&) or (w:1){$}
@supports selector(.%){$}
@supports selector(.%:hover){$}
@media (w:&){@media (w:1){$}}
@media (w:1){@media (w:&){$}}
@media (w:&){@supports (w:1){$}}
@supports (w:1){@media (w:&){$}}
@supports (w:&){@supports (w:1){$}}
@media (w:&){@media (w:1){$:hover}}`

// template is one line of the templates, taken apart.
type template struct {
	line int
	rest string // a line that starts with ? is compared to itself only
	alts []string
}

var pool []template

func init() {
	for i, l := range strings.Split(templates, "\n") {
		t := template{line: i}
		if l[0] == '?' {
			t.rest, l = "?", l[1:]
		}
		t.alts = strings.Split(l, " | ")
		pool = append(pool, t)
	}
}

// inst is a template filled in.
type inst struct {
	t     template
	text  string // with $ for the class
	names []string
}

// fill puts arbitrary letters in an alternative of a template.
func fill(t template, alt int) inst {
	x := inst{t: t}
	var b strings.Builder
	s := t.alts[alt]
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '%':
			n := vs.StrIn(2, "abA")
			x.names = append(x.names, n)
			b.WriteString(n)
		case 0xc2: // §
			i++
			n := vs.StrIn(3, "abA")
			x.names = append(x.names, n)
			b.WriteString(n)
		case '&':
			n := vs.StrIn(1, "abAB")
			x.names = append(x.names, n)
			b.WriteString(n)
		default:
			b.WriteString(s[i : i+1])
		}
	}
	x.text = b.String()
	return x
}

func (x inst) css(class, decls string) string {
	s := strings.ReplaceAll(x.text, "$", "."+class)
	if i := strings.Index(s, "}"); i >= 0 {
		return s[:i] + "{" + decls + "}" + s[i:]
	}
	return s + "{" + decls + "}"
}

// like tells whether two filled templates are the same circumstance.
func (x inst) like(y inst) bool {
	if x.t.line != y.t.line {
		return false
	}
	r := true
	for i := range x.names {
		a, b := x.names[i], y.names[i]
		if strings.Contains(x.t.alts[0], ":contains") {
			// looks for text in any letter case
			a, b = strings.ToLower(a), strings.ToLower(b)
		}
		if k := strings.Index(x.t.alts[0], "%"); k >= 0 && len(a) == 2 && x.lower(i) {
			a, b = lower(a), lower(b)
		}
		if strings.Contains(x.t.alts[0], ":lang(") || strings.Contains(x.t.alts[0], ":contains") {
			a, b = lower(a), lower(b)
		}
		r = vs.And(r, vs.Eq(a, b))
	}
	return r
}

// lower is s in lower case, without a fork.
func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] |= 0x20
	}
	return string(b)
}

// lower tells whether the i-th name is one of a type or an attribute, whose letter case is immaterial.
func (x inst) lower(i int) bool {
	s := x.t.alts[0]
	for k := 0; k < len(s); k++ {
		if vs.In(s[k], "%&\xc2") {
			if i == 0 {
				return s[k] == '%' && (k == 0 || s[k-1] != '.' && s[k-1] != '#')
			}
			i--
		}
	}
	return false
}

// classes is two class names of one or two letters, different ones.
func classes() (string, string) {
	x, y := vs.StrIn(1, "abAZ"), vs.StrIn(1, "abAZ")
	vs.Assume(!vs.Eq(x, y))
	return x, y
}

func anyOf(ts []template) inst {
	t := ts[vs.Choose(len(ts))]
	return fill(t, 0)
}

// M07_alike: one of 190 circumstances with any letters in its names, filled in for two classes of any
// different one-letter names.
func M07_alike() {
	a, b := classes()
	t := pool[vs.Choose(len(pool))]
	c, d := fill(t, vs.Choose(len(t.alts))), fill(t, vs.Choose(len(t.alts)))
	load(keep, c.css(a, "q:v")+d.css(b, "q:w;z:w"))
	out := keep.Merge(a + " " + b)
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, b), "the last class is dropped")
	same := c.like(d)
	vs.Assert(vs.Or(same, has(out, a)), "classes in different circumstances conflict")
	vs.Assert(vs.Implies(same, !has(out, a)), "classes in the same circumstance do not conflict")
}

// M07_pairs: every two of the circumstances (quick: every sixth pair) with any letters in their names.
func M07_pairs() {
	i := vs.Choose(len(pool))
	j := vs.Choose(len(pool))
	if !vs.Thorough() && (i+j)%6 != 0 {
		return
	}
	c, d := fill(pool[i], 0), fill(pool[j], 0)
	if i == j || c.t.rest != "" && d.t.rest != "" {
		return
	}
	load(keep, c.css("a", "q:v")+d.css("b", "q:w;z:w"))
	out := keep.Merge("a b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "a") && has(out, "b"), "classes in different circumstances conflict")
}

// everywhere is a class in each circumstance, with the same letters in all of their names, and
// the list of them. Of circumstances that may be the same as others only one of each form is there.
func everywhere(decls string, form int) (string, string, []string) {
	var css strings.Builder
	n1, n2, n3, l := vs.StrIn(1, "abAB")+"x", vs.StrIn(1, "abAB"), vs.StrIn(1, "abAB")+"yz", vs.StrIn(1, "abAB")
	var out []string
	k := 0
	for _, t := range pool {
		if t.rest != "" {
			if k++; k%24 != form {
				continue
			}
		}
		s := t.alts[form%len(t.alts)]
		two := false
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '%':
				b.WriteString(n1)
			case 0xc2: // §
				i++
				b.WriteString(n3)
			case '&':
				if two {
					b.WriteString(n2)
				} else {
					b.WriteString(l)
				}
				two = true
			default:
				b.WriteString(s[i : i+1])
			}
		}
		class := "k" + string(rune('a'+t.line/26)) + string(rune('a'+t.line%26))
		out = append(out, class)
		css.WriteString(inst{t: t, text: b.String()}.css(class, decls))
	}
	return css.String(), strings.Join(out, " "), out
}

// M07_everywhere: classes in each of the circumstances, all setting one property, next to one another.
func M07_everywhere() {
	css, in, all := everywhere("q:v", vs.Choose(24))
	load(keep, css)
	out := keep.Merge(in)
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(vs.Eq(in, out), "classes in different circumstances conflict")
	_ = all
}

// twice is one circumstance filled in alike for two classes, each in any of its spellings.
func twice() (inst, inst) {
	t := pool[vs.Choose(len(pool))]
	c := fill(t, vs.Choose(len(t.alts)))
	d := fill(t, vs.Choose(len(t.alts)))
	vs.Assume(c.like(d))
	return c, d
}

// M04_broad: two classes in the same of 190 circumstances, in any of its spellings.
func M04_broad() {
	a, b := classes()
	c, d := twice()
	load(keep, c.css(a, "q:v;r:v")+d.css(b, "q:w;z:w;r:x!important"))
	out := keep.Merge(a + " " + b)
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(!has(out, a), "a class whose every declaration is overridden is kept")
}

// M03_broad: two classes in any two of the circumstances where the first also occurs last, or not.
func M03_broad() {
	a, b := classes()
	c, d := twice()
	load(keep, c.css(a, "q:v;y:v")+d.css(b, "q:w;z:w"))
	out := keep.Merge(a + " " + b)
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, a) && has(out, b), "the last class to set a property is dropped")
	out = keep.Merge(a + " " + b + " " + a)
	vs.Assert(has(out, a) && has(out, b), "the last class to set a property is dropped")
}

// M05_broad: an important and an ordinary declaration of a property in the same circumstance.
func M05_broad() {
	a, b := classes()
	c, d := twice()
	load(keep, c.css(a, "q:v!important")+d.css(b, "q:w"))
	out := keep.Merge(a + " " + b)
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, a), "the last class to set a property with !important is dropped")
	vs.Assert(has(out, b), "the last class to set a property is dropped")
	out = keep.Merge(b + " " + a)
	vs.Assert(has(out, a), "the last class to set a property is dropped")
	vs.Assert(!has(out, b), "a class whose every declaration is overridden is kept")
}

// M06_broad: two setters of a custom property in any of 190 circumstances, any letters, and a reader in
// one of three.
func M06_broad() {
	t := pool[vs.Choose(len(pool))]
	c, d := fill(t, 0), fill(t, len(t.alts)-1)
	load(keep, c.css("a", "--v:1")+d.css("b", "--v:2")+fill(pool[vs.Choose(3)], 0).css("r", "q:var(--v)"))
	out := keep.Merge("a b r")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(has(out, "b"), "the last setter of a custom property in use is dropped")
	vs.Assert(vs.Or(c.like(d), has(out, "a")), "the last setter of a custom property in use is dropped")
	vs.Assert(!has(keep.Merge("a b"), "a"), "a class setting only unused custom properties is kept")
}

// M06_everywhere: setters of a custom property in each of the circumstances, read or not.
func M06_everywhere() {
	css, in, all := everywhere("--v:1", vs.Choose(6)*4)
	load(keep, css+".r{q:var(--"+vs.StrIn(1, "vw")+")}")
	out := keep.Merge(in + " r")
	vs.Observe("out", out)
	vs.Reach("merged")
	if out == "r" {
		vs.Reach("unused")
		return
	}
	vs.Assert(vs.Eq(out, in+" r"), "the last setter of a custom property in use is dropped")
	_ = all
}

// M09_broad: merging the result again changes nothing for two classes in one of the circumstances, any
// letters, and a third in one of four.
func M09_broad() {
	t := pool[vs.Choose(len(pool))]
	c, d := fill(t, 0), fill(t, len(t.alts)-1)
	load(keep, c.css("a", "q:v!important;--v:1")+d.css("b", "q:w;--v:2")+fill(pool[vs.Choose(4)], 0).css("c", "q:var(--v)"))
	out := keep.Merge("a b c b")
	vs.Observe("out", out)
	vs.Reach("merged")
	vs.Assert(vs.Eq(keep.Merge(out), out), "merging the result again changes it")
}

// M12_broad: each class of a rule in one of the circumstances, any letters, is governed by the last
// rule it is in.
func M12_broad() {
	t := pool[vs.Choose(len(pool))]
	c, d := fill(t, 0), fill(t, len(t.alts)-1)
	load(keep, c.css("x", "q:v")+d.css("y", "r:w"))
	vs.Reach("loaded")
	rs := keep.Rules()
	vs.Observe("n", len(rs))
	names, props := []string{"x", "y"}, []string{"q", "r"}
	for i := range c.names {
		if c.class(i) {
			names, props = append(names, c.names[i], d.names[i]), append(props, "q", "r")
		}
	}
	n := 0
	for i, c := range names {
		last := true
		for j, d := range names {
			if j != i && c == d && (props[j] == "r" && props[i] == "q" || props[j] == props[i] && j > i) {
				last = false
			}
		}
		if !last {
			continue
		}
		n++
		r, ok := rs[c]
		vs.Assert(ok, "a class has no rule")
		vs.Assert(len(r.Declarations) == 1 && vs.Eq(r.Declarations[0].Property, props[i]), "a class is not governed by the last rule mentioning it")
	}
	vs.Assert(len(rs) == n, "not the classes that are mentioned have rules")
}

// M12_again: two rules for one class, of which one is in any of the circumstances, with the same or other declarations, loaded
// at once or one after the other, and then a rule for another class in the circumstance of either: only the second
// rule counts, and the whole of it.
func M12_again() {
	t := pool[vs.Choose(len(pool))]
	c, d := fill(t, 0), inst{t: pool[0], text: pool[0].alts[0]}
	if vs.Choose(2) == 1 {
		c, d = d, c
	}
	two := [][2]string{{"q:v", "q:v"}, {"q:v;r:v", "q:v"}, {"q:v", "r:v"}, {"q:v", "q:v!important"}, {"q:v;q:w", "q:w"}, {"q:v", ""}, {"--v:1", "q:var(--v)"}}
	k := vs.Choose(len(two))
	first, second := c.css("a", two[k][0]), d.css("a", two[k][1])
	third := []inst{c, d}[vs.Choose(2)].css("b", "q:w;--v:2")
	if vs.Choose(2) == 1 {
		load(keep, first+second)
		load(keep, third)
	} else {
		load(keep, first)
		load(keep, second+third)
	}
	load(plain, second+third)
	for _, l := range []string{"a b", "b a"} {
		out := keep.Merge(l)
		vs.Observe("out", out)
		vs.Assert(vs.Eq(out, plain.Merge(l)), "a class is not governed by the last rule mentioning it")
	}
	vs.Reach("merged")
}

// class tells whether the i-th name is one of a class the rule is recorded for: not
// those inside of :not, :has or :haschild, which are not there or elsewhere.
func (x inst) class(i int) bool {
	s := x.t.alts[0]
	for k := 0; k < len(s); k++ {
		if vs.In(s[k], "%&\xc2") {
			if i == 0 {
				if s[k] == '&' || k == 0 || s[k-1] != '.' {
					return false
				}
				for _, f := range []string{":not(", ":has(", ":haschild(", "selector("} {
					if j := strings.LastIndex(s[:k], f); j >= 0 && !strings.Contains(s[j:k], ")") {
						return false
					}
				}
				return true
			}
			i--
		}
	}
	return false
}
