package sel

import (
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// pr is a selector: its text, and what it means on the tree.
type pr struct {
	s string
	f func(t *tree, i int) bool
}

func (t *tree) elem(i int) bool { return t.n[i].Type == html.ElementNode }

// before tells whether j is an earlier sibling of i.
func (t *tree) before(j, i int) bool { return j < i && j > 0 && t.parent[j] == t.parent[i] }

// next tells whether j is the element right before i, but for texts and comments.
func (t *tree) next(j, i int) bool {
	if !t.before(j, i) || !t.elem(j) {
		return false
	}
	for k := j + 1; k < i; k++ {
		if t.parent[k] == t.parent[i] && t.elem(k) {
			return false
		}
	}
	return true
}

// stands tells whether j stands in the relation of the combinator to i.
func (t *tree) stands(j, i int, comb byte) bool {
	if !t.elem(j) {
		return false
	}
	switch comb {
	case ' ':
		return t.under(i, j)
	case '>':
		return t.parent[i] == j
	case '+':
		return t.next(j, i)
	}
	return t.before(j, i)
}

// combine is a combination of two selectors.
func combine(a pr, comb byte, b pr) pr {
	sep := string([]byte{comb})
	return pr{a.s + sep + b.s, func(t *tree, i int) bool {
		some := false
		for j := range t.n {
			if t.stands(j, i, comb) {
				some = vs.Or(some, a.f(t, j))
			}
		}
		return vs.And(b.f(t, i), some)
	}}
}

// has is the presence of the k-th attribute.
func hasKey(k int) pr {
	key := "pqr"[k : k+1]
	return pr{"[" + key + "]", func(t *tree, i int) bool {
		return t.elem(i) && vs.Eq(t.n[i].Attr[k].Key, key)
	}}
}

// arbitrary is an element with any subset of the attributes p, q and r, up to the k-th.
func arbitrary(k int) *html.Node {
	n := elem("a")
	for j := 0; j < k; j++ {
		n.Attr = append(n.Attr, html.Attribute{Key: vs.StrIn(1, "pqr"[j:j+1]+"-")})
	}
	return n
}

// grow is every tree of n nodes below a document node, or without one, each node an element with
// any attributes, and if mixed possibly a text or a comment.
func grow(n, attrs int, mixed bool) *tree {
	t := &tree{}
	for i := 0; i < n; i++ {
		p := -1
		if i > 0 {
			p = vs.Choose(i)
			if t.n[p].Type != html.ElementNode && t.n[p].Type != html.DocumentNode {
				vs.Assume(false)
			}
		}
		k := 0
		if mixed {
			k = vs.Choose(3)
		}
		switch k {
		case 0:
			t.add(p, arbitrary(attrs))
		case 1:
			if i == 0 {
				t.add(p, &html.Node{Type: html.DocumentNode})
			} else {
				t.add(p, &html.Node{Type: html.TextNode, Data: "p"})
			}
		case 2:
			vs.Assume(i > 0)
			t.add(p, &html.Node{Type: html.CommentNode, Data: "p"})
		}
	}
	return t
}

// judge states that the selector matches what it should on the tree.
func judge(t *tree, p pr) {
	sel, err := cascadia.ParseGroup(p.s)
	vs.Assert(err == nil, "a selector is rejected")
	for i, n := range t.n {
		want := p.f(t, i)
		got := sel.Match(n)
		vs.Assert(got == want, "a selector matches wrongly")
	}
}

const combs = " >+~"

// S07_combinators: two and three compounds, each joined by any combinator, on every tree of up
// to four (thorough: five) elements, texts and comments, whatever each compound matches.
func S07_combinators() {
	p := combine(hasKey(0), combs[vs.Choose(4)], hasKey(1))
	k := 2
	if vs.Choose(2) == 1 {
		p = combine(p, combs[vs.Choose(4)], hasKey(2))
		k = 3
	}
	judge(grow(1+vs.Choose(pick(4, 5)), k, true), p)
}

// S07_deep: three compounds on every tree of five (thorough: six) elements.
func S07_deep() {
	p := combine(combine(hasKey(0), combs[vs.Choose(4)], hasKey(1)), combs[vs.Choose(4)], hasKey(2))
	judge(grow(pick(5, 6), 3, false), p)
}

// argument of a functional pseudo-class.
func inner() pr {
	switch vs.Choose(7) {
	case 0:
		return hasKey(0)
	case 1:
		return combine(hasKey(0), combs[vs.Choose(4)], hasKey(1))
	case 2:
		a, b := hasKey(0), hasKey(1)
		return pr{a.s + " , " + b.s, func(t *tree, i int) bool { return vs.Or(a.f(t, i), b.f(t, i)) }}
	case 3:
		a, b := hasKey(0), hasKey(1)
		return pr{a.s + b.s, func(t *tree, i int) bool { return vs.And(a.f(t, i), b.f(t, i)) }}
	case 4:
		a := hasKey(0)
		return pr{":not(" + a.s + ")", func(t *tree, i int) bool { return t.elem(i) && !a.f(t, i) }}
	case 5:
		a := hasKey(0)
		return pr{":has(" + a.s + ")", func(t *tree, i int) bool { return t.hasIn(i, a, false) }}
	}
	return pr{"*", func(t *tree, i int) bool { return t.elem(i) }}
}

// hasIn tells whether a descendant, or child, matches.
func (t *tree) hasIn(i int, a pr, child bool) bool {
	if !t.elem(i) {
		return false
	}
	some := false
	for j := range t.n {
		if t.under(j, i) && (!child || t.parent[j] == i) {
			some = vs.Or(some, a.f(t, j))
		}
	}
	return some
}

// S07_functions: the functional pseudo-classes and the root over compounds, combinations, lists
// and nested ones, alone, as part of a compound and after a combinator, on every tree of up to
// three (thorough: four) nodes.
func S07_functions() {
	a := inner()
	var p pr
	switch vs.Choose(6) {
	case 0:
		p = pr{":not(" + a.s + ")", func(t *tree, i int) bool { return t.elem(i) && !a.f(t, i) }}
	case 1:
		p = pr{":is(" + a.s + ")", a.f}
	case 2:
		p = pr{":where(" + a.s + ")", a.f}
	case 3:
		p = pr{":has(" + a.s + ")", func(t *tree, i int) bool { return t.hasIn(i, a, false) }}
	case 4:
		p = pr{":haschild(" + a.s + ")", func(t *tree, i int) bool { return t.hasIn(i, a, true) }}
	case 5:
		p = pr{a.s + ",:root", func(t *tree, i int) bool {
			root := t.elem(i) && t.parent[i] == 0 && t.n[0].Type == html.DocumentNode
			return vs.Or(root, a.f(t, i))
		}}
	}
	switch vs.Choose(3) {
	case 1:
		q, b := p, hasKey(2)
		p = pr{b.s + q.s, func(t *tree, i int) bool { return vs.And(b.f(t, i), q.f(t, i)) }}
		vs.Assume(a.s+",:root" != q.s)
	case 2:
		vs.Assume(a.s+",:root" != p.s)
		p = combine(p, combs[vs.Choose(4)], hasKey(2))
	}
	judge(grow(1+vs.Choose(pick(3, 4)), 3, true), p)
}

// S07_nested: functional pseudo-classes of one key on every tree of four (thorough: five) nodes.
func S07_nested() {
	a := hasKey(0)
	var p pr
	switch vs.Choose(5) {
	case 0:
		p = pr{":not(:has([p]))", func(t *tree, i int) bool { return t.elem(i) && !t.hasIn(i, a, false) }}
	case 1:
		p = pr{":haschild([p])", func(t *tree, i int) bool { return t.hasIn(i, a, true) }}
	case 2:
		b := pr{"", func(t *tree, i int) bool { return t.hasIn(i, a, true) }}
		p = pr{":has(:haschild([p]))", func(t *tree, i int) bool { return t.hasIn(i, b, false) }}
	case 3:
		b := pr{"", func(t *tree, i int) bool { return t.elem(i) && !a.f(t, i) }}
		p = pr{":has(:not([p]))", func(t *tree, i int) bool { return t.hasIn(i, b, false) }}
	case 4:
		p = pr{":root, :not(*)", func(t *tree, i int) bool {
			return t.elem(i) && t.parent[i] == 0 && t.n[0].Type == html.DocumentNode
		}}
	}
	judge(grow(pick(4, 5), 1, true), p)
}

const ascii = "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// texts is a parent of up to n texts, comments and elements holding a text.
func texts(n int) *tree {
	t := &tree{}
	t.add(-1, elem("a"))
	for i := vs.Choose(n + 1); i > 0; i-- {
		k := vs.Choose(4)
		s := vs.StrIn(vs.Choose(3), ascii)
		switch k {
		case 0:
			t.add(0, &html.Node{Type: html.TextNode, Data: s})
		case 1:
			t.add(0, &html.Node{Type: html.CommentNode, Data: s})
		case 2:
			t.add(0, elem("b"))
			t.add(len(t.n)-1, &html.Node{Type: html.TextNode, Data: s})
		case 3:
			t.add(0, elem("b"))
		}
	}
	return t
}

// text is the text in node i, or right in it.
func (t *tree) text(i int, own bool) string {
	if t.n[i].Type == html.TextNode {
		return t.n[i].Data
	}
	s := ""
	for j := range t.n {
		if t.parent[j] == i && (t.n[j].Type == html.TextNode || !own && t.elem(j)) {
			s += t.text(j, own)
		}
	}
	return s
}

func contains(s, sub string) bool {
	r := false
	for i := 0; i+len(sub) <= len(s); i++ {
		r = vs.Or(r, vs.Eq(s[i:i+len(sub)], sub))
	}
	return r
}

// S07_contains: ASCII texts of up to two characters in up to two (thorough: three) places and any
// text of up to two characters to look for.
func S07_contains() {
	t := texts(pick(2, 3))
	want := vs.StrIn(vs.Choose(3), ascii)
	for i := range want {
		vs.Assume(!vs.In(want[i], "'\\\n\r\f"))
	}
	own := vs.Choose(2) == 1
	name := ":contains('"
	if own {
		name = ":containsOwn('"
	}
	sel, err := cascadia.Parse(name + want + "')")
	vs.Assert(err == nil, "a selector is rejected")
	for i, n := range t.n {
		if t.elem(i) {
			vs.Assert(sel.Match(n) == contains(fold(t.text(i, own)), fold(want)), "text is looked for wrongly")
		}
	}
}

// regex is a regular expression and what it is to find.
type regex struct {
	text string
	find func(s string) bool
}

// regexes are regular expressions written in the ways that selectors hold them, brackets and all.
var regexes = []regex{
	{"a", func(s string) bool { return contains(s, "a") }},
	{"ab", func(s string) bool { return contains(s, "ab") }},
	{"^a", func(s string) bool { return s != "" && s[0] == 'a' }},
	{"b$", func(s string) bool { return s != "" && s[len(s)-1] == 'b' }},
	{"^$", func(s string) bool { return s == "" }},
	{"", func(s string) bool { return true }},
	{"(a)(b)", func(s string) bool { return contains(s, "ab") }},
	{"(a|(b))", func(s string) bool { return vs.Or(contains(s, "a"), contains(s, "b")) }},
	{"[ab]", func(s string) bool { return vs.Or(contains(s, "a"), contains(s, "b")) }},
	{"(?i)B", func(s string) bool { return vs.Or(contains(s, "b"), contains(s, "B")) }},
	{"B", func(s string) bool { return contains(s, "B") }},
	{"^[^a]*$", func(s string) bool { return !contains(s, "a") }},
	{"b b", func(s string) bool { return contains(s, "b b") }},
}

// S07_matches: regular expressions of all shapes on texts of up to two characters in up to two (thorough: three) places.
func S07_matches() {
	t := texts(pick(2, 3))
	re := regexes[vs.Choose(len(regexes))]
	own := vs.Choose(2) == 1
	name := ":matches("
	if own {
		name = ":matchesOwn("
	}
	sel, err := cascadia.Parse(name + re.text + ")")
	vs.Assert(err == nil, "a selector is rejected")
	for i, n := range t.n {
		if t.elem(i) {
			vs.Assert(sel.Match(n) == re.find(t.text(i, own)), "text is judged wrongly by a regular expression")
		}
	}
}

// S06_regexp: regular expressions of all shapes on the values of two attributes of up to three characters.
func S06_regexp() {
	re := regexes[vs.Choose(len(regexes))]
	sel, err := cascadia.Parse("[p#=" + re.text + "]")
	if re.text == "" {
		vs.Assume(err == nil) // whether an empty one is accepted is left open
	}
	vs.Assert(err == nil, "a selector is rejected")
	n := elem("x")
	want := false
	for k := 0; k < 2; k++ {
		key := "pq"[k : k+1]
		val := vs.StrIn(vs.Choose(4), ascii)
		n.Attr = append(n.Attr, html.Attribute{Key: key, Val: val})
		if key == "p" {
			want = re.find(val)
		}
	}
	vs.Assert(sel.Match(n) == want, "an attribute is judged wrongly by a regular expression")
	n.Type = html.TextNode
	vs.Assert(!sel.Match(n), "a text has attributes")
}

// S07_empty: the emptiness of an element with up to three (thorough: four) texts, comments and
// elements in it.
func S07_empty() {
	t := texts(pick(3, 4))
	empty := pr{":empty", func(t *tree, i int) bool {
		if !t.elem(i) {
			return false
		}
		r := true
		for j := range t.n {
			if t.parent[j] != i {
				continue
			}
			if t.elem(j) {
				r = false
			}
			if t.n[j].Type == html.TextNode {
				for k := range t.n[j].Data {
					r = vs.And(r, blank(t.n[j].Data[k]))
				}
			}
		}
		return r
	}}
	judge(t, empty)
}

// S07_lang: chains of up to three elements, two (thorough: three) of them with any language of up
// to two letters and a suffix, and the languages en and e in any case.
func S07_lang() {
	t := &tree{}
	have := 0
	for i := 1 + vs.Choose(3); i > 0; i-- {
		n := elem("a")
		if have < pick(2, 3) && vs.Choose(2) == 1 {
			have++
			n.Attr = append(n.Attr, html.Attribute{Key: "lang", Val: vs.StrIn(vs.Choose(3), "eEnf") + []string{"", "-x", "x"}[vs.Choose(3)]})
		}
		t.add(len(t.n)-1, n)
	}
	lang := vs.StrIn(1+vs.Choose(2), "eEn")
	judge(t, pr{":lang(" + lang + ")", func(t *tree, i int) bool {
		for ; i >= 0; i = t.parent[i] {
			if len(t.n[i].Attr) == 1 {
				return relation("|=", fold(t.n[i].Attr[0].Val), fold(lang))
			}
		}
		return false
	}})
}

var formTags = []string{"input", "fieldset", "legend", "option", "button", "optgroup", "a", "select", "textarea", "link", "area", "menuitem", "p"}

// form is an element that is, or is not, disabled.
func form(tag string) *html.Node {
	n := elem(tag)
	n.DataAtom = atom.Lookup([]byte(tag))
	n.Attr = []html.Attribute{{Key: "disable" + vs.StrIn(1, "dx")}}
	return n
}

// disabledFieldset tells whether the node is in a disabled fieldset, outside of its first legend.
func (t *tree) disabledFieldset(i int) bool {
	for p := t.parent[i]; p >= 0; i, p = p, t.parent[p] {
		if t.n[p].Data != "fieldset" || !vs.Eq(t.n[p].Attr[0].Key, "disabled") {
			continue
		}
		first := t.n[i].Data == "legend"
		for j := range t.n {
			if t.before(j, i) && t.elem(j) && t.n[j].Data == "legend" {
				first = false
			}
		}
		if !first {
			return true
		}
	}
	return false
}

func (t *tree) disabled(i int) bool {
	if !t.elem(i) {
		return false
	}
	own := vs.Eq(t.n[i].Attr[0].Key, "disabled")
	switch t.n[i].Data {
	case "optgroup", "menuitem", "fieldset":
		return own
	case "button", "input", "select", "textarea", "option":
		return vs.Or(own, t.disabledFieldset(i))
	}
	return false
}

func (t *tree) enabled(i int) bool {
	if !t.elem(i) {
		return false
	}
	switch t.n[i].Data {
	case "optgroup", "menuitem", "fieldset", "button", "input", "select", "textarea", "option":
		return !t.disabled(i)
	}
	return false
}

// S07_disabled: enabled and disabled controls in every tree of up to four (thorough: five)
// fieldsets and legends, any of them disabled.
func S07_disabled() {
	t := &tree{}
	n := 1 + vs.Choose(pick(4, 5))
	for i := 0; i < n; i++ {
		p := -1
		if i > 0 {
			p = vs.Choose(i)
		}
		k := vs.Choose(3)
		if i+1 == n && vs.Choose(2) == 1 {
			k += 3
			if vs.Choose(2) == 1 {
				k += 3
			}
		}
		t.add(p, form(formTags[k]))
	}
	judge(t, pr{":enabled", (*tree).enabled})
	judge(t, pr{":disabled", (*tree).disabled})
}

// S07_legends: a control in one of up to four (thorough: five) children of a fieldset, legends, other elements, texts and comments, or two levels below
// it, in a further fieldset or not, each element disabled or not.
func S07_legends() {
	t := &tree{}
	t.add(-1, form("fieldset"))
	if vs.Choose(2) == 1 {
		t.add(0, form([]string{"fieldset", "legend"}[vs.Choose(2)]))
	}
	set := len(t.n) - 1
	n := 1 + vs.Choose(pick(4, 5))
	in := vs.Choose(n)
	for i := 0; i < n; i++ {
		k := vs.Choose(4)
		if i == in {
			vs.Assume(k < 2)
		}
		switch k {
		case 0:
			t.add(set, form("legend"))
		case 1:
			t.add(set, form("p"))
		case 2:
			t.add(set, &html.Node{Type: html.TextNode, Data: "legend", Attr: []html.Attribute{{}}})
		case 3:
			t.add(set, &html.Node{Type: html.CommentNode, Data: "legend", Attr: []html.Attribute{{}}})
		}
		if i == in {
			p := len(t.n) - 1
			if vs.Choose(2) == 1 {
				t.add(p, form("p"))
				p++
			}
			t.add(p, form([]string{"input", "option"}[vs.Choose(2)]))
		}
	}
	judge(t, pr{":enabled", (*tree).enabled})
	judge(t, pr{":disabled", (*tree).disabled})
}

// S07_forms: each kind of element with any of the attributes href, checked, selected and
// disabled and any type.
func S07_forms() {
	n := form(formTags[vs.Choose(len(formTags))])
	n.Attr = append(n.Attr, html.Attribute{Key: "hre" + vs.StrIn(1, "fx")},
		html.Attribute{Key: []string{"checke", "selecte"}[vs.Choose(2)] + vs.StrIn(1, "dx")},
		html.Attribute{Key: "typ" + vs.StrIn(1, "ex"), Val: []string{"checkbo", "radi", ""}[vs.Choose(3)] + vs.StrIn(1, "xXoOa")})
	t := &tree{}
	t.add(-1, n)
	a := n.Attr
	href := vs.Eq(a[1].Key, "href")
	link := n.Data == "a" || n.Data == "area" || n.Data == "link"
	checked := false
	switch n.Data {
	case "input", "menuitem":
		typ := fold(a[3].Val)
		checked = vs.And(vs.And(vs.Eq(a[2].Key, "checked"), vs.Eq(a[3].Key, "type")), vs.Or(vs.Eq(typ, "checkbox"), vs.Eq(typ, "radio")))
	case "option":
		checked = vs.Eq(a[2].Key, "selected")
	}
	judge(t, pr{":link", func(t *tree, i int) bool { return link && href }})
	judge(t, pr{":checked", func(t *tree, i int) bool { return checked }})
	judge(t, pr{":enabled", func(t *tree, i int) bool { return link && href || !link && t.enabled(i) }})
	judge(t, pr{":input", func(t *tree, i int) bool {
		return n.Data == "input" || n.Data == "select" || n.Data == "textarea" || n.Data == "button"
	}})
}

// S07_types: type selectors in any case on elements, texts and comments of any name of up to two
// letters.
func S07_types() {
	n := elem(vs.StrIn(1+vs.Choose(2), "abAB"))
	n.Type = []html.NodeType{html.ElementNode, html.TextNode, html.CommentNode, html.DocumentNode, html.DoctypeNode}[vs.Choose(5)]
	s := vs.StrIn(1+vs.Choose(2), "abAB")
	t := &tree{}
	t.add(-1, n)
	judge(t, pr{s, func(t *tree, i int) bool { return t.elem(0) && vs.Eq(fold(s), n.Data) }})
	judge(t, pr{"*", func(t *tree, i int) bool { return t.elem(0) }})
	judge(t, pr{":not(" + s + ")", func(t *tree, i int) bool { return t.elem(0) && !vs.Eq(fold(s), n.Data) }})
	judge(t, pr{s + ":not(zz),zz", func(t *tree, i int) bool { return t.elem(0) && vs.Eq(fold(s), n.Data) }})
}

// states are the pseudo-classes of what a user does, which match no node of a parsed document.
var states = []string{":visited", ":hover", ":active", ":focus", ":target", ":read-only", ":popover-open", ":Hover"}

// S07_states: the pseudo-classes of what a user does match no node, alone, in compounds and after combinators; their negations match every element.
func S07_states() {
	s := states[vs.Choose(8)]
	t := grow(3, 1, true)
	a := hasKey(0)
	none := pr{s, func(t *tree, i int) bool { return false }}
	switch vs.Choose(4) {
	case 0:
		judge(t, none)
	case 1:
		judge(t, pr{":not(" + s + ")", func(t *tree, i int) bool { return t.elem(i) }})
	case 2:
		judge(t, pr{a.s + s + "," + a.s, a.f})
	case 3:
		judge(t, combine(none, combs[vs.Choose(4)], a))
	}
}

// S07_stateattrs: the pseudo-classes of what a user does match no element of any type that holds
// an attribute which sounds like them, with any value, nor its ancestors and siblings; their
// negations match all of them.
func S07_stateattrs() {
	s := states[vs.Choose(8)]
	tags := []string{"a", "input", "textarea", "select", "button", "div", "details", "dialog", "html", "link", "area", "x"}
	keys := []string{"autofocus", "readonly", "disabled", "href", "popover", "open", "id", "name", "target", "tabindex", "class", "contenteditable", "hidden", "style", "ping"}
	t := &tree{}
	t.add(-1, elem("label"))
	n := elem(tags[vs.Choose(len(tags))])
	n.Attr = append(n.Attr, html.Attribute{Key: keys[vs.Choose(len(keys))], Val: string(vs.Bytes(vs.Choose(3)))})
	if vs.Choose(2) == 1 {
		words := []string{"auto", "true", "hover", "focus", "active", "visited", "target", "#", "0", "open", "manual", "read-only"}
		n.Attr[0].Val = words[vs.Choose(len(words))]
	}
	t.add(0, n)
	t.add(0, elem("a"))
	judge(t, pr{":not(" + s + ")", func(t *tree, i int) bool { return t.elem(i) }})
	judge(t, pr{s, func(t *tree, i int) bool { return false }})
}
