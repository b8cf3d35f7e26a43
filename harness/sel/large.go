package sel

import (
	"strconv"
	"strings"

	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// longText is a selector of one of 14 forms in which something comes 9 or 33 (thorough: also 130) times, with up to one
// (thorough: two) significant characters somewhere inside it.
func longText() string {
	n := []int{9, 33, 130}[vs.Choose(pick(2, 3))]
	h := vs.StrIn(vs.Choose(pick(1, 2)+1), selChars)
	r := func(s string) string { return strings.Repeat(s, n) }
	switch vs.Choose(14) {
	case 0:
		return r(":not(") + h + "a" + r(")")
	case 1:
		return r("a, ") + h + "a" + r(",.b")
	case 2:
		return r("a>.b ") + h + "c" + r("+d~e")
	case 3:
		return "a" + r(".b") + h + r("#c")
	case 4:
		return "." + r("ab") + h + r("c1")
	case 5:
		return "[a=\"" + r("b ") + h + r("c;") + "\"]"
	case 6:
		return r("[a]") + h + r("[b^='c'i]")
	case 7:
		return ":is(" + r(".b,") + h + ".c" + r(",d") + ")"
	case 8:
		return "a /*" + r("x") + h + "*/b"
	case 9:
		return "a" + r(" ") + h + r("\n") + "b"
	case 10:
		return "#" + r("\\61 ") + h + r("\\.")
	case 11:
		return r(":hover") + h + r(":focus") + "::before"
	case 12:
		return r(":is(a,:where(") + ".b" + h + r("))")
	}
	return ":lang(" + r("a") + h + ")" + r(":nth-child(2n+1)")
}

// S01_large: long selectors as in longText.
func S01_large() { total(longText()) }

// S02_large: long selectors as in longText.
func S02_large() { round(longText()) }

// S03_large: names and strings of nine or 40 (thorough: also 150) characters and escapes in a row, with any byte
// among them.
func S03_large() {
	n := []int{9, 40, 150}[vs.Choose(pick(2, 3))]
	in := []string{"a", "aB1-", "\\61 ", "\\.", "\\00e9", "\xc3\xa9"}[vs.Choose(6)]
	front, back := strings.Repeat(in, n), strings.Repeat(in, n/2)
	mid := vs.Bytes(1)
	switch vs.Choose(2) {
	case 0:
		name(front + mid + back)
	default:
		str(front+mid+back, '"')
	}
}

var counts = []int{3, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001}

// S05_many: any one or two kinds of parts coming up to 257 (thorough: 1001) times in a compound, a combination, an argument or a list.
func S05_many() {
	n, m := counts[vs.Choose(pick(12, 15))], counts[vs.Choose(2)]
	one := []struct {
		s  string
		sp spec
	}{{".a", spec{0, 1, 0}}, {"#a", spec{1, 0, 0}}, {"[a]", spec{0, 1, 0}}, {":hover", spec{0, 1, 0}}, {":not(a)", spec{0, 0, 1}},
		{":is(#a, .b)", spec{1, 0, 0}}, {":where(#a)", spec{}}, {":nth-child(2)", spec{0, 1, 0}}}
	a, b := one[vs.Choose(len(one))], one[vs.Choose(4)]
	times := func(s spec, n int) spec { return spec{s[0] * n, s[1] * n, s[2] * n} }
	s, sp := strings.Repeat(a.s, n)+strings.Repeat(b.s, m), times(a.sp, n).plus(times(b.sp, m))
	switch vs.Choose(6) {
	case 1:
		s, sp = strings.Repeat("p>", n)+s, sp.plus(spec{0, 0, n})
	case 2:
		s = ":is(" + s + ")"
	case 3: // of a list the highest
		s, sp = ":not(.x.y,"+s+",z)", most(sp, spec{0, 2, 0})
	case 4:
		s, sp = "#i "+s+"::before", sp.plus(spec{1, 0, 1})
	case 5:
		s, sp = strings.Repeat(a.s+" ", n)+"*", times(a.sp, n)
	}
	specOf(s, sp)
}

// S04_many: a and b of up to two digits and either sign, each of the four forms, every position among 30 (thorough: 60) siblings of
// two types with texts and comments among them.
func S04_many() {
	f := vs.Choose(4)
	sa, a := number(2)
	sb, b := number(2)
	text := sa + "n"
	if vs.Choose(2) == 1 {
		text, a = "-"+text, -a
	}
	if vs.Choose(2) == 1 {
		text, b = text+"-"+sb, -b
	} else {
		text += "+" + sb
	}
	kinds := strings.Repeat("abtaacbbat", pick(3, 6))
	i := vs.Choose(len(kinds))
	sel, err := cascadia.Parse(nths[f] + "(" + text + ")")
	vs.Assert(err == nil, "a formula is rejected")
	pos := position(kinds, i, f)
	got := sel.Match(family(kinds)[i])
	vs.Observe("match", bits(got))
	if pos == 0 {
		vs.Assert(!got, "a text or comment matches "+nths[f])
		return
	}
	vs.Assert(got == at(pos, a, b), "an element's position is matched wrongly by "+nths[f])
	vs.Reach("matched")
}

// S04_only: the first, last and only forms for each of eight (thorough: 20) siblings, each an element of one of two types or a text.
func S04_only() {
	kinds := ""
	n := pick(8, 20)
	k, l := vs.Choose(n), vs.Choose(n)
	other := "bt"[vs.Choose(2):][:1]
	fill := "atc"[vs.Choose(3):][:1]
	for i := 0; i < n; i++ {
		switch i {
		case k:
			kinds += other
		case l:
			kinds += "a"
		default:
			kinds += fill
		}
	}
	all := family(kinds)
	for i, m := range all {
		p := [4]int{}
		for j := range p {
			p[j] = position(kinds, i, j)
		}
		one(":first-child", m, p[0] == 1)
		one(":last-child", m, p[1] == 1)
		one(":first-of-type", m, p[2] == 1)
		one(":last-of-type", m, p[3] == 1)
		one(":only-child", m, p[0] == 1 && p[1] == 1)
		one(":only-of-type", m, p[2] == 1 && p[3] == 1)
	}
}

// S06_large: every operator over a value of 14 (thorough: 40) words, two of which are any two characters, and texts of up to three
// characters, in either case mode.
func S06_large() {
	op := ops[vs.Choose(len(ops))]
	n := pick(14, 40)
	var words []string
	for i := 0; i < n; i++ {
		w := "w" + strconv.Itoa(i)
		if i == 0 || i == n/2 {
			w = vs.StrIn(2, "ab-")
		}
		words = append(words, w)
	}
	sep := []string{" ", "\t\n", "-", "  "}[vs.Choose(4)]
	val := vs.StrIn(vs.Choose(4), "abA-")
	switch vs.Choose(3) {
	case 1:
		val = "w" + val
	case 2:
		val += sep
	}
	for _, c := range []byte(val) {
		vs.Assume(c != '\n')
	}
	attr := strings.Join(words, sep)
	if vs.Choose(2) == 1 {
		attr += sep + words[0]
	}
	rel(op, attr, val, vs.Choose(2) == 1)
}

// S06_many: an element with twelve (thorough: 40) attributes, four of them of any name of one letter, the values different.
func S06_many() {
	n := elem("a")
	key := vs.StrIn(1, "xyz")
	has, eq, word := false, false, false
	for i := 0; i < pick(12, 40); i++ {
		k, v := "k"+strconv.Itoa(i), "v"
		if i%pick(4, 12) == 1 || i == pick(12, 40)-1 {
			k, v = vs.StrIn(1, "wxyz"), []string{"v", "u v", "u"}[i%3]
		}
		n.Attr = append(n.Attr, html.Attribute{Key: k, Val: v})
		same := vs.Eq(k, key)
		has = vs.Or(has, same)
		eq = vs.Or(eq, vs.And(same, v == "v"))
		word = vs.Or(word, vs.And(same, v != "u"))
	}
	sel, err := cascadia.Parse("[" + key + "]")
	vs.Assert(err == nil && sel.Match(n) == has, "an attribute selector of presence matches wrongly")
	sel, err = cascadia.Parse("[" + key + "=v]")
	vs.Assert(err == nil && sel.Match(n) == eq, "an attribute selector of equality matches wrongly")
	sel, err = cascadia.Parse("[" + key + "~=v]")
	vs.Assert(err == nil && sel.Match(n) == word, "an attribute selector of a word matches wrongly")
	sel, err = cascadia.Parse("a" + strings.Repeat("[k0]", 20) + "[" + key + "=v]")
	vs.Assert(err == nil && sel.Match(n) == eq, "a compound of many attribute selectors matches wrongly")
}

// S07_long: four compounds joined by any combinators on a tree of 12 (thorough: 15) elements of four shapes from a chain to a row: each compound
// matches arbitrary ones of three elements, and every third or fourth of the others.
func S07_long() {
	p := hasKey(0)
	for k := 1; k < 4; k++ {
		p = combine(p, combs[vs.Choose(4)], hasKey(k%3))
	}
	n := pick(12, 15)
	shape := vs.Choose(4)
	t := &tree{}
	for i := 0; i < n; i++ {
		at := 0
		switch shape {
		case 0:
			at = i - 1
		case 2:
			at = (i - 1) / 2
		case 3:
			at = (i - 1) / 4 * 4
		}
		if i == 0 {
			at = -1
		}
		e := elem("a", string("p-"[bits(i%4 != 1)]), "", string("q-"[bits(i%3 != 0)]), "", string("r-"[bits(i%4 != 3)]), "")
		if i == 2 || i == n/2 || i == n-3 {
			e = arbitrary(3)
		}
		t.add(at, e)
	}
	judge(t, p)
}

// S07_lists: groups and arguments of 20 (thorough: 60) members of which three are arbitrary, on a tree of four nodes.
func S07_lists() {
	s := ""
	n := pick(20, 60)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		switch i {
		case 0:
			s += "[p]"
		case n / 2:
			s += " [p] > [q]"
		case n - 1:
			s += "[r]"
		default:
			s += "k" + strconv.Itoa(i)
		}
	}
	a, b, c := hasKey(0), combine(hasKey(0), '>', hasKey(1)), hasKey(2)
	p := pr{s, func(t *tree, i int) bool { return vs.Or(a.f(t, i), vs.Or(b.f(t, i), c.f(t, i))) }}
	in := p
	switch vs.Choose(4) {
	case 1:
		p.s = ":is(" + s + ")"
	case 2:
		p = pr{":not(" + s + ")", func(t *tree, i int) bool { return t.elem(i) && !in.f(t, i) }}
	case 3:
		p = pr{":has(" + s + ")", func(t *tree, i int) bool { return t.hasIn(i, in, false) }}
	}
	judge(grow(4, 3, false), p)
}

// S08_large: a tree of 40 (thorough: 150) nodes, one in seven of which matches or not.
func S08_large() {
	t := &tree{}
	n := pick(40, 150)
	shape := vs.Choose(3)
	for i := 0; i < n; i++ {
		p := i - 1
		if i > 0 && shape == 1 {
			p = (i - 1) / 3
		}
		if i > 3 && shape == 2 {
			p = i - 3
		}
		t.add(p, elem("a"))
	}
	c := chosen{t, make([]bool, n)}
	for i := range c.is {
		if i%7 == 0 || i == n-1 {
			c.is[i] = vs.Bool()
		} else {
			c.is[i] = i%5 == 0 && shape == 0
		}
	}
	i := vs.Choose(2) * (n / 2)
	var want []int
	for _, j := range t.order(i)[1:] {
		if c.is[j] {
			want = append(want, j)
		}
	}
	all := cascadia.QueryAll(t.n[i], c)
	vs.Assert(len(all) == len(want), "QueryAll returns another number of nodes")
	for k, j := range want {
		vs.Assert(all[k] == t.n[j], "QueryAll returns a wrong node or is out of order")
	}
	first := cascadia.Query(t.n[i], c)
	vs.Assert((first == nil) == (len(want) == 0) && (first == nil || first == t.n[want[0]]), "Query does not return the first match")
	kept := cascadia.Filter(t.n, c)
	k := 0
	for j := range t.n {
		if c.is[j] {
			vs.Assert(k < len(kept) && kept[k] == t.n[j], "Filter leaves out a node or is out of order")
			k++
		}
	}
	vs.Assert(k == len(kept), "Filter returns too many nodes")
	vs.Assert(t.intact(), "a query modifies the tree")
}
