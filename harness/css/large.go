package css

import (
	"strconv"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// P01_large: up to one (thorough: two) significant characters in one of 30 places between 40 (thorough: 80) rules and 20 (40), in both modes.
func P01_large() {
	n := pick(40, 80)
	k := vs.Choose(len(around) / 2)
	h := vs.StrIn(vs.Choose(pick(1, 2)+1), cssChars)
	rules := ".p{a:b}@media x{.q:hover{a:b;c:d}}@layer y{.r{a:b}}/* */.s,.t .u{--a: b c;d:e!important}"
	s := strings.Repeat(rules, n/4) + around[2*k] + h + around[2*k+1] + strings.Repeat(rules, n/8)
	total(s, vs.Choose(2) == 1)
}

// P01_nested: blocks, brackets, parentheses, strings and comments opened 30 (thorough: 200) times, closed as often, once less or not at all,
// with any significant character in the middle.
func P01_nested() {
	n := pick(30, 200)
	p := []string{"@media x{", "@layer x{", ".a{", "(", "[", "f(", ".a{b:(", "@supports (", ":not(", ".a:is(", "{", ".a{--b:{", "/*"}
	q := []string{"}", "}", "}", ")", "]", ")", ")}", ") {}", ")", ")", "}", "}}", "*/"}
	k := vs.Choose(len(p))
	s := strings.Repeat(p[k], n) + vs.StrIn(vs.Choose(2), cssChars) + strings.Repeat(q[k], []int{n, n - 1, n + 1, 0}[vs.Choose(4)])
	total([]string{"", ".a{b:", "@media "}[vs.Choose(3)]+s, vs.Choose(2) == 1)
}

// letters2 is a name of two or three letters of its own for each number.
func letters2(k int) string {
	return string([]byte{byte('a' + k%26), byte('a' + k/26%26), byte('a' + k/676)})
}

// P02_large: a sheet of 60 (thorough: 100) rules one after another, in conditions, skipped blocks and lists, among which one, in front, in the
// middle or at the end, has any class, property and value, an item as in P02_items next to it.
func P02_large() {
	g := &gen{}
	n := pick(60, 100)
	at := []int{0, n / 2, n - 1}[vs.Choose(3)]
	k := vs.Choose(kinds)
	for i := 0; i < n; i++ {
		c := letters2(i)
		d := decl{"p" + c, c + " v"}
		if i == at {
			c = "x" + vs.StrIn(1, identMore) + vs.StrIn(1, ident)
			d = decl{"x" + vs.StrIn(1, "abcxyz"), vs.StrIn(1, ident) + " y"}
			g.item(k, 0)
		}
		switch i % 5 {
		case 0:
			g.w("." + c + "{" + d.prop + ":" + d.val + "}\n")
			g.want = append(g.want, want{"." + c, []string{c}, []decl{d}})
		case 1:
			g.w("@media (min-width: 1px) {." + c + "{" + d.prop + ":" + d.val + ";}}")
			g.want = append(g.want, want{"." + c, []string{c}, []decl{d}})
		case 2:
			g.w("@layer " + c + "{." + c + "z{" + d.prop + ":" + d.val + ";}}")
		case 3:
			g.w("." + c + ",." + c + ":hover{" + d.prop + ":" + d.val + ";q:r}")
			e := []decl{d, {"q", "r"}}
			g.want = append(g.want, want{"." + c, []string{c}, e}, want{"." + c + ":hover", []string{c}, e})
		case 4:
			g.w("@media (min-width: 1px) {@supports (a:b){." + c + "{" + d.prop + ":" + d.val + ";}}}/*" + c + "*/")
			g.want = append(g.want, want{"." + c, []string{c}, []decl{d}})
		}
	}
	g.rule()
	g.check()
}

// P02_wide: one rule with 30 (thorough: 120) declarations and 25 (80) selectors, of which two are arbitrary.
func P02_wide() {
	g := &gen{}
	n, m := pick(25, 80), pick(30, 120)
	var ds []decl
	body := ""
	v := vs.StrIn(1, ident) + vs.StrIn(1, identMore)
	for i := 0; i < m; i++ {
		d := decl{"p" + letters2(i), "v " + strconv.Itoa(i)}
		if i == m/2 || i == m-1 {
			d = decl{"p" + letters2(i/2), v + " x"} // once more
		}
		body += d.prop + ":" + d.val + ";"
		ds = append(ds, d)
	}
	for i := 0; i < n; i++ {
		c := letters2(i)
		sep := ","
		if i == n/3 || i == n-1 {
			c = vs.StrIn(1, ident) + strconv.Itoa(i)
			sep = ", "
		}
		if i == 0 {
			sep = ""
		}
		g.w(sep + "." + c)
		g.want = append(g.want, want{"." + c, []string{c}, ds})
	}
	g.w("{" + body + "}")
	g.rule()
	g.checkNames()
}

// P02_deep: a rule in 12 (thorough: 20) blocks, of which one is of any kind, in front, in the middle or right around the rule, and rules after it
// in each.
func P02_deep() {
	g := &gen{}
	n := pick(12, 20)
	at := []int{0, n / 2, n - 1}[vs.Choose(3)]
	open := []string{"@media (w:1){", "@supports (a:b) {", "@layer x{", "@document url(x){"}[vs.Choose(4)]
	dead := false
	for i := 0; i < n; i++ {
		if i == at {
			g.w(open)
			dead = open[1] == 'l' || open[1] == 'd'
		} else {
			g.w([]string{"@media x{", "@supports not (a:b){"}[i%2])
		}
	}
	if dead {
		g.hidden()
	} else {
		g.rule()
	}
	for i := n - 1; i >= 0; i-- {
		g.w("}")
		if i == at {
			dead = false
		}
		if i%4 == 0 {
			if dead {
				g.hidden()
			} else {
				g.rule()
			}
		}
	}
	g.rule()
	g.check()
}

// P02_lengths: names, values and selectors of 20 (thorough: 300) characters and more, arbitrary in front, in the middle and at the end.
func P02_lengths() {
	g := &gen{}
	n := pick(20, 300)
	c := vs.StrIn(1, ident) + strings.Repeat("ab-", n) + vs.StrIn(1, identMore) + strings.Repeat("Z9_", n) + vs.StrIn(1, identMore)
	p := "p" + strings.Repeat("q-", n) + vs.StrIn(1, "abc-9")
	w := "a" + strings.Repeat("bc", n) + vs.StrIn(1, identMore)
	v, vv := w, w
	switch vs.Choose(5) {
	case 1:
		v = strings.Repeat(w+"\n ", 8) + w
		vv = strings.Repeat(w+" ", 8) + w
	case 2:
		v = "f(" + strings.Repeat("g(", n) + w + strings.Repeat(")", n) + ")"
		vv = v
	case 3:
		v = "\"" + strings.Repeat("; }", n) + w + "\" x"
		vv = v
	case 4:
		v = strings.Repeat(" ", n) + w + strings.Repeat(" ", n) + "/**/" + strings.Repeat("\t", n)
	}
	ds := []decl{{p, vv}, {"--" + p, w}, {"c", "d"}}
	g.w("." + c + ":hover{" + p + ":" + v + ";--" + p + ":" + w + ";c:d}")
	g.want = append(g.want, want{"." + c + ":hover", []string{c}, ds})
	g.rule()
	g.check()
}
