package css

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// pieces gives a text in pieces of a size, some of them empty, the last one with or without the end.
type pieces struct {
	text  string
	size  int
	empty bool  // an empty piece comes next to each other
	last  bool  // the end comes with the last piece
	end   error // what comes at the end
	calls int
}

func (p *pieces) Read(b []byte) (int, error) {
	p.calls++
	if p.empty && p.calls%2 == 0 {
		return 0, nil
	}
	n := p.size
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.text) {
		n = len(p.text)
	}
	copy(b, p.text[:n])
	p.text = p.text[n:]
	if len(p.text) == 0 && (n == 0 || p.last) {
		return n, p.end
	}
	return n, nil
}

// slice is a reader that gives its text at once, like a bytes.Buffer.
type slice struct {
	b    []byte
	read int
}

func (s *slice) Bytes() []byte { return s.b[s.read:] }

func (s *slice) Read(b []byte) (int, error) {
	if s.read == len(s.b) {
		return 0, io.EOF
	}
	n := copy(b, s.b[s.read:])
	s.read += n
	return n, nil
}

// any writes a rule of any names.
func (g *gen) any() {
	c := "x" + vs.StrIn(1, identMore) + vs.StrIn(1, ident)
	d := decl{"x" + vs.StrIn(1, "abcxyz"), vs.StrIn(1, ident) + " y"}
	g.w("." + c + "{" + d.prop + ":" + d.val + "}")
	g.want = append(g.want, want{"." + c, []string{c}, []decl{d}})
}

// sheet writes a style sheet of two rules around any item.
func sheet() *gen {
	g := &gen{}
	g.any()
	g.item(vs.Choose(kinds), 0)
	g.rule()
	return g
}

// like asserts that rules are those of g.
func (g *gen) like(rules []cascadia.CssRule) {
	vs.Assert(len(rules) == len(g.want), "not the rules of the style sheet")
	for i, w := range g.want {
		sel, err := cascadia.ParseWithPseudoElement(w.sel)
		vs.Assert(err == nil, "the harness has a wrong selector")
		vs.Assert(vs.Eq(rules[i].GetSelector(), sel.String()), "a rule has the wrong selector")
		sameDecls(rules[i].Declarations, w.decls)
	}
}

// P04_pieces: two rules of any names around any item, read in pieces of 1, 2, 3, 7 or all bytes, with empty pieces among them or
// not, the end with the last piece or after it: the same rules.
func P04_pieces() {
	g := sheet()
	src := g.b.String()
	r := &pieces{text: src, size: []int{1, 2, 3, 7, len(src) + 1}[vs.Choose(5)], end: io.EOF}
	r.empty = vs.Choose(2) == 1
	r.last = vs.Choose(2) == 1
	again := *r
	rules, err := cascadia.ExtractRules(r, false)
	vs.Observe("n", len(rules))
	vs.Assert(err == nil, "a well-formed style sheet is rejected")
	g.like(rules)
	vs.Assert(m0.AddRules(&again, false) == nil, "a well-formed style sheet is rejected")
	g.govern()
	vs.Reach("checked")
}

// P04_cut: a reader that fails after any number of bytes, read in pieces of any of four sizes: an error and not one rule.
func P04_cut() {
	x := vs.StrIn(1, ident)
	src := "." + x + "{b:" + x + "}@media x{.d{e:f}}/*g*/.h{i:\"j\"}"
	n := vs.Choose(len(src) + 1)
	r := &pieces{text: src[:n], size: []int{1, 3, 7, len(src) + 1}[vs.Choose(4)], end: errors.New("broken")}
	r.last = vs.Choose(2) == 1
	if vs.Choose(2) == 1 {
		r.end = io.ErrUnexpectedEOF
	}
	err := m0.AddRules(r, vs.Choose(2) == 1)
	vs.Observe("err", err != nil)
	vs.Assert(err != nil, "a reader fails and AddRules does not")
	vs.Assert(len(m0.Rules()) == 0, "rules of a style sheet that could not be read are recorded")
	vs.Assert(m0.Merge("a a h") != "", "a class is dropped")
	vs.Reach("checked")
}

// P04_memory: two style sheets of any item each that lie next to one another in memory, with any three bytes after
// them, given as buffers or read as slices: the rules of each, no byte changed, and the rules stay when
// the bytes are overwritten.
func P04_memory() {
	g1, g2 := &gen{}, &gen{}
	g1.item(vs.Choose(kinds), 0)
	g1.any()
	g2.any()
	s1, s2 := g1.b.String(), g2.b.String()
	rest := string(vs.Bytes(3))
	b := []byte(s1 + s2 + rest)
	var r1, r2 io.Reader = bytes.NewBuffer(b[:len(s1)]), bytes.NewBuffer(b[len(s1) : len(s1)+len(s2)])
	if vs.Choose(2) == 1 {
		r1, r2 = &slice{b: b[:len(s1)]}, &slice{b: b[len(s1) : len(s1)+len(s2)]}
	}
	var one, two []cascadia.CssRule
	direct := vs.Choose(2) == 1
	if direct {
		var err error
		one, err = cascadia.ExtractRules(r1, false)
		vs.Assert(err == nil, "a well-formed style sheet is rejected")
		two, err = cascadia.ExtractRules(r2, false)
		vs.Assert(err == nil, "a well-formed style sheet is rejected")
	} else {
		vs.Assert(m0.AddRules(r1, false) == nil, "a well-formed style sheet is rejected")
		vs.Assert(m0.AddRules(r2, false) == nil, "a well-formed style sheet is rejected")
	}
	vs.Assert(vs.Eq(string(b), s1+s2+rest), "loading changes memory of the caller")
	for i := range b {
		b[i] = '}'
	}
	if direct {
		g1.like(one)
		g2.like(two)
	} else {
		g1.want = append(g1.want, g2.want...)
		g1.govern()
	}
	vs.Reach("checked")
}

// P04_untouched: any two bytes (thorough: three), by themselves or at the end of seven beginnings of style sheets, with any two bytes of the caller after them, in both modes:
// whatever comes of it, no byte is changed.
func P04_untouched() {
	text := string(vs.Bytes(pick(2, 3)))
	if k := vs.Choose(8); k > 0 {
		t := []string{".A{B:C", "@MEDIA (A", "/*", ".a{B:URL(", ".a{B:\"", ".a{--B:C !IMPORTANT", "A:B;C"}[k-1]
		text = t + text
	}
	rest := string(vs.Bytes(2))
	b := []byte(text + rest)
	err := m0.AddRules(bytes.NewBuffer(b[:len(text)]), vs.Choose(2) == 1)
	vs.Observe("err", err != nil)
	vs.Assert(vs.Eq(string(b), text+rest), "loading changes memory of the caller")
	vs.Reach("checked")
}

// P04_long: a comment, a string, white space, a url or a skipped block of 70,000 (thorough: 200,000) characters between two rules, read at
// once or in pieces of 512 bytes: both rules.
func P04_long() {
	g := &gen{}
	g.any()
	long := strings.Repeat("a;b} ", pick(14000, 40000))
	switch vs.Choose(5) {
	case 0:
		g.w("/*" + long + "*/")
	case 1:
		g.w(".x{a:\"" + long + "\"}")
		g.want = append(g.want, want{".x", []string{"x"}, []decl{{"a", "\"" + long + "\""}}})
	case 2:
		g.w(strings.Repeat(" \n\t\r\f", len(long)/5))
	case 3:
		g.w("@font-face{a:\"" + long + "\"}")
	case 4:
		g.w("@import \"" + long + "\";")
	}
	g.rule()
	src := g.b.String()
	var r io.Reader = strings.NewReader(src)
	if vs.Choose(2) == 1 {
		r = &pieces{text: src, size: 512, end: io.EOF}
	}
	vs.Assert(m0.AddRules(r, false) == nil, "a well-formed style sheet is rejected")
	g.govern()
	vs.Reach("checked")
}

// P04_huge: a comment, white space, a skipped block or a string of 1.2 (thorough: 3) million bytes between two rules: both.
func P04_huge() {
	vs.Long()
	g := &gen{}
	g.rule()
	n := pick(1200000, 3000000)
	switch vs.Choose(4) {
	case 0:
		g.w("/*" + strings.Repeat("a", n) + "*/")
	case 1:
		g.w(strings.Repeat(" ", n))
	case 2:
		g.w("@font-face{a:\"" + strings.Repeat("a", n) + "\"}")
	case 3:
		g.w("@import \"" + strings.Repeat("a", n) + "\";")
	}
	g.rule()
	vs.Assert(m0.AddRules(strings.NewReader(g.b.String()), false) == nil, "a well-formed style sheet is rejected")
	g.govern()
	vs.Reach("checked")
}
