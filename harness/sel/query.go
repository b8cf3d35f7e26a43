package sel

import (
	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// tree is a document held twice: as nodes, and as the number of each node's parent. Node 0 is
// the topmost; a parent has a smaller number than its children and children are numbered in
// order.
type tree struct {
	n      []*html.Node
	parent []int
}

// add puts a node under a parent.
func (t *tree) add(parent int, n *html.Node) {
	if parent >= 0 {
		t.n[parent].AppendChild(n)
	}
	t.n = append(t.n, n)
	t.parent = append(t.parent, parent)
}

// under tells whether node j is a proper descendant of node i.
func (t *tree) under(j, i int) bool {
	for j = t.parent[j]; j >= 0; j = t.parent[j] {
		if j == i {
			return true
		}
	}
	return false
}

// order is the numbers of the nodes in document order from node i on.
func (t *tree) order(i int) []int {
	out := []int{i}
	for j := i + 1; j < len(t.parent); j++ {
		if t.parent[j] == i {
			out = append(out, t.order(j)...)
		}
	}
	return out
}

// intact tells whether the links of the nodes are those of the tree.
func (t *tree) intact() bool {
	for i, n := range t.n {
		var first, last *html.Node
		for j, p := range t.parent {
			if p == i {
				if first == nil {
					first = t.n[j]
				}
				if t.n[j].PrevSibling != last || last != nil && last.NextSibling != t.n[j] || t.n[j].Parent != n {
					return false
				}
				last = t.n[j]
			}
		}
		if n.FirstChild != first || n.LastChild != last || last != nil && last.NextSibling != nil {
			return false
		}
	}
	return t.n[0].Parent == nil
}

// anyTree is every shape of a tree of n nodes, all elements.
func anyTree(n int) *tree {
	t := &tree{}
	for i := 0; i < n; i++ {
		p := -1
		if i > 0 {
			p = vs.Choose(i)
		}
		t.add(p, elem("a"))
	}
	return t
}

// chosen matches an arbitrary set of nodes.
type chosen struct {
	t  *tree
	is []bool
}

func (c chosen) Match(n *html.Node) bool {
	for i, m := range c.t.n {
		if m == n {
			return c.is[i]
		}
	}
	return false
}

// S08_types: every tree of up to four (thorough: five) nodes of any types, every predicate on its nodes, from every node.
func S08_types() {
	t := &tree{}
	types := []html.NodeType{html.ElementNode, html.TextNode, html.CommentNode, html.DocumentNode, html.DoctypeNode, html.RawNode}
	for i := 1 + vs.Choose(pick(4, 5)); i > 0; i-- {
		p := -1
		if len(t.n) > 0 {
			p = vs.Choose(len(t.n))
		}
		t.add(p, &html.Node{Type: types[vs.Choose(len(types))], Data: "a"})
	}
	judgeQueries(t)
}

// S08_wide: a node with up to nine (thorough: twelve) children of which one has children and one of these again, every predicate.
func S08_wide() {
	t := &tree{}
	t.add(-1, elem("a"))
	n := 1 + vs.Choose(pick(9, 12))
	for i := 0; i < n; i++ {
		t.add(0, elem("a"))
	}
	k := 1 + vs.Choose(n)
	for i := vs.Choose(3); i > 0; i-- {
		t.add(k, elem("a"))
		k = len(t.n) - 1
	}
	judgeQueries(t)
}

// S08_deep: a chain of up to twelve (thorough: sixteen) nodes, every predicate, from any of them.
func S08_deep() {
	t := &tree{}
	for i := 1 + vs.Choose(pick(12, 16)); i > 0; i-- {
		t.add(len(t.n)-1, elem("a"))
	}
	judgeQueries(t)
}

// S08_query: every tree of up to six (thorough: seven) nodes, every predicate on its nodes, from
// every node.
func S08_query() {
	judgeQueries(anyTree(1 + vs.Choose(pick(6, 7))))
}

// judgeQueries states S08 for the tree, every predicate on its nodes and any node to start from.
func judgeQueries(t *tree) {
	var types []html.NodeType
	for _, n := range t.n {
		types = append(types, n.Type)
	}
	c := chosen{t: t}
	for range t.n {
		c.is = append(c.is, vs.Bool())
	}
	from := vs.Choose(len(t.n))
	all := cascadia.QueryAll(t.n[from], c)
	first := cascadia.Query(t.n[from], c)
	k := 0
	for _, i := range t.order(from)[1:] {
		if c.is[i] {
			vs.Assert(k < len(all) && all[k] == t.n[i], "QueryAll leaves out a node or is out of order")
			if k == 0 {
				vs.Assert(first == t.n[i], "Query does not return the first match")
			}
			k++
		}
	}
	vs.Observe("n", k)
	vs.Assert(k == len(all), "QueryAll returns too many nodes")
	vs.Assert(k > 0 || first == nil, "Query returns a node that does not match")
	vs.Assert(t.intact(), "a query modifies the tree")
	for i, n := range t.n {
		vs.Assert(n.Data == "a" && n.Type == types[i] && len(n.Attr) == 0, "a query modifies a node")
	}
	if k > 1 {
		vs.Reach("several")
	}
}

// S08_filter: lists of up to four (thorough: five) nodes out of three, repeats included, and
// every predicate.
func S08_filter() {
	t := anyTree(3)
	c := chosen{t, []bool{vs.Bool(), vs.Bool(), vs.Bool()}}
	var in []*html.Node
	var which []int
	for i := vs.Choose(pick(4, 5) + 1); i > 0; i-- {
		w := vs.Choose(3)
		which = append(which, w)
		in = append(in, t.n[w])
	}
	out := cascadia.Filter(in, c)
	k := 0
	for i, w := range which {
		vs.Assert(in[i] == t.n[w], "Filter modifies its list")
		if c.is[w] {
			vs.Assert(k < len(out) && out[k] == t.n[w], "Filter leaves out a node or is out of order")
			k++
		}
	}
	vs.Observe("n", k)
	vs.Assert(k == len(out), "Filter returns too many nodes")
	vs.Assert(t.intact(), "Filter modifies the tree")
}

// S08_selectors: trees of up to five nodes, texts and comments among them, and parsed selectors:
// the queries agree with what Match says of each node.
func S08_selectors() {
	t := &tree{}
	n := 1 + vs.Choose(pick(5, 5))
	for i := 0; i < n; i++ {
		p := -1
		if i > 0 {
			p = vs.Choose(i)
			vs.Assume(t.n[p].Type == html.ElementNode)
		}
		switch vs.Choose(4) {
		case 0:
			t.add(p, elem("a", "class", "x"))
		case 1:
			t.add(p, elem("b"))
		case 2:
			t.add(p, &html.Node{Type: html.TextNode, Data: "t"})
		case 3:
			t.add(p, &html.Node{Type: html.CommentNode, Data: "a"})
		}
	}
	text := []string{"a", "b>a", "a,b", ".x b", ":not(a)", ":contains(t)", "*"}[vs.Choose(7)]
	m, err := cascadia.ParseGroup(text)
	vs.Assert(err == nil, "a selector is rejected")
	all := cascadia.QueryAll(t.n[0], m)
	first := cascadia.Query(t.n[0], m)
	kept := cascadia.Filter(t.n, m)
	k, l := 0, 0
	for _, i := range t.order(0) {
		if i > 0 && m.Match(t.n[i]) {
			vs.Assert(k < len(all) && all[k] == t.n[i], "QueryAll leaves out a node or is out of order")
			if k == 0 {
				vs.Assert(first == t.n[i], "Query does not return the first match")
			}
			k++
		}
	}
	for _, x := range t.n {
		if m.Match(x) {
			vs.Assert(l < len(kept) && kept[l] == x, "Filter leaves out a node or is out of order")
			l++
		}
	}
	vs.Assert(k == len(all) && l == len(kept) && (k > 0 || first == nil), "too many nodes are returned")
	vs.Assert(t.intact(), "a query modifies the tree")
}
