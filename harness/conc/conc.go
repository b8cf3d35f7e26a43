// Package conc holds the harnesses for concurrent use of a Merger.
package conc

import (
	"errors"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// gated is a SimpleCache that threads may be preempted at.
type gated struct{ c *merge.SimpleCache }

func (g gated) Get(k string) (string, bool) {
	vs.Gate()
	return g.c.Get(k)
}

func (g gated) Set(k, v string) {
	vs.Gate()
	g.c.Set(k, v)
}

func (g gated) Clear() {
	vs.Gate()
	g.c.Clear()
}

// mergers made by Setup; each path starts from them as they were then.
var (
	shared   *merge.Merger // with a gated SimpleCache
	direct   *merge.Merger // with a SimpleCache
	uncached *merge.Merger
	plain    []*merge.Merger // for the expected results, with the initial rules
	used     int
)

const base = ".a{p:1}.b{p:2}.c{q:1}.d{margin:0}.e{--v:1}.f{q:var(--v)}"

// Setup makes the mergers the paths start from.
func Setup() {
	used = 0
	if len(plain) == 0 {
		for i := 0; i < 6; i++ {
			plain = append(plain, merge.NewMerger(nil, true))
		}
	}
	renew(&shared, func() merge.Cache { return gated{merge.NewCache()} })
	renew(&direct, func() merge.Cache { return merge.NewCache() })
	renew(&uncached, func() merge.Cache { return nil })
	for i := range plain {
		renew(&plain[i], func() merge.Cache { return nil })
	}
}

// renew makes a merger, or empties the one there is: natively, that saves time.
func renew(m **merge.Merger, cache func() merge.Cache) {
	if *m != nil {
		for k := range (*m).Rules() {
			delete((*m).Rules(), k)
		}
	}
	if *m == nil || len((*m).Rules()) > 0 {
		*m = merge.NewMerger(cache(), true)
	}
	(*m).AddRules(strings.NewReader(base), false)
}

// op is one call and when it took place.
type op struct {
	add        string // the sheet, or the empty string for Merge
	bad        bool   // the sheet's reader fails
	in, out    string
	start, end int
}

type badReader struct{}

func (badReader) Read(b []byte) (int, error) {
	vs.Gate()
	return 0, errors.New("bad reader")
}

type gatedReader struct{ r *strings.Reader }

func (g gatedReader) Read(b []byte) (int, error) {
	vs.Gate()
	return g.r.Read(b)
}

func (o *op) run(m *merge.Merger) {
	o.start = vs.Clock()
	switch {
	case o.bad:
		m.AddRules(badReader{}, false)
	case o.add != "":
		m.AddRules(gatedReader{strings.NewReader(o.add)}, false)
	default:
		o.out = m.Merge(o.in)
	}
	o.end = vs.Clock()
}

// preempts bounds the preemptions where three threads run.
func preempts(quick, thorough int) {
	if vs.Thorough() {
		quick = thorough
	}
	vs.Preempt(quick)
}

// threads runs lists of calls concurrently on m, then one more call of Merge for each class list, and
// checks the results of all.
func threads(m *merge.Merger, lists ...[]*op) {
	var ops []*op
	for _, l := range lists {
		ops = append(ops, l...)
	}
	for _, l := range lists {
		l := l
		vs.Go(func() {
			for _, o := range l {
				o.run(m)
			}
		})
	}
	vs.Wait()
	n := len(ops)
	for _, o := range ops[:n] {
		if o.add == "" && !o.bad {
			late := &op{in: o.in}
			late.run(m)
			ops = append(ops, late)
		}
	}
	check(ops)
}

// check has every result of Merge be that for the rules of some moment between its start and its end.
func check(ops []*op) {
	var adds []*op
	for _, o := range ops {
		if o.add != "" {
			adds = append(adds, o)
		}
	}
	for _, o := range ops {
		if o.add == "" && !o.bad {
			vs.Observe("out", o.out)
		}
	}
	// the sequences of sheets that have been added at some moment
	type state struct {
		seq []*op
		m   *merge.Merger // one the sheets were added to in this order
		res map[string]string
	}
	var states []state
	var grow func(seq []*op)
	grow = func(seq []*op) {
		states = append(states, state{append([]*op(nil), seq...), nil, map[string]string{}})
	next:
		for _, a := range adds {
			for _, b := range seq {
				if b == a {
					continue next
				}
			}
			// what ended before a started comes before it
			for _, b := range adds {
				if b.end < a.start {
					in := false
					for _, c := range seq {
						in = in || c == b
					}
					if !in {
						continue next
					}
				}
			}
			grow(append(seq, a))
		}
	}
	grow(nil)
	for _, o := range ops {
		if o.add != "" || o.bad {
			continue
		}
		ok := false
		for i := range states {
			s := &states[i]
			fits := true
			for _, a := range adds {
				in := false
				for _, c := range s.seq {
					in = in || c == a
				}
				if in && a.start > o.end || !in && a.end < o.start {
					fits = false
				}
			}
			if fits {
				e, known := s.res[o.in]
				if !known {
					if s.m == nil {
						s.m = plain[used]
						used++
						for _, a := range s.seq {
							s.m.AddRules(strings.NewReader(a.add), false)
						}
					}
					e = s.m.Merge(o.in)
					s.res[o.in] = e
				}
				ok = vs.Or(ok, vs.Eq(o.out, e))
			}
		}
		vs.Assert(ok, "Merge returns a result for none of the rules there were during the call")
	}
}

func mrg(in string) *op    { return &op{in: in} }
func add(sheet string) *op { return &op{add: sheet} }

// C01_add: a Merge next to an AddRules: every interleaving, any property name of one letter in the
// added rule, any class names in the list.
func C01_add() {
	s := ".b{" + vs.StrIn(1, "pqr") + ":3}"
	in := vs.StrIn(1, "abc") + " " + vs.StrIn(1, "abc")
	threads(direct, []*op{mrg(in)}, []*op{add(s)})
	vs.Reach("done")
}

// C01_twice: two calls of Merge, one after the other, next to an AddRules.
func C01_twice() {
	s := ".b{" + vs.StrIn(1, "pqr") + ":3}"
	threads(direct, []*op{mrg("a b"), mrg("a b")}, []*op{add(s)})
	vs.Reach("done")
}

// C01_merges: two calls of Merge, with the same or different class lists of any two classes, and an AddRules; at most three preemptions (thorough: five).
func C01_merges() {
	preempts(3, 5)
	x := vs.StrIn(1, "abc") + " " + vs.StrIn(1, "ab")
	y := "a b"
	threads(direct, []*op{mrg(x)}, []*op{mrg(y)}, []*op{add(".b{q:3}")})
	vs.Reach("done")
}

// C01_adds: a Merge and two calls of AddRules for any two of three classes, any property names of one letter; at most two preemptions (thorough: three).
func C01_adds() {
	s := "." + vs.StrIn(1, "ab") + "{" + vs.StrIn(1, "pq") + ":3}"
	t := "." + vs.StrIn(1, "ab") + "{" + vs.StrIn(1, "qr") + ":4}"
	preempts(2, 3)
	threads(direct, []*op{mrg("a b c")}, []*op{add(s)}, []*op{add(t)})
	vs.Reach("done")
}

// C01_crossed: two threads that each merge and add rules, in either order.
func C01_crossed() {
	s := ".b{" + vs.StrIn(1, "pq") + ":3}"
	u, v := []*op{mrg("a b"), add(s)}, []*op{mrg("a b"), add(".a{r:1}")}
	if vs.Choose(2) == 1 {
		u[0], u[1] = u[1], u[0]
	}
	if vs.Choose(2) == 1 {
		v[0], v[1] = v[1], v[0]
	}
	threads(direct, u, v)
	vs.Reach("done")
}

// C01_fails: a Merge, an AddRules whose reader fails and one that succeeds; at most three preemptions (thorough: five).
func C01_fails() {
	preempts(3, 5)
	s := ".b{" + vs.StrIn(1, "pqr") + ":3}"
	threads(direct, []*op{mrg("a b"), mrg("a b")}, []*op{{bad: true}}, []*op{add(s)})
	vs.Reach("done")
}

// C01_around: a Merger with a cache whose operations threads are preempted at, two calls of Merge and an AddRules; at most three preemptions (thorough: four).
func C01_around() {
	preempts(3, 4)
	s := ".b{" + vs.StrIn(1, "pqr") + ":3}"
	threads(shared, []*op{mrg("a b")}, []*op{mrg("a b")}, []*op{add(s)})
	vs.Reach("done")
}

// C01_uncached: a Merger without a cache, two calls of Merge and two of AddRules; at most three preemptions (thorough: five).
func C01_uncached() {
	preempts(3, 5)
	s := ".b{" + vs.StrIn(1, "pqr") + ":3}"
	threads(uncached, []*op{mrg("a b c")}, []*op{mrg("c b a")}, []*op{add(s), add(".a{r:1}")})
	vs.Reach("done")
}

const many = ".a{margin:1;border:2!important}.b{margin-top:1;border-color:3}.c{--v:1;--w:var(--v)}.d{font:var(--w)}" +
	".e:hover{p:1}.f:hover::before{p:2}@media (w){.g{p:1}.h:hover{margin:1}}.i>*{p:1}.j .k{p:2}.l:is(:hover){margin:1}"

// C01_features: two calls of Merge with any two of the classes of a style sheet with conditions, shorthands,
// custom properties and important declarations, next to one another or to the AddRules that adds the sheet; at most one preemption (thorough: two).
func C01_features() {
	in := "abcdefghijkl"
	preempts(1, 2)
	i, j := vs.Choose(len(in)), vs.Choose(len(in))
	x := in[i:i+1] + " " + in[j:j+1] + " d b"
	y := "a c " + in[j:j+1]
	if vs.Bool() {
		for _, m := range append([]*merge.Merger{direct}, plain...) {
			m.AddRules(strings.NewReader(many), false)
		}
		threads(direct, []*op{mrg(x)}, []*op{mrg(y)})
		return
	}
	threads(direct, []*op{mrg(x)}, []*op{add(many)})
	vs.Reach("done")
}

// C01_cache: a SimpleCache used by three threads: any keys of one letter, any data.
func C01_cache() {
	c := merge.NewCache()
	k1, k2 := vs.StrIn(1, "ab"), vs.StrIn(1, "ab")
	v1, v2 := vs.Bytes(1), vs.Bytes(1)
	var s1, s2, e1, e2, sg, eg, sc, ec int
	var got string
	var ok bool
	vs.Go(func() {
		s1 = vs.Clock()
		c.Set(k1, v1)
		e1 = vs.Clock()
		s2 = vs.Clock()
		c.Set(k2, v2)
		e2 = vs.Clock()
	})
	vs.Go(func() {
		sg = vs.Clock()
		got, ok = c.Get(k1)
		eg = vs.Clock()
	})
	vs.Go(func() {
		sc = vs.Clock()
		c.Clear()
		ec = vs.Clock()
	})
	vs.Wait()
	vs.Reach("done")
	if !ok {
		vs.Reach("absent")
		vs.Assert(sg < e1 || sc < eg && ec > s1, "an item that was set is absent")
	} else {
		vs.Reach("found")
		vs.Assert(vs.Or(vs.Eq(got, v1) && s1 < eg, vs.And(vs.Eq(k1, k2), vs.Eq(got, v2) && s2 < eg)), "an item has other data than was set")
		vs.Assert(!(e1 < sc && ec < sg) || vs.And(vs.Eq(k1, k2), ec > s2 || e2 > sc), "an item is there that was cleared")
	}
	late, ok := c.Get(k2)
	if ec < s2 {
		vs.Assert(ok && vs.Eq(late, v2), "an item that was set is absent")
	}
	if sc > e2 {
		vs.Assert(!ok, "an item is there that was cleared")
	}
}

// C01_hits: two threads that each call Merge twice, with class lists that may be in the cache before.
func C01_hits() {
	x := vs.StrIn(1, "abc") + " " + vs.StrIn(1, "ab")
	y := "a b"
	if vs.Choose(2) == 1 {
		direct.Merge(y)
	}
	threads(direct, []*op{mrg(x), mrg(y)}, []*op{mrg(y), mrg(x)})
	vs.Reach("done")
}

// C01_operations: a SimpleCache with or without an item, used by two threads with any two operations each:
// no data races.
func C01_operations() {
	c := merge.NewCache()
	k := vs.StrIn(1, "ab")
	if vs.Choose(2) == 1 {
		c.Set("a", "x")
	}
	for i := 0; i < 2; i++ {
		p, q := vs.Choose(3), vs.Choose(3)
		vs.Go(func() {
			for _, o := range []int{p, q} {
				switch o {
				case 0:
					c.Set(k, "y")
				case 1:
					c.Get(k)
				case 2:
					c.Clear()
				}
			}
		})
	}
	vs.Wait()
	vs.Reach("done")
}
