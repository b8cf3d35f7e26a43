package main

import "sort"

// replaceBytes is strings.Replacer's byte-wise replacement: one fork per symbolic byte, over
// the length of its replacement. rep gives the replacement of each byte value.
func (m *Machine) replaceBytes(s Value, rep func(b uint64) ([]Value, bool)) Value {
	var out []Value
	for i, n := 0, strLen(s); i < n; i++ {
		b := strAt(s, i)
		if b.X == nil {
			if r, ok := rep(b.N); ok {
				out = append(out, r...)
			} else {
				out = append(out, b)
			}
			continue
		}
		e := b.X.(*Expr)
		byLen := map[int]*ByteSet{}
		var lens []int
		var cols [256][]Value
		for v := uint64(0); v < 256; v++ {
			r, ok := rep(v)
			if !ok {
				r = []Value{{N: v}}
			}
			cols[v] = r
			if byLen[len(r)] == nil {
				byLen[len(r)] = &ByteSet{}
				lens = append(lens, len(r))
			}
			byLen[len(r)].add(v)
		}
		sort.Ints(lens)
		guards := make([]*Expr, len(lens))
		for j, l := range lens {
			guards[j] = m.setExpr(e, *byLen[l])
		}
		l := lens[0]
		if len(lens) > 1 {
			l = lens[m.fork(guards)]
		}
		for k := 0; k < l; k++ {
			// what differs from the byte itself, grouped
			r := e
			groups := map[uint64]*ByteSet{}
			var order []uint64
			for v := uint64(0); v < 256; v++ {
				if len(cols[v]) != l {
					continue
				}
				c := cols[v][k]
				if c.X != nil {
					m.fail("symbolic replacement")
				}
				if c.N == v {
					continue
				}
				if groups[c.N] == nil {
					groups[c.N] = &ByteSet{}
					order = append(order, c.N)
				}
				groups[c.N].add(v)
			}
			if len(order) == 1 && groups[order[0]].count() == byLen[l].count() {
				out = append(out, Value{N: order[0]})
				continue
			}
			for _, o := range order {
				r = m.x.op(OIte, 8, m.setExpr(e, *groups[o]), m.x.konst(o, 8), r)
			}
			out = append(out, mkVal(r))
		}
	}
	return bytesToStr(out)
}

// setExpr says that byte expression e is in s.
func (m *Machine) setExpr(e *Expr, s ByteSet) *Expr {
	if e.uv != nil {
		t := m.x.table(e)
		var s2 ByteSet
		for i := range t {
			if s.has(t[i]) {
				s2.add(uint64(i))
			}
		}
		return m.x.inSet(e.uv, s2)
	}
	r := m.x.false_
	for v := uint64(0); v < 256; v++ {
		if !s.has(v) {
			continue
		}
		hi := v
		for hi < 255 && s.has(hi+1) {
			hi++
		}
		c := m.x.op(OEq, 0, e, m.x.konst(v, 8), nil)
		if hi > v {
			c = m.x.and(m.x.not(m.x.op(OUlt, 0, e, m.x.konst(v, 8), nil)), m.x.not(m.x.op(OUlt, 0, m.x.konst(hi, 8), e, nil)))
		}
		r = m.x.or(r, c)
		v = hi
	}
	return r
}

func init() {
	intrinsics["(*strings.byteStringReplacer).Replace"] = func(m *Machine, fn *Fn, a []Value) Value {
		tab := slot(a[0]).X.(*Agg).f[0].X.(*Agg).f
		return m.replaceBytes(a[1], func(b uint64) ([]Value, bool) {
			if tab[b].X == nil {
				return nil, false
			}
			return sliceCells(tab[b]), true
		})
	}
	intrinsics["(*strings.byteReplacer).Replace"] = func(m *Machine, fn *Fn, a []Value) Value {
		tab := slot(a[0]).X.(*Agg).f
		return m.replaceBytes(a[1], func(b uint64) ([]Value, bool) { return tab[b : b+1], true })
	}
}
