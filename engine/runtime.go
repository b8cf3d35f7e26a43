package main

import (
	"unicode/utf8"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- maps ----

func (m *Machine) keyEq(t *TI, a, b Value) Value {
	m.spec++ // equality does not fork
	defer func() { m.spec-- }()
	return m.equal(t, a, b)
}

// mapFind gives the index of the entry with the key, or -1; it forks if that depends on symbolic values.
func (m *Machine) mapFind(mv *MapV, kt *TI, k Value) int {
	ck, conc := kt.mapKey(k)
	if conc {
		if i, ok := mv.idx[ck]; ok {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
	}
	var cand []int
	var eqs []*Expr
	consider := func(i int) bool {
		e := mv.ents[i]
		if e.dead {
			return false
		}
		r := m.keyEq(kt, e.k, k)
		if r.X == nil {
			if r.N == 1 {
				cand, eqs = []int{i}, []*Expr{m.x.true_}
				return true
			}
			return false
		}
		x := r.X.(*Expr)
		switch m.quick(x) {
		case 0:
			return false
		case 2:
			cand, eqs = []int{i}, []*Expr{m.x.true_}
			return true
		}
		cand = append(cand, i)
		eqs = append(eqs, x)
		return false
	}
	for i := range mv.ents {
		if conc && mv.nsym < len(mv.ents) {
			// concrete entries were looked up above
			if _, c := kt.mapKey(mv.ents[i].k); c {
				continue
			}
		}
		if consider(i) {
			return i
		}
	}
	if len(cand) == 0 {
		return -1
	}
	any := m.x.false_
	for _, e := range eqs {
		any = m.x.or(any, e)
	}
	if !m.branch(any) {
		return -1
	}
	// the keys of a map differ, so the equalities exclude each other
	if len(cand) == 1 {
		return cand[0]
	}
	return cand[m.fork(eqs)]
}

func (m *Machine) mapSet(mv *MapV, kt *TI, k, v Value) {
	i := m.mapFind(mv, kt, k)
	m.touchMap(mv)
	if i >= 0 {
		mv.ents[i].v = v
		return
	}
	ck, conc := kt.mapKey(k)
	if conc {
		mv.idx[ck] = len(mv.ents)
	} else {
		mv.nsym++
	}
	mv.ents = append(mv.ents, mapEnt{k: k, v: v})
	mv.live++
}

func (m *Machine) cloneMap(mv *MapV, kt *TI) *MapV {
	m.accessMap(mv, false)
	c := newMap(m.epoch)
	for _, e := range mv.ents {
		if e.dead {
			continue
		}
		if ck, conc := kt.mapKey(e.k); conc {
			c.idx[ck] = len(c.ents)
		} else {
			c.nsym++
		}
		c.ents = append(c.ents, mapEnt{k: copyVal(e.k), v: copyVal(e.v)})
		c.live++
	}
	return c
}

func (m *Machine) mapDelete(mv *MapV, kt *TI, k Value) {
	i := m.mapFind(mv, kt, k)
	if i < 0 {
		return
	}
	m.touchMap(mv)
	if ck, conc := kt.mapKey(mv.ents[i].k); conc {
		delete(mv.idx, ck)
	} else {
		mv.nsym--
	}
	mv.ents[i].dead = true
	mv.live--
}

func (m *Machine) accessMap(mv *MapV, write bool) {
	if m.goState != nil {
		m.goState.accessObj(m, mv, write)
	}
}

func (c *compiler) lookup(in *ssa.Lookup, dst int) Instr {
	x, k := c.op(in.X), c.op(in.Index)
	xt := tiOf(in.X.Type())
	if xt.kind == KString {
		return c.indexValue(x, k, xt, tiOf(in.Index.Type()), dst)
	}
	kt, et := xt.key, xt.elem
	commaOk := in.CommaOk
	exec := func(m *Machine, fr *Frame) {
		mv, _ := x.get(m, fr).X.(*MapV)
		i := -1
		if mv != nil {
			m.accessMap(mv, false)
			i = m.mapFind(mv, kt, k.get(m, fr))
		}
		var v Value
		if i >= 0 {
			v = copyVal(mv.ents[i].v)
		} else {
			v = zero(et)
		}
		if commaOk {
			v = Value{X: &Tuple{[]Value{v, {N: b2u(i >= 0)}}}}
		}
		fr.regs[dst] = v
	}
	return Instr{exec: exec}
}

// ---- iteration ----

type Iter struct {
	str     Value
	pos     int
	mv      *MapV
	kt      *TI
	order   []int
	shuffle bool
}

func (m *Machine) newIter(t *TI, v Value, inMod bool) *Iter {
	if t.kind == KString {
		return &Iter{str: v}
	}
	it := &Iter{kt: t.key}
	if mv, ok := v.X.(*MapV); ok {
		m.accessMap(mv, false)
		it.mv = mv
		for i := range mv.ents {
			if !mv.ents[i].dead {
				it.order = append(it.order, i)
			}
		}
		it.shuffle = m.mapOrder && inMod
		if n := len(it.order); it.shuffle && n > 4 {
			// larger maps: every rotation of the insertion order and of its reverse
			it.shuffle = false
			k := m.choose(2 * n)
			o := make([]int, n)
			for i := range o {
				if k < n {
					o[i] = it.order[(i+k)%n]
				} else {
					o[i] = it.order[(2*n-1-i+k)%n]
				}
			}
			it.order = o
		}
	}
	return it
}

func (it *Iter) next(m *Machine, isStr bool) Value {
	if isStr {
		n := strLen(it.str)
		if it.pos >= n {
			return Value{X: &Tuple{[]Value{{}, {}, {}}}}
		}
		p := it.pos
		r, size := m.decodeRune(it.str, p)
		it.pos += size
		return Value{X: &Tuple{[]Value{{N: 1}, {N: uint64(p)}, r}}}
	}
	for it.pos < len(it.order) {
		if it.shuffle {
			// skip dead entries first so that they are not choices
			k := it.pos
			for j := it.pos; j < len(it.order); j++ {
				if !it.mv.ents[it.order[j]].dead {
					it.order[k] = it.order[j]
					k++
				}
			}
			it.order = it.order[:k]
			if it.pos >= len(it.order) {
				break
			}
			j := it.pos + m.choose(len(it.order)-it.pos)
			o := it.order[j]
			copy(it.order[it.pos+1:j+1], it.order[it.pos:j])
			it.order[it.pos] = o
		}
		if it.mv != nil && m.goState != nil {
			m.accessMap(it.mv, false)
		}
		if it.order[it.pos] >= len(it.mv.ents) {
			break // the map was cleared
		}
		e := it.mv.ents[it.order[it.pos]]
		it.pos++
		if e.dead {
			continue
		}
		return Value{X: &Tuple{[]Value{{N: 1}, e.k, copyVal(e.v)}}}
	}
	return Value{X: &Tuple{[]Value{{}, {}, {}}}}
}

// ---- runes ----

// decodeRune decodes the rune at position p of the string.
func (m *Machine) decodeRune(s Value, p int) (Value, int) {
	b := strAt(s, p)
	if b.X == nil && b.N < 0x80 {
		return Value{N: b.N}, 1
	}
	x := m.x
	n := strLen(s) - p
	var e [4]*Expr
	conc := true
	for i := 0; i < n && i < 4; i++ {
		v := strAt(s, p+i)
		e[i] = m.expr(v, 8)
		conc = conc && v.X == nil
	}
	if conc {
		var buf [4]byte
		k := 0
		for ; k < n && k < 4; k++ {
			buf[k] = byte(strAt(s, p+k).N)
		}
		r, size := utf8.DecodeRune(buf[:k])
		return Value{N: uint64(uint32(r))}, size
	}
	in := func(i int, lo, hi uint64) *Expr {
		return x.and(x.not(x.op(OUlt, 0, e[i], x.konst(lo, 8), nil)), x.not(x.op(OUlt, 0, x.konst(hi, 8), e[i], nil)))
	}
	// one fork over the length of the encoding; an invalid one has length 1
	guards := []*Expr{in(0, 0, 0x7f)}
	bad := x.not(guards[0])
	add := func(g *Expr) {
		guards = append(guards, g)
		bad = x.and(bad, x.not(g))
	}
	if n >= 2 {
		add(x.and(in(0, 0xC2, 0xDF), in(1, 0x80, 0xBF)))
	}
	if n >= 3 {
		g := x.or(x.and(in(0, 0xE0, 0xE0), in(1, 0xA0, 0xBF)), x.and(in(0, 0xED, 0xED), in(1, 0x80, 0x9F)))
		g = x.or(g, x.and(x.or(in(0, 0xE1, 0xEC), in(0, 0xEE, 0xEF)), in(1, 0x80, 0xBF)))
		add(x.and(g, in(2, 0x80, 0xBF)))
	}
	if n >= 4 {
		g := x.or(x.and(in(0, 0xF0, 0xF0), in(1, 0x90, 0xBF)), x.and(in(0, 0xF4, 0xF4), in(1, 0x80, 0x8F)))
		g = x.or(g, x.and(in(0, 0xF1, 0xF3), in(1, 0x80, 0xBF)))
		add(x.and(g, x.and(in(2, 0x80, 0xBF), in(3, 0x80, 0xBF))))
	}
	guards = append(guards, bad)
	k := m.fork(guards)
	if k == len(guards)-1 {
		return Value{N: utf8.RuneError}, 1
	}
	part := func(i int, mask uint64, sh uint64) *Expr {
		v := x.op(OZExt, 32, x.op(OAnd, 8, e[i], x.konst(mask, 8), nil), nil, nil)
		if sh == 0 {
			return v
		}
		return x.op(OShl, 32, v, x.konst(sh, 32), nil)
	}
	or := func(a ...*Expr) Value {
		r := a[0]
		for _, b := range a[1:] {
			r = x.op(OOr, 32, r, b, nil)
		}
		return mkVal(r)
	}
	switch k {
	case 0:
		return mkVal(x.op(OZExt, 32, e[0], nil, nil)), 1
	case 1:
		return or(part(0, 0x1F, 6), part(1, 0x3F, 0)), 2
	case 2:
		return or(part(0, 0x0F, 12), part(1, 0x3F, 6), part(2, 0x3F, 0)), 3
	}
	return or(part(0, 0x07, 18), part(1, 0x3F, 12), part(2, 0x3F, 6), part(3, 0x3F, 0)), 4
}

func (m *Machine) runeToStr(v Value, t *TI) Value {
	e, ok := v.X.(*Expr)
	if !ok {
		n := int64(v.N)
		if t.signed {
			n = sext(v.N, t.w)
		}
		if n < 0 || n > 0x10FFFF {
			n = 0xFFFD
		}
		return mkStr(string(rune(n)))
	}
	x := m.x
	lt := func(k uint64) bool {
		if k > mask(t.w) {
			return true
		}
		return m.branch(x.op(OUlt, 0, e, x.konst(k, t.w), nil))
	}
	by := func(sh uint64, or, and uint64) Value {
		s := x.op(OLShr, t.w, e, x.konst(sh, t.w), nil)
		s = x.op(OAnd, t.w, s, x.konst(and, t.w), nil)
		s = x.op(OOr, t.w, s, x.konst(or, t.w), nil)
		return mkVal(m.resize(s, 8, false))
	}
	switch {
	case lt(0x80):
		return bytesToStr([]Value{mkVal(m.resize(e, 8, false))})
	case lt(0x800):
		return bytesToStr([]Value{by(6, 0xC0, 0x1F), by(0, 0x80, 0x3F)})
	case lt(0xD800):
	case lt(0xE000):
		return mkStr("\uFFFD")
	case lt(0x10000):
	case lt(0x110000):
		return bytesToStr([]Value{by(18, 0xF0, 0x07), by(12, 0x80, 0x3F), by(6, 0x80, 0x3F), by(0, 0x80, 0x3F)})
	default:
		return mkStr("\uFFFD")
	}
	return bytesToStr([]Value{by(12, 0xE0, 0x0F), by(6, 0x80, 0x3F), by(0, 0x80, 0x3F)})
}

// ---- methods ----

type methKey struct {
	t *TI
	f *types.Func
}

func (p *Program) method(t *TI, f *types.Func) *Closure {
	p.methMu.RLock()
	c := p.methods[methKey{t, f}]
	p.methMu.RUnlock()
	if c != nil {
		return c
	}
	fn := p.Prog.LookupMethod(t.t, f.Pkg(), f.Name())
	if fn == nil {
		panic(&pathEnd{"unsupported", "no method " + f.Name() + " on " + t.String()})
	}
	c = p.closureOf(fn)
	p.methMu.Lock()
	p.methods[methKey{t, f}] = c
	p.methMu.Unlock()
	return c
}

// methodByName finds a method of the dynamic type, or nil.
func (p *Program) methodByName(t *TI, name string) *Closure {
	k := nameKey{t, name}
	p.methMu.RLock()
	c, ok := p.byName[k]
	p.methMu.RUnlock()
	if ok {
		return c
	}
	ms := p.Prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if fn := p.Prog.MethodValue(ms.At(i)); fn != nil {
				c = p.closureOf(fn)
			}
		}
	}
	p.methMu.Lock()
	p.byName[k] = c
	p.methMu.Unlock()
	return c
}

type nameKey struct {
	t    *TI
	name string
}

type implKey struct{ t, i *TI }

func (p *Program) implements(t, i *TI) bool {
	p.methMu.RLock()
	r, ok := p.impl[implKey{t, i}]
	p.methMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t.t, i.t.Underlying().(*types.Interface))
	p.methMu.Lock()
	p.impl[implKey{t, i}] = r
	p.methMu.Unlock()
	return r
}
