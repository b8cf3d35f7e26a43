package main

import (
	"go/types"
	"unicode/utf8"

	"fmt"
	"math"
	"strconv"
	"strings"
)

type intrinsic = func(m *Machine, fn *Fn, a []Value) Value

var intrinsics map[string]intrinsic
var pureIntrinsics = map[string]bool{}

func nop(m *Machine, fn *Fn, a []Value) Value { return zeroResult(fn) }

func ident(m *Machine, fn *Fn, a []Value) Value { return a[0] }

func mkInt(n int) Value { return Value{N: uint64(n)} }

func mkBool(b bool) Value { return Value{N: b2u(b)} }

func tuple(vs ...Value) Value { return Value{X: &Tuple{vs}} }

func strOrCells(v Value) []Value {
	if s, ok := v.X.(*SliceV); ok {
		return s.a
	}
	return strBytes(v)
}

// firstMatch forks over the position at which cond first (or last) holds; -1 if nowhere.
func (m *Machine) firstMatch(n int, cond func(i int) Value, last bool) int {
	var guards []*Expr
	var pos []int
	none := m.x.true_
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		c := cond(i)
		if c.X == nil {
			if c.N == 0 {
				continue
			}
			guards = append(guards, none)
			pos = append(pos, i)
			none = m.x.false_
			break
		}
		e := c.X.(*Expr)
		switch m.quick(e) {
		case 0:
			continue
		case 2:
			e = m.x.true_
		}
		guards = append(guards, m.x.and(none, e))
		pos = append(pos, i)
		none = m.x.and(none, m.x.not(e))
		if e.op == OConst {
			break
		}
	}
	if none != m.x.false_ {
		guards = append(guards, none)
		pos = append(pos, -1)
	}
	if len(guards) == 1 {
		return pos[0]
	}
	return pos[m.fork(guards)]
}

func (m *Machine) indexByte(s []Value, b Value, last bool) int {
	return m.firstMatch(len(s), func(i int) Value { return m.eqCell(s[i], b, 8) }, last)
}

func (m *Machine) indexStr(s, t []Value, last bool) int {
	if len(t) > len(s) {
		return -1
	}
	return m.firstMatch(len(s)-len(t)+1, func(i int) Value { return m.cellsEq(s[i:i+len(t)], t) }, last)
}

func (m *Machine) countByte(s []Value, b Value) Value {
	r := m.x.konst(0, 64)
	for i := range s {
		c := m.eqCell(s[i], b, 8)
		if c.X == nil {
			r = m.x.op(OAdd, 64, r, m.x.konst(c.N, 64), nil)
		} else {
			r = m.x.op(OAdd, 64, r, m.x.op(OIte, 64, c.X.(*Expr), m.x.konst(1, 64), m.x.konst(0, 64)), nil)
		}
	}
	return mkVal(r)
}

func (m *Machine) compareCells(a, b []Value) Value {
	x, y := bytesToStr(append([]Value(nil), a...)), bytesToStr(append([]Value(nil), b...))
	lt, gt := m.strLess(x, y), m.strLess(y, x)
	if lt.X == nil && gt.X == nil {
		return Value{N: (gt.N - lt.N)}
	}
	one, zero, neg := m.x.konst(1, 64), m.x.konst(0, 64), m.x.konst(^uint64(0), 64)
	return mkVal(m.x.op(OIte, 64, m.expr(lt, 0), neg, m.x.op(OIte, 64, m.expr(gt, 0), one, zero)))
}

// itoa renders a possibly symbolic integer in decimal.
func (m *Machine) itoa(v Value, t *TI) Value {
	if v.X == nil {
		if t.signed {
			return mkStr(strconv.FormatInt(sext(v.N, t.w), 10))
		}
		return mkStr(strconv.FormatUint(v.N, 10))
	}
	e := v.X.(*Expr)
	w := t.w
	x := m.x
	neg := false
	if t.signed && m.branch(x.op(OSlt, 0, e, x.konst(0, w), nil)) {
		neg = true
		e = x.op(ONeg, w, e, nil, nil)
	}
	pow := uint64(10)
	n := 1
	for ; n < 20; n++ {
		if pow > mask(w) || m.branch(x.op(OUlt, 0, e, x.konst(pow, w), nil)) {
			break
		}
		if pow > math.MaxUint64/10 {
			n++
			break
		}
		pow *= 10
	}
	var out []Value
	if neg {
		out = append(out, Value{N: '-'})
	}
	p := uint64(1)
	for i := 1; i < n; i++ {
		p *= 10
	}
	for i := 0; i < n; i++ {
		d := x.op(OURem, w, x.op(OUDiv, w, e, x.konst(p, w), nil), x.konst(10, w), nil)
		out = append(out, mkVal(m.resize(x.op(OAdd, w, d, x.konst('0', w), nil), 8, false)))
		p /= 10
	}
	return bytesToStr(out)
}

func (m *Machine) errorValue(msg Value) Value {
	p := &Value{X: &Agg{f: []Value{msg}}}
	return Value{X: &Iface{m.P.tErrorString, Value{X: p}}}
}

// format implements the fmt verbs the code uses.
func (m *Machine) format(f string, args []Value) Value {
	out := Value{}
	lit := func(s string) { out = strConcat(out, mkStr(s)) }
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			lit(f[i : i+j])
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		flags, verb := f[i+1:j], f[j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		v := args[ai]
		ai++
		out = strConcat(out, m.formatArg(verb, flags, v))
	}
	if ai < len(args) {
		m.fail("extra arguments to a format")
	}
	return out
}

func (m *Machine) formatArg(verb byte, flags string, v Value) Value {
	iv, ok := v.X.(*Iface)
	if !ok {
		if verb == 's' {
			return mkStr("%!s(<nil>)")
		}
		return mkStr("<nil>")
	}
	if verb == 'T' {
		return mkStr(strings.ReplaceAll(iv.t.String(), m.P.Module+"/", ""))
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, meth := range []string{"Error", "String"} {
			if c := m.P.methodByName(iv.t, meth); c != nil && c.fn.sig.Params().Len() == 0 && c.fn.sig.Results().Len() == 1 {
				if m.lossy && meth == "String" {
					return mkStr("<?>")
				}
				s := m.callFn(c.fn, []Value{iv.v}, nil)
				if verb == 'q' && !(m.lossy && !isConcStr(s)) {
					return m.callFn(m.P.quoteFn, []Value{s}, nil)
				}
				return s
			}
		}
	}
	return m.formatVal(verb, flags, iv.t, iv.v)
}

func (m *Machine) formatVal(verb byte, flags string, t *TI, v Value) Value {
	if verb == 'w' {
		verb = 'v'
	}
	if m.lossy && v.X != nil {
		// the text of errors built from arbitrary values is only approximated
		if t.kind == KInt {
			return mkStr("?")
		}
		if t.kind == KString && !isConcStr(v) {
			return v
		}
	}
	switch t.kind {
	case KString:
		switch verb {
		case 's', 'v':
			if flags == "" || flags == "+" {
				return v
			}
		case 'q':
			return m.callFn(m.P.quoteFn, []Value{v}, nil)
		}
		if s, ok := concStr(v); ok {
			return mkStr(fmt.Sprintf("%"+flags+string(verb), s))
		}
	case KInt:
		if v.X == nil {
			if t.signed {
				return mkStr(fmt.Sprintf("%"+flags+string(verb), sext(v.N, t.w)))
			}
			return mkStr(fmt.Sprintf("%"+flags+string(verb), v.N))
		}
		switch verb {
		case 'd', 'v':
			s := m.itoa(v, t)
			if flags == "+" && verb == 'd' {
				if b := strAt(s, 0); b.X != nil || b.N != '-' {
					return strConcat(mkStr("+"), s)
				}
				return s
			}
			if flags == "" {
				return s
			}
		case 'c':
			return m.runeToStr(v, t)
		case 'x', 'X':
			if flags == "" {
				return m.hex(v, t, verb == 'X')
			}
		}
	case KBool:
		return mkStr(strconv.FormatBool(m.truth(v)))
	case KSlice:
		if verb == 's' && t.elem.w == 8 {
			return cellsToStr(sliceCells(v))
		}
		if verb == 'v' || verb == 's' || verb == 'd' {
			out := mkStr("[")
			for i, c := range sliceCells(v) {
				if i > 0 {
					out = strConcat(out, mkStr(" "))
				}
				if t.elem.kind == KIface {
					out = strConcat(out, m.formatArg(verb, flags, c))
				} else {
					out = strConcat(out, m.formatArg(verb, flags, Value{X: &Iface{t.elem, c}}))
				}
			}
			return strConcat(out, mkStr("]"))
		}
	case KStruct:
		if st, ok := t.t.Underlying().(*types.Struct); ok && (verb == 'v' || verb == 's' || verb == 'd') && (flags == "" || flags == "+") {
			out := mkStr("{")
			for i, c := range v.X.(*Agg).f {
				if i > 0 {
					out = strConcat(out, mkStr(" "))
				}
				if flags == "+" {
					out = strConcat(out, mkStr(st.Field(i).Name()+":"))
				}
				f := Value{X: &Iface{t.fields[i], c}}
				if t.fields[i].kind == KIface {
					f = c
				}
				if iv, ok := f.X.(*Iface); ok && !st.Field(i).Exported() {
					out = strConcat(out, m.formatVal(verb, flags, iv.t, iv.v)) // without their methods
				} else {
					out = strConcat(out, m.formatArg(verb, flags, f))
				}
			}
			return strConcat(out, mkStr("}"))
		}
	case KIface:
		return m.formatArg(verb, flags, v)
	case KFloat:
		return mkStr(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.N)))
	}
	m.fail("format %%%s%c of %s", flags, verb, t)
	return Value{}
}

func (m *Machine) hex(v Value, t *TI, upper bool) Value {
	e := v.X.(*Expr)
	if t.signed && m.branch(m.x.op(OSlt, 0, e, m.x.konst(0, t.w), nil)) {
		m.fail("negative hex")
	}
	n := 1
	for n*4 < int(t.w) && !m.branch(m.x.op(OUlt, 0, e, m.x.konst(1<<(4*n), t.w), nil)) {
		n++
	}
	a := uint64('a')
	if upper {
		a = 'A'
	}
	var out []Value
	for i := n - 1; i >= 0; i-- {
		d := m.x.op(OAnd, t.w, m.x.op(OLShr, t.w, e, m.x.konst(uint64(4*i), t.w), nil), m.x.konst(15, t.w), nil)
		d = m.resize(d, 8, false)
		c := m.x.op(OIte, 8, m.x.op(OUlt, 0, d, m.x.konst(10, 8), nil), m.x.op(OAdd, 8, d, m.x.konst('0', 8), nil), m.x.op(OAdd, 8, d, m.x.konst(a-10, 8), nil))
		out = append(out, mkVal(c))
	}
	return bytesToStr(out)
}

func (m *Machine) fmtString(v Value) string {
	s, ok := concStr(v)
	if !ok {
		m.fail("symbolic format string")
	}
	return s
}

func (m *Machine) deepEqual(t *TI, a, b Value, depth int) Value {
	if depth > 2000 {
		m.fail("deep equal depth")
	}
	switch t.kind {
	case KIface:
		x, ok1 := a.X.(*Iface)
		y, ok2 := b.X.(*Iface)
		if !ok1 || !ok2 {
			return mkBool(ok1 == ok2)
		}
		if x.t != y.t {
			return Value{}
		}
		return m.deepEqual(x.t, x.v, y.v, depth+1)
	case KPtr:
		p, _ := a.X.(*Value)
		q, _ := b.X.(*Value)
		if p == q {
			return mkBool(true)
		}
		if p == nil || q == nil {
			return Value{}
		}
		return m.deepEqual(t.elem, *p, *q, depth+1)
	case KStruct, KArray:
		r := mkBool(true)
		x, y := a.X.(*Agg), b.X.(*Agg)
		for i := range x.f {
			et := t.elem
			if t.kind == KStruct {
				et = t.fields[i]
			}
			r = m.andV(r, m.deepEqual(et, x.f[i], y.f[i], depth+1))
		}
		return r
	case KSlice:
		if (a.X == nil) != (b.X == nil) {
			return Value{}
		}
		x, y := sliceCells(a), sliceCells(b)
		if len(x) != len(y) {
			return Value{}
		}
		r := mkBool(true)
		for i := range x {
			r = m.andV(r, m.deepEqual(t.elem, x[i], y[i], depth+1))
		}
		return r
	case KMap:
		x, _ := a.X.(*MapV)
		y, _ := b.X.(*MapV)
		if x == nil || y == nil {
			return mkBool(x == y)
		}
		if x.live != y.live {
			return Value{}
		}
		r := mkBool(true)
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			i := m.mapFind(y, t.key, e.k)
			if i < 0 {
				return Value{}
			}
			r = m.andV(r, m.deepEqual(t.elem, e.v, y.ents[i].v, depth+1))
		}
		return r
	case KFunc:
		return mkBool(a.X == nil && b.X == nil)
	}
	return m.equal(t, a, b)
}

func (m *Machine) byteSetOf(v Value) ByteSet {
	s, ok := concStr(v)
	if !ok {
		m.fail("symbolic byte set")
	}
	var set ByteSet
	for i := 0; i < len(s); i++ {
		set.add(uint64(s[i]))
	}
	return set
}

func (m *Machine) freshByte(set ByteSet) Value {
	v := m.newVar("byte", 8)
	e := v.X.(*Expr)
	if set.empty() {
		panic(&pathEnd{"assume", ""})
	}
	if !set.full() {
		m.dom[e.val] = set
		if !set.has(m.model[e.val]) {
			m.model = append([]uint64(nil), m.model...)
			m.model[e.val] = set.min()
		}
		if set.count() == 1 {
			return Value{N: set.min()}
		}
	}
	return v
}

func slot(v Value) *Value { return v.X.(*Value) }

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	pure := func(name string, f intrinsic) {
		I[name] = f
		pureIntrinsics[name] = true
	}

	// ---- harness interface ----
	I["vs.Byte"] = func(m *Machine, fn *Fn, a []Value) Value { return m.freshByte(fullSet) }
	I["vs.ByteIn"] = func(m *Machine, fn *Fn, a []Value) Value { return m.freshByte(m.byteSetOf(a[0])) }
	I["vs.Bytes"] = func(m *Machine, fn *Fn, a []Value) Value {
		n := int(m.concretize(a[0], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = m.freshByte(fullSet)
		}
		return bytesToStr(b)
	}
	I["vs.StrIn"] = func(m *Machine, fn *Fn, a []Value) Value {
		n := int(m.concretize(a[0], 64))
		set := m.byteSetOf(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = m.freshByte(set)
		}
		return bytesToStr(b)
	}
	I["vs.Bool"] = func(m *Machine, fn *Fn, a []Value) Value { return m.newVar("bool", 0) }
	I["vs.Int"] = func(m *Machine, fn *Fn, a []Value) Value {
		v := m.newVar("int", 64)
		e := v.X.(*Expr)
		m.assume(m.andV(mkVal(m.x.op(OSle, 0, m.expr(a[0], 64), e, nil)), mkVal(m.x.op(OSle, 0, e, m.expr(a[1], 64), nil))))
		return v
	}
	I["vs.Choose"] = func(m *Machine, fn *Fn, a []Value) Value {
		n := int(m.concretize(a[0], 64))
		k := m.choose(n)
		m.inputs = append(m.inputs, Input{Kind: "choose", W: 64, N: uint64(k)})
		return mkInt(k)
	}
	I["vs.Concrete"] = func(m *Machine, fn *Fn, a []Value) Value { return Value{N: m.concretize(a[0], 64)} }
	I["vs.Assume"] = func(m *Machine, fn *Fn, a []Value) Value { m.assume(a[0]); return Value{} }
	I["vs.Assert"] = func(m *Machine, fn *Fn, a []Value) Value {
		msg, ok := concStr(a[1])
		if !ok {
			msg = "(symbolic message)"
		}
		m.assert(a[0], msg)
		return Value{}
	}
	I["vs.Reach"] = func(m *Machine, fn *Fn, a []Value) Value {
		s, _ := concStr(a[0])
		m.reached[s] = true
		return Value{}
	}
	I["vs.Observe"] = func(m *Machine, fn *Fn, a []Value) Value {
		s, _ := concStr(a[0])
		o := Observation{label: s}
		if i, ok := a[1].X.(*Iface); ok {
			o.vals, o.tis = []Value{i.v}, []*TI{i.t}
		}
		m.obs = append(m.obs, o)
		return Value{}
	}
	I["vs.Go"] = func(m *Machine, fn *Fn, a []Value) Value { m.goStart(a[0], nil); return Value{} }
	I["vs.Wait"] = func(m *Machine, fn *Fn, a []Value) Value { m.goWait(); return Value{} }
	I["vs.Preempt"] = func(m *Machine, fn *Fn, a []Value) Value {
		if m.goState == nil {
			m.startSched()
		}
		m.goState.bound = int(int64(a[0].N))
		return Value{}
	}
	I["vs.Gate"] = func(m *Machine, fn *Fn, a []Value) Value { m.yield(); return Value{} }
	I["vs.Clock"] = func(m *Machine, fn *Fn, a []Value) Value {
		if m.goState == nil {
			m.startSched()
		}
		m.goState.clock++
		return mkInt(m.goState.clock)
	}
	I["vs.MapOrder"] = func(m *Machine, fn *Fn, a []Value) Value { m.mapOrder = a[0].N != 0; return Value{} }
	I["vs.Long"] = func(m *Machine, fn *Fn, a []Value) Value { m.budget *= 100; return Value{} }
	I["vs.Thorough"] = func(m *Machine, fn *Fn, a []Value) Value { return mkBool(m.P.Thorough) }
	I["vs.Native"] = func(m *Machine, fn *Fn, a []Value) Value { return mkBool(false) }
	// And, Or, Not, Ite: logic without control flow
	pure("vs.And", func(m *Machine, fn *Fn, a []Value) Value { return m.andV(a[0], a[1]) })
	pure("vs.Or", func(m *Machine, fn *Fn, a []Value) Value { return m.orV(a[0], a[1]) })
	pure("vs.Implies", func(m *Machine, fn *Fn, a []Value) Value { return m.orV(m.notV(a[0]), a[1]) })
	pure("vs.In", func(m *Machine, fn *Fn, a []Value) Value {
		set := m.byteSetOf(a[1])
		if a[0].X == nil {
			return mkBool(set.has(a[0].N))
		}
		e := m.expr(a[0], 8)
		if e.op == OVar {
			return mkVal(m.x.inSet(e, set))
		}
		if e.uv != nil {
			t := m.x.table(e)
			var s2 ByteSet
			for i := range t {
				if set.has(t[i]) {
					s2.add(uint64(i))
				}
			}
			return mkVal(m.x.inSet(e.uv, s2))
		}
		r := Value{}
		for i := uint64(0); i < 256; i++ {
			if set.has(i) {
				r = m.orV(r, mkVal(m.x.op(OEq, 0, e, m.x.konst(i, 8), nil)))
			}
		}
		return r
	})
	pure("vs.Eq", func(m *Machine, fn *Fn, a []Value) Value { return m.strEq(a[0], a[1]) })

	// ---- internal/bytealg, strings, bytes ----
	for _, n := range []string{"internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: uint64(m.indexByte(strOrCells(a[0]), a[1], false))}
		}
	}
	for _, n := range []string{"internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: uint64(m.indexByte(strOrCells(a[0]), a[1], true))}
		}
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: uint64(m.indexStr(strOrCells(a[0]), strOrCells(a[1]), false))}
		}
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: uint64(m.indexStr(strOrCells(a[0]), strOrCells(a[1]), true))}
		}
	}
	contains := func(m *Machine, s, t []Value) Value {
		r := mkBool(false)
		for i := 0; i+len(t) <= len(s); i++ {
			r = m.orV(r, m.cellsEq(s[i:i+len(t)], t))
		}
		return r
	}
	for _, n := range []string{"strings.Contains", "bytes.Contains"} {
		pure(n, func(m *Machine, fn *Fn, a []Value) Value { return contains(m, strOrCells(a[0]), strOrCells(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		pure(n, func(m *Machine, fn *Fn, a []Value) Value { return m.countByte(strOrCells(a[0]), a[1]) })
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		pure(n, func(m *Machine, fn *Fn, a []Value) Value { return m.cellsEq(strOrCells(a[0]), strOrCells(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		pure(n, func(m *Machine, fn *Fn, a []Value) Value { return m.compareCells(strOrCells(a[0]), strOrCells(a[1])) })
	}
	for _, n := range []string{"strings.HasPrefix", "bytes.HasPrefix", "internal/stringslite.HasPrefix"} {
		pure(n, func(m *Machine, fn *Fn, a []Value) Value {
			s, t := strOrCells(a[0]), strOrCells(a[1])
			if len(s) < len(t) {
				return Value{}
			}
			return m.cellsEq(s[:len(t)], t)
		})
	}
	for _, n := range []string{"strings.HasSuffix", "bytes.HasSuffix", "internal/stringslite.HasSuffix"} {
		pure(n, func(m *Machine, fn *Fn, a []Value) Value {
			s, t := strOrCells(a[0]), strOrCells(a[1])
			if len(s) < len(t) {
				return Value{}
			}
			return m.cellsEq(s[len(s)-len(t):], t)
		})
	}
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fn *Fn, a []Value) Value {
		n := int(m.concretize(a[0], 64))
		return Value{X: &SliceV{make([]Value, n)}}
	}
	pure("internal/abi.NoEscape", ident)
	pure("strings.noescape", ident)
	pure("internal/abi.Escape", ident)
	I["(*strings.Builder).copyCheck"] = nop
	I["strings.Clone"] = ident
	I["internal/stringslite.Clone"] = ident

	for _, n := range []string{"unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			s := a[0]
			if n == "unicode/utf8.DecodeRune" {
				c := sliceCells(s)
				if len(c) > 4 {
					c = c[:4]
				}
				s = bytesToStr(append([]Value(nil), c...))
			}
			if strLen(s) == 0 {
				return tuple(Value{N: utf8.RuneError}, Value{})
			}
			r, k := m.decodeRune(s, 0)
			return tuple(r, Value{N: uint64(k)})
		}
	}
	// the line, column and excerpt of a syntax error, which only go into its text
	I["github.com/tdewolff/parse/v2.Position"] = func(m *Machine, fn *Fn, a []Value) Value {
		return tuple(Value{N: 1}, Value{N: 1}, mkStr("?"))
	}

	// ---- fmt, log, errors ----
	I["fmt.Sprintf"] = func(m *Machine, fn *Fn, a []Value) Value { return m.format(m.fmtString(a[0]), sliceCells(a[1])) }
	sprint := func(m *Machine, args []Value, ln bool) Value {
		out := Value{}
		for i, v := range args {
			isStr := func(v Value) bool { f, ok := v.X.(*Iface); return ok && f.t.kind == KString }
			if i > 0 && (ln || !isStr(v) && !isStr(args[i-1])) {
				out = strConcat(out, mkStr(" "))
			}
			out = strConcat(out, m.formatArg('v', "", v))
		}
		if ln {
			out = strConcat(out, mkStr("\n"))
		}
		return out
	}
	I["fmt.Sprint"] = func(m *Machine, fn *Fn, a []Value) Value { return sprint(m, sliceCells(a[0]), false) }
	I["fmt.Sprintln"] = func(m *Machine, fn *Fn, a []Value) Value { return sprint(m, sliceCells(a[0]), true) }
	I["fmt.Errorf"] = func(m *Machine, fn *Fn, a []Value) Value {
		f := m.fmtString(a[0])
		args := sliceCells(a[1])
		old := m.lossy
		m.lossy = true
		msg := m.format(f, args)
		m.lossy = old
		if strings.Contains(f, "%w") {
			for i := 0; i < len(args); i++ {
				if iv, ok := args[i].X.(*Iface); ok && m.P.methodByName(iv.t, "Error") != nil {
					p := &Value{X: &Agg{f: []Value{msg, args[i]}}}
					return Value{X: &Iface{m.P.tWrapError, Value{X: p}}}
				}
			}
		}
		return m.errorValue(msg)
	}
	write := func(m *Machine, w, s Value) Value {
		iv, ok := w.X.(*Iface)
		if !ok {
			m.throw("invalid memory address or nil pointer dereference")
		}
		c := m.P.methodByName(iv.t, "Write")
		b := append([]Value(nil), strBytes(s)...)
		return m.callFn(c.fn, []Value{iv.v, {X: &SliceV{b}}}, nil)
	}
	I["fmt.Fprintf"] = func(m *Machine, fn *Fn, a []Value) Value {
		return write(m, a[0], m.format(m.fmtString(a[1]), sliceCells(a[2])))
	}
	I["fmt.Fprint"] = func(m *Machine, fn *Fn, a []Value) Value { return write(m, a[0], sprint(m, sliceCells(a[1]), false)) }
	I["fmt.Fprintln"] = func(m *Machine, fn *Fn, a []Value) Value { return write(m, a[0], sprint(m, sliceCells(a[1]), true)) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "log.SetFlags", "log.SetOutput", "log.SetPrefix",
		"(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print"} {
		I[n] = nop
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		name := n
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			panic(&targetPanic{msg: name + " called", where: m.callStack()})
		}
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		name := n
		I[n] = func(m *Machine, fn *Fn, a []Value) Value {
			panic(&targetPanic{v: Value{X: &Iface{m.P.tString, mkStr(name)}}, msg: name + " called", where: m.callStack()})
		}
	}
	I["(*fmt.wrapError).Error"] = func(m *Machine, fn *Fn, a []Value) Value { return slot(a[0]).X.(*Agg).f[0] }
	I["(*fmt.wrapError).Unwrap"] = func(m *Machine, fn *Fn, a []Value) Value { return slot(a[0]).X.(*Agg).f[1] }
	I["errors.Is"] = func(m *Machine, fn *Fn, a []Value) Value {
		e := a[0]
		for {
			i, ok := e.X.(*Iface)
			if !ok {
				return mkBool(a[1].X == nil)
			}
			if t, ok := a[1].X.(*Iface); ok && t.t == i.t {
				if m.truth(m.equal(i.t, i.v, t.v)) {
					return mkBool(true)
				}
			}
			c := m.P.methodByName(i.t, "Unwrap")
			if c == nil {
				return mkBool(false)
			}
			e = m.callFn(c.fn, []Value{i.v}, nil)
			if _, ok := e.X.(*SliceV); ok {
				m.fail("errors.Is over joined errors")
			}
		}
	}

	// ---- strconv ----
	tInt := func() *TI { return tInt64 }
	I["strconv.Itoa"] = func(m *Machine, fn *Fn, a []Value) Value { return m.itoa(a[0], tInt()) }
	I["strconv.FormatInt"] = func(m *Machine, fn *Fn, a []Value) Value {
		if a[1].X == nil && a[1].N == 10 {
			return m.itoa(a[0], tInt64)
		}
		if a[1].X == nil && a[1].N == 16 && a[0].X != nil {
			return m.hex(a[0], tInt64, false)
		}
		if a[0].X != nil || a[1].X != nil {
			return mkStr(strconv.FormatInt(int64(m.concretize(a[0], 64)), int(m.concretize(a[1], 64))))
		}
		return mkStr(strconv.FormatInt(int64(a[0].N), int(a[1].N)))
	}
	I["strconv.AppendInt"] = func(m *Machine, fn *Fn, a []Value) Value {
		if a[2].X != nil || a[2].N != 10 {
			m.fail("AppendInt base")
		}
		b := append(copyCells(sliceCells(a[0])), strBytes(m.itoa(a[1], tInt64))...)
		return Value{X: &SliceV{b}}
	}

	// ---- reflection-like ----
	I["reflect.DeepEqual"] = func(m *Machine, fn *Fn, a []Value) Value { return m.deepEqual(m.P.tAny, a[0], a[1], 0) }
	I["sort.Slice"] = func(m *Machine, fn *Fn, a []Value) Value { return m.sortSlice(a, "sort.pdqsort_func") }
	I["sort.SliceStable"] = func(m *Machine, fn *Fn, a []Value) Value { return m.sortSlice(a, "sort.stable_func") }
	I["encoding/json.Unmarshal"] = jsonUnmarshal
	I["encoding/json.Marshal"] = jsonMarshal

	// ---- sync ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value { m.lock(a[0], true); return Value{} }
	}
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value { m.unlock(a[0], true); return Value{} }
	}
	I["(*sync.RWMutex).RLock"] = func(m *Machine, fn *Fn, a []Value) Value { m.lock(a[0], false); return Value{} }
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, fn *Fn, a []Value) Value { m.unlock(a[0], false); return Value{} }
	for _, n := range []string{"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock"} {
		I[n] = func(m *Machine, fn *Fn, a []Value) Value { return mkBool(m.tryLock(a[0], true)) }
	}
	I["(*sync.RWMutex).TryRLock"] = func(m *Machine, fn *Fn, a []Value) Value { return mkBool(m.tryLock(a[0], false)) }
	I["(*sync.Pool).Get"] = func(m *Machine, fn *Fn, a []Value) Value {
		f := slot(a[0]).X.(*Agg).f
		nw := f[len(f)-1] // New is the last field
		if nw.X == nil {
			return Value{}
		}
		return m.callClosure(nw, nil, nil)
	}
	I["(*sync.Pool).Put"] = nop
	I["(*sync.Once).Do"] = func(m *Machine, fn *Fn, a []Value) Value { m.onceDo(a[0], a[1]); return Value{} }
	I["(*sync.WaitGroup).Add"] = func(m *Machine, fn *Fn, a []Value) Value { m.wgAdd(a[0], int(int64(a[1].N))); return Value{} }
	I["(*sync.WaitGroup).Done"] = func(m *Machine, fn *Fn, a []Value) Value { m.wgAdd(a[0], -1); return Value{} }
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, fn *Fn, a []Value) Value { m.wgWait(a[0]); return Value{} }
	for n, f := range syncMapIntrinsics() {
		I["(*sync.Map)."+n] = f
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		I["sync/atomic.Load"+t] = func(m *Machine, fn *Fn, a []Value) Value { m.syncPoint(a[0]); return *slot(a[0]) }
		I["sync/atomic.Store"+t] = func(m *Machine, fn *Fn, a []Value) Value {
			m.syncPoint(a[0])
			m.store(slot(a[0]), a[1])
			return Value{}
		}
		I["sync/atomic.Add"+t] = func(m *Machine, fn *Fn, a []Value) Value {
			m.syncPoint(a[0])
			v := Value{N: (slot(a[0]).N + a[1].N) & mask(w)}
			m.store(slot(a[0]), v)
			return v
		}
		I["sync/atomic.Swap"+t] = func(m *Machine, fn *Fn, a []Value) Value {
			m.syncPoint(a[0])
			old := *slot(a[0])
			m.store(slot(a[0]), a[1])
			return old
		}
		I["sync/atomic.CompareAndSwap"+t] = func(m *Machine, fn *Fn, a []Value) Value {
			m.syncPoint(a[0])
			if !same(*slot(a[0]), a[1]) {
				return mkBool(false)
			}
			m.store(slot(a[0]), a[2])
			return mkBool(true)
		}
	}
	// atomic.Value: one interface field
	I["(*sync/atomic.Value).Load"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.syncPoint(a[0])
		return slot(a[0]).X.(*Agg).f[0]
	}
	I["(*sync/atomic.Value).Store"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.syncPoint(a[0])
		m.store(&slot(a[0]).X.(*Agg).f[0], a[1])
		return Value{}
	}
	// atomic.Pointer[T]: the pointer is the last field
	I["(*sync/atomic.Pointer[T]).Load"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.syncPoint(a[0])
		f := slot(a[0]).X.(*Agg).f
		return f[len(f)-1]
	}
	I["(*sync/atomic.Pointer[T]).Store"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.syncPoint(a[0])
		f := slot(a[0]).X.(*Agg).f
		m.store(&f[len(f)-1], a[1])
		return Value{}
	}
	I["(*sync/atomic.Pointer[T]).Swap"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.syncPoint(a[0])
		f := slot(a[0]).X.(*Agg).f
		old := f[len(f)-1]
		m.store(&f[len(f)-1], a[1])
		return old
	}
	I["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.syncPoint(a[0])
		f := slot(a[0]).X.(*Agg).f
		if !same(f[len(f)-1], a[1]) {
			return mkBool(false)
		}
		m.store(&f[len(f)-1], a[2])
		return mkBool(true)
	}

	// ---- runtime odds and ends ----
	I["internal/godebug.New"] = func(m *Machine, fn *Fn, a []Value) Value {
		p := new(Value)
		*p = zero(tiOf(fn.sig.Results().At(0).Type()).elem)
		return Value{X: p}
	}
	I["(*internal/godebug.Setting).Value"] = nop
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["runtime.GC"] = nop
	I["runtime.Gosched"] = func(m *Machine, fn *Fn, a []Value) Value { m.syncPoint(Value{}); return Value{} }
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	pure("math.Float64bits", ident)
	pure("math.Float64frombits", ident)
	pure("math.Float32bits", func(m *Machine, fn *Fn, a []Value) Value {
		return Value{N: uint64(math.Float32bits(float32(math.Float64frombits(a[0].N))))}
	})
	pure("math.Float32frombits", func(m *Machine, fn *Fn, a []Value) Value {
		return Value{N: math.Float64bits(float64(math.Float32frombits(uint32(a[0].N))))}
	})
	f1 := func(name string, f func(float64) float64) {
		pure(name, func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		})
	}
	f2 := func(name string, f func(x, y float64) float64) {
		pure(name, func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))}
		})
	}
	f1("math.archFloor", math.Floor)
	f1("math.archCeil", math.Ceil)
	f1("math.archTrunc", math.Trunc)
	f1("math.archExp", math.Exp)
	f1("math.archLog", math.Log)
	f1("math.Sqrt", math.Sqrt)
	f1("math.sqrt", math.Sqrt)
	f2("math.archMax", math.Max)
	f2("math.archMin", math.Min)
	f2("math.archHypot", math.Hypot)
	I["maps.clone"] = func(m *Machine, fn *Fn, a []Value) Value {
		iv, ok := a[0].X.(*Iface)
		if !ok {
			m.fail("maps.clone")
		}
		old, ok := iv.v.X.(*MapV)
		if !ok || old == nil {
			return a[0]
		}
		return Value{X: &Iface{iv.t, Value{X: m.cloneMap(old, iv.t.key)}}}
	}
}

func intrinsicByPattern(name string) intrinsic {
	if i := strings.LastIndex(name, "zzverif/vs."); i >= 0 {
		return intrinsics["vs."+name[i+len("zzverif/vs."):]]
	}
	return nil
}

// sortSlice runs the real sorting algorithm of package sort with a swap function on cells.
func (m *Machine) sortSlice(a []Value, algo string) Value {
	iv, ok := a[0].X.(*Iface)
	if !ok {
		m.throw("reflect: call of Swapper on zero Value")
	}
	cells := sliceCells(iv.v)
	swap := Value{X: &Closure{native: func(m *Machine, ix []Value) Value {
		i, j := m.concretize(ix[0], 64), m.concretize(ix[1], 64)
		x, y := copyVal(cells[i]), copyVal(cells[j])
		m.store(&cells[i], y)
		m.store(&cells[j], x)
		return Value{}
	}}}
	f := m.P.funcByName(algo)
	if f == nil {
		m.fail("no %s", algo)
	}
	ls := Value{X: &Agg{f: []Value{a[1], swap}}}
	n := len(cells)
	if strings.HasSuffix(algo, "stable_func") {
		return m.callFn(f, []Value{ls, mkInt(n)}, nil)
	}
	limit := 0
	for k := n; k > 0; k >>= 1 {
		limit++
	}
	return m.callFn(f, []Value{ls, {}, mkInt(n), mkInt(limit)}, nil)
}
