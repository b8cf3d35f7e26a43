package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func unsupportedInstr(in ssa.Instruction, why string) Instr {
	msg := fmt.Sprintf("%T %s in %s: %s", in, in, in.Parent(), why)
	return Instr{exec: func(m *Machine, fr *Frame) { m.fail("%s", msg) }}
}

func (c *compiler) instr(in ssa.Instruction) Instr {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		if r, ok := c.reg[v]; ok {
			dst = r
		} else {
			dst = c.newReg(v)
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		ti := tiOf(in.Type().Underlying().(*types.Pointer).Elem())
		return Instr{exec: func(m *Machine, fr *Frame) {
			p := new(Value)
			*p = zero(ti)
			fr.regs[dst] = Value{X: p}
		}}
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.ChangeType:
		x := c.op(in.X)
		return Instr{spec: func(m *Machine, fr *Frame) bool { fr.regs[dst] = x.get(m, fr); return true }}
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return Instr{spec: func(m *Machine, fr *Frame) bool { fr.regs[dst] = x.get(m, fr); return true }}
	case *ssa.MakeInterface:
		x := c.op(in.X)
		ti := tiOf(in.X.Type())
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			fr.regs[dst] = Value{X: &Iface{ti, x.get(m, fr)}}
			return true
		}}
	case *ssa.Convert:
		return c.convert(in, in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return unsupportedInstr(in, "multiconvert")
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := tiOf(in.Type()).elem.n
		return Instr{exec: func(m *Machine, fr *Frame) {
			a := sliceCells(x.get(m, fr))
			if len(a) < n {
				m.throw("cannot convert slice to array pointer")
			}
			// the array shares the cells of the slice
			fr.regs[dst] = Value{X: &Value{X: &Agg{a[:n:n]}}}
		}}
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			t, ok := x.get(m, fr).X.(*Tuple)
			if !ok {
				return false
			}
			fr.regs[dst] = t.f[i]
			return true
		}}
	case *ssa.Field:
		x := c.op(in.X)
		i := in.Field
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			fr.regs[dst] = x.get(m, fr).X.(*Agg).f[i]
			return true
		}}
	case *ssa.FieldAddr:
		x := c.op(in.X)
		i := in.Field
		sp := func(m *Machine, fr *Frame) bool {
			p, ok := x.get(m, fr).X.(*Value)
			if !ok {
				return false
			}
			a, ok := p.X.(*Agg)
			if !ok {
				return false
			}
			fr.regs[dst] = Value{X: &a.f[i]}
			return true
		}
		return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
			if !sp(m, fr) {
				if p, ok := x.get(m, fr).X.(*Value); ok {
					m.fail("field of a cell that holds %T", p.X)
				}
				m.throw("invalid memory address or nil pointer dereference")
			}
		}}
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst)
	case *ssa.Index:
		return c.index(in, dst)
	case *ssa.Lookup:
		return c.lookup(in, dst)
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		et := tiOf(in.Type()).elem
		wl, wc := tiOf(in.Len.Type()).w, tiOf(in.Cap.Type()).w
		return Instr{exec: func(m *Machine, fr *Frame) {
			n := sext(m.concretize(l.get(m, fr), wl), wl)
			k := sext(m.concretize(cp.get(m, fr), wc), wc)
			if n < 0 || k < n {
				m.throw("makeslice: len out of range")
			}
			if k > 1<<22 {
				m.fail("makeslice of %d", k)
			}
			fr.regs[dst] = makeSlice(et, int(n), int(k))
		}}
	case *ssa.MakeMap:
		return Instr{exec: func(m *Machine, fr *Frame) { fr.regs[dst] = Value{X: newMap(m.epoch)} }}
	case *ssa.MapUpdate:
		mp, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := tiOf(in.Map.Type()).key
		return Instr{exec: func(m *Machine, fr *Frame) {
			mv, _ := mp.get(m, fr).X.(*MapV)
			if mv == nil {
				panic(&targetPanic{msg: "assignment to entry in nil map"})
			}
			m.accessMap(mv, true)
			m.mapSet(mv, kt, k.get(m, fr), copyVal(v.get(m, fr)))
		}}
	case *ssa.MakeClosure:
		fn := c.p.fnOf(in.Fn.(*ssa.Function))
		var bs []operand
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return Instr{exec: func(m *Machine, fr *Frame) {
			cl := &Closure{fn: fn, env: make([]Value, len(bs))}
			for i := range bs {
				cl.env[i] = bs[i].get(m, fr)
			}
			fr.regs[dst] = Value{X: cl}
		}}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		return Instr{exec: func(m *Machine, fr *Frame) {
			p, ok := a.get(m, fr).X.(*Value)
			if !ok {
				m.throw("invalid memory address or nil pointer dereference")
			}
			if m.goState != nil {
				m.goState.access(m, p, true)
			}
			m.store(p, v.get(m, fr))
		}}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Call:
		return c.call(in, dst)
	case *ssa.Defer:
		c.fn.hasDefer = true
		prep := c.prepCall(&in.Call)
		return Instr{exec: func(m *Machine, fr *Frame) {
			f, args := prep(m, fr)
			fr.defers = append(fr.defers, deferred{f: f, args: args})
		}}
	case *ssa.RunDefers:
		return Instr{exec: func(m *Machine, fr *Frame) { m.runDeferred(fr) }}
	case *ssa.Range:
		x := c.op(in.X)
		ti := tiOf(in.X.Type())
		inMod := c.fn.inMod || c.fn.pkg == "maps"
		return Instr{exec: func(m *Machine, fr *Frame) {
			fr.regs[dst] = Value{X: m.newIter(ti, x.get(m, fr), inMod)}
		}}
	case *ssa.Next:
		x := c.op(in.Iter)
		isStr := in.IsString
		return Instr{exec: func(m *Machine, fr *Frame) {
			fr.regs[dst] = x.get(m, fr).X.(*Iter).next(m, isStr)
		}}
	case *ssa.Go:
		prep := c.prepCall(&in.Call)
		return Instr{exec: func(m *Machine, fr *Frame) {
			f, args := prep(m, fr)
			m.goStart(f, args)
		}}
	case *ssa.MakeChan:
		n := c.op(in.Size)
		return Instr{exec: func(m *Machine, fr *Frame) { fr.regs[dst] = m.makeChan(int(n.get(m, fr).N)) }}
	case *ssa.Send:
		ch, v := c.op(in.Chan), c.op(in.X)
		return Instr{exec: func(m *Machine, fr *Frame) { m.chanSend(ch.get(m, fr), v.get(m, fr)) }}
	case *ssa.Select:
		type st struct {
			send bool
			c, v operand
			elem *TI
		}
		var sts []st
		for _, x := range in.States {
			y := st{send: x.Dir == types.SendOnly, c: c.op(x.Chan)}
			y.elem = tiOf(x.Chan.Type().Underlying().(*types.Chan).Elem())
			if y.send {
				y.v = c.op(x.Send)
			}
			sts = append(sts, y)
		}
		blocking := in.Blocking
		return Instr{exec: func(m *Machine, fr *Frame) {
			var cs []selCase
			for _, y := range sts {
				x := selCase{send: y.send, c: y.c.get(m, fr), elem: y.elem}
				if y.send {
					x.v = y.v.get(m, fr)
				}
				cs = append(cs, x)
			}
			i, v, ok := m.chanSelect(cs, blocking)
			out := []Value{mkInt(i), {N: b2u(ok)}}
			for k, y := range sts {
				if !y.send {
					if k == i {
						out = append(out, v)
					} else {
						out = append(out, zero(y.elem))
					}
				}
			}
			fr.regs[dst] = Value{X: &Tuple{out}}
		}}
	}
	return unsupportedInstr(in, "instruction")
}

func makeSlice(et *TI, n, k int) Value {
	a := make([]Value, k)
	if et.kind == KStruct || et.kind == KArray {
		for i := range a {
			a[i] = zero(et)
		}
	}
	return Value{X: &SliceV{a[:n]}}
}

// ---- arithmetic ----

func (c *compiler) binop(in *ssa.BinOp, dst int) Instr {
	x, y := c.op(in.X), c.op(in.Y)
	ti := tiOf(in.X.Type())
	w := ti.w
	mk := mask(w)
	bin := func(f func(a, b uint64) uint64, op Op, rw uint8) Instr {
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.X == nil && b.X == nil {
				fr.regs[dst] = Value{N: f(a.N, b.N)}
				return true
			}
			fr.regs[dst] = mkVal(m.x.op(op, rw, m.expr(a, w), m.expr(b, w), nil))
			return true
		}}
	}
	cmp := func(conc func(a, b uint64) bool, op Op, swap, neg bool) Instr {
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.X == nil && b.X == nil {
				fr.regs[dst] = Value{N: b2u(conc(a.N, b.N))}
				return true
			}
			if swap {
				a, b = b, a
			}
			e := m.x.op(op, 0, m.expr(a, w), m.expr(b, w), nil)
			if neg {
				e = m.x.not(e)
			}
			fr.regs[dst] = mkVal(e)
			return true
		}}
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		switch ti.kind {
		case KInt, KBool:
			if neg {
				return cmp(func(a, b uint64) bool { return a != b }, OEq, false, true)
			}
			return cmp(func(a, b uint64) bool { return a == b }, OEq, false, false)
		case KFloat:
			return Instr{spec: func(m *Machine, fr *Frame) bool {
				a, b := x.get(m, fr), y.get(m, fr)
				fr.regs[dst] = Value{N: b2u((math.Float64frombits(a.N) == math.Float64frombits(b.N)) != neg)}
				return true
			}}
		}
		tx, ty := ti, tiOf(in.Y.Type())
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			a, b := x.get(m, fr), y.get(m, fr)
			// comparison of an interface with a concrete value
			if tx.kind == KIface && ty.kind != KIface && ty.t.String() != "untyped nil" {
				b = Value{X: &Iface{ty, b}}
			} else if ty.kind == KIface && tx.kind != KIface && tx.t.String() != "untyped nil" {
				a = Value{X: &Iface{tx, a}}
			}
			t := tx
			if ty.kind == KIface {
				t = ty
			}
			r := m.equal(t, a, b)
			if neg {
				r = m.notV(r)
			}
			fr.regs[dst] = r
			return true
		}}
	}
	if ti.kind == KString {
		switch in.Op {
		case token.ADD:
			return Instr{spec: func(m *Machine, fr *Frame) bool {
				fr.regs[dst] = strConcat(x.get(m, fr), y.get(m, fr))
				return true
			}}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			op := in.Op
			return Instr{spec: func(m *Machine, fr *Frame) bool {
				a, b := x.get(m, fr), y.get(m, fr)
				switch op {
				case token.LSS:
					fr.regs[dst] = m.strLess(a, b)
				case token.GTR:
					fr.regs[dst] = m.strLess(b, a)
				case token.LEQ:
					fr.regs[dst] = m.notV(m.strLess(b, a))
				case token.GEQ:
					fr.regs[dst] = m.notV(m.strLess(a, b))
				}
				return true
			}}
		}
	}
	if ti.kind == KFloat {
		op := in.Op
		return Instr{exec: func(m *Machine, fr *Frame) {
			av, bv := x.get(m, fr), y.get(m, fr)
			if av.X != nil || bv.X != nil {
				m.fail("symbolic float")
			}
			a, b := math.Float64frombits(av.N), math.Float64frombits(bv.N)
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[dst] = Value{N: b2u(a < b)}
				return
			case token.LEQ:
				fr.regs[dst] = Value{N: b2u(a <= b)}
				return
			case token.GTR:
				fr.regs[dst] = Value{N: b2u(a > b)}
				return
			case token.GEQ:
				fr.regs[dst] = Value{N: b2u(a >= b)}
				return
			}
			fr.regs[dst] = Value{N: math.Float64bits(r)}
		}}
	}
	if ti.kind != KInt && ti.kind != KBool {
		return unsupportedInstr(in, "operand type")
	}
	s := func(v uint64) int64 { return sext(v, w) }
	switch in.Op {
	case token.ADD:
		return bin(func(a, b uint64) uint64 { return (a + b) & mk }, OAdd, w)
	case token.SUB:
		return bin(func(a, b uint64) uint64 { return (a - b) & mk }, OSub, w)
	case token.MUL:
		return bin(func(a, b uint64) uint64 { return (a * b) & mk }, OMul, w)
	case token.AND:
		if ti.kind == KBool {
			return bin(func(a, b uint64) uint64 { return a & b }, OBAnd, 0)
		}
		return bin(func(a, b uint64) uint64 { return a & b }, OAnd, w)
	case token.OR:
		if ti.kind == KBool {
			return bin(func(a, b uint64) uint64 { return a | b }, OBOr, 0)
		}
		return bin(func(a, b uint64) uint64 { return a | b }, OOr, w)
	case token.XOR:
		return bin(func(a, b uint64) uint64 { return a ^ b }, OXor, w)
	case token.AND_NOT:
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.X == nil && b.X == nil {
				fr.regs[dst] = Value{N: a.N &^ b.N}
				return true
			}
			fr.regs[dst] = mkVal(m.x.op(OAnd, w, m.expr(a, w), m.x.op(ONot, w, m.expr(b, w), nil, nil), nil))
			return true
		}}
	case token.LSS:
		if ti.signed {
			return cmp(func(a, b uint64) bool { return s(a) < s(b) }, OSlt, false, false)
		}
		return cmp(func(a, b uint64) bool { return a < b }, OUlt, false, false)
	case token.LEQ:
		if ti.signed {
			return cmp(func(a, b uint64) bool { return s(a) <= s(b) }, OSle, false, false)
		}
		return cmp(func(a, b uint64) bool { return a <= b }, OUle, false, false)
	case token.GTR:
		if ti.signed {
			return cmp(func(a, b uint64) bool { return s(a) > s(b) }, OSlt, true, false)
		}
		return cmp(func(a, b uint64) bool { return a > b }, OUlt, true, false)
	case token.GEQ:
		if ti.signed {
			return cmp(func(a, b uint64) bool { return s(a) >= s(b) }, OSle, true, false)
		}
		return cmp(func(a, b uint64) bool { return a >= b }, OUle, true, false)
	case token.QUO, token.REM:
		var op Op
		switch {
		case in.Op == token.QUO && ti.signed:
			op = OSDiv
		case in.Op == token.QUO:
			op = OUDiv
		case ti.signed:
			op = OSRem
		default:
			op = OURem
		}
		sp := func(m *Machine, fr *Frame) bool {
			a, b := x.get(m, fr), y.get(m, fr)
			if b.X != nil || b.N == 0 {
				return false
			}
			if a.X == nil {
				fr.regs[dst] = Value{N: apply(op, w, w, a.N, b.N, 0, nil)}
				return true
			}
			fr.regs[dst] = mkVal(m.x.op(op, w, m.expr(a, w), m.expr(b, w), nil))
			return true
		}
		return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
			if sp(m, fr) {
				return
			}
			a, b := x.get(m, fr), y.get(m, fr)
			if b.X == nil || m.branch(m.x.op(OEq, 0, m.expr(b, w), m.x.konst(0, w), nil)) {
				m.throw("integer divide by zero")
			}
			fr.regs[dst] = mkVal(m.x.op(op, w, m.expr(a, w), m.expr(b, w), nil))
		}}
	case token.SHL, token.SHR:
		ty := tiOf(in.Y.Type())
		op := OShl
		if in.Op == token.SHR {
			op = OLShr
			if ti.signed {
				op = OAShr
			}
		}
		sp := func(m *Machine, fr *Frame) bool {
			a, b := x.get(m, fr), y.get(m, fr)
			if b.X != nil {
				if ty.signed {
					return false
				}
			} else if ty.signed && sext(b.N, ty.w) < 0 {
				return false
			}
			if a.X == nil && b.X == nil {
				fr.regs[dst] = Value{N: apply(op, w, w, a.N, b.N, 0, nil)}
				return true
			}
			fr.regs[dst] = mkVal(m.shift(op, w, m.expr(a, w), b, ty))
			return true
		}
		return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
			if sp(m, fr) {
				return
			}
			a, b := x.get(m, fr), y.get(m, fr)
			if m.truth(m.sltZero(b, ty.w)) {
				m.throw("negative shift amount")
			}
			fr.regs[dst] = mkVal(m.shift(op, w, m.expr(a, w), b, ty))
		}}
	}
	return unsupportedInstr(in, "operator")
}

func (m *Machine) sltZero(v Value, w uint8) Value {
	if v.X == nil {
		return Value{N: b2u(sext(v.N, w) < 0)}
	}
	return mkVal(m.x.op(OSlt, 0, m.expr(v, w), m.x.konst(0, w), nil))
}

func (m *Machine) shift(op Op, w uint8, a *Expr, b Value, ty *TI) *Expr {
	if b.X == nil {
		n := b.N
		if n > uint64(w) {
			n = uint64(w)
		}
		if w == 8 && n > 255 {
			n = 255
		}
		return m.x.op(op, w, a, m.x.konst(n, w), nil)
	}
	be := m.expr(b, ty.w)
	switch {
	case ty.w < w:
		be = m.x.op(OZExt, w, be, nil, nil)
	case ty.w > w:
		big := m.x.op(OUle, 0, m.x.konst(uint64(w), ty.w), be, nil)
		be = m.x.op(OIte, w, big, m.x.konst(uint64(w), w), m.x.op(OTrunc, w, be, nil, nil))
	}
	return m.x.op(op, w, a, be, nil)
}

func (m *Machine) notV(v Value) Value {
	if e, ok := v.X.(*Expr); ok {
		return mkVal(m.x.not(e))
	}
	return Value{N: v.N ^ 1}
}

func (m *Machine) andV(a, b Value) Value {
	if a.X == nil {
		if a.N == 0 {
			return a
		}
		return b
	}
	if b.X == nil {
		if b.N == 0 {
			return b
		}
		return a
	}
	return mkVal(m.x.and(a.X.(*Expr), b.X.(*Expr)))
}

func (m *Machine) orV(a, b Value) Value { return m.notV(m.andV(m.notV(a), m.notV(b))) }

func (m *Machine) eqCell(a, b Value, w uint8) Value {
	if a.X == nil && b.X == nil {
		return Value{N: b2u(a.N == b.N)}
	}
	return mkVal(m.x.op(OEq, 0, m.expr(a, w), m.expr(b, w), nil))
}

func (m *Machine) strEq(a, b Value) Value {
	if s, ok := concStr(a); ok {
		if t, ok := concStr(b); ok {
			return Value{N: b2u(s == t)}
		}
	}
	if a.X == b.X {
		return Value{N: 1}
	}
	n := strLen(a)
	if n != strLen(b) {
		return Value{}
	}
	return m.cellsEq(strBytes(a), strBytes(b))
}

func (m *Machine) cellsEq(a, b []Value) Value {
	if len(a) != len(b) {
		return Value{}
	}
	r := Value{N: 1}
	// concrete differences first
	for i := range a {
		if a[i].X == nil && b[i].X == nil && a[i].N != b[i].N {
			return Value{}
		}
	}
	for i := range a {
		r = m.andV(r, m.eqCell(a[i], b[i], 8))
		if r.X == nil && r.N == 0 {
			return r
		}
	}
	return r
}

// strLess builds a < b in lexicographic order.
func (m *Machine) strLess(a, b Value) Value {
	if s, ok := concStr(a); ok {
		if t, ok := concStr(b); ok {
			return Value{N: b2u(s < t)}
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := Value{N: b2u(len(x) < len(y))}
	for i := n - 1; i >= 0; i-- {
		var lt, eq Value
		if x[i].X == nil && y[i].X == nil {
			lt = Value{N: b2u(x[i].N < y[i].N)}
			eq = Value{N: b2u(x[i].N == y[i].N)}
		} else {
			lt = mkVal(m.x.op(OUlt, 0, m.expr(x[i], 8), m.expr(y[i], 8), nil))
			eq = m.eqCell(x[i], y[i], 8)
		}
		r = m.orV(lt, m.andV(eq, r))
	}
	return r
}

// equal builds a == b for values of the same type.
func (m *Machine) equal(t *TI, a, b Value) Value {
	switch t.kind {
	case KInt, KBool:
		return m.eqCell(a, b, t.w)
	case KFloat:
		return Value{N: b2u(math.Float64frombits(a.N) == math.Float64frombits(b.N))}
	case KString:
		return m.strEq(a, b)
	case KIface:
		x, ok1 := a.X.(*Iface)
		y, ok2 := b.X.(*Iface)
		if !ok1 || !ok2 {
			return Value{N: b2u(ok1 == ok2)}
		}
		if x.t != y.t {
			return Value{}
		}
		switch x.t.kind {
		case KSlice, KMap, KFunc:
			m.throw("comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.t, x.v, y.v)
	case KStruct:
		x, y := a.X.(*Agg), b.X.(*Agg)
		r := Value{N: 1}
		for i := range x.f {
			r = m.andV(r, m.equal(t.fields[i], x.f[i], y.f[i]))
		}
		return r
	case KArray:
		x, y := a.X.(*Agg), b.X.(*Agg)
		r := Value{N: 1}
		for i := range x.f {
			r = m.andV(r, m.equal(t.elem, x.f[i], y.f[i]))
		}
		return r
	case KSlice, KMap, KFunc:
		return Value{N: b2u(a.X == nil && b.X == nil)}
	}
	return Value{N: b2u(a.X == b.X && a.N == b.N)}
}

func (c *compiler) unop(in *ssa.UnOp, dst int) Instr {
	x := c.op(in.X)
	ti := tiOf(in.X.Type())
	w := ti.w
	switch in.Op {
	case token.MUL:
		sp := func(m *Machine, fr *Frame) bool {
			p, ok := x.get(m, fr).X.(*Value)
			if !ok {
				return false
			}
			if m.goState != nil {
				if m.spec > 0 {
					return false
				}
				m.goState.access(m, p, false)
			}
			fr.regs[dst] = copyVal(*p)
			return true
		}
		return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
			if !sp(m, fr) {
				m.throw("invalid memory address or nil pointer dereference")
			}
		}}
	case token.NOT:
		return Instr{spec: func(m *Machine, fr *Frame) bool { fr.regs[dst] = m.notV(x.get(m, fr)); return true }}
	case token.SUB:
		if ti.kind == KFloat {
			return Instr{exec: func(m *Machine, fr *Frame) {
				fr.regs[dst] = Value{N: math.Float64bits(-math.Float64frombits(x.get(m, fr).N))}
			}}
		}
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			v := x.get(m, fr)
			if v.X == nil {
				fr.regs[dst] = Value{N: -v.N & mask(w)}
			} else {
				fr.regs[dst] = mkVal(m.x.op(ONeg, w, m.expr(v, w), nil, nil))
			}
			return true
		}}
	case token.XOR:
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			v := x.get(m, fr)
			if v.X == nil {
				fr.regs[dst] = Value{N: ^v.N & mask(w)}
			} else {
				fr.regs[dst] = mkVal(m.x.op(ONot, w, m.expr(v, w), nil, nil))
			}
			return true
		}}
	case token.ARROW:
		commaOk := in.CommaOk
		et := ti.elem
		return Instr{exec: func(m *Machine, fr *Frame) {
			v, ok := m.chanRecv(x.get(m, fr), et)
			if commaOk {
				fr.regs[dst] = Value{X: &Tuple{[]Value{v, {N: b2u(ok)}}}}
			} else {
				fr.regs[dst] = v
			}
		}}
	}
	return unsupportedInstr(in, "operator")
}

func (c *compiler) convert(in ssa.Instruction, xv ssa.Value, to types.Type, dst int) Instr {
	x := c.op(xv)
	f, t := tiOf(xv.Type()), tiOf(to)
	switch {
	case f.kind == KInt && t.kind == KInt:
		fw, tw, sg := f.w, t.w, f.signed
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			v := x.get(m, fr)
			if v.X == nil {
				n := v.N
				if sg {
					n = uint64(sext(n, fw))
				}
				fr.regs[dst] = Value{N: n & mask(tw)}
				return true
			}
			fr.regs[dst] = mkVal(m.resize(m.expr(v, fw), tw, sg))
			return true
		}}
	case f.kind == KInt && t.kind == KFloat:
		return Instr{exec: func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if v.X != nil {
				m.fail("symbolic int to float")
			}
			if f.signed {
				fr.regs[dst] = Value{N: math.Float64bits(float64(sext(v.N, f.w)))}
			} else {
				fr.regs[dst] = Value{N: math.Float64bits(float64(v.N))}
			}
		}}
	case f.kind == KFloat && t.kind == KInt:
		return Instr{exec: func(m *Machine, fr *Frame) {
			fl := math.Float64frombits(x.get(m, fr).N)
			if t.signed {
				fr.regs[dst] = Value{N: uint64(int64(fl)) & mask(t.w)}
			} else {
				fr.regs[dst] = Value{N: uint64(fl) & mask(t.w)}
			}
		}}
	case f.kind == KFloat && t.kind == KFloat:
		return Instr{exec: func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if t.w == 32 {
				v.N = math.Float64bits(float64(float32(math.Float64frombits(v.N))))
			}
			fr.regs[dst] = v
		}}
	case f.kind == KInt && t.kind == KString:
		return Instr{exec: func(m *Machine, fr *Frame) { fr.regs[dst] = m.runeToStr(x.get(m, fr), f) }}
	case f.kind == KString && t.kind == KSlice && t.elem.w == 8:
		return Instr{exec: func(m *Machine, fr *Frame) {
			b := strBytes(x.get(m, fr))
			fr.regs[dst] = Value{X: &SliceV{append(make([]Value, 0, len(b)), b...)}}
		}}
	case f.kind == KSlice && f.elem.w == 8 && t.kind == KString:
		return Instr{spec: func(m *Machine, fr *Frame) bool {
			b := sliceCells(x.get(m, fr))
			fr.regs[dst] = cellsToStr(b)
			return true
		}}
	case f.kind == KString && t.kind == KSlice:
		return Instr{exec: func(m *Machine, fr *Frame) {
			var out []Value
			it := &Iter{str: x.get(m, fr)}
			for {
				r := it.next(m, true).X.(*Tuple)
				if r.f[0].N == 0 {
					break
				}
				out = append(out, r.f[2])
			}
			fr.regs[dst] = Value{X: &SliceV{out}}
		}}
	case f.kind == KSlice && t.kind == KString:
		return Instr{exec: func(m *Machine, fr *Frame) {
			r := Value{}
			for _, v := range sliceCells(x.get(m, fr)) {
				r = strConcat(r, m.runeToStr(v, f.elem))
			}
			fr.regs[dst] = r
		}}
	case (f.kind == KPtr || f.kind == KUnsafe) && (t.kind == KPtr || t.kind == KUnsafe):
		return Instr{spec: func(m *Machine, fr *Frame) bool { fr.regs[dst] = x.get(m, fr); return true }}
	case f.kind == t.kind:
		return Instr{spec: func(m *Machine, fr *Frame) bool { fr.regs[dst] = x.get(m, fr); return true }}
	}
	return unsupportedInstr(in, "conversion")
}

// cellsToStr copies cells, which may change later.
func cellsToStr(b []Value) Value {
	for i := range b {
		if b[i].X != nil {
			return bytesToStr(append([]Value(nil), b...))
		}
	}
	return bytesToStr(b)
}

func (m *Machine) resize(e *Expr, w uint8, signed bool) *Expr {
	switch {
	case e.w == w:
		return e
	case e.w > w:
		return m.x.op(OTrunc, w, e, nil, nil)
	case signed:
		return m.x.op(OSExt, w, e, nil, nil)
	}
	return m.x.op(OZExt, w, e, nil, nil)
}

// ---- indexing ----

// idx gives a concrete index within n, or an expression (second result) known to be in range.
func (m *Machine) checkIndex(v Value, t *TI, n int) (int, *Expr) {
	e, ok := v.X.(*Expr)
	if !ok {
		i := v.N
		if t.signed && sext(v.N, t.w) < 0 || i >= uint64(n) {
			m.throw(fmt.Sprintf("index out of range [%d] with length %d", sext(v.N, t.w), n))
		}
		return int(i), nil
	}
	if uint64(n) <= mask(t.w) {
		in := m.x.op(OUlt, 0, e, m.x.konst(uint64(n), t.w), nil)
		if !m.branch(in) {
			m.throw(fmt.Sprintf("index out of range with length %d", n))
		}
	}
	return 0, e
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) Instr {
	x, ix := c.op(in.X), c.op(in.Index)
	xt, it := tiOf(in.X.Type()), tiOf(in.Index.Type())
	cells := func(m *Machine, fr *Frame) ([]Value, bool) {
		v := x.get(m, fr)
		if xt.kind == KSlice {
			return sliceCells(v), true
		}
		p, ok := v.X.(*Value)
		if !ok {
			return nil, false
		}
		return p.X.(*Agg).f, true
	}
	// a load of a symbolic index is turned into a table lookup when it is the only use
	loadOnly := in.Referrers() != nil
	if loadOnly {
		for _, r := range *in.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				loadOnly = false
			}
		}
	}
	et := tiOf(in.Type().Underlying().(*types.Pointer).Elem())
	loadOnly = loadOnly && scalar(et)
	sp := func(m *Machine, fr *Frame) bool {
		a, ok := cells(m, fr)
		if !ok {
			return false
		}
		i := ix.get(m, fr)
		if i.X != nil {
			if !loadOnly {
				return false
			}
			e := i.X.(*Expr)
			if uint64(len(a)) <= mask(it.w) && m.quick(m.x.op(OUlt, 0, e, m.x.konst(uint64(len(a)), it.w), nil)) != 2 {
				return false
			}
			v, ok := m.symLoad(a, e, et)
			if !ok {
				return false
			}
			fr.regs[dst] = Value{X: &v}
			return true
		}
		if it.signed && sext(i.N, it.w) < 0 || i.N >= uint64(len(a)) {
			return false
		}
		fr.regs[dst] = Value{X: &a[i.N]}
		return true
	}
	return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
		if sp(m, fr) {
			return
		}
		a, ok := cells(m, fr)
		if !ok {
			m.throw("invalid memory address or nil pointer dereference")
		}
		i, e := m.checkIndex(ix.get(m, fr), it, len(a))
		if e != nil {
			if loadOnly {
				if v, ok := m.symLoad(a, e, et); ok {
					fr.regs[dst] = Value{X: &v}
					return
				}
			}
			i = int(m.concretize(Value{X: e}, it.w))
		}
		fr.regs[dst] = Value{X: &a[i]}
	}}
}

// symLoad reads a scalar cell at a symbolic index that is in range.
func (m *Machine) symLoad(a []Value, e *Expr, et *TI) (Value, bool) {
	if len(a) > 300 {
		return Value{}, false
	}
	if e.uv != nil {
		// unary: a table over the byte variable
		idx := m.x.table(e)
		var t [256]uint64
		dom := m.dom[e.uv.val]
		ok := true
		for i := range t {
			if !dom.has(uint64(i)) {
				continue
			}
			j := idx[i]
			if j >= uint64(len(a)) {
				// only possible outside the guards that protect this load
				dom[i>>6] &^= 1 << (uint(i) & 63)
				continue
			}
			if a[j].X != nil {
				ok = false
				break
			}
			t[i] = a[j].N
		}
		if ok {
			return mkVal(m.x.tableExpr(e.uv, &t, et.w, dom)), true
		}
	}
	if len(a) == 0 {
		return Value{}, false
	}
	r := m.expr(a[len(a)-1], et.w)
	for i := len(a) - 2; i >= 0; i-- {
		r = m.x.op(OIte, et.w, m.x.op(OEq, 0, e, m.x.konst(uint64(i), e.w), nil), m.expr(a[i], et.w), r)
	}
	return mkVal(r), true
}

func (c *compiler) index(in *ssa.Index, dst int) Instr {
	x, ix := c.op(in.X), c.op(in.Index)
	xt, it := tiOf(in.X.Type()), tiOf(in.Index.Type())
	return c.indexValue(x, ix, xt, it, dst)
}

func (c *compiler) indexValue(x, ix operand, xt, it *TI, dst int) Instr {
	isStr := xt.kind == KString
	get := func(m *Machine, v Value) []Value {
		if isStr {
			return strBytes(v)
		}
		if a, ok := v.X.(*Agg); ok {
			return a.f
		}
		return nil
	}
	length := func(v Value) int {
		if isStr {
			return strLen(v)
		}
		return len(v.X.(*Agg).f)
	}
	et := xt.elem
	if isStr {
		et = tiOf(types.Typ[types.Uint8])
	}
	sp := func(m *Machine, fr *Frame) bool {
		v, i := x.get(m, fr), ix.get(m, fr)
		n := length(v)
		if i.X != nil {
			if !scalar(et) {
				return false
			}
			e := i.X.(*Expr)
			if uint64(n) <= mask(it.w) && m.quick(m.x.op(OUlt, 0, e, m.x.konst(uint64(n), it.w), nil)) != 2 {
				return false
			}
			r, ok := m.symLoad(get(m, v), e, et)
			if ok {
				fr.regs[dst] = r
			}
			return ok
		}
		if it.signed && sext(i.N, it.w) < 0 || i.N >= uint64(n) {
			return false
		}
		if isStr {
			fr.regs[dst] = strAt(v, int(i.N))
		} else {
			fr.regs[dst] = v.X.(*Agg).f[i.N]
		}
		return true
	}
	return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
		if sp(m, fr) {
			return
		}
		v := x.get(m, fr)
		a := get(m, v)
		i, e := m.checkIndex(ix.get(m, fr), it, len(a))
		if e != nil {
			if scalar(et) {
				if r, ok := m.symLoad(a, e, et); ok {
					fr.regs[dst] = r
					return
				}
			}
			i = int(m.concretize(Value{X: e}, it.w))
		}
		fr.regs[dst] = a[i]
	}}
}

func (c *compiler) slice(in *ssa.Slice, dst int) Instr {
	x := c.op(in.X)
	xt := tiOf(in.X.Type())
	opt := func(v ssa.Value) (operand, uint8, bool) {
		if v == nil {
			return operand{}, 0, false
		}
		return c.op(v), tiOf(v.Type()).w, true
	}
	lo, lw, hasLo := opt(in.Low)
	hi, hw, hasHi := opt(in.High)
	mx, mw, hasMax := opt(in.Max)
	return Instr{exec: func(m *Machine, fr *Frame) {
		v := x.get(m, fr)
		var l, h, k int64
		if hasLo {
			l = sext(m.concretize(lo.get(m, fr), lw), lw)
		}
		if hasHi {
			h = sext(m.concretize(hi.get(m, fr), hw), hw)
		}
		if hasMax {
			k = sext(m.concretize(mx.get(m, fr), mw), mw)
		}
		if xt.kind == KString {
			n := int64(strLen(v))
			if !hasHi {
				h = n
			}
			if l < 0 || h < l || h > n {
				m.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[dst] = strSlice(v, int(l), int(h))
			return
		}
		var a []Value
		if xt.kind == KPtr {
			p, ok := v.X.(*Value)
			if !ok {
				m.throw("invalid memory address or nil pointer dereference")
			}
			a = p.X.(*Agg).f
		} else {
			a = sliceCells(v)
		}
		if !hasHi {
			h = int64(len(a))
		}
		if !hasMax {
			k = int64(cap(a))
		}
		if l < 0 || h < l || k < h || k > int64(cap(a)) {
			m.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(a)))
		}
		if a == nil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{X: &SliceV{a[l:h:k]}}
	}}
}

// ---- type assertions ----

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) Instr {
	x := c.op(in.X)
	t := tiOf(in.AssertedType)
	commaOk := in.CommaOk
	sp := func(m *Machine, fr *Frame) bool {
		i, _ := x.get(m, fr).X.(*Iface)
		ok := false
		var r Value
		if i != nil {
			if t.kind == KIface {
				ok = m.P.implements(i.t, t)
				r = Value{X: i}
			} else {
				ok = i.t == t
				r = i.v
			}
		}
		if !ok {
			if !commaOk {
				return false
			}
			r = zero(t)
		}
		if commaOk {
			fr.regs[dst] = Value{X: &Tuple{[]Value{r, {N: b2u(ok)}}}}
		} else {
			fr.regs[dst] = r
		}
		return true
	}
	return Instr{spec: sp, exec: func(m *Machine, fr *Frame) {
		if !sp(m, fr) {
			i, _ := x.get(m, fr).X.(*Iface)
			if i == nil {
				m.throw("interface conversion: interface is nil, not " + t.String())
			}
			m.throw("interface conversion: interface holds " + i.t.String() + ", not " + t.String())
		}
	}}
}

// ---- calls ----

func (c *compiler) prepCall(call *ssa.CallCommon) func(m *Machine, fr *Frame) (Value, []Value) {
	var args []operand
	for _, a := range call.Args {
		args = append(args, c.op(a))
	}
	if call.IsInvoke() {
		recv := c.op(call.Value)
		meth := call.Method
		return func(m *Machine, fr *Frame) (Value, []Value) {
			i, ok := recv.get(m, fr).X.(*Iface)
			if !ok {
				m.throw("invalid memory address or nil pointer dereference")
			}
			fn := m.P.method(i.t, meth)
			vs := make([]Value, 0, len(args)+1)
			vs = append(vs, i.v)
			for k := range args {
				vs = append(vs, args[k].get(m, fr))
			}
			return Value{X: fn}, vs
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, call)
		return func(m *Machine, fr *Frame) (Value, []Value) {
			vs := make([]Value, len(args))
			for k := range args {
				vs[k] = args[k].get(m, fr)
			}
			return Value{X: &Closure{native: func(m *Machine, a []Value) Value { return f(m, fr, a) }}}, vs
		}
	}
	fv := c.op(call.Value)
	return func(m *Machine, fr *Frame) (Value, []Value) {
		vs := make([]Value, len(args))
		for k := range args {
			vs[k] = args[k].get(m, fr)
		}
		return fv.get(m, fr), vs
	}
}

func (c *compiler) call(in *ssa.Call, dst int) Instr {
	call := &in.Call
	if b, ok := call.Value.(*ssa.Builtin); ok {
		var args []operand
		for _, a := range call.Args {
			args = append(args, c.op(a))
		}
		f := c.builtin(b, call)
		run := func(m *Machine, fr *Frame) {
			var buf [4]Value
			vs := buf[:0]
			for k := range args {
				vs = append(vs, args[k].get(m, fr))
			}
			fr.regs[dst] = f(m, fr, vs)
		}
		switch b.Name() {
		case "len", "cap":
			return Instr{exec: run, spec: func(m *Machine, fr *Frame) bool { run(m, fr); return true }}
		}
		return Instr{exec: run}
	}
	prep := c.prepCall(call)
	if f := call.StaticCallee(); f != nil {
		fn := c.p.fnOf(f)
		var args []operand
		for _, a := range call.Args {
			args = append(args, c.op(a))
		}
		if _, isClosure := call.Value.(*ssa.MakeClosure); !isClosure {
			gather := func(m *Machine, fr *Frame) []Value {
				vs := m.regs(len(args))
				for k := range args {
					vs[k] = args[k].get(m, fr)
				}
				return vs
			}
			return Instr{exec: func(m *Machine, fr *Frame) {
				ch, sp := m.chunk, m.sp
				vs := gather(m, fr)
				fn.ready(m.P)
				if fn.native != nil {
					vs = append([]Value(nil), vs...)
				}
				fr.regs[dst] = m.callFn(fn, vs, nil)
				m.chunk, m.sp = ch, sp
			}, spec: func(m *Machine, fr *Frame) bool {
				fn.ready(m.P)
				if fn.native != nil {
					if !fn.nativePure {
						return false
					}
					vs := append([]Value(nil), gather(m, fr)...)
					fr.regs[dst] = fn.native(m, fn, vs)
					return true
				}
				if fn.deny || !fn.pure {
					return false
				}
				ch, sp := m.chunk, m.sp
				v, ok := m.evalPure(fn, gather(m, fr), nil)
				m.chunk, m.sp = ch, sp
				fr.regs[dst] = v
				return ok
			}}
		}
	}
	return Instr{exec: func(m *Machine, fr *Frame) {
		f, vs := prep(m, fr)
		fr.regs[dst] = m.callClosure(f, vs, nil)
	}}
}

func (c *compiler) builtin(b *ssa.Builtin, call *ssa.CallCommon) func(m *Machine, fr *Frame, a []Value) Value {
	var at []*TI
	for _, a := range call.Args {
		at = append(at, tiOf(a.Type()))
	}
	name := b.Name()
	switch name {
	case "len":
		t := at[0]
		return func(m *Machine, fr *Frame, a []Value) Value {
			switch t.kind {
			case KString:
				return Value{N: uint64(strLen(a[0]))}
			case KSlice:
				return Value{N: uint64(len(sliceCells(a[0])))}
			case KMap:
				if mv, ok := a[0].X.(*MapV); ok {
					m.accessMap(mv, false)
					return Value{N: uint64(mv.live)}
				}
				return Value{}
			case KArray:
				return Value{N: uint64(t.n)}
			case KPtr:
				return Value{N: uint64(t.elem.n)}
			case KChan:
				return Value{N: uint64(chanLen(a[0]))}
			}
			m.fail("len of %s", t)
			return Value{}
		}
	case "cap":
		t := at[0]
		return func(m *Machine, fr *Frame, a []Value) Value {
			switch t.kind {
			case KSlice:
				return Value{N: uint64(cap(sliceCells(a[0])))}
			case KArray:
				return Value{N: uint64(t.n)}
			case KPtr:
				return Value{N: uint64(t.elem.n)}
			case KChan:
				if ch, ok := a[0].X.(*chanV); ok {
					return Value{N: uint64(ch.cap)}
				}
				return Value{}
			}
			m.fail("cap of %s", t)
			return Value{}
		}
	case "append":
		isStr := len(at) > 1 && at[1].kind == KString
		et := at[0].elem
		agg := et.kind == KStruct || et.kind == KArray
		return func(m *Machine, fr *Frame, a []Value) Value {
			old := sliceCells(a[0])
			var add []Value
			if len(a) > 1 {
				if isStr {
					add = strBytes(a[1])
				} else {
					add = sliceCells(a[1])
				}
			}
			if len(add) == 0 {
				return a[0]
			}
			n := len(old)
			if n+len(add) <= cap(old) {
				out := old[:n+len(add)]
				if agg {
					add = copyCells(add)
				}
				for i := range add {
					if m.goState != nil {
						m.goState.access(m, &out[n+i], true)
					}
					m.store(&out[n+i], add[i])
				}
				return Value{X: &SliceV{out}}
			}
			nc := 2 * cap(old)
			if nc < n+len(add) {
				nc = n + len(add)
			}
			if nc < 4 {
				nc = 4
			}
			out := make([]Value, n+len(add), nc)
			for i := range old {
				out[i] = copyVal(old[i])
			}
			for i := range add {
				out[n+i] = copyVal(add[i])
			}
			if agg {
				full := out[:nc]
				for i := len(out); i < nc; i++ {
					full[i] = zero(et)
				}
			}
			return Value{X: &SliceV{out}}
		}
	case "copy":
		isStr := at[1].kind == KString
		return func(m *Machine, fr *Frame, a []Value) Value {
			d := sliceCells(a[0])
			var s []Value
			if isStr {
				s = strBytes(a[1])
			} else {
				s = sliceCells(a[1])
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if m.goState != nil {
				for i := 0; i < n; i++ {
					if !isStr {
						m.goState.access(m, &s[i], false)
					}
					m.goState.access(m, &d[i], true)
				}
			}
			tmp := copyCells(s[:n])
			for i := 0; i < n; i++ {
				m.store(&d[i], tmp[i])
			}
			return Value{N: uint64(n)}
		}
	case "delete":
		kt := at[0].key
		return func(m *Machine, fr *Frame, a []Value) Value {
			if mv, ok := a[0].X.(*MapV); ok {
				m.accessMap(mv, true)
				m.mapDelete(mv, kt, a[1])
			}
			return Value{}
		}
	case "clear":
		t := at[0]
		return func(m *Machine, fr *Frame, a []Value) Value {
			if t.kind == KMap {
				if mv, ok := a[0].X.(*MapV); ok {
					m.accessMap(mv, true)
					m.touchMap(mv)
					mv.ents, mv.idx, mv.nsym, mv.live = nil, map[any]int{}, 0, 0
				}
				return Value{}
			}
			for i := range sliceCells(a[0]) {
				m.store(&sliceCells(a[0])[i], zero(t.elem))
			}
			return Value{}
		}
	case "panic":
		return func(m *Machine, fr *Frame, a []Value) Value {
			panic(&targetPanic{v: a[0], msg: m.panicText(a[0]), where: m.callStack()})
		}
	case "recover":
		return func(m *Machine, fr *Frame, a []Value) Value {
			d := fr.deferOf
			if d != nil && d.pan != nil && !d.recovered {
				d.recovered = true
				return d.pan.v
			}
			return Value{}
		}
	case "print", "println":
		return func(m *Machine, fr *Frame, a []Value) Value { return Value{} }
	case "close":
		return func(m *Machine, fr *Frame, a []Value) Value { m.chanClose(a[0]); return Value{} }
	case "min", "max":
		t := at[0]
		isMin := name == "min"
		return func(m *Machine, fr *Frame, a []Value) Value {
			r := a[0]
			for _, v := range a[1:] {
				var lt Value
				switch {
				case t.kind == KString:
					lt = m.strLess(v, r)
				case t.kind == KFloat:
					lt = Value{N: b2u(math.Float64frombits(v.N) < math.Float64frombits(r.N))}
				case v.X == nil && r.X == nil:
					if t.signed {
						lt = Value{N: b2u(sext(v.N, t.w) < sext(r.N, t.w))}
					} else {
						lt = Value{N: b2u(v.N < r.N)}
					}
				default:
					op := OUlt
					if t.signed {
						op = OSlt
					}
					lt = mkVal(m.x.op(op, 0, m.expr(v, t.w), m.expr(r, t.w), nil))
				}
				if m.truth(lt) == isMin {
					r = v
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(m *Machine, fr *Frame, a []Value) Value {
			if a[0].X == nil {
				m.throw("value method called using nil pointer")
			}
			return a[0]
		}
	case "String": // unsafe.String
		return func(m *Machine, fr *Frame, a []Value) Value {
			n := int(m.concretize(a[1], 64))
			if n == 0 {
				return Value{}
			}
			p := a[0].X.(*Value)
			return cellsToStr(m.cellsFrom(p, n))
		}
	case "StringData", "SliceData":
		isStr := name == "StringData"
		return func(m *Machine, fr *Frame, a []Value) Value {
			var b []Value
			if isStr {
				b = append([]Value(nil), strBytes(a[0])...)
			} else {
				b = sliceCells(a[0])
			}
			if len(b) == 0 {
				return Value{}
			}
			m.ptrCells[&b[0]] = b
			return Value{X: &b[0]}
		}
	case "Slice":
		return func(m *Machine, fr *Frame, a []Value) Value {
			n := int(m.concretize(a[1], 64))
			if n == 0 {
				return Value{X: &SliceV{[]Value{}}}
			}
			return Value{X: &SliceV{m.cellsFrom(a[0].X.(*Value), n)}}
		}
	}
	return func(m *Machine, fr *Frame, a []Value) Value {
		m.fail("builtin %s", name)
		return Value{}
	}
}

func copyCells(s []Value) []Value {
	out := make([]Value, len(s))
	for i := range s {
		out[i] = copyVal(s[i])
	}
	return out
}

func (m *Machine) cellsFrom(p *Value, n int) []Value {
	b := m.ptrCells[p]
	if len(b) < n {
		m.fail("unsafe pointer arithmetic")
	}
	return b[:n]
}
