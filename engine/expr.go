package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Symbolic expressions: hash-consed bit-vector / boolean DAG (w == 0 means Bool).

type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONot // bitwise
	ONeg
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OIte
	OZExt
	OSExt
	OTrunc
	OInSet // Bool: 8-bit var a in set
)

type ByteSet [4]uint64

func (s *ByteSet) has(b uint64) bool { return s[(b>>6)&3]>>(b&63)&1 == 1 }
func (s *ByteSet) add(b uint64)      { s[(b>>6)&3] |= 1 << (b & 63) }
func (s ByteSet) and(t ByteSet) ByteSet {
	return ByteSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s ByteSet) or(t ByteSet) ByteSet {
	return ByteSet{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]}
}
func (s ByteSet) not() ByteSet { return ByteSet{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s ByteSet) empty() bool  { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s ByteSet) full() bool   { return s == fullSet }
func (s ByteSet) min() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}
func (s ByteSet) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

var fullSet = ByteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Expr struct {
	op      Op
	w       uint8 // width in bits; 0 = Bool
	a, b, c *Expr
	val     uint64 // const value / var index
	set     ByteSet
	id      uint32
	h       uint64  // structural hash: the same in every worker
	lo, hi  int64   // what the value as a signed number lies between
	uv      *Expr   // the only variable, if it is the only one and 8 bits wide
	vars    []*Expr // sorted by index
	tab     *[256]uint64
	stamp   uint32
	ev      uint64
	defd    uint32 // solver generation in which it has been defined
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
	set     ByteSet
}

type Exprs struct {
	tab           map[exprKey]*Expr
	next          uint32
	stamp         uint32
	true_, false_ *Expr
}

func newExprs() *Exprs {
	x := &Exprs{tab: map[exprKey]*Expr{}, next: 1}
	x.true_ = x.mk(OConst, 0, nil, nil, nil, 1, ByteSet{})
	x.false_ = x.mk(OConst, 0, nil, nil, nil, 0, ByteSet{})
	return x
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func mergeVars(a, b []*Expr) []*Expr {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks first, to share
	i, j := 0, 0
	out := make([]*Expr, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			out = append(out, a[i])
			i++
			j++
		} else if a[i].val < b[j].val {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (x *Exprs) mk(op Op, w uint8, a, b, c *Expr, val uint64, set ByteSet) *Expr {
	k := exprKey{op, w, eid(a), eid(b), eid(c), val, set}
	if e := x.tab[k]; e != nil {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: c, val: val, set: set, id: x.next}
	x.next++
	x.tab[k] = e
	e.h = structHash(e)
	e.lo, e.hi = bounds(e)
	if op == OVar {
		e.vars = []*Expr{e}
	} else {
		if a != nil {
			e.vars = a.vars
		}
		if b != nil {
			e.vars = mergeVars(e.vars, b.vars)
		}
		if c != nil {
			e.vars = mergeVars(e.vars, c.vars)
		}
	}
	if len(e.vars) == 1 && e.vars[0].w == 8 {
		e.uv = e.vars[0]
	}
	return e
}

// full is the range of the signed numbers of w bits.
func full(w uint8) (int64, int64) {
	return -1 << (w - 1), int64(uint64(1)<<(w-1) - 1)
}

// bounds is an interval that the value of e as a signed number lies in.
func bounds(e *Expr) (int64, int64) {
	if e.w == 0 {
		return 0, 1
	}
	lo, hi := full(e.w)
	fit := func(l, h int64) (int64, int64) {
		if l < lo || h > hi {
			return lo, hi
		}
		return l, h
	}
	const big = int64(1) << 61
	small := func(v *Expr) bool { return -big < v.lo && v.hi < big }
	a, b := e.a, e.b
	switch e.op {
	case OConst:
		v := sext(e.val, e.w)
		return v, v
	case OZExt:
		if a.w == 0 {
			return 0, 1
		}
		if a.lo >= 0 {
			return a.lo, a.hi
		}
		return 0, int64(mask(a.w))
	case OSExt:
		return a.lo, a.hi
	case OTrunc:
		return fit(a.lo, a.hi)
	case OAdd:
		if small(a) && small(b) {
			return fit(a.lo+b.lo, a.hi+b.hi)
		}
	case OSub:
		if small(a) && small(b) {
			return fit(a.lo-b.hi, a.hi-b.lo)
		}
	case ONeg:
		if small(a) {
			return fit(-a.hi, -a.lo)
		}
	case OMul:
		const half = int64(1) << 30
		if a.lo > -half && a.hi < half && b.lo > -half && b.hi < half || b.op == OConst && b.lo > -16 && b.lo < 16 && a.lo > -big/16 && a.hi < big/16 {
			p := [4]int64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
			return fit(min(p[0], p[1], p[2], p[3]), max(p[0], p[1], p[2], p[3]))
		}
	case OIte:
		return min(b.lo, e.c.lo), max(b.hi, e.c.hi)
	case OSRem, OSDiv:
		if small(a) && (e.op == OSRem || b.lo > 0) {
			return min(a.lo, 0), max(a.hi, 0)
		}
		if small(a) {
			// the divisor may be -1; a division by zero gives 1 or -1
			m := max(-a.lo, a.hi, 1)
			return fit(-m, m)
		}
	case OAnd:
		if a.lo >= 0 && b.lo >= 0 {
			return 0, min(a.hi, b.hi)
		}
		if b.lo >= 0 {
			return 0, b.hi
		}
		if a.lo >= 0 {
			return 0, a.hi
		}
	}
	return lo, hi
}

// need is the number of bits that the values of es take as signed numbers.
func need(es ...*Expr) uint8 {
	k := uint8(2)
	for _, e := range es {
		for k < 64 {
			if lo, hi := full(k); lo < e.lo && e.hi <= hi {
				break
			}
			k++
		}
	}
	return k
}

func structHash(e *Expr) uint64 {
	h := uint64(e.op)*0x9E3779B97F4A7C15 ^ uint64(e.w)*0xC2B2AE3D27D4EB4F
	mix := func(v uint64) {
		h ^= v
		h *= 0xff51afd7ed558ccd
		h ^= h >> 32
	}
	mix(e.val)
	for _, c := range [3]*Expr{e.a, e.b, e.c} {
		if c != nil {
			mix(c.h)
		} else {
			mix(7)
		}
	}
	for _, s := range e.set {
		mix(s)
	}
	return h
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (x *Exprs) variable(idx int, w uint8) *Expr {
	return x.mk(OVar, w, nil, nil, nil, uint64(idx), ByteSet{})
}

func (x *Exprs) konst(v uint64, w uint8) *Expr {
	if w == 0 {
		if v&1 == 1 {
			return x.true_
		}
		return x.false_
	}
	return x.mk(OConst, w, nil, nil, nil, v&mask(w), ByteSet{})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func apply(op Op, w uint8, aw uint8, a, b, c uint64, set *ByteSet) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		sa := sext(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(sa>>b) & m
	case ONot:
		return ^a & m
	case ONeg:
		return -a & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OIte:
		if a == 1 {
			return b
		}
		return c
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, aw)) & m
	case OTrunc:
		return a & m
	case OInSet:
		return b2u(set.has(a))
	}
	panic(fmt.Sprint("apply ", op))
}

// op1/op2/op3 build simplified expressions.
func (x *Exprs) op(op Op, w uint8, a, b, c *Expr) *Expr {
	// constants
	if a.op == OConst && (b == nil || b.op == OConst) && (c == nil || c.op == OConst) && op != OIte {
		var bv, cv uint64
		if b != nil {
			bv = b.val
		}
		if c != nil {
			cv = c.val
		}
		return x.konst(apply(op, w, a.w, a.val, bv, cv, nil), w)
	}
	switch op {
	case OBNot:
		if a.op == OBNot {
			return a.a
		}
		if a.op == OInSet {
			return x.inSet(a.a, a.set.not())
		}
	case OBAnd:
		if a == b {
			return a
		}
		if a == x.false_ || b == x.false_ {
			return x.false_
		}
		if a == x.true_ {
			return b
		}
		if b == x.true_ {
			return a
		}
		if a.op == OInSet && b.op == OInSet && a.a == b.a {
			return x.inSet(a.a, a.set.and(b.set))
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return x.false_
		}
		// absorb: (x & y) & x
		if a.op == OBAnd && (a.a == b || a.b == b) {
			return a
		}
		if b.op == OBAnd && (b.a == a || b.b == a) {
			return b
		}
		if a.h > b.h {
			a, b = b, a
		}
	case OBOr:
		if a == b {
			return a
		}
		if a == x.true_ || b == x.true_ {
			return x.true_
		}
		if a == x.false_ {
			return b
		}
		if b == x.false_ {
			return a
		}
		if a.op == OInSet && b.op == OInSet && a.a == b.a {
			return x.inSet(a.a, a.set.or(b.set))
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return x.true_
		}
		// (p & q) | (p & !q) = p
		if a.op == OBAnd && b.op == OBAnd {
			if r := x.resolve(a, b); r != nil {
				return r
			}
		}
		// a | (!a & q) = a | q
		if b.op == OBAnd {
			if x.isNeg(a, b.a) {
				return x.op(OBOr, 0, a, b.b, nil)
			}
			if x.isNeg(a, b.b) {
				return x.op(OBOr, 0, a, b.a, nil)
			}
			if b.a == a || b.b == a {
				return a
			}
		}
		if a.op == OBAnd {
			if x.isNeg(b, a.a) {
				return x.op(OBOr, 0, b, a.b, nil)
			}
			if x.isNeg(b, a.b) {
				return x.op(OBOr, 0, b, a.a, nil)
			}
			if a.a == b || a.b == b {
				return b
			}
		}
		if a.h > b.h {
			a, b = b, a
		}
	case OIte:
		if a == x.true_ {
			return b
		}
		if a == x.false_ {
			return c
		}
		if b == c {
			return b
		}
		if w == 0 {
			if b == x.true_ && c == x.false_ {
				return a
			}
			if b == x.false_ && c == x.true_ {
				return x.op(OBNot, 0, a, nil, nil)
			}
			if b == x.true_ {
				return x.op(OBOr, 0, a, c, nil)
			}
			if c == x.false_ {
				return x.op(OBAnd, 0, a, b, nil)
			}
			if b == x.false_ {
				return x.op(OBAnd, 0, x.op(OBNot, 0, a, nil, nil), c, nil)
			}
			if c == x.true_ {
				return x.op(OBOr, 0, x.op(OBNot, 0, a, nil, nil), b, nil)
			}
		}
	case OEq:
		if a == b {
			return x.true_
		}
		if a.w == 0 {
			if a.op == OConst {
				a, b = b, a
			}
			if b == x.true_ {
				return a
			}
			if b == x.false_ {
				return x.op(OBNot, 0, a, nil, nil)
			}
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && a.op == OZExt {
			if b.val > mask(a.a.w) {
				return x.false_
			}
			return x.op(OEq, 0, a.a, x.konst(b.val, a.a.w), nil)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return x.op(OEq, 0, a.a, b.a, nil)
		}
		if b.op == OConst && a.op == OSExt {
			if v := sext(b.val, b.w); v == sext(b.val&mask(a.a.w), a.a.w) {
				return x.op(OEq, 0, a.a, x.konst(b.val, a.a.w), nil)
			}
			return x.false_
		}
		if b.op == OConst && b.val == 0 && a.op == ONeg {
			return x.op(OEq, 0, a.a, b, nil)
		}
		if b.op == OConst && a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			t, f := a.b.val == b.val, a.c.val == b.val
			switch {
			case t && f:
				return x.true_
			case t:
				return a.a
			case f:
				return x.op(OBNot, 0, a.a, nil, nil)
			default:
				return x.false_
			}
		}
		if a.h > b.h && b.op != OConst {
			a, b = b, a
		}
	case ONeg:
		if a.op == ONeg {
			return a.a
		}
	case OUlt:
		if a == b {
			return x.false_
		}
		if b.op == OConst && b.val == 0 {
			return x.false_
		}
	case OUle:
		if a == b {
			return x.true_
		}
		if a.op == OConst && a.val == 0 {
			return x.true_
		}
	case OSlt:
		if a == b {
			return x.false_
		}
	case OSle:
		if a == b {
			return x.true_
		}
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if b.op == OConst && a.op == OAdd && a.b.op == OConst {
			return x.op(OAdd, w, a.a, x.konst(a.b.val+b.val, w), nil)
		}
	case OSub:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			return x.konst(0, w)
		}
		if b.op == OConst {
			return x.op(OAdd, w, a, x.konst(-b.val, w), nil)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
	case OOr, OXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OZExt:
		if a.w == w {
			return a
		}
		if a.op == OZExt {
			return x.op(OZExt, w, a.a, nil, nil)
		}
	case OSExt:
		if a.w == w {
			return a
		}
		if a.op == OZExt {
			return x.op(OZExt, w, a.a, nil, nil)
		}
	case OSDiv, OSRem:
		if lo, _ := full(w); op == OSRem && b.op == ONeg {
			return x.op(OSRem, w, a, b.a, nil)
		} else if op == OSRem && a.op == ONeg && a.a.lo > lo {
			return x.op(ONeg, w, x.op(OSRem, w, a.a, b, nil), nil, nil)
		}
		// fewer bits are easier
		if k := need(a, b); k+1 < w {
			return x.op(OSExt, w, x.op(op, k+1, x.op(OTrunc, k+1, a, nil, nil), x.op(OTrunc, k+1, b, nil, nil), nil), nil, nil)
		}
	case OTrunc:
		if a.w == w {
			return a
		}
		switch a.op {
		case OAdd, OSub, OMul, OAnd, OOr, OXor:
			return x.op(a.op, w, x.op(OTrunc, w, a.a, nil, nil), x.op(OTrunc, w, a.b, nil, nil), nil)
		case ONeg, ONot:
			return x.op(a.op, w, x.op(OTrunc, w, a.a, nil, nil), nil, nil)
		case OIte:
			return x.op(OIte, w, a.a, x.op(OTrunc, w, a.b, nil, nil), x.op(OTrunc, w, a.c, nil, nil))
		}
		if a.op == OZExt || a.op == OSExt {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return x.op(OTrunc, w, a.a, nil, nil)
			}
			return x.op(a.op, w, a.a, nil, nil)
		}
	}
	switch op {
	case OSlt:
		if a.hi < b.lo {
			return x.true_
		}
		if a.lo >= b.hi {
			return x.false_
		}
	case OSle:
		if a.hi <= b.lo {
			return x.true_
		}
		if a.lo > b.hi {
			return x.false_
		}
	case OEq:
		if a.w > 0 && (a.hi < b.lo || b.hi < a.lo) {
			return x.false_
		}
	}
	// comparisons of a zero-extended value with a constant: narrow
	if (op == OSlt || op == OSle || op == OUlt || op == OUle) && w == 0 {
		if a.op == OZExt && b.op == OConst {
			aw := a.a.w
			bv := b.val
			if op == OSlt || op == OSle {
				s := sext(bv, b.w)
				if s < 0 {
					return x.false_
				}
			}
			if bv > mask(aw) {
				return x.true_
			}
			no := OUlt
			if op == OSle || op == OUle {
				no = OUle
			}
			return x.op(no, 0, a.a, x.konst(bv, aw), nil)
		}
		if b.op == OZExt && a.op == OConst {
			bw := b.a.w
			av := a.val
			if op == OSlt || op == OSle {
				s := sext(av, a.w)
				if s < 0 {
					return x.true_
				}
			}
			if av > mask(bw) {
				return x.false_
			}
			no := OUlt
			if op == OSle || op == OUle {
				no = OUle
			}
			return x.op(no, 0, x.konst(av, bw), b.a, nil)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			no := OUlt
			if op == OSle || op == OUle {
				no = OUle
			}
			return x.op(no, 0, a.a, b.a, nil)
		}
	}
	if w == 0 {
		// canonicalise booleans over a single byte variable
		uv := x.commonUV(a, b, c)
		if uv != nil {
			var s ByteSet
			ta, tb, tc := x.table(a), x.table(b), x.table(c)
			for i := uint64(0); i < 256; i++ {
				var bv, cv uint64
				if tb != nil {
					bv = tb[i]
				}
				if tc != nil {
					cv = tc[i]
				}
				if apply(op, w, a.w, ta[i], bv, cv, nil) == 1 {
					s.add(i)
				}
			}
			return x.inSet(uv, s)
		}
	}
	return x.mk(op, w, a, b, c, 0, ByteSet{})
}

func (x *Exprs) isNeg(a, b *Expr) bool {
	if a.op == OBNot {
		return a.a == b
	}
	if b.op == OBNot {
		return b.a == a
	}
	if a.op == OInSet && b.op == OInSet && a.a == b.a {
		return a.set == b.set.not()
	}
	return false
}

func (x *Exprs) resolve(a, b *Expr) *Expr {
	for _, p := range [4][4]*Expr{{a.a, a.b, b.a, b.b}, {a.a, a.b, b.b, b.a}, {a.b, a.a, b.a, b.b}, {a.b, a.a, b.b, b.a}} {
		if p[0] == p[2] && x.isNeg(p[1], p[3]) {
			return p[0]
		}
	}
	return nil
}

// commonUV returns the byte variable if the expressions together depend on exactly one.
func (x *Exprs) commonUV(es ...*Expr) *Expr {
	var uv *Expr
	for _, e := range es {
		if e == nil || len(e.vars) == 0 {
			continue
		}
		if e.uv == nil || uv != nil && uv != e.uv {
			return nil
		}
		uv = e.uv
	}
	return uv
}

// table gives the values of a unary (or constant) expression for the 256 values of its variable.
func (x *Exprs) table(e *Expr) *[256]uint64 {
	if e == nil {
		return nil
	}
	if e.tab != nil {
		return e.tab
	}
	t := new([256]uint64)
	switch e.op {
	case OConst:
		for i := range t {
			t[i] = e.val
		}
	case OVar:
		for i := range t {
			t[i] = uint64(i)
		}
	default:
		ta, tb, tc := x.table(e.a), x.table(e.b), x.table(e.c)
		for i := range t {
			var bv, cv uint64
			if tb != nil {
				bv = tb[i]
			}
			if tc != nil {
				cv = tc[i]
			}
			t[i] = apply(e.op, e.w, e.a.w, ta[i], bv, cv, &e.set)
		}
	}
	e.tab = t
	return t
}

func (x *Exprs) inSet(v *Expr, s ByteSet) *Expr {
	if s.empty() {
		return x.false_
	}
	if s.full() {
		return x.true_
	}
	return x.mk(OInSet, 0, v, nil, nil, 0, s)
}

// tableExpr builds an expression of width w over byte variable v with the given values.
func (x *Exprs) tableExpr(v *Expr, t *[256]uint64, w uint8, dom ByteSet) *Expr {
	groups := map[uint64]*ByteSet{}
	var order []uint64
	for i := uint64(0); i < 256; i++ {
		if !dom.has(i) {
			continue
		}
		g := groups[t[i]]
		if g == nil {
			g = &ByteSet{}
			groups[t[i]] = g
			order = append(order, t[i])
		}
		g.add(i)
	}
	if len(order) == 0 {
		return x.konst(0, w)
	}
	// the largest group is the default
	best := 0
	for i, o := range order {
		if groups[o].count() > groups[order[best]].count() {
			best = i
		}
	}
	e := x.konst(order[best], w)
	for i, o := range order {
		if i != best {
			e = x.op(OIte, w, x.inSet(v, *groups[o]), x.konst(o, w), e)
		}
	}
	return e
}

func (x *Exprs) eval(e *Expr, model []uint64) uint64 {
	x.stamp++
	return x.ev(e, model)
}

func (x *Exprs) ev(e *Expr, model []uint64) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.op == OVar {
		if int(e.val) < len(model) {
			return model[e.val]
		}
		return 0
	}
	if e.stamp == x.stamp {
		return e.ev
	}
	var r uint64
	if e.op == OIte {
		if x.ev(e.a, model) == 1 {
			r = x.ev(e.b, model)
		} else {
			r = x.ev(e.c, model)
		}
	} else {
		a := x.ev(e.a, model)
		var b, c uint64
		if e.b != nil {
			b = x.ev(e.b, model)
		}
		if e.c != nil {
			c = x.ev(e.c, model)
		}
		r = apply(e.op, e.w, e.a.w, a, b, c, &e.set)
	}
	e.stamp = x.stamp
	e.ev = r
	return r
}

func (x *Exprs) not(a *Expr) *Expr    { return x.op(OBNot, 0, a, nil, nil) }
func (x *Exprs) and(a, b *Expr) *Expr { return x.op(OBAnd, 0, a, b, nil) }
func (x *Exprs) or(a, b *Expr) *Expr  { return x.op(OBOr, 0, a, b, nil) }

// ---- SMT-LIB printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONot: "bvnot", ONeg: "bvneg", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite"}

func ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constStr(e.val, e.w)
	case OVar:
		return fmt.Sprintf("v%d_%d", e.val, e.w)
	}
	return fmt.Sprintf("e%d", e.id)
}

func setStr(v string, s ByteSet) string {
	var parts []string
	for i := 0; i < 256; {
		if !s.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s.has(uint64(j+1)) {
			j++
		}
		switch {
		case i == j:
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", v, i))
		case i == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s #x%02x)", v, j))
		case j == 255:
			parts = append(parts, fmt.Sprintf("(bvuge %s #x%02x)", v, i))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge %s #x%02x) (bvule %s #x%02x))", v, i, v, j))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func body(e *Expr) string {
	switch e.op {
	case OInSet:
		return setStr(ref(e.a), e.set)
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, ref(e.a))
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", ref(e.a), ref(e.b), ref(e.c))
	}
	if e.b == nil {
		return fmt.Sprintf("(%s %s)", opNames[e.op], ref(e.a))
	}
	return fmt.Sprintf("(%s %s %s)", opNames[e.op], ref(e.a), ref(e.b))
}
