package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is the contents of a register or memory cell.
//
//	scalars      N, or X = *Expr when symbolic (N masked to the width)
//	strings      X = string or *SymStr; the zero Value is ""
//	pointers     X = *Value (nil: nil pointer)
//	structs and arrays  X = *Agg
//	slices       X = *SliceV (nil: nil slice)
//	maps         X = *MapV
//	interfaces   X = *Iface
//	functions    X = *Closure
//	tuples       X = *Tuple
type Value struct {
	N uint64
	X any
}

type SymStr struct{ b []Value }
type Agg struct{ f []Value }
type SliceV struct{ a []Value }
type Tuple struct{ f []Value }
type Iface struct {
	t *TI
	v Value
}
type Closure struct {
	fn     *Fn
	env    []Value
	native func(m *Machine, args []Value) Value
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KStruct
	KArray
	KSlice
	KMap
	KIface
	KFunc
	KChan
	KTuple
	KOther
)

// TI describes a Go type; identical types have the same *TI.
type TI struct {
	t      types.Type
	kind   Kind
	w      uint8
	signed bool
	elem   *TI
	key    *TI
	fields []*TI
	n      int
	named  string
}

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
)

func tiOf(t types.Type) *TI {
	tiMu.Lock()
	defer tiMu.Unlock()
	return tiGet(t)
}

func tiGet(t types.Type) *TI {
	t = types.Unalias(t)
	if x := tiMap.At(t); x != nil {
		return x.(*TI)
	}
	ti := &TI{t: t}
	tiMap.Set(t, ti)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.kind = KBool
		case u.Info()&types.IsInteger != 0:
			ti.kind = KInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			ti.kind = KFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			ti.kind = KComplex
		case u.Info()&types.IsString != 0:
			ti.kind = KString
		case u.Kind() == types.UnsafePointer:
			ti.kind = KUnsafe
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tiGet(u.Elem())
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tiGet(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = KArray
		ti.elem = tiGet(u.Elem())
		ti.n = int(u.Len())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tiGet(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key = tiGet(u.Key())
		ti.elem = tiGet(u.Elem())
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tiGet(u.Elem())
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tiGet(u.At(i).Type()))
		}
	default:
		ti.kind = KOther
	}
	return ti
}

func (t *TI) String() string { return t.t.String() }

func zero(t *TI) Value {
	switch t.kind {
	case KStruct, KTuple:
		a := &Agg{f: make([]Value, len(t.fields))}
		for i, f := range t.fields {
			if f.kind == KStruct || f.kind == KArray {
				a.f[i] = zero(f)
			}
		}
		if t.kind == KTuple {
			return Value{X: &Tuple{a.f}}
		}
		return Value{X: a}
	case KArray:
		a := &Agg{f: make([]Value, t.n)}
		if t.elem.kind == KStruct || t.elem.kind == KArray {
			for i := range a.f {
				a.f[i] = zero(t.elem)
			}
		}
		return Value{X: a}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if a, ok := v.X.(*Agg); ok {
		return Value{X: copyAgg(a)}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	c := &Agg{f: make([]Value, len(a.f))}
	for i, v := range a.f {
		if x, ok := v.X.(*Agg); ok {
			c.f[i] = Value{X: copyAgg(x)}
		} else {
			c.f[i] = v
		}
	}
	return c
}

// ---- strings ----

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{X: s}
}

func strLen(v Value) int {
	switch x := v.X.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	return 0
}

func strAt(v Value, i int) Value {
	switch x := v.X.(type) {
	case string:
		return Value{N: uint64(x[i])}
	case *SymStr:
		return x.b[i]
	}
	panic("strAt")
}

func strSlice(v Value, i, j int) Value {
	switch x := v.X.(type) {
	case string:
		return mkStr(x[i:j])
	case *SymStr:
		return bytesToStr(x.b[i:j])
	}
	return v
}

// bytesToStr makes a string of cells; the cells must not change afterwards.
func bytesToStr(b []Value) Value {
	for i := range b {
		if b[i].X != nil {
			return Value{X: &SymStr{b}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i].N)
	}
	return Value{X: string(s)}
}

func strBytes(v Value) []Value {
	switch x := v.X.(type) {
	case string:
		b := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			b[i].N = uint64(x[i])
		}
		return b
	case *SymStr:
		return x.b
	}
	return nil
}

func concStr(v Value) (string, bool) {
	switch x := v.X.(type) {
	case nil:
		return "", true
	case string:
		return x, true
	}
	return "", false
}

func strConcat(a, b Value) Value {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	if s, ok := a.X.(string); ok {
		if t, ok := b.X.(string); ok {
			return Value{X: s + t}
		}
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return Value{X: &SymStr{out}}
}

func sliceCells(v Value) []Value {
	if s, ok := v.X.(*SliceV); ok {
		return s.a
	}
	return nil
}

// ---- maps ----

type mapEnt struct {
	k, v Value
	dead bool
}

type MapV struct {
	ents  []mapEnt
	idx   map[any]int
	nsym  int
	live  int
	epoch uint64
}

func newMap(epoch uint64) *MapV { return &MapV{idx: map[any]int{}, epoch: epoch} }

type kIface struct {
	t *TI
	k any
}

// mapKey gives a comparable Go value for a concrete key; ok is false for symbolic keys.
func mapKey(v Value) (any, bool) {
	switch x := v.X.(type) {
	case nil:
		return v.N, true
	case string:
		return x, true
	case *Value:
		return x, true
	case *Iface:
		k, ok := mapKey(x.v)
		return kIface{x.t, k}, ok
	case *Agg:
		var sb strings.Builder
		for _, f := range x.f {
			k, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%d:%v|", k, len(fmt.Sprint(k)), k)
		}
		return kIface{nil, sb.String()}, true
	case *Expr, *SymStr:
		return nil, false
	}
	return v.X, true
}

// strKey is mapKey for string-keyed maps, where the zero Value is "".
func (t *TI) mapKey(v Value) (any, bool) {
	if t.kind == KString && v.X == nil {
		return "", true
	}
	return mapKey(v)
}

func same(a, b Value) bool {
	return a.N == b.N && a.X == b.X
}

func isConcStr(v Value) bool { _, ok := concStr(v); return ok }
