package main

import (
	"bytes"
	"encoding/json"
	"go/types"
	"reflect"
	"strings"
)

func concBytes(m *Machine, v Value) []byte {
	c := strOrCells(v)
	b := make([]byte, len(c))
	for i := range c {
		if c[i].X != nil {
			m.fail("symbolic bytes given to a native function")
		}
		b[i] = byte(c[i].N)
	}
	return b
}

func goBytes(b []byte) Value {
	c := make([]Value, len(b))
	for i := range b {
		c[i].N = uint64(b[i])
	}
	return Value{X: &SliceV{c}}
}

// jsonUnmarshal stands in for encoding/json on concrete input.
func jsonUnmarshal(m *Machine, fn *Fn, a []Value) Value {
	data := concBytes(m, a[0])
	iv, ok := a[1].X.(*Iface)
	if !ok || iv.t.kind != KPtr {
		m.fail("json.Unmarshal into a non-pointer")
	}
	if !json.Valid(data) {
		var x any
		err := json.Unmarshal(data, &x)
		return m.errorValue(mkStr(err.Error()))
	}
	if err := m.jsonInto(data, iv.t.elem, slot(iv.v)); err.X != nil {
		return err
	}
	return Value{}
}

func (m *Machine) jsonErr(msg string) Value { return m.errorValue(mkStr("json: " + msg)) }

func (m *Machine) jsonInto(data []byte, t *TI, p *Value) Value {
	data = bytes.TrimSpace(data)
	// a custom unmarshaller on the pointer type
	if _, named := types.Unalias(t.t).(*types.Named); named {
		if c := m.P.methodByName(tiOf(types.NewPointer(t.t)), "UnmarshalJSON"); c != nil && string(data) != "null" {
			return m.callFn(c.fn, []Value{{X: p}, goBytes(data)}, nil)
		}
	}
	if string(data) == "null" {
		switch t.kind {
		case KIface, KPtr, KMap, KSlice:
			m.store(p, Value{})
		}
		return Value{}
	}
	switch t.kind {
	case KIface:
		var x any
		json.Unmarshal(data, &x)
		m.store(p, m.jsonAny(x))
	case KString:
		var s string
		if err := json.Unmarshal(data, &s); err != nil {
			return m.jsonErr("cannot unmarshal into Go value of type string")
		}
		m.store(p, mkStr(s))
	case KBool:
		var b bool
		if json.Unmarshal(data, &b) != nil {
			return m.jsonErr("cannot unmarshal into Go value of type bool")
		}
		m.store(p, mkBool(b))
	case KInt:
		var n int64
		if json.Unmarshal(data, &n) != nil {
			return m.jsonErr("cannot unmarshal into Go value of type int")
		}
		m.store(p, Value{N: uint64(n) & mask(t.w)})
	case KSlice:
		var raw []json.RawMessage
		if json.Unmarshal(data, &raw) != nil {
			return m.jsonErr("cannot unmarshal into Go value of slice type")
		}
		out := makeSlice(t.elem, len(raw), len(raw))
		for i := range raw {
			if err := m.jsonInto(raw[i], t.elem, &out.X.(*SliceV).a[i]); err.X != nil {
				return err
			}
		}
		m.store(p, out)
	case KMap:
		dec := json.NewDecoder(bytes.NewReader(data))
		tok, _ := dec.Token()
		if tok != json.Delim('{') {
			return m.jsonErr("cannot unmarshal into Go value of map type")
		}
		mv, _ := p.X.(*MapV)
		if mv == nil {
			mv = newMap(m.epoch)
			m.store(p, Value{X: mv})
		}
		for dec.More() {
			k, _ := dec.Token()
			var raw json.RawMessage
			if err := dec.Decode(&raw); err != nil {
				return m.jsonErr(err.Error())
			}
			var cell Value
			cell = zero(t.elem)
			if err := m.jsonInto(raw, t.elem, &cell); err.X != nil {
				return err
			}
			m.mapSet(mv, t.key, mkStr(k.(string)), cell)
		}
	case KPtr:
		q := new(Value)
		*q = zero(t.elem)
		if err := m.jsonInto(data, t.elem, q); err.X != nil {
			return err
		}
		m.store(p, Value{X: q})
	case KStruct:
		var raw map[string]json.RawMessage
		if json.Unmarshal(data, &raw) != nil {
			return m.jsonErr("cannot unmarshal into Go value of struct type")
		}
		return m.jsonStruct(raw, t, p)
	default:
		m.fail("json into %s", t)
	}
	return Value{}
}

func (m *Machine) jsonStruct(raw map[string]json.RawMessage, t *TI, p *Value) Value {
	st := t.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		cell := &p.X.(*Agg).f[i]
		name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		if f.Embedded() && name == "" && t.fields[i].kind == KStruct {
			if err := m.jsonStruct(raw, t.fields[i], cell); err.X != nil {
				return err
			}
			continue
		}
		if !f.Exported() || name == "-" {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		r, ok := raw[name]
		if !ok {
			for k := range raw {
				if strings.EqualFold(k, name) {
					r, ok = raw[k], true
				}
			}
		}
		if ok {
			if err := m.jsonInto(r, t.fields[i], cell); err.X != nil {
				return err
			}
		}
	}
	return Value{}
}

func (m *Machine) jsonAny(x any) Value {
	switch x := x.(type) {
	case nil:
		return Value{}
	case string:
		return Value{X: &Iface{m.P.tString, mkStr(x)}}
	case bool:
		return Value{X: &Iface{m.P.tBool, mkBool(x)}}
	case float64:
		return Value{X: &Iface{m.P.tFloat, Value{N: floatBits(x)}}}
	case []any:
		cells := make([]Value, len(x))
		for i := range x {
			cells[i] = m.jsonAny(x[i])
		}
		return Value{X: &Iface{m.P.tAnySlice, Value{X: &SliceV{cells}}}}
	case map[string]any:
		mv := newMap(m.epoch)
		for _, k := range sortedKeys(x) {
			m.mapSet(mv, m.P.tString, mkStr(k), m.jsonAny(x[k]))
		}
		return Value{X: &Iface{m.P.tAnyMap, Value{X: mv}}}
	}
	panic("jsonAny")
}

func jsonMarshal(m *Machine, fn *Fn, a []Value) Value {
	x := m.toGo(m.P.tAny, a[0])
	b, err := json.Marshal(x)
	if err != nil {
		return tuple(Value{}, m.errorValue(mkStr(err.Error())))
	}
	return tuple(goBytes(b), Value{})
}

func (m *Machine) toGo(t *TI, v Value) any {
	switch t.kind {
	case KIface:
		i, ok := v.X.(*Iface)
		if !ok {
			return nil
		}
		return m.toGo(i.t, i.v)
	case KString:
		s, ok := concStr(v)
		if !ok {
			m.fail("symbolic JSON")
		}
		return s
	case KBool:
		return v.N != 0
	case KFloat:
		return floatOf(v.N)
	case KInt:
		if v.X != nil {
			m.fail("symbolic JSON")
		}
		return sext(v.N, t.w)
	case KSlice:
		if v.X == nil {
			return nil
		}
		out := []any{}
		for _, c := range sliceCells(v) {
			out = append(out, m.toGo(t.elem, c))
		}
		return out
	case KMap:
		mv, _ := v.X.(*MapV)
		if mv == nil {
			return nil
		}
		out := map[string]any{}
		for _, e := range mv.ents {
			if !e.dead {
				out[m.toGo(t.key, e.k).(string)] = m.toGo(t.elem, e.v)
			}
		}
		return out
	}
	m.fail("json of %s", t)
	return nil
}
