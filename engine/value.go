package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	integers            uint64 (masked to width) or *Expr
//	booleans            bool or *Expr (width 0)
//	floats              float64 or *Expr (width 64, IEEE bits)
//	strings             string or *SStr
//	pointers            *Value
//	structs, arrays     Struct, Array
//	slices              Slice
//	maps                *Map
//	interfaces          Iface
//	functions           *ssa.Function, *Closure, *ssa.Builtin
//	tuples              Tuple
type Value any

type (
	Struct []Value
	Array  []Value
	Slice  []Value
	Tuple  []Value
	Iface  struct {
		t types.Type
		v Value
	}
	Closure struct {
		fn  *ssa.Function
		env []Value
	}
	// SStr is a string with at least one symbolic byte.
	SStr struct{ b []Value }
	// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
	DataPtr struct{ s []Value }
)

type Map struct {
	keys []Value
	vals []Value
	idx  map[any]int
	live int
	sym  bool // some key is symbolic: look up by comparison
}

type Iter struct {
	m   *Map
	pos int
	s   []Value
	str bool
}

type kind uint8

const (
	kInvalid kind = iota
	kInt
	kBool
	kString
	kFloat
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kChan
	kComplex
	kUnsafe
	kTuple
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
}

func typeInfo(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float32:
			return tinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64, true}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		case types.Complex64, types.Complex128:
			return tinfo{k: kComplex}
		case types.UntypedNil:
			return tinfo{k: kPtr}
		}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Struct:
		return tinfo{k: kStruct}
	case *types.Array:
		return tinfo{k: kArray}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Tuple:
		return tinfo{k: kTuple}
	}
	return tinfo{}
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			ti := typeInfo(u.Elem())
			if ti.k == kStruct || ti.k == kArray {
				for i := range a {
					a[i] = zero(u.Elem())
				}
			} else {
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	switch ti := typeInfo(t); ti.k {
	case kInt:
		return uint64(0)
	case kBool:
		return false
	case kString:
		return ""
	case kFloat:
		return float64(0)
	case kPtr, kUnsafe:
		return (*Value)(nil)
	case kSlice:
		return Slice(nil)
	case kMap:
		return (*Map)(nil)
	case kIface:
		return Iface{}
	case kFunc:
		return (*ssa.Function)(nil)
	case kChan:
		return nil
	case kComplex:
		return complex128(0)
	}
	panic(fmt.Sprintf("zero of %v", t))
}

// copyVal copies aggregate values so that a register never aliases memory.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i, f := range v {
			switch f.(type) {
			case Struct, Array:
				c[i] = copyVal(f)
			default:
				c[i] = f
			}
		}
		return c
	case Array:
		c := make(Array, len(v))
		copy(c, v)
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i := range c {
					c[i] = copyVal(v[i])
				}
			}
		}
		return c
	}
	return v
}

func byteVals(s string) []Value {
	b := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = uint64(s[i])
	}
	return b
}

// mkStr makes a string value of bytes; the slice must not be modified afterwards.
func mkStr(b []Value) Value {
	for _, v := range b {
		if _, ok := v.(uint64); !ok {
			return &SStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, v := range b {
		r[i] = byte(v.(uint64))
	}
	return string(r)
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		return byteVals(v)
	case *SStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SStr:
		return v.b[i]
	}
	panic("strAt")
}

func strSlice(v Value, i, j int) Value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case *SStr:
		return mkStr(v.b[i:j:j])
	}
	panic("strSlice")
}

// concBytes returns the concrete bytes if all are concrete.
func concBytes(b []Value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, v := range b {
		c, ok := v.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(c)
	}
	return r, true
}

func (m *Machine) expr(v Value, w uint8) *Expr {
	switch v := v.(type) {
	case *Expr:
		return v
	case uint64:
		return m.x.Const(v, w)
	case bool:
		return m.x.Bool(v)
	case float64:
		return m.x.Const(math.Float64bits(v), 64)
	}
	panic(fmt.Sprintf("expr of %T", v))
}

func (m *Machine) boolExpr(v Value) *Expr { return m.expr(v, 0) }

// unexpr turns constant expressions back to concrete values.
func unexpr(e *Expr) Value {
	if e.op == OConst {
		if e.w == 0 {
			return e.k == 1
		}
		return e.k
	}
	return e
}

func (m *Machine) eqVal(a, b Value) Value {
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		e := b.(*Expr)
		return unexpr(m.x.Eq(e, m.x.Const(x, e.w)))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return unexpr(m.x.Eq(b.(*Expr), m.x.Bool(x)))
	case *Expr:
		if _, ok := b.(float64); ok {
			return unexpr(m.x.F2(OFEq, x, m.expr(b, 64)))
		}
		return unexpr(m.x.Eq(x, m.expr(b, x.w)))
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		return unexpr(m.x.F2(OFEq, m.expr(a, 64), b.(*Expr)))
	case string, *SStr:
		return m.eqStr(a, b)
	case *Value:
		y, _ := b.(*Value)
		return x == y
	case *Map:
		y, _ := b.(*Map)
		return x == y
	case Slice:
		y, _ := b.(Slice)
		return x == nil && y == nil
	case Struct:
		y := b.(Struct)
		r := m.x.T
		for i := range x {
			r = m.x.And(r, m.boolExpr(m.eqVal(x[i], y[i])))
			if r == m.x.F {
				return false
			}
		}
		return unexpr(r)
	case Array:
		y := b.(Array)
		r := m.x.T
		for i := range x {
			r = m.x.And(r, m.boolExpr(m.eqVal(x[i], y[i])))
			if r == m.x.F {
				return false
			}
		}
		return unexpr(r)
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if isFloat(x.t) {
			return m.eqFloat(x.v, y.v)
		}
		return m.eqVal(x.v, y.v)
	case *ssa.Function:
		switch y := b.(type) {
		case *ssa.Function:
			return x == y
		default:
			return false
		}
	case *Closure:
		y, _ := b.(*Closure)
		return x == y
	case nil:
		return b == nil
	}
	m.unsupported(fmt.Sprintf("equality of %T", a))
	return nil
}

func isFloat(t types.Type) bool { return typeInfo(t).k == kFloat }

func (m *Machine) eqFloat(a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return x == y
	}
	return unexpr(m.x.F2(OFEq, m.expr(a, 64), m.expr(b, 64)))
}

func (m *Machine) eqStr(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	return m.eqBytes(strBytes(a), strBytes(b))
}

func (m *Machine) eqBytes(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	r := m.x.T
	for i := range a {
		p, ok1 := a[i].(uint64)
		q, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if p != q {
				return false
			}
			continue
		}
	}
	for i := range a {
		_, ok1 := a[i].(uint64)
		_, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			continue
		}
		r = m.x.And(r, m.x.Eq(m.expr(a[i], 8), m.expr(b[i], 8)))
		if r == m.x.F {
			return false
		}
	}
	return unexpr(r)
}
