package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int32 // >= 0: register; -1: constant val; -2: global slot (val is *Value)
	val Value
}

type instKind uint8

const (
	iAlloc instKind = iota
	iBinOp
	iUnOp
	iDeref
	iCall
	iChangeType
	iChangeIface
	iConvert
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iTypeAssert
	iExtract
	iRange
	iNext
	iStore
	iMapUpdate
	iIf
	iJump
	iReturn
	iPanic
	iDefer
	iRunDefers
	iPhi
	iDebug
	iSliceToArr
	iUnsup
)

type inst struct {
	kind    instKind
	tok     token.Token
	w, w2   uint8
	signed  bool
	sign2   bool
	k, k2   kind
	commaOk bool
	dst     int32
	n       int
	a, b    opnd
	args    []opnd
	t       types.Type
	t2      types.Type
	call    *callInfo
	src     ssa.Instruction
}

type callInfo struct {
	invoke  bool
	method  *types.Func
	static  *fn
	builtin string
	bt      types.Type
	value   opnd
	args    []opnd
}

type block struct {
	idx    int
	insts  []inst
	nphi   int
	succs  []*block
	preds  []*block
	pure   int8 // 0 unknown, 1 pure, -1 not
	stores int8 // likewise for blocks that end with stores
	cover  bool
}

type fn struct {
	f       *ssa.Function
	name    string
	blocks  []*block
	nreg    int
	nparam  int
	nfree   int
	intrin  intrinsic
	hit     bool
	noBody  bool
	acyclic int8
	inRepo  bool
	calls   uint64
}

// fnOf compiles f on first use.
func (m *Machine) fnOf(f *ssa.Function) *fn {
	if c, ok := m.fns[f]; ok {
		return c
	}
	c := &fn{f: f, name: f.String()}
	m.fns[f] = c
	if f.Pkg != nil {
		p := f.Pkg.Pkg.Path()
		c.inRepo = p == m.prog.pkgPath || p == "vimagination.zapto.org/parser"
	}
	if in, ok := intrinsics[c.name]; ok {
		c.intrin = in
	} else if o := f.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			c.intrin = in
		}
	}
	if len(f.Blocks) == 0 {
		c.noBody = true
		return c
	}
	m.compile(c)
	return c
}

func (m *Machine) compile(c *fn) {
	f := c.f
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range f.Params {
		regs[p] = n
		n++
	}
	c.nparam = len(f.Params)
	for _, p := range f.FreeVars {
		regs[p] = n
		n++
	}
	c.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	c.nreg = int(n)
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -1}
		}
		if r, ok := regs[v]; ok {
			return opnd{reg: r}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, val: constValue(v)}
		case *ssa.Global:
			return opnd{reg: -1, val: m.global(v)}
		case *ssa.Function:
			return opnd{reg: -1, val: v}
		case *ssa.Builtin:
			return opnd{reg: -1, val: v}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	c.blocks = make([]*block, len(f.Blocks))
	for i := range f.Blocks {
		c.blocks[i] = &block{idx: i}
	}
	for i, b := range f.Blocks {
		nb := c.blocks[i]
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, c.blocks[s.Index])
		}
		for _, s := range b.Preds {
			nb.preds = append(nb.preds, c.blocks[s.Index])
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := m.compileInst(in, op)
			ci.src = in
			ci.dst = -1
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if ci.kind == iPhi {
				nb.nphi++
			}
			nb.insts = append(nb.insts, ci)
		}
	}
}

func (m *Machine) compileInst(in ssa.Instruction, op func(ssa.Value) opnd) inst {
	switch in := in.(type) {
	case *ssa.Alloc:
		return inst{kind: iAlloc, t: in.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.BinOp:
		ti := typeInfo(in.X.Type())
		tj := typeInfo(in.Y.Type())
		return inst{kind: iBinOp, tok: in.Op, a: op(in.X), b: op(in.Y), k: ti.k, w: ti.w, signed: ti.signed, w2: tj.w, sign2: tj.signed, k2: tj.k}
	case *ssa.UnOp:
		ti := typeInfo(in.X.Type())
		k := iUnOp
		if in.Op == token.MUL {
			return inst{kind: iDeref, w2: typeInfo(in.Type()).w, a: op(in.X), commaOk: nilOnly(in)}
		}
		return inst{kind: k, w2: typeInfo(in.Type()).w, tok: in.Op, a: op(in.X), k: ti.k, w: ti.w, signed: ti.signed, commaOk: in.CommaOk}
	case *ssa.Call:
		return inst{kind: iCall, call: m.compileCall(&in.Call, op)}
	case *ssa.Defer:
		return inst{kind: iDefer, call: m.compileCall(&in.Call, op)}
	case *ssa.ChangeType:
		return inst{kind: iChangeType, a: op(in.X)}
	case *ssa.ChangeInterface:
		return inst{kind: iChangeIface, a: op(in.X)}
	case *ssa.Convert:
		s, d := typeInfo(in.X.Type()), typeInfo(in.Type())
		return inst{kind: iConvert, a: op(in.X), k: s.k, w: s.w, signed: s.signed, k2: d.k, w2: d.w, sign2: d.signed, t: in.X.Type(), t2: in.Type()}
	case *ssa.MakeInterface:
		return inst{kind: iMakeIface, a: op(in.X), t: in.X.Type()}
	case *ssa.MakeClosure:
		c := inst{kind: iMakeClosure, a: op(in.Fn)}
		for _, b := range in.Bindings {
			c.args = append(c.args, op(b))
		}
		return c
	case *ssa.MakeMap:
		return inst{kind: iMakeMap}
	case *ssa.MakeSlice:
		return inst{kind: iMakeSlice, a: op(in.Len), b: op(in.Cap), t: in.Type().Underlying().(*types.Slice).Elem()}
	case *ssa.Slice:
		c := inst{kind: iSlice, a: op(in.X), t: in.X.Type(), k: typeInfo(in.X.Type()).k}
		for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
			o := opnd{reg: -1}
			if v != nil {
				o = op(v)
			}
			c.args = append(c.args, o)
		}
		return c
	case *ssa.SliceToArrayPointer:
		return inst{kind: iSliceToArr, a: op(in.X), n: int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
	case *ssa.FieldAddr:
		return inst{kind: iFieldAddr, a: op(in.X), n: in.Field}
	case *ssa.Field:
		return inst{kind: iField, a: op(in.X), n: in.Field}
	case *ssa.IndexAddr:
		ti := typeInfo(in.Index.Type())
		return inst{kind: iIndexAddr, w2: typeInfo(in.Type().Underlying().(*types.Pointer).Elem()).w, a: op(in.X), b: op(in.Index), w: ti.w, signed: ti.signed, k: typeInfo(in.X.Type()).k, commaOk: accessOnly(in)}
	case *ssa.Index:
		ti := typeInfo(in.Index.Type())
		return inst{kind: iIndex, w2: typeInfo(in.Type()).w, a: op(in.X), b: op(in.Index), w: ti.w, signed: ti.signed, k: typeInfo(in.X.Type()).k}
	case *ssa.Lookup:
		ti := typeInfo(in.Index.Type())
		return inst{kind: iLookup, w2: 8, a: op(in.X), b: op(in.Index), w: ti.w, signed: ti.signed, k: typeInfo(in.X.Type()).k, commaOk: in.CommaOk, t: in.Type()}
	case *ssa.TypeAssert:
		return inst{kind: iTypeAssert, a: op(in.X), t: in.AssertedType, commaOk: in.CommaOk}
	case *ssa.Extract:
		return inst{kind: iExtract, a: op(in.Tuple), n: in.Index}
	case *ssa.Range:
		return inst{kind: iRange, a: op(in.X), k: typeInfo(in.X.Type()).k}
	case *ssa.Next:
		return inst{kind: iNext, a: op(in.Iter), commaOk: in.IsString, t: in.Type()}
	case *ssa.Store:
		return inst{kind: iStore, a: op(in.Addr), b: op(in.Val)}
	case *ssa.MapUpdate:
		return inst{kind: iMapUpdate, a: op(in.Map), b: op(in.Key), args: []opnd{op(in.Value)}}
	case *ssa.If:
		return inst{kind: iIf, a: op(in.Cond)}
	case *ssa.Jump:
		return inst{kind: iJump}
	case *ssa.Return:
		c := inst{kind: iReturn}
		for _, r := range in.Results {
			c.args = append(c.args, op(r))
		}
		return c
	case *ssa.Panic:
		return inst{kind: iPanic, a: op(in.X)}
	case *ssa.RunDefers:
		return inst{kind: iRunDefers}
	case *ssa.Phi:
		c := inst{kind: iPhi}
		for _, e := range in.Edges {
			c.args = append(c.args, op(e))
		}
		return c
	}
	return inst{kind: iUnsup}
}

func (m *Machine) compileCall(cc *ssa.CallCommon, op func(ssa.Value) opnd) *callInfo {
	ci := &callInfo{value: op(cc.Value)}
	for _, a := range cc.Args {
		ci.args = append(ci.args, op(a))
	}
	if cc.IsInvoke() {
		ci.invoke = true
		ci.method = cc.Method
		return ci
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = v.Name()
		if len(cc.Args) > 0 {
			ci.bt = cc.Args[0].Type()
		}
		if cc.Signature().Results() != nil && cc.Signature().Results().Len() > 0 && len(cc.Args) > 0 {
			_ = v
		}
	case *ssa.Function:
		ci.static = &fn{f: v} // resolved lazily
	}
	return ci
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	ti := typeInfo(c.Type())
	switch ti.k {
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(ti.w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(ti.w)
	case kBool:
		return constant.BoolVal(c.Value)
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return f
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case kUnsafe, kPtr:
		return (*Value)(nil)
	case kIface:
		return Iface{}
	}
	panic(fmt.Sprintf("constant %v", c))
}

var _ = math.Pi

// accessOnly reports whether an address is used for nothing but loads and stores.
func accessOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !accessOnly(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// nilOnly reports whether a value is only compared with nil.
func nilOnly(v ssa.Value) bool {
	switch typeInfo(v.Type()).k {
	case kPtr, kSlice, kMap, kFunc, kIface:
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			return false
		}
		o := b.X
		if o == v {
			o = b.Y
		}
		if c, ok := o.(*ssa.Const); !ok || c.Value != nil {
			return false
		}
	}
	return true
}
