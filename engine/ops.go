package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) binop(in *inst, a, b Value) Value {
	switch in.k {
	case kInt:
		return m.intop(in, a, b)
	case kBool:
		e := m.eqVal(a, b)
		switch in.tok {
		case token.EQL:
			return e
		case token.NEQ:
			return m.not(e)
		}
	case kString:
		switch in.tok {
		case token.ADD:
			if x, ok := a.(string); ok {
				if y, ok := b.(string); ok {
					return x + y
				}
				if x == "" {
					return b
				}
			}
			if y, ok := b.(string); ok && y == "" {
				return a
			}
			x, y := strBytes(a), strBytes(b)
			return &SStr{append(append(make([]Value, 0, len(x)+len(y)), x...), y...)}
		case token.EQL:
			return m.eqStr(a, b)
		case token.NEQ:
			return m.not(m.eqStr(a, b))
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	case kFloat:
		return m.floatop(in, a, b)
	case kComplex:
	default:
		switch in.tok {
		case token.EQL:
			return m.eqAny(in, a, b)
		case token.NEQ:
			return m.not(m.eqAny(in, a, b))
		}
	}
	m.unsupported(fmt.Sprintf("binop %v on kind %d", in.tok, in.k))
	return nil
}

func (m *Machine) eqAny(in *inst, a, b Value) Value {
	if n, ok := a.(NilSel); ok {
		return unexpr(n.isNil)
	} else if n, ok := b.(NilSel); ok {
		return unexpr(n.isNil)
	}
	// interface compared with a concrete value
	_, ai := a.(Iface)
	_, bi := b.(Iface)
	if ai != bi {
		x := in.src.(*ssa.BinOp)
		if ai {
			b = Iface{x.Y.Type(), b}
		} else {
			a = Iface{x.X.Type(), a}
		}
	}
	return m.eqVal(a, b)
}

func (m *Machine) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Expr:
		return unexpr(m.x.Not(v))
	}
	panic("not")
}

func (m *Machine) strLess(a, b Value, orEq bool) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y || orEq && x == y
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	r := m.x.Bool(len(x) < len(y) || orEq && len(x) == len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.expr(x[i], 8), m.expr(y[i], 8)
		r = m.x.Or(m.x.Ult(p, q), m.x.And(m.x.Eq(p, q), r))
	}
	return unexpr(r)
}

func (m *Machine) intop(in *inst, a, b Value) Value {
	w := in.w
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return m.intopC(in, x, y)
	}
	c := m.x
	switch in.tok {
	case token.SHL, token.SHR:
		p := m.expr(a, w)
		q := m.expr(b, in.w2)
		if in.sign2 {
			if m.decide(c.Slt(q, c.Const(0, q.w))) {
				m.goPanic("negative shift amount")
			}
		}
		if q.w > w {
			q = c.Ite(c.Ult(q, c.Const(uint64(w), q.w)), c.Trunc(q, w), c.Const(uint64(w), w))
		} else {
			q = c.Zext(q, w)
		}
		switch {
		case in.tok == token.SHL:
			return unexpr(c.Bin(OShl, p, q))
		case in.signed:
			return unexpr(c.Bin(OAshr, p, q))
		default:
			return unexpr(c.Bin(OLshr, p, q))
		}
	}
	p, q := m.expr(a, w), m.expr(b, w)
	switch in.tok {
	case token.ADD:
		return unexpr(c.Bin(OAdd, p, q))
	case token.SUB:
		return unexpr(c.Bin(OSub, p, q))
	case token.MUL:
		return unexpr(c.Bin(OMul, p, q))
	case token.QUO, token.REM:
		if m.decide(c.Eq(q, c.Const(0, w))) {
			m.goPanic("integer divide by zero")
		}
		if in.signed {
			h := mask(w) >> 1
			_, ph := c.prng(p)
			_, qh := c.prng(q)
			if ph <= h && qh <= h {
				if in.tok == token.QUO {
					return unexpr(c.Bin(OUDiv, p, q))
				}
				return unexpr(c.Bin(OURem, p, q))
			}
			if in.tok == token.QUO {
				return unexpr(c.Bin(OSDiv, p, q))
			}
			return unexpr(c.Bin(OSRem, p, q))
		}
		if in.tok == token.QUO {
			return unexpr(c.Bin(OUDiv, p, q))
		}
		return unexpr(c.Bin(OURem, p, q))
	case token.AND:
		return unexpr(c.Bin(OAnd, p, q))
	case token.OR:
		return unexpr(c.Bin(OOr, p, q))
	case token.XOR:
		return unexpr(c.Bin(OXor, p, q))
	case token.AND_NOT:
		return unexpr(c.Bin(OAnd, p, c.BvNot(q)))
	case token.EQL:
		return unexpr(c.Eq(p, q))
	case token.NEQ:
		return unexpr(c.Not(c.Eq(p, q)))
	case token.LSS:
		return unexpr(m.lt(p, q, in.signed))
	case token.GTR:
		return unexpr(m.lt(q, p, in.signed))
	case token.LEQ:
		return unexpr(c.Not(m.lt(q, p, in.signed)))
	case token.GEQ:
		return unexpr(c.Not(m.lt(p, q, in.signed)))
	}
	m.unsupported("int op " + in.tok.String())
	return nil
}

func (m *Machine) lt(p, q *Expr, signed bool) *Expr {
	if signed {
		return m.x.Slt(p, q)
	}
	return m.x.Ult(p, q)
}

func (m *Machine) intopC(in *inst, x, y uint64) Value {
	w := in.w
	k := mask(w)
	switch in.tok {
	case token.ADD:
		return (x + y) & k
	case token.SUB:
		return (x - y) & k
	case token.MUL:
		return (x * y) & k
	case token.QUO, token.REM:
		if y == 0 {
			m.goPanic("integer divide by zero")
		}
		if in.signed {
			p, q := sx(x, w), sx(y, w)
			if q == -1 {
				if in.tok == token.QUO {
					return uint64(-p) & k
				}
				return uint64(0)
			}
			if in.tok == token.QUO {
				return uint64(p/q) & k
			}
			return uint64(p%q) & k
		}
		if in.tok == token.QUO {
			return x / y
		}
		return x % y
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.SHL:
		if in.sign2 && sx(y, in.w2) < 0 {
			m.goPanic("negative shift amount")
		}
		if y >= uint64(w) {
			return uint64(0)
		}
		return x << y & k
	case token.SHR:
		if in.sign2 && sx(y, in.w2) < 0 {
			m.goPanic("negative shift amount")
		}
		if in.signed {
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return uint64(sx(x, w)>>y) & k
		}
		if y >= uint64(w) {
			return uint64(0)
		}
		return x >> y
	case token.EQL:
		return x == y
	case token.NEQ:
		return x != y
	}
	var l, e bool
	if in.signed {
		l, e = sx(x, w) < sx(y, w), x == y
	} else {
		l, e = x < y, x == y
	}
	switch in.tok {
	case token.LSS:
		return l
	case token.LEQ:
		return l || e
	case token.GTR:
		return !l && !e
	case token.GEQ:
		return !l
	}
	panic("intopC " + in.tok.String())
}

func (m *Machine) floatop(in *inst, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		r := func(f float64) Value {
			if in.w == 32 {
				return float64(float32(f))
			}
			return f
		}
		switch in.tok {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	p, q := m.expr(a, 64), m.expr(b, 64)
	if in.w == 64 {
		switch in.tok {
		case token.EQL:
			return unexpr(m.x.F2(OFEq, p, q))
		case token.NEQ:
			return unexpr(m.x.Not(m.x.F2(OFEq, p, q)))
		case token.LSS:
			return unexpr(m.x.F2(OFLt, p, q))
		case token.LEQ:
			return unexpr(m.x.F2(OFLe, p, q))
		case token.GTR:
			return unexpr(m.x.F2(OFLt, q, p))
		case token.GEQ:
			return unexpr(m.x.F2(OFLe, q, p))
		}
	}
	m.unsupported("symbolic float op " + in.tok.String())
	return nil
}

func (m *Machine) unop(in *inst, a Value) Value {
	switch in.tok {
	case token.NOT:
		return m.not(a)
	case token.SUB:
		switch x := a.(type) {
		case uint64:
			return -x & mask(in.w)
		case *Expr:
			if in.k == kFloat {
				return unexpr(m.x.Bin(OXor, x, m.x.Const(1<<63, 64)))
			}
			return unexpr(m.x.Bin(OSub, m.x.Const(0, in.w), x))
		case float64:
			return -x
		}
	case token.XOR:
		switch x := a.(type) {
		case uint64:
			return ^x & mask(in.w)
		case *Expr:
			return unexpr(m.x.BvNot(x))
		}
	}
	m.unsupported("unop " + in.tok.String())
	return nil
}

func (m *Machine) convInt(v Value, w uint8, signed bool, w2 uint8) Value {
	switch x := v.(type) {
	case uint64:
		if w2 <= w {
			return x & mask(w2)
		}
		if signed {
			return uint64(sx(x, w)) & mask(w2)
		}
		return x
	case *Expr:
		if w2 < w {
			return unexpr(m.x.Trunc(x, w2))
		}
		if signed {
			return unexpr(m.x.Sext(x, w2))
		}
		return unexpr(m.x.Zext(x, w2))
	}
	panic("convInt")
}

func (m *Machine) convert(in *inst, v Value) Value {
	switch in.k2 {
	case kInt:
		switch in.k {
		case kInt:
			return m.convInt(v, in.w, in.signed, in.w2)
		case kFloat:
			f, ok := v.(float64)
			if !ok {
				m.unsupported("symbolic float to int")
			}
			if in.sign2 {
				return uint64(int64(f)) & mask(in.w2)
			}
			return uint64(f) & mask(in.w2)
		case kUnsafe:
			if p, ok := v.(*Value); ok && p == nil {
				return uint64(0)
			}
			m.unsupported("pointer to integer")
		}
	case kFloat:
		switch in.k {
		case kFloat:
			f, ok := v.(float64)
			if ok {
				if in.w2 == 32 {
					return float64(float32(f))
				}
				return f
			}
			if in.w == in.w2 {
				return v
			}
		case kInt:
			x, ok := v.(uint64)
			if ok {
				var f float64
				if in.signed {
					f = float64(sx(x, in.w))
				} else {
					f = float64(x)
				}
				if in.w2 == 32 {
					f = float64(float32(f))
				}
				return f
			}
		}
		m.unsupported("symbolic conversion to float")
	case kString:
		switch in.k {
		case kString:
			return v
		case kInt:
			b := m.encodeRune(m.convInt(v, in.w, in.signed, 32))
			return mkStr(b)
		case kSlice:
			s := v.(Slice)
			if typeInfo(in.t.Underlying().(*types.Slice).Elem()).w == 8 {
				return mkStr(append([]Value(nil), s...))
			}
			var b []Value
			for _, r := range s {
				b = append(b, m.encodeRune(r)...)
			}
			return mkStr(b)
		}
	case kSlice:
		if in.k == kString {
			if typeInfo(in.t2.Underlying().(*types.Slice).Elem()).w == 8 {
				b := strBytes(v)
				r := make(Slice, len(b))
				copy(r, b)
				return r
			}
			b := strBytes(v)
			r := Slice{}
			for len(b) > 0 {
				ru, n := m.decodeRune(b)
				r = append(r, ru)
				b = b[n:]
			}
			return r
		}
		return v
	case kUnsafe, kPtr:
		switch v.(type) {
		case *Value, *DataPtr, *SymPtr:
			return v
		}
	}
	m.unsupported(fmt.Sprintf("conversion %v -> %v", in.t, in.t2))
	return nil
}

func (m *Machine) slice(fr *Frame, in *inst) Value {
	x := m.get(fr, in.a)
	var lo, hi, mx int
	bound := func(i int, def int) int {
		o := in.args[i]
		if o.reg < 0 && o.val == nil {
			return def
		}
		v := m.get(fr, o)
		switch v := v.(type) {
		case uint64:
			if v > 1<<40 {
				return -1
			}
			return int(v)
		case *Expr:
			c := m.concretize(v)
			if c > 1<<40 {
				return -1
			}
			return int(c)
		}
		panic("slice bound")
	}
	if in.k == kString {
		n := strLen(x)
		lo, hi = bound(0, 0), bound(1, n)
		if lo < 0 || hi < lo || hi > n {
			m.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(x, lo, hi)
	}
	var s []Value
	switch a := x.(type) {
	case Slice:
		s = a
	case *Value:
		if a == nil {
			m.goPanic("slice of nil array pointer")
		}
		s = (*a).(Array)
	default:
		m.unsupported(fmt.Sprintf("slice of %T", x))
	}
	lo, hi, mx = bound(0, 0), bound(1, len(s)), bound(2, cap(s))
	if lo < 0 || hi < lo || mx < hi || mx > cap(s) {
		m.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
	}
	if s == nil {
		return Slice(nil)
	}
	return Slice(s[lo:hi:mx])
}

func (m *Machine) next(it *Iter, in *inst) Value {
	if it.str {
		if it.pos >= len(it.s) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		pos := it.pos
		r, n := m.decodeRune(it.s[pos:])
		old := it.pos
		m.onUndo(func() { it.pos = old })
		it.pos = pos + n
		return Tuple{true, uint64(pos), r}
	}
	tt := in.t.(*types.Tuple)
	for it.m != nil && it.pos < len(it.m.keys) {
		old := it.pos
		m.onUndo(func() { it.pos = old })
		it.pos++
		if it.m.dead(old) {
			continue
		}
		return Tuple{true, it.m.keys[old], it.m.vals[old]}
	}
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

type tombstone struct{}

func (p *Map) dead(i int) bool { _, ok := p.keys[i].(tombstone); return ok }

// mapKey returns a Go-comparable key for concrete keys.
func mapKey(v Value) (any, bool) {
	switch v := v.(type) {
	case uint64, bool, string, float64, *Value, *ssa.Function:
		return v, true
	case Iface:
		if v.t == nil {
			return nil, true
		}
		k, ok := mapKey(v.v)
		return [2]any{v.t.String(), k}, ok
	case Struct:
		s := ""
		for _, f := range v {
			k, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v;", k, k)
		}
		return "struct:" + s, true
	case Array:
		s := ""
		for _, f := range v {
			k, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v;", k, k)
		}
		return "array:" + s, true
	}
	return nil, false
}

func (m *Machine) mapFind(p *Map, key Value) int {
	k, ok := mapKey(key)
	if ok && !p.sym {
		if i, ok := p.idx[k]; ok {
			return i
		}
		return -1
	}
	if m.spec {
		panic(specAbort{})
	}
	for i, kk := range p.keys {
		if p.dead(i) {
			continue
		}
		switch e := m.eqVal(key, kk).(type) {
		case bool:
			if e {
				return i
			}
		case *Expr:
			if m.decide(e) {
				return i
			}
		}
	}
	return -1
}

func (m *Machine) mapUpdate(p *Map, key, val Value) {
	i := m.mapFind(p, key)
	if i >= 0 {
		old := p.vals[i]
		m.onUndo(func() { p.vals[i] = old })
		p.vals[i] = val
		return
	}
	k, ok := mapKey(key)
	n := len(p.keys)
	oldSym := p.sym
	p.keys = append(p.keys, key)
	p.vals = append(p.vals, val)
	if ok {
		p.idx[k] = n
	} else {
		p.sym = true
	}
	p.live++
	m.onUndo(func() {
		p.keys = p.keys[:n]
		p.vals = p.vals[:n]
		if ok {
			delete(p.idx, k)
		}
		p.sym = oldSym
		p.live--
	})
}

func (m *Machine) mapDelete(p *Map, key Value) {
	i := m.mapFind(p, key)
	if i < 0 {
		return
	}
	ok, ov := p.keys[i], p.vals[i]
	k, conc := mapKey(ok)
	p.keys[i] = tombstone{}
	p.vals[i] = nil
	if conc {
		delete(p.idx, k)
	}
	p.live--
	m.onUndo(func() {
		p.keys[i], p.vals[i] = ok, ov
		if conc {
			p.idx[k] = i
		}
		p.live++
	})
}

func (m *Machine) typeAssert(in *inst, v Value) Value {
	i, _ := v.(Iface)
	ok := false
	var r Value
	if i.t != nil {
		if it, isI := in.t.Underlying().(*types.Interface); isI {
			ok = m.implements(i.t, it)
			r = i
		} else {
			ok = types.Identical(i.t, in.t)
			r = i.v
		}
	}
	if in.commaOk {
		if !ok {
			return Tuple{zero(in.t), false}
		}
		return Tuple{r, true}
	}
	if !ok {
		m.goPanic("interface conversion to " + in.t.String())
	}
	return r
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (m *Machine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := m.impl[k]; ok {
		return v
	}
	v := types.Implements(t, i)
	m.impl[k] = v
	return v
}

func (m *Machine) lenCap(name string, v Value) Value {
	switch v := v.(type) {
	case string:
		return uint64(len(v))
	case *SStr:
		return uint64(len(v.b))
	case Slice:
		if name == "cap" {
			return uint64(cap(v))
		}
		return uint64(len(v))
	case *Map:
		if v == nil {
			return uint64(0)
		}
		return uint64(v.live)
	case Array:
		return uint64(len(v))
	case *Value:
		return uint64(len((*v).(Array)))
	}
	m.unsupported(fmt.Sprintf("%s of %T", name, v))
	return nil
}

func (m *Machine) appendVals(s Slice, add []Value, elem types.Type) Slice {
	n := len(s)
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		for i, v := range add {
			m.storeOver(&r[n+i], v)
		}
		return r
	}
	c := growCap(cap(s), n+len(add), elem)
	r := make(Slice, n+len(add), c)
	copy(r, s)
	for i, v := range add {
		r[n+i] = copyVal(v)
	}
	if c > len(r) {
		full := r[:c]
		switch typeInfo(elem).k {
		case kStruct, kArray:
			for i := len(r); i < c; i++ {
				full[i] = zero(elem)
			}
		default:
			z := zero(elem)
			for i := len(r); i < c; i++ {
				full[i] = z
			}
		}
	}
	return r
}

// storeOver replaces the slot's value as a whole (the old value may be aliased by nobody but
// the slot itself, interior pointers included, so structures are written field by field).
func (m *Machine) storeOver(p *Value, v Value) {
	if *p == nil {
		m.write(p, copyVal(v))
		return
	}
	m.store(p, copyVal(v))
}

func growCap(old, need int, elem types.Type) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	if typeInfo(elem).k == kInt && typeInfo(elem).w == 8 && c < 8 {
		c = 8
	}
	return c
}

func (m *Machine) builtin(c *callInfo, args []Value, in *inst) Value {
	switch c.builtin {
	case "len", "cap":
		return m.lenCap(c.builtin, args[0])
	case "append":
		s := args[0].(Slice)
		elem := c.bt.Underlying().(*types.Slice).Elem()
		switch b := args[1].(type) {
		case Slice:
			if len(b) == 0 {
				return s
			}
			if len(s)+len(b) <= cap(s) {
				b = append(Slice(nil), b...)
			}
			return m.appendVals(s, b, elem)
		case string, *SStr:
			if strLen(b) == 0 {
				return s
			}
			return m.appendVals(s, strBytes(b), elem)
		}
	case "copy":
		d := args[0].(Slice)
		var s []Value
		switch b := args[1].(type) {
		case Slice:
			s = b
		case string, *SStr:
			s = strBytes(b)
		}
		n := min(len(d), len(s))
		if n > 0 {
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				m.store(&d[i], tmp[i])
			}
		}
		return uint64(n)
	case "delete":
		if p := args[0].(*Map); p != nil {
			m.mapDelete(p, args[1])
		}
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		ti := typeInfo(c.bt)
		for _, a := range args[1:] {
			x, ok1 := r.(uint64)
			y, ok2 := a.(uint64)
			switch {
			case ok1 && ok2:
				less := x < y
				if ti.signed {
					less = sx(x, ti.w) < sx(y, ti.w)
				}
				if less == (c.builtin == "max") {
					r = a
				}
			case ti.k == kInt:
				p, q := m.expr(r, ti.w), m.expr(a, ti.w)
				l := m.lt(p, q, ti.signed)
				if c.builtin == "max" {
					r = unexpr(m.x.Ite(l, q, p))
				} else {
					r = unexpr(m.x.Ite(l, p, q))
				}
			default:
				m.unsupported("min/max")
			}
		}
		return r
	case "clear":
		switch a := args[0].(type) {
		case Slice:
			elem := c.bt.Underlying().(*types.Slice).Elem()
			for i := range a {
				m.store(&a[i], zero(elem))
			}
			return nil
		}
	case "recover":
		return Iface{}
	case "String": // unsafe.String
		n := int(m.toInt(args[1]))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case *DataPtr:
			return mkStr(append([]Value(nil), p.s[:n]...))
		}
	case "StringData":
		return &DataPtr{strBytes(args[0])}
	case "SliceData":
		return &DataPtr{args[0].(Slice)}
	case "Slice":
		n := int(m.toInt(args[1]))
		switch p := args[0].(type) {
		case *DataPtr:
			return Slice(p.s[:n:n])
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.goPanic("value method called using nil pointer")
		}
		return args[0]
	}
	m.unsupported(fmt.Sprintf("builtin %s %T", c.builtin, args[0]))
	return nil
}

// --- runes ---

func utf8Pure(b []Value) (rune, int, bool) {
	var buf [4]byte
	n := 0
	for n < 4 && n < len(b) {
		c, ok := b[n].(uint64)
		if !ok {
			break
		}
		buf[n] = byte(c)
		n++
	}
	if n > 0 && (n == len(b) || n == 4 || utf8.FullRune(buf[:n])) {
		r, s := utf8.DecodeRune(buf[:n])
		return r, s, true
	}
	return 0, 0, false
}

// decodeRune decodes the first rune of b, forking on the sequence length.
func (m *Machine) decodeRune(b []Value) (Value, int) {
	if len(b) == 0 {
		return uint64(utf8.RuneError), 0
	}
	if r, n, ok := utf8Pure(b); ok {
		return uint64(uint32(r)), n
	}
	x := m.x
	k := func(v uint64) *Expr { return x.Const(v, 8) }
	in := func(e *Expr, lo, hi uint64) bool {
		return m.decide(x.And(x.Not(x.Ult(e, k(lo))), x.Not(x.Ult(k(hi), e))))
	}
	bad := func() (Value, int) { return uint64(utf8.RuneError), 1 }
	b0 := m.expr(b[0], 8)
	if m.decide(x.Ult(b0, k(0x80))) {
		return unexpr(x.Zext(b0, 32)), 1
	}
	ex := func(e *Expr, msk uint64, sh uint64) *Expr {
		z := x.Zext(x.Bin(OAnd, e, k(msk)), 32)
		return x.Bin(OShl, z, x.Const(sh, 32))
	}
	cont := func(i int, lo, hi uint64) (*Expr, bool) {
		if i >= len(b) {
			return nil, false
		}
		e := m.expr(b[i], 8)
		return e, in(e, lo, hi)
	}
	fin := func(r *Expr, n int) (Value, int) {
		v := unexpr(r)
		if e, ok := v.(*Expr); ok {
			m.rememberRune(e, b[:n:n])
		}
		return v, n
	}
	if in(b0, 0xC2, 0xDF) {
		b1, ok := cont(1, 0x80, 0xBF)
		if !ok {
			return bad()
		}
		return fin(x.Bin(OOr, ex(b0, 0x1F, 6), ex(b1, 0x3F, 0)), 2)
	}
	if in(b0, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.decide(x.Eq(b0, k(0xE0))) {
			lo = 0xA0
		} else if m.decide(x.Eq(b0, k(0xED))) {
			hi = 0x9F
		}
		b1, ok := cont(1, lo, hi)
		if !ok {
			return bad()
		}
		b2, ok := cont(2, 0x80, 0xBF)
		if !ok {
			return bad()
		}
		return fin(x.Bin(OOr, x.Bin(OOr, ex(b0, 0x0F, 12), ex(b1, 0x3F, 6)), ex(b2, 0x3F, 0)), 3)
	}
	if in(b0, 0xF0, 0xF4) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.decide(x.Eq(b0, k(0xF0))) {
			lo = 0x90
		} else if m.decide(x.Eq(b0, k(0xF4))) {
			hi = 0x8F
		}
		b1, ok := cont(1, lo, hi)
		if !ok {
			return bad()
		}
		b2, ok := cont(2, 0x80, 0xBF)
		if !ok {
			return bad()
		}
		b3, ok := cont(3, 0x80, 0xBF)
		if !ok {
			return bad()
		}
		return fin(x.Bin(OOr, x.Bin(OOr, ex(b0, 0x07, 18), ex(b1, 0x3F, 12)), x.Bin(OOr, ex(b2, 0x3F, 6), ex(b3, 0x3F, 0))), 4)
	}
	return bad()
}

// rememberRune records the bytes a symbolic rune was decoded from and its range, so that
// encoding it again gives back the same bytes.
func (m *Machine) rememberRune(e *Expr, b []Value) {
	if _, ok := m.runes[e]; ok {
		return
	}
	m.runes[e] = b
	m.onUndo(func() { delete(m.runes, e) })
	switch len(b) {
	case 2:
		m.fact(e, 0x80, 0x7FF)
	case 3:
		m.fact(e, 0x800, 0xFFFF)
	case 4:
		m.fact(e, 0x10000, 0x10FFFF)
	}
}

func (m *Machine) encodeRune(r Value) []Value {
	switch r := r.(type) {
	case uint64:
		return byteVals(string(rune(int32(uint32(r)))))
	case *Expr:
		if b, ok := m.runes[r]; ok {
			return b
		}
		x := m.x
		k := func(v uint64) *Expr { return x.Const(v, 32) }
		if m.decide(x.Ult(r, k(0x80))) {
			return []Value{unexpr(x.Trunc(r, 8))}
		}
		part := func(sh, msk, or uint64) Value {
			return unexpr(x.Bin(OOr, x.Bin(OAnd, x.Trunc(x.Bin(OLshr, r, k(sh)), 8), x.Const(msk, 8)), x.Const(or, 8)))
		}
		if m.decide(x.Ult(r, k(0x800))) {
			return []Value{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
		}
		sur := x.And(x.Not(x.Ult(r, k(0xD800))), x.Ult(r, k(0xE000)))
		if m.decide(x.Or(sur, x.Ult(k(0x10FFFF), r))) {
			return byteVals("�")
		}
		if m.decide(x.Ult(r, k(0x10000))) {
			return []Value{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
		}
		return []Value{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	panic("encodeRune")
}

var _ = math.Pi
