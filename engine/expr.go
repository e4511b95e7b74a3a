package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Symbolic expressions: hash-consed bit-vector and boolean terms.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot
	OZext
	OSext
	OTrunc
	OIte
	OEq
	OUlt
	OSlt
	OBAnd
	OBOr
	OBNot
	OTable
	OFEq
	OFLt
	OFLe
)

// Expr is a term. w is the width in bits; 0 means boolean.
type Expr struct {
	op      Op
	w       uint8
	nv      uint8 // number of distinct variables: 0, 1, 2 (2 = two or more)
	id      uint32
	h       uint64 // structural hash; orders operands independently of creation order
	a, b, c *Expr
	k       uint64 // constant value or variable index
	tab     []uint64
	lo, hi  uint64 // static unsigned range
	v       *Expr  // the variable when nv == 1
	truth   *[4]uint64
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// Ctx owns expressions and the path-dependent facts used when simplifying.
type Ctx struct {
	cons   map[exprKey]*Expr
	tabs   map[string]uint64
	nextID uint32
	vars   map[[2]int]*Expr
	T, F   *Expr
	facts  map[*Expr][2]uint64 // path-dependent unsigned ranges
	doms   []*[4]uint64        // per variable (w<=8) domain, nil = full
}

func newCtx() *Ctx {
	c := &Ctx{cons: map[exprKey]*Expr{}, tabs: map[string]uint64{}, facts: map[*Expr][2]uint64{}, vars: map[[2]int]*Expr{}}
	c.T = c.mk(OConst, 0, nil, nil, nil, 1)
	c.F = c.mk(OConst, 0, nil, nil, nil, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func hashOf(op Op, w uint8, a, b, c *Expr, k uint64) uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h ^= v
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	mix(uint64(op)<<8 | uint64(w))
	mix(k)
	for _, e := range [3]*Expr{a, b, c} {
		if e != nil {
			mix(e.h)
		} else {
			mix(7)
		}
	}
	return h
}

func before(a, b *Expr) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}

func (x *Ctx) mk(op Op, w uint8, a, b, c *Expr, k uint64) *Expr {
	key := exprKey{op, w, eid(a), eid(b), eid(c), k}
	if e, ok := x.cons[key]; ok {
		return e
	}
	x.nextID++
	e := &Expr{op: op, w: w, a: a, b: b, c: c, k: k, id: x.nextID, hi: mask(w)}
	for _, s := range [3]*Expr{a, b, c} {
		if s == nil || s.nv == 0 {
			continue
		}
		if s.nv == 2 || (e.v != nil && e.v != s.v) {
			e.nv = 2
		} else if e.nv == 0 {
			e.nv, e.v = 1, s.v
		}
	}
	if e.nv == 2 {
		e.v = nil
	}
	e.h = hashOf(op, w, a, b, c, k)
	e.static(x)
	x.cons[key] = e
	return e
}

// static computes the path-independent range.
func (e *Expr) static(x *Ctx) {
	m := mask(e.w)
	switch e.op {
	case OConst:
		e.lo, e.hi = e.k, e.k
	default:
		if e.w > 0 {
			e.lo, e.hi = x.computeRange(e)
			if e.hi > m || e.lo > e.hi {
				e.lo, e.hi = 0, m
			}
		}
	}
}

func (x *Ctx) rng(e *Expr) (uint64, uint64) {
	lo, hi := e.lo, e.hi
	if e.op == OConst {
		return lo, hi
	}
	if f, ok := x.facts[e]; ok {
		if f[0] > lo {
			lo = f[0]
		}
		if f[1] < hi {
			hi = f[1]
		}
	}
	if e.op == OVar && e.w <= 8 {
		if d := x.doms[e.k]; d != nil {
			l, h := domMinMax(d)
			if l > lo {
				lo = l
			}
			if h < hi {
				hi = h
			}
		}
	}
	if lo > hi {
		return e.lo, e.hi
	}
	return lo, hi
}

// prng is rng with one level of recomputation from path facts of the operands.
func (x *Ctx) prng(e *Expr) (uint64, uint64) { return x.prngd(e, 30) }

func (x *Ctx) prngd(e *Expr, d int) (uint64, uint64) {
	lo, hi := x.rng(e)
	if d > 0 && e.op != OConst && e.op != OVar && e.w > 0 && lo != hi {
		switch e.op {
		case OAdd, OMul, OZext, OTrunc:
			d-- // sums may be long
		default:
			d -= 10
		}
		l, h := x.computeRangeD(e, max(d, 0))
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
		if lo > hi {
			return e.lo, e.hi
		}
	}
	return lo, hi
}

func domMinMax(d *[4]uint64) (uint64, uint64) {
	lo, hi := uint64(255), uint64(0)
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			lo = uint64(i*64 + bits.TrailingZeros64(d[i]))
			break
		}
	}
	for i := 3; i >= 0; i-- {
		if d[i] != 0 {
			hi = uint64(i*64 + 63 - bits.LeadingZeros64(d[i]))
			break
		}
	}
	return lo, hi
}

func (x *Ctx) computeRange(e *Expr) (uint64, uint64) { return x.computeRangeD(e, 0) }

func (x *Ctx) computeRangeD(e *Expr, d int) (uint64, uint64) {
	m := mask(e.w)
	r := func(s *Expr) (uint64, uint64) {
		if d > 0 {
			return x.prngd(s, d)
		}
		return s.lo, s.hi
	}
	switch e.op {
	case OAdd:
		al, ah := r(e.a)
		bl, bh := r(e.b)
		if bl == bh && bl > m/2 { // adding a negative constant
			n := (-bl) & m
			if al >= n {
				return al - n, ah - n
			}
			return 0, m
		}
		if s, c := bits.Add64(ah, bh, 0); c == 0 && s <= m {
			return al + bl, s
		}
	case OSub:
		al, ah := r(e.a)
		bl, bh := r(e.b)
		if al >= bh {
			return al - bh, ah - bl
		}
		if ah == 0 && bl > 0 {
			return m - bh + 1, m - bl + 1
		}
	case OMul:
		al, ah := r(e.a)
		bl, bh := r(e.b)
		if h, l := bits.Mul64(ah, bh); h == 0 && l <= m {
			return al * bl, l
		}
	case OUDiv:
		al, ah := r(e.a)
		bl, bh := r(e.b)
		if bl > 0 {
			return al / bh, ah / bl
		}
	case OURem:
		_, ah := r(e.a)
		bl, bh := r(e.b)
		if bl > 0 {
			if bh-1 < ah {
				return 0, bh - 1
			}
			return 0, ah
		}
	case OAnd:
		al, ah := r(e.a)
		_, bh := r(e.b)
		if e.b.op == OConst && (e.b.k+1)&e.b.k == 0 && e.b.k != 0 {
			n := uint(bits.Len64(e.b.k))
			if n >= 64 {
				return al, ah
			}
			if al>>n == ah>>n {
				return al & e.b.k, ah & e.b.k
			}
		}
		if bh < ah {
			ah = bh
		}
		return 0, ah
	case OOr:
		al, ah := r(e.a)
		bl, bh := r(e.b)
		if bl > al {
			al = bl
		}
		n := bits.Len64(ah | bh)
		return al, mask(uint8(max(n, 1)))
	case OXor:
		_, ah := r(e.a)
		_, bh := r(e.b)
		n := bits.Len64(ah | bh)
		return 0, mask(uint8(max(n, 1)))
	case OLshr:
		al, ah := r(e.a)
		if e.b.op == OConst {
			if e.b.k >= 64 {
				return 0, 0
			}
			return al >> e.b.k, ah >> e.b.k
		}
		return 0, ah
	case OShl:
		al, ah := r(e.a)
		if e.b.op == OConst && e.b.k < 64 && bits.Len64(ah)+int(e.b.k) <= int(e.w) {
			return al << e.b.k, ah << e.b.k
		}
	case OZext:
		return r(e.a)
	case OSext:
		al, ah := r(e.a)
		h := uint64(1) << (e.a.w - 1)
		if ah < h {
			return al, ah
		}
		if al >= h {
			ext := m &^ mask(e.a.w)
			return al | ext, ah | ext
		}
	case OTrunc:
		al, ah := r(e.a)
		if ah <= m {
			return al, ah
		}
	case OIte:
		al, ah := r(e.b)
		bl, bh := r(e.c)
		return min(al, bl), max(ah, bh)
	case OTable:
		lo, hi := ^uint64(0), uint64(0)
		for _, v := range e.tab {
			lo, hi = min(lo, v), max(hi, v)
		}
		return lo, hi
	}
	return 0, m
}

func (x *Ctx) Const(v uint64, w uint8) *Expr { return x.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (x *Ctx) Bool(b bool) *Expr {
	if b {
		return x.T
	}
	return x.F
}

// NewVar returns variable number idx of width w (hash-consed by index and width).
func (x *Ctx) Var(idx int, w uint8) *Expr {
	for len(x.doms) <= idx {
		x.doms = append(x.doms, nil)
	}
	if e := x.vars[[2]int{idx, int(w)}]; e != nil {
		return e
	}
	x.nextID++
	e := &Expr{op: OVar, w: w, k: uint64(idx), id: x.nextID, hi: mask(w), nv: 1}
	e.v = e
	e.h = hashOf(OVar, w, nil, nil, nil, uint64(idx))
	x.vars[[2]int{idx, int(w)}] = e
	return e
}

func (e *Expr) isC() bool { return e.op == OConst }

func commut(a, b *Expr) (*Expr, *Expr) {
	if a.op == OConst {
		return b, a
	}
	if b.op != OConst && before(b, a) {
		return b, a
	}
	return a, b
}

func (x *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	m := mask(w)
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.isC() && b.isC() {
		return x.Const(evalBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OAdd, OMul:
		a, b = commut(a, b)
		fallthrough
	case OSub, OUDiv, OURem:
		if w >= 8 && (!b.isC() || b.k != 0) {
			if e := x.linBin(op, a, b); e != nil {
				return e
			}
		}
	}
	switch op {
	case OAdd:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return x.Bin(OAdd, a.a, x.Const(a.b.k+b.k, w))
			}
			if a.op == OIte && a.b.isC() && a.c.isC() {
				return x.Ite(a.a, x.Const(a.b.k+b.k, w), x.Const(a.c.k+b.k, w))
			}
		}
		for i := 0; i < 2; i++ {
			p, q := a, b
			if i == 1 {
				p, q = b, a
			}
			// (y/c)*c + y%c = y
			if p.op == OMul && p.b.isC() && p.a.op == OUDiv && p.a.b == p.b && q.op == OURem && q.b == p.b && q.a == p.a.a {
				return q.a
			}
			if p.op == OSub && p.b == q {
				return p.a
			}
		}
		if a.op == OAdd && a.b.isC() && !b.isC() {
			return x.Bin(OAdd, x.Bin(OAdd, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isC() {
			return x.Bin(OAdd, x.Bin(OAdd, a, b.a), b.b)
		}
		if e := x.narrow(op, a, b); e != nil {
			return e
		}
	case OSub:
		if b.isC() {
			return x.Bin(OAdd, a, x.Const(-b.k, w))
		}
		if a == b {
			return x.Const(0, w)
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if a.isC() && a.k == 0 && b.op == OSub && b.a.isC() && b.a.k == 0 {
			return b.b
		}
	case OMul:
		if b.isC() {
			switch b.k {
			case 0:
				return b
			case 1:
				return a
			}
		}
		if e := x.narrow(op, a, b); e != nil {
			return e
		}
	case OUDiv, OURem:
		if b.isC() && b.k != 0 {
			if b.k == 1 {
				if op == OUDiv {
					return a
				}
				return x.Const(0, w)
			}
			lo, hi := x.prng(a)
			if hi < b.k {
				if op == OUDiv {
					return x.Const(0, w)
				}
				return a
			}
			if op == OUDiv && lo/b.k == hi/b.k {
				return x.Const(lo/b.k, w)
			}
			for _, k := range [3]uint8{8, 16, 32} {
				if k < w && hi <= mask(k) && b.k <= mask(k) {
					return x.Zext(x.Bin(op, x.Trunc(a, k), x.Const(b.k, k)), w)
				}
			}
		}
	case OAnd:
		a, b = commut(a, b)
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			_, hi := x.prng(a)
			if (b.k+1)&b.k == 0 && hi <= b.k {
				return a
			}
			if a.op == OAnd && a.b.isC() {
				return x.Bin(OAnd, a.a, x.Const(a.b.k&b.k, w))
			}
			if a.op == OZext {
				return x.Zext(x.Bin(OAnd, a.a, x.Const(b.k, a.a.w)), w)
			}
		}
	case OOr:
		a, b = commut(a, b)
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
			if a.op == OOr && a.b.isC() {
				return x.Bin(OOr, a.a, x.Const(a.b.k|b.k, w))
			}
		}
		if a.op == OZext && (b.isC() && b.k <= mask(a.a.w) || b.op == OZext && b.a.w == a.a.w) {
			return x.Zext(x.Bin(OOr, a.a, x.Trunc(b, a.a.w)), w)
		}
	case OXor:
		a, b = commut(a, b)
		if a == b {
			return x.Const(0, w)
		}
		if b.isC() && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OAshr {
				return x.Const(0, w)
			}
			if op == OAshr {
				if b.k >= uint64(w) {
					b = x.Const(uint64(w)-1, w)
				}
				if _, hi := x.prng(a); hi <= m>>1 {
					return x.Bin(OLshr, a, b)
				}
			}
			if op == OLshr {
				if _, hi := x.prng(a); hi>>b.k == 0 {
					return x.Const(0, w)
				}
				if a.op == OZext && b.k < uint64(a.a.w) {
					return x.Zext(x.Bin(OLshr, a.a, x.Const(b.k, a.a.w)), w)
				}
				if a.op == OShl && a.b == b {
					return x.Bin(OAnd, a.a, x.Const(m>>b.k, w))
				}
				if a.op == OOr {
					return x.Bin(OOr, x.Bin(OLshr, a.a, b), x.Bin(OLshr, a.b, b))
				}
			}
		}
		if a.isC() && a.k == 0 {
			return a
		}
	}
	return x.mk(op, w, a, b, nil, 0)
}

// narrow rewrites op(zext a, zext b|const) to zext(op(a,b)) when the result fits.
func (x *Ctx) narrow(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.op != OZext {
		a, b = b, a
	}
	if a.op != OZext {
		return nil
	}
	var k uint8
	switch {
	case b.op == OZext:
		k = max(a.a.w, b.a.w)
	case b.isC():
		k = a.a.w
		if b.k > mask(k) {
			return nil
		}
	default:
		return nil
	}
	if k >= w {
		return nil
	}
	_, ah := x.prng(a)
	_, bh := x.prng(b)
	var r uint64
	switch op {
	case OAdd:
		s, c := bits.Add64(ah, bh, 0)
		if c != 0 {
			return nil
		}
		r = s
	case OMul:
		h, l := bits.Mul64(ah, bh)
		if h != 0 {
			return nil
		}
		r = l
	}
	for _, kk := range [4]uint8{8, 16, 32, 64} {
		if kk >= k && kk < w && r <= mask(kk) {
			return x.Zext(x.Bin(op, x.Trunc(a, kk), x.Trunc(b, kk)), w)
		}
	}
	return nil
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	var r uint64
	switch op {
	case OAdd:
		r = a + b
	case OSub:
		r = a - b
	case OMul:
		r = a * b
	case OUDiv:
		if b == 0 {
			return m
		}
		r = a / b
	case OURem:
		if b == 0 {
			return a
		}
		r = a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		r = uint64(x % y)
	case OAnd:
		r = a & b
	case OOr:
		r = a | b
	case OXor:
		r = a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		r = a << b
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		r = a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		r = uint64(sx(a, w) >> b)
	}
	return r & m
}

func (x *Ctx) BvNot(a *Expr) *Expr {
	if a.isC() {
		return x.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return x.mk(ONot, a.w, a, nil, nil, 0)
}

func (x *Ctx) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	if a.isC() {
		return x.Const(a.k, w)
	}
	switch a.op {
	case OZext:
		return x.Zext(a.a, w)
	case OTrunc:
		if a.a.w == w {
			if _, hi := x.prng(a.a); hi <= mask(a.w) {
				return a.a
			}
		} else if a.a.w < w {
			if _, hi := x.prng(a.a); hi <= mask(a.w) {
				return x.Zext(a.a, w)
			}
		}
	case OIte:
		if a.b.isC() && a.c.isC() {
			return x.Ite(a.a, x.Zext(a.b, w), x.Zext(a.c, w))
		}
	case OTable:
		return x.Table(a.a, a.tab, w)
	}
	return x.mk(OZext, w, a, nil, nil, 0)
}

func (x *Ctx) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.Const(uint64(sx(a.k, a.w)), w)
	}
	if _, hi := x.prng(a); hi <= mask(a.w)>>1 {
		return x.Zext(a, w)
	}
	if a.op == OSext {
		return x.Sext(a.a, w)
	}
	if isNeg(a) {
		if _, hi := x.prng(a.b); hi <= mask(a.w)/2+1 {
			return x.Bin(OSub, x.Const(0, w), x.Zext(a.b, w))
		}
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return x.Ite(a.a, x.Sext(a.b, w), x.Sext(a.c, w))
	}
	if a.op == OTable {
		t := make([]uint64, len(a.tab))
		for i, v := range a.tab {
			t[i] = uint64(sx(v, a.w)) & mask(w)
		}
		return x.Table(a.a, t, w)
	}
	return x.mk(OSext, w, a, nil, nil, 0)
}

func (x *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.Const(a.k, w)
	}
	switch a.op {
	case OTrunc:
		return x.Trunc(a.a, w)
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return x.Trunc(a.a, w)
		}
		if a.op == OZext {
			return x.Zext(a.a, w)
		}
		return x.Sext(a.a, w)
	case OAdd, OSub, OMul, OAnd, OOr, OXor:
		if isNeg(a) || simplTrunc(a.a, w) || simplTrunc(a.b, w) {
			return x.Bin(a.op, x.Trunc(a.a, w), x.Trunc(a.b, w))
		}
	case OShl:
		if a.b.isC() && simplTrunc(a.a, w) {
			if a.b.k >= uint64(w) {
				return x.Const(0, w)
			}
			return x.Bin(OShl, x.Trunc(a.a, w), x.Const(a.b.k, w))
		}
	case OIte:
		if a.b.isC() || a.c.isC() || simplTrunc(a.b, w) {
			return x.Ite(a.a, x.Trunc(a.b, w), x.Trunc(a.c, w))
		}
	case OTable:
		t := make([]uint64, len(a.tab))
		for i, v := range a.tab {
			t[i] = v & mask(w)
		}
		return x.Table(a.a, t, w)
	}
	return x.mk(OTrunc, w, a, nil, nil, 0)
}

func isNeg(e *Expr) bool { return e.op == OSub && e.a.isC() && e.a.k == 0 }

func simplTrunc(e *Expr, w uint8) bool {
	switch e.op {
	case OConst:
		return true
	case OZext, OSext:
		return e.a.w <= w
	case OTrunc:
		return true
	}
	return false
}

func (x *Ctx) Ite(c, a, b *Expr) *Expr {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return x.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isC() {
			if a.k == 1 {
				return x.Or(c, b)
			}
			return x.And(x.Not(c), b)
		}
		if b.isC() {
			if b.k == 1 {
				return x.Or(x.Not(c), a)
			}
			return x.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return x.mk(OIte, a.w, c, a, b, 0)
}

func (x *Ctx) Not(a *Expr) *Expr {
	if a.isC() {
		return x.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return x.mk(OBNot, 0, a, nil, nil, 0)
}

func (x *Ctx) And(a, b *Expr) *Expr {
	if a.isC() {
		if a.k == 1 {
			return b
		}
		return a
	}
	if b.isC() {
		if b.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return x.F
	}
	if before(b, a) {
		a, b = b, a
	}
	return x.mk(OBAnd, 0, a, b, nil, 0)
}

func (x *Ctx) Or(a, b *Expr) *Expr {
	if a.isC() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return x.T
	}
	if before(b, a) {
		a, b = b, a
	}
	return x.mk(OBOr, 0, a, b, nil, 0)
}

func (x *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return x.T
	}
	if a.w != b.w {
		panic("eq width")
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return x.Not(a)
		}
		return x.Or(x.And(a, b), x.And(x.Not(a), x.Not(b)))
	}
	a, b = commut(a, b)
	if a.isC() && b.isC() {
		return x.Bool(a.k == b.k)
	}
	al, ah := x.prng(a)
	bl, bh := x.prng(b)
	if ah < bl || bh < al {
		return x.F
	}
	if b.isC() && isSum(a) {
		if e := x.linEq(a, b); e != nil {
			return e
		}
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return x.F
			}
			return x.Eq(a.a, x.Const(b.k, a.a.w))
		case OSext:
			t := b.k & mask(a.a.w)
			if uint64(sx(t, a.a.w))&mask(a.w) != b.k {
				return x.F
			}
			return x.Eq(a.a, x.Const(t, a.a.w))
		case OAdd:
			if a.b.isC() {
				return x.Eq(a.a, x.Const(b.k-a.b.k, a.w))
			}
		case OIte:
			if a.b.isC() || a.c.isC() {
				return x.Ite(a.a, x.Eq(a.b, b), x.Eq(a.c, b))
			}
		case OTable:
			if e := x.tabTest(a, func(v uint64) bool { return v == b.k }); e != nil {
				return e
			}
		case OSub:
			if a.a.isC() {
				return x.Eq(a.b, x.Const(a.a.k-b.k, a.w))
			}
			if b.k == 0 {
				return x.Eq(a.a, a.b)
			}
		}
	} else {
		if (a.op == OZext && b.op == OZext || a.op == OSext && b.op == OSext) && a.a.w == b.a.w {
			return x.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.isC() && a.b == b.b {
			return x.Eq(a.a, b.a)
		}
		if isNeg(a) && isNeg(b) {
			return x.Eq(a.b, b.b)
		}
	}
	if isSum(a) || isSum(b) {
		if e := x.linEq(a, b); e != nil {
			return e
		}
	}
	return x.mk(OEq, 0, a, b, nil, 0)
}

func (x *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return x.F
	}
	al, ah := x.prng(a)
	bl, bh := x.prng(b)
	if ah < bl {
		return x.T
	}
	if al >= bh {
		return x.F
	}
	if b.isC() && a.op == OZext {
		if b.k > mask(a.a.w) {
			return x.T
		}
		return x.Ult(a.a, x.Const(b.k, a.a.w))
	}
	if a.isC() && b.op == OZext {
		if a.k > mask(b.a.w) {
			return x.F
		}
		return x.Ult(x.Const(a.k, b.a.w), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return x.Ult(a.a, b.a)
	}
	if a.op == OTable && b.isC() {
		if e := x.tabTest(a, func(v uint64) bool { return v < b.k }); e != nil {
			return e
		}
	}
	if b.op == OTable && a.isC() {
		if e := x.tabTest(b, func(v uint64) bool { return a.k < v }); e != nil {
			return e
		}
	}
	// y < (y/c)*c is false
	if b.op == OMul && b.b.isC() && b.a.op == OUDiv && b.a.b == b.b && b.a.a == a {
		return x.F
	}
	if a.op == OIte && (a.b.isC() && a.c.isC()) && b.isC() {
		return x.Ite(a.a, x.Ult(a.b, b), x.Ult(a.c, b))
	}
	if isSum(a) || isSum(b) {
		if e := x.linUlt(a, b); e != nil {
			return e
		}
	}
	return x.mk(OUlt, 0, a, b, nil, 0)
}

func (x *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return x.F
	}
	if a.isC() && b.isC() {
		return x.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	h := uint64(1) << (a.w - 1)
	al, ah := x.prng(a)
	bl, bh := x.prng(b)
	if ah < h && bh < h || al >= h && bl >= h {
		return x.Ult(a, b)
	}
	if al >= h && bh < h {
		return x.T
	}
	if ah < h && bl >= h {
		return x.F
	}
	if isNeg(a) && b.isC() && b.k == 0 {
		if _, hi := x.prng(a.b); hi <= h {
			return x.Not(x.Eq(a.b, b))
		}
	}
	if a.op == OSext && b.isC() {
		lo, hi := -(int64(1) << (a.a.w - 1)), int64(1)<<(a.a.w-1)-1
		v := sx(b.k, b.w)
		if v > hi {
			return x.T
		}
		if v <= lo {
			return x.F
		}
		return x.Slt(a.a, x.Const(uint64(v), a.a.w))
	}
	if b.op == OSext && a.isC() {
		lo, hi := -(int64(1) << (b.a.w - 1)), int64(1)<<(b.a.w-1)-1
		v := sx(a.k, a.w)
		if v >= hi {
			return x.F
		}
		if v < lo {
			return x.T
		}
		return x.Slt(x.Const(uint64(v), b.a.w), b.a)
	}
	if a.op == OIte && a.b.isC() && a.c.isC() && b.isC() {
		return x.Ite(a.a, x.Slt(a.b, b), x.Slt(a.c, b))
	}
	return x.mk(OSlt, 0, a, b, nil, 0)
}

// tabTest decides a condition on a table look-up when it holds for all, none or a run of the
// possible indexes.
func (x *Ctx) tabTest(t *Expr, f func(uint64) bool) *Expr {
	lo, hi := x.prng(t.a)
	if n := uint64(len(t.tab)) - 1; hi > n {
		hi = n
	}
	first, last, n := uint64(0), uint64(0), uint64(0)
	for i := lo; i <= hi; i++ {
		if f(t.tab[i]) {
			if n == 0 {
				first = i
			}
			last = i
			n++
		}
	}
	switch {
	case n == 0:
		return x.F
	case n == hi-lo+1:
		return x.T
	case n == last-first+1:
		c := x.T
		if first > lo {
			c = x.Not(x.Ult(t.a, x.Const(first, t.a.w)))
		}
		if last < hi {
			c = x.And(c, x.Ult(t.a, x.Const(last+1, t.a.w)))
		}
		if n == 1 {
			c = x.Eq(t.a, x.Const(first, t.a.w))
		}
		return c
	}
	return nil
}

// Table returns tab[idx]; idx must be known to be < len(tab).
func (x *Ctx) Table(idx *Expr, tab []uint64, w uint8) *Expr {
	if idx.isC() {
		return x.Const(tab[idx.k], w)
	}
	for idx.op == OZext {
		idx = idx.a
	}
	if idx.op == OTable {
		t := make([]uint64, len(idx.tab))
		for i, v := range idx.tab {
			if v < uint64(len(tab)) {
				t[i] = tab[v]
			}
		}
		return x.Table(idx.a, t, w)
	}
	if n := mask(idx.w); n < uint64(len(tab)) {
		tab = tab[:n+1]
	}
	lo, hi := x.prng(idx)
	if hi >= uint64(len(tab)) {
		hi = uint64(len(tab)) - 1
	}
	same, ident := true, true
	for i := lo; i <= hi; i++ {
		if tab[i] != tab[lo] {
			same = false
		}
		if tab[i] != i {
			ident = false
		}
	}
	if same {
		return x.Const(tab[lo], w)
	}
	if ident && idx.w <= w {
		return x.Zext(idx, w)
	}
	if ident && idx.w > w {
		return x.Trunc(idx, w)
	}
	key := make([]byte, 0, len(tab)*4)
	for _, v := range tab {
		key = append(key, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
	}
	id, ok := x.tabs[string(key)]
	if !ok {
		id = uint64(len(x.tabs)) + 1
		x.tabs[string(key)] = id
	}
	ck := exprKey{OTable, w, idx.id, 0, 0, id}
	if e, ok := x.cons[ck]; ok {
		return e
	}
	x.nextID++
	e := &Expr{op: OTable, w: w, a: idx, k: id, id: x.nextID, tab: append([]uint64(nil), tab...), nv: idx.nv, v: idx.v}
	th := uint64(0)
	for _, v := range tab {
		th = (th ^ v) * 0x9E3779B97F4A7C15
		th ^= th >> 31
	}
	e.h = hashOf(OTable, w, idx, nil, nil, th)
	e.lo, e.hi = x.computeRange(e)
	x.cons[ck] = e
	return e
}

func (x *Ctx) F2(op Op, a, b *Expr) *Expr {
	if a.isC() && b.isC() {
		return x.Bool(evalF(op, a.k, b.k))
	}
	return x.mk(op, 0, a, b, nil, 0)
}

func evalF(op Op, a, b uint64) bool {
	f, g := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OFEq:
		return f == g
	case OFLt:
		return f < g
	case OFLe:
		return f <= g
	}
	panic("evalF")
}

// eval evaluates e under an assignment; memo is keyed by id.
func eval(e *Expr, val func(*Expr) uint64, memo map[uint32]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		return val(e) & mask(e.w)
	}
	if memo != nil {
		if r, ok := memo[e.id]; ok {
			return r
		}
	}
	var r uint64
	bb := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case OZext:
		r = eval(e.a, val, memo)
	case OSext:
		r = uint64(sx(eval(e.a, val, memo), e.a.w)) & mask(e.w)
	case OTrunc:
		r = eval(e.a, val, memo) & mask(e.w)
	case ONot:
		r = ^eval(e.a, val, memo) & mask(e.w)
	case OIte:
		if eval(e.a, val, memo) == 1 {
			r = eval(e.b, val, memo)
		} else {
			r = eval(e.c, val, memo)
		}
	case OEq:
		r = bb(eval(e.a, val, memo) == eval(e.b, val, memo))
	case OUlt:
		r = bb(eval(e.a, val, memo) < eval(e.b, val, memo))
	case OSlt:
		r = bb(sx(eval(e.a, val, memo), e.a.w) < sx(eval(e.b, val, memo), e.b.w))
	case OBAnd:
		r = bb(eval(e.a, val, memo) == 1 && eval(e.b, val, memo) == 1)
	case OBOr:
		r = bb(eval(e.a, val, memo) == 1 || eval(e.b, val, memo) == 1)
	case OBNot:
		r = 1 - eval(e.a, val, memo)
	case OTable:
		i := eval(e.a, val, memo)
		if i >= uint64(len(e.tab)) {
			r = e.tab[len(e.tab)-1]
		} else {
			r = e.tab[i]
		}
	case OFEq, OFLt, OFLe:
		r = bb(evalF(e.op, eval(e.a, val, memo), eval(e.b, val, memo)))
	default:
		r = evalBin(e.op, e.w, eval(e.a, val, memo), eval(e.b, val, memo))
	}
	if memo != nil {
		memo[e.id] = r
	}
	return r
}

// depth-limited size estimate used to decide on memoisation
func (e *Expr) big() bool {
	n := 0
	var f func(*Expr) bool
	f = func(e *Expr) bool {
		n++
		if n > 24 {
			return true
		}
		for _, s := range [3]*Expr{e.a, e.b, e.c} {
			if s != nil && f(s) {
				return true
			}
		}
		return false
	}
	return f(e)
}

// truthSet returns, for a boolean term over one variable of at most 8 bits, the set of values
// of the variable that make it true.
func (e *Expr) truthSet() *[4]uint64 {
	if e.truth != nil {
		return e.truth
	}
	var t [4]uint64
	n := int(mask(e.v.w)) + 1
	switch e.op {
	case OBNot:
		s := e.a.truthSet()
		full := fullDom(e.v.w)
		for i := range t {
			t[i] = full[i] &^ s[i]
		}
	case OBAnd, OBOr:
		if e.a.nv == 1 && e.b.nv == 1 {
			s, u := e.a.truthSet(), e.b.truthSet()
			for i := range t {
				if e.op == OBAnd {
					t[i] = s[i] & u[i]
				} else {
					t[i] = s[i] | u[i]
				}
			}
			break
		}
		fallthrough
	default:
		big := e.big()
		var cur uint64
		val := func(*Expr) uint64 { return cur }
		for i := 0; i < n; i++ {
			cur = uint64(i)
			var memo map[uint32]uint64
			if big {
				memo = map[uint32]uint64{}
			}
			if eval(e, val, memo) == 1 {
				t[i>>6] |= 1 << (i & 63)
			}
		}
	}
	e.truth = &t
	return e.truth
}

func fullDom(w uint8) [4]uint64 {
	var t [4]uint64
	n := int(mask(w)) + 1
	for i := 0; i < n; i += 64 {
		if n-i >= 64 {
			t[i>>6] = ^uint64(0)
		} else {
			t[i>>6] = 1<<uint(n-i) - 1
		}
	}
	return t
}
