package main

import "math/bits"

// Linear forms: the exact (unwrapped) unsigned value of a term as a sum of multiples of other
// terms. They give sums, differences, scaled values, quotients and remainders by constants a
// canonical shape, so that printing a number in decimal and reading it back yields the same
// term instead of a question about division for the solver.

type lterm struct {
	a *Expr
	c int64
}

type linf struct {
	t []lterm
	k i128
}

// i128 is a signed 128-bit integer.
type i128 struct {
	hi int64
	lo uint64
}

func mulU(c int64, v uint64) i128 {
	n := c < 0
	u := uint64(c)
	if n {
		u = -u
	}
	h, l := bits.Mul64(u, v)
	r := i128{int64(h), l}
	if n {
		r.lo = -l
		r.hi = ^r.hi
		if l == 0 {
			r.hi++
		}
	}
	return r
}

func (p i128) add(q i128) i128 {
	l, c := bits.Add64(p.lo, q.lo, 0)
	return i128{p.hi + q.hi + int64(c), l}
}

func (p i128) neg() i128 {
	r := i128{^p.hi, -p.lo}
	if p.lo == 0 {
		r.hi++
	}
	return r
}

// small reports whether p is far from the limits of the representation.
func (p i128) small() bool { return -4 <= p.hi && p.hi < 4 }

func (p i128) mul(k int64) (i128, bool) {
	n := p.hi < 0
	if n {
		p = p.neg()
	}
	if p.hi > 0 {
		return p, false
	}
	r := mulU(k, p.lo)
	if n {
		r = r.neg()
	}
	return r, r.small()
}

// divmod divides by g > 0, rounding down.
func (p i128) divmod(g int64) (q, r i128) {
	n := p.hi < 0
	a := p
	if n {
		a = p.neg()
	}
	qh := uint64(a.hi) / uint64(g)
	ql, rem := bits.Div64(uint64(a.hi)%uint64(g), a.lo, uint64(g))
	q, r = i128{int64(qh), ql}, u128(rem)
	if n {
		q = q.neg()
		if rem != 0 {
			q = q.add(s128(-1))
			r = u128(uint64(g) - rem)
		}
	}
	return
}

func (p i128) less(q i128) bool { return p.hi < q.hi || p.hi == q.hi && p.lo < q.lo }

func s128(v int64) i128  { return i128{v >> 63, uint64(v)} }
func u128(v uint64) i128 { return i128{0, v} }

func (x *Ctx) linRange(l *linf) (lo, hi i128) {
	lo = l.k
	hi = lo
	for _, t := range l.t {
		al, ah := x.prng(t.a)
		if t.c < 0 {
			al, ah = ah, al
		}
		lo = lo.add(mulU(t.c, al))
		hi = hi.add(mulU(t.c, ah))
	}
	return
}

func (x *Ctx) fits(l *linf, max uint64) bool {
	lo, hi := x.linRange(l)
	return !lo.less(s128(0)) && !u128(max).less(hi)
}

const linMax = 24
const coefMax = 1 << 62

func okCoef(c int64) bool { return c < coefMax && c > -coefMax }

// lin returns the linear form of e; e itself is the only atom when nothing better is known.
func (x *Ctx) lin(e *Expr) linf {
	switch e.op {
	case OConst:
		return linf{nil, u128(e.k)}
	case OZext:
		return x.lin(e.a)
	case OTrunc:
		if _, hi := x.prng(e.a); hi <= mask(e.w) {
			return x.lin(e.a)
		}
	case OAdd, OSub:
		if l, ok := x.linSum(e.op, e.w, e.a, e.b); ok {
			return l
		}
	case OMul:
		if l, ok := x.linMul(e.w, e.a, e.b); ok {
			return l
		}
	}
	return linf{[]lterm{{e, 1}}, i128{}}
}

func (x *Ctx) linSum(op Op, w uint8, a, b *Expr) (linf, bool) {
	la := x.lin(a)
	s := int64(1)
	lb := x.lin(b)
	if op == OSub {
		s = -1
	}
	r, ok := addLin(la, lb, s)
	if ok && x.fits(&r, mask(w)) {
		return r, true
	}
	if op == OAdd && b.isC() && b.k > mask(w)/2 {
		r, ok = addLin(la, linf{nil, u128((-b.k) & mask(w))}, -1)
		if ok && x.fits(&r, mask(w)) {
			return r, true
		}
	}
	return linf{}, false
}

func addLin(p, q linf, s int64) (linf, bool) {
	r := linf{make([]lterm, 0, len(p.t)+len(q.t)), p.k}
	if s > 0 {
		r.k = p.k.add(q.k)
	} else {
		r.k = p.k.add(q.k.neg())
	}
	if !r.k.small() {
		return r, false
	}
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		switch {
		case j >= len(q.t) || i < len(p.t) && before(p.t[i].a, q.t[j].a):
			r.t = append(r.t, p.t[i])
			i++
		case i >= len(p.t) || before(q.t[j].a, p.t[i].a):
			r.t = append(r.t, lterm{q.t[j].a, s * q.t[j].c})
			j++
		default:
			c := p.t[i].c + s*q.t[j].c
			if !okCoef(c) {
				return r, false
			}
			if c != 0 {
				r.t = append(r.t, lterm{p.t[i].a, c})
			}
			i++
			j++
		}
	}
	return r, len(r.t) <= linMax
}

func scale(l linf, k int64) (linf, bool) {
	mul := func(c int64) (int64, bool) {
		v := mulU(k, uint64(abs64(c)))
		if c < 0 {
			v = mulU(-k, uint64(abs64(c)))
		}
		if v.hi != int64(v.lo)>>63 || !okCoef(int64(v.lo)) {
			return 0, false
		}
		return int64(v.lo), true
	}
	r := linf{make([]lterm, len(l.t)), i128{}}
	var ok bool
	if r.k, ok = l.k.mul(k); !ok {
		return r, false
	}
	for i, t := range l.t {
		c, ok := mul(t.c)
		if !ok {
			return r, false
		}
		r.t[i] = lterm{t.a, c}
	}
	return r, true
}

func abs64(c int64) int64 {
	if c < 0 {
		return -c
	}
	return c
}

func (x *Ctx) linMul(w uint8, a, b *Expr) (linf, bool) {
	if a.isC() {
		a, b = b, a
	}
	if !b.isC() || b.k >= coefMax || b.k == 0 {
		return linf{}, false
	}
	r, ok := scale(x.lin(a), int64(b.k))
	if !ok || !x.fits(&r, mask(w)) {
		return linf{}, false
	}
	return r, true
}

// join replaces k*n*(a/n) + k*(a%n) by k*a.
func (x *Ctx) join(l linf) linf {
	for again := true; again; {
		again = false
		for i, t := range l.t {
			if t.a.op != OURem || !t.a.b.isC() {
				continue
			}
			n := t.a.b.k
			if n >= coefMax {
				continue
			}
			want := mulU(t.c, n)
			q := x.Bin(OUDiv, t.a.a, t.a.b)
			for q.op == OZext {
				q = q.a
			}
			for j, u := range l.t {
				if u.a == q && s128(u.c) == want {
					rest := linf{nil, l.k}
					for m, v := range l.t {
						if m != i && m != j {
							rest.t = append(rest.t, v)
						}
					}
					la, ok := scale(x.lin(t.a.a), t.c)
					if !ok {
						continue
					}
					if r, ok := addLin(rest, la, 1); ok {
						l = r
						again = true
					}
					break
				}
			}
			if again {
				break
			}
		}
	}
	return l
}

func (x *Ctx) resize(e *Expr, w uint8) *Expr {
	if e.w > w {
		return x.Trunc(e, w)
	}
	return x.Zext(e, w)
}

// build returns the canonical term of width w for the exact form l.
func (x *Ctx) build(l linf, w uint8) *Expr {
	l = x.join(l)
	if len(l.t) == 0 {
		return x.Const(l.k.lo, w)
	}
	k := w
	_, hi := x.linRange(&l)
	for _, n := range [3]uint8{8, 16, 32} {
		if n < w && !u128(mask(n)).less(hi) {
			k = n
			break
		}
	}
	var s *Expr
	for _, t := range l.t {
		a := x.resize(t.a, k)
		if c := uint64(t.c) & mask(k); c != 1 {
			if c == 0 {
				continue
			}
			a = x.mk(OMul, k, a, x.Const(c, k), nil, 0)
		}
		if s == nil {
			s = a
		} else {
			s = x.mk(OAdd, k, s, a, nil, 0)
		}
	}
	if s == nil {
		return x.Const(l.k.lo, w)
	}
	if c := l.k.lo & mask(k); c != 0 {
		s = x.mk(OAdd, k, s, x.Const(c, k), nil, 0)
	}
	return x.Zext(s, w)
}

// linBin tries to give op(a, b) its canonical shape.
func (x *Ctx) linBin(op Op, a, b *Expr) *Expr {
	w := a.w
	switch op {
	case OAdd, OSub:
		if l, ok := x.linSum(op, w, a, b); ok {
			return x.build(l, w)
		}
	case OMul:
		if l, ok := x.linMul(w, a, b); ok {
			return x.build(l, w)
		}
	case OUDiv, OURem:
		if b.isC() && b.k > 1 && b.k < coefMax {
			l := x.lin(a)
			if len(l.t) > 1 || len(l.t) == 1 && (l.t[0].c != 1 || l.k != i128{}) {
				return x.linDiv(op, l, int64(b.k), w)
			}
			if op == OUDiv && len(l.t) == 1 && l.t[0].a.op == OUDiv && l.t[0].a.b.isC() {
				q := l.t[0].a
				if h, n := bits.Mul64(q.b.k, b.k); h == 0 && n <= mask(q.w) {
					return x.resize(x.Bin(OUDiv, q.a, x.Const(n, q.w)), w)
				} else if h != 0 || n > mask(q.w) {
					return x.Const(0, w)
				}
			}
		}
	}
	return nil
}

func (x *Ctx) linDiv(op Op, l linf, n int64, w uint8) *Expr {
	if e := x.divBy(op, l, n, n, w); e != nil {
		return e
	}
	best := int64(0)
	for _, t := range l.t {
		if g := abs64(t.c); g > best && g > 1 && g < n && n%g == 0 {
			if _, low := split(l, g); x.fits(&low, uint64(g)-1) {
				best = g
			}
		}
	}
	if best > 0 {
		return x.divBy(op, l, best, n, w)
	}
	return nil
}

// split separates l into g*hi + low.
func split(l linf, g int64) (hi, low linf) {
	for _, t := range l.t {
		if t.c%g == 0 {
			hi.t = append(hi.t, lterm{t.a, t.c / g})
		} else {
			low.t = append(low.t, t)
		}
	}
	hi.k, low.k = l.k.divmod(g)
	return
}

// divBy divides l by n using the divisor g of n for which the low part stays below g.
func (x *Ctx) divBy(op Op, l linf, g, n int64, w uint8) *Expr {
	hi, low := split(l, g)
	if len(hi.t) == 0 && hi.k == (i128{}) || !x.fits(&hi, mask(w)) {
		return nil
	}
	if x.fits(&low, uint64(g)-1) {
		if g == n {
			if op == OUDiv {
				return x.build(hi, w)
			}
			return x.build(low, w)
		}
		q := x.Bin(op, x.build(hi, w), x.Const(uint64(n/g), w))
		if op == OUDiv {
			return q
		}
		return x.Bin(OAdd, x.Bin(OMul, q, x.Const(uint64(g), w)), x.build(low, w))
	}
	if g == n && x.fits(&low, mask(w)) {
		r := x.Bin(op, x.build(low, w), x.Const(uint64(n), w))
		if op == OURem {
			return r
		}
		return x.Bin(OAdd, x.build(hi, w), r)
	}
	return nil
}

func isSum(e *Expr) bool {
	for e.op == OZext {
		e = e.a
	}
	return e.op == OAdd || e.op == OMul || e.op == OSub
}

// diff returns the linear form of a-b.
func (x *Ctx) diff(a, b *Expr) (linf, bool) {
	d, ok := addLin(x.lin(a), x.lin(b), -1)
	return d, ok
}

// parts looks for g with d = g*hi + low and -g < low < g.
func (x *Ctx) parts(d linf) (g int64, hi, low linf, ok bool) {
	for _, t := range d.t {
		n := abs64(t.c)
		if n <= 1 || n <= g {
			continue
		}
		h, l := split(d, n)
		for i := 0; i < 2; i++ {
			lo, up := x.linRange(&l)
			if s128(-n).less(lo) && up.less(s128(n)) && (len(l.t) > 0 || len(h.t) > 0) {
				g, hi, low, ok = n, h, l, true
				break
			}
			l.k = l.k.add(s128(-n))
			h.k = h.k.add(s128(1))
		}
	}
	return
}

// sides splits d into two non-negative sums whose difference it is.
func (x *Ctx) sides(d linf) (a, b *Expr) {
	var p, q linf
	for _, t := range d.t {
		if t.c > 0 {
			p.t = append(p.t, t)
		} else {
			q.t = append(q.t, lterm{t.a, -t.c})
		}
	}
	if d.k.hi >= 0 {
		p.k = d.k
	} else {
		q.k = d.k.neg()
	}
	if !x.fits(&p, mask(64)) || !x.fits(&q, mask(64)) {
		return nil, nil
	}
	w := uint8(64)
	for _, n := range [3]uint8{8, 16, 32} {
		if x.fits(&p, mask(n)) && x.fits(&q, mask(n)) {
			w = n
			break
		}
	}
	return x.build(p, w), x.build(q, w)
}

func (x *Ctx) isZero(d linf) *Expr {
	lo, hi := x.linRange(&d)
	z := s128(0)
	if z.less(lo) || hi.less(z) {
		return x.F
	}
	if len(d.t) == 0 {
		return x.Bool(d.k == i128{})
	}
	if _, h, l, ok := x.parts(d); ok {
		p := x.isZero(h)
		if p == nil {
			return nil
		}
		q := x.isZero(l)
		if q == nil {
			return nil
		}
		return x.And(p, q)
	}
	a, b := x.sides(d)
	if a == nil {
		return nil
	}
	return x.rawEq(a, b)
}

func (x *Ctx) rawEq(a, b *Expr) *Expr {
	for a.op == OZext && b.isC() && b.k <= mask(a.a.w) {
		a, b = a.a, x.Const(b.k, a.a.w)
	}
	for b.op == OZext && a.isC() && a.k <= mask(b.a.w) {
		a, b = x.Const(a.k, b.a.w), b.a
	}
	a, b = commut(a, b)
	if a == b {
		return x.T
	}
	if a.isC() && b.isC() {
		return x.Bool(a.k == b.k)
	}
	if !isSum(a) && !isSum(b) {
		return x.Eq(a, b)
	}
	return x.mk(OEq, 0, a, b, nil, 0)
}

func (x *Ctx) isNeg(d linf) *Expr {
	lo, hi := x.linRange(&d)
	z := s128(0)
	if !lo.less(z) {
		return x.F
	}
	if hi.less(z) {
		return x.T
	}
	if _, h, l, ok := x.parts(d); ok {
		p := x.isNeg(h)
		if p == nil {
			return nil
		}
		if lo, _ := x.linRange(&l); !lo.less(z) {
			return p
		}
		e, q := x.isZero(h), x.isNeg(l)
		if e == nil || q == nil {
			return nil
		}
		return x.Or(p, x.And(e, q))
	}
	a, b := x.sides(d)
	if a == nil {
		return nil
	}
	for a.op == OZext && b.isC() && b.k <= mask(a.a.w) {
		a, b = a.a, x.Const(b.k, a.a.w)
	}
	for b.op == OZext && a.isC() && a.k <= mask(b.a.w) {
		a, b = x.Const(a.k, b.a.w), b.a
	}
	if !isSum(a) && !isSum(b) {
		return x.Ult(a, b)
	}
	if a == b {
		return x.F
	}
	return x.mk(OUlt, 0, a, b, nil, 0)
}

func (x *Ctx) linEq(a, b *Expr) *Expr {
	d, ok := x.diff(a, b)
	if !ok {
		return nil
	}
	return x.isZero(d)
}

func (x *Ctx) linUlt(a, b *Expr) *Expr {
	d, ok := x.diff(a, b)
	if !ok {
		return nil
	}
	return x.isNeg(d)
}
