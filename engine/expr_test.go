package main

import (
	"math/rand"
	"testing"
)

// Terms built with simplification must agree with direct evaluation of the operations they
// were built from, for every assignment within the declared ranges.

type pair struct {
	e *Expr
	f func(v []uint64) uint64
}

func TestSimplify(t *testing.T) {
	n := 60000
	if testing.Short() {
		n = 5000
	}
	for seed := 0; seed < n; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		x := newCtx()
		var nums []pair
		var bools []pair
		lows, highs, widths := make([]uint64, 6), make([]uint64, 6), make([]uint8, 6)
		for i := 0; i < 6; i++ {
			w := []uint8{8, 8, 8, 16, 32, 64}[i]
			e := x.Var(i, w)
			lo, hi := uint64(0), mask(w)
			switch r.Intn(5) {
			case 0, 1:
				hi = uint64(r.Intn(100))
			case 2:
				hi = 99
			case 3:
				lo, hi = '0', '9'
			}
			if w == 8 {
				d := new([4]uint64)
				for v := lo; v <= hi; v++ {
					d[v/64] |= 1 << (v % 64)
				}
				x.doms[i] = d
			} else {
				x.facts[e] = [2]uint64{lo, hi}
			}
			lows[i], highs[i], widths[i] = lo, hi, w
			i := i
			nums = append(nums, pair{e, func(v []uint64) uint64 { return v[i] }})
		}
		ks := []uint64{0, 1, 2, 3, 4, 7, 10, 12, 24, 28, 48, 60, 97, 100, 400, 1000, 3600, 10000, 86400, 1000000}
		for i := 0; i < 14; i++ {
			p := nums[r.Intn(len(nums))]
			if r.Intn(3) > 0 {
				p = nums[len(nums)-1-r.Intn(min(len(nums), 5))]
			}
			w := p.e.w
			if r.Intn(4) == 0 {
				nw := []uint8{8, 16, 32, 64}[r.Intn(4)]
				switch {
				case nw < w:
					nums = append(nums, pair{x.Trunc(p.e, nw), func(v []uint64) uint64 { return p.f(v) & mask(nw) }})
				case nw > w && r.Intn(3) > 0:
					nums = append(nums, pair{x.Zext(p.e, nw), p.f})
				case nw > w:
					nums = append(nums, pair{x.Sext(p.e, nw), func(v []uint64) uint64 { return uint64(sx(p.f(v), w)) & mask(nw) }})
				}
				continue
			}
			if w == 8 && r.Intn(4) == 0 {
				tab := make([]uint64, 256)
				m := 1 + r.Intn(256)
				s := r.Intn(256)
				for i := range tab {
					tab[i] = uint64(i/m+s) & 255
					if r.Intn(40) == 0 {
						tab[i] = uint64(r.Intn(256))
					}
				}
				nums = append(nums, pair{x.Table(p.e, tab, 8), func(v []uint64) uint64 { return tab[p.f(v)] }})
				continue
			}
			var q pair
			if r.Intn(2) == 0 {
				k := ks[r.Intn(len(ks))]
				if r.Intn(5) == 0 {
					k = -k
				}
				k &= mask(w)
				q = pair{x.Const(k, w), func([]uint64) uint64 { return k }}
			} else {
				q = nums[r.Intn(len(nums))]
				if q.e.w > w {
					o := q
					q = pair{x.Trunc(o.e, w), func(v []uint64) uint64 { return o.f(v) & mask(w) }}
				} else if q.e.w < w {
					q.e = x.Zext(q.e, w)
				}
			}
			if r.Intn(8) == 0 {
				p, q = q, p
			}
			bb := func(b bool) uint64 {
				if b {
					return 1
				}
				return 0
			}
			switch r.Intn(6) {
			case 0:
				switch r.Intn(3) {
				case 0:
					bools = append(bools, pair{x.Eq(p.e, q.e), func(v []uint64) uint64 { return bb(p.f(v) == q.f(v)) }})
				case 1:
					bools = append(bools, pair{x.Ult(p.e, q.e), func(v []uint64) uint64 { return bb(p.f(v) < q.f(v)) }})
				case 2:
					bools = append(bools, pair{x.Slt(p.e, q.e), func(v []uint64) uint64 { return bb(sx(p.f(v), w) < sx(q.f(v), w)) }})
				}
				if r.Intn(2) == 0 {
					c := bools[len(bools)-1]
					nums = append(nums, pair{x.Ite(c.e, p.e, q.e), func(v []uint64) uint64 {
						if c.f(v) == 1 {
							return p.f(v)
						}
						return q.f(v)
					}})
				}
			default:
				op := []Op{OAdd, OAdd, OSub, OMul, OUDiv, OURem, OUDiv, OURem, OAnd, OOr, OXor, OShl, OLshr, OSDiv, OSRem}[r.Intn(15)]
				if (op == OUDiv || op == OURem || op == OSDiv || op == OSRem) && (!q.e.isC() || q.e.k == 0) {
					continue
				}
				if (op == OShl || op == OLshr) && (!q.e.isC() || q.e.k >= uint64(w)) {
					continue
				}
				nums = append(nums, pair{x.Bin(op, p.e, q.e), func(v []uint64) uint64 { return evalBin(op, w, p.f(v), q.f(v)) }})
			}
		}
		for a := 0; a < 12; a++ {
			v := make([]uint64, 6)
			for i := range v {
				switch r.Intn(6) {
				case 0:
					v[i] = lows[i]
				case 1:
					v[i] = highs[i]
				default:
					v[i] = lows[i]
					if s := highs[i] - lows[i] + 1; s != 0 {
						v[i] += r.Uint64() % s
					} else {
						v[i] = r.Uint64()
					}
				}
			}
			for i, p := range append(append([]pair{}, nums...), bools...) {
				g, want := eval(p.e, func(e *Expr) uint64 { return v[e.k] }, nil), p.f(v)
				if g != want {
					t.Fatalf("seed %d term %d: got %d, want %d (vars %v)", seed, i, g, want, v)
				}
				if p.e.w > 0 {
					if lo, hi := x.prng(p.e); want < lo || want > hi {
						t.Fatalf("seed %d term %d: value %d outside range %d..%d (vars %v)", seed, i, want, lo, hi, v)
					}
				}
			}
		}
	}
}
