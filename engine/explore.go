package main

import (
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"sync"
)

// decision is one recorded step of a path: for branches 0/1 (forked) or 2/3 (forced, 4/5 when found
// without looking at merging), for k-way choices and concretisations the value. h guards against misaligned replay.
type decision struct {
	v uint64
	h uint32
}

func forced(t bool) uint64 {
	if t {
		return 3
	}
	return 2
}

func (m *Machine) record(v uint64, c *Expr) {
	h := uint32(0)
	if c != nil {
		h = uint32(c.h)
	}
	m.dec = append(m.dec, decision{v, h})
	m.decPos = len(m.dec)
}

func (m *Machine) replay(c *Expr) (uint64, bool) {
	if m.decPos >= len(m.dec) {
		return 0, false
	}
	d := m.dec[m.decPos]
	h := uint32(0)
	if c != nil {
		h = uint32(c.h)
	}
	if d.h != h {
		panic(fmt.Sprintf("engine: decision replay misaligned at %d%s", m.decPos, m.where()))
	}
	m.decPos++
	return d.v, true
}

func (m *Machine) replaying() bool { return m.decPos < len(m.dec) }

func (m *Machine) pushCP(alt, altEnd uint64) *choicePoint {
	cp := &choicePoint{trail: m.mTrail, pcN: m.mPC, tapeN: m.mTape, varN: m.mVar, coverN: m.mCover, obsN: m.mObs,
		decStart: m.mDec, decLen: len(m.dec), alt: alt, altEnd: altEnd, top: m.top, steps: m.mSteps}
	for f := m.top; f != nil; f = f.caller {
		cp.frames = append(cp.frames, fctl{f, f.blk, f.prev, f.pc})
	}
	m.cps = append(m.cps, cp)
	m.Forks++
	if forkSites != nil {
		noteFork(m.top)
	}
	return cp
}

// backtrack moves to the next unexplored alternative; false when none is left.
func (m *Machine) backtrack() bool {
	for len(m.cps) > 1 {
		cp := m.cps[len(m.cps)-1]
		m.rollback(cp.trail)
		if cp.alt >= cp.altEnd {
			m.cps = m.cps[:len(m.cps)-1]
			continue
		}
		m.pc = m.pc[:cp.pcN]
		m.tape = m.tape[:cp.tapeN]
		m.covers = m.covers[:cp.coverN]
		m.obs = m.obs[:cp.obsN]
		m.nvar = cp.varN
		m.stepTotal += uint64(m.steps - cp.steps)
		m.steps = cp.steps
		for _, c := range cp.frames {
			c.f.blk, c.f.prev, c.f.pc = c.blk, c.prev, c.pc
		}
		m.top = cp.top
		m.dec = m.dec[:cp.decLen]
		m.dec = append(m.dec, decision{cp.alt, cp.hash})
		m.decPos = cp.decStart
		cp.alt++
		m.modelOK = false
		if cp.modelOK {
			m.model = append(m.model[:0], cp.model...)
			m.modelOK = true
			cp.modelOK = false
		}
		if cp.alt >= cp.altEnd {
			m.cps = m.cps[:len(m.cps)-1]
		}
		return true
	}
	return false
}

func (m *Machine) rollback(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	m.trail = m.trail[:n]
}

// steal removes one alternative of the shallowest open choice point.
func (m *Machine) steal() []decision {
	for _, cp := range m.cps[1:] {
		if cp.alt < cp.altEnd {
			d := append([]decision(nil), m.dec[:cp.decLen]...)
			d = append(d, decision{cp.alt, cp.hash})
			cp.alt++
			cp.modelOK = false
			return d
		}
	}
	return nil
}

func domEmpty(d *[4]uint64) bool { return d[0]|d[1]|d[2]|d[3] == 0 }

func domCount(d *[4]uint64) int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}

func (m *Machine) dom(v *Expr) [4]uint64 {
	if d := m.x.doms[v.k]; d != nil {
		return *d
	}
	return fullDom(v.w)
}

// domFeas decides the feasibility of c and its negation from the value domain of its only
// variable; exact is false when that does not settle it.
func (m *Machine) domFeas(c *Expr) (t, f, exact bool) {
	if c.nv != 1 || c.v.w > 8 {
		return false, false, false
	}
	d := m.dom(c.v)
	ts := c.truthSet()
	for i := range d {
		if d[i]&ts[i] != 0 {
			t = true
		}
		if d[i]&^ts[i] != 0 {
			f = true
		}
	}
	if !t || !f || m.multiOf(c.v) == 0 {
		if m.paranoid {
			m.crossCheck(c, t, f)
		}
		return t, f, true
	}
	return false, false, false
}

func (m *Machine) multiOf(v *Expr) int {
	if int(v.k) < len(m.multi) {
		return m.multi[v.k]
	}
	return 0
}

func (m *Machine) crossCheck(c *Expr, t, f bool) {
	r1, _ := m.sol.check(m.pc, c, nil)
	r2, _ := m.sol.check(m.pc, m.x.Not(c), nil)
	if r1 != Unknown && (r1 == Sat) != t || r2 != Unknown && (r2 == Sat) != f {
		panic("engine: domain verdict differs from solver")
	}
}

func (m *Machine) decide(c *Expr) bool {
	if c.isC() {
		return c.k == 1
	}
	if m.spec {
		panic(specAbort{})
	}
	if v, ok := m.replay(c); ok {
		if v < 2 {
			if v == 1 {
				m.assume(c)
			} else {
				m.assume(m.x.Not(c))
			}
		}
		return v&1 == 1
	}
	t, f, exact := m.domFeas(c)
	var altModel []uint64
	if !exact {
		t, f, altModel = m.solverFeas(c)
	}
	if t && f {
		cp := m.pushCP(0, 1)
		cp.hash = uint32(c.h)
		if altModel != nil {
			cp.model, cp.modelOK = altModel, true
		}
		m.record(1, c)
		m.assume(c)
		return true
	}
	if !t && !f {
		panic(pathEnd{"infeasible", ""})
	}
	m.record(forced(t), c)
	return t
}

func (m *Machine) allVars() []*Expr {
	var vs []*Expr
	for _, t := range m.tape {
		if t.v != nil {
			vs = append(vs, t.v)
		}
	}
	return append(vs, m.aux...)
}

func (m *Machine) setModel(vars []*Expr, vals []uint64) {
	for len(m.model) < m.nvar {
		m.model = append(m.model, 0)
	}
	for i, v := range vars {
		m.model[v.k] = vals[i]
	}
	m.modelOK = true
}

func (m *Machine) modelVal(v *Expr) uint64 {
	if int(v.k) < len(m.model) {
		return m.model[v.k]
	}
	return 0
}

func (m *Machine) evalModel(e *Expr) uint64 {
	return eval(e, m.modelVal, map[uint32]uint64{})
}

// ensureModel makes m.model satisfy the path condition.
func (m *Machine) ensureModel() Res {
	if m.modelOK {
		return Sat
	}
	vs := m.allVars()
	r, vals := m.sol.check(m.pc, nil, vs)
	if r == Sat {
		m.setModel(vs, vals)
	} else if r == Unknown {
		m.Unknowns++
	}
	return r
}

// solverFeas asks the solver about both sides of c.
func (m *Machine) solverFeas(c *Expr) (t, f bool, altModel []uint64) {
	switch m.ensureModel() {
	case Unsat:
		return false, false, nil
	case Unknown:
		return true, true, nil
	}
	side := m.evalModel(c) == 1
	other := c
	if side {
		other = m.x.Not(c)
	}
	vs := m.allVars()
	r, vals := m.sol.check(m.pc, other, vs)
	if r == Unknown {
		m.Unknowns++
		return true, true, nil
	}
	if r == Unsat {
		return side, !side, nil
	}
	om := append([]uint64(nil), m.model...)
	for len(om) < m.nvar {
		om = append(om, 0)
	}
	for i, v := range vs {
		om[v.k] = vals[i]
	}
	if side {
		// the path continues with c, the alternative is the negation
		return true, true, om
	}
	// keep the model of the side explored first (c) and hand the current one to the alternative
	alt := m.model
	m.model = om
	return true, true, alt
}

// assume adds c to the path condition.
func (m *Machine) assume(c *Expr) {
	if c == m.x.T {
		return
	}
	if c == m.x.F {
		panic(pathEnd{"infeasible", ""})
	}
	if c.op == OBAnd {
		m.assume(c.a)
		m.assume(c.b)
		return
	}
	if c.op == OBNot && c.a.op == OBOr {
		m.assume(m.x.Not(c.a.a))
		m.assume(m.x.Not(c.a.b))
		return
	}
	m.pc = append(m.pc, c)
	if m.modelOK && m.evalModel(c) != 1 {
		m.modelOK = false
		if c.nv == 1 && c.v.w <= 8 && m.multiOf(c.v) == 0 {
			d := m.dom(c.v)
			ts := c.truthSet()
			for i := range d {
				d[i] &= ts[i]
			}
			if !domEmpty(&d) {
				for len(m.model) <= int(c.v.k) {
					m.model = append(m.model, 0)
				}
				lo, _ := domMinMax(&d)
				m.model[c.v.k] = lo
				m.modelOK = true
			}
		}
	}
	if c.nv == 1 && c.v.w <= 8 {
		d := m.dom(c.v)
		ts := c.truthSet()
		for i := range d {
			d[i] &= ts[i]
		}
		if domEmpty(&d) {
			panic(pathEnd{"infeasible", ""})
		}
		k := c.v.k
		old := m.x.doms[k]
		m.onUndo(func() { m.x.doms[k] = old })
		nd := d
		m.x.doms[k] = &nd
	} else if c.nv == 2 {
		seen := map[*Expr]bool{}
		var ks []uint64
		var walk func(e *Expr)
		walk = func(e *Expr) {
			if e == nil || e.nv == 0 || seen[e] {
				return
			}
			seen[e] = true
			if e.op == OVar {
				ks = append(ks, e.k)
				return
			}
			walk(e.a)
			walk(e.b)
			walk(e.c)
		}
		walk(c)
		for len(m.multi) < m.nvar {
			m.multi = append(m.multi, 0)
		}
		for _, k := range ks {
			m.multi[k]++
		}
		m.onUndo(func() {
			for _, k := range ks {
				m.multi[k]--
			}
		})
	}
	m.learn(c, true)
}

func (m *Machine) fact(e *Expr, lo, hi uint64) {
	if e.isC() {
		return
	}
	l, h := m.x.rng(e)
	lo, hi = max(lo, l), min(hi, h)
	if lo > hi || lo == l && hi == h {
		return
	}
	old, had := m.x.facts[e]
	m.onUndo(func() {
		if had {
			m.x.facts[e] = old
		} else {
			delete(m.x.facts, e)
		}
	})
	m.x.facts[e] = [2]uint64{lo, hi}
	if e.op == OZext {
		m.fact(e.a, lo, hi)
	}
	if e.op == OAdd && e.b.isC() {
		// e = a + k without wrap on the interval
		k := e.b.k
		mk := mask(e.w)
		if k <= mk/2 && lo >= k {
			_, ah := m.x.prng(e.a)
			if ah <= mk-k {
				m.fact(e.a, lo-k, hi-k)
			}
		}
	}
}

func (m *Machine) learn(c *Expr, pos bool) {
	switch c.op {
	case OBNot:
		m.learn(c.a, !pos)
	case OEq:
		if pos && c.b.isC() {
			m.fact(c.a, c.b.k, c.b.k)
		} else if !pos && c.b.isC() {
			lo, hi := m.x.rng(c.a)
			if lo == c.b.k && lo < hi {
				m.fact(c.a, lo+1, hi)
			} else if hi == c.b.k && lo < hi {
				m.fact(c.a, lo, hi-1)
			}
		}
	case OUlt:
		w := mask(c.a.w)
		if pos {
			if c.b.isC() && c.b.k > 0 {
				m.fact(c.a, 0, c.b.k-1)
			} else if c.a.isC() {
				m.fact(c.b, c.a.k+1, w)
			}
		} else {
			if c.b.isC() {
				m.fact(c.a, c.b.k, w)
			} else if c.a.isC() {
				m.fact(c.b, 0, c.a.k)
			}
		}
	case OSlt:
		h := mask(c.a.w) >> 1
		if pos && c.a.isC() && c.a.k < h {
			m.fact(c.b, c.a.k+1, h)
		} else if pos && c.a.isC() && c.a.k == mask(c.a.w) {
			m.fact(c.b, 0, h)
		} else if !pos && c.b.isC() && c.b.k <= h {
			m.fact(c.a, c.b.k, h)
		} else if pos && c.b.isC() && c.b.k == 0 {
			m.fact(c.a, h+1, mask(c.a.w))
		}
	}
}

// concretize forks until e has one value on the path.
func (m *Machine) concretize(e *Expr) uint64 {
	if e.isC() {
		return e.k
	}
	if m.spec {
		panic(specAbort{})
	}
	for {
		lo, hi := m.x.prng(e)
		if lo == hi {
			return lo
		}
		v, ok := m.replay(e)
		if !ok {
			v = m.pickValue(e)
			m.record(v, e)
		}
		if m.decide(m.x.Eq(e, m.x.Const(v, e.w))) {
			return v
		}
	}
}

func (m *Machine) pickValue(e *Expr) uint64 {
	if e.nv == 1 && e.v.w <= 8 && m.multiOf(e.v) == 0 {
		d := m.dom(e.v)
		lo, _ := domMinMax(&d)
		return eval(e, func(*Expr) uint64 { return lo }, nil)
	}
	switch m.ensureModel() {
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	case Unknown:
		m.unsupported("solver gave no value to concretise")
	}
	return m.evalModel(e)
}

// choose is a k-way fork without constraint.
func (m *Machine) choose(n uint64) uint64 {
	if m.spec {
		panic(specAbort{})
	}
	if n <= 1 {
		return 0
	}
	if v, ok := m.replay(nil); ok {
		return v
	}
	cp := m.pushCP(1, n)
	if m.modelOK {
		cp.model, cp.modelOK = append([]uint64(nil), m.model...), true
	}
	m.record(0, nil)
	return 0
}

func (m *Machine) newVar(name string, w uint8) *Expr {
	v := m.x.Var(m.nvar, w)
	m.nvar++
	m.tape = append(m.tape, tapeEntry{name: name, v: v})
	if int(v.k) < len(m.model) {
		m.model[v.k] = 0
	}
	return v
}

func (m *Machine) toInt(v Value) int64 {
	switch v := v.(type) {
	case uint64:
		return int64(v)
	case *Expr:
		return sx(m.concretize(v), v.w)
	}
	panic(fmt.Sprintf("toInt %T", v))
}

// forkSites counts choice points by place when ICSYM_FORKS is set.
var (
	forkSites map[string]int
	forkLock  sync.Mutex
)

func noteFork(f *Frame) {
	k := ""
	for n := 0; f != nil && n < 4; f, n = f.caller, n+1 {
		pos := ""
		if f.blk != nil && f.pc < len(f.blk.insts) && f.blk.insts[f.pc].src != nil {
			p := f.fn.f.Prog.Fset.Position(f.blk.insts[f.pc].src.Pos())
			pos = fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
		}
		k += fmt.Sprintf("%s(%s) < ", f.fn.f.Name(), pos)
	}
	forkLock.Lock()
	forkSites[k]++
	forkLock.Unlock()
}

func printForks() {
	var ks []string
	for k := range forkSites {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkSites[ks[i]] > forkSites[ks[j]] })
	for i, k := range ks {
		if i == 25 {
			break
		}
		fmt.Fprintln(os.Stderr, forkSites[k], k)
	}
}
