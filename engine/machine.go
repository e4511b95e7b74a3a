package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *fn
	env    []Value
	blk    *block
	prev   *block
	pc     int
	caller *Frame
	ret    int32 // destination register in caller
	stamp  int   // number of choice points when created
	defers []deferred
	depth  int
}

type deferred struct {
	f    Value
	args []Value
}

type undo struct {
	p   *Value
	old Value
	f   func()
}

type fctl struct {
	f    *Frame
	blk  *block
	prev *block
	pc   int
}

type choicePoint struct {
	trail, pcN, tapeN, varN, coverN, obsN int
	decStart, decLen                      int
	alt, altEnd                           uint64
	hash                                  uint32
	frames                                []fctl
	top                                   *Frame
	steps                                 int
	model                                 []uint64
	modelOK                               bool
}

type tapeEntry struct {
	name string
	v    *Expr // nil for concrete choices
	c    uint64
}

type pathEnd struct {
	status string // ok, assume, panic, unsupported, budget, violated
	msg    string
}

type specAbort struct{}

// SymPtr is the address of an element at a symbolic (in-range) index.
type SymPtr struct {
	s    []Value
	idx  *Expr
	path []int // fields of the element
}

func (p *SymPtr) at(i uint64) *Value {
	v := &p.s[i]
	for _, f := range p.path {
		v = &(*v).(Struct)[f]
	}
	return v
}

// elems lists the values p may point to.
func (p *SymPtr) elems() []Value {
	if p.path == nil {
		return p.s
	}
	r := make([]Value, len(p.s))
	for i := range r {
		r[i] = *p.at(uint64(i))
	}
	return r
}

// Machine executes one harness symbolically.
type Machine struct {
	prog                                         *Program
	x                                            *Ctx
	sol                                          *Solver
	fns                                          map[*ssa.Function]*fn
	globals                                      map[*ssa.Global]*Value
	methods                                      map[methKey]*fn
	trail                                        []undo
	cps                                          []*choicePoint
	top                                          *Frame
	pc                                           []*Expr
	multi                                        []int // per variable: number of multi-variable constraints on the path
	tape                                         []tapeEntry
	nvar                                         int
	aux                                          []*Expr // variables not on the tape (contract stubs)
	dec                                          []decision
	depthSpec                                    int
	decPos                                       int
	mTrail, mPC, mTape, mVar, mDec, mCover, mObs int
	mSteps                                       int
	steps                                        int
	limit                                        int
	spec                                         bool
	guard                                        *Expr // under which the block at hand is evaluated
	model                                        []uint64
	modelOK                                      bool
	covers                                       []string
	obs                                          []obsEntry
	params                                       []int
	packs                                        map[*Expr][6]Value
	runes                                        map[*Expr][]Value
	Unknowns                                     int
	Merged                                       int
	Forks                                        int
	locCache                                     map[string]bool
	fixed                                        map[*Value]Value
	impl                                         map[implKey]bool
	onces                                        map[*Value]bool
	havoc                                        bool
	floatTexts                                   []floatText
	stats                                        *Stats
	cross                                        *Solver
	onViolation                                  func(kind, msg string)
	paranoid                                     bool
	stepTotal                                    uint64
}

type obsEntry struct {
	name string
	v    Value
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (m *Machine) unsupported(msg string) {
	if m.spec {
		panic(specAbort{})
	}
	panic(pathEnd{"unsupported", msg + m.where()})
}

func (m *Machine) goPanic(msg string) {
	if m.spec {
		panic(specAbort{})
	}
	for f := m.top; f != nil; f = f.caller {
		if len(f.defers) > 0 {
			panic(pathEnd{"unsupported", "panic with pending defers: " + msg})
		}
	}
	panic(pathEnd{"panic", msg + m.where()})
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for f := m.top; f != nil && n < 6; f = f.caller {
		s += " < " + f.fn.name
		n++
	}
	return s
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

func (m *Machine) get(fr *Frame, o opnd) Value {
	if o.reg >= 0 {
		return fr.env[o.reg]
	}
	return o.val
}

func (m *Machine) set(fr *Frame, dst int32, v Value) {
	p := &fr.env[dst]
	if fr.stamp < len(m.cps) {
		m.trail = append(m.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) write(p *Value, v Value) {
	if len(m.cps) > 0 {
		m.trail = append(m.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) onUndo(f func()) {
	m.trail = append(m.trail, undo{f: f})
}

func (m *Machine) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		d := (*p).(Struct)
		for i := range v {
			switch v[i].(type) {
			case Struct, Array:
				m.store(&d[i], v[i])
			default:
				m.write(&d[i], v[i])
			}
		}
		return
	case Array:
		d := (*p).(Array)
		for i := range v {
			m.store(&d[i], v[i])
		}
		return
	}
	m.write(p, v)
}

func (m *Machine) pushFrame(f *fn, args []Value, free []Value, ret int32) {
	if f.noBody {
		m.unsupported("call of function without body: " + f.name)
	}
	f.hit = true
	fr := &Frame{fn: f, env: make([]Value, f.nreg), blk: f.blocks[0], caller: m.top, ret: ret, stamp: len(m.cps)}
	copy(fr.env, args)
	copy(fr.env[f.nparam:], free)
	if m.top != nil {
		fr.depth = m.top.depth + 1
		if fr.depth > 400 {
			panic(pathEnd{"budget", "call depth" + m.where()})
		}
	}
	m.top = fr
}

// run executes until the path ends (by panic of pathEnd) or the bottom frame returns.
func (m *Machine) run() {
	for {
		fr := m.top
		in := &fr.blk.insts[fr.pc]
		m.mTrail, m.mPC, m.mTape, m.mVar, m.mDec, m.mSteps = len(m.trail), len(m.pc), len(m.tape), m.nvar, m.decPos, m.steps
		m.mCover, m.mObs = len(m.covers), len(m.obs)
		m.steps++
		if m.steps > m.limit {
			panic(pathEnd{"budget", "step budget exceeded" + m.where()})
		}
		switch in.kind {
		case iIf:
			c := m.get(fr, in.a)
			switch c := c.(type) {
			case bool:
				if c {
					m.jump(fr, fr.blk.succs[0])
				} else {
					m.jump(fr, fr.blk.succs[1])
				}
			case *Expr:
				m.branch(fr, c)
			}
		case iJump:
			m.jump(fr, fr.blk.succs[0])
		case iReturn:
			var r Value
			switch len(in.args) {
			case 0:
			case 1:
				r = m.get(fr, in.args[0])
			default:
				t := make(Tuple, len(in.args))
				for i, a := range in.args {
					t[i] = m.get(fr, a)
				}
				r = t
			}
			m.top = fr.caller
			if m.top == nil {
				return
			}
			if fr.ret >= 0 {
				m.set(m.top, fr.ret, r)
			}
		case iCall:
			m.doCall(fr, in)
		case iStore:
			p := m.get(fr, in.a)
			v := m.get(fr, in.b)
			switch p := p.(type) {
			case *Value:
				if p == nil {
					m.goPanic("nil pointer dereference (store)")
				}
				m.store(p, v)
			case *SymPtr:
				m.store(p.at(m.concretize(p.idx)), v)
			default:
				m.unsupported(fmt.Sprintf("store through %T", p))
			}
			fr.pc++
		case iMapUpdate:
			mp := m.get(fr, in.a).(*Map)
			if mp == nil {
				m.goPanic("assignment to entry in nil map")
			}
			m.mapUpdate(mp, m.get(fr, in.b), m.get(fr, in.args[0]))
			fr.pc++
		case iPanic:
			v := m.get(fr, in.a)
			msg := "panic"
			if i, ok := v.(Iface); ok {
				if s, ok := i.v.(string); ok {
					msg = "panic: " + s
				} else if i.t != nil {
					msg = "panic of " + i.t.String()
				}
			}
			m.goPanic(msg)
		case iDefer:
			f, args := m.callee(fr, in.call)
			old := fr.defers
			m.onUndo(func() { fr.defers = old })
			fr.defers = append(old[:len(old):len(old)], deferred{f, args})
			fr.pc++
		case iRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				old := fr.defers
				m.onUndo(func() { fr.defers = old })
				fr.defers = old[:n-1]
				m.callValue(fr, d.f, d.args, -1)
			} else {
				fr.pc++
			}
		case iNext:
			it := m.get(fr, in.a).(*Iter)
			m.set(fr, in.dst, m.next(it, in))
			fr.pc++
		default:
			v := m.evalSimple(fr, in)
			m.set(fr, in.dst, v)
			fr.pc++
		}
	}
}

func (m *Machine) jump(fr *Frame, to *block) {
	from := fr.blk
	if to.nphi > 0 {
		e := 0
		for i, p := range to.preds {
			if p == from {
				e = i
				break
			}
		}
		if to.nphi == 1 {
			in := &to.insts[0]
			m.set(fr, in.dst, m.get(fr, in.args[e]))
		} else {
			var tmp [8]Value
			vs := tmp[:0]
			for i := 0; i < to.nphi; i++ {
				vs = append(vs, m.get(fr, to.insts[i].args[e]))
			}
			for i := 0; i < to.nphi; i++ {
				m.set(fr, to.insts[i].dst, vs[i])
			}
		}
	}
	fr.prev = from
	fr.blk = to
	fr.pc = to.nphi
}

// --- merging of side-effect-free regions ---

type leaf struct {
	g        *Expr
	from, to *block
	edge     int
	stores   []pending
}

// pending is a store in a region that is being merged.
type pending struct {
	p  *Value
	v  Value
	in *inst
}

// storesOnly reports whether a block is pure but for stores of numbers, nothing being read behind
// the first of them.
func (b *block) storesOnly() bool {
	if b.stores != 0 {
		return b.stores == 1
	}
	b.stores = -1
	if len(b.preds) != 1 || b.insts[len(b.insts)-1].kind != iJump {
		return false
	}
	stored := false
	for i := range b.insts {
		in := &b.insts[i]
		switch in.kind {
		case iStore:
			t := typeInfo(in.src.(*ssa.Store).Val.Type())
			if t.k != kInt && t.k != kBool {
				return false
			}
			stored = true
		case iBinOp, iUnOp, iChangeType, iFieldAddr, iField, iIndexAddr, iExtract, iJump:
		case iDeref, iIndex:
			if stored {
				return false
			}
		case iConvert:
			if in.k != kInt || in.k2 != kInt || stored {
				return false
			}
		default:
			return false
		}
	}
	if stored {
		b.stores = 1
	}
	return stored
}

// storeBlock evaluates such a block, leaving its stores undone.
func (m *Machine) storeBlock(fr *Frame, b *block) (ps []pending, ok bool) {
	old := m.spec
	m.spec = true
	defer func() {
		m.spec = old
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				ps, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for i := range b.insts {
		in := &b.insts[i]
		switch in.kind {
		case iJump:
		case iStore:
			p, is := m.get(fr, in.a).(*Value)
			if !is || p == nil {
				return nil, false
			}
			for _, o := range ps {
				if o.p == p {
					return nil, false
				}
			}
			ps = append(ps, pending{p, m.get(fr, in.b), in})
		default:
			m.set(fr, in.dst, m.evalSimple(fr, in))
		}
	}
	return ps, true
}

func (b *block) isPure() bool {
	if b.pure != 0 {
		return b.pure == 1
	}
	b.pure = 1
	for i := range b.insts {
		in := &b.insts[i]
		switch in.kind {
		case iBinOp, iUnOp, iDeref, iChangeType, iChangeIface, iFieldAddr, iField, iIndexAddr, iIndex, iExtract, iIf, iJump, iReturn, iPhi:
		case iMakeIface:
		case iConvert:
			if in.k != kInt || in.k2 != kInt {
				b.pure = -1
			}
		case iLookup:
			if in.k != kString {
				b.pure = -1
			}
		case iCall:
			c := in.call
			if c.builtin == "len" || c.builtin == "cap" {
				continue
			}
			if c.static == nil || c.builtin != "" {
				b.pure = -1
			}
		default:
			b.pure = -1
		}
	}
	return b.pure == 1
}

func predIndex(to, from *block, nth int) int {
	for i, p := range to.preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return 0
}

func (m *Machine) branch(fr *Frame, cond *Expr) {
	b := fr.blk
	if m.noMerge() {
		m.plainBranch(fr, cond)
		return
	}
	// Fast exit: a condition decided by the path needs no merging.
	if m.decPos >= len(m.dec) {
		if t, f, exact := m.domFeas(cond); exact && (!t || !f) {
			m.record(forced(t)+2, cond)
			if t {
				m.jump(fr, b.succs[0])
			} else {
				m.jump(fr, b.succs[1])
			}
			return
		}
	} else if d := m.dec[m.decPos]; (d.v == 4 || d.v == 5) && d.h == uint32(cond.h) {
		m.decPos++
		m.jump(fr, b.succs[5-d.v])
		return
	}
	var leaves []leaf
	budget := 10
	expanded := false
	var expand func(from, to *block, g *Expr, nth int)
	expand = func(from, to *block, g *Expr, nth int) {
		if g == m.x.F {
			return
		}
		if budget > 0 && len(to.preds) == 1 && to.isPure() && to.insts[len(to.insts)-1].kind != iReturn && to != b {
			budget--
			m.guard = g
			pure := m.pureBlock(fr, to)
			m.guard = nil
			if pure {
				expanded = true
				last := &to.insts[len(to.insts)-1]
				if last.kind == iJump {
					expand(to, to.succs[0], g, 0)
					return
				}
				c := m.boolExpr(m.get(fr, last.a))
				second := 0
				if to.succs[0] == to.succs[1] {
					second = 1
				}
				expand(to, to.succs[0], m.x.And(g, c), 0)
				expand(to, to.succs[1], m.x.And(g, m.x.Not(c)), second)
				return
			}
		}
		if budget > 0 && to.storesOnly() && to != b {
			budget--
			m.guard = g
			ps, ok := m.storeBlock(fr, to)
			m.guard = nil
			if ok {
				expanded = true
				leaves = append(leaves, leaf{g, to, to.succs[0], predIndex(to.succs[0], to, 0), ps})
				return
			}
		}
		leaves = append(leaves, leaf{g, from, to, predIndex(to, from, nth), nil})
	}
	second := 0
	if b.succs[0] == b.succs[1] {
		second = 1
	}
	expand(b, b.succs[0], cond, 0)
	expand(b, b.succs[1], m.x.Not(cond), second)
	if !expanded && second == 0 {
		m.plainBranch(fr, cond)
		return
	}
	// group by target
	type group struct {
		to     *block
		leaves []leaf
		phis   []Value
		alone  bool
	}
	var groups []*group
	for _, l := range leaves {
		merges := true
		for _, s := range l.stores {
			if _, can := m.iteValT(l.g, s.v, *s.p, s.in.src.(*ssa.Store).Val.Type()); !can {
				merges = false
			}
		}
		var vals []Value
		for i := 0; i < l.to.nphi; i++ {
			vals = append(vals, m.get(fr, l.to.insts[i].args[l.edge]))
		}
		done := false
		for _, g := range groups {
			if g.to != l.to || !merges || g.alone {
				continue
			}
			merged := make([]Value, len(vals))
			ok := true
			for i := range vals {
				v, can := m.iteVal(l.g, vals[i], g.phis[i])
				if !can {
					ok = false
					break
				}
				merged[i] = v
			}
			if ok {
				g.phis = merged
				g.leaves = append(g.leaves, l)
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, &group{to: l.to, leaves: []leaf{l}, phis: vals, alone: !merges})
		}
	}
	if len(groups) == len(leaves) {
		m.plainBranch(fr, cond)
		return
	}
	m.Merged++
	pick := groups[len(groups)-1]
	for _, g := range groups[:len(groups)-1] {
		c := m.x.F
		for _, l := range g.leaves {
			c = m.x.Or(c, l.g)
		}
		if m.decide(c) {
			pick = g
			break
		}
	}
	for i, v := range pick.phis {
		m.set(fr, pick.to.insts[i].dst, v)
	}
	for _, l := range pick.leaves {
		for _, s := range l.stores {
			v := s.v
			if len(pick.leaves) > 1 {
				v, _ = m.iteValT(l.g, s.v, *s.p, s.in.src.(*ssa.Store).Val.Type())
			}
			m.store(s.p, v)
		}
	}
	fr.prev = pick.leaves[0].from
	fr.blk = pick.to
	fr.pc = pick.to.nphi
}

func (m *Machine) noMerge() bool { return m.prog.noMerge }

func (m *Machine) plainBranch(fr *Frame, cond *Expr) {
	if m.decide(cond) {
		m.jump(fr, fr.blk.succs[0])
	} else {
		m.jump(fr, fr.blk.succs[1])
	}
}

// iteVal merges two values under guard g (true: a).
func (m *Machine) iteVal(g *Expr, a, b Value) (Value, bool) {
	switch p := a.(type) {
	case uint64:
		switch q := b.(type) {
		case uint64:
			if p == q {
				return a, true
			}
			return nil, false // width unknown here; see iteValW
		case *Expr:
			return unexpr(m.x.Ite(g, m.x.Const(p, q.w), q)), true
		}
	case bool:
		switch q := b.(type) {
		case bool:
			if p == q {
				return a, true
			}
			return unexpr(m.x.Ite(g, m.x.Bool(p), m.x.Bool(q))), true
		case *Expr:
			return unexpr(m.x.Ite(g, m.x.Bool(p), q)), true
		}
	case *Expr:
		switch q := b.(type) {
		case uint64:
			return unexpr(m.x.Ite(g, p, m.x.Const(q, p.w))), true
		case bool:
			return unexpr(m.x.Ite(g, p, m.x.Bool(q))), true
		case *Expr:
			if p.w == q.w {
				return unexpr(m.x.Ite(g, p, q)), true
			}
		}
	case string:
		if q, ok := b.(string); ok && p == q {
			return a, true
		}
	case *SStr:
		if q, ok := b.(*SStr); ok && p == q {
			return a, true
		}
	case *Value:
		if q, ok := b.(*Value); ok && p == q {
			return a, true
		}
	case Iface:
		if q, ok := b.(Iface); ok {
			if p.t == nil && q.t == nil {
				return a, true
			}
			if p.t != nil && q.t != nil && types.Identical(p.t, q.t) {
				if v, ok := m.iteVal(g, p.v, q.v); ok {
					return Iface{p.t, v}, true
				}
			}
		}
	case Slice:
		if q, ok := b.(Slice); ok && len(p) == len(q) && cap(p) == cap(q) && (len(p) == 0 && p == nil && q == nil || len(p) > 0 && &p[0] == &q[0]) {
			return a, true
		}
	case nil:
		if b == nil {
			return a, true
		}
	}
	return nil, false
}

// pureBlock evaluates the non-control instructions of a pure block; false if it may trap or fork.
func (m *Machine) pureBlock(fr *Frame, b *block) (ok bool) {
	old := m.spec
	m.spec = true
	defer func() {
		m.spec = old
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for i := range b.insts {
		in := &b.insts[i]
		switch in.kind {
		case iIf, iJump:
		case iPhi:
			m.set(fr, in.dst, m.get(fr, in.args[0]))
		case iCall:
			v, ok := m.pureCall(fr, in)
			if !ok {
				return false
			}
			m.set(fr, in.dst, v)
		default:
			m.set(fr, in.dst, m.evalSimple(fr, in))
		}
	}
	return true
}

func (m *Machine) pureCall(fr *Frame, in *inst) (Value, bool) {
	c := in.call
	if c.builtin != "" {
		return m.lenCap(c.builtin, m.get(fr, c.args[0])), true
	}
	f := m.resolveStatic(c)
	args := make([]Value, len(c.args))
	for i, a := range c.args {
		args[i] = m.get(fr, a)
	}
	if f.intrin != nil {
		if !pureIntrin[f.name] {
			return nil, false
		}
		v, ok := f.intrin(m, fr, args)
		return v, ok
	}
	return m.pureFn(f, args)
}

func (m *Machine) isAcyclicPure(f *fn) bool {
	if f.acyclic != 0 {
		return f.acyclic == 1
	}
	f.acyclic = -1
	if f.noBody || len(f.blocks) > 48 || f.nfree > 0 {
		return false
	}
	for _, b := range f.blocks {
		if !b.isPure() {
			return false
		}
	}
	// acyclic: DFS colours
	col := make([]int8, len(f.blocks))
	var dfs func(b *block) bool
	dfs = func(b *block) bool {
		col[b.idx] = 1
		for _, s := range b.succs {
			if col[s.idx] == 1 || col[s.idx] == 0 && !dfs(s) {
				return false
			}
		}
		col[b.idx] = 2
		return true
	}
	if !dfs(f.blocks[0]) {
		return false
	}
	f.acyclic = 1
	return true
}

// pureFn evaluates a side-effect-free, loop-free function with all its paths merged.
func (m *Machine) pureFn(f *fn, args []Value) (res Value, ok bool) {
	if !m.isAcyclicPure(f) || m.specDepth() > 6 {
		return nil, false
	}
	old := m.spec
	m.spec = true
	if !old {
		m.guard = nil
	}
	m.depthSpec++
	defer func() {
		m.depthSpec--
		m.spec = old
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	fr := &Frame{fn: f, env: make([]Value, f.nreg), blk: f.blocks[0], stamp: math.MaxInt}
	copy(fr.env, args)
	x := m.x
	// topological order
	var order []*block
	seen := make([]bool, len(f.blocks))
	var dfs func(b *block)
	dfs = func(b *block) {
		seen[b.idx] = true
		for i := len(b.succs) - 1; i >= 0; i-- {
			if !seen[b.succs[i].idx] {
				dfs(b.succs[i])
			}
		}
		order = append(order, b)
	}
	dfs(f.blocks[0])
	guard := make([]*Expr, len(f.blocks))
	type ek struct{ b, i int }
	edges := map[ek]*Expr{}
	addEdge := func(from, to *block, nth int, g *Expr) {
		if g == x.F {
			return
		}
		i := predIndex(to, from, nth)
		edges[ek{to.idx, i}] = g
		if guard[to.idx] == nil {
			guard[to.idx] = g
		} else {
			guard[to.idx] = x.Or(guard[to.idx], g)
		}
	}
	guard[f.blocks[0].idx] = x.T
	type ret struct {
		g *Expr
		v Value
	}
	var rets []ret
	for i := len(order) - 1; i >= 0; i-- {
		b := order[i]
		g := guard[b.idx]
		if g == nil || g == x.F {
			continue
		}
		for j := range b.insts {
			in := &b.insts[j]
			switch in.kind {
			case iPhi:
				var v Value
				first := true
				for e := len(b.preds) - 1; e >= 0; e-- {
					eg, ok := edges[ek{b.idx, e}]
					if !ok {
						continue
					}
					nv := m.get(fr, in.args[e])
					if first {
						v, first = nv, false
						continue
					}
					r, ok := m.iteValT(eg, nv, v, in.src.(ssa.Value).Type())
					if !ok {
						return nil, false
					}
					v = r
				}
				// phis of one block read the values before the block; none of ours is
				// redefined by a sibling phi in an acyclic function.
				fr.env[in.dst] = v
			case iIf:
				c := m.boolExpr(m.get(fr, in.a))
				second := 0
				if b.succs[0] == b.succs[1] {
					second = 1
				}
				addEdge(b, b.succs[0], 0, x.And(g, c))
				addEdge(b, b.succs[1], second, x.And(g, x.Not(c)))
			case iJump:
				addEdge(b, b.succs[0], 0, g)
			case iReturn:
				var r Value
				switch len(in.args) {
				case 0:
				case 1:
					r = m.get(fr, in.args[0])
				default:
					t := make(Tuple, len(in.args))
					for k, a := range in.args {
						t[k] = m.get(fr, a)
					}
					r = t
				}
				rets = append(rets, ret{g, r})
			case iCall:
				v, ok := m.pureCall(fr, in)
				if !ok {
					return nil, false
				}
				fr.env[in.dst] = v
			default:
				fr.env[in.dst] = m.evalSimple(fr, in)
			}
		}
	}
	if len(rets) == 0 {
		return nil, false
	}
	res = rets[len(rets)-1].v
	rt := f.f.Signature.Results()
	for i := len(rets) - 2; i >= 0; i-- {
		a := rets[i].v
		if t, is := a.(Tuple); is {
			u := res.(Tuple)
			n := make(Tuple, len(t))
			for k := range t {
				v, ok := m.iteValT(rets[i].g, t[k], u[k], rt.At(k).Type())
				if !ok {
					return nil, false
				}
				n[k] = v
			}
			res = n
			continue
		}
		if a == nil {
			continue
		}
		v, ok := m.iteValT(rets[i].g, a, res, rt.At(0).Type())
		if !ok {
			return nil, false
		}
		res = v
	}
	f.hit = true
	return res, true
}

func (m *Machine) specDepth() int { return m.depthSpec }

func (m *Machine) iteValT(g *Expr, a, b Value, t types.Type) (Value, bool) {
	p, ok1 := a.(uint64)
	q, ok2 := b.(uint64)
	if ok1 && ok2 && p != q {
		w := typeInfo(t).w
		return unexpr(m.x.Ite(g, m.x.Const(p, w), m.x.Const(q, w))), true
	}
	return m.iteVal(g, a, b)
}

// --- calls ---

func (m *Machine) resolveStatic(c *callInfo) *fn {
	if c.static.name == "" {
		c.static = m.fnOf(c.static.f)
	}
	return c.static
}

func (m *Machine) doCall(fr *Frame, in *inst) {
	c := in.call
	if c.builtin != "" {
		args := make([]Value, len(c.args))
		for i, a := range c.args {
			args[i] = m.get(fr, a)
		}
		v := m.builtin(c, args, in)
		m.set(fr, in.dst, v)
		fr.pc++
		return
	}
	if c.static != nil {
		f := m.resolveStatic(c)
		args := make([]Value, len(c.args))
		for i, a := range c.args {
			args[i] = m.get(fr, a)
		}
		m.callFn(fr, f, args, nil, in.dst)
		return
	}
	f, args := m.callee(fr, c)
	m.callValueAdv(fr, f, args, in.dst)
}

// callee resolves a dynamic call to a function value and its arguments.
func (m *Machine) callee(fr *Frame, c *callInfo) (Value, []Value) {
	var args []Value
	if c.invoke {
		r := m.get(fr, c.value)
		i, ok := r.(Iface)
		if !ok || i.t == nil {
			m.goPanic("nil interface method call")
		}
		k := methKey{i.t, c.method}
		f := m.methods[k]
		if f == nil {
			sf := m.prog.prog.LookupMethod(i.t, c.method.Pkg(), c.method.Name())
			if sf == nil {
				m.unsupported("method lookup " + c.method.Name())
			}
			f = m.fnOf(sf)
			m.methods[k] = f
		}
		args = append(args, i.v)
		for _, a := range c.args {
			args = append(args, m.get(fr, a))
		}
		return f, args
	}
	for _, a := range c.args {
		args = append(args, m.get(fr, a))
	}
	if c.static != nil {
		return m.resolveStatic(c), args
	}
	if c.builtin != "" {
		m.unsupported("deferred builtin " + c.builtin)
	}
	return m.get(fr, c.value), args
}

func (m *Machine) callValueAdv(fr *Frame, f Value, args []Value, dst int32) {
	switch f := f.(type) {
	case *fn:
		m.callFn(fr, f, args, nil, dst)
	case *ssa.Function:
		if f == nil {
			m.goPanic("call of nil function")
		}
		m.callFn(fr, m.fnOf(f), args, nil, dst)
	case *Closure:
		m.callFn(fr, m.fnOf(f.fn), args, f.env, dst)
	default:
		m.unsupported(fmt.Sprintf("call of %T", f))
	}
}

// callValue calls without advancing the caller (used by RunDefers).
func (m *Machine) callValue(fr *Frame, f Value, args []Value, dst int32) {
	pc := fr.pc
	m.callValueAdv(fr, f, args, dst)
	fr.pc = pc
}

type callReq struct {
	f    Value
	args []Value
}

func (m *Machine) callFn(fr *Frame, f *fn, args, free []Value, dst int32) {
	if f.intrin != nil {
		v, ok := f.intrin(m, fr, args)
		if ok {
			if r, is := v.(callReq); is {
				m.callValueAdv(fr, r.f, r.args, dst)
				return
			}
			if dst >= 0 {
				m.set(fr, dst, v)
			}
			fr.pc++
			return
		}
	}
	if f.f.Synthetic == "package initializer" && f.f.Pkg != m.prog.pkg {
		p := f.f.Pkg.Pkg.Path()
		if !initPkgs[p] && p != "vimagination.zapto.org/parser" {
			fr.pc++
			return
		}
	}
	if free == nil && !m.prog.noMerge && f.f.Synthetic == "" {
		for _, a := range args {
			if symbolic(a) {
				if v, ok := m.pureFn(f, args); ok {
					if dst >= 0 {
						m.set(fr, dst, v)
					}
					fr.pc++
					return
				}
				break
			}
		}
	}
	fr.pc++
	m.pushFrame(f, args, free, dst)
}

func symbolic(v Value) bool {
	switch v.(type) {
	case *Expr, *SStr:
		return true
	}
	return false
}

// --- simple instructions ---

func (m *Machine) evalSimple(fr *Frame, in *inst) Value {
	switch in.kind {
	case iAlloc:
		p := new(Value)
		*p = zero(in.t)
		return p
	case iBinOp:
		return m.binop(in, m.get(fr, in.a), m.get(fr, in.b))
	case iUnOp:
		return m.unop(in, m.get(fr, in.a))
	case iDeref:
		switch p := m.get(fr, in.a).(type) {
		case *Value:
			if p == nil {
				m.goPanic("nil pointer dereference")
			}
			return copyVal(*p)
		case *SymPtr:
			if in.commaOk {
				return m.nilSel(p)
			}
			return m.selectElem(p.elems(), p.idx, in.w2)
		default:
			m.unsupported(fmt.Sprintf("load through %T", p))
		}
	case iChangeType, iChangeIface:
		return m.get(fr, in.a)
	case iConvert:
		return m.convert(in, m.get(fr, in.a))
	case iMakeIface:
		return Iface{in.t, m.get(fr, in.a)}
	case iMakeClosure:
		env := make([]Value, len(in.args))
		for i, a := range in.args {
			env[i] = m.get(fr, a)
		}
		return &Closure{in.a.val.(*ssa.Function), env}
	case iMakeMap:
		return &Map{idx: map[any]int{}}
	case iMakeSlice:
		n := int(m.toInt(m.get(fr, in.a)))
		c := int(m.toInt(m.get(fr, in.b)))
		if n < 0 || c < n || c > 1<<26 {
			m.goPanic("makeslice: len out of range")
		}
		return makeSlice(in.t, n, c)
	case iSlice:
		return m.slice(fr, in)
	case iSliceToArr:
		s := m.get(fr, in.a).(Slice)
		if len(s) < in.n {
			m.goPanic("slice to array conversion")
		}
		p := new(Value)
		*p = Array(s[:in.n:in.n])
		return p
	case iFieldAddr:
		a := m.get(fr, in.a)
		if p, ok := a.(*SymPtr); ok {
			return &SymPtr{p.s, p.idx, append(p.path[:len(p.path):len(p.path)], in.n)}
		}
		p, ok := a.(*Value)
		if !ok {
			m.unsupported("field address of non-pointer")
		}
		if p == nil {
			m.goPanic("nil pointer dereference (field)")
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("field of %T", *p))
		}
		return &s[in.n]
	case iField:
		return m.get(fr, in.a).(Struct)[in.n]
	case iIndexAddr:
		var s []Value
		switch a := m.get(fr, in.a).(type) {
		case Slice:
			s = a
		case *Value:
			if a == nil {
				m.goPanic("nil pointer dereference (index)")
			}
			arr, ok := (*a).(Array)
			if !ok {
				m.unsupported("index of pointer to non-array")
			}
			s = arr
		default:
			m.unsupported(fmt.Sprintf("IndexAddr %T", a))
		}
		switch i := m.get(fr, in.b).(type) {
		case uint64:
			if n := sx(i, in.w); in.signed && (n < 0 || n >= int64(len(s))) || !in.signed && i >= uint64(len(s)) {
				m.goPanic(fmt.Sprintf("index out of range [%d] with length %d", n, len(s)))
			}
			return &s[i]
		case *Expr:
			idx := m.inBounds(i, in, len(s))
			if len(s) > 0 {
				switch s[0].(type) {
				case uint64, bool, *Expr:
					return &SymPtr{s: s, idx: idx}
				}
				if in.commaOk {
					return &SymPtr{s: s, idx: idx}
				}
			}
			return &s[m.concretize(idx)]
		}
	case iIndex:
		switch a := m.get(fr, in.a).(type) {
		case Array:
			switch i := m.get(fr, in.b).(type) {
			case uint64:
				if n := sx(i, in.w); in.signed && (n < 0 || n >= int64(len(a))) || !in.signed && i >= uint64(len(a)) {
					m.goPanic("index out of range")
				}
				return a[i]
			case *Expr:
				return m.selectElem(a, m.inBounds(i, in, len(a)), in.w2)
			}
		default:
			return m.strIndex(in, a, m.get(fr, in.b))
		}
	case iLookup:
		x := m.get(fr, in.a)
		if in.k == kString {
			return m.strIndex(in, x, m.get(fr, in.b))
		}
		mp, _ := x.(*Map)
		i := -1
		if mp != nil {
			i = m.mapFind(mp, m.get(fr, in.b))
		}
		if in.commaOk {
			tt := in.t.(*types.Tuple)
			if i < 0 {
				return Tuple{zero(tt.At(0).Type()), false}
			}
			return Tuple{copyVal(mp.vals[i]), true}
		}
		if i < 0 {
			return zero(in.t)
		}
		return copyVal(mp.vals[i])
	case iTypeAssert:
		return m.typeAssert(in, m.get(fr, in.a))
	case iExtract:
		return m.get(fr, in.a).(Tuple)[in.n]
	case iRange:
		switch in.k {
		case kString:
			return &Iter{s: strBytes(m.get(fr, in.a)), str: true}
		case kMap:
			return &Iter{m: m.get(fr, in.a).(*Map)}
		}
	}
	m.unsupported("instruction " + in.src.String())
	return nil
}

// NilSel stands for a value that is only compared with nil.
type NilSel struct{ isNil *Expr }

func (m *Machine) nilSel(p *SymPtr) Value {
	s := p.elems()
	tab := make([]uint64, len(s))
	for i, v := range s {
		nilV := false
		switch v := v.(type) {
		case Slice:
			nilV = v == nil
		case *Value:
			nilV = v == nil
		case *Map:
			nilV = v == nil
		case Iface:
			nilV = v.t == nil
		case nil:
			nilV = true
		case *ssa.Function, *Closure:
		default:
			return m.selectElem(s, p.idx, 0)
		}
		if nilV {
			tab[i] = 1
		}
	}
	return NilSel{m.x.Eq(m.x.Table(p.idx, tab, 8), m.x.Const(1, 8))}
}

func makeSlice(t types.Type, n, c int) Slice {
	s := make(Slice, c)
	if c > 0 {
		switch typeInfo(t).k {
		case kStruct, kArray:
			for i := range s {
				s[i] = zero(t)
			}
		default:
			z := zero(t)
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n:c]
}

func (m *Machine) inBounds(i *Expr, in *inst, n int) *Expr {
	// a negative signed index is a large unsigned one
	if i.w < 64 {
		if in.signed {
			i = m.x.Sext(i, 64)
		} else {
			i = m.x.Zext(i, 64)
		}
	}
	c := m.x.Ult(i, m.x.Const(uint64(n), 64))
	if m.spec && m.guard != nil && !c.isC() {
		out := m.x.And(m.guard, m.x.Not(c))
		if t, _, exact := m.domFeas(out); out == m.x.F || exact && !t {
			return i
		}
	}
	if !m.decide(c) {
		m.goPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return i
}

func (m *Machine) strIndex(in *inst, s, i Value) Value {
	n := strLen(s)
	switch i := i.(type) {
	case uint64:
		if k := sx(i, in.w); in.signed && (k < 0 || k >= int64(n)) || !in.signed && i >= uint64(n) {
			m.goPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return strAt(s, int(i))
	case *Expr:
		return m.selectElem(strBytes(s), m.inBounds(i, in, n), 8)
	}
	panic("strIndex")
}

// selectElem reads s[idx] for an index known to be in range; w is the element width.
func (m *Machine) selectElem(s []Value, idx *Expr, w uint8) Value {
	allC, scalar, boolean := true, true, false
	for _, v := range s {
		switch v.(type) {
		case uint64:
		case bool:
			boolean = true
		case *Expr:
			allC = false
		default:
			scalar = false
		}
	}
	if scalar && allC {
		tab := make([]uint64, len(s))
		for i, v := range s {
			switch v := v.(type) {
			case uint64:
				tab[i] = v
			case bool:
				if v {
					tab[i] = 1
				}
			}
		}
		if boolean {
			return unexpr(m.x.Not(m.x.Eq(m.x.Table(idx, tab, 8), m.x.Const(0, 8))))
		}
		return unexpr(m.x.Table(idx, tab, w))
	}
	if scalar && len(s) <= 64 {
		lo, hi := m.x.prng(idx)
		if hi >= uint64(len(s)) {
			hi = uint64(len(s)) - 1
		}
		r := m.expr(s[hi], w)
		for i := int(hi) - 1; i >= int(lo); i-- {
			r = m.x.Ite(m.x.Eq(idx, m.x.Const(uint64(i), idx.w)), m.expr(s[i], w), r)
		}
		return unexpr(r)
	}
	// equal elements need no distinction
	type ident struct {
		p    *Value
		n, c int
		v    any
	}
	ids := map[ident]uint64{}
	tab := make([]uint64, len(s))
	var reps []int
	for i, v := range s {
		id := ident{}
		switch v := v.(type) {
		case Slice:
			id = ident{n: len(v), c: cap(v), v: v == nil}
			if cap(v) > 0 {
				id.p = &v[:1][0]
			}
		case string, uint64, bool, *Value, *Map, *Closure, *ssa.Function, *SStr, *Expr:
			id = ident{v: v}
		default:
			id = ident{n: -1 - i}
		}
		k, ok := ids[id]
		if !ok {
			k = uint64(len(reps))
			ids[id] = k
			reps = append(reps, i)
		}
		tab[i] = k
	}
	if len(reps) < len(s) {
		return copyVal(s[reps[m.concretize(m.x.Table(idx, tab, 64))]])
	}
	return copyVal(s[m.concretize(idx)])
}

func (m *Machine) setHavoc() {
	if !m.havoc {
		m.havoc = true
		m.onUndo(func() { m.havoc = false })
	}
}
