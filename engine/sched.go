package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Stats are the numbers of one check run.
type Stats struct {
	Paths, OK, Assumed, Infeasible, Panics, Unsupported, Budget, Violated int
	Asserts, AssertConst, AssertQueries, AssertProved, AssertUnknown      int
	CrossChecked                                                          int
	Queries, Sat, Unsat, Unknown, SolverErrors, Retried                   int
	SolverTime, LongestQuery                                              time.Duration
	Steps                                                                 uint64
	Forks, Merged, Donated                                                int
	Exprs                                                                 int
	PathQueries                                                           int
}

func (a *Stats) add(b *Stats) {
	a.Paths += b.Paths
	a.OK += b.OK
	a.Assumed += b.Assumed
	a.Infeasible += b.Infeasible
	a.Panics += b.Panics
	a.Unsupported += b.Unsupported
	a.Budget += b.Budget
	a.Violated += b.Violated
	a.Asserts += b.Asserts
	a.AssertConst += b.AssertConst
	a.AssertQueries += b.AssertQueries
	a.AssertProved += b.AssertProved
	a.AssertUnknown += b.AssertUnknown
	a.CrossChecked += b.CrossChecked
	a.Steps += b.Steps
	a.PathQueries += b.PathQueries
}

type job struct {
	harness string
	params  []int
	limit   int
	name    string
}

func (j *job) String() string { return fmt.Sprintf("%s%v", j.harness, j.params) }

type item struct {
	j      *job
	prefix []decision
}

// candidate is a possible violation, or a path sample for translator validation.
type candidate struct {
	Harness string   `json:"harness"`
	Params  []int    `json:"params"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Tape    []uint64 `json:"tape"`
	Names   []string `json:"names,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Covers  []string `json:"covers,omitempty"`
	havoc   bool
}

type sched struct {
	p        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	idle     int32
	workers  int
	active   int
	stop     atomic.Bool
	deadline time.Time
	timedOut bool

	stats    Stats
	funcs    map[string]bool
	repoFns  map[string]bool
	covers   map[string]int
	jobPaths map[string]int
	jobTime  map[string]time.Duration
	unsup    map[string]int
	cands    []*candidate
	candSeen map[string]int
	samples  []*candidate
	sampleN  map[string]int
	seed     int64
	maxSamp  int
	engErr   string
	onCand   func(*candidate)

	solver   string
	cross    string
	paranoid bool
	timeout  int
	verbose  bool
}

func (s *sched) run(jobs []*job) {
	s.cond = sync.NewCond(&s.mu)
	s.funcs, s.repoFns, s.covers, s.unsup = map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]int{}
	s.candSeen, s.sampleN, s.jobPaths = map[string]int{}, map[string]int{}, map[string]int{}
	s.jobTime = map[string]time.Duration{}
	for _, j := range jobs {
		s.queue = append(s.queue, item{j: j})
	}
	var wg sync.WaitGroup
	for i := 0; i < s.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.worker()
		}()
	}
	wg.Wait()
}

func (s *sched) next() (item, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	atomic.AddInt32(&s.idle, 1)
	for {
		if s.stop.Load() {
			s.cond.Broadcast()
			return item{}, false
		}
		if len(s.queue) > 0 {
			it := s.queue[0]
			s.queue = s.queue[1:]
			s.active++
			atomic.AddInt32(&s.idle, -1)
			return it, true
		}
		if s.active == 0 {
			s.cond.Broadcast()
			return item{}, false
		}
		s.cond.Wait()
	}
}

func (s *sched) done() {
	s.mu.Lock()
	s.active--
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *sched) worker() {
	st := &Stats{}
	m := newMachine(s.p, s.solver, s.timeout, st)
	m.paranoid = s.paranoid
	if s.cross != "" {
		m.cross = newSolver(s.cross, s.timeout)
	}
	defer func() {
		if r := recover(); r != nil {
			s.mu.Lock()
			s.engErr = fmt.Sprintf("%v%s\n%s", r, m.where(), debug.Stack())
			s.mu.Unlock()
			s.stop.Store(true)
			s.cond.Broadcast()
		}
		m.sol.stop()
		if m.cross != nil {
			m.cross.stop()
		}
		st.Steps = m.stepTotal
		s.mu.Lock()
		s.stats.add(st)
		s.stats.Queries += m.sol.Queries
		s.stats.Sat += m.sol.Sat
		s.stats.Unsat += m.sol.Unsat
		s.stats.Unknown += m.sol.Unknown
		s.stats.SolverErrors += m.sol.Errors
		s.stats.SolverTime += m.sol.Time
		s.stats.Retried += m.sol.Retried
		if m.sol.Longest > s.stats.LongestQuery {
			s.stats.LongestQuery = m.sol.Longest
		}
		s.stats.Forks += m.Forks
		s.stats.Merged += m.Merged
		s.stats.Exprs += len(m.x.cons)
		if m.sol.lastErr != "" && s.verbose {
			fmt.Fprintln(os.Stderr, "solver:", m.sol.lastErr)
		}
		for _, f := range m.fns {
			if f.hit {
				if f.inRepo {
					if !strings.Contains(s.p.prog.Fset.Position(f.f.Pos()).Filename, "zz_verif_") {
						s.repoFns[f.name] = true
					}
				} else {
					s.funcs[f.name] = true
				}
			}
		}
		s.mu.Unlock()
	}()
	for {
		it, ok := s.next()
		if !ok {
			return
		}
		t := time.Now()
		s.explore(m, it)
		s.mu.Lock()
		s.jobTime[it.j.String()] += time.Since(t)
		s.mu.Unlock()
		s.done()
	}
}

func (s *sched) explore(m *Machine, it item) {
	j := it.j
	f := s.p.pkg.Func(j.harness)
	if f == nil {
		panic("no harness " + j.harness)
	}
	m.rollback(0)
	if len(m.x.cons) > 3000000 {
		old := m.sol
		m.x = newCtx()
		old.dead = true
	}
	m.params = j.params
	m.limit = j.limit
	if m.limit == 0 {
		m.limit = 3000000
	}
	m.cps = m.cps[:1]
	m.top = nil
	m.pc, m.tape, m.covers, m.obs = m.pc[:0], m.tape[:0], m.covers[:0], m.obs[:0]
	m.nvar, m.steps = 0, 0
	m.aux = m.aux[:0]
	m.modelOK = true
	m.model = m.model[:0]
	m.dec = append(m.dec[:0], it.prefix...)
	m.decPos = 0
	m.onViolation = func(kind, msg string) { s.report(m, j, kind, msg) }
	m.pushFrame(m.fnOf(f), nil, nil, -1)
	for {
		end := m.runPath()
		m.stats.Paths++
		switch end.status {
		case "ok":
			m.stats.OK++
			s.finish(m, j)
		case "assume":
			m.stats.Assumed++
		case "infeasible":
			m.stats.Infeasible++
		case "violated":
			m.stats.Violated++
		case "panic":
			m.stats.Panics++
			m.violation("panic", end.msg)
		case "budget":
			m.stats.Budget++
			m.violation("hang", end.msg)
		case "unsupported":
			m.stats.Unsupported++
			s.mu.Lock()
			s.unsup[end.msg+" in "+j.String()]++
			s.mu.Unlock()
		}
		if s.stop.Load() {
			return
		}
		if !s.deadline.IsZero() && time.Now().After(s.deadline) {
			s.mu.Lock()
			s.timedOut = true
			s.mu.Unlock()
			s.stop.Store(true)
			return
		}
		if atomic.LoadInt32(&s.idle) > 0 {
			s.mu.Lock()
			if len(s.queue) == 0 {
				for n := 0; n < 4; n++ {
					d := m.steal()
					if d == nil {
						break
					}
					s.queue = append(s.queue, item{j, d})
					s.stats.Donated++
				}
				s.cond.Broadcast()
			}
			s.mu.Unlock()
		}
		if !m.backtrack() {
			break
		}
	}
	m.stepTotal += uint64(m.steps)
	m.steps = 0
}

func (m *Machine) runPath() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(pathEnd); ok {
				end = e
				m.spec = false
				m.depthSpec = 0
				return
			}
			panic(r)
		}
	}()
	m.run()
	return pathEnd{status: "ok"}
}

// violation reports a candidate with concrete inputs from the current model.
func (m *Machine) violation(kind, msg string) {
	if m.onViolation != nil {
		m.onViolation(kind, msg)
	}
}

func (m *Machine) tapeValues() (vals []uint64, names []string) {
	for _, t := range m.tape {
		switch {
		case t.v == nil:
			vals = append(vals, t.c)
		case t.name == "int":
			vals = append(vals, t.c+m.modelVal(t.v)&mask(t.v.w))
		default:
			vals = append(vals, m.modelVal(t.v)&mask(t.v.w))
		}
		names = append(names, t.name)
	}
	return
}

func (s *sched) report(m *Machine, j *job, kind, msg string) {
	key := j.harness + "|" + kind + "|" + msg
	s.mu.Lock()
	n := s.candSeen[key]
	s.mu.Unlock()
	if n >= 3 {
		return
	}
	if m.ensureModel() != Sat {
		return
	}
	c := &candidate{Harness: j.harness, Params: j.params, Kind: kind, Msg: msg, havoc: m.havoc}
	c.Tape, c.Names = m.tapeValues()
	s.mu.Lock()
	s.candSeen[key]++
	s.cands = append(s.cands, c)
	s.mu.Unlock()
	if s.onCand != nil {
		s.onCand(c)
	}
}

// finish records covers and samples of a completed path.
func (s *sched) finish(m *Machine, j *job) {
	h := fnv.New64a()
	fmt.Fprint(h, s.seed, m.dec)
	s.mu.Lock()
	s.jobPaths[j.String()]++
	fresh := false
	for _, c := range m.covers {
		if s.covers[c] == 0 {
			fresh = true
		}
		s.covers[c]++
	}
	n := s.sampleN[j.String()]
	take := fresh || n < s.maxSamp && (n < 4 || h.Sum64()%16 == 0)
	if take {
		s.sampleN[j.String()]++
	}
	s.mu.Unlock()
	if !take {
		return
	}
	m.modelOK = false
	m.stats.PathQueries++
	if m.ensureModel() != Sat {
		s.mu.Lock()
		s.unsup["path end not confirmed satisfiable in "+j.String()]++
		s.mu.Unlock()
		m.stats.Unsupported++
		return
	}
	c := &candidate{Harness: j.harness, Params: j.params, Kind: "sample", havoc: m.havoc}
	c.Tape, c.Names = m.tapeValues()
	c.Covers = append(c.Covers, m.covers...)
	for _, o := range m.obs {
		c.Obs = append(c.Obs, o.name+"="+m.render(o.v))
	}
	s.mu.Lock()
	s.samples = append(s.samples, c)
	s.mu.Unlock()
}

// render prints an observed value under the current model.
func (m *Machine) render(v Value) string {
	switch v := v.(type) {
	case string, *SStr:
		return fmt.Sprintf("%q", m.renderBytes(strBytes(v)))
	case Slice:
		return fmt.Sprintf("%q", m.renderBytes(v))
	case uint64:
		return fmt.Sprint(int64(v))
	case bool:
		return fmt.Sprint(v)
	case *Expr:
		k := m.evalModel(v)
		if v.w == 0 {
			return fmt.Sprint(k == 1)
		}
		return fmt.Sprint(int64(k))
	case nil:
		return "<nil>"
	}
	return fmt.Sprintf("?%T", v)
}

func (m *Machine) renderBytes(b []Value) string {
	r := make([]byte, len(b))
	for i, v := range b {
		switch v := v.(type) {
		case uint64:
			r[i] = byte(v)
		case *Expr:
			r[i] = byte(m.evalModel(v))
		}
	}
	return string(r)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
