package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type hconf struct {
	H      string  `json:"h"`
	Params [][]int `json:"params"`
	Limit  int     `json:"limit,omitempty"`
	Bounds string  `json:"bounds"`
	// Covers that need not be reached with these parameters.
	Skip []string `json:"skip,omitempty"`
}

type pconf struct {
	Quick       []hconf  `json:"quick"`
	Thorough    []hconf  `json:"thorough,omitempty"`
	Assumptions []string `json:"assumptions"`
	Outside     string   `json:"outside"`
}

func main() {
	var (
		harness  = flag.String("harness", "", "run a single harness")
		params   = flag.String("params", "", "comma-separated parameters for -harness")
		prop     = flag.String("property", "", "property to check")
		tier     = flag.String("tier", "quick", "quick or thorough")
		workers  = flag.Int("workers", runtime.NumCPU(), "")
		solver   = flag.String("solver", "/usr/local/bin/z3-new", "")
		qt       = flag.Int("qtimeout", 20000, "milliseconds per solver query before other solvers are tried")
		cross    = flag.String("cross", "", "second solver for all assertion queries")
		nomerge  = flag.Bool("nomerge", false, "")
		par      = flag.Bool("paranoid", false, "confirm domain verdicts with the solver")
		verbose  = flag.Bool("v", false, "")
		limit    = flag.Int("limit", 0, "")
		maxTime  = flag.Duration("time", 0, "")
		noReplay = flag.Bool("noreplay", false, "")
		replay   = flag.String("replay", "", "replay a recorded counterexample natively")
		samp     = flag.Int("samples", 24, "")
		prof     = flag.String("cpuprofile", "", "")
	)
	flag.Parse()
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	if *prof != "" {
		startProfile(*prof)
		defer stopProfile()
	}
	if os.Getenv("ICSYM_FORKS") != "" {
		forkSites = map[string]int{}
	}
	code := func() int {
		dir, env, err := scratch()
		if dir != "" {
			defer os.RemoveAll(dir)
			ch := make(chan os.Signal, 1)
			signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
			go func() {
				<-ch
				os.RemoveAll(dir)
				os.Exit(130)
			}()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 2
		}
		c := &checker{dir: dir, env: env, tier: *tier, verbose: *verbose, noReplay: *noReplay, t0: time.Now()}
		if *replay != "" {
			return c.replayFile(*replay)
		}
		p, err := load(env)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		p.noMerge = *nomerge
		c.p = p
		c.s = &sched{p: p, workers: *workers, solver: *solver, cross: *cross, paranoid: *par, timeout: *qt, verbose: *verbose, maxSamp: *samp, seed: seed()}
		if *maxTime > 0 {
			c.s.deadline = time.Now().Add(*maxTime)
		}
		if *harness != "" {
			var ps []int
			for _, x := range strings.FieldsFunc(*params, func(r rune) bool { return r == ',' }) {
				var n int
				fmt.Sscan(x, &n)
				ps = append(ps, n)
			}
			return c.adhoc(&job{harness: *harness, params: ps, limit: *limit})
		}
		return c.check(*prop)
	}()
	stopProfile()
	printForks()
	os.Exit(code)
}

func seed() int64 {
	n := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

type checker struct {
	dir       string
	env       []string
	p         *Program
	s         *sched
	tier      string
	verbose   bool
	noReplay  bool
	t0        time.Time
	bin       string
	binErr    error
	binOnce   sync.Once
	confirmed []*candidate
	spurious  []string
	mu        sync.Mutex
	validated int
}

// handle replays a candidate; a confirmed one stops the exploration.
func (c *checker) handle(k *candidate) {
	if c.noReplay {
		return
	}
	res, err := c.native([]*candidate{k})
	c.mu.Lock()
	defer c.mu.Unlock()
	if err == nil && len(res) == 1 && res[0].bad() {
		k.Msg += " [native: " + res[0].Status + " " + res[0].Msg + "]"
		c.confirmed = append(c.confirmed, k)
		c.s.stop.Store(true)
		return
	}
	if err != nil {
		c.spurious = append(c.spurious, fmt.Sprintf("%s: replay failed: %v", k.Harness, err))
		return
	}
	c.spurious = append(c.spurious, fmt.Sprintf("%s%v: %s %q not reproduced natively (%s %s) tape %v", k.Harness, k.Params, k.Kind, k.Msg, res[0].Status, res[0].Msg, k.Tape))
}

func (c *checker) adhoc(j *job) int {
	c.s.onCand = c.handle
	c.s.run([]*job{j})
	c.summary()
	bad := c.validate()
	for _, b := range bad {
		fmt.Println("MISMATCH", b)
	}
	return 0
}

func (c *checker) summary() {
	s := c.s
	b, _ := json.Marshal(s.stats)
	fmt.Println(string(b))
	fmt.Printf("wall %.1fs timedOut=%v\n", time.Since(c.t0).Seconds(), s.timedOut)
	fmt.Println("covers:", s.covers)
	for _, k := range sortedKeys(s.jobPaths) {
		fmt.Println("  ", k, s.jobPaths[k])
	}
	for _, k := range sortedKeys(s.unsup) {
		fmt.Println("UNSUPPORTED", s.unsup[k], k)
	}
	for _, k := range c.confirmed {
		fmt.Println("CONFIRMED", k.Harness, k.Params, k.Kind, k.Msg, k.Tape)
	}
	for _, k := range c.spurious {
		fmt.Println("SPURIOUS", k)
	}
	if c.noReplay {
		for _, k := range s.cands {
			fmt.Println("CANDIDATE", k.Harness, k.Params, k.Kind, k.Msg, k.Tape)
		}
	}
	if s.engErr != "" {
		fmt.Println("ENGINE ERROR", s.engErr)
	}
}

// validate compares sampled paths with native runs of the same inputs.
func (c *checker) validate() (bad []string) {
	var list []*candidate
	for _, k := range c.s.samples {
		list = append(list, k)
	}
	if len(list) == 0 || c.noReplay {
		return nil
	}
	res, err := c.native(list)
	if err != nil {
		return []string{err.Error()}
	}
	n := 0
	for i, k := range list {
		r := res[i]
		if k.havoc {
			continue
		}
		n++
		if r.Status != "ok" {
			bad = append(bad, fmt.Sprintf("%s%v tape %v: engine ok, native %s %s", k.Harness, k.Params, k.Tape, r.Status, r.Msg))
			continue
		}
		if strings.Join(k.Obs, "\n") != strings.Join(r.Obs, "\n") {
			bad = append(bad, fmt.Sprintf("%s%v tape %v: observations differ: engine %v native %v", k.Harness, k.Params, k.Tape, k.Obs, r.Obs))
		}
		if strings.Join(k.Covers, "\n") != strings.Join(r.Covers, "\n") {
			bad = append(bad, fmt.Sprintf("%s%v tape %v: covers differ: engine %v native %v", k.Harness, k.Params, k.Tape, k.Covers, r.Covers))
		}
	}
	c.validated = n
	return bad
}

// coverNames returns the names of the vCover calls reachable in the harness file functions.
func coverNames(p *Program, h string) []string {
	f := p.pkg.Func(h)
	if f == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	names := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Pkg != p.pkg {
			return
		}
		seen[f] = true
		if pos := p.prog.Fset.Position(f.Pos()); !strings.HasPrefix(filepath.Base(pos.Filename), "zz_verif_") {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if g.Name() == "vCover" {
							if k, ok := c.Common().Args[0].(*ssa.Const); ok {
								names[strings.Trim(k.Value.ExactString(), "\"")] = true
							}
						}
						walk(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return sortedKeys(names)
}

func (c *checker) check(prop string) int {
	var conf map[string]pconf
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := json.Unmarshal(b, &conf); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	pc, ok := conf[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	hs := pc.Quick
	if c.tier == "thorough" {
		hs = append(append([]hconf(nil), pc.Quick...), pc.Thorough...)
	}
	var jobs []*job
	need := map[string]bool{}
	for _, h := range hs {
		for _, ps := range h.Params {
			jobs = append(jobs, &job{harness: h.H, params: ps, limit: h.Limit})
		}
		if len(h.Params) == 0 {
			jobs = append(jobs, &job{harness: h.H, limit: h.Limit})
		}
		skip := map[string]bool{}
		for _, n := range h.Skip {
			skip[n] = true
		}
		for _, n := range coverNames(c.p, h.H) {
			if !skip[n] {
				need[n] = true
			}
		}
	}
	if c.s.deadline.IsZero() {
		d := 780 * time.Second
		if c.tier == "thorough" {
			d = 850 * time.Second
		}
		c.s.deadline = c.t0.Add(d)
	}
	c.s.onCand = c.handle
	c.s.run(jobs)
	if os.Getenv("ICSYM_TIMES") != "" {
		for j, t := range c.s.jobTime {
			fmt.Fprintf(os.Stderr, "%8.2f %s\n", t.Seconds(), j)
		}
	}
	var missing []string
	for n := range need {
		if c.s.covers[n] == 0 {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	var bad []string
	if len(c.confirmed) == 0 {
		bad = c.validate()
	}
	c.writeEvidence(prop, pc, hs, missing, bad)
	if len(c.confirmed) > 0 {
		// the first in a fixed order, so that runs agree
		sort.Slice(c.confirmed, func(i, j int) bool { return c.confirmed[i].Harness < c.confirmed[j].Harness })
		k := c.confirmed[0]
		path := c.writeReplay(prop, k)
		fmt.Printf("%s%v: %s: %s\n", k.Harness, k.Params, k.Kind, k.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	for _, l := range knownFindings(prop) {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + l)
	}
	inc := false
	fail := func(f string, a ...any) {
		inc = true
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", prop, fmt.Sprintf(f, a...))
	}
	if c.s.engErr != "" {
		fail("engine error: %s", c.s.engErr)
	}
	if c.s.timedOut {
		fail("time limit reached before the bounds were exhausted")
	}
	for _, k := range sortedKeys(c.s.unsup) {
		fail("not encoded (%d paths): %s", c.s.unsup[k], k)
	}
	if c.s.stats.Unknown > 0 || c.s.stats.SolverErrors > 0 {
		fail("%d unknown solver answers, %d solver errors", c.s.stats.Unknown, c.s.stats.SolverErrors)
	}
	for _, k := range c.spurious {
		fail("candidate not confirmed: %s", k)
	}
	for _, k := range missing {
		fail("expected behaviour not reached: %s", k)
	}
	for _, k := range bad {
		fail("engine and native run differ: %s", k)
	}
	st := c.s.stats
	fmt.Printf("property %s %s: %d paths, %d assertions, %d solver queries (%.1f s, longest %.1f s), %d functions of the repository, %d samples confirmed natively, %.1f s\n",
		prop, c.tier, st.Paths, st.Asserts, st.Queries, st.SolverTime.Seconds(), st.LongestQuery.Seconds(), len(c.s.repoFns), c.validated, time.Since(c.t0).Seconds())
	if inc {
		return 2
	}
	return 0
}
