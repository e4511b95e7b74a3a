package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

type nres struct {
	Status string   `json:"status"` // ok, assert, panic, assume, hang
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

func (r nres) bad() bool { return r.Status == "assert" || r.Status == "panic" || r.Status == "hang" }

func (c *checker) buildNative() {
	c.binOnce.Do(func() {
		hf := harnessFiles(true)
		reg := filepath.Join(c.dir, "registry_test.go")
		if c.binErr = os.WriteFile(reg, registry(hf), 0o644); c.binErr != nil {
			return
		}
		hf[filepath.Join(repoDir, "zz_verif_registry_test.go")] = reg
		ov := map[string]map[string]string{"Replace": hf}
		b, _ := json.Marshal(ov)
		of := filepath.Join(c.dir, "overlay.json")
		if c.binErr = os.WriteFile(of, b, 0o644); c.binErr != nil {
			return
		}
		c.bin = filepath.Join(c.dir, "native.test")
		cmd := exec.Command("go", "test", "-vet=off", "-c", "-o", c.bin, "-overlay", of, ".")
		cmd.Dir = repoDir
		cmd.Env = c.env
		if out, err := cmd.CombinedOutput(); err != nil {
			c.binErr = fmt.Errorf("building native harness: %v: %s", err, out)
		}
	})
}

var harnessRE = regexp.MustCompile(`(?m)^func (H_\w+)\(\)`)

// registry generates the table of harness functions for the native test binary.
func registry(files map[string]string) []byte {
	var names []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, m := range harnessRE.FindAllSubmatch(b, -1) {
			names = append(names, string(m[1]))
		}
	}
	sort.Strings(names)
	var b bytes.Buffer
	b.WriteString("package ics\n\nvar vHarnesses = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
	}
	b.WriteString("}\n")
	return b.Bytes()
}

// native runs the inputs on the compiled code.
func (c *checker) native(list []*candidate) ([]nres, error) {
	c.buildNative()
	if c.binErr != nil {
		return nil, c.binErr
	}
	f, err := os.CreateTemp(c.dir, "tape")
	if err != nil {
		return nil, err
	}
	if err := json.NewEncoder(f).Encode(list); err != nil {
		return nil, err
	}
	f.Close()
	out := f.Name() + ".out"
	defer os.Remove(f.Name())
	defer os.Remove(out)
	cmd := exec.Command("/bin/sh", "-c", `ulimit -v 6000000; exec "$0" "$@"`, c.bin, "-test.run", "^TestZZVerifReplay$", "-test.timeout", "0")
	cmd.Dir = c.dir
	cmd.Env = append(append([]string(nil), c.env...), "VERIF_REPLAY="+f.Name(), "VERIF_OUT="+out, "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	var eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &eb, &eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	lim := 20*time.Second + time.Duration(len(list))*50*time.Millisecond
	var werr error
	killed := false
	select {
	case werr = <-done:
	case <-time.After(lim):
		cmd.Process.Kill()
		werr = <-done
		killed = true
	}
	var res []nres
	if b, err := os.ReadFile(out); err == nil {
		d := json.NewDecoder(bytes.NewReader(b))
		for d.More() {
			var r nres
			if d.Decode(&r) != nil {
				break
			}
			res = append(res, r)
		}
	}
	if len(res) < len(list) {
		s := "crash"
		if killed {
			s = "hang"
		}
		tail := strings.TrimSpace(eb.String())
		if len(tail) > 300 {
			tail = tail[:300]
		}
		if len(list) == 1 {
			st := "panic"
			if s == "hang" {
				st = "hang"
			}
			return []nres{{Status: st, Msg: s + ": " + strings.ReplaceAll(tail, "\n", " | ")}}, nil
		}
		return nil, fmt.Errorf("native run %s after %d of %d inputs: %v %s", s, len(res), len(list), werr, tail)
	}
	return res, nil
}

func (c *checker) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var k candidate
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, err := c.native([]*candidate{&k})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s%v: native result: %s %s\n", k.Harness, k.Params, res[0].Status, res[0].Msg)
	for _, o := range res[0].Obs {
		fmt.Println("  ", o)
	}
	if res[0].bad() {
		return 1
	}
	return 0
}

func (c *checker) writeReplay(prop string, k *candidate) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+".json")
	b, _ := json.MarshalIndent(k, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// knownFindings lists the committed findings of a property.
func knownFindings(prop string) (r []string) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if t, ok := strings.CutPrefix(l, "known: property="+prop+" "); ok {
			r = append(r, t)
		}
	}
	return r
}

func (c *checker) writeEvidence(prop string, pc pconf, hs []hconf, missing, bad []string) {
	s := c.s
	st := s.stats
	type hb struct {
		Harness string  `json:"harness"`
		Params  [][]int `json:"params"`
		Bounds  string  `json:"bounds"`
	}
	var bounds []hb
	for _, h := range hs {
		bounds = append(bounds, hb{h.H, h.Params, h.Bounds})
	}
	var samples []any
	for i, k := range s.samples {
		if i%(len(s.samples)/8+1) == 0 {
			samples = append(samples, k)
		}
	}
	viol := []any{}
	for _, k := range c.confirmed {
		viol = append(viol, k)
	}
	assume := append([]string{}, pc.Assumptions...)
	ev := map[string]any{
		"property": prop, "tier": c.tier, "seed": s.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": st.Forks + st.Paths, "transitions": st.Steps, "traces_validated_against_impl": c.validated, "samples": samples,
			"technique":                      "symbolic execution of go/ssa built from /repo, decided by SMT (bit-vectors)",
			"paths":                          st.Paths,
			"paths_completed":                st.OK,
			"paths_ended_by_assumption":      st.Assumed,
			"paths_not_encoded":              st.Unsupported,
			"merged_branches":                st.Merged,
			"assertions_checked":             st.Asserts,
			"assertions_solver":              st.AssertQueries,
			"assertions_proved_by_solver":    st.AssertProved,
			"assertions_folded_by_rewriting": st.AssertConst,
			"assertions_unknown":             st.AssertUnknown,
			"solver":                         s.solver,
			"solver_queries":                 st.Queries,
			"longest_query_seconds":          st.LongestQuery.Seconds(),
			"answered_by_another_solver":     st.Retried,
			"solver_sat":                     st.Sat,
			"solver_unsat":                   st.Unsat,
			"solver_unknown":                 st.Unknown,
			"solver_errors":                  st.SolverErrors,
			"solver_seconds":                 st.SolverTime.Seconds(),
			"cross_checked_assertions":       st.CrossChecked,
			"functions_encoded":              sortedKeys(s.repoFns),
			"library_functions_encoded":      len(s.funcs),
			"bounds":                         bounds,
			"outside_bounds":                 pc.Outside,
			"witnesses":                      s.covers,
			"witnesses_missing":              missing,
			"paths_per_harness":              s.jobPaths,
			"translator_mismatches":          bad,
			"violation_details":              viol,
			"timed_out":                      s.timedOut,
		},
		"wall_s":      time.Since(c.t0).Seconds(),
		"assumptions": assume,
		"violations":  len(viol),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

var profFile *os.File

func startProfile(n string) {
	profFile, _ = os.Create(n)
	pprof.StartCPUProfile(profFile)
}

func stopProfile() {
	if profFile != nil {
		pprof.StopCPUProfile()
		profFile.Close()
		profFile = nil
	}
}
