package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the repository and its dependencies.
type Program struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	pkgPath   string
	noMerge   bool
	zones     []string
	locType   types.Type
	utcLoc    *ssa.Global
	localLocG *ssa.Global
	errType   types.Type
	errStruct types.Type
}

const (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// scratch prepares a directory with a copy of the module files that resolves the dependency
// offline, and returns the environment for go commands.
func scratch() (dir string, env []string, err error) {
	dir, err = os.MkdirTemp("", "icsym")
	if err != nil {
		return "", nil, err
	}
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return dir, nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return dir, nil, err
	}
	extra, err := os.ReadFile(filepath.Join(verifDir, "parser.sum"))
	if err != nil {
		return dir, nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "ics.mod"), mod, 0o644); err != nil {
		return dir, nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "ics.sum"), append(append(sum, '\n'), extra...), 0o644); err != nil {
		return dir, nil, err
	}
	env = os.Environ()
	for _, kv := range []string{"GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "TZ=UTC",
		"GOFLAGS=", "GOMODCACHE=/root/go/pkg/mod"} {
		env = append(env, kv)
	}
	c := exec.Command("go", "mod", "edit", "-replace", "vimagination.zapto.org/parser@v1.0.3=github.com/MJKWoolnough/parser@v1.0.3", filepath.Join(dir, "ics.mod"))
	c.Env = env
	if out, err := c.CombinedOutput(); err != nil {
		return dir, nil, fmt.Errorf("go mod edit: %v: %s", err, out)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(dir, "ics.mod"))
	return dir, env, nil
}

// harnessFiles maps the overlay path of each harness file to its real path.
func harnessFiles(native bool) map[string]string {
	r := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*.go"))
	for _, f := range fs {
		b := filepath.Base(f)
		switch b {
		case "api_sym.go":
			if native {
				continue
			}
		case "api_native.go":
			if !native {
				continue
			}
		case "replay_test.go":
			if !native {
				continue
			}
			r[filepath.Join(repoDir, "zz_verif_replay_test.go")] = f
			continue
		}
		r[filepath.Join(repoDir, "zz_verif_"+b)] = f
	}
	return r
}

func load(env []string) (*Program, error) {
	overlay := map[string][]byte{}
	for k, f := range harnessFiles(false) {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: env, Overlay: overlay}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs bytes.Buffer
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(&errs, e)
		}
	})
	if errs.Len() > 0 {
		return nil, fmt.Errorf("loading %s: %s", repoDir, strings.TrimSpace(errs.String()))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkg: sp[0], pkgPath: sp[0].Pkg.Path()}
	tp := prog.ImportedPackage("time")
	p.locType = tp.Type("Location").Type()
	p.utcLoc = tp.Var("utcLoc")
	p.localLocG = tp.Var("localLoc")
	p.zones = []string{"Asia/Tokyo", "Etc/GMT+5", "America/New_York", "GMT", "Asia/Kolkata"}
	ep := prog.ImportedPackage("errors")
	p.errStruct = ep.Type("errorString").Type()
	p.errType = types.NewPointer(p.errStruct)
	return p, nil
}

// someError is a non-nil error with an unspecified text.
func (p *Program) someError() Value {
	v := new(Value)
	*v = Struct{"error"}
	return Iface{p.errType, v}
}

// initPkgs are the packages whose initialisers run; the others keep zero values.
var initPkgs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"io": true, "bufio": true, "encoding/base64": true, "net/url": true, "regexp": true, "regexp/syntax": true, "time": true,
	"math": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true, "path": true, "encoding/binary": true,
	"encoding/hex": true, "internal/stringslite": true, "internal/bytealg": false, "iter": true, "internal/itoa": true, "unicode/utf16": true,
	"internal/strconv": true, "container/list": true}

func newMachine(p *Program, solver string, timeoutMs int, st *Stats) *Machine {
	m := &Machine{prog: p, x: newCtx(), fns: map[*ssa.Function]*fn{}, globals: map[*ssa.Global]*Value{}, methods: map[methKey]*fn{},
		packs: map[*Expr][6]Value{}, runes: map[*Expr][]Value{}, locCache: map[string]bool{}, fixed: map[*Value]Value{}, impl: map[implKey]bool{}, onces: map[*Value]bool{}, stats: st}
	m.sol = newSolver(solver, timeoutMs)
	m.limit = 1 << 30
	m.cps = []*choicePoint{{}}
	// package initialisation, concretely
	(*m.global(p.localLocG)).(Struct)[0] = "UTC"
	m.pushFrame(m.fnOf(p.pkg.Func("init")), nil, nil, -1)
	if end := m.runPath(); end.status != "ok" {
		panic("package initialisation: " + end.status + " " + end.msg)
	}
	(*m.global(p.localLocG)).(Struct)[0] = "UTC"
	m.trail = m.trail[:0]
	m.steps = 0
	for _, f := range m.fns {
		f.hit = false
	}
	return m
}
