package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// slowDir, if set, receives the slow queries.
var slowDir = os.Getenv("ICSYM_SLOW")

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	name    string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	stack   []*Expr // asserted constraints
	groups  []int   // stack length at each push
	decl    map[uint32]bool
	defs    int
	timeout int // ms per query
	sb      strings.Builder
	dead    bool

	Queries, Sat, Unsat, Unknown, Errors int
	Retried                              int // answered by another solver after a time-out
	Time, Longest                        time.Duration
	lastErr                              string
}

func newSolver(name string, timeoutMs int) *Solver {
	s := &Solver{name: name, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.decl = map[uint32]bool{}
	s.defs = 0
	s.stack, s.groups = s.stack[:0], s.groups[:0]
	args := []string{"-in"}
	if strings.Contains(s.name, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeout)}
	}
	s.cmd = exec.Command(s.name, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.name, "cvc5") {
		s.send("(set-logic ALL)\n")
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) { s.in.WriteString(t) }

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(e *Expr) string {
	if e.w == 0 {
		if e.k == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(e.k, 10) + " " + strconv.Itoa(int(e.w)) + ")"
}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constStr(e)
	case OVar:
		return "v" + strconv.Itoa(int(e.k)) + "_" + strconv.Itoa(int(e.w))
	}
	return "e" + strconv.FormatUint(uint64(e.id), 10)
}

// define makes sure e and its subterms are defined in the solver.
func (s *Solver) define(e *Expr) {
	if e == nil || e.op == OConst || s.decl[e.id] {
		return
	}
	if e.op == OVar {
		s.decl[e.id] = true
		s.defs++
		s.send("(declare-const " + s.ref(e) + " " + sortStr(e.w) + ")\n")
		return
	}
	s.define(e.a)
	s.define(e.b)
	s.define(e.c)
	s.decl[e.id] = true
	s.defs++
	s.send("(define-fun " + s.ref(e) + " () " + sortStr(e.w) + " " + s.body(e) + ")\n")
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv",
	OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBAnd: "and", OBOr: "or", OIte: "ite", OBNot: "not", ONot: "bvnot"}

func (s *Solver) body(e *Expr) string {
	switch e.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, s.ref(e.a))
	case OFEq, OFLt, OFLe:
		n := map[Op]string{OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq"}[e.op]
		return fmt.Sprintf("(%s ((_ to_fp 11 53) %s) ((_ to_fp 11 53) %s))", n, s.ref(e.a), s.ref(e.b))
	case OTable:
		var b strings.Builder
		n := 0
		i := 0
		cs := func(v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, e.w) }
		for i < len(e.tab) {
			j := i
			for j+1 < len(e.tab) && e.tab[j+1] == e.tab[i] {
				j++
			}
			if j+1 >= len(e.tab) {
				b.WriteString(cs(e.tab[i]))
			} else {
				fmt.Fprintf(&b, "(ite (bvule %s (_ bv%d %d)) %s ", s.ref(e.a), j, e.a.w, cs(e.tab[i]))
				n++
			}
			i = j + 1
		}
		b.WriteString(strings.Repeat(")", n))
		return b.String()
	}
	r := "(" + opNames[e.op] + " " + s.ref(e.a)
	if e.b != nil {
		r += " " + s.ref(e.b)
	}
	if e.c != nil {
		r += " " + s.ref(e.c)
	}
	return r + ")"
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Expr) {
	if s.dead || s.defs > 400000 {
		s.stop()
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	pops := 0
	for len(s.stack) > n {
		g := s.groups[len(s.groups)-1]
		s.groups = s.groups[:len(s.groups)-1]
		s.stack = s.stack[:g]
		pops++
	}
	if pops > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", pops)
	}
	if len(s.stack) < len(pc) {
		s.groups = append(s.groups, len(s.stack))
		s.send("(push 1)\n")
		for _, e := range pc[len(s.stack):] {
			s.define(e)
			s.send("(assert " + s.ref(e) + ")\n")
		}
		s.stack = append(s.stack[:len(s.stack)], pc[len(s.stack):]...)
	}
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// check decides pc and extra; with want set it returns the values of vars on Sat.
func (s *Solver) check(pc []*Expr, extra *Expr, vars []*Expr) (Res, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.Longest {
			s.Longest = d
		}
	}()
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + s.ref(extra) + ")\n")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	s.Queries++
	r := Unknown
	line := s.readLine()
	if d := time.Since(t0); slowDir != "" && d > 200*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/%05d-%s-%p-%d.smt2", slowDir, d.Milliseconds(), line, s, s.Queries), []byte(script(pc, extra)), 0o644)
	}
	switch line {
	case "sat":
		r = Sat
		s.Sat++
	case "unsat":
		r = Unsat
		s.Unsat++
	default:
		if line != "unknown" {
			s.Unknown++
			s.Errors++
			s.lastErr = line
			s.dead = true
			return Unknown, nil
		}
		if extra != nil {
			s.send("(pop 1)\n")
		}
		for _, name := range []string{s.name, "/usr/bin/cvc5", "/usr/bin/z3"} {
			o := newSolver(name, 60000)
			r, vals := o.once(pc, extra, vars)
			o.stop()
			if r != Unknown {
				s.Retried++
				if r == Sat {
					s.Sat++
				} else {
					s.Unsat++
				}
				return r, vals
			}
		}
		s.Unknown++
		return Unknown, nil
	}
	var vals []uint64
	if r == Sat && len(vars) > 0 {
		s.send("(get-value (")
		for _, v := range vars {
			s.send(s.ref(v) + " ")
		}
		s.send("))\n")
		s.in.Flush()
		vals = s.readValues(len(vars))
		if vals == nil {
			s.Errors++
			s.dead = true
			return Unknown, nil
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return r, vals
}

// once decides one query without the use of push and pop.
func (s *Solver) once(pc []*Expr, extra *Expr, vars []*Expr) (Res, []uint64) {
	if extra != nil {
		pc = append(pc[:len(pc):len(pc)], extra)
	}
	for _, e := range pc {
		s.define(e)
		s.send("(assert " + s.ref(e) + ")\n")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	switch s.readLine() {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	if len(vars) == 0 {
		return Sat, nil
	}
	s.send("(get-value (")
	for _, v := range vars {
		s.send(s.ref(v) + " ")
	}
	s.send("))\n")
	s.in.Flush()
	vals := s.readValues(len(vars))
	if vals == nil {
		return Unknown, nil
	}
	return Sat, vals
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "(error solver closed: " + err.Error() + ")"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readValues(n int) []uint64 {
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil
		}
		if depth == 0 && c != '(' {
			continue
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	t := b.String()
	if strings.HasPrefix(t, "(error") {
		s.lastErr = t
		return nil
	}
	f := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(t))
	vals := make([]uint64, 0, n)
	// tokens: ( ( name value ) ( name value ) )
	i := 1
	for i < len(f) && f[i] == "(" {
		i += 2
		v := f[i]
		switch {
		case v == "true":
			vals = append(vals, 1)
		case v == "false":
			vals = append(vals, 0)
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			vals = append(vals, x)
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			vals = append(vals, x)
		case v == "(": // (_ bvN w)
			x, _ := strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
			vals = append(vals, x)
			i += 4
		default:
			return nil
		}
		i += 2
	}
	if len(vals) != n {
		return nil
	}
	return vals
}

// script renders a query as a stand-alone SMT-LIB text (for diagnosis).
func script(pc []*Expr, extra *Expr) string {
	var sb strings.Builder
	t := &Solver{decl: map[uint32]bool{}, in: bufio.NewWriter(&sb)}
	for _, e := range append(append([]*Expr(nil), pc...), extra) {
		if e != nil {
			t.define(e)
			t.send("(assert " + t.ref(e) + ")\n")
		}
	}
	t.send("(check-sat)\n")
	t.in.Flush()
	return sb.String()
}
