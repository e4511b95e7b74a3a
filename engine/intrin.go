package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *Frame, args []Value) (Value, bool)

// pureIntrin lists intrinsics that may be evaluated speculatively (they abort instead of
// forking when m.spec is set, and have no side effects).
var pureIntrin = map[string]bool{
	"unicode/utf8.RuneLen": true, "internal/bytealg.IndexByteString": true, "math.Float64bits": true,
	"math.Float64frombits": true, "unicode/utf8.ValidRune": true, "strings.IndexByte": true,
}

var intrinsics map[string]intrinsic

const apiPkg = "vimagination.zapto.org/ics."

func conc(v Value) bool {
	switch v := v.(type) {
	case *Expr, *SStr:
		return false
	case Slice:
		_, ok := concBytes(v)
		return ok
	}
	return true
}

func bstr(v Value) []Value {
	switch v := v.(type) {
	case Slice:
		return v
	case string, *SStr:
		return strBytes(v)
	}
	panic(fmt.Sprintf("bstr %T", v))
}

func i64(n int) Value { return uint64(int64(n)) }

// eqB forks on equality of two byte values.
func (m *Machine) eqB(a, b Value) bool {
	p, ok1 := a.(uint64)
	q, ok2 := b.(uint64)
	if ok1 && ok2 {
		return p == q
	}
	return m.decide(m.x.Eq(m.expr(a, 8), m.expr(b, 8)))
}

func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Expr:
		return m.decide(v)
	}
	panic("truth")
}

func indexByte(m *Machine, fr *Frame, a []Value) (Value, bool) {
	if s, ok := a[0].(string); ok {
		if e, ok := a[1].(*Expr); ok {
			tab := make([]uint64, 256)
			for i := range tab {
				tab[i] = uint64(int64(strings.IndexByte(s, byte(i))))
			}
			return unexpr(m.x.Table(e, tab, 64)), true
		}
	}
	for i, b := range bstr(a[0]) {
		if m.eqB(b, a[1]) {
			return i64(i), true
		}
	}
	return i64(-1), true
}

func lastIndexByte(m *Machine, fr *Frame, a []Value) (Value, bool) {
	s := bstr(a[0])
	for i := len(s) - 1; i >= 0; i-- {
		if m.eqB(s[i], a[1]) {
			return i64(i), true
		}
	}
	return i64(-1), true
}

func countByte(m *Machine, fr *Frame, a []Value) (Value, bool) {
	n := 0
	for _, b := range bstr(a[0]) {
		if m.eqB(b, a[1]) {
			n++
		}
	}
	return i64(n), true
}

func indexOf(m *Machine, fr *Frame, a []Value) (Value, bool) {
	s, t := bstr(a[0]), bstr(a[1])
	if x, ok := concBytes(s); ok {
		if y, ok := concBytes(t); ok {
			return i64(bytes.Index(x, y)), true
		}
	}
	for i := 0; i+len(t) <= len(s); i++ {
		if m.truth(m.eqBytes(s[i:i+len(t)], t)) {
			return i64(i), true
		}
	}
	return i64(-1), true
}

func lastIndexOf(m *Machine, fr *Frame, a []Value) (Value, bool) {
	s, t := bstr(a[0]), bstr(a[1])
	for i := len(s) - len(t); i >= 0; i-- {
		if m.truth(m.eqBytes(s[i:i+len(t)], t)) {
			return i64(i), true
		}
	}
	return i64(-1), true
}

func compareBytes(m *Machine, fr *Frame, a []Value) (Value, bool) {
	s, t := mkStr(append([]Value(nil), bstr(a[0])...)), mkStr(append([]Value(nil), bstr(a[1])...))
	if m.truth(m.strLess(s, t, false)) {
		return i64(-1), true
	}
	if m.truth(m.eqStr(s, t)) {
		return i64(0), true
	}
	return i64(1), true
}

func asciiCase(m *Machine, v Value, upper bool) (Value, bool) {
	s := strBytes(v)
	all := m.x.T
	for _, b := range s {
		switch b := b.(type) {
		case uint64:
			if b >= 0x80 {
				return nil, false
			}
		case *Expr:
			all = m.x.And(all, m.x.Ult(b, m.x.Const(0x80, 8)))
		}
	}
	if !m.decide(all) {
		return nil, false
	}
	tab := make([]uint64, 256)
	for i := range tab {
		tab[i] = uint64(i)
		if upper && 'a' <= i && i <= 'z' {
			tab[i] = uint64(i) - 32
		} else if !upper && 'A' <= i && i <= 'Z' {
			tab[i] = uint64(i) + 32
		}
	}
	r := make([]Value, len(s))
	for i, b := range s {
		switch b := b.(type) {
		case uint64:
			r[i] = tab[b]
		case *Expr:
			r[i] = unexpr(m.x.Table(b, tab, 8))
		}
	}
	return mkStr(r), true
}

func caseFn(upper bool) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			if upper {
				return strings.ToUpper(s), true
			}
			return strings.ToLower(s), true
		}
		return asciiCase(m, a[0], upper)
	}
}

// when all arguments are concrete run f natively, otherwise interpret the real code.
func strFn(f func(a []string) Value) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		s := make([]string, len(a))
		for i, v := range a {
			x, ok := v.(string)
			if !ok {
				return nil, false
			}
			s[i] = x
		}
		return f(s), true
	}
}

func noop(m *Machine, fr *Frame, a []Value) (Value, bool) { return nil, true }

func unsup(name string) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		m.unsupported(name)
		return nil, true
	}
}

func (m *Machine) callModel(name string, args ...Value) (Value, bool) {
	f := m.prog.pkg.Func(name)
	if f == nil {
		m.unsupported("missing model function " + name)
	}
	return callReq{f, args}, true
}

func anySym(a []Value) bool {
	for _, v := range a {
		if symbolic(v) {
			return true
		}
	}
	return false
}

func bytesToVal(b []byte) Slice {
	r := make(Slice, len(b))
	for i, c := range b {
		r[i] = uint64(c)
	}
	return r
}

func init() {
	intrinsics = map[string]intrinsic{
		"internal/bytealg.IndexByte":           indexByte,
		"internal/bytealg.IndexByteString":     indexByte,
		"internal/bytealg.LastIndexByte":       lastIndexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte,
		"internal/bytealg.Count":               countByte,
		"internal/bytealg.CountString":         countByte,
		"internal/bytealg.Index":               indexOf,
		"internal/bytealg.IndexString":         indexOf,
		"internal/bytealg.Compare":             compareBytes,
		"internal/bytealg.CompareString":       compareBytes,
		"internal/bytealg.Equal": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.eqBytes(a[0].(Slice), a[1].(Slice)), true
		},
		"bytes.Equal": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.eqBytes(a[0].(Slice), a[1].(Slice)), true
		},
		"bytes.Compare":     compareBytes,
		"strings.Compare":   compareBytes,
		"cmp.Compare":       nil,
		"strings.IndexByte": indexByte,
		"bytes.IndexByte":   indexByte,
		"strings.Index":     indexOf,
		"bytes.Index":       indexOf,
		"strings.LastIndex": lastIndexOf,
		"bytes.LastIndex":   lastIndexOf,
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			n := int(m.toInt(a[0]))
			return makeSlice(types.Typ[types.Uint8], n, n), true
		},
		"strings.ToUpper": caseFn(true),
		"strings.ToLower": caseFn(false),
		"strings.EqualFold": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			if !anySym(a) {
				return strings.EqualFold(a[0].(string), a[1].(string)), true
			}
			for _, s := range a {
				for _, b := range strBytes(s) {
					if c, ok := b.(uint64); ok && c >= 0x80 {
						return nil, false
					}
				}
			}
			x, ok := asciiCase(m, a[0], false)
			if !ok {
				return nil, false
			}
			y, ok := asciiCase(m, a[1], false)
			if !ok {
				return nil, false
			}
			return m.eqStr(x, y), true
		},
		"(*strings.Builder).copyCheck": noop,
		"strings.Clone":                func(m *Machine, fr *Frame, a []Value) (Value, bool) { return a[0], true },
		"internal/stringslite.Clone":   func(m *Machine, fr *Frame, a []Value) (Value, bool) { return a[0], true },
		"internal/abi.NoEscape":        func(m *Machine, fr *Frame, a []Value) (Value, bool) { return a[0], true },
		"internal/abi.Escape":          func(m *Machine, fr *Frame, a []Value) (Value, bool) { return a[0], true },
		"internal/race.Acquire":        noop,

		// unicode/utf8
		"unicode/utf8.DecodeRune":             utf8Decode,
		"unicode/utf8.DecodeRuneInString":     utf8Decode,
		"unicode/utf8.decodeRuneSlow":         utf8Decode,
		"unicode/utf8.decodeRuneInStringSlow": utf8Decode,
		"unicode/utf8.EncodeRune": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			b := m.encodeRune(a[1])
			p := a[0].(Slice)
			if len(p) < len(b) {
				m.goPanic("index out of range in utf8.EncodeRune")
			}
			for i, v := range b {
				m.write(&p[i], v)
			}
			return i64(len(b)), true
		},
		"unicode/utf8.AppendRune": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.appendVals(a[0].(Slice), m.encodeRune(a[1]), types.Typ[types.Uint8]), true
		},
		"unicode/utf8.FullRune":         utf8Full,
		"unicode/utf8.FullRuneInString": utf8Full,
		"unicode/utf8.RuneLen": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			switch r := a[0].(type) {
			case uint64:
				return i64(utf8.RuneLen(rune(int32(uint32(r))))), true
			case *Expr:
				if b, ok := m.runes[r]; ok {
					return i64(len(b)), true
				}
			}
			return nil, false
		},
		"unicode/utf8.ValidString": utf8Valid,
		"unicode/utf8.Valid":       utf8Valid,

		// strconv
		"strconv.FormatUint": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			if anySym(a) {
				return m.callModel("vmFormatUint", a...)
			}
			return strconv.FormatUint(a[0].(uint64), int(a[1].(uint64))), true
		},
		"strconv.FormatInt": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			if anySym(a) {
				return m.callModel("vmFormatInt", a...)
			}
			return strconv.FormatInt(int64(a[0].(uint64)), int(a[1].(uint64))), true
		},
		"strconv.Itoa": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			if anySym(a) {
				return m.callModel("vmFormatInt", a[0], uint64(10))
			}
			return strconv.Itoa(int(a[0].(uint64))), true
		},
		"strconv.AppendUint": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.callModel("vmAppendUint", a...)
		},
		"strconv.AppendInt": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.callModel("vmAppendInt", a...)
		},
		"strconv.Quote":       strconvQuote,
		"strconv.FormatFloat": formatFloat,
		"strconv.AppendFloat": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			v, _ := formatFloat(m, fr, a[1:])
			return m.appendVals(a[0].(Slice), strBytes(v), types.Typ[types.Uint8]), true
		},
		"strconv.ParseFloat":   parseFloat,
		"math.Float64bits":     floatBits,
		"math.Float64frombits": floatFromBits,
		"math.Float32bits": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			f, ok := a[0].(float64)
			if !ok {
				m.unsupported("Float32bits")
			}
			return uint64(math.Float32bits(float32(f))), true
		},
		"math.Float32frombits": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			f, ok := a[0].(uint64)
			if !ok {
				m.unsupported("Float32frombits")
			}
			return float64(math.Float32frombits(uint32(f))), true
		},
		"math.Floor": float1(math.Floor),
		"math.Ceil":  float1(math.Ceil),
		"math.Trunc": float1(math.Trunc),
		"math.Sqrt":  float1(math.Sqrt),
		"math.Abs": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			switch f := a[0].(type) {
			case float64:
				return math.Abs(f), true
			case *Expr:
				return unexpr(m.x.Bin(OAnd, f, m.x.Const(1<<63-1, 64))), true
			}
			return nil, false
		},
		"math/bits.Mul64": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			x, ok1 := a[0].(uint64)
			y, ok2 := a[1].(uint64)
			if !ok1 || !ok2 {
				return nil, false
			}
			h, l := bits.Mul64(x, y)
			return Tuple{h, l}, true
		},

		// sync and friends
		"(*sync.Mutex).Lock":                        noop,
		"(*sync.Mutex).Unlock":                      noop,
		"(*sync.RWMutex).Lock":                      noop,
		"(*sync.RWMutex).Unlock":                    noop,
		"(*sync.RWMutex).RLock":                     noop,
		"(*sync.RWMutex).RUnlock":                   noop,
		"(*sync.Once).Do":                           onceDo,
		"(*sync.Pool).Put":                          noop,
		"(*sync.Pool).Get":                          poolGet,
		"sync/atomic.LoadUint32":                    atomicLoad,
		"sync/atomic.LoadUint64":                    atomicLoad,
		"sync/atomic.LoadInt32":                     atomicLoad,
		"sync/atomic.LoadInt64":                     atomicLoad,
		"sync/atomic.StoreUint32":                   atomicStore,
		"sync/atomic.StoreUint64":                   atomicStore,
		"sync/atomic.StoreInt32":                    atomicStore,
		"sync/atomic.StoreInt64":                    atomicStore,
		"runtime.SetFinalizer":                      noop,
		"runtime.KeepAlive":                         noop,
		"runtime.GC":                                noop,
		"internal/godebug.New":                      nil,
		"(*internal/godebug.Setting).Value":         func(m *Machine, fr *Frame, a []Value) (Value, bool) { return "", true },
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"internal/godebug.New#":                     noop,

		// errors, fmt
		"errors.Is": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			if a[0].(Iface).t == nil || a[1].(Iface).t == nil {
				return m.eqVal(a[0], a[1]), true
			}
			f := m.prog.prog.ImportedPackage("errors").Func("is")
			return callReq{f, []Value{a[0], a[1], types.Comparable(a[1].(Iface).t)}}, true
		},
		"fmt.Errorf":   func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.callModel("vmErrorf", a...) },
		"fmt.Sprintf":  func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.callModel("vmSprintf", a...) },
		"fmt.Sprint":   func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.callModel("vmSprint", a...) },
		"fmt.Fprintf":  func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.callModel("vmFprintf", a...) },
		"fmt.Fprint":   func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.callModel("vmFprint", a...) },
		"fmt.Appendf":  func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.callModel("vmAppendf", a...) },
		"fmt.Sprintln": unsup("fmt.Sprintln"),
		"fmt.Println":  unsup("fmt.Println"),
		"fmt.Fprintln": unsup("fmt.Fprintln"),

		// harness interface
		apiPkg + "vByte": func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.newVar("byte", 8), true },
		apiPkg + "vBool": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			v := m.newVar("bool", 1)
			return m.x.Eq(v, m.x.Const(1, 1)), true
		},
		apiPkg + "vUint64": func(m *Machine, fr *Frame, a []Value) (Value, bool) { return m.newVar("u64", 64), true },
		apiPkg + "vInt":    vInt,
		apiPkg + "vChoice": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			n := m.toInt(a[0])
			if n <= 0 {
				m.unsupported("vChoice of nothing")
			}
			v := m.choose(uint64(n))
			m.tape = append(m.tape, tapeEntry{name: "choice", c: v})
			return v, true
		},
		apiPkg + "vAssume": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			switch c := a[0].(type) {
			case bool:
				if !c {
					panic(pathEnd{"assume", ""})
				}
			case *Expr:
				if m.replaying() {
					m.assume(c)
					return nil, true
				}
				t, _, exact := m.domFeas(c)
				if !exact {
					if m.modelOK && m.evalModel(c) == 1 {
						t = true
					} else {
						vs := m.allVars()
						r, vals := m.sol.check(m.pc, c, vs)
						t = r != Unsat
						if r == Sat {
							m.setModel(vs, vals)
						} else if r == Unknown {
							m.Unknowns++
						}
					}
				}
				if !t {
					panic(pathEnd{"assume", ""})
				}
				m.assume(c)
			}
			return nil, true
		},
		apiPkg + "vAssert": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			msg, _ := a[1].(string)
			m.assertion(msg, a[0])
			return nil, true
		},
		apiPkg + "vCover": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			m.covers = append(m.covers, a[0].(string))
			return nil, true
		},
		apiPkg + "vObserve": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			v := a[1].(Iface)
			m.obs = append(m.obs, obsEntry{a[0].(string), v.v})
			return nil, true
		},
		apiPkg + "vParam": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			i := m.toInt(a[0])
			if int(i) >= len(m.params) {
				return uint64(0), true
			}
			return uint64(int64(m.params[i])), true
		},
		apiPkg + "vEqual": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			x, y := a[0].(Iface), a[1].(Iface)
			return m.deepEqual(nil, x, y), true
		},
		apiPkg + "vCopy": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.deepCopy(nil, a[0]), true
		},
		apiPkg + "vShares": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			seen := map[*Value]bool{}
			m.cells(nil, a[0], func(p *Value) bool {
				if seen[p] {
					return false
				}
				seen[p] = true
				return true
			})
			r := false
			done := map[*Value]bool{}
			m.cells(nil, a[1], func(p *Value) bool {
				r = r || seen[p]
				if done[p] {
					return false
				}
				done[p] = true
				return true
			})
			return r, true
		},
		apiPkg + "vURLs": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			urls := Slice{}
			m.places(nil, &a[0], func(t types.Type, p *Value) {
				if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/url" && n.Obj().Name() == "URL" {
					urls = append(urls, p)
				}
			})
			return urls, true
		},
		apiPkg + "vTidy": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			m.places(nil, &a[0], func(t types.Type, p *Value) {
				ptr, ok := t.(*types.Pointer)
				if !ok || (*p).(*Value) == nil {
					return
				}
				n, ok := ptr.Elem().(*types.Named)
				if ok && strings.HasPrefix(n.Obj().Name(), "Param") && isEmpty(*(*p).(*Value)) {
					*p = (*Value)(nil)
				}
			})
			return nil, true
		},
		apiPkg + "vFork": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.truth(a[0]), true
		},
		apiPkg + "vConcrete": func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.toIntVal(a[0]), true
		},
		apiPkg + "vSymbolic": func(m *Machine, fr *Frame, a []Value) (Value, bool) { return true, true },
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	timeIntrinsics()
	m1 := func(name string, f intrinsic) { intrinsics[name] = f }
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		p := "(*sync/atomic." + t + ")."
		m1(p+"Load", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			s := (*a[0].(*Value)).(Struct)
			v := s[len(s)-1]
			if strings.Contains(p, "Bool") {
				return v != uint64(0), true
			}
			return v, true
		})
		m1(p+"Store", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			s := (*a[0].(*Value)).(Struct)
			v := a[1]
			if b, ok := v.(bool); ok {
				v = uint64(0)
				if b {
					v = uint64(1)
				}
			}
			m.write(&s[len(s)-1], v)
			return nil, true
		})
		m1(p+"Add", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			s := (*a[0].(*Value)).(Struct)
			v := s[len(s)-1].(uint64) + a[1].(uint64)
			m.write(&s[len(s)-1], v)
			return v, true
		})
	}
}

func (m *Machine) toIntVal(v Value) Value {
	if e, ok := v.(*Expr); ok {
		return m.concretize(e)
	}
	return v
}

func float1(f func(float64) float64) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		x, ok := a[0].(float64)
		if !ok {
			m.unsupported("symbolic math function")
		}
		return f(x), true
	}
}

func atomicLoad(m *Machine, fr *Frame, a []Value) (Value, bool) { return *a[0].(*Value), true }
func atomicStore(m *Machine, fr *Frame, a []Value) (Value, bool) {
	m.write(a[0].(*Value), a[1])
	return nil, true
}

func onceDo(m *Machine, fr *Frame, a []Value) (Value, bool) {
	p := a[0].(*Value)
	if m.onces[p] {
		return nil, true
	}
	m.onces[p] = true
	m.onUndo(func() { delete(m.onces, p) })
	return callReq{a[1], nil}, true
}

func poolGet(m *Machine, fr *Frame, a []Value) (Value, bool) {
	s := (*a[0].(*Value)).(Struct)
	f := s[len(s)-1]
	if g, ok := f.(*ssa.Function); ok && g == nil {
		return Iface{}, true
	}
	return callReq{f, nil}, true
}

func utf8Decode(m *Machine, fr *Frame, a []Value) (Value, bool) {
	r, n := m.decodeRune(bstr(a[0]))
	return Tuple{r, i64(n)}, true
}

func utf8Full(m *Machine, fr *Frame, a []Value) (Value, bool) {
	b := bstr(a[0])
	if len(b) == 0 {
		return false, true
	}
	if len(b) >= 4 {
		return true, true
	}
	if x, ok := concBytes(b); ok {
		return utf8.FullRune(x), true
	}
	return nil, false
}

func utf8Valid(m *Machine, fr *Frame, a []Value) (Value, bool) {
	b := bstr(a[0])
	for len(b) > 0 {
		r, n := m.decodeRune(b)
		if n == 1 {
			if c, ok := r.(uint64); ok && c == utf8.RuneError {
				return false, true
			}
		}
		b = b[n:]
	}
	return true, true
}

func strconvQuote(m *Machine, fr *Frame, a []Value) (Value, bool) {
	if s, ok := a[0].(string); ok {
		return strconv.Quote(s), true
	}
	// only used in error texts
	return "\"?\"", true
}

func floatBits(m *Machine, fr *Frame, a []Value) (Value, bool) {
	switch f := a[0].(type) {
	case float64:
		return math.Float64bits(f), true
	case *Expr:
		return f, true
	}
	panic("floatBits")
}

func floatFromBits(m *Machine, fr *Frame, a []Value) (Value, bool) {
	switch f := a[0].(type) {
	case uint64:
		return math.Float64frombits(f), true
	case *Expr:
		return f, true
	}
	panic("floatFromBits")
}

// formatFloat: contract for symbolic floats. The text is a sign, "0." and 21 digits that are an
// injective function of the bits; parseFloat is its inverse. NaN and infinities fork to their
// concrete spellings.
func formatFloat(m *Machine, fr *Frame, a []Value) (Value, bool) {
	f, ok := a[0].(float64)
	if ok {
		return strconv.FormatFloat(f, byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64))), true
	}
	e := a[0].(*Expr)
	if int64(a[2].(uint64)) != -1 || a[3].(uint64) != 64 {
		// other precisions lose information for some of these values
		for _, f := range []float64{math.Pi, 1e-10, 123456789.123456789, 1.0 / 3, 1e300, 5e-324} {
			if m.decide(m.x.Eq(e, m.x.Const(math.Float64bits(f), 64))) {
				return strconv.FormatFloat(f, byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64))), true
			}
		}
	}
	x := m.x
	exp := x.Bin(OAnd, x.Bin(OLshr, e, x.Const(52, 64)), x.Const(0x7FF, 64))
	if m.decide(x.Eq(exp, x.Const(0x7FF, 64))) {
		if m.decide(x.Eq(x.Bin(OAnd, e, x.Const(1<<52-1, 64)), x.Const(0, 64))) {
			if m.decide(x.Slt(e, x.Const(0, 64))) {
				return "-Inf", true
			}
			return "+Inf", true
		}
		return "NaN", true
	}
	var b []Value
	if m.decide(x.Slt(e, x.Const(0, 64))) {
		b = append(b, uint64('-'))
	}
	b = append(b, uint64('0'), uint64('.'))
	for i := 0; i < 21; i++ {
		d := x.Trunc(x.Bin(OAnd, x.Bin(OLshr, e, x.Const(uint64(i*3), 64)), x.Const(7, 64)), 8)
		b = append(b, unexpr(x.Bin(OOr, d, x.Const('0', 8))))
	}
	m.setHavoc()
	s := &SStr{b}
	m.floatTexts = append(m.floatTexts, floatText{b, e})
	n := len(m.floatTexts) - 1
	m.onUndo(func() { m.floatTexts = m.floatTexts[:n] })
	return s, true
}

type floatText struct {
	b []Value
	f *Expr
}

func (m *Machine) auxVar(w uint8) *Expr {
	v := m.x.Var(m.nvar, w)
	m.nvar++
	m.aux = append(m.aux, v)
	n := len(m.aux) - 1
	m.onUndo(func() { m.aux = m.aux[:n] })
	if int(v.k) < len(m.model) {
		m.model[v.k] = 0
	}
	return v
}

func (m *Machine) parseErr() Value {
	return m.prog.someError()
}

func parseFloat(m *Machine, fr *Frame, a []Value) (Value, bool) {
	if s, ok := a[0].(string); ok {
		f, err := strconv.ParseFloat(s, int(a[1].(uint64)))
		if err != nil {
			return Tuple{f, m.parseErr()}, true
		}
		return Tuple{f, Iface{}}, true
	}
	s := a[0].(*SStr)
	for _, t := range m.floatTexts {
		if len(t.b) != len(s.b) {
			continue
		}
		same := true
		for i := range t.b {
			if t.b[i] != s.b[i] {
				same = false
				break
			}
		}
		if same {
			return Tuple{t.f, Iface{}}, true
		}
	}
	m.setHavoc()
	if m.choose(2) == 0 {
		return Tuple{float64(0), m.parseErr()}, true
	}
	return Tuple{m.auxVar(64), Iface{}}, true
}

func vInt(m *Machine, fr *Frame, a []Value) (Value, bool) {
	lo, hi := m.toInt(a[0]), m.toInt(a[1])
	if hi < lo {
		m.unsupported("vInt of empty range")
	}
	span := uint64(hi - lo)
	w := uint8(8)
	switch {
	case span > 1<<32-1:
		w = 64
	case span > 1<<16-1:
		w = 32
	case span > 255:
		w = 16
	}
	v := m.newVar("int", w)
	m.tape[len(m.tape)-1].c = uint64(lo)
	if span != mask(w) {
		m.assume(m.x.Not(m.x.Ult(m.x.Const(span, w), v)))
	}
	return unexpr(m.x.Bin(OAdd, m.x.Zext(v, 64), m.x.Const(uint64(lo), 64))), true
}

// assertion checks a property of the path with the solver.
func (m *Machine) assertion(msg string, c Value) {
	if m.replaying() {
		if e, ok := c.(*Expr); ok {
			m.assume(e)
		}
		return
	}
	st := m.stats
	st.Asserts++
	switch c := c.(type) {
	case bool:
		if c {
			st.AssertConst++
			return
		}
		m.violation("assert", msg)
		panic(pathEnd{"violated", msg})
	case *Expr:
		vs := m.allVars()
		r, vals := m.sol.check(m.pc, m.x.Not(c), vs)
		st.AssertQueries++
		switch r {
		case Unsat:
			st.AssertProved++
		case Unknown:
			st.AssertUnknown++
			panic(pathEnd{"unsupported", "solver gave no verdict on assertion: " + msg})
		case Sat:
			m.setModel(vs, vals)
			m.violation("assert", msg)
			m.modelOK = false
		}
		if m.cross != nil {
			r2, _ := m.cross.check(m.pc, m.x.Not(c), nil)
			if r2 != Unknown && r2 != r {
				panic("engine: solvers disagree on assertion " + msg)
			}
			st.CrossChecked++
		}
		if r == Sat {
			// continue with the values for which it holds, if any
			r3, _ := m.sol.check(m.pc, c, nil)
			if r3 == Unsat {
				panic(pathEnd{"violated", msg})
			}
		}
		m.assume(c)
	}
}

// deepEqual compares two values structurally: nil and empty slices are the same, times are
// compared by their civil fields and zone name.
func (m *Machine) deepEqual(t types.Type, a, b Value) Value {
	if t != nil {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
			x, y := a.(Struct), b.(Struct)
			e := m.x.And(m.boolExpr(m.eqVal(x[0], y[0])), m.boolExpr(m.eqVal(x[1], y[1])))
			if m.locName(x[2]) != m.locName(y[2]) {
				return false
			}
			return unexpr(e)
		}
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v)
	case *Value:
		y, _ := b.(*Value)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x == y {
			return true
		}
		return m.deepEqual(t.Underlying().(*types.Pointer).Elem(), *x, *y)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := m.x.T
		for i := range x {
			v := m.deepEqual(st.Field(i).Type(), x[i], y[i])
			r = m.x.And(r, m.boolExpr(v))
			if r == m.x.F {
				return false
			}
		}
		return unexpr(r)
	case Array:
		return m.deepList(t.Underlying().(*types.Array).Elem(), x, b.(Array))
	case Slice:
		return m.deepList(t.Underlying().(*types.Slice).Elem(), x, b.(Slice))
	case *Map:
		m.unsupported("deepEqual of map")
	}
	if t != nil && isFloat(t) {
		x, y := m.expr(a, 64), m.expr(b, 64)
		nan := m.x.And(m.x.Not(m.x.F2(OFEq, x, x)), m.x.Not(m.x.F2(OFEq, y, y)))
		return unexpr(m.x.Or(m.boolExpr(m.eqFloat(a, b)), nan))
	}
	return m.eqVal(a, b)
}

func (m *Machine) deepList(t types.Type, x, y []Value) Value {
	if len(x) != len(y) {
		return false
	}
	r := m.x.T
	for i := range x {
		r = m.x.And(r, m.boolExpr(m.deepEqual(t, x[i], y[i])))
		if r == m.x.F {
			return false
		}
	}
	return unexpr(r)
}

func isLocation(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Location"
}

// deepCopy copies a value with everything reachable from it, other than locations of times.
func (m *Machine) deepCopy(t types.Type, v Value) Value {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return x
		}
		return Iface{x.t, m.deepCopy(x.t, x.v)}
	case *Value:
		if x == nil {
			return x
		}
		e := t.Underlying().(*types.Pointer).Elem()
		if isLocation(e) {
			return x
		}
		c := m.deepCopy(e, *x)
		return &c
	case Struct:
		st := t.Underlying().(*types.Struct)
		c := make(Struct, len(x))
		for i := range x {
			c[i] = m.deepCopy(st.Field(i).Type(), x[i])
		}
		return c
	case Array:
		return Array(m.copyList(t.Underlying().(*types.Array).Elem(), x))
	case Slice:
		if x == nil {
			return x
		}
		return Slice(m.copyList(t.Underlying().(*types.Slice).Elem(), x))
	case *Map:
		m.unsupported("copy of map")
	}
	return v
}

func (m *Machine) copyList(t types.Type, x []Value) []Value {
	c := make([]Value, len(x))
	for i := range x {
		c[i] = m.deepCopy(t, x[i])
	}
	return c
}

// cells visits the memory reachable from a value, other than locations of times; visit returns
// whether to go on behind the cell.
func (m *Machine) cells(t types.Type, v Value, visit func(*Value) bool) {
	switch x := v.(type) {
	case Iface:
		if x.t != nil {
			m.cells(x.t, x.v, visit)
		}
	case *Value:
		if x == nil {
			return
		}
		e := t.Underlying().(*types.Pointer).Elem()
		if st, ok := (*x).(Struct); ok && len(st) == 0 {
			return
		}
		if !isLocation(e) && visit(x) {
			m.cells(e, *x, visit)
		}
	case Struct:
		st := t.Underlying().(*types.Struct)
		for i := range x {
			m.cells(st.Field(i).Type(), x[i], visit)
		}
	case Array:
		for i := range x {
			m.cells(t.Underlying().(*types.Array).Elem(), x[i], visit)
		}
	case Slice:
		e := t.Underlying().(*types.Slice).Elem()
		for i := range x {
			if visit(&x[i]) {
				m.cells(e, x[i], visit)
			}
		}
	case *Map:
		m.unsupported("cells of map")
	}
}

// places visits the typed places a value consists of, other than locations of times.
func (m *Machine) places(t types.Type, p *Value, visit func(types.Type, *Value)) {
	if t != nil {
		visit(t, p)
	}
	switch x := (*p).(type) {
	case Iface:
		if x.t != nil {
			m.places(x.t, &x.v, visit)
		}
	case *Value:
		if x == nil {
			return
		}
		if e := t.Underlying().(*types.Pointer).Elem(); !isLocation(e) {
			m.places(e, x, visit)
		}
	case Struct:
		st := t.Underlying().(*types.Struct)
		for i := range x {
			m.places(st.Field(i).Type(), &x[i], visit)
		}
	case Array:
		for i := range x {
			m.places(t.Underlying().(*types.Array).Elem(), &x[i], visit)
		}
	case Slice:
		for i := range x {
			m.places(t.Underlying().(*types.Slice).Elem(), &x[i], visit)
		}
	}
}

// isEmpty tells whether a value is an empty string or a struct of zero values.
func isEmpty(v Value) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *Value:
		return x == nil
	case bool:
		return !x
	case Struct:
		for _, f := range x {
			if !isEmpty(f) {
				return false
			}
		}
		return true
	}
	return false
}
