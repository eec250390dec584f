package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unsafe"
)

const harnessPrefix = "hbuf/zz_verif/"
const symPkg = harnessPrefix + "sym"

func initAllowed(path string) bool {
	if strings.HasPrefix(path, "hbuf/") {
		return true
	}
	switch path {
	case "io", "io/fs", "strings", "strconv", "unicode", "unicode/utf8", "bytes", "sort", "slices", "maps",
		"cmp", "regexp", "regexp/syntax", "path", "path/filepath", "go/token", "go/scanner", "go/parser", "go/ast",
		"go/build/constraint", "internal/oserror", "bufio", "iter", "math", "math/bits", "internal/stringslite",
		"internal/filepathlite", "go/version", "internal/gover", "text/tabwriter", "unicode/utf16":
		return true
	}
	return strings.HasPrefix(path, "github.com/wskfjtheqian/")
}

// functions replaced by Go code of the rt package
var redirects = map[string]string{
	"os.ReadFile": "ReadFile", "os.WriteFile": "WriteFile", "os.Create": "Create", "os.Open": "Open",
	"os.OpenFile": "OpenFile", "os.MkdirAll": "MkdirAll", "os.Mkdir": "Mkdir", "os.Stat": "Stat", "os.Lstat": "Stat",
	"os.ReadDir": "ReadDir", "os.Getwd": "Getwd", "os.Remove": "Remove", "os.RemoveAll": "RemoveAll",
	"(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString", "(*os.File).Close": "FileClose",
	"(*os.File).Read": "FileRead", "(*os.File).ReadDir": "FileReadDir", "(*os.File).Readdir": "FileReaddir",
	"(*os.File).Readdirnames": "FileReaddirnames", "(*os.File).Name": "FileName", "(*os.File).Sync": "FileClose",
	"(*os.File).Stat": "FileStat", "(*os.File).ReadFrom": "FileReadFrom",
	"io/ioutil.ReadDir": "IoutilReadDir", "os.IsNotExist": "IsNotExist", "os.IsExist": "IsExist",
	"os.Chdir": "Chdir", "os.Rename": "Rename", "os.Getenv": "Getenv",
	"internal/bytealg.IndexByteString": "IndexByteString", "internal/bytealg.IndexByte": "IndexByte",
	"internal/bytealg.CountString": "CountString", "internal/bytealg.Count": "Count",
	"internal/bytealg.IndexString": "IndexString", "internal/bytealg.Index": "Index",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString", "internal/bytealg.LastIndexByte": "LastIndexByte",
	"internal/stringslite.Index": "IndexString", "internal/stringslite.IndexByte": "IndexByteString",
	"strings.Index": "IndexString", "strings.IndexByte": "IndexByteString", "bytes.IndexByte": "IndexByte",
	"strings.Count": "StringsCount", symPkg + ".Full": "Full",
}

var pureHooks = map[string]bool{
	"unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsSpace": true, "unicode.IsUpper": true,
	"unicode.IsLower": true, "unicode.IsPrint": true, "unicode.IsGraphic": true, "unicode.IsNumber": true,
	"unicode.ToUpper": true, "unicode.ToLower": true,
	symPkg + ".And": true, symPkg + ".Or": true, symPkg + ".Not": true, symPkg + ".In": true, symPkg + ".Eq": true,
}

// ---- rune tables

type runTab struct {
	lo []uint32
	v  []uint64
}

var tabMu sync.Mutex
var tabs = map[string]*runTab{}

func getTab(name string, f func(rune) uint64) *runTab {
	tabMu.Lock()
	defer tabMu.Unlock()
	if t, ok := tabs[name]; ok {
		return t
	}
	t := &runTab{}
	for r := rune(0); r <= 0x110000; r++ {
		v := uint64(0)
		if r <= 0x10ffff {
			v = f(r)
		}
		if len(t.v) == 0 || t.v[len(t.v)-1] != v {
			t.lo = append(t.lo, uint32(r))
			t.v = append(t.v, v)
		}
	}
	tabs[name] = t
	return t
}

func (m *M) runLookup(t *runTab, e *Expr, w uint8) *Expr {
	ix := e
	for ix.op == OZext {
		ix = ix.a
	}
	// narrow using the interval of the term: a term known to be small only
	// needs the first runs
	max := uint64(math.MaxUint32)
	if ix.w < 32 {
		max = mask(ix.w)
	}
	if u := upperBound(ix); u < max {
		max = u
	}
	hi := len(t.lo)
	for hi > 1 && uint64(t.lo[hi-1]) > max {
		hi--
	}
	var build func(a, b int) *Expr
	build = func(a, b int) *Expr {
		if b-a == 1 {
			return m.t.Const(t.v[a], w)
		}
		mid := (a + b) / 2
		return m.t.Ite(m.t.Cmp(OUlt, ix, m.t.Const(uint64(t.lo[mid]), ix.w)), build(a, mid), build(mid, b))
	}
	return build(0, hi)
}

// upperBound is a cheap over-approximation of the largest unsigned value.
func upperBound(e *Expr) uint64 {
	m := mask(e.w)
	switch e.op {
	case OConst:
		return e.k
	case OZext:
		return upperBound(e.a)
	case OAnd:
		a, b := upperBound(e.a), upperBound(e.b)
		if a < b {
			return a
		}
		return b
	case OOr:
		a, b := upperBound(e.a), upperBound(e.b)
		x := a | b
		// all bits up to the highest set bit
		for s := uint(1); s < 64; s <<= 1 {
			x |= x >> s
		}
		if x < m {
			return x
		}
	case OShl:
		if e.b.isC() && e.b.k < 64 {
			a := upperBound(e.a)
			if a<<e.b.k>>e.b.k == a && a<<e.b.k <= m {
				return a << e.b.k
			}
		}
	case OLshr:
		if e.b.isC() && e.b.k < 64 {
			return upperBound(e.a) >> e.b.k
		}
	case OIte:
		a, b := upperBound(e.b), upperBound(e.c)
		if a > b {
			return a
		}
		return b
	case OUrem:
		if e.b.isC() && e.b.k > 0 {
			return e.b.k - 1
		}
	}
	return m
}

func runePred(name string, f func(rune) bool) intrinsic {
	return func(m *M, _ *frame, a []Value) Value {
		if a[0].P == nil {
			return Value{N: b2u(f(rune(int32(a[0].N))))}
		}
		t := getTab(name, func(r rune) uint64 { return b2u(f(r)) })
		return ev(m.runLookup(t, m.ex(a[0], 32), 1))
	}
}

func runeMap(name string, f func(rune) rune) intrinsic {
	return func(m *M, _ *frame, a []Value) Value {
		if a[0].P == nil {
			return Value{N: uint64(uint32(f(rune(int32(a[0].N)))))}
		}
		t := getTab(name, func(r rune) uint64 { return uint64(uint32(f(r) - r)) })
		e := m.ex(a[0], 32)
		return ev(m.t.Bin(OAdd, e, m.runLookup(t, e, 32)))
	}
}

func nop(m *M, _ *frame, a []Value) Value { return Value{} }

func goStr(m *M, v Value) string { return m.concStr(v) }

func (m *M) bytesOf(v Value) []Value {
	if v.P == nil {
		return nil
	}
	s := v.P.(*Slice)
	return s.o.s[s.off : s.off+s.len]
}

func (m *M) mkSlice(b []Value) Value {
	o := m.alloc(len(b))
	copy(o.s, b)
	return Value{P: &Slice{o, 0, len(b), len(b)}}
}

func (m *M) deref(v Value) (*Obj, int) {
	switch o := v.P.(type) {
	case *Obj:
		return o, int(v.N)
	case *SymPtr:
		return m.resolveSym(o)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsup("deref %T", v.P)
	return nil, 0
}

func (m *M) newErr(msg Value) Value {
	f := m.p.pkgs["errors"].Func("New")
	return m.callFn(m.p.fn(f), nil, []Value{msg}, m.top)
}

func mkHooks() map[string]intrinsic {
	h := map[string]intrinsic{
		"unicode.IsLetter":  runePred("IsLetter", unicode.IsLetter),
		"unicode.IsDigit":   runePred("IsDigit", unicode.IsDigit),
		"unicode.IsSpace":   runePred("IsSpace", unicode.IsSpace),
		"unicode.IsUpper":   runePred("IsUpper", unicode.IsUpper),
		"unicode.IsLower":   runePred("IsLower", unicode.IsLower),
		"unicode.IsPrint":   runePred("IsPrint", unicode.IsPrint),
		"unicode.IsGraphic": runePred("IsGraphic", unicode.IsGraphic),
		"unicode.IsNumber":  runePred("IsNumber", unicode.IsNumber),
		"unicode.IsPunct":   runePred("IsPunct", unicode.IsPunct),
		"unicode.IsControl": runePred("IsControl", unicode.IsControl),
		"unicode.IsTitle":   runePred("IsTitle", unicode.IsTitle),
		"strconv.IsPrint":   runePred("sIsPrint", strconv.IsPrint),
		"unicode.ToUpper":   runeMap("ToUpper", unicode.ToUpper),
		"unicode.ToLower":   runeMap("ToLower", unicode.ToLower),
		"unicode.ToTitle":   runeMap("ToTitle", unicode.ToTitle),

		"unicode/utf8.DecodeRuneInString": func(m *M, _ *frame, a []Value) Value {
			r, n := m.decodeRune(a[0], 0)
			return tuple(r, Value{N: uint64(n)})
		},
		"unicode/utf8.DecodeRune": func(m *M, _ *frame, a []Value) Value {
			b := m.bytesOf(a[0])
			r, n := m.decodeAt(func(i int) Value { return b[i] }, len(b))
			return tuple(r, Value{N: uint64(n)})
		},
		"(*strings.Builder).copyCheck": nop,
		"internal/bytealg.MakeNoZero": func(m *M, _ *frame, a []Value) Value {
			n := int(m.concretize(a[0], 64))
			return Value{P: &Slice{m.alloc(n), 0, n, n}}
		},
		"internal/bytealg.Equal": func(m *M, _ *frame, a []Value) Value {
			return m.eqStr(mkStr(append([]Value(nil), m.bytesOf(a[0])...)), mkStr(append([]Value(nil), m.bytesOf(a[1])...)))
		},
		"bytes.Equal": func(m *M, _ *frame, a []Value) Value {
			return m.eqStr(mkStr(append([]Value(nil), m.bytesOf(a[0])...)), mkStr(append([]Value(nil), m.bytesOf(a[1])...)))
		},
		"internal/bytealg.Compare": func(m *M, _ *frame, a []Value) Value {
			return m.cmp3(mkStr(append([]Value(nil), m.bytesOf(a[0])...)), mkStr(append([]Value(nil), m.bytesOf(a[1])...)))
		},
		"internal/bytealg.CompareString": func(m *M, _ *frame, a []Value) Value { return m.cmp3(a[0], a[1]) },
		"strings.Compare":                func(m *M, _ *frame, a []Value) Value { return m.cmp3(a[0], a[1]) },
		"strings.EqualFold":              nil,
		"internal/abi.NoEscape":          func(m *M, _ *frame, a []Value) Value { return a[0] },
		"internal/abi.Escape":            func(m *M, _ *frame, a []Value) Value { return a[0] },
		"internal/bytealg.init":          nop,

		"(*sync.Mutex).Lock": func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off].N == 77 {
				m.fail("hang", "deadlock: mutex locked twice")
			}
			m.touch(o, off, 1)
			o.s[off] = Value{N: 77}
			return Value{}
		},
		"(*sync.Mutex).Unlock": func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			m.touch(o, off, 1)
			o.s[off] = Value{}
			return Value{}
		},
		"(*sync.Mutex).TryLock": nil,
		"(*sync.RWMutex).Lock": func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off].N != 0 {
				m.fail("hang", "deadlock: rwmutex locked twice")
			}
			m.touch(o, off, 1)
			o.s[off] = Value{N: 77}
			return Value{}
		},
		"(*sync.RWMutex).Unlock": func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off].N != 77 {
				m.rtPanicT("fatal error: sync: Unlock of unlocked RWMutex")
			}
			m.touch(o, off, 1)
			o.s[off] = Value{}
			return Value{}
		},
		"(*sync.RWMutex).RLock": func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off].N == 77 {
				m.fail("hang", "deadlock: rwmutex read-locked while locked")
			}
			m.touch(o, off, 1)
			o.s[off].N++
			return Value{}
		},
		"(*sync.RWMutex).RUnlock": func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off].N == 0 || o.s[off].N == 77 {
				m.rtPanicT("fatal error: sync: RUnlock of unlocked RWMutex")
			}
			m.touch(o, off, 1)
			o.s[off].N--
			return Value{}
		},
		"(*sync.Once).Do": func(m *M, c *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off].N == 1 {
				return Value{}
			}
			m.touch(o, off, 1)
			o.s[off] = Value{N: 1}
			m.callClosure(a[1].P.(*Closure), nil, c)
			return Value{}
		},
		"(*sync.Pool).Get": func(m *M, c *frame, a []Value) Value {
			o, off := m.deref(a[0])
			t := m.p.syncPool
			f := o.s[off+t.foff[len(t.foff)-1]]
			if f.P == nil {
				return Value{}
			}
			return m.callClosure(f.P.(*Closure), nil, c)
		},
		"(*sync.Pool).Put":      nop,
		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"runtime.SetFinalizer": nop, "runtime.KeepAlive": nop, "runtime.GC": nop,

		"os.Exit":     func(m *M, _ *frame, a []Value) Value { m.fail("exit", "os.Exit"); return Value{} },
		"log.Println": nop, "log.Printf": nop, "log.Print": nop, "log.SetFlags": nop,
		"log.Fatalln": func(m *M, _ *frame, a []Value) Value { m.fail("exit", "log.Fatalln"); return Value{} },
		"log.Fatal":   func(m *M, _ *frame, a []Value) Value { m.fail("exit", "log.Fatal"); return Value{} },
		"log.Fatalf":  func(m *M, _ *frame, a []Value) Value { m.fail("exit", "log.Fatalf"); return Value{} },

		"math.Float64bits":     func(m *M, _ *frame, a []Value) Value { return Value{N: math.Float64bits(m.toF(a[0]))} },
		"math.Float64frombits": func(m *M, _ *frame, a []Value) Value { return Value{N: m.concretize(a[0], 64)} },
		"math.Float32bits": func(m *M, _ *frame, a []Value) Value {
			return Value{N: uint64(math.Float32bits(float32(m.toF(a[0]))))}
		},
		"math.Float32frombits": func(m *M, _ *frame, a []Value) Value {
			return Value{N: math.Float64bits(float64(math.Float32frombits(uint32(m.concretize(a[0], 32)))))}
		},

		"fmt.Sprintf": func(m *M, c *frame, a []Value) Value { return m.sprintf(c, a[0], a[1]) },
		"fmt.Sprint":  func(m *M, c *frame, a []Value) Value { return m.sprint(c, a[0], false) },
		"fmt.Sprintln": func(m *M, c *frame, a []Value) Value {
			return strCat(m.sprint(c, a[0], true), sv("\n"))
		},
		"fmt.Println": nop3, "fmt.Printf": nop3, "fmt.Print": nop3,
		"fmt.Errorf": func(m *M, c *frame, a []Value) Value {
			msg := m.sprintf(c, a[0], a[1])
			f := m.concStr(a[0])
			if i := strings.Index(f, "%w"); i >= 0 {
				for _, x := range m.anyArgs(a[1]) {
					if x.P != nil && m.p.implements(x.P.(*Iface).t, m.p.tError.u.(*types.Interface)) {
						o := m.alloc(3)
						o.s[0], o.s[1] = msg, x
						return Value{P: &Iface{m.p.tWrapErr, Value{P: o}}}
					}
				}
			}
			return m.newErr(msg)
		},
		"fmt.Fprintf": func(m *M, c *frame, a []Value) Value { return m.fprint(c, a[0], m.sprintf(c, a[1], a[2])) },
		"fmt.Fprint":  func(m *M, c *frame, a []Value) Value { return m.fprint(c, a[0], m.sprint(c, a[1], false)) },
		"fmt.Fprintln": func(m *M, c *frame, a []Value) Value {
			return m.fprint(c, a[0], strCat(m.sprint(c, a[1], true), sv("\n")))
		},
		"errors.As":         hookErrorsAs,
		"errors.Is":         hookErrorsIs,
		"sort.Slice":        hookSortSlice,
		"sort.SliceStable":  hookSortSlice,
		"reflect.DeepEqual": nil,
		"time.Now": func(m *M, _ *frame, a []Value) Value {
			return Value{P: &Agg{make([]Value, 3)}}
		},
		"time.Since": func(m *M, _ *frame, a []Value) Value { return Value{} },
		"time.Parse": func(m *M, c *frame, a []Value) Value {
			t, err := time.Parse(m.concStr(a[0]), m.concStr(a[1]))
			if err != nil {
				return tuple(Value{}, Value{}, Value{}, m.newErr(sv(err.Error())))
			}
			w := (*[2]uint64)(unsafe.Pointer(&t))
			return tuple(Value{N: w[0]}, Value{N: w[1]}, Value{}, Value{})
		},
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		var bw uint8 = 64
		if strings.HasSuffix(w, "32") {
			bw = 32
		}
		h["sync/atomic.Load"+w] = func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			return o.s[off]
		}
		h["sync/atomic.Store"+w] = func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			m.touch(o, off, 1)
			o.s[off] = a[1]
			return Value{}
		}
		h["sync/atomic.Swap"+w] = func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			old := o.s[off]
			m.touch(o, off, 1)
			o.s[off] = a[1]
			return old
		}
		h["sync/atomic.Add"+w] = func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			m.touch(o, off, 1)
			o.s[off] = ev(m.t.Bin(OAdd, m.ex(o.s[off], bw), m.ex(a[1], bw)))
			return o.s[off]
		}
		h["sync/atomic.CompareAndSwap"+w] = func(m *M, _ *frame, a []Value) Value {
			o, off := m.deref(a[0])
			if o.s[off] == a[1] {
				m.touch(o, off, 1)
				o.s[off] = a[2]
				return Value{N: 1}
			}
			return Value{}
		}
	}
	for k, v := range h {
		if v == nil {
			delete(h, k)
		}
	}
	addSymHooks(h)
	return h
}

func nop3(m *M, _ *frame, a []Value) Value { return tuple(Value{}, Value{}) }

func (m *M) cmp3(a, b Value) Value {
	if m.branchV(m.eqStr(a, b)) {
		return Value{}
	}
	if m.branchV(m.ltStr(a, b, false)) {
		return Value{N: ^uint64(0)}
	}
	return Value{N: 1}
}

func (m *M) fprint(c *frame, w Value, s Value) Value {
	n := Value{N: uint64(strLen(s))}
	if w.P == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := w.P.(*Iface)
	if i.t.name() == "*os.File" && i.v.P == nil {
		return tuple(n, Value{}) // os.Stdout / os.Stderr (package os is not initialised)
	}
	f := m.p.methodByName(i.t, "Write")
	return m.callFn(f, nil, []Value{i.v, m.mkSlice(strVals(s))}, c)
}

func (m *M) anyArgs(v Value) []Value { return m.bytesOf(v) }

func (m *M) sprint(c *frame, args Value, ln bool) Value {
	r := Value{}
	prevStr := true
	for i, a := range m.anyArgs(args) {
		isStr := a.P != nil && a.P.(*Iface).t.kind == KString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			r = strCat(r, sv(" "))
		}
		r = strCat(r, m.fmtArg(c, a, 'v', "", 0))
		prevStr = isStr
	}
	return r
}

func (m *M) sprintf(c *frame, format Value, args Value) Value {
	f := m.concStr(format)
	as := m.anyArgs(args)
	r := Value{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = strCat(r, sv(f[i:]))
			break
		}
		r = strCat(r, sv(f[i:i+j]))
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			r = strCat(r, sv("%!(NOVERB)"))
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			r = strCat(r, sv("%"))
			continue
		}
		if ai >= len(as) {
			r = strCat(r, sv("%!"+string(verb)+"(MISSING)"))
			continue
		}
		r = strCat(r, m.fmtArg(c, as[ai], verb, flags, 0))
		ai++
	}
	if ai < len(as) {
		r = strCat(r, sv("%!(EXTRA)"))
	}
	return r
}

func (m *M) fmtArg(c *frame, a Value, verb byte, flags string, depth int) Value {
	if a.P == nil {
		if verb == 'T' || verb == 'v' {
			return sv("<nil>")
		}
		return sv("%!" + string(verb) + "(<nil>)")
	}
	i := a.P.(*Iface)
	if verb == 'T' {
		return sv(i.t.name())
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if !strings.Contains(flags, "#") {
			if f := m.p.methodByName(i.t, "Error"); f != nil {
				if i.t.kind == KPtr && i.v.P == nil {
					return sv("<nil>")
				}
				return m.fmtVal(c, m.callFn(f, nil, []Value{i.v}, c), m.p.tString, verb, flags, depth)
			}
			if f := m.p.methodByName(i.t, "String"); f != nil && len(f.resT) == 1 && f.resT[0].kind == KString {
				if i.t.kind == KPtr && i.v.P == nil {
					return sv("<nil>")
				}
				return m.fmtVal(c, m.callFn(f, nil, []Value{i.v}, c), m.p.tString, verb, flags, depth)
			}
		}
	}
	return m.fmtVal(c, i.v, i.t, verb, flags, depth)
}

func (m *M) fmtVal(c *frame, v Value, t *Type, verb byte, flags string, depth int) Value {
	if depth > 6 {
		return sv("...")
	}
	switch t.kind {
	case KString:
		if verb == 'q' {
			return sv(strconv.Quote(m.concStr(v)))
		}
		if flags != "" && flags != "+" {
			return sv(fmt.Sprintf("%"+flags+string(verb), m.concStr(v)))
		}
		return v
	case KBool:
		if m.branchV(v) {
			return sv("true")
		}
		return sv("false")
	case KInt:
		if verb == 'c' {
			return m.runeStr(v, t.w, t.signed)
		}
		if v.P != nil && (verb == 'd' || verb == 'v') && flags == "" {
			return m.itoa(c, v, t)
		}
		if v.P != nil && (verb == 'U' || verb == 'q') && (flags == "" || flags == "#") {
			if r, ok := m.fmtRune(v, t, verb, flags); ok {
				return r
			}
		}
		n := m.concretize(v, t.w)
		if t.signed {
			return sv(fmt.Sprintf("%"+flags+string(verb), sext(n, t.w)))
		}
		return sv(fmt.Sprintf("%"+flags+string(verb), n))
	case KFloat:
		if t.w == 32 {
			return sv(fmt.Sprintf("%"+flags+string(verb), float32(m.toF(v))))
		}
		return sv(fmt.Sprintf("%"+flags+string(verb), m.toF(v)))
	case KIface:
		return m.fmtArg(c, v, verb, flags, depth+1)
	case KSlice:
		r := sv("[")
		if v.P != nil {
			s := v.P.(*Slice)
			if t.elem.w == 8 && verb == 's' {
				return mkStr(append([]Value(nil), m.bytesOf(v)...))
			}
			for k := 0; k < s.len; k++ {
				if k > 0 {
					r = strCat(r, sv(" "))
				}
				r = strCat(r, m.fmtArg(c, Value{P: &Iface{t.elem, m.loadAt(s.o, s.off+k*t.elem.size, t.elem)}}, verb, flags, depth+1))
			}
		}
		return strCat(r, sv("]"))
	case KPtr:
		if v.P == nil {
			return sv("<nil>")
		}
		return sv("0xc000012345")
	}
	return sv("{" + t.name() + "}")
}

// itoa formats a symbolic integer by interpreting strconv.
func (m *M) itoa(c *frame, v Value, t *Type) Value {
	f := m.p.pkgs["strconv"].Func("FormatInt")
	if !t.signed {
		f = m.p.pkgs["strconv"].Func("FormatUint")
	}
	e := m.resize(m.ex(v, t.w), 64, t.signed)
	return m.callFn(m.p.fn(f), nil, []Value{ev(e), {N: 10}}, c)
}

func (m *M) unwrap(c *frame, e Value) []Value {
	i := e.P.(*Iface)
	f := m.p.methodByName(i.t, "Unwrap")
	if f == nil || len(f.resT) != 1 {
		return nil
	}
	r := m.callFn(f, nil, []Value{i.v}, c)
	if f.resT[0].kind == KSlice {
		return m.bytesOf(r)
	}
	if r.P == nil {
		return nil
	}
	return []Value{r}
}

func hookErrorsAs(m *M, c *frame, a []Value) Value {
	if a[0].P == nil {
		return Value{}
	}
	if a[1].P == nil {
		m.doPanic(Value{P: &Iface{m.p.tString, sv("errors: target cannot be nil")}})
	}
	tg := a[1].P.(*Iface)
	if tg.t.kind != KPtr || tg.v.P == nil {
		m.doPanic(Value{P: &Iface{m.p.tString, sv("errors: target must be a non-nil pointer")}})
	}
	et := tg.t.elem
	var walk func(e Value) bool
	walk = func(e Value) bool {
		i := e.P.(*Iface)
		if et.kind == KIface {
			if m.p.implements(i.t, et.u.(*types.Interface)) {
				m.store(c, tg.v, e, et)
				return true
			}
		} else if i.t == et {
			m.store(c, tg.v, i.v, et)
			return true
		}
		for _, u := range m.unwrap(c, e) {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return Value{N: b2u(walk(a[0]))}
}

func hookErrorsIs(m *M, c *frame, a []Value) Value {
	if a[0].P == nil || a[1].P == nil {
		return Value{N: b2u(a[0].P == nil && a[1].P == nil)}
	}
	var walk func(e Value) bool
	walk = func(e Value) bool {
		x, y := e.P.(*Iface), a[1].P.(*Iface)
		if x.t == y.t && m.branchV(m.eqVal(x.v, y.v, x.t)) {
			return true
		}
		if f := m.p.methodByName(x.t, "Is"); f != nil {
			if m.branchV(m.callFn(f, nil, []Value{x.v, a[1]}, c)) {
				return true
			}
		}
		for _, u := range m.unwrap(c, e) {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return Value{N: b2u(walk(a[0]))}
}

// hookSortSlice: insertion sort, as the standard library does up to 12 elements.
func hookSortSlice(m *M, c *frame, a []Value) Value {
	if a[0].P == nil {
		return Value{}
	}
	i := a[0].P.(*Iface)
	if i.v.P == nil {
		return Value{}
	}
	s := i.v.P.(*Slice)
	es := i.t.elem.size
	less := a[1].P.(*Closure)
	for k := 1; k < s.len; k++ {
		for j := k; j > 0; j-- {
			if !m.branchV(m.callClosure(less, []Value{{N: uint64(j)}, {N: uint64(j - 1)}}, c)) {
				break
			}
			x, y := s.off+j*es, s.off+(j-1)*es
			m.touch(s.o, y, 2*es)
			for d := 0; d < es; d++ {
				s.o.s[x+d], s.o.s[y+d] = s.o.s[y+d], s.o.s[x+d]
			}
		}
	}
	return Value{}
}

// ---- native fast paths for pure functions on concrete arguments

func cstrs(args []Value) ([]string, bool) {
	r := make([]string, len(args))
	for i, a := range args {
		s, ok := isConcStr(a)
		if !ok {
			return nil, false
		}
		r[i] = s
	}
	return r, true
}

func fss(f func(a []string) Value) fastHook {
	return func(m *M, args []Value) (Value, bool) {
		s, ok := cstrs(args)
		if !ok {
			return Value{}, false
		}
		return f(s), true
	}
}

func iv(n int) Value  { return Value{N: uint64(n)} }
func bv(b bool) Value { return Value{N: b2u(b)} }

func (m *M) strSliceVal(ss []string) Value {
	o := m.alloc(len(ss))
	for i, s := range ss {
		o.s[i] = sv(s)
	}
	return Value{P: &Slice{o, 0, len(ss), len(ss)}}
}

var fastHooks map[string]fastHook

func mkFast() map[string]fastHook {
	return map[string]fastHook{
		"strings.Index":       fss(func(a []string) Value { return iv(strings.Index(a[0], a[1])) }),
		"strings.LastIndex":   fss(func(a []string) Value { return iv(strings.LastIndex(a[0], a[1])) }),
		"strings.Contains":    fss(func(a []string) Value { return bv(strings.Contains(a[0], a[1])) }),
		"strings.ReplaceAll":  fss(func(a []string) Value { return sv(strings.ReplaceAll(a[0], a[1], a[2])) }),
		"strings.ToUpper":     fss(func(a []string) Value { return sv(strings.ToUpper(a[0])) }),
		"strings.ToLower":     fss(func(a []string) Value { return sv(strings.ToLower(a[0])) }),
		"strings.TrimSpace":   fss(func(a []string) Value { return sv(strings.TrimSpace(a[0])) }),
		"strings.Trim":        fss(func(a []string) Value { return sv(strings.Trim(a[0], a[1])) }),
		"strings.TrimLeft":    fss(func(a []string) Value { return sv(strings.TrimLeft(a[0], a[1])) }),
		"strings.TrimRight":   fss(func(a []string) Value { return sv(strings.TrimRight(a[0], a[1])) }),
		"strings.EqualFold":   fss(func(a []string) Value { return bv(strings.EqualFold(a[0], a[1])) }),
		"strconv.Quote":       fss(func(a []string) Value { return sv(strconv.Quote(a[0])) }),
		"path/filepath.Clean": fss(func(a []string) Value { return sv(filepath.Clean(a[0])) }),
		"strings.Split": func(m *M, args []Value) (Value, bool) {
			s, ok := cstrs(args)
			if !ok {
				return Value{}, false
			}
			return m.strSliceVal(strings.Split(s[0], s[1])), true
		},
		"strconv.Itoa": func(m *M, args []Value) (Value, bool) {
			if args[0].P != nil {
				return Value{}, false
			}
			return sv(strconv.Itoa(int(args[0].N))), true
		},
		"strconv.FormatInt": func(m *M, args []Value) (Value, bool) {
			if args[0].P != nil || args[1].P != nil {
				return Value{}, false
			}
			return sv(strconv.FormatInt(int64(args[0].N), int(args[1].N))), true
		},
		"strconv.FormatUint": func(m *M, args []Value) (Value, bool) {
			if args[0].P != nil || args[1].P != nil {
				return Value{}, false
			}
			return sv(strconv.FormatUint(args[0].N, int(args[1].N))), true
		},
		"strconv.FormatFloat": func(m *M, args []Value) (Value, bool) {
			return sv(strconv.FormatFloat(m.toF(args[0]), byte(args[1].N), int(args[2].N), int(args[3].N))), true
		},
		"strconv.ParseFloat": func(m *M, args []Value) (Value, bool) {
			s := m.concStr(args[0])
			f, err := strconv.ParseFloat(s, int(m.concretize(args[1], 64)))
			e := Value{}
			if err != nil {
				e = m.newErr(sv(err.Error()))
			}
			return tuple(Value{N: math.Float64bits(f)}, e), true
		},
		"(*strings.Builder).WriteString": func(m *M, args []Value) (Value, bool) {
			return m.builderAppend(args[0], args[1])
		},
	}
}

// builderAppend is (*strings.Builder).WriteString without per-byte copying
// overhead of the interpreted append; same semantics.
func (m *M) builderAppend(b, s Value) (Value, bool) {
	o, ok := b.P.(*Obj)
	if !ok {
		return Value{}, false
	}
	t := m.p.tBuilder
	off := int(b.N) + t.foff[len(t.foff)-1]
	m.touch(o, off, 1)
	vals := strVals(s)
	o.s[off] = m.appendVals(o.s[off], vals, len(vals), 1, 1)
	return tuple(Value{N: uint64(len(vals))}, Value{}), true
}

func init() {
	fastHooks = mkFast()
	for k, v := range fastHooks {
		if v == nil {
			delete(fastHooks, k)
		}
	}
}

// fmtRune is %U, %#U and %q of a symbolic rune, without splitting the path by
// value.
func (m *M) fmtRune(v Value, t *Type, verb byte, flags string) (Value, bool) {
	e := m.resize(m.ex(v, t.w), 32, t.signed)
	tm := m.t
	if verb == 'q' {
		ok := tm.BAnd(tm.Cmp(OUle, tm.Const(0x20, 32), e), tm.Cmp(OUlt, e, tm.Const(0x7f, 32)))
		ok = tm.BAnd(ok, tm.BNot(tm.Cmp(OEq, e, tm.Const('\'', 32))))
		ok = tm.BAnd(ok, tm.BNot(tm.Cmp(OEq, e, tm.Const('\\', 32))))
		if flags != "" || !m.branch(ok) {
			return Value{}, false
		}
		return mkStr([]Value{{N: '\''}, ev(tm.Trunc(e, 8)), {N: '\''}}), true
	}
	top := 12
	if !m.branch(tm.Cmp(OUlt, e, tm.Const(0x10000, 32))) {
		top = 16
		if !m.branch(tm.Cmp(OUlt, e, tm.Const(0x100000, 32))) {
			if !m.branch(tm.Cmp(OUlt, e, tm.Const(0x1000000, 32))) {
				return Value{}, false
			}
			top = 20
		}
	}
	b := []Value{{N: 'U'}, {N: '+'}}
	for s := top; s >= 0; s -= 4 {
		d := tm.Trunc(tm.Bin(OAnd, tm.Bin(OLshr, e, tm.Const(uint64(s), 32)), tm.Const(15, 32)), 8)
		b = append(b, ev(tm.Ite(tm.Cmp(OUlt, d, tm.Const(10, 8)), tm.Bin(OAdd, d, tm.Const('0', 8)), tm.Bin(OAdd, d, tm.Const('A'-10, 8)))))
	}
	r := mkStr(b)
	if flags == "#" {
		tab := getTab("sIsPrint", func(r rune) uint64 { return b2u(strconv.IsPrint(r)) })
		if m.branch(m.runLookup(tab, e, 1)) {
			r = strCat(strCat(strCat(r, sv(" '")), m.runeStr(ev(e), 32, true)), sv("'"))
		}
	}
	return r, true
}
