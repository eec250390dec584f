package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one machine word of the interpreted program.
//
//	bool/int   P==nil: concrete N (masked to the width); P=*Expr: symbolic
//	float      N = IEEE bits
//	string     P=nil (""), string, or *SStr (symbolic bytes, concrete length)
//	pointer    P=nil, *Obj with slot offset N, or *SymPtr
//	slice      P=nil or *Slice;  map P=*MapObj;  func P=*Closure
//	interface  P=nil or *Iface;  struct/array/tuple P=*Agg (flattened slots)
type Value struct {
	N uint64
	P any
}

type Obj struct {
	s      []Value
	base   bool
	spec   int32
	native any
}
type Slice struct {
	o             *Obj
	off, len, cap int
}
type Agg struct{ v []Value }
type Iface struct {
	t *Type
	v Value
}
type Closure struct {
	fn   *Fn
	bind []Value
	bi   string // builtin
}
type SStr struct{ b []Value }
type SymPtr struct {
	o         *Obj
	base      int
	idx       *Expr // 64-bit index, known in range
	stride, n int
	fieldOff  int
}
type MapObj struct {
	keys, vals []Value
	live       []bool
	idx        map[any]int
	nlive      int
	nsym       int
	base       bool
	touched    bool
}
type mapIter struct {
	m     *MapObj
	order []int
	pos   int
	str   Value // string iteration
	isStr bool
	free  int // so many of the first entries are any of the rest
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KFunc
	KIface
	KStruct
	KArray
	KChan
	KTuple
	KOther
)

type Type struct {
	t       types.Type
	u       types.Type
	kind    Kind
	size    int // slots
	w       uint8
	signed  bool
	elem    *Type
	key     *Type
	fields  []*Type
	foff    []int
	n       int // array length
	str     string
	methods sync.Map // *types.Func -> *Fn
	impl    sync.Map // *types.Interface -> bool
	named   map[string]*Fn
}

func (t *Type) isAgg() bool { return t.kind == KStruct || t.kind == KArray || t.kind == KTuple }

type Prog struct {
	ssa     *ssa.Program
	mu      sync.Mutex
	tmap    typeutil.Map
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]int
	gtypes  []*Type
	gsyms   []*ssa.Global
	pkgs    map[string]*ssa.Package
	buildMu sync.Mutex
	compMu  sync.Mutex
	built   map[*ssa.Package]bool

	tString, tInt, tRune, tByte, tBool, tAny, tError, tByteSlice *Type
	tRuntimeErr, tWrapErr, syncPool, tBuilder                    *Type
	hooks                                                        map[string]intrinsic
	redirect                                                     map[string]string
	hitMu                                                        sync.Mutex
	curFunc                                                      string
}

func (p *Prog) typ(t types.Type) *Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.typL(t)
}

func (p *Prog) typL(t types.Type) *Type {
	if v := p.tmap.At(t); v != nil {
		return v.(*Type)
	}
	r := &Type{t: t, u: t.Underlying(), size: 1, str: types.TypeString(t, nil)}
	p.tmap.Set(t, r)
	switch u := r.u.(type) {
	case *types.Basic:
		switch info := u.Info(); {
		case info&types.IsBoolean != 0:
			r.kind, r.w = KBool, 1
		case info&types.IsInteger != 0:
			r.kind = KInt
			r.signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
		case info&types.IsFloat != 0:
			r.kind = KFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case info&types.IsComplex != 0:
			r.kind = KComplex
		case info&types.IsString != 0:
			r.kind = KString
		case u.Kind() == types.UnsafePointer:
			r.kind = KUnsafe
		default:
			r.kind = KOther
		}
	case *types.Pointer:
		r.kind = KPtr
		r.elem = p.typL(u.Elem())
	case *types.Slice:
		r.kind = KSlice
		r.elem = p.typL(u.Elem())
	case *types.Array:
		r.kind = KArray
		r.elem = p.typL(u.Elem())
		r.n = int(u.Len())
		r.size = r.n * r.elem.size
	case *types.Struct:
		r.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := p.typL(u.Field(i).Type())
			r.fields = append(r.fields, ft)
			r.foff = append(r.foff, off)
			off += ft.size
		}
		r.size = off
	case *types.Map:
		r.kind = KMap
		r.key = p.typL(u.Key())
		r.elem = p.typL(u.Elem())
	case *types.Signature:
		r.kind = KFunc
	case *types.Interface:
		r.kind = KIface
	case *types.Chan:
		r.kind = KChan
	case *types.Tuple:
		r.kind = KTuple
		off := 0
		for i := 0; i < u.Len(); i++ {
			ft := p.typL(u.At(i).Type())
			r.fields = append(r.fields, ft)
			r.foff = append(r.foff, off)
			off += ft.size
		}
		r.size = off
	default:
		r.kind = KOther
	}
	// a recursive pointer type may have been entered before its element's
	// size was known; sizes of pointers do not depend on it.
	return r
}

func (t *Type) name() string {
	return t.str
}

// ---- strings

func isConcStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strVals(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic("strVals")
}

func sv(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

// mkStr makes a string value; b must not be modified afterwards.
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].P != nil {
			return Value{P: &SStr{b}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].N)
	}
	return Value{P: string(bs)}
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return sv(s[lo:hi])
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strCat(a, b Value) Value {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			return Value{P: x + y}
		}
	}
	x, y := strVals(a), strVals(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Value{P: &SStr{r}}
}

// ---- map keys

type pkey struct {
	p any
	n uint64
}

func concKey(v Value, t *Type) (any, bool) {
	switch t.kind {
	case KBool, KInt, KFloat:
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	case KString:
		s, ok := isConcStr(v)
		return s, ok
	case KPtr, KUnsafe, KChan, KMap, KFunc:
		return pkey{v.P, v.N}, true
	case KIface:
		if v.P == nil {
			return pkey{}, true
		}
		i := v.P.(*Iface)
		k, ok := concKey(i.v, i.t)
		if !ok {
			return nil, false
		}
		return [2]any{i.t, k}, true
	case KStruct, KArray:
		vals := aggOf(v)
		if vals == nil {
			vals = make([]Value, t.size)
		}
		s := ""
		var flat func(t *Type, off int) bool
		flat = func(t *Type, off int) bool {
			switch t.kind {
			case KStruct:
				for i, f := range t.fields {
					if !flat(f, off+t.foff[i]) {
						return false
					}
				}
			case KArray:
				for i := 0; i < t.n; i++ {
					if !flat(t.elem, off+i*t.elem.size) {
						return false
					}
				}
			default:
				k, ok := concKey(vals[off], t)
				if !ok {
					return false
				}
				s += fmt.Sprintf("%T:%v|", k, k)
			}
			return true
		}
		if !flat(t, 0) {
			return nil, false
		}
		return s, true
	}
	panic("concKey " + t.name())
}
