package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type ifn func(m *M, fr *frame)

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tRet
	tPanic
	tNone
)

type move struct {
	dst  int32
	src  opnd
	w    uint8 // scalar width, 0 if not a scalar
	kind Kind
}

type edge struct {
	to    int
	moves []move
}

type Block struct {
	idx   int
	ins   []ifn
	n     int64
	term  termKind
	cond  opnd
	edges [2]edge
	ret   []opnd
	retT  []*Type
	pan   opnd
	pure  bool
	preds []int
	plan  *mergePlan
	pos   token.Pos
}

type mergePlan struct {
	blocks []int // topological, excluding the head
	exits  []int // at most 2; -1 = return
}

type Fn struct {
	p        *Prog
	ssa      *ssa.Function
	name     string
	nregs    int
	np       int
	blocks   []*Block
	hasDefer bool
	recov    int
	hook     intrinsic
	redir    *Fn
	state    atomic.Int32
	resT     []*Type
	inRepo   bool
	pureSz   int // >0: small function safe to execute speculatively
	pkgPath  string
	nopInit  bool
	clos     *Closure
	fast     fastHook
	busy     bool
	plain    bool // no hook, redirection or fast path
}

type fastHook func(m *M, args []Value) (Value, bool)

type opnd struct {
	r int32
	c Value
}

func (o *opnd) get(m *M, fr *frame) Value {
	switch {
	case o.r >= 0:
		return fr.regs[o.r]
	case o.r == -1:
		return o.c
	case o.r == -2:
		return Value{P: m.global(o.c.N)}
	}
	return fr.bind[o.c.N]
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnL(f)
}

func (p *Prog) fnL(f *ssa.Function) *Fn {
	if x, ok := p.fns[f]; ok {
		return x
	}
	x := &Fn{p: p, ssa: f, name: f.String()}
	p.fns[f] = x
	if f.Pkg != nil {
		x.pkgPath = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.pkgPath = o.Pkg.Pkg.Path()
	}
	x.inRepo = strings.HasPrefix(x.pkgPath, "hbuf/") && !strings.HasPrefix(x.pkgPath, harnessPrefix)
	x.clos = &Closure{fn: x}
	name := x.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if h, ok := fastHooks[name]; ok {
		x.fast = h
	}
	if h, ok := p.hooks[name]; ok {
		x.hook = h
	} else if r, ok := p.redirect[name]; ok {
		pk := p.pkgs[harnessPrefix+"rt"]
		if pk == nil || pk.Func(r) == nil {
			panic("no replacement " + r)
		}
		x.redir = p.fnL(pk.Func(r))
	}
	if f.Synthetic == "package initializer" && !initAllowed(x.pkgPath) {
		x.nopInit = true
	}
	x.plain = x.hook == nil && x.redir == nil && !x.nopInit && x.fast == nil && f.Synthetic != "package initializer"
	for i := 0; i < f.Signature.Results().Len(); i++ {
		x.resT = append(x.resT, p.typL(f.Signature.Results().At(i).Type()))
	}
	return x
}

// ensure compiles x on first use.
func (x *Fn) ensure() {
	if x.state.Load() == 1 {
		return
	}
	x.p.compMu.Lock()
	defer x.p.compMu.Unlock()
	x.ensureL()
}

func (x *Fn) ensureL() {
	if x.state.Load() == 1 || x.busy {
		return
	}
	if x.hook == nil && x.redir == nil && !x.nopInit {
		x.busy = true
		x.p.compile(x)
		x.busy = false
	}
	x.state.Store(1)
}

// quickPure is a cheap syntactic test before a callee is compiled to learn
// whether it can be executed speculatively.
func (x *Fn) quickPure() bool {
	f := x.ssa
	if f.Blocks == nil {
		x.p.buildPkg(f)
	}
	if f.Blocks == nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Send, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Range:
				return false
			}
		}
	}
	return n <= 300
}

func (p *Prog) buildPkg(f *ssa.Function) {
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	if f.Blocks != nil {
		return
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk != nil && !p.built[pk] {
		pk.Build()
		p.built[pk] = true
	}
}

type fcomp struct {
	p    *Prog
	x    *Fn
	f    *ssa.Function
	regs map[ssa.Value]int32
	fv   map[*ssa.FreeVar]int
}

func (c *fcomp) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (p *Prog) zero(t *Type) Value {
	if t.isAgg() {
		return Value{P: &Agg{make([]Value, t.size)}}
	}
	return Value{}
}

func (p *Prog) constVal(c *ssa.Const) Value {
	t := p.typ(c.Type())
	if c.Value == nil {
		return p.zero(t)
	}
	switch t.kind {
	case KBool:
		return Value{N: b2u(constant.BoolVal(c.Value))}
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(t.w)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return sv(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return sv(string(rune(i)))
	case KIface: // untyped nil handled above
	}
	return Value{}
}

func (c *fcomp) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.p.constVal(v)}
	case *ssa.Global:
		c.p.mu.Lock()
		defer c.p.mu.Unlock()
		return opnd{-2, Value{N: uint64(c.p.globalIdx(v))}}
	case *ssa.Function:
		return opnd{-1, Value{P: c.p.fn(v).clos}}
	case *ssa.Builtin:
		return opnd{-1, Value{P: &Closure{bi: v.Name()}}}
	case *ssa.FreeVar:
		return opnd{-3, Value{N: uint64(c.fv[v])}}
	}
	return opnd{r: c.reg(v)}
}

func (p *Prog) globalIdx(g *ssa.Global) int {
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.gsyms)
	p.globals[g] = i
	p.gsyms = append(p.gsyms, g)
	p.gtypes = append(p.gtypes, p.typL(g.Type().Underlying().(*types.Pointer).Elem()))
	return i
}

func (p *Prog) compile(x *Fn) {
	f := x.ssa
	if f.Blocks == nil {
		p.buildPkg(f)
	}
	if f.Blocks == nil {
		x.blocks = nil
		return
	}
	c := &fcomp{p: p, x: x, f: f, regs: map[ssa.Value]int32{}, fv: map[*ssa.FreeVar]int{}}
	for _, pa := range f.Params {
		c.reg(pa)
	}
	x.np = len(f.Params)
	for i, fv := range f.FreeVars {
		c.fv[fv] = i
	}
	x.recov = -1
	if f.Recover != nil {
		x.recov = f.Recover.Index
	}
	for _, b := range f.Blocks {
		nb := &Block{idx: b.Index, pure: true}
		for _, pr := range b.Preds {
			nb.preds = append(nb.preds, pr.Index)
		}
		x.blocks = append(x.blocks, nb)
	}
	for i, b := range f.Blocks {
		c.block(x.blocks[i], b)
	}
	x.nregs = len(c.regs)
	c.plans()
	size := 0
	for _, b := range x.blocks {
		size += int(b.n)
		if !b.pure {
			size = -1 << 20
		}
	}
	if size > 0 && size <= 400 && !x.hasDefer {
		x.pureSz = size
	}
}

func (c *fcomp) mkEdge(b *ssa.BasicBlock, si int) edge {
	to := b.Succs[si]
	// which predecessor slot of `to` is this edge?
	occ := 0
	for j := 0; j < si; j++ {
		if b.Succs[j] == to {
			occ++
		}
	}
	pi := -1
	for k, pr := range to.Preds {
		if pr == b {
			if occ == 0 {
				pi = k
				break
			}
			occ--
		}
	}
	e := edge{to: to.Index}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := c.p.typ(ph.Type())
		mv := move{dst: c.reg(ph), src: c.op(ph.Edges[pi]), kind: t.kind}
		if t.kind == KInt || t.kind == KBool {
			mv.w = t.w
		}
		e.moves = append(e.moves, mv)
	}
	return e
}

func (c *fcomp) block(nb *Block, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		nb.n++
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			nb.n--
			continue
		case *ssa.Jump:
			nb.term = tJump
			nb.edges[0] = c.mkEdge(b, 0)
			continue
		case *ssa.If:
			nb.term = tIf
			nb.cond = c.op(in.Cond)
			nb.edges[0] = c.mkEdge(b, 0)
			nb.edges[1] = c.mkEdge(b, 1)
			nb.pos = in.Cond.Pos()
			continue
		case *ssa.Return:
			nb.term = tRet
			for _, r := range in.Results {
				nb.ret = append(nb.ret, c.op(r))
				nb.retT = append(nb.retT, c.p.typ(r.Type()))
			}
			continue
		case *ssa.Panic:
			nb.term = tPanic
			nb.pan = c.op(in.X)
			nb.pure = false
			continue
		}
		f, pure := c.instr(in)
		if !pure {
			nb.pure = false
		}
		if f != nil {
			nb.ins = append(nb.ins, f)
		}
	}
}

// plans computes, for every two-way branch, a region of side-effect-free
// blocks that can be executed under guards instead of forking.
func (c *fcomp) plans() {
	x := c.x
	for _, b := range x.blocks {
		if b.term != tIf {
			continue
		}
		in := map[int]bool{b.idx: true}
		var order []int
		exits := func() []int {
			set := map[int]bool{}
			var r []int
			add := func(e int) {
				if !in[e] && !set[e] {
					set[e] = true
					r = append(r, e)
				}
			}
			walk := func(bl *Block) {
				switch bl.term {
				case tIf:
					add(bl.edges[0].to)
					add(bl.edges[1].to)
				case tJump:
					add(bl.edges[0].to)
				case tRet:
					if !set[-1] {
						set[-1] = true
						r = append(r, -1)
					}
				}
			}
			walk(b)
			for _, i := range order {
				walk(x.blocks[i])
			}
			return r
		}
		best := -1
		var bestExits []int
		for len(order) < 40 {
			ex := exits()
			if len(ex) <= 2 && len(order) > 0 {
				best = len(order)
				bestExits = ex
			}
			if len(ex) > 6 {
				break
			}
			grown := false
			for _, e := range ex {
				if e < 0 || e == 0 {
					continue
				}
				bl := x.blocks[e]
				if !bl.pure || bl.term == tPanic {
					continue
				}
				if bl.term == tRet && !c.scalarRet(bl) {
					continue
				}
				ok := true
				for _, pr := range bl.preds {
					if !in[pr] {
						ok = false
					}
				}
				// no cycle back to the head
				switch bl.term {
				case tIf:
					if bl.edges[0].to == b.idx || bl.edges[1].to == b.idx {
						ok = false
					}
				case tJump:
					if bl.edges[0].to == b.idx {
						ok = false
					}
				}
				if !ok {
					continue
				}
				in[e] = true
				order = append(order, e)
				grown = true
				break
			}
			if !grown {
				break
			}
		}
		if best > 0 {
			b.plan = &mergePlan{blocks: append([]int(nil), order[:best]...), exits: bestExits}
		}
	}
}

func (c *fcomp) scalarRet(b *Block) bool {
	for _, t := range b.retT {
		if t.kind != KInt && t.kind != KBool {
			return false
		}
	}
	return true
}

func (c *fcomp) instr(in ssa.Instruction) (ifn, bool) {
	p := c.p
	switch in := in.(type) {
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		return c.convertT(in, in.X, in.Type())
	case *ssa.ChangeType:
		d, x := c.reg(in), c.op(in.X)
		return func(m *M, fr *frame) { fr.regs[d] = x.get(m, fr) }, true
	case *ssa.ChangeInterface:
		d, x := c.reg(in), c.op(in.X)
		return func(m *M, fr *frame) { fr.regs[d] = x.get(m, fr) }, true
	case *ssa.MakeInterface:
		d, x, t := c.reg(in), c.op(in.X), p.typ(in.X.Type())
		if x.r == -1 {
			v := Value{P: &Iface{t, x.c}}
			return func(m *M, fr *frame) { fr.regs[d] = v }, true
		}
		return func(m *M, fr *frame) { fr.regs[d] = Value{P: &Iface{t, x.get(m, fr)}} }, true
	case *ssa.Alloc:
		d := c.reg(in)
		n := p.typ(in.Type().Underlying().(*types.Pointer).Elem()).size
		return func(m *M, fr *frame) { fr.regs[d] = Value{P: m.alloc(n)} }, true
	case *ssa.Store:
		a, v, t := c.op(in.Addr), c.op(in.Val), p.typ(in.Val.Type())
		return func(m *M, fr *frame) { m.store(fr, a.get(m, fr), v.get(m, fr), t) }, false
	case *ssa.FieldAddr:
		d, x := c.reg(in), c.op(in.X)
		st := p.typ(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := st.foff[in.Field]
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			switch o := v.P.(type) {
			case *Obj:
				fr.regs[d] = Value{N: v.N + uint64(off), P: o}
			case *SymPtr:
				n := *o
				n.fieldOff += off
				fr.regs[d] = Value{P: &n}
			case nil:
				m.rtPanic("invalid memory address or nil pointer dereference")
			default:
				m.unsup("FieldAddr %T", o)
			}
		}, true
	case *ssa.Field:
		d, x := c.reg(in), c.op(in.X)
		st := p.typ(in.X.Type())
		off, ft := st.foff[in.Field], st.fields[in.Field]
		return func(m *M, fr *frame) { fr.regs[d] = m.sub(aggOf(x.get(m, fr)), off, ft) }, true
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		return c.index(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.Extract:
		d, x := c.reg(in), c.op(in.Tuple)
		tt := p.typ(in.Tuple.Type())
		off, ft := tt.foff[in.Index], tt.fields[in.Index]
		return func(m *M, fr *frame) { fr.regs[d] = m.sub(aggOf(x.get(m, fr)), off, ft) }, true
	case *ssa.MakeSlice:
		d, l, cp := c.reg(in), c.op(in.Len), c.op(in.Cap)
		es := p.typ(in.Type()).elem.size
		return func(m *M, fr *frame) {
			n := sext(m.concretize(l.get(m, fr), 64), 64)
			k := sext(m.concretize(cp.get(m, fr), 64), 64)
			if n < 0 || n > 1<<28 {
				m.rtPanic("makeslice: len out of range")
			}
			if k < n || k > 1<<28 {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = Value{P: &Slice{m.alloc(int(k) * es), 0, int(n), int(k)}}
		}, false
	case *ssa.MakeMap:
		d := c.reg(in)
		return func(m *M, fr *frame) { fr.regs[d] = Value{P: m.newMap()} }, false
	case *ssa.MapUpdate:
		mp, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := p.typ(in.Map.Type()).key
		return func(m *M, fr *frame) {
			mv := mp.get(m, fr)
			mo, _ := mv.P.(*MapObj)
			m.mapUpdate(mo, k.get(m, fr), v.get(m, fr), kt)
		}, false
	case *ssa.MakeClosure:
		d := c.reg(in)
		fn := p.fn(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(m *M, fr *frame) {
			bind := make([]Value, len(bs))
			for i := range bs {
				bind[i] = bs[i].get(m, fr)
			}
			fr.regs[d] = Value{P: &Closure{fn: fn, bind: bind}}
		}, false
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Range:
		d, x := c.reg(in), c.op(in.X)
		isStr := p.typ(in.X.Type()).kind == KString
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			if isStr {
				fr.regs[d] = Value{P: &mapIter{isStr: true, str: v}}
				return
			}
			it := &mapIter{}
			if mo, ok := v.P.(*MapObj); ok {
				it.m = mo
				for i := range mo.keys {
					if mo.live[i] {
						it.order = append(it.order, i)
					}
				}
			}
			fr.regs[d] = Value{P: it}
		}, false
	case *ssa.Next:
		return c.next(in)
	case *ssa.Call:
		return c.call(in)
	case *ssa.Defer:
		c.x.hasDefer = true
		f := c.prepCall(&in.Call)
		return func(m *M, fr *frame) {
			cl, args := f(m, fr)
			fr.defers = append(fr.defers, deferred{cl, args})
		}, false
	case *ssa.RunDefers:
		return func(m *M, fr *frame) { m.runDefers(fr, false) }, false
	case *ssa.Go:
		return func(m *M, fr *frame) { m.unsup("go statement") }, false
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		s := fmt.Sprintf("%T", in)
		return func(m *M, fr *frame) { m.unsup("%s", s) }, false
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(in), c.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		es := p.typ(in.X.Type()).elem.size
		_ = es
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			if v.P == nil {
				if n > 0 {
					m.rtPanic("cannot convert slice with length 0 to array pointer")
				}
				fr.regs[d] = Value{}
				return
			}
			s := v.P.(*Slice)
			if s.len < n {
				m.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
			}
			fr.regs[d] = Value{P: s.o, N: uint64(s.off)}
		}, false
	}
	s := fmt.Sprintf("%T", in)
	return func(m *M, fr *frame) { m.unsup("instruction %s", s) }, false
}

// idx checks 0 <= i < n and returns a concrete index, or a symbolic one.
func (m *M) idx(i Value, it *Type, n int) (int, *Expr) {
	if i.P == nil {
		k := int64(i.N)
		if it.signed {
			k = sext(i.N, it.w)
		}
		if k < 0 || k >= int64(n) || (!it.signed && i.N >= uint64(n)) {
			m.rtPanic("index out of range [%d] with length %d", k, n)
		}
		return int(k), nil
	}
	e := m.ex(i, it.w)
	if it.w < 64 {
		if it.signed {
			e = m.t.Sext(e, 64)
		} else {
			e = m.t.Zext(e, 64)
		}
	}
	if e.isC() {
		return m.idx(Value{N: e.k}, m.p.tInt, n)
	}
	if !m.branch(m.t.Cmp(OUlt, e, m.t.Const(uint64(n), 64))) {
		m.rtPanic("index out of range [symbolic] with length %d", n)
	}
	return 0, e
}

func (c *fcomp) indexAddr(in *ssa.IndexAddr) (ifn, bool) {
	p := c.p
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	it := p.typ(in.Index.Type())
	xt := p.typ(in.X.Type())
	if xt.kind == KSlice {
		es := xt.elem.size
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			var s *Slice
			n := 0
			if v.P != nil {
				s = v.P.(*Slice)
				n = s.len
			}
			i, e := m.idx(ix.get(m, fr), it, n)
			if e == nil {
				fr.regs[d] = Value{P: s.o, N: uint64(s.off + i*es)}
				return
			}
			fr.regs[d] = Value{P: &SymPtr{o: s.o, base: s.off, idx: e, stride: es, n: n}}
		}, true
	}
	// pointer to array
	at := xt.elem
	es, n := at.elem.size, at.n
	return func(m *M, fr *frame) {
		v := x.get(m, fr)
		if sp, ok := v.P.(*SymPtr); ok {
			o, off := m.resolveSym(sp)
			v = Value{P: o, N: uint64(off)}
		}
		if v.P == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		i, e := m.idx(ix.get(m, fr), it, n)
		if e == nil {
			fr.regs[d] = Value{P: v.P, N: v.N + uint64(i*es)}
			return
		}
		fr.regs[d] = Value{P: &SymPtr{o: v.P.(*Obj), base: int(v.N), idx: e, stride: es, n: n}}
	}, true
}

func (m *M) strIndex(s Value, i Value, it *Type) Value {
	n := strLen(s)
	k, e := m.idx(i, it, n)
	if e == nil {
		return strAt(s, k)
	}
	return m.tableRead(func(j int) Value { return strAt(s, j) }, n, e, 8)
}

func (c *fcomp) index(in *ssa.Index) (ifn, bool) {
	p := c.p
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	it := p.typ(in.Index.Type())
	xt := p.typ(in.X.Type())
	if xt.kind == KString {
		return func(m *M, fr *frame) {
			fr.regs[d] = m.strIndex(x.get(m, fr), ix.get(m, fr), it)
		}, true
	}
	et := xt.elem
	return func(m *M, fr *frame) {
		vals := aggOf(x.get(m, fr))
		i, e := m.idx(ix.get(m, fr), it, xt.n)
		if e != nil {
			sp := &SymPtr{o: &Obj{s: vals}, idx: e, stride: et.size, n: xt.n}
			if v, ok := m.symLoad(sp, et); ok {
				fr.regs[d] = v
				return
			}
			i = int(m.concretize(Value{P: e}, 64))
		}
		fr.regs[d] = m.sub(vals, i*et.size, et)
	}, true
}

func (c *fcomp) lookup(in *ssa.Lookup) (ifn, bool) {
	p := c.p
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	xt := p.typ(in.X.Type())
	it := p.typ(in.Index.Type())
	if xt.kind == KString {
		return func(m *M, fr *frame) {
			fr.regs[d] = m.strIndex(x.get(m, fr), ix.get(m, fr), it)
		}, true
	}
	kt, et := xt.key, xt.elem
	return func(m *M, fr *frame) {
		v := x.get(m, fr)
		mo, _ := v.P.(*MapObj)
		val, ok := m.mapLookup(mo, ix.get(m, fr), kt, et)
		if val.P == nil && et.isAgg() {
			val = m.p.zero(et)
		}
		if in.CommaOk {
			fr.regs[d] = Value{P: &Agg{append(flat(make([]Value, 0, et.size+1), val, et), ok)}}
			return
		}
		fr.regs[d] = val
	}, true
}

func (c *fcomp) slice(in *ssa.Slice) (ifn, bool) {
	p := c.p
	d, x := c.reg(in), c.op(in.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = get(in.Low), get(in.High), get(in.Max)
	ity := func(v ssa.Value) *Type {
		if v == nil {
			return nil
		}
		return p.typ(v.Type())
	}
	lt, ht, mt := ity(in.Low), ity(in.High), ity(in.Max)
	xt := p.typ(in.X.Type())
	num := func(m *M, fr *frame, o *opnd, t *Type, def int) int {
		if o == nil {
			return def
		}
		v := m.concretize(o.get(m, fr), t.w)
		if t.signed {
			k := sext(v, t.w)
			if k > math.MaxInt32 {
				k = math.MaxInt32
			}
			return int(k)
		}
		if v > math.MaxInt32 {
			return math.MaxInt32
		}
		return int(v)
	}
	if xt.kind == KString {
		return func(m *M, fr *frame) {
			s := x.get(m, fr)
			n := strLen(s)
			h := num(m, fr, hi, ht, n)
			l := num(m, fr, lo, lt, 0)
			if h < 0 || h > n {
				m.rtPanic("slice bounds out of range [:%d] with length %d", h, n)
			}
			if l < 0 || l > h {
				m.rtPanic("slice bounds out of range [%d:%d]", l, h)
			}
			fr.regs[d] = strSlice(s, l, h)
		}, true
	}
	es := 0
	arr := xt.kind == KPtr
	an := 0
	if arr {
		es, an = xt.elem.elem.size, xt.elem.n
	} else {
		es = xt.elem.size
	}
	return func(m *M, fr *frame) {
		v := x.get(m, fr)
		var o *Obj
		base, ln, cp := 0, 0, 0
		if arr {
			if v.P == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			ob, ok := v.P.(*Obj)
			if !ok {
				m.unsup("slice of %T", v.P)
			}
			o, base, ln, cp = ob, int(v.N), an, an
		} else if v.P != nil {
			s := v.P.(*Slice)
			o, base, ln, cp = s.o, s.off, s.len, s.cap
		}
		k := num(m, fr, mx, mt, cp)
		h := num(m, fr, hi, ht, ln)
		l := num(m, fr, lo, lt, 0)
		if k < 0 || k > cp {
			m.rtPanic("slice bounds out of range [::%d] with capacity %d", k, cp)
		}
		if h < 0 || h > k {
			m.rtPanic("slice bounds out of range [:%d] with capacity %d", h, k)
		}
		if l < 0 || l > h {
			m.rtPanic("slice bounds out of range [%d:%d]", l, h)
		}
		if o == nil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{P: &Slice{o, base + l*es, h - l, k - l}}
	}, true
}

func (c *fcomp) typeAssert(in *ssa.TypeAssert) (ifn, bool) {
	p := c.p
	d, x := c.reg(in), c.op(in.X)
	at := p.typ(in.AssertedType)
	commaOk := in.CommaOk
	var iface *types.Interface
	if at.kind == KIface {
		iface = at.u.(*types.Interface)
	}
	return func(m *M, fr *frame) {
		v := x.get(m, fr)
		ok := false
		var r Value
		if v.P != nil {
			i := v.P.(*Iface)
			if iface != nil {
				if m.p.implements(i.t, iface) {
					ok, r = true, v
				}
			} else if i.t == at {
				ok, r = true, i.v
			}
		}
		if !ok && at.isAgg() {
			r = m.p.zero(at)
		}
		if commaOk {
			fr.regs[d] = Value{P: &Agg{append(flat(make([]Value, 0, at.size+1), r, at), Value{N: b2u(ok)})}}
			return
		}
		if !ok {
			dyn := "nil"
			if v.P != nil {
				dyn = v.P.(*Iface).t.name()
			}
			m.rtPanicT("interface conversion: interface is " + dyn + ", not " + at.name())
		}
		fr.regs[d] = r
	}, true
}

func (m *M) rtPanicT(msg string) {
	m.doPanic(Value{P: &Iface{m.p.tRuntimeErr, sv(msg)}})
}

func (p *Prog) implements(t *Type, i *types.Interface) bool {
	if v, ok := t.impl.Load(i); ok {
		return v.(bool)
	}
	p.mu.Lock()
	r := types.Implements(t.t, i)
	p.mu.Unlock()
	t.impl.Store(i, r)
	return r
}

func (p *Prog) method(t *Type, f *types.Func) *Fn {
	if v, ok := t.methods.Load(f); ok {
		return v.(*Fn)
	}
	p.buildMu.Lock()
	sf := p.ssa.LookupMethod(t.t, f.Pkg(), f.Name())
	p.buildMu.Unlock()
	if sf == nil {
		return nil
	}
	x := p.fn(sf)
	t.methods.Store(f, x)
	return x
}

func (p *Prog) methodByName(t *Type, name string) *Fn {
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	ms := types.NewMethodSet(t.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sf := p.ssa.MethodValue(sel)
	if sf == nil {
		return nil
	}
	return p.fn(sf)
}

func (c *fcomp) next(in *ssa.Next) (ifn, bool) {
	p := c.p
	d, x := c.reg(in), c.op(in.Iter)
	tt := p.typ(in.Type())
	if in.IsString {
		return func(m *M, fr *frame) {
			it := x.get(m, fr).P.(*mapIter)
			n := strLen(it.str)
			if it.pos >= n {
				fr.regs[d] = Value{P: &Agg{[]Value{{}, {}, {}}}}
				return
			}
			r, sz := m.decodeRune(it.str, it.pos)
			fr.regs[d] = Value{P: &Agg{[]Value{{N: 1}, {N: uint64(it.pos)}, r}}}
			it.pos += sz
		}, false
	}
	kt, vt := tt.fields[1], tt.fields[2]
	rg, _ := in.Iter.(*ssa.Range)
	var mt *Type
	if rg != nil {
		mt = p.typ(rg.X.Type())
	}
	return func(m *M, fr *frame) {
		it := x.get(m, fr).P.(*mapIter)
		for it.m != nil && it.pos < len(it.order) {
			if it.pos == 0 && len(it.order) > 1 && m.mapLeft > 0 {
				// a loop over a table: is this one of those in any order?
				if m.choose(2) == 1 {
					m.mapLeft--
					// a long table has any two entries first, the others as inserted
					if it.free = len(it.order); it.free > 4 {
						it.free = 2
					}
				}
			}
			if m.mapOrder || it.pos < it.free {
				// any of the remaining entries may come next
				j := it.pos + m.choose(len(it.order)-it.pos)
				it.order[it.pos], it.order[j] = it.order[j], it.order[it.pos]
			}
			i := it.order[it.pos]
			it.pos++
			if !it.m.live[i] {
				continue
			}
			r := make([]Value, 0, 1+kt.size+vt.size)
			r = append(r, Value{N: 1})
			if mt != nil && kt.kind != KOther {
				r = flat(r, it.m.keys[i], kt)
			} else {
				r = append(r, Value{})
			}
			if mt != nil && vt.kind != KOther {
				r = flat(r, it.m.vals[i], vt)
			} else {
				r = append(r, Value{})
			}
			fr.regs[d] = Value{P: &Agg{r}}
			return
		}
		fr.regs[d] = Value{P: &Agg{make([]Value, tt.size)}}
	}, false
}
