package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneNative(b []byte) (rune, int) { return utf8.DecodeRune(b) }

type intrinsic func(m *M, caller *frame, args []Value) Value

func tuple(vs ...Value) Value { return Value{P: &Agg{vs}} }

// prepCall returns a function that evaluates callee and arguments.
func (c *fcomp) prepCall(cc *ssa.CallCommon) func(m *M, fr *frame) (*Closure, []Value) {
	p := c.p
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		meth := cc.Method
		return func(m *M, fr *frame) (*Closure, []Value) {
			v := x.get(m, fr)
			if v.P == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := v.P.(*Iface)
			fn := p.method(i.t, meth)
			if fn == nil {
				m.unsup("method %s of %s", meth.Name(), i.t.name())
			}
			as := make([]Value, len(args)+1)
			as[0] = i.v
			for j := range args {
				as[j+1] = args[j].get(m, fr)
			}
			return fn.clos, as
		}
	}
	x := c.op(cc.Value)
	return func(m *M, fr *frame) (*Closure, []Value) {
		v := x.get(m, fr)
		if v.P == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		as := make([]Value, len(args))
		for j := range args {
			as[j] = args[j].get(m, fr)
		}
		return v.P.(*Closure), as
	}
}

func (c *fcomp) call(in *ssa.Call) (ifn, bool) {
	p := c.p
	d := c.reg(in)
	cc := &in.Call
	pos := int32(in.Pos())
	_ = pos
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(in, b)
	}
	if !cc.IsInvoke() {
		if sf := cc.StaticCallee(); sf != nil {
			if _, isClos := cc.Value.(*ssa.MakeClosure); !isClos {
				fn := p.fn(sf)
				var args []opnd
				for _, a := range cc.Args {
					args = append(args, c.op(a))
				}
				pure := false
				if fn.plain && sf != c.f {
					if fn.quickPure() {
						fn.ensureL()
						pure = fn.pureSz > 0
					}
				} else if fn.hook != nil && pureHooks[fn.name] {
					pure = true
				}
				return func(m *M, fr *frame) {
					fn.ensure()
					if fn.plain {
						nf := m.push(fn, fr)
						for j := range args {
							nf.regs[j] = args[j].get(m, fr)
						}
						fr.regs[d] = m.run(nf)
						m.pop(nf)
						return
					}
					var buf [6]Value
					as := buf[:0]
					for j := range args {
						as = append(as, args[j].get(m, fr))
					}
					fr.regs[d] = m.callFn(fn, nil, as, fr)
				}, pure
			}
		}
	}
	f := c.prepCall(cc)
	return func(m *M, fr *frame) {
		cl, as := f(m, fr)
		fr.regs[d] = m.callClosure(cl, as, fr)
	}, false
}

func (m *M) push(fn *Fn, caller *frame) *frame {
	m.depth++
	if m.depth > m.maxDepth {
		if m.spec > 0 {
			panic(specAbort{})
		}
		panic(pathEnd{"depth", "call depth " + fmt.Sprint(m.maxDepth) + " exceeded"})
	}
	n := fn.nregs
	if m.sp+n > len(m.stk) {
		sz := 1 << 16
		if n > sz {
			sz = n
		}
		// start a new segment; the old one stays referenced by its frames
		m.stk = make([]Value, sz)
		m.sp = 0
	}
	nf := &frame{fn: fn, regs: m.stk[m.sp : m.sp+n : m.sp+n], caller: caller}
	m.sp += n
	m.top = nf
	if fn.inRepo && !m.fnHit[fn] {
		m.fnHit[fn] = true
	}
	return nf
}

func (m *M) pop(nf *frame) {
	m.depth--
	m.top = nf.caller
	if m.sp >= len(nf.regs) {
		m.sp -= len(nf.regs)
	}
}

func (m *M) callClosure(cl *Closure, args []Value, caller *frame) Value {
	if cl.bi != "" {
		m.unsup("builtin value %s", cl.bi)
	}
	return m.callFn(cl.fn, cl.bind, args, caller)
}

func (m *M) callFn(fn *Fn, bind, args []Value, caller *frame) Value {
	fn.ensure()
	if fn.nopInit {
		return Value{}
	}
	if fn.redir != nil {
		if fn.fast != nil {
			if v, ok := fn.fast(m, args); ok {
				return v
			}
		}
		fn = fn.redir
		fn.ensure()
	}
	if fn.hook != nil {
		return fn.hook(m, caller, args)
	}
	if fn.fast != nil {
		if v, ok := fn.fast(m, args); ok {
			return v
		}
	}
	if fn.ssa.Synthetic == "package initializer" {
		if m.inited[fn.pkgPath] {
			return Value{}
		}
		m.inited[fn.pkgPath] = true
	}
	if fn.blocks == nil {
		m.unsup("no body for %s", fn.name)
	}
	nf := m.push(fn, caller)
	copy(nf.regs, args)
	nf.bind = bind
	r := m.run(nf)
	m.pop(nf)
	return r
}

func (m *M) run(fr *frame) Value {
	if fr.fn.blocks == nil {
		m.unsup("no body for %s", fr.fn.name)
	}
	if fr.fn.hasDefer {
		return m.runWithDefers(fr)
	}
	return m.loop(fr, 0)
}

func (m *M) runWithDefers(fr *frame) (res Value) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	sp, depth, stk := m.sp, m.depth, m.stk
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			m.sp, m.depth, m.stk, m.top = sp, depth, stk, fr
			fr.pan = tp
		}()
		res = m.loop(fr, 0)
	}()
	if fr.pan == nil {
		return res
	}
	m.runDefers(fr, true)
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.fn.recov >= 0 {
		return m.loop(fr, fr.fn.recov)
	}
	return m.zeroResults(fr.fn)
}

func (m *M) zeroResults(fn *Fn) Value {
	switch len(fn.resT) {
	case 0:
		return Value{}
	case 1:
		return m.p.zero(fn.resT[0])
	}
	n := 0
	for _, t := range fn.resT {
		n += t.size
	}
	return Value{P: &Agg{make([]Value, n)}}
}

func (m *M) runDefers(fr *frame, panicking bool) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if !panicking {
			m.callDeferred(d, fr)
			continue
		}
		sp, depth, stk := m.sp, m.depth, m.stk
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				m.sp, m.depth, m.stk, m.top = sp, depth, stk, fr
				fr.pan = tp
			}()
			m.callDeferred(d, fr)
		}()
	}
}

func (m *M) callDeferred(d deferred, fr *frame) {
	if d.fn.bi != "" {
		if d.fn.bi == "close" || d.fn.bi == "print" || d.fn.bi == "println" {
			return
		}
		if d.fn.bi == "recover" {
			fr.pan = nil
			return
		}
		m.unsup("deferred builtin %s", d.fn.bi)
	}
	m.callClosure(d.fn, d.args, fr)
}

func (m *M) loop(fr *frame, start int) Value {
	blocks := fr.fn.blocks
	b := blocks[start]
	for {
		m.steps += b.n
		if m.steps > m.limit {
			if m.spec > 0 {
				panic(specAbort{})
			}
			panic(pathEnd{"hang", fmt.Sprintf("step limit %d", m.limit)})
		}
		for _, f := range b.ins {
			f(m, fr)
		}
		var e *edge
		switch b.term {
		case tJump:
			e = &b.edges[0]
		case tIf:
			c := b.cond.get(m, fr)
			if c.P == nil {
				if c.N != 0 {
					e = &b.edges[0]
				} else {
					e = &b.edges[1]
				}
				break
			}
			ce := c.P.(*Expr)
			if s := m.simp(ce); s.isC() {
				m.domQ++
				m.refute(ce, s.k != 0)
				if s.k != 0 {
					e = &b.edges[0]
				} else {
					e = &b.edges[1]
				}
				break
			} else {
				ce = s
			}
			if b.plan != nil {
				nb, ret, st := m.tryMerge(fr, b, ce)
				if st == 1 {
					b = nb
					continue
				}
				if st == 2 {
					return ret
				}
			}
			if m.branch(ce) {
				e = &b.edges[0]
			} else {
				e = &b.edges[1]
			}
		case tRet:
			return m.retVal(fr, b)
		case tPanic:
			m.doPanic(b.pan.get(m, fr))
		}
		if n := len(e.moves); n == 1 {
			fr.regs[e.moves[0].dst] = e.moves[0].src.get(m, fr)
		} else if n > 1 {
			var buf [8]Value
			tmp := buf[:0]
			for i := range e.moves {
				tmp = append(tmp, e.moves[i].src.get(m, fr))
			}
			for i := range e.moves {
				fr.regs[e.moves[i].dst] = tmp[i]
			}
		}
		b = blocks[e.to]
	}
}

func (m *M) retVal(fr *frame, b *Block) Value {
	switch len(b.ret) {
	case 0:
		return Value{}
	case 1:
		return b.ret[0].get(m, fr)
	}
	r := make([]Value, 0, len(b.ret))
	for i := range b.ret {
		r = flat(r, b.ret[i].get(m, fr), b.retT[i])
	}
	return Value{P: &Agg{r}}
}

type inEdge struct {
	g *Expr
	e *edge
}

// mergeIn computes the phi values of an exit reached over several guarded
// edges; ok is false when a value cannot be merged.
func (m *M) mergeIn(fr *frame, ins []inEdge) ([]Value, bool) {
	if len(ins) == 0 {
		return nil, true
	}
	n := len(ins[0].e.moves)
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		mv := &ins[0].e.moves[i]
		acc := ins[0].e.moves[i].src.get(m, fr)
		for _, x := range ins[1:] {
			v := x.e.moves[i].src.get(m, fr)
			if v == acc {
				continue
			}
			if mv.w == 0 {
				return nil, false
			}
			if mv.kind == KInt && mv.w == 64 && m.spec == 0 {
				return nil, false // lengths and offsets: keep them concrete
			}
			if !scalarV(acc) || !scalarV(v) {
				return nil, false
			}
			acc = ev(m.t.Ite(x.g, m.ex(v, mv.w), m.ex(acc, mv.w)))
		}
		out[i] = acc
	}
	return out, true
}

func scalarV(v Value) bool {
	if v.P == nil {
		return true
	}
	_, ok := v.P.(*Expr)
	return ok
}

// tryMerge executes the planned region under guards.
// status: 0 not merged, 1 continue at block, 2 return value.
func (m *M) tryMerge(fr *frame, b *Block, cond *Expr) (nb *Block, ret Value, status int) {
	pl := b.plan
	blocks := fr.fn.blocks
	var in map[int][]inEdge = make(map[int][]inEdge, len(pl.blocks)+2)
	t := m.t
	addEdge := func(g *Expr, e *edge) {
		if !g.isFalse() {
			in[e.to] = append(in[e.to], inEdge{g, e})
		}
	}
	type retIn struct {
		g *Expr
		b *Block
	}
	var rets []retIn
	retVals := map[*Block][]Value{}
	orAll := func(ins []inEdge) *Expr {
		g := t.False
		for _, x := range ins {
			g = t.BOr(g, x.g)
		}
		return g
	}
	sp, depth, stk, top := m.sp, m.depth, m.stk, m.top
	ok := false
	m.spec++
	if m.spec == 1 {
		m.specGen++
	}
	func() {
		defer func() {
			m.spec--
			if r := recover(); r != nil {
				if _, is := r.(specAbort); !is {
					panic(r)
				}
				m.sp, m.depth, m.stk, m.top = sp, depth, stk, top
			}
		}()
		addEdge(cond, &b.edges[0])
		addEdge(t.BNot(cond), &b.edges[1])
		for _, bi := range pl.blocks {
			ins := in[bi]
			if len(ins) == 0 {
				continue
			}
			r := blocks[bi]
			vals, mok := m.mergeInSpec(fr, ins)
			if !mok {
				return
			}
			for i := range vals {
				fr.regs[ins[0].e.moves[i].dst] = vals[i]
			}
			g := orAll(ins)
			m.steps += r.n
			for _, f := range r.ins {
				f(m, fr)
			}
			switch r.term {
			case tJump:
				addEdge(g, &r.edges[0])
			case tIf:
				c := r.cond.get(m, fr)
				ce := m.simp(m.ex(c, 1))
				addEdge(t.BAnd(g, ce), &r.edges[0])
				addEdge(t.BAnd(g, t.BNot(ce)), &r.edges[1])
			case tRet:
				var vs []Value
				for i := range r.ret {
					vs = append(vs, r.ret[i].get(m, fr))
				}
				retVals[r] = vs
				rets = append(rets, retIn{g, r})
			}
		}
		ok = true
	}()
	if !ok {
		return nil, Value{}, 0
	}
	// merged return value
	var retV Value
	gRet := t.False
	if len(rets) > 0 {
		n := len(retVals[rets[0].b])
		acc := append([]Value(nil), retVals[rets[0].b]...)
		gRet = rets[0].g
		for _, x := range rets[1:] {
			gRet = t.BOr(gRet, x.g)
			for i := 0; i < n; i++ {
				v := retVals[x.b][i]
				if v == acc[i] {
					continue
				}
				w := x.b.retT[i].w
				if !scalarV(v) || !scalarV(acc[i]) {
					return nil, Value{}, 0
				}
				acc[i] = ev(t.Ite(x.g, m.ex(v, w), m.ex(acc[i], w)))
			}
		}
		switch n {
		case 0:
		case 1:
			retV = acc[0]
		default:
			retV = Value{P: &Agg{acc}}
		}
	}
	type exit struct {
		idx  int
		g    *Expr
		vals []Value
		ins  []inEdge
	}
	var ex []exit
	for _, x := range pl.exits {
		if x == -1 {
			if len(rets) > 0 {
				ex = append(ex, exit{idx: -1, g: gRet})
			}
			continue
		}
		ins := in[x]
		if len(ins) == 0 {
			continue
		}
		vals, mok := m.mergeIn(fr, ins)
		if !mok {
			return nil, Value{}, 0
		}
		ex = append(ex, exit{x, orAll(ins), vals, ins})
	}
	var take *exit
	switch len(ex) {
	case 1:
		take = &ex[0]
	case 2:
		if m.spec > 0 && !ex[0].g.isC() {
			return nil, Value{}, 0
		}
		m.merged++
		if m.branch(ex[0].g) {
			take = &ex[0]
		} else {
			take = &ex[1]
		}
	default:
		return nil, Value{}, 0
	}
	if len(ex) == 1 {
		m.merged++
	}
	if take.idx == -1 {
		return nil, retV, 2
	}
	for i := range take.vals {
		fr.regs[take.ins[0].e.moves[i].dst] = take.vals[i]
	}
	return blocks[take.idx], Value{}, 1
}

func (m *M) mergeInSpec(fr *frame, ins []inEdge) ([]Value, bool) { return m.mergeIn(fr, ins) }

// ---- builtins

func (c *fcomp) builtin(in *ssa.Call, b *ssa.Builtin) (ifn, bool) {
	p := c.p
	d := c.reg(in)
	var args []opnd
	var ts []*Type
	for _, a := range in.Call.Args {
		args = append(args, c.op(a))
		ts = append(ts, p.typ(a.Type()))
	}
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		x, t := args[0], ts[0]
		switch t.kind {
		case KString:
			return func(m *M, fr *frame) { fr.regs[d] = Value{N: uint64(strLen(x.get(m, fr)))} }, true
		case KSlice:
			return func(m *M, fr *frame) {
				v := x.get(m, fr)
				n := 0
				if v.P != nil {
					s := v.P.(*Slice)
					n = s.len
					if isCap {
						n = s.cap
					}
				}
				fr.regs[d] = Value{N: uint64(n)}
			}, true
		case KMap:
			return func(m *M, fr *frame) {
				v := x.get(m, fr)
				n := 0
				if mo, ok := v.P.(*MapObj); ok {
					n = mo.nlive
				}
				fr.regs[d] = Value{N: uint64(n)}
			}, true
		case KArray:
			return func(m *M, fr *frame) { fr.regs[d] = Value{N: uint64(t.n)} }, true
		case KPtr:
			n := t.elem.n
			return func(m *M, fr *frame) { fr.regs[d] = Value{N: uint64(n)} }, true
		}
	case "append":
		st := ts[0]
		if len(args) == 1 {
			return func(m *M, fr *frame) { fr.regs[d] = args[0].get(m, fr) }, false
		}
		isStr := ts[1].kind == KString
		es := st.elem.size
		esz := 8
		if st.elem.w != 0 {
			esz = int(st.elem.w+7) / 8
		} else if st.elem.kind == KString || st.elem.kind == KIface {
			esz = 16
		} else {
			func() {
				defer func() { recover() }()
				esz = int(sizes.Sizeof(st.elem.t))
			}()
		}
		return func(m *M, fr *frame) {
			sv := args[0].get(m, fr)
			av := args[1].get(m, fr)
			if isStr {
				fr.regs[d] = m.appendVals(sv, strVals(av), 1, 1, 1)
				return
			}
			if av.P == nil {
				fr.regs[d] = sv
				return
			}
			a := av.P.(*Slice)
			fr.regs[d] = m.appendVals(sv, a.o.s[a.off:a.off+a.len*es], a.len, es, esz)
		}, false
	case "copy":
		es := ts[0].elem.size
		isStr := ts[1].kind == KString
		return func(m *M, fr *frame) {
			dv, s2 := args[0].get(m, fr), args[1].get(m, fr)
			if dv.P == nil || s2.P == nil {
				fr.regs[d] = Value{}
				return
			}
			dst := dv.P.(*Slice)
			var src []Value
			n := 0
			if isStr {
				src = strVals(s2)
				n = len(src)
			} else {
				s := s2.P.(*Slice)
				src = s.o.s[s.off : s.off+s.len*es]
				n = s.len
			}
			if dst.len < n {
				n = dst.len
			}
			m.touch(dst.o, dst.off, n*es)
			copy(dst.o.s[dst.off:dst.off+n*es], src[:n*es])
			fr.regs[d] = Value{N: uint64(n)}
		}, false
	case "delete":
		kt := ts[0].key
		return func(m *M, fr *frame) {
			mo, _ := args[0].get(m, fr).P.(*MapObj)
			m.mapDelete(mo, args[1].get(m, fr), kt)
		}, false
	case "clear":
		return func(m *M, fr *frame) {
			v := args[0].get(m, fr)
			switch o := v.P.(type) {
			case *MapObj:
				m.touchMap(o)
				o.keys, o.vals, o.live, o.nlive, o.nsym = nil, nil, nil, 0, 0
				o.idx = map[any]int{}
			case *Slice:
				n := o.len * ts[0].elem.size
				m.touch(o.o, o.off, n)
				for i := 0; i < n; i++ {
					o.o.s[o.off+i] = Value{}
				}
			}
		}, false
	case "recover":
		return func(m *M, fr *frame) {
			r := Value{}
			if c := fr.caller; c != nil && c.pan != nil {
				r = c.pan.v
				c.pan = nil
			}
			fr.regs[d] = r
		}, false
	case "print", "println":
		return func(m *M, fr *frame) {}, false
	case "min", "max":
		isMin := b.Name() == "min"
		t := p.typ(in.Type())
		return func(m *M, fr *frame) {
			acc := args[0].get(m, fr)
			for i := 1; i < len(args); i++ {
				v := args[i].get(m, fr)
				switch t.kind {
				case KInt:
					op := OUlt
					if t.signed {
						op = OSlt
					}
					a, b := m.ex(v, t.w), m.ex(acc, t.w)
					if !isMin {
						a, b = b, a
					}
					acc = ev(m.t.Ite(m.t.Cmp(op, a, b), m.ex(v, t.w), m.ex(acc, t.w)))
				default:
					m.unsup("min/max on %s", t.name())
				}
			}
			fr.regs[d] = acc
		}, true
	case "String": // unsafe.String(ptr, len)
		return func(m *M, fr *frame) {
			pv := args[0].get(m, fr)
			n := int(m.concretize(args[1].get(m, fr), ts[1].w))
			if n == 0 {
				fr.regs[d] = Value{}
				return
			}
			if st, ok := pv.P.(*strPtr); ok {
				fr.regs[d] = strSlice(st.s, int(pv.N), int(pv.N)+n)
				return
			}
			o := pv.P.(*Obj)
			bs := make([]Value, n)
			copy(bs, o.s[pv.N:int(pv.N)+n])
			fr.regs[d] = mkStr(bs)
		}, false
	case "StringData":
		return func(m *M, fr *frame) {
			fr.regs[d] = Value{P: &strPtr{args[0].get(m, fr)}}
		}, false
	case "SliceData":
		return func(m *M, fr *frame) {
			v := args[0].get(m, fr)
			if v.P == nil {
				fr.regs[d] = Value{}
				return
			}
			s := v.P.(*Slice)
			fr.regs[d] = Value{P: s.o, N: uint64(s.off)}
		}, false
	case "Slice": // unsafe.Slice(ptr, len)
		return func(m *M, fr *frame) {
			pv := args[0].get(m, fr)
			n := int(m.concretize(args[1].get(m, fr), ts[1].w))
			if pv.P == nil {
				fr.regs[d] = Value{}
				return
			}
			if st, ok := pv.P.(*strPtr); ok {
				bs := strVals(strSlice(st.s, int(pv.N), int(pv.N)+n))
				o := m.alloc(n)
				copy(o.s, bs)
				fr.regs[d] = Value{P: &Slice{o, 0, n, n}}
				return
			}
			fr.regs[d] = Value{P: &Slice{pv.P.(*Obj), int(pv.N), n, n}}
		}, false
	case "ssa:wrapnilchk":
		return func(m *M, fr *frame) {
			v := args[0].get(m, fr)
			if v.P == nil {
				m.rtPanic("value method called using nil pointer")
			}
			fr.regs[d] = v
		}, false
	}
	name := b.Name()
	return func(m *M, fr *frame) { m.unsup("builtin %s", name) }, false
}

type strPtr struct{ s Value }

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n, esz int) int {
	b := n * esz
	for _, c := range sizeClasses {
		if b <= c {
			return c / esz
		}
	}
	b = (b + 8191) / 8192 * 8192
	return b / esz
}

func (m *M) appendVals(sv Value, add []Value, n, es, esz int) Value {
	if es == 1 && n != len(add) {
		n = len(add)
	}
	if n == 0 {
		return sv
	}
	var s Slice
	if sv.P != nil {
		s = *sv.P.(*Slice)
	}
	nl := s.len + n
	if nl <= s.cap {
		m.touch(s.o, s.off+s.len*es, n*es)
		copy(s.o.s[s.off+s.len*es:], add)
		return Value{P: &Slice{s.o, s.off, nl, s.cap}}
	}
	nc := s.cap
	if nl > 2*s.cap {
		nc = nl
	} else if s.cap < 256 {
		nc = 2 * s.cap
	} else {
		for nc < nl {
			nc += (nc + 768) >> 2
		}
	}
	if esz > 0 {
		if k := roundCap(nc, esz); k > nc {
			nc = k
		}
	}
	o := m.alloc(nc * es)
	if s.o != nil {
		copy(o.s, s.o.s[s.off:s.off+s.len*es])
	}
	copy(o.s[s.len*es:], add)
	return Value{P: &Slice{o, 0, nl, nc}}
}
