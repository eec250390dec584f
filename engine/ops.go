package main

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (m *M) toF(v Value) float64 {
	if v.P != nil {
		m.unsup("symbolic float")
	}
	return math.Float64frombits(v.N)
}

func (c *fcomp) binop(in *ssa.BinOp) (ifn, bool) {
	p := c.p
	d, x, y := c.reg(in), c.op(in.X), c.op(in.Y)
	t := p.typ(in.X.Type())
	w := t.w
	mk := mask(w)
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		// comparison of interface with concrete operand: ssa inserts MakeInterface
		ty := p.typ(in.Y.Type())
		et := t
		if t.kind != KIface && ty.kind == KIface {
			et = ty
		}
		if cst, ok := in.X.(*ssa.Const); ok && cst.Value == nil && !t.isAgg() {
			et = ty
		}
		if et.kind == KInt || et.kind == KBool {
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: b2u((a.N == b.N) != neg)}
					return
				}
				r := m.eqVal(a, b, et)
				if neg {
					r = m.not(r)
				}
				fr.regs[d] = r
			}, true
		}
		return func(m *M, fr *frame) {
			r := m.eqVal(x.get(m, fr), y.get(m, fr), et)
			if neg {
				r = m.not(r)
			}
			fr.regs[d] = r
		}, true
	}
	switch t.kind {
	case KString:
		switch in.Op {
		case token.ADD:
			return func(m *M, fr *frame) { fr.regs[d] = strCat(x.get(m, fr), y.get(m, fr)) }, true
		case token.LSS:
			return func(m *M, fr *frame) { fr.regs[d] = m.ltStr(x.get(m, fr), y.get(m, fr), false) }, true
		case token.LEQ:
			return func(m *M, fr *frame) { fr.regs[d] = m.ltStr(x.get(m, fr), y.get(m, fr), true) }, true
		case token.GTR:
			return func(m *M, fr *frame) { fr.regs[d] = m.ltStr(y.get(m, fr), x.get(m, fr), false) }, true
		case token.GEQ:
			return func(m *M, fr *frame) { fr.regs[d] = m.ltStr(y.get(m, fr), x.get(m, fr), true) }, true
		}
	case KFloat:
		op := in.Op
		f32 := w == 32
		return func(m *M, fr *frame) {
			a, b := m.toF(x.get(m, fr)), m.toF(y.get(m, fr))
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[d] = Value{N: b2u(a < b)}
				return
			case token.LEQ:
				fr.regs[d] = Value{N: b2u(a <= b)}
				return
			case token.GTR:
				fr.regs[d] = Value{N: b2u(a > b)}
				return
			case token.GEQ:
				fr.regs[d] = Value{N: b2u(a >= b)}
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[d] = Value{N: math.Float64bits(r)}
		}, true
	case KInt:
		signed := t.signed
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := in.Op
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.P == nil && b.P == nil {
					var r bool
					if signed {
						p, q := sext(a.N, w), sext(b.N, w)
						switch op {
						case token.LSS:
							r = p < q
						case token.LEQ:
							r = p <= q
						case token.GTR:
							r = p > q
						case token.GEQ:
							r = p >= q
						}
					} else {
						switch op {
						case token.LSS:
							r = a.N < b.N
						case token.LEQ:
							r = a.N <= b.N
						case token.GTR:
							r = a.N > b.N
						case token.GEQ:
							r = a.N >= b.N
						}
					}
					fr.regs[d] = Value{N: b2u(r)}
					return
				}
				p, q := m.ex(a, w), m.ex(b, w)
				lt, le := OUlt, OUle
				if signed {
					lt, le = OSlt, OSle
				}
				switch op {
				case token.LSS:
					fr.regs[d] = ev(m.t.Cmp(lt, p, q))
				case token.LEQ:
					fr.regs[d] = ev(m.t.Cmp(le, p, q))
				case token.GTR:
					fr.regs[d] = ev(m.t.Cmp(lt, q, p))
				case token.GEQ:
					fr.regs[d] = ev(m.t.Cmp(le, q, p))
				}
			}, true
		case token.ADD:
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: (a.N + b.N) & mk}
					return
				}
				if o, ok := a.P.(*Obj); ok { // uintptr arithmetic on a pointer
					m.unsup("pointer arithmetic %v", o != nil)
				}
				fr.regs[d] = ev(m.t.Bin(OAdd, m.ex(a, w), m.ex(b, w)))
			}, true
		case token.SUB:
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: (a.N - b.N) & mk}
					return
				}
				fr.regs[d] = ev(m.t.Sub(m.ex(a, w), m.ex(b, w)))
			}, true
		case token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			op := in.Op
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.P == nil && b.P == nil {
					var r uint64
					switch op {
					case token.MUL:
						r = a.N * b.N
					case token.AND:
						r = a.N & b.N
					case token.OR:
						r = a.N | b.N
					case token.XOR:
						r = a.N ^ b.N
					case token.AND_NOT:
						r = a.N &^ b.N
					}
					fr.regs[d] = Value{N: r & mk}
					return
				}
				if _, ok := a.P.(*Obj); ok && op == token.XOR && b.P == nil && b.N == 0 {
					fr.regs[d] = a
					return
				}
				p, q := m.ex(a, w), m.ex(b, w)
				switch op {
				case token.MUL:
					fr.regs[d] = ev(m.t.Bin(OMul, p, q))
				case token.AND:
					fr.regs[d] = ev(m.t.Bin(OAnd, p, q))
				case token.OR:
					fr.regs[d] = ev(m.t.Bin(OOr, p, q))
				case token.XOR:
					fr.regs[d] = ev(m.t.Bin(OXor, p, q))
				case token.AND_NOT:
					fr.regs[d] = ev(m.t.Bin(OAnd, p, m.t.BitNot(q)))
				}
			}, true
		case token.QUO, token.REM:
			quo := in.Op == token.QUO
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if b.P != nil {
					if m.branch(m.t.Cmp(OEq, m.ex(b, w), m.t.Const(0, w))) {
						m.rtPanic("integer divide by zero")
					}
				} else if b.N == 0 {
					m.rtPanic("integer divide by zero")
				}
				op := OUdiv
				switch {
				case signed && quo:
					op = OSdiv
				case signed:
					op = OSrem
				case !quo:
					op = OUrem
				}
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: foldBin(op, w, a.N, b.N)}
					return
				}
				fr.regs[d] = ev(m.t.Bin(op, m.ex(a, w), m.ex(b, w)))
			}, true
		case token.SHL, token.SHR:
			shl := in.Op == token.SHL
			yt := p.typ(in.Y.Type())
			op := OShl
			if !shl {
				op = OLshr
				if signed {
					op = OAshr
				}
			}
			return func(m *M, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if yt.signed {
					if b.P == nil {
						if sext(b.N, yt.w) < 0 {
							m.rtPanic("negative shift amount")
						}
					} else if m.branch(m.t.Cmp(OSlt, m.ex(b, yt.w), m.t.Const(0, yt.w))) {
						m.rtPanic("negative shift amount")
					}
				}
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: foldBin(op, w, a.N, b.N)}
					return
				}
				e := m.ex(a, w)
				var s *Expr
				be := m.ex(b, yt.w)
				if yt.w <= w {
					s = m.t.Zext(be, w)
				} else {
					s = m.t.Ite(m.t.Cmp(OUlt, be, m.t.Const(uint64(w), yt.w)), m.t.Trunc(be, w), m.t.Const(uint64(w), w))
				}
				fr.regs[d] = ev(m.t.Bin(op, e, s))
			}, true
		}
	case KBool:
		switch in.Op {
		case token.AND, token.LAND:
			return func(m *M, fr *frame) { fr.regs[d] = m.and(x.get(m, fr), y.get(m, fr)) }, true
		case token.OR, token.LOR:
			return func(m *M, fr *frame) {
				fr.regs[d] = m.not(m.and(m.not(x.get(m, fr)), m.not(y.get(m, fr))))
			}, true
		}
	}
	op := in.Op
	return func(m *M, fr *frame) { m.unsup("binop %v on %s", op, t.name()) }, false
}

func (c *fcomp) unop(in *ssa.UnOp) (ifn, bool) {
	p := c.p
	d, x := c.reg(in), c.op(in.X)
	switch in.Op {
	case token.MUL:
		t := p.typ(in.Type())
		if x.r == -2 && !t.isAgg() {
			gi := x.c.N
			return func(m *M, fr *frame) { fr.regs[d] = m.global(gi).s[0] }, true
		}
		if !t.isAgg() {
			return func(m *M, fr *frame) {
				v := x.get(m, fr)
				if o, ok := v.P.(*Obj); ok {
					fr.regs[d] = o.s[v.N]
					return
				}
				fr.regs[d] = m.load(fr, v, t)
			}, true
		}
		return func(m *M, fr *frame) { fr.regs[d] = m.load(fr, x.get(m, fr), t) }, true
	case token.NOT:
		return func(m *M, fr *frame) { fr.regs[d] = m.not(x.get(m, fr)) }, true
	case token.SUB:
		t := p.typ(in.Type())
		if t.kind == KFloat {
			return func(m *M, fr *frame) {
				fr.regs[d] = Value{N: math.Float64bits(-m.toF(x.get(m, fr)))}
			}, true
		}
		w := t.w
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			if v.P == nil {
				fr.regs[d] = Value{N: (-v.N) & mask(w)}
				return
			}
			fr.regs[d] = ev(m.t.Neg(m.ex(v, w)))
		}, true
	case token.XOR:
		w := p.typ(in.Type()).w
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			if v.P == nil {
				fr.regs[d] = Value{N: (^v.N) & mask(w)}
				return
			}
			fr.regs[d] = ev(m.t.BitNot(m.ex(v, w)))
		}, true
	}
	op := in.Op
	return func(m *M, fr *frame) { m.unsup("unop %v", op) }, false
}

func (c *fcomp) convert(in *ssa.Convert) (ifn, bool) { return c.convertT(in, in.X, in.Type()) }

func (c *fcomp) convertT(in ssa.Value, X ssa.Value, T types.Type) (ifn, bool) {
	p := c.p
	d, x := c.reg(in), c.op(X)
	from, to := p.typ(X.Type()), p.typ(T)
	switch {
	case from.kind == KInt && to.kind == KInt:
		fw, tw, fs := from.w, to.w, from.signed
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			if v.P == nil {
				n := v.N
				if fs {
					n = uint64(sext(n, fw))
				}
				fr.regs[d] = Value{N: n & mask(tw)}
				return
			}
			if _, ok := v.P.(*Expr); !ok {
				fr.regs[d] = v
				return
			}
			fr.regs[d] = ev(m.resize(m.ex(v, fw), tw, fs))
		}, true
	case from.kind == KInt && to.kind == KFloat:
		f32 := to.w == 32
		return func(m *M, fr *frame) {
			n := m.concretize(x.get(m, fr), from.w)
			var f float64
			if from.signed {
				f = float64(sext(n, from.w))
			} else {
				f = float64(n)
			}
			if f32 {
				f = float64(float32(f))
			}
			fr.regs[d] = Value{N: math.Float64bits(f)}
		}, true
	case from.kind == KFloat && to.kind == KInt:
		return func(m *M, fr *frame) {
			f := m.toF(x.get(m, fr))
			var n uint64
			if to.signed {
				n = uint64(int64(f))
			} else {
				n = uint64(f)
			}
			fr.regs[d] = Value{N: n & mask(to.w)}
		}, true
	case from.kind == KFloat && to.kind == KFloat:
		return func(m *M, fr *frame) {
			f := m.toF(x.get(m, fr))
			if to.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[d] = Value{N: math.Float64bits(f)}
		}, true
	case from.kind == KString && to.kind == KString:
		return func(m *M, fr *frame) { fr.regs[d] = x.get(m, fr) }, true
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			return func(m *M, fr *frame) {
				b := strVals(x.get(m, fr))
				o := m.alloc(len(b))
				copy(o.s, b)
				fr.regs[d] = Value{P: &Slice{o, 0, len(b), len(b)}}
			}, false
		}
		return func(m *M, fr *frame) {
			s := x.get(m, fr)
			n := strLen(s)
			var rs []Value
			for i := 0; i < n; {
				r, sz := m.decodeRune(s, i)
				rs = append(rs, r)
				i += sz
			}
			o := m.alloc(len(rs))
			copy(o.s, rs)
			fr.regs[d] = Value{P: &Slice{o, 0, len(rs), len(rs)}}
		}, false
	case from.kind == KSlice && to.kind == KString:
		if from.elem.w == 8 {
			return func(m *M, fr *frame) {
				v := x.get(m, fr)
				if v.P == nil {
					fr.regs[d] = Value{}
					return
				}
				s := v.P.(*Slice)
				b := make([]Value, s.len)
				copy(b, s.o.s[s.off:s.off+s.len])
				fr.regs[d] = mkStr(b)
			}, true
		}
		return func(m *M, fr *frame) {
			v := x.get(m, fr)
			r := Value{}
			if v.P != nil {
				s := v.P.(*Slice)
				for i := 0; i < s.len; i++ {
					r = strCat(r, m.runeStr(s.o.s[s.off+i], 32, true))
				}
			}
			fr.regs[d] = r
		}, false
	case from.kind == KInt && to.kind == KString:
		return func(m *M, fr *frame) { fr.regs[d] = m.runeStr(x.get(m, fr), from.w, from.signed) }, false
	case to.kind == KUnsafe || from.kind == KUnsafe:
		return func(m *M, fr *frame) { fr.regs[d] = x.get(m, fr) }, true
	case from.kind == to.kind:
		return func(m *M, fr *frame) { fr.regs[d] = x.get(m, fr) }, true
	}
	return func(m *M, fr *frame) { m.unsup("convert %s to %s", from.name(), to.name()) }, false
}

func (m *M) resize(e *Expr, tw uint8, signed bool) *Expr {
	switch {
	case e.w == tw:
		return e
	case e.w > tw:
		return m.t.Trunc(e, tw)
	case signed:
		return m.t.Sext(e, tw)
	}
	return m.t.Zext(e, tw)
}

// runeStr converts a code point to its UTF-8 string.
func (m *M) runeStr(v Value, w uint8, signed bool) Value {
	if v.P == nil {
		n := int64(v.N)
		if signed {
			n = sext(v.N, w)
		}
		if n < 0 || n > 0x10ffff {
			n = 0xfffd
		}
		return sv(string(rune(n)))
	}
	t := m.t
	e := m.resize(m.ex(v, w), 64, signed)
	k := func(n uint64) *Expr { return t.Const(n, 64) }
	lt := func(n uint64) bool { return m.branch(t.Cmp(OUlt, e, k(n))) }
	b := func(x *Expr) Value { return ev(t.Trunc(x, 8)) }
	sh := func(n uint64) *Expr { return t.Bin(OLshr, e, k(n)) }
	cont := func(x *Expr) Value { return b(t.Bin(OOr, t.Bin(OAnd, x, k(0x3f)), k(0x80))) }
	switch {
	case lt(0x80):
		return mkStr([]Value{b(e)})
	case lt(0x800):
		return mkStr([]Value{b(t.Bin(OOr, sh(6), k(0xc0))), cont(e)})
	case !lt(0x110000) || m.branch(t.Cmp(OUlt, t.Bin(OAdd, e, k(^uint64(0xd800)+1)), k(0x800))):
		return sv("\ufffd")
	case lt(0x10000):
		return mkStr([]Value{b(t.Bin(OOr, sh(12), k(0xe0))), cont(sh(6)), cont(e)})
	}
	return mkStr([]Value{b(t.Bin(OOr, sh(18), k(0xf0))), cont(sh(12)), cont(sh(6)), cont(e)})
}

// decodeRune decodes one UTF-8 code point of s at i.
func (m *M) decodeRune(s Value, i int) (Value, int) {
	n := strLen(s)
	at := func(j int) Value { return strAt(s, i+j) }
	return m.decodeAt(at, n-i)
}

func (m *M) decodeAt(at func(int) Value, n int) (Value, int) {
	t := m.t
	bad := Value{N: 0xfffd}
	if n <= 0 {
		return bad, 0
	}
	b0 := at(0)
	symb := false
	for j := 0; j < 4 && j < n; j++ {
		if at(j).P != nil {
			symb = true
		}
	}
	if !symb {
		var buf []byte
		for j := 0; j < 4 && j < n; j++ {
			buf = append(buf, byte(at(j).N))
		}
		r, sz := decodeRuneNative(buf)
		return Value{N: uint64(uint32(r))}, sz
	}
	k8 := func(v uint64) *Expr { return t.Const(v, 8) }
	e0 := m.ex(b0, 8)
	in := func(e *Expr, lo, hi uint64) *Expr {
		return t.BAnd(t.Cmp(OUle, k8(lo), e), t.Cmp(OUle, e, k8(hi)))
	}
	z := func(e *Expr) *Expr { return t.Zext(e, 32) }
	k := func(v uint64) *Expr { return t.Const(v, 32) }
	sub := func(e *Expr, msk, sh uint64) *Expr {
		return t.Bin(OShl, t.Bin(OAnd, z(e), k(msk)), k(sh))
	}
	if m.branch(t.Cmp(OUlt, e0, k8(0x80))) {
		return ev(z(e0)), 1
	}
	e := func(j int) *Expr { return m.ex(at(j), 8) }
	// two bytes
	if m.branch(in(e0, 0xc2, 0xdf)) {
		if n < 2 || !m.branch(in(e(1), 0x80, 0xbf)) {
			return bad, 1
		}
		return ev(t.Bin(OOr, sub(e0, 0x1f, 6), sub(e(1), 0x3f, 0))), 2
	}
	if m.branch(in(e0, 0xe0, 0xef)) {
		if n < 2 {
			return bad, 1
		}
		lo := t.Ite(t.Cmp(OEq, e0, k8(0xe0)), k8(0xa0), k8(0x80))
		hi := t.Ite(t.Cmp(OEq, e0, k8(0xed)), k8(0x9f), k8(0xbf))
		if !m.branch(t.BAnd(t.Cmp(OUle, lo, e(1)), t.Cmp(OUle, e(1), hi))) {
			return bad, 1
		}
		if n < 3 || !m.branch(in(e(2), 0x80, 0xbf)) {
			return bad, 1
		}
		return ev(t.Bin(OOr, t.Bin(OOr, sub(e0, 0xf, 12), sub(e(1), 0x3f, 6)), sub(e(2), 0x3f, 0))), 3
	}
	if m.branch(in(e0, 0xf0, 0xf4)) {
		if n < 2 {
			return bad, 1
		}
		lo := t.Ite(t.Cmp(OEq, e0, k8(0xf0)), k8(0x90), k8(0x80))
		hi := t.Ite(t.Cmp(OEq, e0, k8(0xf4)), k8(0x8f), k8(0xbf))
		if !m.branch(t.BAnd(t.Cmp(OUle, lo, e(1)), t.Cmp(OUle, e(1), hi))) {
			return bad, 1
		}
		if n < 3 || !m.branch(in(e(2), 0x80, 0xbf)) {
			return bad, 1
		}
		if n < 4 || !m.branch(in(e(3), 0x80, 0xbf)) {
			return bad, 1
		}
		return ev(t.Bin(OOr, t.Bin(OOr, sub(e0, 7, 18), sub(e(1), 0x3f, 12)), t.Bin(OOr, sub(e(2), 0x3f, 6), sub(e(3), 0x3f, 0)))), 4
	}
	return bad, 1
}
