package main

// Symbolic terms: hash-consed bit-vector / boolean expressions.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot // bitwise
	OZext
	OSext
	OTrunc
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
)

// Expr is a term. w is the width in bits; w==1 is the Boolean sort.
type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64 // constant value, or variable index
	id      int32
	vars    []int32 // sorted variable indices
	// evaluation memo
	ev    uint64
	epoch uint32
	// smt emission
	emitted uint32
	size    int32
	sh      [2]uint64 // structure, independent of variable numbering
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type Terms struct {
	tab   map[ekey]*Expr
	n     int32
	epoch uint32
	True  *Expr
	False *Expr
}

func NewTerms() *Terms {
	t := &Terms{tab: map[ekey]*Expr{}}
	t.True = t.Const(1, 1)
	t.False = t.Const(0, 1)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func eid(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	i, j := 0, 0
	var out []int32
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			out = append(out, a[i])
			i++
			j++
		} else if a[i] < b[j] {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (t *Terms) mk(op Op, w uint8, a, b, c *Expr, k uint64) *Expr {
	key := ekey{op, w, eid(a), eid(b), eid(c), k}
	if e, ok := t.tab[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: c, k: k, id: t.n, size: 1}
	t.n++
	if op == OVar {
		e.vars = []int32{int32(k)}
	} else {
		if a != nil {
			e.vars = a.vars
			e.size += a.size
		}
		if b != nil {
			e.vars = mergeVars(e.vars, b.vars)
			e.size += b.size
		}
		if c != nil {
			e.vars = mergeVars(e.vars, c.vars)
			e.size += c.size
		}
		if e.size < 0 || e.size > 1<<28 {
			e.size = 1 << 28
		}
	}
	e.shape()
	t.tab[key] = e
	return e
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

// shape hashes the term with its variables numbered by rank, so that equal
// constraints on different variables share a solver verdict.
func (e *Expr) shape() {
	h0 := mix(0x243F6A8885A308D3, uint64(e.op)<<8|uint64(e.w))
	h1 := mix(0x13198A2E03707344, uint64(e.op)<<8|uint64(e.w))
	if e.op != OVar {
		h0, h1 = mix(h0, e.k), mix(h1, e.k)
	}
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x == nil {
			continue
		}
		h0, h1 = mix(h0, x.sh[0]), mix(h1, x.sh[1])
		if len(x.vars) != len(e.vars) {
			j := 0
			for _, v := range x.vars {
				for e.vars[j] != v {
					j++
				}
				h0, h1 = mix(h0, uint64(j)+1), mix(h1, uint64(j)+1)
			}
		}
	}
	e.sh = [2]uint64{h0, h1}
}

func (t *Terms) Const(v uint64, w uint8) *Expr {
	return t.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (t *Terms) Bool(b bool) *Expr {
	if b {
		return t.True
	}
	return t.False
}
func (t *Terms) Var(i int32, w uint8) *Expr { return t.mk(OVar, w, nil, nil, nil, uint64(i)) }

func (e *Expr) isC() bool         { return e.op == OConst }
func (e *Expr) isK(v uint64) bool { return e.op == OConst && e.k == v&mask(e.w) }
func (e *Expr) isTrue() bool      { return e.op == OConst && e.w == 1 && e.k == 1 }
func (e *Expr) isFalse() bool     { return e.op == OConst && e.w == 1 && e.k == 0 }
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		a := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("foldBin")
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("foldCmp")
}

func (t *Terms) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if b.w != w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.isC() && b.isC() {
		return t.Const(foldBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isC() {
			a, b = b, a
		}
	}
	if b.isC() {
		k := b.k
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return t.Bin(OAdd, a.a, t.Const(a.b.k+k, w))
			}
			if a.op == OIte && a.b.isC() && a.c.isC() {
				return t.Ite(a.a, t.Const(a.b.k+k, w), t.Const(a.c.k+k, w))
			}
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if bits.OnesCount64(k) == 1 {
				return t.Bin(OShl, a, t.Const(uint64(bits.TrailingZeros64(k)), w))
			}
		case OAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			if a.op == OZext && k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OZext {
				if k <= mask(a.a.w) {
					return t.Zext(t.Bin(OAnd, a.a, t.Const(k, a.a.w)), w)
				}
			}
		case OOr:
			if k == 0 {
				return a
			}
			if k == mask(w) {
				return b
			}
			if a.op == OZext && k <= mask(a.a.w) {
				return t.Zext(t.Bin(OOr, a.a, t.Const(k, a.a.w)), w)
			}
		case OXor:
			if k == 0 {
				return a
			}
		case OShl, OLshr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return t.Const(0, w)
			}
			if op == OLshr && a.op == OZext {
				if k >= uint64(a.a.w) {
					return t.Const(0, w)
				}
				return t.Zext(t.Bin(OLshr, a.a, t.Const(k, a.a.w)), w)
			}
		case OAshr:
			if k == 0 {
				return a
			}
			if a.op == OZext && a.a.w < w {
				return t.Bin(OLshr, a, b)
			}
		case OUdiv:
			if k == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OAnd, OOr:
			return a
		case OXor:
			return t.Const(0, w)
		}
	}
	return t.mk(op, w, a, b, nil, 0)
}

func (t *Terms) Neg(a *Expr) *Expr {
	return t.Bin(OAdd, t.BitNot(a), t.Const(1, a.w))
}
func (t *Terms) Sub(a, b *Expr) *Expr {
	if a == b {
		return t.Const(0, a.w)
	}
	if b.isC() {
		return t.Bin(OAdd, a, t.Const(-b.k, a.w))
	}
	return t.Bin(OAdd, a, t.Neg(b))
}
func (t *Terms) BitNot(a *Expr) *Expr {
	if a.isC() {
		return t.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return t.mk(ONot, a.w, a, nil, nil, 0)
}

func (t *Terms) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(a.k, w)
	}
	if a.op == OZext {
		return t.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return t.Ite(a.a, t.Const(a.b.k, w), t.Const(a.c.k, w))
	}
	return t.mk(OZext, w, a, nil, nil, 0)
}
func (t *Terms) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.op == OZext {
		return t.Zext(a.a, w)
	}
	if a.op == OSext {
		return t.Sext(a.a, w)
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return t.Ite(a.a, t.Sext(a.b, w), t.Sext(a.c, w))
	}
	return t.mk(OSext, w, a, nil, nil, 0)
}
func (t *Terms) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(a.k, w)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w >= w {
			return t.Trunc(a.a, w)
		}
		if a.op == OZext {
			return t.Zext(a.a, w)
		}
		return t.Sext(a.a, w)
	case OTrunc:
		return t.Trunc(a.a, w)
	case OIte:
		if a.b.isC() || a.c.isC() {
			return t.Ite(a.a, t.Trunc(a.b, w), t.Trunc(a.c, w))
		}
	case OAdd, OAnd, OOr, OXor:
		if a.b.isC() {
			return t.Bin(a.op, t.Trunc(a.a, w), t.Trunc(a.b, w))
		}
	}
	return t.mk(OTrunc, w, a, nil, nil, 0)
}

func constLeaves(e *Expr, depth int) bool {
	if e.isC() {
		return true
	}
	if e.op == OIte && depth > 0 {
		return constLeaves(e.b, depth-1) && constLeaves(e.c, depth-1)
	}
	return false
}

func (t *Terms) Cmp(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w))
	}
	w := a.w
	if a.isC() && b.isC() {
		return t.Bool(foldCmp(op, w, a.k, b.k))
	}
	if a == b {
		return t.Bool(op == OEq || op == OUle || op == OSle)
	}
	if w == 1 && op == OEq {
		if a.isC() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return t.BNot(a)
		}
		return t.mk(OEq, 1, a, b, nil, 0)
	}
	if op == OEq {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			switch a.op {
			case OZext:
				if b.k > mask(a.a.w) {
					return t.False
				}
				return t.Cmp(OEq, a.a, t.Const(b.k, a.a.w))
			case OSext:
				if sext(b.k, w) != sext(b.k&mask(a.a.w), a.a.w) {
					return t.False
				}
				return t.Cmp(OEq, a.a, t.Const(b.k, a.a.w))
			case OAdd:
				if a.b.isC() {
					return t.Cmp(OEq, a.a, t.Const(b.k-a.b.k, w))
				}
			case OXor:
				if a.b.isC() {
					return t.Cmp(OEq, a.a, t.Const(b.k^a.b.k, w))
				}
			case OIte:
				if constLeaves(a, 40) || a.b.isC() || a.c.isC() {
					return t.Ite(a.a, t.Cmp(OEq, a.b, b), t.Cmp(OEq, a.c, b))
				}
			}
		} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return t.Cmp(OEq, a.a, b.a)
		} else if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return t.Cmp(OEq, a.a, b.a)
		} else if after(a, b) {
			a, b = b, a
		}
		return t.mk(OEq, 1, a, b, nil, 0)
	}
	// ordering
	if a.op == OIte && b.isC() && constLeaves(a, 40) {
		return t.Ite(a.a, t.Cmp(op, a.b, b), t.Cmp(op, a.c, b))
	}
	if b.op == OIte && a.isC() && constLeaves(b, 40) {
		return t.Ite(b.a, t.Cmp(op, a, b.b), t.Cmp(op, a, b.c))
	}
	if op == OSlt || op == OSle {
		// zero-extended operands are non-negative
		if a.op == OZext && b.isC() {
			if sext(b.k, w) < 0 {
				return t.False
			}
			return t.Cmp(op-OSlt+OUlt, a, b)
		}
		if b.op == OZext && a.isC() {
			if sext(a.k, w) < 0 {
				return t.True
			}
			return t.Cmp(op-OSlt+OUlt, a, b)
		}
		if a.op == OZext && b.op == OZext {
			return t.Cmp(op-OSlt+OUlt, a, b)
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZext && b.isC() {
			if b.k > mask(a.a.w) {
				return t.True
			}
			return t.Cmp(op, a.a, t.Const(b.k, a.a.w))
		}
		if b.op == OZext && a.isC() {
			if a.k > mask(b.a.w) {
				return t.False
			}
			return t.Cmp(op, t.Const(a.k, b.a.w), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return t.Cmp(op, a.a, b.a)
		}
		if b.isC() {
			if op == OUlt && b.k == 0 {
				return t.False
			}
			if op == OUle && b.k == mask(w) {
				return t.True
			}
			if op == OUlt && b.k == 1 {
				return t.Cmp(OEq, a, t.Const(0, w))
			}
			if op == OUle && b.k == 0 {
				return t.Cmp(OEq, a, b)
			}
		}
		if a.isC() {
			if op == OUle && a.k == 0 {
				return t.True
			}
			if op == OUlt && a.k == mask(w) {
				return t.False
			}
		}
	}
	return t.mk(op, 1, a, b, nil, 0)
}

func (t *Terms) BNot(a *Expr) *Expr {
	if a.isC() {
		return t.Bool(a.k == 0)
	}
	switch a.op {
	case OBNot:
		return a.a
	case OUlt:
		return t.Cmp(OUle, a.b, a.a)
	case OUle:
		return t.Cmp(OUlt, a.b, a.a)
	case OSlt:
		return t.Cmp(OSle, a.b, a.a)
	case OSle:
		return t.Cmp(OSlt, a.b, a.a)
	}
	return t.mk(OBNot, 1, a, nil, nil, 0)
}

// contradict: a and b are syntactically different constant equalities on one term.
func eqConst(e *Expr) (*Expr, uint64, bool) {
	if e.op == OEq && e.b.isC() {
		return e.a, e.b.k, true
	}
	return nil, 0, false
}

func (t *Terms) BAnd(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return t.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return t.False
	}
	if x, k, ok := eqConst(a); ok {
		if y, l, ok := eqConst(b); ok && x == y && k != l {
			return t.False
		}
		if b.op == OBNot {
			if y, l, ok := eqConst(b.a); ok && x == y && k != l {
				return a
			}
		}
	}
	if y, l, ok := eqConst(b); ok && a.op == OBNot {
		if x, k, ok := eqConst(a.a); ok && x == y && k != l {
			return b
		}
	}
	if after(a, b) {
		a, b = b, a
	}
	return t.mk(OBAnd, 1, a, b, nil, 0)
}
func (t *Terms) BOr(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return t.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return t.True
	}
	if after(a, b) {
		a, b = b, a
	}
	return t.mk(OBOr, 1, a, b, nil, 0)
}

func (t *Terms) Ite(c, a, b *Expr) *Expr {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 1 {
		if a.isTrue() {
			return t.BOr(c, b)
		}
		if a.isFalse() {
			return t.BAnd(t.BNot(c), b)
		}
		if b.isTrue() {
			return t.BOr(t.BNot(c), a)
		}
		if b.isFalse() {
			return t.BAnd(c, a)
		}
	}
	if c.op == OBNot {
		c, a, b = c.a, b, a
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return t.mk(OIte, a.w, c, a, b, 0)
}

// Eval evaluates e under the model (variable index -> value).
func (t *Terms) NewEpoch() { t.epoch++ }

func (t *Terms) Eval(e *Expr, model []uint64) uint64 {
	if e.op == OConst {
		return e.k
	}
	if e.epoch == t.epoch {
		return e.ev
	}
	var v uint64
	switch e.op {
	case OVar:
		if int(e.k) < len(model) {
			v = model[e.k] & mask(e.w)
		}
	case OIte:
		if t.Eval(e.a, model) != 0 {
			v = t.Eval(e.b, model)
		} else {
			v = t.Eval(e.c, model)
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		v = b2u(foldCmp(e.op, e.a.w, t.Eval(e.a, model), t.Eval(e.b, model)))
	case OBNot:
		v = 1 - t.Eval(e.a, model)
	case OBAnd:
		v = t.Eval(e.a, model)
		if v != 0 {
			v = t.Eval(e.b, model)
		}
	case OBOr:
		v = t.Eval(e.a, model)
		if v == 0 {
			v = t.Eval(e.b, model)
		}
	case ONot:
		v = ^t.Eval(e.a, model) & mask(e.w)
	case OZext:
		v = t.Eval(e.a, model)
	case OSext:
		v = uint64(sext(t.Eval(e.a, model), e.a.w)) & mask(e.w)
	case OTrunc:
		v = t.Eval(e.a, model) & mask(e.w)
	default:
		v = foldBin(e.op, e.w, t.Eval(e.a, model), t.Eval(e.b, model))
	}
	e.ev = v
	e.epoch = t.epoch
	return v
}

// after orders commutative operands independently of creation order.
func after(a, b *Expr) bool {
	if a.sh != b.sh {
		if a.sh[0] != b.sh[0] {
			return a.sh[0] > b.sh[0]
		}
		return a.sh[1] > b.sh[1]
	}
	for i := range a.vars {
		if a.vars[i] != b.vars[i] {
			return a.vars[i] > b.vars[i]
		}
	}
	return false
}
