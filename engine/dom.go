package main

// Per-byte domains. Facts about one byte-sized variable are kept as a
// 256-entry set; multi-variable facts are simplified under those sets so that
// queries stay small and independent. Assertions are always put to the SMT
// solver; the sets only decide branch feasibility when a single byte is
// involved and no other fact mentions it.

type bset [4]uint64

var fullSet = bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (b *bset) has(i uint64) bool { return b[i>>6&3]>>(i&63)&1 == 1 }
func (b bset) and(o bset) bset {
	return bset{b[0] & o[0], b[1] & o[1], b[2] & o[2], b[3] & o[3]}
}
func (b bset) not() bset   { return bset{^b[0], ^b[1], ^b[2], ^b[3]} }
func (b bset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b bset) sub(o bset) bool {
	return b[0]&^o[0]|b[1]&^o[1]|b[2]&^o[2]|b[3]&^o[3] == 0
}

// single reports whether e depends on exactly one variable of at most 8 bits.
func (m *M) single(e *Expr) bool {
	return len(e.vars) == 1 && m.varW[e.vars[0]] <= 8
}

// table is the set of values of e's only variable that make e true.
func (m *M) table(e *Expr) bset {
	if b, ok := m.tt[e.sh]; ok {
		return b
	}
	v := e.vars[0]
	n := uint64(1) << m.varW[v]
	var b bset
	mod := make([]uint64, v+1)
	for i := uint64(0); i < n; i++ {
		mod[v] = i
		m.t.NewEpoch()
		if m.t.Eval(e, mod) != 0 {
			b[i>>6] |= 1 << (i & 63)
		}
	}
	m.epochOK = false
	m.tt[e.sh] = b
	return b
}

func (m *M) domain(v int32) bset {
	if d := m.dom[v]; d != nil {
		return *d
	}
	var b bset
	n := uint(1) << m.varW[v]
	for i := 0; i < 4; i++ {
		if n >= 64 {
			b[i] = ^uint64(0)
			n -= 64
		} else {
			b[i] = 1<<n - 1
			n = 0
		}
	}
	return b
}

func (b bset) pick(prefer uint64) uint64 {
	if prefer < 256 && b.has(prefer) {
		return prefer
	}
	for i := uint64(0); i < 256; i++ {
		if b.has(i) {
			return i
		}
	}
	return 0
}

type domKey struct {
	v int32
	d bset
}

func (m *M) domTerm(v int32, d bset) *Expr {
	k := domKey{v, d}
	if e := m.domT[k]; e != nil && e.vars[0] == v {
		return e
	}
	e := m.domExpr(v, d)
	if len(e.vars) > 0 {
		m.domT[k] = e
	}
	return e
}

// domExpr renders a set as a term on v.
func (m *M) domExpr(v int32, d bset) *Expr {
	x := m.varE[v]
	w := m.varW[v]
	if w == 1 {
		switch {
		case d[0]&3 == 3:
			return m.t.True
		case d[0]&3 == 2:
			return x
		case d[0]&3 == 1:
			return m.t.BNot(x)
		}
		return m.t.False
	}
	n := uint64(1) << w
	r := m.t.False
	for i := uint64(0); i < n; i++ {
		if !d.has(i) {
			continue
		}
		j := i
		for j+1 < n && d.has(j+1) {
			j++
		}
		var c *Expr
		if i == j {
			c = m.t.Cmp(OEq, x, m.t.Const(i, w))
		} else {
			c = m.t.BAnd(m.t.Cmp(OUle, m.t.Const(i, w), x), m.t.Cmp(OUle, x, m.t.Const(j, w)))
		}
		r = m.t.BOr(r, c)
		i = j
	}
	return r
}

// simp simplifies a Boolean term under the current domains, with one
// variable's domain optionally narrowed by context.
func (m *M) simp(e *Expr) *Expr {
	if len(e.vars) == 0 || e.w != 1 {
		return e
	}
	s := simplifier{m: m, cv: -1}
	return s.do(e, 0)
}

type simplifier struct {
	m    *M
	cv   int32
	cd   bset
	work int
}

func (s *simplifier) dom(v int32) bset {
	if v == s.cv {
		return s.cd
	}
	return s.m.domain(v)
}

func (s *simplifier) do(e *Expr, depth int) *Expr {
	m := s.m
	if len(e.vars) == 0 {
		return e
	}
	s.work++
	if s.work > 400 || depth > 60 {
		return e
	}
	if e.w == 1 && m.single(e) {
		d := s.dom(e.vars[0])
		t := m.table(e)
		if d.and(t).empty() {
			return m.t.False
		}
		if d.sub(t) {
			return m.t.True
		}
		return e
	}
	if len(e.vars) == 1 {
		return e
	}
	switch e.op {
	case OBNot:
		if a := s.do(e.a, depth+1); a != e.a {
			return m.t.BNot(a)
		}
	case OBAnd, OBOr:
		a, b := e.a, e.b
		if !m.single(a) && m.single(b) {
			a, b = b, a
		}
		x := s.do(a, depth+1)
		var y *Expr
		if x.isC() {
			if (x.k != 0) == (e.op == OBOr) {
				return x
			}
			return s.do(b, depth+1)
		}
		if m.single(x) {
			v := x.vars[0]
			t := m.table(x)
			if e.op == OBOr {
				t = t.not()
			}
			cv, cd := s.cv, s.cd
			nd := s.dom(v).and(t)
			if cv < 0 || cv == v {
				s.cv, s.cd = v, nd
				y = s.do(b, depth+1)
				s.cv, s.cd = cv, cd
			} else {
				y = s.do(b, depth+1)
			}
		} else {
			y = s.do(b, depth+1)
		}
		if x != a || y != b {
			if e.op == OBAnd {
				return m.t.BAnd(x, y)
			}
			return m.t.BOr(x, y)
		}
	case OIte:
		c := s.do(e.a, depth+1)
		if c.isC() {
			if c.k != 0 {
				return s.do(e.b, depth+1)
			}
			return s.do(e.c, depth+1)
		}
		x, y := s.do(e.b, depth+1), s.do(e.c, depth+1)
		if c != e.a || x != e.b || y != e.c {
			return m.t.Ite(c, x, y)
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		x, y := s.do(e.a, depth+1), s.do(e.b, depth+1)
		if x != e.a || y != e.b {
			return m.t.Cmp(e.op, x, y)
		}
	case OZext:
		if x := s.do(e.a, depth+1); x != e.a {
			return m.t.Zext(x, e.w)
		}
	case OSext:
		if x := s.do(e.a, depth+1); x != e.a {
			return m.t.Sext(x, e.w)
		}
	case OTrunc:
		if x := s.do(e.a, depth+1); x != e.a {
			return m.t.Trunc(x, e.w)
		}
	case ONot:
		if x := s.do(e.a, depth+1); x != e.a {
			return m.t.BitNot(x)
		}
	case OAdd, OMul, OUdiv, OSdiv, OUrem, OSrem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		x, y := s.do(e.a, depth+1), s.do(e.b, depth+1)
		if x != e.a || y != e.b {
			return m.t.Bin(e.op, x, y)
		}
	}
	return e
}

// addPC records a fact of the current path.
func (m *M) addPC(e *Expr) {
	var narrowed []int32
	m.addFact(e, &narrowed)
	for len(narrowed) > 0 {
		v := narrowed[0]
		narrowed = narrowed[1:]
		l := m.pcByVar[v]
		for i := 0; i < len(l); i++ {
			c := m.pc[l[i]]
			if c == nil {
				continue
			}
			n := m.simp(c)
			if n == c {
				continue
			}
			m.pc[l[i]] = nil
			delete(m.pcSet, c.id)
			m.addFact(n, &narrowed)
			l = m.pcByVar[v]
		}
		k := 0
		for _, ci := range l {
			if m.pc[ci] != nil {
				l[k] = ci
				k++
			}
		}
		m.pcByVar[v] = l[:k]
	}
}

func (m *M) addFact(e *Expr, narrowed *[]int32) {
	if e.isTrue() {
		return
	}
	switch {
	case e.op == OBAnd:
		m.addFact(e.a, narrowed)
		m.addFact(e.b, narrowed)
		return
	case e.op == OBNot && e.a.op == OBOr:
		m.addFact(m.t.BNot(e.a.a), narrowed)
		m.addFact(m.t.BNot(e.a.b), narrowed)
		return
	}
	if m.single(e) {
		v := e.vars[0]
		d := m.domain(v)
		n := d.and(m.table(e))
		if n != d {
			m.dom[v] = &n
			*narrowed = append(*narrowed, v)
		}
		return
	}
	if n := m.simp(e); n != e {
		m.addFact(n, narrowed)
		return
	}
	if m.pcSet[e.id] {
		return
	}
	m.pcSet[e.id] = true
	i := int32(len(m.pc))
	m.pc = append(m.pc, e)
	for _, v := range e.vars {
		m.pcByVar[v] = append(m.pcByVar[v], i)
	}
}

// tryModel looks for a model of pc ∧ c that differs from the current model of
// pc in one byte; failing to find one means nothing.
func (m *M) tryModel(c *Expr) []uint64 {
	budget := 160
	mod := append([]uint64(nil), m.model...)
	for _, v := range c.vars {
		if m.varW[v] > 8 || len(c.vars) > 12 {
			continue
		}
		for int(v) >= len(mod) {
			mod = append(mod, 0)
		}
		d := m.domain(v)
		if m.single(c) {
			d = d.and(m.table(c))
		}
		old := mod[v]
		n := 0
		// run starts first: they separate most conditions
		for pass := 0; pass < 2; pass++ {
			for i := uint64(0); i < 256 && budget > 0 && n < 40; i++ {
				if !d.has(i) || i == old {
					continue
				}
				if start := i == 0 || !d.has(i-1); start != (pass == 0) {
					continue
				}
				n++
				budget--
				mod[v] = i
				m.t.NewEpoch()
				m.epochOK = false
				if m.t.Eval(c, mod) == 0 {
					continue
				}
				ok := true
				for _, ci := range m.pcByVar[v] {
					if e := m.pc[ci]; e != nil && m.t.Eval(e, mod) == 0 {
						ok = false
						break
					}
				}
				if ok {
					return mod
				}
			}
		}
		mod[v] = old
	}
	return nil
}
