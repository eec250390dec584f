package main

import "fmt"

type violation struct {
	Harness string      `json:"harness"`
	Label   string      `json:"label"`
	Tags    []string    `json:"tags,omitempty"`
	Detail  string      `json:"detail"`
	Kind    string      `json:"kind"` // assert, panic, hang, depth
	Inputs  []inputRec  `json:"inputs"`
	Notes   [][2]string `json:"notes"`
	Stack   []string    `json:"stack,omitempty"`
	Order   bool        `json:"map_order,omitempty"`
}

func (m *M) symByte(name string, set string) Value {
	if set == "" {
		return Value{P: m.newVar(name, 8, 0)}
	}
	e := m.newVar(name, 8, uint64(set[0]))
	m.addPC(m.inSet(e, set))
	return Value{P: e}
}

func (m *M) inSet(e *Expr, set string) *Expr {
	var has [257]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	r := m.t.False
	for i := 0; i < 256; {
		if !has[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && has[j+1] {
			j++
		}
		var c *Expr
		if i == j {
			c = m.t.Cmp(OEq, e, m.t.Const(uint64(i), 8))
		} else {
			c = m.t.BAnd(m.t.Cmp(OUle, m.t.Const(uint64(i), 8), e), m.t.Cmp(OUle, e, m.t.Const(uint64(j), 8)))
		}
		r = m.t.BOr(r, c)
		i = j + 1
	}
	return r
}

func (m *M) record(kind, label, detail string, model []uint64, stack []string) {
	save := m.model
	m.setModel(model)
	v := &violation{Label: label, Kind: kind, Detail: detail, Tags: append([]string(nil), m.tags...), Stack: stack, Order: m.mapSet}
	v.Inputs = m.inputVals()
	for _, n := range m.notes {
		v.Notes = append(v.Notes, [2]string{n.label, m.evalStr(n.v)})
	}
	m.setModel(save)
	m.e.violation(v)
}

func (m *M) inputVals() []inputRec {
	r := append([]inputRec(nil), m.inputs...)
	for i := range r {
		if r[i].Kind == "var" {
			r[i].Val = m.eval(m.varE[r[i].Var])
		}
	}
	return r
}

func (m *M) assert(c Value, label string) {
	m.asserts++
	if c.P == nil {
		if c.N == 0 {
			m.record("assert", label, "", m.model, nil)
			m.fail("violated", "%s", label)
		}
		m.e.assertDone(label, false)
		return
	}
	e := c.P.(*Expr)
	neg := m.t.BNot(e)
	if m.eval(e) == 0 {
		m.record("assert", label, "", m.model, nil)
	} else {
		sat, mod := m.ask(neg, true)
		if sat == 1 {
			m.record("assert", label, "", mod, nil)
		} else if sat == 0 {
			m.e.assertDone(label, true)
			return
		} else {
			return
		}
	}
	// continue on the side where it holds, if any
	m.assume(c)
}

func addSymHooks(h map[string]intrinsic) {
	s := func(name string, f intrinsic) { h[symPkg+"."+name] = f }
	s("Byte", func(m *M, _ *frame, a []Value) Value { return m.symByte(m.concStr(a[0]), "") })
	s("ByteOf", func(m *M, _ *frame, a []Value) Value { return m.symByte(m.concStr(a[0]), m.concStr(a[1])) })
	s("Int", func(m *M, _ *frame, a []Value) Value { return Value{P: m.newVar(m.concStr(a[0]), 64, 0)} })
	s("Uint32", func(m *M, _ *frame, a []Value) Value { return Value{P: m.newVar(m.concStr(a[0]), 32, 0)} })
	s("Bool", func(m *M, _ *frame, a []Value) Value { return Value{P: m.newVar(m.concStr(a[0]), 1, 0)} })
	s("Pick", func(m *M, _ *frame, a []Value) Value {
		n := int(m.concretize(a[1], 64))
		k := m.pick(m.concStr(a[0]), n)
		m.inputs = append(m.inputs, inputRec{Kind: "pick", Name: m.concStr(a[0]), W: 64, Val: uint64(k)})
		return Value{N: uint64(k)}
	})
	s("Choose", func(m *M, _ *frame, a []Value) Value {
		n := m.concretize(a[1], 64)
		e := m.newVar(m.concStr(a[0]), 8, 0)
		m.addPC(m.t.Cmp(OUlt, e, m.t.Const(n, 8)))
		return Value{P: m.t.Zext(e, 64)}
	})
	s("Str", func(m *M, _ *frame, a []Value) Value {
		n := int(m.concretize(a[1], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = m.symByte(fmt.Sprintf("%s[%d]", m.concStr(a[0]), i), "")
		}
		return mkStr(b)
	})
	s("StrOf", func(m *M, _ *frame, a []Value) Value {
		n := int(m.concretize(a[1], 64))
		set := m.concStr(a[2])
		b := make([]Value, n)
		for i := range b {
			b[i] = m.symByte(fmt.Sprintf("%s[%d]", m.concStr(a[0]), i), set)
		}
		return mkStr(b)
	})
	s("Assume", func(m *M, _ *frame, a []Value) Value { m.assume(a[0]); return Value{} })
	s("Assert", func(m *M, _ *frame, a []Value) Value { m.assert(a[0], m.concStr(a[1])); return Value{} })
	s("Cover", func(m *M, _ *frame, a []Value) Value { m.covers[m.concStr(a[0])] = true; return Value{} })
	s("Note", func(m *M, _ *frame, a []Value) Value {
		m.notes = append(m.notes, noteRec{m.concStr(a[0]), a[1]})
		return Value{}
	})
	s("Observe", func(m *M, _ *frame, a []Value) Value {
		m.obs = append(m.obs, noteRec{m.concStr(a[0]), a[1]})
		return Value{}
	})
	s("Thorough", func(m *M, _ *frame, a []Value) Value { return bv(m.e.thorough) })
	s("Symbolic", func(m *M, _ *frame, a []Value) Value { return bv(true) })
	s("Known", func(m *M, _ *frame, a []Value) Value {
		if m.branchV(a[1]) {
			m.tags = append(m.tags, m.concStr(a[0]))
		}
		return Value{}
	})
	s("MapOrder", func(m *M, _ *frame, a []Value) Value {
		m.mapOrder = a[0].N != 0
		m.mapSet = m.mapSet || m.mapOrder
		return Value{}
	})
	s("MapOrders", func(m *M, _ *frame, a []Value) Value {
		m.mapLeft = int(a[0].N)
		m.mapSet = m.mapSet || m.mapLeft > 0
		return Value{}
	})
	s("Concrete", func(m *M, _ *frame, a []Value) Value { return sv(m.concStr(a[0])) })
	s("Value", func(m *M, _ *frame, a []Value) Value { return Value{N: m.concretize(a[0], 64)} })
	s("IsConcrete", func(m *M, _ *frame, a []Value) Value { _, ok := isConcStr(a[0]); return bv(ok) })
	s("Dir", func(m *M, _ *frame, a []Value) Value { return sv("/w") })
	vararg := func(f func(m *M, xs []Value) Value) intrinsic {
		return func(m *M, _ *frame, a []Value) Value { return f(m, m.bytesOf(a[0])) }
	}
	s("And", vararg(func(m *M, xs []Value) Value {
		r := Value{N: 1}
		for _, x := range xs {
			r = m.and(r, x)
		}
		return r
	}))
	s("Or", vararg(func(m *M, xs []Value) Value {
		r := Value{N: 1}
		for _, x := range xs {
			r = m.and(r, m.not(x))
		}
		return m.not(r)
	}))
	s("Not", func(m *M, _ *frame, a []Value) Value { return m.not(a[0]) })
	s("In", func(m *M, _ *frame, a []Value) Value { return ev(m.inSet(m.ex(a[0], 8), m.concStr(a[1]))) })
	s("Eq", func(m *M, _ *frame, a []Value) Value { return m.eqStr(a[0], a[1]) })
}
