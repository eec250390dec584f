package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"
)

// ---- path-terminating conditions (Go panics inside the engine)

type targetPanic struct {
	v     Value // interface value
	site  string
	stack []string
}
type pathEnd struct {
	kind string // assume, exit, hang, depth, unsupported, solver, stop
	msg  string
}
type specAbort struct{}

type inputRec struct {
	Kind string `json:"kind"` // var or pick
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Var  int32  `json:"-"`
	Val  uint64 `json:"val"`
}

type undoRec struct {
	o   *Obj
	off int
	v   Value
}
type undoMap struct {
	m    *MapObj
	copy MapObj
}

type noteRec struct {
	label string
	v     Value
}

// M is one worker's machine.
type M struct {
	p      *Prog
	t      *Terms
	s      *Solver
	e      *Explorer
	id     int
	glob   []*Obj
	inited map[string]bool
	ready  bool

	stk   []Value
	sp    int
	depth int

	// path state
	steps    int64
	limit    int64
	prefix   []byte
	trace    []byte
	model    []uint64
	epochOK  bool
	varW     []uint8
	varE     []*Expr
	pc       []*Expr
	pcByVar  map[int32][]int32
	pcSet    map[int32]bool
	inputs   []inputRec
	notes    []noteRec
	obs      []noteRec
	tags     []string
	covers   map[string]bool
	asserts  int
	mapOrder bool
	mapSet   bool // some order was left open
	mapLeft  int  // how many loops over tables may still be put in any order
	undo     []undoRec
	undoM    []undoMap
	logging  bool
	spec     int32
	specGen  int32
	maxDepth int
	files    map[string]bool
	top      *frame
	incompl  bool
	concr    int
	natState map[string]any
	// statistics
	forkSites  map[string]int
	fnHit      map[*Fn]bool
	totalSteps int64
	branches   int64
	merged     int64
	domQ       int64
	probeQ     int64
	confirmQ   int64
	confirmed  map[string]bool
	dom        map[int32]*bset
	tt         map[[2]uint64]bset
	domT       map[domKey]*Expr
	tainted    bool
}

type frame struct {
	fn     *Fn
	regs   []Value
	bind   []Value
	defers []deferred
	pan    *targetPanic
	caller *frame
	pos    int32
	res    Value
}
type deferred struct {
	fn   *Closure
	args []Value
}

func (m *M) fail(kind, format string, a ...any) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(pathEnd{kind, fmt.Sprintf(format, a...)})
}
func (m *M) unsup(format string, a ...any) {
	m.fail("unsupported", format+" at "+m.where(), a...)
}

func (m *M) where() string {
	var s []string
	for f, n := m.top, 0; f != nil && n < 6; f, n = f.caller, n+1 {
		s = append(s, f.fn.name)
	}
	return strings.Join(s, " < ")
}

func (m *M) stackNames() []string {
	var s []string
	for f, n := m.top, 0; f != nil && n < 40; f, n = f.caller, n+1 {
		s = append(s, f.fn.name)
	}
	return s
}

// ---- symbolic scalars

func (m *M) ex(v Value, w uint8) *Expr {
	switch e := v.P.(type) {
	case nil:
		return m.t.Const(v.N, w)
	case *Expr:
		if e.w != w {
			panic(fmt.Sprintf("ex: width %d want %d", e.w, w))
		}
		return e
	}
	m.unsup("scalar expected, got %T", v.P)
	return nil
}

func ev(e *Expr) Value {
	if e.op == OConst {
		return Value{N: e.k}
	}
	return Value{P: e}
}

func (m *M) eval(e *Expr) uint64 {
	if !m.epochOK {
		m.t.NewEpoch()
		m.epochOK = true
	}
	return m.t.Eval(e, m.model)
}

func (m *M) evalV(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	return m.eval(v.P.(*Expr))
}

func (m *M) evalStr(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(m.evalV(s.b[i]))
		}
		return string(b)
	}
	return fmt.Sprintf("?%T", v.P)
}

func (m *M) setModel(mod []uint64) {
	m.model = mod
	m.epochOK = false
}

func (m *M) newVar(name string, w uint8, init uint64) *Expr {
	i := int32(len(m.varW))
	m.varW = append(m.varW, w)
	e := m.t.Var(i, w)
	m.varE = append(m.varE, e)
	for int32(len(m.model)) <= i {
		m.model = append(m.model, 0)
		if int32(len(m.model)) == i+1 {
			m.model[i] = init
		}
	}
	m.epochOK = false
	m.inputs = append(m.inputs, inputRec{Kind: "var", Name: name, W: w, Var: i})
	return e
}

// query decides pc ∧ c, on the slice of pc connected to c's variables.
func (m *M) query(c *Expr) (int, []uint64) { return m.ask(c, false) }

// ask with force always puts the question to the solver.
func (m *M) ask(c *Expr, force bool) (int, []uint64) {
	if c.isFalse() {
		return 0, nil
	}
	if c.isTrue() {
		return 1, m.model
	}
	if !force && m.single(c) && len(m.pcByVar[c.vars[0]]) == 0 {
		v := c.vars[0]
		d := m.domain(v).and(m.table(c))
		m.domQ++
		if d.empty() {
			m.refuted(c)
			return 0, nil
		}
		mod := append([]uint64(nil), m.model...)
		for int(v) >= len(mod) {
			mod = append(mod, 0)
		}
		mod[v] = d.pick(mod[v])
		return 1, mod
	}
	if !force {
		if mod := m.tryModel(c); mod != nil {
			m.probeQ++
			return 1, mod
		}
	}
	inC := map[int32]bool{}
	inV := map[int32]bool{}
	var work []int32
	addV := func(vs []int32) {
		for _, v := range vs {
			if !inV[v] {
				inV[v] = true
				work = append(work, v)
			}
		}
	}
	addV(c.vars)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ci := range m.pcByVar[v] {
			if m.pc[ci] != nil && !inC[ci] {
				inC[ci] = true
				addV(m.pc[ci].vars)
			}
		}
	}
	vars := make([]*Expr, 0, len(inV))
	for v := range inV {
		vars = append(vars, m.varE[v])
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].k < vars[j].k })
	rank := make(map[int32]byte, len(vars))
	for i, v := range vars {
		rank[int32(v.k)] = byte(i)
	}
	conj := make([]*Expr, 0, len(inC)+len(vars)+1)
	keys := make([]string, 0, len(inC)+len(vars)+1)
	add := func(e *Expr) {
		conj = append(conj, e)
		kb := make([]byte, 16, 17+len(e.vars))
		binary.LittleEndian.PutUint64(kb, e.sh[0])
		binary.LittleEndian.PutUint64(kb[8:], e.sh[1])
		kb = append(kb, byte(len(e.vars)))
		for _, v := range e.vars {
			kb = append(kb, rank[v])
		}
		keys = append(keys, string(kb))
	}
	for ci := range inC {
		add(m.pc[ci])
	}
	add(c)
	for _, v := range vars {
		i := int32(v.k)
		if d := m.dom[i]; d != nil {
			conj = append(conj, m.domTerm(i, *d))
			kb := make([]byte, 34)
			kb[0] = 0xdd
			kb[1] = rank[i]
			for j := 0; j < 4; j++ {
				binary.LittleEndian.PutUint64(kb[2+8*j:], d[j])
			}
			keys = append(keys, string(kb))
		}
	}
	sort.Strings(keys)
	key := strings.Join(keys, "")
	if len(vars) > 250 {
		key = "" // not cached
	}
	if dbgOn && cacheGet(key) == nil {
		dbgQ(m, conj, vars)
	}
	if time.Now().After(m.e.deadline) {
		m.unsup("out of time")
	}
	q0 := time.Now()
	r := m.s.Check(conj, key, vars)
	if dbgOn && time.Since(q0) > time.Second/2 {
		fmt.Printf("SLOW %.1fs vars %d conj %d %s\n", time.Since(q0).Seconds(), len(vars), len(conj), m.where())
	}
	if r.sat == 1 {
		mod := append([]uint64(nil), m.model...)
		for v, x := range r.model {
			for int(v) >= len(mod) {
				mod = append(mod, 0)
			}
			mod[v] = x
		}
		return 1, mod
	}
	if r.sat < 0 {
		m.incompl = true
		m.e.noteUnknown()
	}
	return r.sat, nil
}

const forcedBit = 0x80

// branch decides a symbolic condition on this path; the other feasible side
// is queued.
func (m *M) branch(c *Expr) bool {
	if c.isC() {
		return c.k != 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if i := len(m.trace); i < len(m.prefix) {
		d := m.prefix[i]
		m.trace = append(m.trace, d)
		v := d&1 == 1
		if d&forcedBit == 0 {
			if v {
				m.addPC(c)
			} else {
				m.addPC(m.t.BNot(c))
			}
		}
		return v
	}
	m.branches++
	v := m.eval(c) != 0
	if s := m.simp(c); s.isC() {
		m.trace = append(m.trace, forcedBit|byte(s.k))
		m.domQ++
		m.refute(c, s.k != 0)
		return s.k != 0
	} else {
		c = s
	}
	other := c
	this := m.t.BNot(c)
	if v {
		other, this = this, other
	}
	var d byte
	if v {
		d = 1
	}
	sat, mod := m.query(other)
	if sat == 1 {
		if m.forkSites != nil {
			m.forkSites[m.where()]++
		}
		pre := make([]byte, len(m.trace)+1)
		copy(pre, m.trace)
		pre[len(m.trace)] = d ^ 1
		m.e.push(item{pre, mod})
		m.trace = append(m.trace, d)
		m.addPC(this)
	} else {
		m.trace = append(m.trace, d|forcedBit)
	}
	return v
}

func (m *M) branchV(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return m.branch(v.P.(*Expr))
}

// pick splits on the value of a new variable below n.
func (m *M) pick(name string, n int) int {
	if n <= 1 || n > 255 {
		return m.choose(n)
	}
	e := m.newVar(name, 8, 0)
	m.inputs = m.inputs[:len(m.inputs)-1]
	m.addPC(m.t.Cmp(OUlt, e, m.t.Const(uint64(n), 8)))
	for k := 0; k < n; k++ { // the solver confirms that there is no further value
		if m.branch(m.t.Cmp(OEq, e, m.t.Const(uint64(k), 8))) {
			return k
		}
	}
	panic("pick")
}

// refute is refuted for the side of c that v does not take.
func (m *M) refute(c *Expr, v bool) {
	if v {
		c = m.t.BNot(c)
	}
	m.refuted(c)
}

// refuted has the solver confirm that c is false on this path, which the
// domains of its variables have decided.
func (m *M) refuted(c *Expr) {
	if len(c.vars) == 0 || m.spec > 0 && len(c.vars) > 1 {
		return
	}
	var key string
	kb := make([]byte, 0, 17+33*len(c.vars))
	kb = binary.LittleEndian.AppendUint64(kb, c.sh[0])
	kb = binary.LittleEndian.AppendUint64(kb, c.sh[1])
	for _, v := range c.vars {
		if m.varW[v] <= 8 {
			d := m.domain(v)
			for j := 0; j < 4; j++ {
				kb = binary.LittleEndian.AppendUint64(kb, d[j])
			}
		}
	}
	key = string(kb)
	if m.confirmed[key] {
		return
	}
	conj := []*Expr{c}
	var vars []*Expr
	for _, v := range c.vars {
		vars = append(vars, m.varE[v])
		if m.dom[v] != nil {
			conj = append(conj, m.domTerm(v, *m.dom[v]))
		}
	}
	r := m.s.Check(conj, "dom"+key, vars)
	m.confirmQ++
	if r.sat == 1 {
		panic("the domains and the solver disagree")
	}
	if r.sat < 0 {
		m.incompl = true
		m.e.noteUnknown()
	}
	if len(m.confirmed) > 200000 {
		m.confirmed = map[string]bool{}
	}
	m.confirmed[key] = true
}

// choose is an explicit n-way choice (every alternative explored).
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if n > 120 { // a decision is one byte: two of them
		hi := m.choose((n + 119) / 120)
		k := 120
		if n-hi*120 < k {
			k = n - hi*120
		}
		return hi*120 + m.choose(k)
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if i := len(m.trace); i < len(m.prefix) {
		d := m.prefix[i]
		m.trace = append(m.trace, d)
		return int(d)
	}
	for k := n - 1; k >= 1; k-- {
		pre := make([]byte, len(m.trace)+1)
		copy(pre, m.trace)
		pre[len(m.trace)] = byte(k)
		m.e.push(item{pre, append([]uint64(nil), m.model...)})
	}
	m.trace = append(m.trace, 0)
	return 0
}

func (m *M) assume(v Value) {
	if v.P == nil {
		if v.N == 0 {
			m.fail("assume", "")
		}
		return
	}
	c := v.P.(*Expr)
	if m.eval(c) == 0 {
		sat, mod := m.query(c)
		if sat != 1 {
			m.fail("assume", "")
		}
		m.setModel(mod)
	}
	m.addPC(c)
}

// concretize forks over every feasible value of v.
func (m *M) concretize(v Value, w uint8) uint64 {
	if v.P == nil {
		return v.N
	}
	e, ok := v.P.(*Expr)
	if !ok {
		m.unsup("concretize %T", v.P)
	}
	m.concr++
	for n := 0; ; n++ {
		// the probed value must be reproducible on replay: recorded in the
		// trace as the branch structure, so it is derived from the model
		// only at new decisions and stored in the prefix otherwise.
		k := m.probe(e)
		if m.branch(m.t.Cmp(OEq, e, m.t.Const(k, w))) {
			return k
		}
		if n > 100000 {
			m.unsup("concretize: too many values")
		}
	}
}

// probe picks a candidate value of e that is stored in the decision trace
// (8 bytes) so that replays see the same one.
func (m *M) probe(e *Expr) uint64 {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if i := len(m.trace); i < len(m.prefix) {
		var k uint64
		for j := 0; j < 8; j++ {
			k |= uint64(m.prefix[i+j]) << (8 * j)
		}
		m.trace = append(m.trace, m.prefix[i:i+8]...)
		return k
	}
	k := m.eval(e)
	for j := 0; j < 8; j++ {
		m.trace = append(m.trace, byte(k>>(8*j)))
	}
	return k
}

func (m *M) concStr(v Value) string {
	s, ok := v.P.(*SStr)
	if !ok {
		r, _ := isConcStr(v)
		return r
	}
	b := make([]byte, len(s.b))
	for i := range s.b {
		b[i] = byte(m.concretize(s.b[i], 8))
	}
	return string(b)
}

// ---- memory

func newObj(n int) *Obj { return &Obj{s: make([]Value, n)} }

func (m *M) alloc(n int) *Obj {
	o := &Obj{s: make([]Value, n), base: !m.logging}
	if m.spec > 0 {
		o.spec = m.specGen
	}
	return o
}

func (m *M) touch(o *Obj, off, n int) {
	if m.spec > 0 && o.spec != m.specGen {
		panic(specAbort{})
	}
	if o.base && m.logging {
		for i := 0; i < n; i++ {
			m.undo = append(m.undo, undoRec{o, off + i, o.s[off+i]})
		}
	}
}

func (m *M) touchMap(mo *MapObj) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if mo.base && m.logging && !mo.touched {
		mo.touched = true
		c := *mo
		c.keys = append([]Value(nil), mo.keys...)
		c.vals = append([]Value(nil), mo.vals...)
		c.live = append([]bool(nil), mo.live...)
		c.idx = make(map[any]int, len(mo.idx))
		for k, v := range mo.idx {
			c.idx[k] = v
		}
		c.touched = false
		m.undoM = append(m.undoM, undoMap{mo, c})
	}
}

func (m *M) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		u.o.s[u.off] = u.v
	}
	m.undo = m.undo[:0]
	for i := len(m.undoM) - 1; i >= 0; i-- {
		*m.undoM[i].m = m.undoM[i].copy
	}
	m.undoM = m.undoM[:0]
}

func aggOf(v Value) []Value {
	if v.P == nil {
		return nil
	}
	return v.P.(*Agg).v
}

func (m *M) loadAt(o *Obj, off int, t *Type) Value {
	if !t.isAgg() {
		return o.s[off]
	}
	c := make([]Value, t.size)
	copy(c, o.s[off:off+t.size])
	return Value{P: &Agg{c}}
}

func (m *M) storeAt(o *Obj, off int, v Value, t *Type) {
	if !t.isAgg() {
		m.touch(o, off, 1)
		o.s[off] = v
		return
	}
	m.touch(o, off, t.size)
	if v.P == nil {
		for i := 0; i < t.size; i++ {
			o.s[off+i] = Value{}
		}
		return
	}
	copy(o.s[off:off+t.size], v.P.(*Agg).v)
}

func (m *M) resolveSym(sp *SymPtr) (o *Obj, off int) {
	k := m.concretize(Value{P: sp.idx}, 64)
	return sp.o, sp.base + int(k)*sp.stride + sp.fieldOff
}

func (m *M) load(fr *frame, p Value, t *Type) Value {
	switch o := p.P.(type) {
	case *Obj:
		return m.loadAt(o, int(p.N), t)
	case *SymPtr:
		if v, ok := m.symLoad(o, t); ok {
			return v
		}
		ob, off := m.resolveSym(o)
		return m.loadAt(ob, off, t)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsup("load through %T", p.P)
	return Value{}
}

func (m *M) symLoad(sp *SymPtr, t *Type) (Value, bool) {
	if !t.isAgg() {
		if t.kind != KInt && t.kind != KBool {
			return Value{}, false
		}
		return m.symSlot(sp, 0, t.w), true
	}
	var ws []uint8
	if !scalarSlots(t, &ws) {
		return Value{}, false
	}
	r := make([]Value, t.size)
	for i := range r {
		r[i] = m.symSlot(sp, i, ws[i])
	}
	return Value{P: &Agg{r}}, true
}

func scalarSlots(t *Type, ws *[]uint8) bool {
	switch t.kind {
	case KInt, KBool:
		*ws = append(*ws, t.w)
		return true
	case KStruct, KTuple:
		for _, f := range t.fields {
			if !scalarSlots(f, ws) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !scalarSlots(t.elem, ws) {
				return false
			}
		}
		return true
	}
	return false
}

// symSlot reads slot d of the element selected by a symbolic index, as a
// balanced decision tree over runs of equal elements.
func (m *M) symSlot(sp *SymPtr, d int, w uint8) Value {
	get := func(i int) Value { return sp.o.s[sp.base+i*sp.stride+sp.fieldOff+d] }
	return m.tableRead(get, sp.n, sp.idx, w)
}

func (m *M) tableRead(get func(int) Value, n int, idx *Expr, w uint8) Value {
	type run struct {
		lo int
		v  Value
	}
	var runs []run
	for i := 0; i < n; i++ {
		v := get(i)
		if len(runs) > 0 && runs[len(runs)-1].v == v {
			continue
		}
		runs = append(runs, run{i, v})
	}
	t := m.t
	// narrow the index
	ix := idx
	for ix.op == OZext {
		ix = ix.a
	}
	var build func(lo, hi int) *Expr
	build = func(lo, hi int) *Expr {
		if hi-lo == 1 {
			return m.ex(runs[lo].v, w)
		}
		mid := (lo + hi) / 2
		k := uint64(runs[mid].lo)
		if ix.w < 64 && k > mask(ix.w) {
			return build(lo, mid)
		}
		return t.Ite(t.Cmp(OUlt, ix, t.Const(k, ix.w)), build(lo, mid), build(mid, hi))
	}
	return ev(build(0, len(runs)))
}

func (m *M) store(fr *frame, p Value, v Value, t *Type) {
	switch o := p.P.(type) {
	case *Obj:
		m.storeAt(o, int(p.N), v, t)
		return
	case *SymPtr:
		if (t.kind == KInt || t.kind == KBool) && o.n <= 64 {
			ve := m.ex(v, t.w)
			for i := 0; i < o.n; i++ {
				off := o.base + i*o.stride + o.fieldOff
				c := m.t.Cmp(OEq, o.idx, m.t.Const(uint64(i), 64))
				if c.isFalse() {
					continue
				}
				m.touch(o.o, off, 1)
				o.o.s[off] = ev(m.t.Ite(c, ve, m.ex(o.o.s[off], t.w)))
			}
			return
		}
		ob, off := m.resolveSym(o)
		m.storeAt(ob, off, v, t)
		return
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsup("store through %T", p.P)
}

// ---- target panics

func (m *M) rtPanic(format string, a ...any) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	v := Value{P: &Iface{m.p.tRuntimeErr, sv(msg)}}
	m.doPanic(v)
}

func (m *M) doPanic(v Value) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{v: v, stack: m.stackNames()})
}

// ---- equality

func (m *M) eqStr(a, b Value) Value {
	if x, ok := isConcStr(a); ok {
		if y, ok := isConcStr(b); ok {
			return Value{N: b2u(x == y)}
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return Value{}
	}
	r := m.t.True
	// concrete mismatches first
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.P == nil && y.P == nil && x.N != y.N {
			return Value{}
		}
	}
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x == y {
			continue
		}
		r = m.t.BAnd(r, m.t.Cmp(OEq, m.ex(x, 8), m.ex(y, 8)))
		if r.isFalse() {
			break
		}
	}
	return ev(r)
}

// ltStr: a<b (or a<=b when eq).
func (m *M) ltStr(a, b Value, orEq bool) Value {
	if x, ok := isConcStr(a); ok {
		if y, ok := isConcStr(b); ok {
			if orEq {
				return Value{N: b2u(x <= y)}
			}
			return Value{N: b2u(x < y)}
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	var r *Expr
	if orEq {
		r = m.t.Bool(la <= lb)
	} else {
		r = m.t.Bool(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.ex(strAt(a, i), 8), m.ex(strAt(b, i), 8)
		r = m.t.Ite(m.t.Cmp(OEq, x, y), r, m.t.Cmp(OUlt, x, y))
	}
	return ev(r)
}

func (m *M) and(a, b Value) Value {
	if a.P == nil {
		if a.N == 0 {
			return a
		}
		return b
	}
	if b.P == nil {
		if b.N == 0 {
			return b
		}
		return a
	}
	return ev(m.t.BAnd(a.P.(*Expr), b.P.(*Expr)))
}

func (m *M) not(a Value) Value {
	if a.P == nil {
		return Value{N: 1 - a.N}
	}
	return ev(m.t.BNot(a.P.(*Expr)))
}

func (m *M) eqVal(a, b Value, t *Type) Value {
	switch t.kind {
	case KBool, KInt:
		if a.P == nil && b.P == nil {
			return Value{N: b2u(a.N == b.N)}
		}
		if a == b {
			return Value{N: 1}
		}
		if sp, ok := a.P.(*Obj); ok { // uintptr-typed pointers
			_ = sp
			return Value{N: b2u(a == b)}
		}
		return ev(m.t.Cmp(OEq, m.ex(a, t.w), m.ex(b, t.w)))
	case KFloat:
		return Value{N: b2u(m.toF(a) == m.toF(b))}
	case KString:
		return m.eqStr(a, b)
	case KPtr, KUnsafe, KChan:
		if sp, ok := a.P.(*SymPtr); ok {
			o, off := m.resolveSym(sp)
			a = Value{P: o, N: uint64(off)}
		}
		if sp, ok := b.P.(*SymPtr); ok {
			o, off := m.resolveSym(sp)
			b = Value{P: o, N: uint64(off)}
		}
		return Value{N: b2u(a == b)}
	case KMap, KSlice, KFunc:
		return Value{N: b2u((a.P == nil) == (b.P == nil) && (a.P == nil || a.P == b.P))}
	case KIface:
		if a.P == nil || b.P == nil {
			return Value{N: b2u(a.P == nil && b.P == nil)}
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return Value{}
		}
		switch x.t.kind {
		case KMap, KSlice, KFunc:
			m.rtPanic("comparing uncomparable type %s", x.t.name())
		}
		return m.eqVal(x.v, y.v, x.t)
	case KStruct:
		r := Value{N: 1}
		x, y := aggOf(a), aggOf(b)
		for i, f := range t.fields {
			r = m.and(r, m.eqVal(m.sub(x, t.foff[i], f), m.sub(y, t.foff[i], f), f))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case KArray:
		r := Value{N: 1}
		x, y := aggOf(a), aggOf(b)
		for i := 0; i < t.n; i++ {
			r = m.and(r, m.eqVal(m.sub(x, i*t.elem.size, t.elem), m.sub(y, i*t.elem.size, t.elem), t.elem))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	}
	m.unsup("eq on %s", t.name())
	return Value{}
}

// sub extracts a field value from flattened aggregate slots.
func (m *M) sub(v []Value, off int, t *Type) Value {
	if !t.isAgg() {
		if v == nil {
			return Value{}
		}
		return v[off]
	}
	if v == nil {
		return Value{}
	}
	return Value{P: &Agg{v[off : off+t.size : off+t.size]}}
}

// flat appends the slots of v.
func flat(dst []Value, v Value, t *Type) []Value {
	if !t.isAgg() {
		return append(dst, v)
	}
	if v.P == nil {
		for i := 0; i < t.size; i++ {
			dst = append(dst, Value{})
		}
		return dst
	}
	return append(dst, v.P.(*Agg).v...)
}

// ---- maps

func (m *M) newMap() *MapObj {
	return &MapObj{idx: map[any]int{}, base: !m.logging}
}

// mapFind returns the index of key k, forking on symbolic equality.
func (m *M) mapFind(mo *MapObj, k Value, kt *Type) int {
	ck, conc := concKey(k, kt)
	if conc {
		if i, ok := mo.idx[ck]; ok {
			return i
		}
		if mo.nsym == 0 {
			return -1
		}
	}
	for i := range mo.keys {
		if !mo.live[i] {
			continue
		}
		if conc {
			if _, c2 := concKey(mo.keys[i], kt); c2 {
				continue
			}
		}
		if m.branchV(m.eqVal(mo.keys[i], k, kt)) {
			return i
		}
	}
	return -1
}

func (m *M) mapLookup(mo *MapObj, k Value, kt, et *Type) (Value, Value) {
	if mo == nil || mo.nlive == 0 {
		m.hashable(k, kt)
		return Value{}, Value{}
	}
	m.hashable(k, kt)
	_, conc := concKey(k, kt)
	if (!conc || mo.nsym > 0) && (et.kind == KInt || et.kind == KBool || et.size == 0) {
		// merge: no fork
		if conc {
			ck, _ := concKey(k, kt)
			if i, ok := mo.idx[ck]; ok {
				return mo.vals[i], Value{N: 1}
			}
		}
		ok := m.t.False
		var val *Expr
		if et.size > 0 {
			val = m.t.Const(0, et.w)
		}
		for i := range mo.keys {
			if !mo.live[i] {
				continue
			}
			e := m.eqVal(mo.keys[i], k, kt)
			if e.P == nil && e.N == 0 {
				continue
			}
			c := m.ex(e, 1)
			ok = m.t.BOr(ok, c)
			if val != nil {
				val = m.t.Ite(c, m.ex(mo.vals[i], et.w), val)
			}
		}
		if val == nil {
			return Value{}, ev(ok)
		}
		return ev(val), ev(ok)
	}
	i := m.mapFind(mo, k, kt)
	if i < 0 {
		return Value{}, Value{}
	}
	return mo.vals[i], Value{N: 1}
}

func (m *M) hashable(k Value, kt *Type) {
	if kt.kind == KIface && k.P != nil {
		switch k.P.(*Iface).t.kind {
		case KMap, KSlice, KFunc:
			m.rtPanic("hash of unhashable type %s", k.P.(*Iface).t.name())
		}
	}
}

func (m *M) mapUpdate(mo *MapObj, k, v Value, kt *Type) {
	if mo == nil {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.doPanic(Value{P: &Iface{m.p.tRuntimeErr, sv("assignment to entry in nil map")}})
	}
	m.hashable(k, kt)
	i := m.mapFind(mo, k, kt)
	m.touchMap(mo)
	if i >= 0 {
		mo.vals[i] = v
		return
	}
	ck, conc := concKey(k, kt)
	if conc {
		mo.idx[ck] = len(mo.keys)
	} else {
		mo.nsym++
	}
	mo.keys = append(mo.keys, k)
	mo.vals = append(mo.vals, v)
	mo.live = append(mo.live, true)
	mo.nlive++
}

func (m *M) mapDelete(mo *MapObj, k Value, kt *Type) {
	if mo == nil {
		return
	}
	i := m.mapFind(mo, k, kt)
	if i < 0 {
		return
	}
	m.touchMap(mo)
	mo.live[i] = false
	mo.nlive--
	if ck, conc := concKey(mo.keys[i], kt); conc {
		delete(mo.idx, ck)
	} else {
		mo.nsym--
	}
	mo.keys[i] = Value{}
	mo.vals[i] = Value{}
}

func (m *M) global(i uint64) *Obj {
	if i >= uint64(len(m.glob)) {
		m.ensureGlobals()
	}
	return m.glob[i]
}
