package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	prefix []byte
	model  []uint64
}

type labelStat struct {
	Total, Symbolic int64
}

type Explorer struct {
	p        *Prog
	fn       *ssa.Function
	pkg      *ssa.Package
	name     string
	thorough bool
	known    func(v *violation) string

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []item
	active int
	done   bool

	deadline time.Time
	maxPaths int64
	stepLim  int64
	maxDepth int

	Paths        int64
	Infeasible   int64
	Ends         map[string]int64
	Unsup        map[string]int64
	Covers       map[string]int64
	Labels       map[string]*labelStat
	Viol         []*violation
	violKey      map[string]int
	KnownHit     map[string]int64
	Unknown      int64
	Steps        int64
	Branches     int64
	Merged       int64
	Queries      int64
	CacheHits    int64
	SatQ, UnsatQ int64
	SolverTime   time.Duration
	Funcs        map[string]bool
	MaxTrace     int
	Concretized  int64
	samples      []sample
	seed         uint64
	Timeout      bool
	Fatal        string
	forks        map[string]int
	stopOnViol   bool
	workers      int
	solverBin    []string
	stopped      bool
}

type sample struct {
	Inputs []inputRec
	Obs    [][2]string
	Notes  [][2]string
	Steps  int64
}

func (e *Explorer) push(it item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) noteUnknown() {
	e.mu.Lock()
	e.Unknown++
	e.mu.Unlock()
}

func (e *Explorer) assertDone(label string, symbolic bool) {
	e.mu.Lock()
	l := e.Labels[label]
	if l == nil {
		l = &labelStat{}
		e.Labels[label] = l
	}
	l.Total++
	if symbolic {
		l.Symbolic++
	}
	e.mu.Unlock()
}

func (e *Explorer) violation(v *violation) {
	v.Harness = e.name
	e.mu.Lock()
	defer e.mu.Unlock()
	if k := e.known(v); k != "" {
		e.KnownHit[k]++
		if e.KnownHit[k] > 1 {
			return
		}
		e.Viol = append(e.Viol, v)
		return
	}
	key := v.Kind + "|" + v.Label + "|" + strings.Join(v.Tags, ",")
	e.violKey[key]++
	if e.violKey[key] <= 3 {
		e.Viol = append(e.Viol, v)
	}
	if e.stopOnViol {
		n := 0
		for _, c := range e.violKey {
			n += c
		}
		if n >= 12 || len(e.violKey) >= 4 {
			e.done = true
			e.stopped = true
			e.cond.Broadcast()
		}
	}
}

func (e *Explorer) next() (item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.done {
			return item{}, false
		}
		if n := len(e.queue); n > 0 {
			it := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.done = true
			e.cond.Broadcast()
			return item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish() {
	e.mu.Lock()
	e.active--
	if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.Paths >= e.maxPaths) {
		if len(e.queue) > 0 || e.active > 0 {
			e.Timeout = true
		}
		e.done = true
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) newMachine(id int) *M {
	t := NewTerms()
	m := &M{p: e.p, t: t, s: NewSolver(t, e.solverBin), e: e, id: id, tt: map[[2]uint64]bset{}, confirmed: map[string]bool{}, domT: map[domKey]*Expr{}, inited: map[string]bool{}, fnHit: map[*Fn]bool{}, maxDepth: e.maxDepth}
	if e.forks != nil {
		m.forkSites = map[string]int{}
	}
	m.stk = make([]Value, 1<<17)
	return m
}

func (m *M) ensureGlobals() {
	m.p.mu.Lock()
	n := len(m.p.gsyms)
	for i := len(m.glob); i < n; i++ {
		m.glob = append(m.glob, &Obj{s: make([]Value, m.p.gtypes[i].size), base: true})
	}
	m.p.mu.Unlock()
}

func (m *M) resetPath(it item) {
	m.rollback()
	m.steps = 0
	m.limit = m.e.stepLim
	m.prefix = it.prefix
	m.trace = m.trace[:0]
	m.setModel(append([]uint64(nil), it.model...))
	m.varW = m.varW[:0]
	m.varE = m.varE[:0]
	m.pc = m.pc[:0]
	m.pcByVar = map[int32][]int32{}
	m.pcSet = map[int32]bool{}
	m.dom = map[int32]*bset{}
	m.inputs = nil
	m.notes = nil
	m.obs = nil
	m.tags = nil
	m.covers = map[string]bool{}
	m.asserts = 0
	m.mapOrder, m.mapLeft, m.mapSet = false, 0, false
	m.sp = 0
	m.depth = 0
	m.top = nil
	m.spec = 0
	m.incompl = false
	m.logging = true
	m.concr = 0
	if m.t.n > 3000000 {
		// bound the term table
		m.t = NewTerms()
		m.s.Close()
		m.s.cmd = nil
		m.s.t = m.t
		m.domT = map[domKey]*Expr{}
	}
}

// initProg runs the package initialisers of the harness and its imports.
func (m *M) initProg() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("init: %v\n%s", descr(r), debug.Stack())
		}
	}()
	m.resetPath(item{})
	m.logging = false
	m.limit = 1 << 40
	for _, pk := range []*ssa.Package{m.p.pkgs[harnessPrefix+"rt"], m.e.pkg} {
		m.callFn(m.p.fn(pk.Func("init")), nil, nil, nil)
	}
	return nil
}

func descr(r any) string {
	switch x := r.(type) {
	case pathEnd:
		return x.kind + ": " + x.msg
	case *targetPanic:
		return fmt.Sprintf("target panic %v at %v", x.v, x.stack)
	case specAbort:
		return "specAbort"
	}
	return fmt.Sprint(r)
}

func (m *M) runPath() (kind, msg string) {
	kind = "ok"
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd:
			kind, msg = x.kind, x.msg
			if kind == "hang" || kind == "depth" {
				lbl := "does not terminate (" + x.msg + ")"
				if kind == "depth" {
					lbl = "unbounded recursion"
				}
				m.record(kind, lbl, m.where(), m.model, m.stackNames())
			}
		case *targetPanic:
			kind = "panic"
			txt := m.panicText(x)
			msg = txt
			site := ""
			for _, f := range x.stack {
				if strings.Contains(f, "hbuf/pkg/") || strings.Contains(f, "hbuf/cmd") {
					site = f
					break
				}
			}
			m.record("panic", "panic in "+site, txt, m.model, x.stack)
		default:
			kind = "engine"
			msg = fmt.Sprintf("%v at %s\n%s", r, m.where(), debug.Stack())
		}
	}()
	m.callFn(m.p.fn(m.e.fn), nil, nil, nil)
	return
}

func (m *M) panicText(x *targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic value"
		}
	}()
	if x.v.P == nil {
		return "nil"
	}
	i := x.v.P.(*Iface)
	if i.t.kind == KString {
		return m.evalStr(i.v)
	}
	return i.t.name()
}

func (e *Explorer) worker(id int, wg *sync.WaitGroup) {
	defer wg.Done()
	m := e.newMachine(id)
	defer m.s.Close()
	m.ensureGlobals()
	if err := m.initProg(); err != nil {
		e.mu.Lock()
		if e.Fatal == "" {
			e.Fatal = err.Error()
		}
		e.done = true
		e.mu.Unlock()
		e.cond.Broadcast()
		return
	}
	nsample := 0
	for {
		it, ok := e.next()
		if !ok {
			break
		}
		m.resetPath(it)
		kind, msg := m.runPath()
		e.mu.Lock()
		e.Ends[kind]++
		e.Steps += m.steps
		if len(m.trace) > e.MaxTrace {
			e.MaxTrace = len(m.trace)
		}
		switch kind {
		case "assume":
			e.Infeasible++
		case "unsupported", "engine":
			if len(e.Unsup) < 20 {
				e.Unsup[msg]++
			} else {
				e.Unsup["other"]++
			}
		default:
			e.Paths++
			for c := range m.covers {
				e.Covers[c]++
			}
		}
		e.Concretized += int64(m.concr)
		keep := kind == "ok" && (e.Paths < 6 || (uint64(e.Paths)*2654435761+e.seed)%97 == 0) && nsample < 12
		e.mu.Unlock()
		if keep {
			nsample++
			s := sample{Inputs: m.inputVals(), Steps: m.steps}
			for _, o := range m.obs {
				s.Obs = append(s.Obs, [2]string{o.label, m.evalStr(o.v)})
			}
			for _, o := range m.notes {
				s.Notes = append(s.Notes, [2]string{o.label, m.evalStr(o.v)})
			}
			e.mu.Lock()
			e.samples = append(e.samples, s)
			e.mu.Unlock()
		}
		e.finish()
	}
	e.mu.Lock()
	e.Queries += m.s.Queries
	e.SatQ += m.s.Sat
	e.UnsatQ += m.s.Unsat
	e.CacheHits += m.s.CacheHit
	e.SolverTime += m.s.Time
	e.Branches += m.branches
	e.Merged += m.merged
	for f := range m.fnHit {
		e.Funcs[f.name] = true
	}
	for k, v := range m.forkSites {
		e.forks[k] += v
	}
	if m.s.err != nil && e.Unsup["solver: "+m.s.err.Error()] == 0 {
		e.Unsup["solver: "+m.s.err.Error()]++
	}
	e.mu.Unlock()
}

func (e *Explorer) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.Ends, e.Unsup, e.Covers = map[string]int64{}, map[string]int64{}, map[string]int64{}
	e.Labels, e.violKey, e.KnownHit = map[string]*labelStat{}, map[string]int{}, map[string]int64{}
	e.Funcs = map[string]bool{}
	if os.Getenv("SYM_FORKS") != "" {
		e.forks = map[string]int{}
	}
	e.queue = []item{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go e.worker(i, &wg)
	}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				if time.Now().After(e.deadline) {
					e.mu.Lock()
					if !e.done {
						e.Timeout = true
						e.done = true
					}
					e.mu.Unlock()
					e.cond.Broadcast()
				}
			}
		}
	}()
	wg.Wait()
	close(stop)
	dbgDump()
	if e.forks != nil {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range e.forks {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, x := range l {
			if i > 25 {
				break
			}
			fmt.Fprintln(os.Stderr, "  fork", x.v, x.k)
		}
	}
}
