package main

// Solver back end: one long-lived SMT-LIB2 process per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	t        *Terms
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	gen      uint32 // emission generation
	emitted  int
	bin      []string
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	CacheHit int64
	Time     time.Duration
	nextGen  uint32
	log      io.Writer
	err      error
}

type qres struct {
	sat   int // 1 sat, 0 unsat, -1 unknown
	model map[int32]uint64
}

func NewSolver(t *Terms, bin []string) *Solver {
	return &Solver{t: t, bin: bin}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.nextGen++
	s.gen = s.nextGen
	s.emitted = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 1 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(e *Expr) string {
	if e.w == 1 {
		if e.k != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(e.k, 10) + " " + strconv.Itoa(int(e.w)) + ")"
}

func ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constStr(e)
	case OVar:
		return "v" + strconv.FormatUint(e.k, 10) + "_" + strconv.Itoa(int(e.w))
	}
	return "e" + strconv.Itoa(int(e.id))
}

var opName = map[Op]string{
	OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	ONot: "bvnot", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBNot: "not", OBAnd: "and", OBOr: "or",
}

func (s *Solver) body(e *Expr) string {
	switch e.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, ref(e.a))
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(opName[e.op])
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			b.WriteByte(' ')
			b.WriteString(ref(x))
		}
	}
	b.WriteByte(')')
	return b.String()
}

// emit defines e (and its sub-terms) at the solver's top level.
func (s *Solver) emit(e *Expr) {
	if e.op == OConst || e.emitted == s.gen {
		return
	}
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s.emit(x)
		}
	}
	if e.op == OVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", ref(e), sortName(e.w))
	} else {
		fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", ref(e), sortName(e.w), s.body(e))
	}
	e.emitted = s.gen
	s.emitted++
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readSexp reads one complete parenthesised answer.
func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return b.String(), nil
		}
	}
}

// Check decides satisfiability of the conjunction; vars lists the variables
// whose values are wanted.
func (s *Solver) Check(conj []*Expr, key string, vars []*Expr) *qres {
	if r := cacheGet(key); r != nil {
		s.CacheHit++
		q := &qres{sat: r.sat}
		if r.sat == 1 {
			q.model = make(map[int32]uint64, len(vars))
			for i, v := range vars {
				q.model[int32(v.k)] = r.vals[i]
			}
		}
		return q
	}
	if s.cmd == nil {
		s.start()
	} else if s.emitted > 60000 {
		s.Close()
		s.start()
	}
	t0 := time.Now()
	for _, e := range conj {
		s.emit(e)
	}
	for _, v := range vars {
		s.emit(v)
	}
	fmt.Fprint(s.in, "(push 1)\n")
	for _, e := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(e))
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	s.in.Flush()
	r := &qres{sat: -1}
	l, err := s.readLine()
	s.Queries++
	fail := func(why string) *qres {
		s.err = fmt.Errorf("solver: %s", why)
		s.Close()
		s.Unknown++
		s.Time += time.Since(t0)
		return r
	}
	if err != nil {
		return fail(err.Error())
	}
	switch l {
	case "sat":
		r.sat = 1
		s.Sat++
		r.model = map[int32]uint64{}
		if len(vars) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range vars {
				fmt.Fprint(s.in, ref(v), " ")
			}
			fmt.Fprint(s.in, "))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.Contains(txt, "(error") {
				return fail("get-value " + txt)
			}
			parseModel(txt, r.model)
		}
	case "unsat":
		r.sat = 0
		s.Unsat++
	default:
		if strings.Contains(l, "error") {
			return fail(l)
		}
		s.Unknown++
	}
	fmt.Fprint(s.in, "(pop 1)\n")
	s.Time += time.Since(t0)
	if r.sat >= 0 && key != "" {
		c := &cres{sat: r.sat}
		if r.sat == 1 {
			for _, v := range vars {
				c.vals = append(c.vals, r.model[int32(v.k)])
			}
		}
		cachePut(key, c)
	}
	return r
}

// verdicts already given by the solver, shared between workers; the key
// identifies the conjunction up to a renaming of its variables.
type cres struct {
	sat  int
	vals []uint64
}

var qcache [64]struct {
	mu sync.RWMutex
	m  map[string]*cres
}

func cshard(key string) int { return int(key[0]^key[5]) & 63 }

func cacheGet(key string) *cres {
	if key == "" {
		return nil
	}
	c := &qcache[cshard(key)]
	c.mu.RLock()
	r := c.m[key]
	c.mu.RUnlock()
	return r
}

func cachePut(key string, r *cres) {
	c := &qcache[cshard(key)]
	c.mu.Lock()
	if c.m == nil || len(c.m) > 200000 {
		c.m = map[string]*cres{}
	}
	c.m[key] = r
	c.mu.Unlock()
}

func parseModel(txt string, m map[int32]uint64) {
	// ((v0_8 #x00) (v1_1 true))
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); {
		name := f[i]
		if !strings.HasPrefix(name, "v") {
			i++
			continue
		}
		us := strings.IndexByte(name, '_')
		idx, _ := strconv.Atoi(name[1:us])
		val := f[i+1]
		i += 2
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_" && i < len(f): // (_ bvN w)
			v, _ = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			i += 2
		}
		m[int32(idx)] = v
	}
}
