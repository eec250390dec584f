package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

var dbgOn = os.Getenv("SYM_Q") != ""
var dbgMu sync.Mutex
var dbgHist = map[string]int{}

func dbgQ(m *M, conj, vars []*Expr) {
	dbgMu.Lock()
	defer dbgMu.Unlock()
	sz := int32(0)
	for _, c := range conj {
		sz += c.size
	}
	f := m.where()
	if len(f) > 60 {
		f = f[:60]
	}
	if false {
		for _, c := range conj {
			if len(c.vars) > 1 {
				dbgHist[exStr(c, 7)]++
			}
		}
	}
	dbgHist[fmt.Sprintf("v%d c%d %s", len(vars), len(conj)/4*4, f)]++
}
func dbgDump() {
	var l []string
	for k := range dbgHist {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return dbgHist[l[i]] > dbgHist[l[j]] })
	for i, k := range l {
		if i < 40 {
			fmt.Fprintln(os.Stderr, dbgHist[k], k)
		}
	}
}

func (e *Expr) String() string { return exStr(e, 7) }
func exStr(e *Expr, d int) string {
	if e == nil {
		return ""
	}
	if e.op == OConst || e.op == OVar {
		return ref(e)
	}
	if d == 0 {
		return "..."
	}
	n := opName[e.op]
	if n == "" {
		n = fmt.Sprintf("cast%d", e.w)
	}
	s := "(" + n
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + exStr(x, d-1)
		}
	}
	return s + ")"
}
