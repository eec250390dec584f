// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts these functions; compiled natively they read the
// values of a counterexample (or of an explored path) from a file.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

type input struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type caseT struct {
	Harness  string  `json:"harness"`
	Inputs   []input `json:"inputs"`
	Thorough bool    `json:"thorough"`
}

var (
	cur   caseT
	pos   int
	out   = bufio.NewWriterSize(os.Stdout, 1<<16)
	dir   string
	fails int
)

type stop struct{ why string }

func next() uint64 {
	if pos >= len(cur.Inputs) {
		panic(stop{"inputs exhausted"})
	}
	v := cur.Inputs[pos].Val
	pos++
	return v
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next()) }

// ByteOf is an arbitrary byte of set.
func ByteOf(name, set string) byte { return byte(next()) }

// Int is an arbitrary int.
func Int(name string) int { return int(next()) }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(next()) }

// Bool is an arbitrary bool.
func Bool(name string) bool { return next() != 0 }

// Pick is an explicit n-way case split.
func Pick(name string, n int) int {
	if n <= 1 {
		next()
		return 0
	}
	return int(next())
}

// Choose is a symbolic integer in [0,n).
func Choose(name string, n int) int { return int(next()) }

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// StrOf is an arbitrary string of n bytes of set.
func StrOf(name string, n int, set string) string { return Str(name, n) }

func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

func Assert(c bool, label string) {
	if !c {
		fails++
		fmt.Fprintf(out, "ASSERT-FAIL %s\n", strconv.Quote(label))
		panic(stop{"assert"})
	}
}

func Cover(label string)   {}
func Note(label, s string) { fmt.Fprintf(out, "NOTE %s %s\n", strconv.Quote(label), strconv.Quote(s)) }
func Observe(label, s string) {
	fmt.Fprintf(out, "OBS %s %s\n", strconv.Quote(label), strconv.Quote(s))
}
func Thorough() bool           { return cur.Thorough }
func Symbolic() bool           { return false }
func Known(tag string, c bool) {}

// MapOrder makes every loop over a table go in any order.
func MapOrder(on bool) {}

// MapOrders makes any n of the loops over tables that follow go in any order;
// of a table of more than 4 entries any two come first.
func MapOrders(n int)          {}
func Concrete(s string) string { return s }

// Value forks on the values x can have.
func Value(x int) int          { return x }
func IsConcrete(s string) bool { return true }
func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}
func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}
func Not(x bool) bool            { return !x }
func In(c byte, set string) bool { return strings.IndexByte(set, c) >= 0 }
func Eq(a, b string) bool        { return a == b }

// Dir is an empty scratch directory.
func Dir() string { return dir }

// Full makes a file that can be opened, but not written to.
func Full(path string) {
	if err := os.Symlink("/dev/full", path); err != nil {
		panic(err)
	}
}

// Main runs the harness functions natively on the cases of a file.
func Main(hs map[string]func()) {
	if len(os.Args) < 2 {
		var ns []string
		for n := range hs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []caseT
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	base := os.Args[2]
	keep := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null // the code under test may print
	out = bufio.NewWriterSize(keep, 1<<16)
	for i, c := range cases {
		cur, pos = c, 0
		dir = base + "/case" + strconv.Itoa(i)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		fmt.Fprintf(out, "CASE %d\n", i)
		out.Flush()
		run(hs[c.Harness])
		os.RemoveAll(dir)
		out.Flush()
	}
}

func run(f func()) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			fmt.Fprintf(out, "END ok\n")
		case stop:
			fmt.Fprintf(out, "END %s\n", x.why)
		default:
			fmt.Fprintf(out, "PANIC %s\n", strconv.Quote(fmt.Sprint(r)))
			fmt.Fprintf(out, "END panic\n")
		}
		out.Flush()
	}()
	f()
}
