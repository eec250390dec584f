// symgo decides properties of Go code by symbolic execution of its SSA form
// with an SMT solver; see /verif/DESIGN.md.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Harness  string `json:"harness,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Label    string `json:"label,omitempty"` // regular expression, whole label
	Tag      string `json:"tag,omitempty"`   // a tag the failing path must carry
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

type cfgT struct {
	steps    int64
	depth    int
	time     time.Duration
	paths    int64
	reps     int
	weight   int
	covers   []string
	bounds   string
	thorough bool // only in the thorough tier
}

func directives(fn *ssa.Function, thorough bool) cfgT {
	c := cfgT{steps: 20_000_000, depth: 5000, time: 120 * time.Second}
	fd, _ := fn.Syntax().(*ast.FuncDecl)
	if fd == nil || fd.Doc == nil {
		return c
	}
	for _, l := range fd.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(l.Text, "//"))
		if b, ok := strings.CutPrefix(t, "bounds:"); ok {
			c.bounds = strings.TrimSpace(b)
			continue
		}
		t, ok := strings.CutPrefix(t, "sym:")
		if !ok {
			continue
		}
		for _, kv := range strings.Fields(t) {
			k, v, _ := strings.Cut(kv, "=")
			if tk, ok := strings.CutPrefix(k, "thorough."); ok {
				if !thorough {
					continue
				}
				k = tk
			}
			n, _ := strconv.ParseInt(v, 10, 64)
			switch k {
			case "steps":
				c.steps = n
			case "depth":
				c.depth = int(n)
			case "time":
				c.time = time.Duration(n) * time.Second
			case "paths":
				c.paths = n
			case "cover":
				c.covers = append(c.covers, strings.Split(v, ",")...)
			case "only":
				c.thorough = v == "thorough"
			default:
				panic("unknown directive " + kv + " on " + fn.Name())
			}
		}
	}
	return c
}

type nativeRes struct {
	obs     [][2]string
	fails   []string
	panics  []string
	end     string // "", ok, assert, panic, ...
	crashed string
}

type nativeCase struct {
	Harness  string     `json:"harness"`
	Inputs   []inputRec `json:"inputs"`
	Thorough bool       `json:"thorough"`
}

type runner struct {
	repo, harness, pkg, work, bin string
	err                           error
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "CGO_ENABLED": "0"}
	if os.Getenv("HOME") == "" {
		set["HOME"] = "/root"
	}
	if os.Getenv("GOMODCACHE") == "" {
		set["GOMODCACHE"] = "/root/go/pkg/mod"
	}
	for k, v := range set {
		env = append(env, k+"="+v)
	}
	return env
}

func (r *runner) build() error {
	ov := struct{ Replace map[string]string }{overlayFiles(r.repo, r.harness, allHarnessDirs(r.harness))}
	b, _ := json.Marshal(ov)
	of := filepath.Join(r.work, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return err
	}
	r.bin = filepath.Join(r.work, "native")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", r.bin, "./zz_verif/"+r.pkg)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

// runCases runs the harness natively on concrete inputs, inside a scratch
// directory, with an address-space limit.
func (r *runner) runCases(cases []nativeCase, timeout time.Duration) ([]nativeRes, bool) {
	dir, err := os.MkdirTemp(r.work, "run")
	if err != nil {
		r.err = err
		return nil, false
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(cases)
	cf := filepath.Join(dir, "cases.json")
	os.WriteFile(cf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "sh", "-c", `ulimit -v 6000000; exec "$0" "$@"`, r.bin, cf, dir)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var errb strings.Builder
	cmd.Stderr = &limitWriter{b: &errb, n: 20000}
	out, runErr := cmd.Output()
	res := make([]nativeRes, len(cases))
	cur := -1
	for _, l := range strings.Split(string(out), "\n") {
		k, rest, _ := strings.Cut(l, " ")
		if k == "CASE" {
			cur, _ = strconv.Atoi(rest)
			continue
		}
		if cur < 0 {
			continue
		}
		switch k {
		case "OBS":
			a, b := unq2(rest)
			res[cur].obs = append(res[cur].obs, [2]string{a, b})
		case "ASSERT-FAIL":
			s, _ := strconv.Unquote(rest)
			res[cur].fails = append(res[cur].fails, s)
		case "PANIC":
			s, _ := strconv.Unquote(rest)
			res[cur].panics = append(res[cur].panics, s)
		case "END":
			res[cur].end = rest
		}
	}
	timedOut := ctx.Err() != nil
	if cur >= 0 && res[cur].end == "" {
		switch {
		case timedOut:
			res[cur].crashed = "timeout"
		case runErr != nil:
			res[cur].crashed = firstLines(errb.String(), 3)
			if res[cur].crashed == "" {
				res[cur].crashed = runErr.Error()
			}
		}
	}
	return res, timedOut
}

type limitWriter struct {
	b *strings.Builder
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if k := w.n - w.b.Len(); k > 0 {
		if len(p) < k {
			k = len(p)
		}
		w.b.Write(p[:k])
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	l := strings.SplitN(strings.TrimSpace(s), "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func unq2(s string) (string, string) {
	q, err := strconv.QuotedPrefix(s)
	if err != nil {
		return s, ""
	}
	a, _ := strconv.Unquote(q)
	b, _ := strconv.Unquote(strings.TrimSpace(s[len(q):]))
	return a, b
}

// confirm replays a violation against the natively compiled code.
func (r *runner) confirm(v *violation, thorough bool) (bool, string) {
	reps := 1
	if v.Order {
		reps = 300
	}
	var cs []nativeCase
	for i := 0; i < reps; i++ {
		cs = append(cs, nativeCase{v.Harness, v.Inputs, thorough})
	}
	to := 20 * time.Second
	if v.Order {
		to = 90 * time.Second
	}
	res, timedOut := r.runCases(cs, to)
	for _, x := range res {
		switch v.Kind {
		case "assert":
			for _, f := range x.fails {
				if f == v.Label {
					return true, "assertion failed: " + f
				}
			}
		case "panic":
			if len(x.panics) > 0 {
				return true, "panic: " + x.panics[0]
			}
			if x.crashed != "" {
				return true, x.crashed
			}
		case "hang", "depth":
			if timedOut && x.crashed == "timeout" {
				return true, "did not finish within " + to.String()
			}
			if strings.Contains(x.crashed, "stack") || strings.Contains(x.crashed, "memory") || strings.Contains(x.crashed, "deadlock") {
				return true, x.crashed
			}
		}
	}
	d := "no result"
	if len(res) > 0 {
		d = fmt.Sprintf("end=%s fails=%v panics=%v crashed=%s", res[0].end, res[0].fails, res[0].panics, res[0].crashed)
	}
	return false, d
}

func loadFindings(path string) ([]*finding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var fs []*finding
	if err := json.Unmarshal(b, &fs); err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	for _, f := range fs {
		if f.Status != "known" {
			continue
		}
		f.re, err = regexp.Compile("^(?:" + f.Label + ")$")
		if err != nil {
			return nil, err
		}
	}
	return fs, nil
}

func main() {
	prop := flag.String("p", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("h", "", "regexp: only these harnesses (development)")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	all := flag.Bool("all", false, "do not stop at the first violations (development)")
	verbose := flag.Bool("v", false, "verbose")
	solver := flag.String("solver", "z3-new -in -t:20000", "solver command")
	budget := flag.Int("budget", 0, "total seconds (default 420 quick, 3000 thorough)")
	replay := flag.String("replay", "", "run the inputs of a replay file against the natively compiled code")
	flag.Parse()
	if *replay != "" {
		os.Exit(runReplay(*replay, *repo, *verif))
	}
	if *tier == "" {
		*tier = "quick"
	}
	os.Exit(check(*prop, *tier, *repo, *verif, *only, *workers, *all, *verbose, *solver, *budget))
}

// runReplay runs one recorded counterexample natively; exit 1 if it still fails.
func runReplay(file, repo, verif string) int {
	b, err := os.ReadFile(file)
	var v violation
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	prop, _, _ := strings.Cut(filepath.Base(file), "-")
	for _, kv := range goEnv() {
		k, x, _ := strings.Cut(kv, "=")
		os.Setenv(k, x)
	}
	work, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(work)
	r := &runner{repo: repo, harness: filepath.Join(verif, "harness"), pkg: strings.ToLower(prop), work: work}
	if err := r.build(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	ok, how := r.confirm(&v, false)
	fmt.Printf("%s %s %q: %s\n", v.Harness, v.Kind, v.Label, how)
	if ok {
		return 1
	}
	return 0
}

type hReport struct {
	Harness     string                `json:"harness"`
	Bounds      string                `json:"bounds,omitempty"`
	Exhaustive  bool                  `json:"exhaustive_within_bounds"`
	Paths       int64                 `json:"paths"`
	Infeasible  int64                 `json:"paths_cut_by_assume"`
	Ends        map[string]int64      `json:"path_ends"`
	Lost        map[string]int64      `json:"lost_coverage,omitempty"`
	Asserts     map[string]*labelStat `json:"assertions"`
	Covers      map[string]int64      `json:"reachability_witnesses"`
	Missing     []string              `json:"witnesses_not_reached,omitempty"`
	bound       int
	Branches    int64 `json:"symbolic_branches"`
	Merged      int64 `json:"merged_regions"`
	Queries     int64 `json:"solver_queries"`
	CacheHits   int64 `json:"solver_cache_hits"`
	Sat, Unsat  int64
	Unknown     int64    `json:"solver_unknown"`
	SolverS     float64  `json:"solver_s"`
	WallS       float64  `json:"wall_s"`
	Steps       int64    `json:"ssa_instructions"`
	StepLimit   int64    `json:"step_limit_per_path"`
	DepthLimit  int      `json:"call_depth_limit"`
	TimedOut    bool     `json:"time_budget_exhausted"`
	Validated   int      `json:"paths_replayed_natively"`
	Mismatch    []string `json:"replay_mismatches,omitempty"`
	Concretized int64    `json:"concretized_values"`
	Samples     []any    `json:"samples,omitempty"`
}

func check(prop, tier, repo, verif, only string, workers int, all, verbose bool, solver string, budget int) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	pkg := strings.ToLower(prop)
	if budget == 0 {
		budget = 420
		if thorough {
			budget = 3000
		}
	}
	hardEnd := t0.Add(time.Duration(budget) * time.Second)
	harness := filepath.Join(verif, "harness")
	for _, kv := range goEnv() {
		k, v, _ := strings.Cut(kv, "=")
		os.Setenv(k, v)
	}
	findings, err := loadFindings(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	work, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(work)
	r := &runner{repo: repo, harness: harness, pkg: pkg, work: work}
	built := make(chan error, 1)
	go func() { built <- r.build() }()
	p, pkgs, err := load(repo, harness, []string{pkg})
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if err := <-built; err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	pk := pkgs[pkg]
	var names []string
	for n, mem := range pk.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "H_") && len(f.Params) == 0 {
			names = append(names, n)
		}
	}
	sort.Slice(names, func(i, j int) bool { return pk.Func(names[i]).Pos() < pk.Func(names[j]).Pos() })
	loadS := time.Since(t0).Seconds()

	var reports []*hReport
	funcs := map[string]bool{}
	var violations []*violation
	replays := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(replays, 0o755)
	if old, _ := filepath.Glob(filepath.Join(replays, prop+"-*.json")); only == "" {
		for _, f := range old {
			os.Remove(f)
		}
	}
	nv := 0
	knownSeen := map[*finding]bool{}
	var unconfirmed []string
	inconclusive := false
	var selected []string
	for _, n := range names {
		cfg := directives(pk.Func(n), thorough)
		if only != "" {
			if ok, _ := regexp.MatchString(only, n); !ok {
				continue
			}
		} else if cfg.thorough && !thorough {
			continue
		}
		selected = append(selected, n)
	}
	for _, n := range selected {
		fn := pk.Func(n)
		cfg := directives(fn, thorough)
		h0 := time.Now()
		e := &Explorer{p: p, fn: fn, pkg: pk, name: n, thorough: thorough, stepLim: cfg.steps, maxDepth: cfg.depth,
			maxPaths: cfg.paths, workers: workers, solverBin: strings.Fields(solver), seed: seed, stopOnViol: !all}
		e.deadline = h0.Add(cfg.time)
		if e.deadline.After(hardEnd) {
			e.deadline = hardEnd
		}
		e.known = func(v *violation) string {
			if f := matchFinding(findings, prop, v); f != nil {
				return f.What
			}
			return ""
		}
		e.Run()
		rep := &hReport{Harness: n, Bounds: cfg.bounds, Paths: e.Paths, Infeasible: e.Infeasible, Ends: e.Ends, Lost: e.Unsup,
			Asserts: e.Labels, Covers: e.Covers, Branches: e.Branches, Merged: e.Merged, Queries: e.Queries, CacheHits: e.CacheHits,
			Sat: e.SatQ, Unsat: e.UnsatQ, Unknown: e.Unknown, SolverS: round(e.SolverTime.Seconds()), Steps: e.Steps,
			StepLimit: cfg.steps, DepthLimit: cfg.depth, TimedOut: e.Timeout, Concretized: e.Concretized}
		if e.Fatal != "" {
			fmt.Printf("ERROR: %s: %s\n", n, e.Fatal)
			inconclusive = true
		}
		for _, c := range cfg.covers {
			if e.Covers[c] == 0 {
				rep.Missing = append(rep.Missing, c)
			}
		}
		// violations: replay against the real code
		hv := 0
		for _, v := range e.Viol {
			f := matchFinding(findings, prop, v)
			if f != nil && knownSeen[f] {
				continue
			}
			ok, how := r.confirm(v, thorough)
			nv++
			rp := filepath.Join(replays, fmt.Sprintf("%s-%d.json", prop, nv))
			v.Detail = strings.TrimSpace(v.Detail + " native: " + how)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(rp, append(b, '\n'), 0o644)
			if !ok && (v.Kind == "hang" || v.Kind == "depth") {
				// the bound was too small for this path: coverage lost, not a verdict
				rep.bound++
				fmt.Printf("BOUND property=%s harness=%s %s: the path exceeds the %s bound, natively it ends\n", prop, n, v.Label, v.Kind)
				continue
			}
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s (%s)", n, v.Label, how))
				fmt.Printf("UNCONFIRMED property=%s harness=%s kind=%s label=%q replay=%s (%s)\n", prop, n, v.Kind, v.Label, rp, how)
				continue
			}
			if f != nil {
				knownSeen[f] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
				continue
			}
			hv++
			violations = append(violations, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			fmt.Printf("  harness=%s kind=%s label=%q tags=%v\n  %s\n", n, v.Kind, v.Label, v.Tags, v.Detail)
			for _, x := range v.Notes {
				fmt.Printf("  %s = %q\n", x[0], x[1])
			}
			if len(v.Stack) > 0 {
				k := v.Stack
				if len(k) > 6 {
					k = k[:6]
				}
				fmt.Printf("  stack: %s\n", strings.Join(k, " < "))
			}
		}
		// sampled paths: the encoding must agree with the real execution
		var cs []nativeCase
		for _, s := range e.samples {
			cs = append(cs, nativeCase{n, s.Inputs, thorough})
		}
		if len(cs) > 0 {
			res, _ := r.runCases(cs, 60*time.Second)
			for i, s := range e.samples {
				var d string
				if res == nil {
					d = "native run failed"
				} else if res[i].end != "ok" {
					d = fmt.Sprintf("native end=%q fails=%v panics=%v crashed=%q", res[i].end, res[i].fails, res[i].panics, res[i].crashed)
				} else if len(res[i].obs) != len(s.Obs) {
					d = fmt.Sprintf("%d observations natively, %d symbolically", len(res[i].obs), len(s.Obs))
				} else {
					for k := range s.Obs {
						if s.Obs[k] != res[i].obs[k] {
							d = fmt.Sprintf("observation %s: native %q symbolic %q", s.Obs[k][0], clip(res[i].obs[k][1]), clip(s.Obs[k][1]))
							break
						}
					}
				}
				if d != "" {
					in, _ := json.Marshal(s.Inputs)
					rep.Mismatch = append(rep.Mismatch, d+" notes "+fmt.Sprint(s.Notes)+" inputs "+string(in))
				} else {
					rep.Validated++
				}
				if i < 3 {
					rep.Samples = append(rep.Samples, map[string]any{"inputs": compact(s.Inputs), "notes": clipAll(s.Notes), "observed": clipAll(s.Obs)})
				}
			}
		}
		rep.WallS = round(time.Since(h0).Seconds())
		rep.Exhaustive = !e.Timeout && len(e.Unsup) == 0 && e.Unknown == 0 && e.Fatal == "" && !e.stopped && rep.bound == 0
		reports = append(reports, rep)
		for f := range e.Funcs {
			funcs[f] = true
		}
		fmt.Printf("%s %s: %d paths (%d infeasible), %d queries (%d cached), solver %.1fs, wall %.1fs, native replays %d, exhaustive=%v\n",
			prop, n, e.Paths, e.Infeasible, e.Queries, e.CacheHits, rep.SolverS, rep.WallS, rep.Validated, rep.Exhaustive)
		if verbose || len(e.Unsup) > 0 {
			for k, c := range e.Unsup {
				fmt.Printf("  lost %d: %s\n", c, k)
			}
		}
		if verbose {
			fmt.Printf("  ends %v covers %v maxtrace %d branches %d merged %d steps %d\n", e.Ends, e.Covers, e.MaxTrace, e.Branches, e.Merged, e.Steps)
			for l, s := range e.Labels {
				fmt.Printf("  assert %q: %d (%d by solver)\n", l, s.Total, s.Symbolic)
			}
			for k, c := range e.violKey {
				fmt.Printf("  violkey %s: %d\n", k, c)
			}
			for k, c := range e.KnownHit {
				fmt.Printf("  known %s: %d\n", k, c)
			}
		}
		for _, d := range rep.Mismatch {
			fmt.Printf("  MISMATCH %s\n", d)
		}
		if hv == 0 {
			if len(rep.Missing) > 0 {
				fmt.Printf("  witnesses not reached: %v\n", rep.Missing)
			}
			if e.Paths == 0 || len(rep.Mismatch) > 0 || (len(rep.Missing) > 0 && !e.Timeout && len(e.KnownHit) == 0) {
				inconclusive = true
			}
		}
	}
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" && !knownSeen[f] && only == "" {
			fmt.Printf("note: listed finding not met in this run: %s\n", f.What)
		}
	}
	if only == "" {
		writeEvidence(prop, tier, verif, seed, reports, funcs, len(violations), unconfirmed, findings, knownSeen, loadS, time.Since(t0), solver)
	}
	if len(violations) > 0 {
		return 1
	}
	if inconclusive || len(unconfirmed) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s\n", prop)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", prop, tier, time.Since(t0).Seconds())
	return 0
}

func matchFinding(fs []*finding, prop string, v *violation) *finding {
	for _, f := range fs {
		if f.Property != prop || f.Status != "known" {
			continue
		}
		if f.Harness != "" && f.Harness != v.Harness || f.Kind != "" && f.Kind != v.Kind {
			continue
		}
		if !f.re.MatchString(v.Label) {
			continue
		}
		if f.Tag != "" {
			ok := false
			for _, t := range v.Tags {
				ok = ok || t == f.Tag
			}
			if !ok {
				continue
			}
		}
		return f
	}
	return nil
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func clipAll(x [][2]string) [][2]string {
	var r [][2]string
	for _, a := range x {
		if len(r) >= 12 {
			break
		}
		r = append(r, [2]string{a[0], clip(a[1])})
	}
	return r
}

func compact(in []inputRec) string {
	var b strings.Builder
	for i, x := range in {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s=%d", x.Name, x.Val)
	}
	return clip(b.String())
}

func writeEvidence(prop, tier, verif string, seed uint64, reps []*hReport, funcs map[string]bool, nviol int, unconf []string,
	fs []*finding, seen map[*finding]bool, loadS float64, wall time.Duration, solver string) {
	var paths, branches, queries, hits, sat, unsat, unk, steps int64
	var solverS float64
	val := 0
	ex := true
	var samples []any
	for _, r := range reps {
		paths += r.Paths
		branches += r.Branches
		queries += r.Queries
		hits += r.CacheHits
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		steps += r.Steps
		solverS += r.SolverS
		val += r.Validated
		ex = ex && r.Exhaustive
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.Harness, "path": s})
			}
		}
		r.Samples = nil
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var known []string
	for f := range seen {
		known = append(known, f.What)
	}
	sort.Strings(known)
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        paths,
			"transitions":                   branches,
			"traces_validated_against_impl": val,
			"samples":                       samples,
			"exhaustive":                    ex,
			"explanation":                   "states = feasible symbolic paths explored (each stands for every input satisfying its path condition); transitions = symbolic branch decisions whose other side was put to the solver; branches on one byte are decided by its set of values, and every side so ruled out is confirmed unsatisfiable by the solver; every assertion on a path is decided for all inputs of the path; sampled paths are replayed on the natively compiled code and must agree",
			"functions_encoded":             fl,
			"functions_encoded_count":       len(fl),
			"solver":                        solver,
			"solver_queries":                queries,
			"solver_cache_hits":             hits,
			"solver_sat":                    sat,
			"solver_unsat":                  unsat,
			"solver_unknown":                unk,
			"solver_s":                      round(solverS),
			"ssa_instructions":              steps,
			"load_s":                        round(loadS),
			"harnesses":                     reps,
			"known_findings_met":            known,
			"unconfirmed":                   unconf,
		},
		"assumptions": []string{
			"bounds as listed per harness; nothing is claimed outside them",
			"the operating system is replaced by an in-memory file system; fmt, errors.As/Is, sort.Slice, unicode tables, sync and time.Parse by models (engine/hooks.go); sampled paths are cross-checked natively",
			"the SSA construction of golang.org/x/tools and the SMT solver are trusted",
		},
		"wall_s":     round(wall.Seconds()),
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
