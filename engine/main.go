package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var harnessPkg = "verif/harness/h"

const repoPrefix = "github.com/transcriptaze/"

var (
	flagProp    = flag.String("prop", "", "property id")
	flagPkg     = flag.String("pkg", "h", "harness package: h (properties) or selftest (engine self-test)")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagH       = flag.String("harness", "", "only this harness")
	flagVerif   = flag.String("verif", "/verif", "framework directory")
	flagHDir    = flag.String("hdir", "", "harness module (default: harness)")
	flagReplay  = flag.String("replay", "", "replay binary")
	flagWork    = flag.Int("workers", 8, "workers")
	flagBudget  = flag.Float64("budget", 0, "seconds per harness (0: tier default)")
	flagV       = flag.Bool("v", false, "verbose")
	flagNoRep   = flag.Bool("noreplay", false, "skip native replay")
	flagSamples = flag.Int("samples", 24, "samples replayed natively per harness")
	flagCLI     = flag.String("gencli", "", "copy the main package SRC to the package DST that can be imported (SRC:DST)")
	flagFirst   = flag.Bool("first", false, "stop at the first violation that is not listed")
	flagCross   = flag.Int("cross", -1, "give every n-th unsatisfiable query to cvc5, too (0: none, default: 50 in the thorough tier)")
)

var goEnv = []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off"}

// packages whose initialisers are executed symbolically (concretely, before exploration)
var initWhite = []string{
	"errors", "io", "io/fs", "bytes", "strings", "strconv", "sort", "slices", "math", "math/bits", "unicode/utf8", "unicode",
	"encoding/binary", "encoding/hex", "bufio", "path", "path/filepath", "cmp", "iter", "maps", "internal/bytealg", "internal/stringslite", "internal/byteorder",
	"fmt", "regexp", "regexp/syntax", "internal/strconv", "text/tabwriter", "encoding/base64", "encoding/csv", "encoding", "time", "context", "sync", "sync/atomic", "flag", "html", "hash/crc32", "hash", "internal/oserror", "unicode/utf16", "internal/itoa", "internal/filepathlite", "container/list", "container/heap", "container/ring", "errors/internal", "internal/errors",
}

func hdir() string {
	if *flagHDir != "" {
		return *flagHDir
	}
	return filepath.Join(*flagVerif, "harness")
}

func load() (*Program, *packages.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: hdir(), Env: append(os.Environ(), goEnv...)}
	pkgs, err := packages.Load(cfg, "./"+*flagPkg)
	if err != nil {
		return nil, nil, err
	}
	if packages.PrintErrors(pkgs) > 0 {
		return nil, nil, fmt.Errorf("harness does not type-check against the current tree")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, gidx: map[*ssa.Global]int{}, tlist: map[string][]types.Type{}, embeds: map[string]string{}, initSet: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for _, s := range initWhite {
		P.initSet[s] = true
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoPrefix) || strings.HasPrefix(p.PkgPath, "verif/") {
			P.initSet[p.PkgPath] = true
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					g, ok := d.(*ast.GenDecl)
					if !ok || g.Doc == nil {
						continue
					}
					for _, c := range g.Doc.List {
						if !strings.HasPrefix(c.Text, "//go:embed ") {
							continue
						}
						name := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed "))
						b, err := os.ReadFile(filepath.Join(filepath.Dir(p.GoFiles[0]), name))
						if err != nil {
							continue
						}
						for _, sp := range g.Specs {
							if vs, ok := sp.(*ast.ValueSpec); ok {
								for _, n := range vs.Names {
									P.embeds[p.PkgPath+"."+n.Name] = string(b)
								}
							}
						}
					}
				}
			}
		}
	})
	return P, pkgs[0], nil
}

var specialGlobals = map[string]bool{"os": true}

func (m *Machine) initGlobal(g *ssa.Global, c *Value) {
	path := g.Pkg.Pkg.Path()
	if s, ok := m.P.embeds[path+"."+g.Name()]; ok {
		*c = cstr(s)
		return
	}
	if path == "os" {
		switch g.Name() {
		case "Stdout", "Stderr", "Stdin":
			*c = m.initGlobalFile("/dev/" + strings.ToLower(g.Name()))
			return
		case "Args":
			*c = Slice{cstr("midiasm")}
			return
		case "ErrNotExist", "ErrExist", "ErrInvalid", "ErrPermission":
			if q := m.P.pkgs["internal/oserror"]; q != nil {
				og := q.Var(g.Name())
				*c = *m.global(m.P.globalIdx(og), og)
			} else {
				*c = m.mkError(g.Name())
			}
			return
		}
	}
	if !m.P.initSet[path] && !m.inInit {
		m.unsupported("global %s of package without executed initialiser", g.String())
	}
}

func newMachine(P *Program) *Machine {
	x := newCtx()
	m := &Machine{P: P, x: x, coverage: map[*ssa.Function]bool{}, E: &Explorer{maxStep: 1 << 60}}
	m.sol = newSolver(x, "z3-new", 8000)
	m.inInit = true
	m.sched = &Sched{}
	m.fs = newVFS()
	m.natives = map[any]any{}
	m.out = map[string][]*Str{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "error: package initialisation: %v\n%s\n", r, m.lastStack)
				if tp, ok := r.(targetPanic); ok {
					fmt.Fprintln(os.Stderr, m.panicText(tp.v))
				}
				os.Exit(2)
			}
		}()
		m.callSSA(nil, P.pkgs[harnessPkg].Func("init"), nil, nil)
	}()
	m.inInit = false
	// values of packages without executed initialisers are unknown
	P.gmu.Lock()
	for g, i := range P.gidx {
		if path := g.Pkg.Pkg.Path(); path != "os" && !P.initSet[path] && i < len(m.globals) {
			m.globals[i] = nil
		}
	}
	P.gmu.Unlock()
	return m
}

type harnessResult struct {
	Name       string         `json:"harness"`
	Bounds     string         `json:"bounds"`
	Paths      int            `json:"paths"`
	Ends       map[string]int `json:"path_ends"`
	Asserts    int64          `json:"assertions_checked"`
	Proved     int64          `json:"assertions_discharged"`
	Steps      int64          `json:"ssa_instructions"`
	Queries    int            `json:"solver_queries"`
	Sat        int            `json:"sat"`
	UnsatN     int            `json:"unsat"`
	UnknownN   int            `json:"unknown"`
	SolverS    float64        `json:"solver_s"`
	WallS      float64        `json:"wall_s"`
	Complete   bool           `json:"complete_within_bounds"`
	Reduced    map[string]int `json:"outside_encoding,omitempty"`
	Reach      map[string]int `json:"reach_witnesses"`
	Samples    int            `json:"samples_replayed"`
	SamplesOK  int            `json:"samples_agreeing"`
	Mismatch   []string       `json:"sample_mismatches,omitempty"`
	Candidates int            `json:"counterexample_candidates"`
	Confirmed  int            `json:"counterexamples_confirmed"`
	Unconf     []string       `json:"unconfirmed,omitempty"`
	Supplement int            `json:"supplementary_native_runs,omitempty"`
	Crossed    int            `json:"unsat_cross_checked_cvc5,omitempty"`
	Agreed     int            `json:"unsat_agreed_cvc5,omitempty"`
	fns        map[string]bool
	samples    []Sample
}

type Confirmed struct {
	Violation
	Detail string `json:"detail"`
}

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open | fixed
	Tag      string `json:"tag"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var r []Known
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil {
			r = append(r, k)
		}
	}
	return r
}

func main() {
	flag.Parse()
	if *flagCLI != "" {
		src, dst, _ := strings.Cut(*flagCLI, ":")
		if err := genCLI(src, dst); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	if *flagCross < 0 {
		*flagCross = 0
		if *flagTier == "thorough" {
			*flagCross = 50
		}
	}
	harnessPkg = "verif/harness/" + *flagPkg
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	P, hp, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	docs := map[string]string{}
	for _, f := range hp.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
			}
		}
	}
	var names []string
	for n, mem := range P.pkgs[harnessPkg].Members {
		if _, ok := mem.(*ssa.Function); ok && (strings.HasPrefix(n, *flagProp+"_") || *flagPkg == "selftest" && strings.HasPrefix(n, *flagProp) && strings.Contains(n, "_")) {
			if *flagH == "" || strings.Contains(n, *flagH) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "error: no harness for", *flagProp)
		os.Exit(2)
	}
	if *flagV {
		fmt.Fprintln(os.Stderr, "loaded", time.Since(t0))
	}
	ms := make([]*Machine, *flagWork)

	var wg sync.WaitGroup
	// compile package initialisers once, then the rest in parallel
	ms[0] = newMachine(P)
	if *flagV {
		fmt.Fprintln(os.Stderr, "init", time.Since(t0))
	}
	for i := 1; i < len(ms); i++ {
		wg.Add(1)
		go func() { defer wg.Done(); ms[i] = newMachine(P) }()
	}
	wg.Wait()
	if *flagV {
		fmt.Fprintln(os.Stderr, "init all", time.Since(t0))
		for _, s := range ms[0].initProblems {
			fmt.Fprintln(os.Stderr, s)
		}
	}

	seed := uint64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	known := loadKnown()
	var results []harnessResult
	var confirmed []Confirmed
	knownHit := map[string]Confirmed{}
	for hi, n := range names {
		if *flagFirst && len(confirmed) > 0 {
			break
		}
		if !skipTier(docs[n]) {
			r, conf := runHarness(P, ms, n, docs[n], seed, t0, len(names)-hi)
			results = append(results, r)
			for _, c := range conf {
				if k := matchKnown(known, c); k != "" {
					knownHit[k] = c
					continue
				}
				confirmed = append(confirmed, c)
			}
		}
	}
	for _, m := range ms {
		m.sol.close()
		if m.sol2 != nil {
			m.sol2.close()
		}
	}
	writeEvidence(results, confirmed, knownHit, seed, time.Since(t0))
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, k)
	}
	if len(confirmed) > 0 {
		dir := filepath.Join(*flagVerif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for i, c := range confirmed {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *flagProp, i))
			b, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("  %s: %s: %s [%s] %s\n", c.Harness, c.Kind, c.Msg, c.Where, c.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, p)
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s harnesses=%d wall=%.1fs\n", *flagProp, *flagTier, len(results), time.Since(t0).Seconds())
}

func matchKnown(known []Known, c Confirmed) string {
	for _, k := range known {
		if k.Property == *flagProp && k.Status == "open" && k.Tag != "" && k.Tag == c.Tag && strings.Contains(c.Msg, k.Msg) {
			return k.What
		}
	}
	return ""
}

// directive reads "@key value" lines of a harness doc comment.
func directive(doc, key string) string {
	for _, l := range strings.Split(doc, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "@"+key+" ") {
			return strings.TrimSpace(l[len(key)+2:])
		}
	}
	return ""
}

func skipTier(doc string) bool {
	return directive(doc, "tier") == "thorough" && *flagTier != "thorough"
}

func runHarness(P *Program, ms []*Machine, name, doc string, seed uint64, t0 time.Time, left int) (harnessResult, []Confirmed) {
	budget := *flagBudget
	maxStep := int64(3_000_000)
	if s := directive(doc, "steps"); s != "" {
		fmt.Sscan(s, &maxStep)
	}
	if budget == 0 {
		budget = 60
		if *flagTier == "thorough" {
			budget = 900
		}
		if s := directive(doc, *flagTier); s != "" {
			fmt.Sscan(s, &budget)
		}
		if *flagTier != "thorough" {
			// never let a quick check approach the 900 s limit
			rem := 600 - time.Since(t0).Seconds()
			if budget > rem {
				budget = rem
			}
		}
	}
	e := &Explorer{harness: name, violKeys: map[string]int{}, reach: map[string]int{}, ends: map[string]int{}, unsup: map[string]int{}, fns: map[string]bool{}, seed: seed, maxStep: maxStep, forks: map[string]int{}, slow: map[string]float64{}}
	e.cond = sync.NewCond(&e.mu)
	if *flagTier == "thorough" {
		e.tier = 1
	}
	e.fn = P.pkgs[harnessPkg].Func(name)
	e.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	e.stack = []Path{{}}
	start := time.Now()
	var wg sync.WaitGroup
	q0, s0, u0, k0 := 0, 0, 0, 0
	var sp0 time.Duration
	tot := func() (q, s, u, k int, d time.Duration) {
		for _, m := range ms {
			for _, so := range []*Solver{m.sol, m.sol2} {
				if so != nil {
					q += so.queries
					s += so.sat
					u += so.unsat
					k += so.unknown
					d += so.spent
				}
			}
		}
		return
	}
	q0, s0, u0, k0, sp0 = tot()
	for _, m := range ms {
		m.E = e
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				p, ok := e.next()
				if !ok {
					return
				}
				end := m.safeRun(p)
				m.finish(end)
				e.done()
			}
		}()
	}
	stopTick := make(chan bool)
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		for {
			select {
			case <-stopTick:
				t.Stop()
				return
			case <-t.C:
				e.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(stopTick)
	q1, s1, u1, k1, sp1 := tot()
	r := harnessResult{Name: name, Bounds: doc, Paths: e.paths, Ends: e.ends, Asserts: e.asserts, Proved: e.provedA, Steps: e.steps,
		Queries: q1 - q0, Sat: s1 - s0, UnsatN: u1 - u0, UnknownN: k1 - k0, SolverS: (sp1 - sp0).Seconds(), WallS: time.Since(start).Seconds(),
		Complete: !e.timedOut && len(e.unsup) == 0 && k1 == k0, Reduced: e.unsup, Reach: e.reach, fns: e.fns, Candidates: len(e.viol), samples: e.samples}
	for _, m := range ms {
		for _, so := range []*Solver{m.sol, m.sol2} {
			if so == nil {
				continue
			}
			r.Crossed += so.crossed
			r.Agreed += so.agreed
			for _, q := range so.crossNo {
				e.unsup["cvc5 finds a model where z3 has none"]++
				fmt.Fprintf(os.Stderr, "cvc5 disagrees:\n%s", q)
				r.Complete = false
			}
			so.crossed, so.agreed, so.crossNo = 0, 0, nil
		}
	}
	if r.Complete && len(e.viol) == 0 && len(e.reach) == 0 && strings.HasPrefix(r.Name, "C") {
		// nothing was checked to the end: never count that as coverage
		e.unsup["vacuous: no path reaches the end"]++
		r.Complete = false
	}
	for _, m := range ms {
		for k := range m.x.tab { // keep term tables bounded between harnesses
			_ = k
			break
		}
		if len(m.x.tab) > 2_000_000 {
			m.resetTerms()
		}
	}
	var conf []Confirmed
	if !*flagNoRep {
		conf = replayAll(&r, e)
	} else {
		for _, v := range e.viol {
			fmt.Printf("cand %s %s [%s] tag=%s %v\n", v.Kind, v.Msg, v.Where, v.Tag, fmtInputs(v.Inputs))
		}
	}
	if *flagV {
		top := sortedKeys(e.forks)
		sort.SliceStable(top, func(i, j int) bool { return e.forks[top[i]] > e.forks[top[j]] })
		for i, k := range top {
			if i < 12 {
				fmt.Fprintf(os.Stderr, "fork %6d %s\n", e.forks[k], strings.ReplaceAll(k, repoPrefix+"midiasm/", ""))
			}
		}
		var st []string
		for k := range e.slow {
			st = append(st, k)
		}
		sort.Slice(st, func(i, j int) bool { return e.slow[st[i]] > e.slow[st[j]] })
		for i, k := range st {
			if i < 8 {
				fmt.Fprintf(os.Stderr, "time %6.2f %s\n", e.slow[k], strings.ReplaceAll(k, repoPrefix+"midiasm/", ""))
			}
		}
		b, _ := json.Marshal(r)
		fmt.Fprintln(os.Stderr, string(b))
	}
	return r, conf
}

func fmtInputs(in []Input) string {
	var p []string
	for _, i := range in {
		p = append(p, fmt.Sprintf("%s:%#x", i.Kind, i.Val))
	}
	return strings.Join(p, " ")
}

// safeRun turns an engine failure into an "unsupported" end for the path.
func (m *Machine) safeRun(p Path) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if *flagV {
				fmt.Fprintln(os.Stderr, "engine panic:", r, string(debug.Stack()))
			}
			m.keepProbe()
			m.rollback()
			m.lastStack = ""
			for f := m.curFr; f != nil; f = f.caller {
				m.lastStack += "  " + f.fi.name + "\n"
			}
			end = pathEnd{"unsupported", fmt.Sprintf("engine: %v", r)}
		}
	}()
	return m.runPath(p)
}

type replayOut struct {
	Result string   `json:"result"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Tag    string   `json:"tag"`
	Used   []Input  `json:"used"`
}

// started is the time at which the check was started.
var started = time.Now()

func nativeRun(harness string, inputs []Input, timeout time.Duration) replayOut {
	return nativeRunExt(harness, inputs, 0, false, timeout)
}

func nativeRunExt(harness string, inputs []Input, extend uint64, vary bool, timeout time.Duration) replayOut {
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return replayOut{Result: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(map[string]any{"harness": harness, "inputs": inputs, "tier": *flagTier, "extend": extend, "vary": vary})
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	os.WriteFile(in, b, 0o644)
	cmd := exec.Command(*flagReplay, in, out, dir)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	done := make(chan error, 1)
	if start := time.Now(); *flagV {
		defer func() {
			if d := time.Since(start); d > time.Second {
				fmt.Fprintf(os.Stderr, "SLOW %s %.1fs\n", harness, d.Seconds())
			}
		}()
	}
	if err := cmd.Start(); err != nil {
		return replayOut{Result: "error", Msg: err.Error()}
	}
	go func() { done <- cmd.Wait() }()
	var res replayOut
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return replayOut{Result: "hang"}
	}
	ob, rerr := os.ReadFile(out)
	if err != nil && strings.Contains(err.Error(), "signal: killed") {
		return replayOut{Result: "error", Msg: err.Error()} // the machine ran out of memory
	}
	if rerr != nil || json.Unmarshal(ob, &res) != nil {
		return replayOut{Result: "panic", Msg: fmt.Sprintf("process died: %v", err)}
	}
	return res
}

// witness is where a violation is that the native run of a path shows and the encoding does not.
const witness = "native replay of a symbolic path witness"

func replayAll(r *harnessResult, e *Explorer) []Confirmed {
	var conf []Confirmed
	var mu sync.Mutex
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	seen := map[string]int{}
	var slow []Violation
	for _, v := range e.viol {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			ok := false
			var o replayOut
			tries := 1
			if v.Kind != "hang" {
				tries = 4
			}
			for t := 0; t < tries && !ok; t++ {
				o = nativeRun(v.Harness, v.Inputs, 15*time.Second)
				ok = o.Result == "assert" || o.Result == "panic" || o.Result == "hang"
			}
			mu.Lock()
			defer mu.Unlock()
			if o.Result == "hang" {
				slow = append(slow, v) // or only a busy machine
			} else if ok {
				r.Confirmed++
				k := v.Kind + v.Msg + v.Where + v.Tag
				seen[k]++
				if seen[k] == 1 {
					conf = append(conf, Confirmed{v, "native: " + o.Result + " " + o.Msg})
				}
			} else {
				r.Unconf = append(r.Unconf, fmt.Sprintf("%s %s [%s] native=%s %s %s", v.Kind, v.Msg, v.Where, o.Result, o.Msg, fmtInputs(v.Inputs)))
			}
		}()
	}
	n := 0
	for _, s := range e.samples {
		if n >= *flagSamples {
			break
		}
		n++
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o := nativeRun(e.harness, s.Inputs, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			r.Samples++
			if o.Result == "hang" {
				slow = append(slow, Violation{Harness: e.harness, Kind: o.Result, Where: witness, Inputs: s.Inputs, Tag: s.Tag})
			} else if o.Result == "ok" && obsMatch(s.Obs, o.Obs) {
				r.SamplesOK++
			} else if o.Result == "assert" || o.Result == "panic" {
				// the real code fails where the encoding passed: a violation the encoding missed
				v := Violation{Harness: e.harness, Kind: o.Result, Msg: o.Msg, Where: witness, Inputs: s.Inputs, Tag: s.Tag}
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("%s %s %s", o.Result, o.Msg, fmtInputs(s.Inputs)))
				conf = append(conf, Confirmed{v, "native: " + o.Result + " " + o.Msg})
			} else {
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("%s %s want %v got %v %s", o.Result, o.Msg, s.Obs, o.Obs, fmtInputs(s.Inputs)))
			}
		}()
	}
	wg.Wait()
	// what did not end in time is run again by itself, with time enough for a busy machine
	for i, v := range slow {
		o := replayOut{Result: "slow"}
		if limit := started.Add(800 * time.Second); i < 3 && len(conf) == 0 && (*flagTier == "thorough" || time.Now().Add(time.Minute).Before(limit)) {
			o = nativeRun(v.Harness, v.Inputs, 60*time.Second)
		}
		if o.Result == "assert" || o.Result == "panic" || o.Result == "hang" {
			r.Confirmed++
			conf = append(conf, Confirmed{v, "native: " + o.Result + " " + o.Msg})
		} else if o.Result == "ok" && v.Where == witness {
			r.SamplesOK++
		} else {
			r.Unconf = append(r.Unconf, fmt.Sprintf("%s %s [%s] native=%s %s %s", v.Kind, v.Msg, v.Where, o.Result, o.Msg, fmtInputs(v.Inputs)))
		}
	}
	if len(r.Unconf) > 0 || len(r.Mismatch) > 0 {
		r.Complete = false
	}
	if len(conf) == 0 && !r.Complete {
		conf = append(conf, supplement(r, e)...)
	}
	sort.Slice(conf, func(i, j int) bool { return conf[i].Msg < conf[j].Msg })
	return conf
}

// nRandom is the number of native runs with made up values of an incomplete harness.
var nRandom = 96

// supplement looks for a violation with native runs where the encoding did not
// decide everything: on paths that left the encoding (their solver models, with
// made up values for the inputs they did not get to read), and near candidates
// that were not confirmed.  It never counts as coverage: the harness stays
// incomplete, but a failure of the real code found this way is a failure.
func supplement(r *harnessResult, e *Explorer) []Confirmed {
	type job struct {
		in   []Input
		vary bool
		what string
	}
	var jobs []job
	for _, p := range e.probes {
		jobs = append(jobs, job{p, false, "a path outside the encoding"}, job{p, true, "a path outside the encoding, values varied"}, job{p, true, "a path outside the encoding, values varied"})
	}
	for _, v := range e.viol {
		for i := 0; i < 12; i++ {
			jobs = append(jobs, job{v.Inputs, true, "an unconfirmed candidate, values varied"})
		}
	}
	if !r.Complete {
		for i := 0; i < nRandom; i++ {
			jobs = append(jobs, job{[]Input{}, false, "values made up"})
		}
	}
	var conf []Confirmed
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	seen := map[string]bool{}
	limit := time.Now().Add(30 * time.Second)
	for i, j := range jobs {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if time.Now().After(limit) {
				return
			}
			o := nativeRunExt(e.harness, j.in, e.seed*1000003+uint64(i)+1, j.vary, 15*time.Second)
			mu.Lock()
			defer mu.Unlock()
			r.Supplement++
			if o.Result != "assert" && o.Result != "panic" {
				return
			}
			v := Violation{Harness: e.harness, Kind: o.Result, Msg: o.Msg, Where: "native run: " + j.what, Inputs: o.Used, Tag: o.Tag}
			if len(o.Used) == 0 {
				v.Inputs, v.Extend, v.Vary = j.in, e.seed*1000003+uint64(i)+1, j.vary
			}
			k := o.Result + o.Msg + o.Tag
			if !seen[k] {
				seen[k] = true
				conf = append(conf, Confirmed{v, "native: " + o.Result + " " + o.Msg})
			}
		}()
	}
	wg.Wait()
	return conf
}

func obsMatch(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if strings.Contains(a[i], "…") {
			continue
		}
		if a[i] != b[i] && validUTF8(a[i]) != validUTF8(b[i]) {
			return false
		}
	}
	return true
}

func (m *Machine) resetTerms() {
	// drop the term table: only safe between harnesses; globals hold constants only
	m.x.tab = map[tkey]*Term{}
	m.sol.cache = map[string]cached{}
	if m.sol2 != nil {
		m.sol2.cache = map[string]cached{}
	}
	m.sol.restart()
	if m.sol2 != nil {
		m.sol2.restart()
	}
}

func writeEvidence(rs []harnessResult, conf []Confirmed, known map[string]Confirmed, seed uint64, wall time.Duration) {
	fns := map[string]bool{}
	paths, replayed, q := 0, 0, 0
	var steps int64
	var solver float64
	var samples []any
	complete := true
	for _, r := range rs {
		for f := range r.fns {
			if strings.Contains(f, repoPrefix) {
				fns[f] = true
			}
		}
		paths += r.Paths
		steps += r.Steps
		q += r.Queries
		solver += r.SolverS
		replayed += r.SamplesOK
		complete = complete && r.Complete
		for i, s := range r.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Name, "inputs": fmtInputs(s.Inputs), "observed": s.Obs})
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, repoPrefix+"midiasm/", ""))
	}
	sort.Strings(fl)
	var kf []string
	for k := range known {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	ev := map[string]any{
		"property": *flagProp, "tier": *flagTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": replayed, "samples": samples,
			"exhaustive":        complete,
			"explanation":       "states = symbolic paths of the real code explored (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically; traces validated = path witnesses run through the natively compiled code with identical observations",
			"functions_encoded": fl, "harnesses": rs, "solver_queries": q, "solver_seconds": solver, "known_findings": kf,
		},
		"assumptions": []string{
			"go/ssa lowering of /repo's current source and this engine's SSA semantics are faithful (sampled path witnesses are replayed natively on every run)",
			"z3 answers are right (unknown/error answers are never counted as discharged)",
			"modelled library code: fmt, log, regexp, encoding/json, text/template, reflect.TypeOf, os (virtual files); floating point is uninterpreted; map iteration follows insertion order; goroutines are scheduled run-to-block with a symbolic choice at select",
		},
		"wall_s": wall.Seconds(), "violations": len(conf),
	}
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*flagVerif, "evidence", *flagProp+".json"), b, 0o644)
}

// validUTF8 is the string as it comes back from JSON.
func validUTF8(s string) string {
	b, _ := json.Marshal(s)
	json.Unmarshal(b, &s)
	return s
}
