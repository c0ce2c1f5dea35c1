package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- exploration ----------

type Dec struct {
	b, implied bool
	v          uint64
}

type Path struct {
	prefix []Dec
	model  map[string]uint64
}

type Input struct {
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	t    *Term
}

type Obs struct {
	Label string
	vals  []Value
}

type Violation struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"` // assert, panic, hang
	Msg     string   `json:"msg"`
	Where   string   `json:"where"`
	Inputs  []Input  `json:"inputs"`
	Obs     []string `json:"obs,omitempty"`
	Tag     string   `json:"tag,omitempty"`
	Extend  uint64   `json:"extend,omitempty"`
	Vary    bool     `json:"vary,omitempty"`
}

type Sample struct {
	Inputs []Input
	Obs    []string
	End    string
	Tag    string
}

// Explorer holds the shared work queue and results for one harness.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Path
	busy     int
	stop     bool
	deadline time.Time
	picks    uint64

	harness  string
	fn       *ssa.Function
	viol     []Violation
	violKeys map[string]int
	samples  []Sample
	reach    map[string]int
	ends     map[string]int
	unsup    map[string]int
	paths    int
	assumed  int
	asserts  int64
	provedA  int64
	steps    int64
	timedOut bool
	maxPaths int
	maxStep  int64
	seed     uint64
	fns      map[string]bool
	tier     int
	knownCut bool
	forks    map[string]int
	slow     map[string]float64
	probes   [][]Input
	nprobe   int
}

type pathEnd struct {
	kind string // ok, assume, budget, unsupported, violation, exit, infeasible
	msg  string
}

type targetPanic struct {
	v     Iface
	where string
}

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fns     sync.Map // *ssa.Function -> *fnInfo
	gmu     sync.Mutex
	gidx    map[*ssa.Global]int
	nglob   int32
	tcanon  sync.Map
	tmu     sync.Mutex
	tlist   map[string][]types.Type
	meths   sync.Map
	embeds  map[string]string // pkgpath.var -> file contents
	initSet map[string]bool
}

type jent struct {
	p   *Value
	old Value
}

type Machine struct {
	P    *Program
	E    *Explorer
	x    *Ctx
	sol  *Solver
	sol2 *Solver

	globals []*Value
	journal []jent
	undo    []func()
	pathGen uint64

	// path state
	prefix       []Dec
	pos          int
	dec          []Dec
	pc           []*Term
	inputs       []Input
	obs          []Obs
	steps        int64
	depth        int
	nvar         int
	inInit       bool
	initProblems []string
	natives      map[any]any
	out          map[string][]*Str

	// cooperative goroutines
	sched    *Sched
	curG     *G
	fs       *VFS
	coverage map[*ssa.Function]bool

	tag       string
	sample    *Sample
	probe     []Input
	lastStack string
	curFr     *Frame
	unknowns  int
	stepsTot  int64
}

func (m *Machine) unsupported(format string, a ...any) {
	m.lastStack = ""
	for f := m.curFr; f != nil; f = f.caller {
		m.lastStack += "  " + f.fi.name + "\n"
	}
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

func (m *Machine) assertLit(c *Term, v bool, implied bool) {
	if !implied {
		if v {
			m.pc = append(m.pc, m.x.canonConst(c))
		} else {
			m.pc = append(m.pc, m.x.BNot(c))
		}
	}
	m.x.learn(c, v)
}

func (m *Machine) exportModel(mod []uint64) map[string]uint64 {
	r := map[string]uint64{}
	for i, v := range mod {
		if v != 0 && i < len(m.x.leaves) {
			r[m.x.leaves[i].name] = v
		}
	}
	return r
}

func (m *Machine) importModel(mm map[string]uint64) {
	mod := make([]uint64, len(m.x.leaves)+16)
	for n, v := range mm {
		l, ok := m.x.names[n]
		if !ok {
			// width is encoded in the name suffix
			w := 0
			if i := strings.LastIndexByte(n, '_'); i >= 0 {
				fmt.Sscanf(n[i+1:], "%d", &w)
			}
			op := OpVar
			if n[0] == 'u' {
				op = OpUF
			}
			l = m.x.leaf(op, n, uint8(w))
		}
		for int(l.vidx) >= len(mod) {
			mod = append(mod, 0)
		}
		mod[l.vidx] = v
	}
	m.x.setModel(mod)
}

func (m *Machine) query(q *Term) (Res, []uint64) {
	if *flagV {
		t0 := time.Now()
		defer func() {
			k := m.forkSite()
			m.E.mu.Lock()
			m.E.slow[k] += time.Since(t0).Seconds()
			m.E.mu.Unlock()
		}()
	}
	r, mod := m.sol.check(m.pc, q, m.x.modelVal)
	if r == Unknown {
		if m.sol2 == nil {
			m.sol2 = newSolver(m.x, "z3", 20000)
		}
		// definitions are tracked per solver generation
		m.sol2.restart()
		r, mod = m.sol2.check(m.pc, q, m.x.modelVal)
		m.sol.restart()
		if r == Unknown {
			m.unknowns++
		}
	}
	return r, mod
}

func (m *Machine) forkSite() string {
	s := ""
	n := 0
	for f := m.curFr; f != nil && n < 4; f = f.caller {
		s += f.fi.name + " < "
		n++
	}
	return s
}

func (m *Machine) enqueue(d Dec, mod []uint64) {
	if *flagV {
		k := m.forkSite()
		m.E.mu.Lock()
		m.E.forks[k]++
		m.E.mu.Unlock()
	}
	pre := make([]Dec, len(m.dec)+1)
	copy(pre, m.dec)
	pre[len(m.dec)] = d
	p := Path{prefix: pre, model: m.exportModel(mod)}
	e := m.E
	e.mu.Lock()
	e.stack = append(e.stack, p)
	e.cond.Signal()
	e.mu.Unlock()
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.op == OpConst {
		return c.c != 0
	}
	if lo, hi := m.x.ival(c); lo == hi {
		return lo == 1
	}
	if m.inInit {
		panic("symbolic branch during init")
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.dec = append(m.dec, d)
		m.assertLit(c, d.b, d.implied)
		return d.b
	}
	v := m.x.eval(c) == 1
	other := c
	if v {
		other = m.x.BNot(c)
	}
	res, mod := m.query(other)
	if res == Sat {
		m.enqueue(Dec{b: !v}, mod)
	}
	d := Dec{b: v, implied: res == Unsat}
	m.pos++
	m.dec = append(m.dec, d)
	m.prefix = m.dec
	m.assertLit(c, v, d.implied)
	m.checkDeadline()
	return v
}

func (m *Machine) checkDeadline() {
	if time.Now().After(m.E.deadline) {
		panic(pathEnd{"timeout", ""})
	}
}

// concretize enumerates the feasible values of t by forking.
func (m *Machine) concretize(t *Term) uint64 {
	for {
		if t.op == OpConst {
			return t.c
		}
		if lo, hi := m.x.ival(t); lo == hi {
			return lo
		}
		var d Dec
		if m.pos < len(m.prefix) {
			d = m.prefix[m.pos]
			m.pos++
			m.dec = append(m.dec, d)
			m.assertLit(m.x.Eq(t, mkConst(t.w, d.v)), d.b, d.implied)
			if d.b {
				return d.v
			}
			continue
		}
		v := m.x.eval(t)
		eq := m.x.Eq(t, mkConst(t.w, v))
		if eq.op == OpConst {
			return v
		}
		res, mod := m.query(m.x.BNot(eq))
		if res == Sat {
			m.enqueue(Dec{b: false, v: v}, mod)
		}
		d = Dec{b: true, v: v, implied: res == Unsat}
		m.pos++
		m.dec = append(m.dec, d)
		m.prefix = m.dec
		m.assertLit(eq, true, d.implied)
		m.checkDeadline()
		return v
	}
}

// choose is a pure nondeterministic choice among n alternatives.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.dec = append(m.dec, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m.enqueue(Dec{b: true, v: uint64(i)}, m.x.model)
	}
	d := Dec{b: true, v: 0}
	m.pos++
	m.dec = append(m.dec, d)
	m.prefix = m.dec
	m.checkDeadline()
	return 0
}

func (m *Machine) assume(c *Term) {
	if c.op == OpConst {
		if c.c == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if lo, hi := m.x.ival(c); lo == hi {
		if lo == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.x.eval(c) != 1 {
		res, mod := m.query(c)
		switch res {
		case Unsat:
			panic(pathEnd{"assume", ""})
		case Unknown:
			panic(pathEnd{"unknown", "assume"})
		}
		m.x.setModel(mod)
	}
	m.assertLit(c, true, false)
}

func (m *Machine) check(c *Term, msg string, where string) {
	atomic.AddInt64(&m.E.asserts, 1)
	if c.op == OpConst {
		if c.c == 0 {
			m.violation("assert", msg, where)
			panic(pathEnd{"violation", msg})
		}
		atomic.AddInt64(&m.E.provedA, 1)
		return
	}
	if lo, hi := m.x.ival(c); lo == hi && lo == 1 {
		atomic.AddInt64(&m.E.provedA, 1)
		return
	}
	if m.pos < len(m.prefix) {
		// already decided when this prefix was first executed
		m.assertLit(c, true, false)
		return
	}
	if m.x.eval(c) == 0 {
		m.violation("assert", msg, where)
		res, mod := m.query(c)
		if res != Sat {
			panic(pathEnd{"violation", msg})
		}
		m.x.setModel(mod)
		m.assertLit(c, true, false)
		return
	}
	if cs := conjuncts(c, nil); len(cs) > 1 && m.x.hardArith(c, map[*Term]bool{}) {
		// one query per conjunct
		proved := true
		for _, k := range cs {
			if res, _ := m.query(m.x.BNot(k)); res != Unsat {
				proved = false
				break
			}
		}
		if proved {
			atomic.AddInt64(&m.E.provedA, 1)
			m.assertLit(c, true, true)
			m.checkDeadline()
			return
		}
	}
	res, mod := m.query(m.x.BNot(c))
	switch res {
	case Sat:
		save := m.x.model
		m.x.setModel(mod)
		m.violation("assert", msg, where)
		m.x.setModel(save)
		m.assertLit(c, true, false)
	case Unsat:
		atomic.AddInt64(&m.E.provedA, 1)
		m.assertLit(c, true, true)
	default:
		m.assertLit(c, true, false)
	}
	m.checkDeadline()
}

func (m *Machine) inputsNow() []Input {
	r := make([]Input, len(m.inputs))
	for i, in := range m.inputs {
		r[i] = Input{Kind: in.Kind, Val: in.Val}
		if in.t != nil {
			r[i].Val = m.x.eval(in.t)
		}
	}
	return r
}

func (m *Machine) obsNow() []string {
	var r []string
	for _, o := range m.obs {
		var parts []string
		for _, v := range o.vals {
			parts = append(parts, m.renderModel(v))
		}
		r = append(r, o.Label+"="+strings.Join(parts, ","))
	}
	return r
}

func (m *Machine) violation(kind, msg, where string) {
	e := m.E
	v := Violation{Harness: e.harness, Kind: kind, Msg: msg, Where: where, Inputs: m.inputsNow(), Tag: m.tag}
	e.mu.Lock()
	k := kind + "|" + msg + "|" + where + "|" + m.tag
	e.violKeys[k]++
	if e.violKeys[k] <= 3 {
		e.viol = append(e.viol, v)
	}
	e.mu.Unlock()
}

// ---------- runtime panics ----------

func (m *Machine) throw(fr *Frame, msg string) {
	panic(targetPanic{v: m.mkError("runtime error: " + msg), where: m.where(fr)})
}

func (m *Machine) where(fr *Frame) string {
	if fr == nil {
		return "?"
	}
	// innermost frame in the project under test
	for f := fr; f != nil; f = f.caller {
		if f.fi != nil && f.fi.fn.Pkg != nil && strings.HasPrefix(f.fi.fn.Pkg.Pkg.Path(), "github.com/transcriptaze/") {
			return f.fi.fn.String()
		}
	}
	return fr.fi.fn.String()
}

func (m *Machine) mkError(msg string) Iface {
	return m.mkErrorStr(cstr(msg))
}

func (m *Machine) mkErrorStr(s *Str) Iface {
	pkg := m.P.pkgs["errors"]
	t := pkg.Type("errorString").Type()
	p := new(Value)
	*p = Struct{s}
	return Iface{t: m.P.canon(types.NewPointer(t)), v: p}
}

// ---------- types ----------

func (p *Program) canon(t types.Type) types.Type {
	if c, ok := p.tcanon.Load(t); ok {
		return c.(types.Type)
	}
	p.tmu.Lock()
	defer p.tmu.Unlock()
	k := types.TypeString(t, nil)
	for _, c := range p.tlist[k] {
		if types.Identical(c, t) {
			p.tcanon.Store(t, c)
			return c
		}
	}
	p.tlist[k] = append(p.tlist[k], t)
	p.tcanon.Store(t, t)
	return t
}

type methKey struct {
	t    types.Type
	name string
}

func (p *Program) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if f, ok := p.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	var f *ssa.Function
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel != nil {
		f = p.prog.MethodValue(sel)
	}
	p.meths.Store(k, f)
	return f
}

// ---------- heap writes ----------

func (m *Machine) set(p *Value, v Value) {
	if !m.inInit {
		m.journal = append(m.journal, jent{p, *p})
	}
	*p = v
}

func (m *Machine) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			for i := range v {
				m.store(&old[i], v[i])
			}
			return
		}
		m.set(p, copyVal(v))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			for i := range v {
				m.store(&old[i], v[i])
			}
			return
		}
		m.set(p, copyVal(v))
	default:
		m.set(p, v)
	}
}

func (m *Machine) rollback() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		*m.journal[i].p = m.journal[i].old
	}
	if cap(m.journal) > 1<<20 {
		m.journal = nil
	}
	m.journal = m.journal[:0]
	for i := len(m.undo) - 1; i >= 0; i-- {
		m.undo[i]()
	}
	m.undo = m.undo[:0]
}

// ---------- worker loop ----------

func (e *Explorer) next() (Path, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			if len(e.stack) > 0 {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return Path{}, false
		}
		if n := len(e.stack); n > 0 {
			// depth first, with every fourth path picked from anywhere so that a
			// time budget that runs out still leaves a broad sample explored
			e.picks++
			if e.picks%4 == 0 {
				j := int(e.picks*2654435761>>7) % n
				e.stack[j], e.stack[n-1] = e.stack[n-1], e.stack[j]
			}
			p := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.busy++
			return p, true
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return Path{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 && len(e.stack) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (m *Machine) runPath(p Path) (end pathEnd) {
	m.prefix = p.prefix
	m.pos = 0
	m.dec = make([]Dec, 0, len(p.prefix)+16)
	m.pc = m.pc[:0]
	m.inputs = nil
	m.obs = nil
	m.steps = 0
	m.depth = 0
	m.nvar = 0
	m.tag = ""
	m.pathGen++
	m.natives = map[any]any{}
	m.out = map[string][]*Str{}
	m.fs = newVFS()
	m.x.resetPath()
	m.importModel(p.model)
	defer m.rollback()
	end = m.runMain(m.E.fn)
	m.sample = nil
	m.probe = nil
	if end.kind == "unsupported" || end.kind == "budget" || end.kind == "unknown" {
		m.keepProbe()
	}
	if end.kind == "ok" {
		e := m.E
		e.mu.Lock()
		want := len(e.samples) < 40 || (e.paths*2654435761+int(e.seed))%97 == 0 && len(e.samples) < 200
		e.mu.Unlock()
		if want {
			m.sample = &Sample{Inputs: m.inputsNow(), Obs: m.obsNow(), End: end.kind, Tag: m.tag}
		}
	}
	return end
}

// maxProbes is the number of paths that left the encoding whose inputs are kept.
const maxProbes = 48

// keepProbe keeps the inputs of a path that left the encoding, for native runs.
func (m *Machine) keepProbe() {
	defer func() { recover() }()
	m.probe = m.inputsNow()
	if m.probe == nil {
		m.probe = []Input{}
	}
}

func (m *Machine) finish(end pathEnd) {
	e := m.E
	s := m.sample
	m.sample = nil
	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	e.ends[end.kind]++
	if end.kind == "unsupported" && *flagV && e.unsup[end.kind+": "+end.msg] == 0 {
		fmt.Fprintf(os.Stderr, "unsupported: %s\n%s", end.msg, m.lastStack)
	}
	if end.kind == "unsupported" || end.kind == "budget" || end.kind == "unknown" {
		e.unsup[end.kind+": "+end.msg]++
	}
	if pr := m.probe; pr != nil {
		e.nprobe++
		if len(e.probes) < maxProbes {
			e.probes = append(e.probes, pr)
		} else if j := e.nprobe * 2654435761 >> 7 % e.nprobe; j < maxProbes {
			e.probes[j] = pr
		}
	}
	m.probe = nil
	if end.kind == "timeout" {
		e.timedOut = true
	}
	e.steps += m.steps
	if s != nil {
		e.samples = append(e.samples, *s)
	}
	for f := range m.coverage {
		if f.Pkg != nil {
			e.fns[f.String()] = true
		}
	}
	clear(m.coverage)
	if e.maxPaths > 0 && e.paths >= e.maxPaths && !e.stop {
		if len(e.stack) > 0 || e.busy > 1 {
			e.timedOut = true
		}
		e.stop = true
		e.cond.Broadcast()
	}
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = token.NoPos

// conjuncts flattens a conjunction.
func conjuncts(t *Term, out []*Term) []*Term {
	if t.op == OpBAnd {
		return conjuncts(t.b, conjuncts(t.a, out))
	}
	return append(out, t)
}
