package main

// A long-lived SMT solver process per worker (SMT-LIB2 over a pipe, push/pop).

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type Solver struct {
	x       *Ctx
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	cache   map[string]cached
	ndef    int
	hits    int
	gen     uint32
	queries int
	sat     int
	unsat   int
	unknown int
	errors  int
	spent   time.Duration
	timeout int // ms
	log     io.Writer
	ints    *intSolver
	intq    int
	crossed int // unsat answers given to cvc5 as well
	agreed  int
	crossNo []string
}

func newSolver(x *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{x: x, bin: bin, timeout: timeoutMs}
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.CreateTemp(p, "smt-*.smt2")
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	switch {
	case strings.Contains(s.bin, "z3"):
		args = []string{"-in", "-smt2"}
	case strings.Contains(s.bin, "cvc5"):
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.ndef = 0
	if s.cache == nil {
		s.cache = map[string]cached{}
	}
	s.x.solvGen++
	s.gen = s.x.solvGen
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	} else {
		s.send("(set-logic QF_BV)\n")
	}
}

func (s *Solver) close() {
	s.intClose()
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return bvlit(t.w, t.c)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits declarations/definitions for t and its sub-terms.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.defd == s.gen {
		return
	}
	t.defd = s.gen
	s.ndef++
	if t.op == OpVar || t.op == OpUF {
		s.send("(declare-const t" + strconv.Itoa(int(t.id)) + " " + sortOf(t.w) + ")\n")
		return
	}
	for _, c := range []*Term{t.a, t.b, t.d} {
		if c != nil {
			s.define(c)
		}
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortOf(t.w) + " " + t.body(s.ref) + ")\n")
}

// slice keeps the path-condition literals that share variables with q, directly
// or through other literals: the rest is satisfied by the path's current model,
// which stays valid for its own variables.
func (s *Solver) slice(pc []*Term, q *Term) ([]*Term, []int32) {
	in := map[int32]bool{}
	var vars []int32
	add := func(t *Term) {
		for _, v := range s.x.support(t) {
			if !in[v] {
				in[v] = true
				vars = append(vars, v)
			}
		}
	}
	add(q)
	taken := make([]bool, len(pc))
	n := 0
	for again := true; again; {
		again = false
		for i, c := range pc {
			if taken[i] {
				continue
			}
			hit := false
			for _, v := range s.x.support(c) {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				taken[i] = true
				n++
				k := len(vars)
				add(c)
				if len(vars) > k {
					again = true
				}
			}
		}
	}
	lits := make([]*Term, 0, n)
	for i, c := range pc {
		if taken[i] {
			lits = append(lits, c)
		}
	}
	return lits, vars
}

type cached struct {
	r    Res
	vars []int32
	vals []uint64
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides pc ∧ q; on Sat returns a model over the leaves known so far.
// base is a model of pc.
func (s *Solver) check(pc []*Term, q *Term, base func(int32) uint64) (Res, []uint64) {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	s.queries++
	lits, vars := s.slice(pc, q)
	full := func(c cached) []uint64 {
		m := make([]uint64, len(s.x.leaves))
		for i := range m {
			m[i] = base(int32(i))
		}
		for i, v := range c.vars {
			m[v] = c.vals[i]
		}
		return m
	}
	ids := make([]uint32, 0, len(lits)+1)
	for _, l := range lits {
		ids = append(ids, l.id)
	}
	ids = append(ids, q.id)
	slices.Sort(ids)
	key := make([]byte, 0, 4*len(ids))
	for i, v := range ids {
		if i == 0 || ids[i-1] != v {
			key = binary.LittleEndian.AppendUint32(key, v)
		}
	}
	if c, ok := s.cache[string(key)]; ok {
		s.hits++
		switch c.r {
		case Unsat:
			s.unsat++
			return Unsat, nil
		case Sat:
			s.sat++
			return Sat, full(c)
		}
	}
	seen := map[*Term]bool{}
	hard := s.x.hardArith(q, seen)
	for _, l := range lits {
		hard = hard || s.x.hardArith(l, seen)
	}
	if hard {
		r, c := s.checkInt(append(append([]*Term{}, lits...), q), vars)
		switch r {
		case Unsat:
			s.intq++
			s.unsat++
			s.cache[string(key)] = c
			return Unsat, nil
		case Sat:
			s.intq++
			s.sat++
			s.cache[string(key)] = c
			return Sat, full(c)
		}
	}
	if s.ndef > 20000 {
		s.restart()
	}
	s.send("(push 1)\n")
	for _, l := range lits {
		s.define(l)
		s.send("(assert " + s.ref(l) + ")\n")
	}
	s.define(q)
	s.send("(assert " + s.ref(q) + ")\n(check-sat)\n")
	s.in.Flush()
	l, err := s.readLine()
	if err != nil {
		s.errors++
		s.unknown++
		s.restart()
		return Unknown, nil
	}
	switch l {
	case "unsat":
		s.unsat++
		s.send("(pop 1)\n")
		s.cache[string(key)] = cached{r: Unsat}
		if *flagCross > 0 && s.unsat%*flagCross == 0 {
			s.cross(append(append([]*Term{}, lits...), q))
		}
		return Unsat, nil
	case "sat":
		c, ok := s.getModel(vars)
		if !ok {
			s.unknown++
			s.restart()
			return Unknown, nil
		}
		s.send("(pop 1)\n")
		s.sat++
		s.cache[string(key)] = c
		return Sat, full(c)
	default:
		if strings.HasPrefix(l, "(error") {
			s.errors++
			fmt.Fprintln(os.Stderr, "solver error:", l)
			s.unknown++
			s.restart()
			return Unknown, nil
		}
		s.unknown++
		s.send("(pop 1)\n")
		return Unknown, nil
	}
}

func (s *Solver) getModel(vars []int32) (cached, bool) {
	var vs []*Term
	for _, v := range vars {
		vs = append(vs, s.x.leaves[v])
	}
	m := cached{r: Sat, vars: vars, vals: make([]uint64, len(vars))}
	if len(vs) == 0 {
		return m, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(s.ref(v))
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var buf strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return m, false
		}
		buf.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := buf.String()
	if strings.HasPrefix(txt, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", txt)
		s.errors++
		return m, false
	}
	byID := map[string]int{}
	for i, v := range vs {
		byID[s.ref(v)] = i
	}
	f := strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	toks := strings.Fields(f)
	for i := 0; i < len(toks); i++ {
		idx, ok := byID[toks[i]]
		if !ok || i+1 >= len(toks) {
			continue
		}
		v := toks[i+1]
		switch {
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			m.vals[idx] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			m.vals[idx] = n
		case v == "true":
			m.vals[idx] = 1
		case v == "false":
			m.vals[idx] = 0
		case v == "(" && i+3 < len(toks) && toks[i+2] == "_":
			n, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
			m.vals[idx] = n
		}
	}
	return m, true
}

// cross gives an unsatisfiable query to cvc5, too.
func (s *Solver) cross(lits []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	def := map[*Term]bool{}
	var define func(t *Term)
	define = func(t *Term) {
		if t.op == OpConst || def[t] {
			return
		}
		def[t] = true
		if t.op == OpVar || t.op == OpUF {
			sb.WriteString("(declare-const t" + strconv.Itoa(int(t.id)) + " " + sortOf(t.w) + ")\n")
			return
		}
		for _, c := range []*Term{t.a, t.b, t.d} {
			if c != nil {
				define(c)
			}
		}
		sb.WriteString("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortOf(t.w) + " " + t.body(s.ref) + ")\n")
	}
	for _, l := range lits {
		define(l)
		sb.WriteString("(assert " + s.ref(l) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=5000")
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "unsat":
		s.crossed++
		s.agreed++
	case "sat":
		s.crossed++
		s.crossNo = append(s.crossNo, sb.String())
	}
}
