package main

// A second encoding for queries with wide multiplications and divisions by
// constants, which bit-blasting handles badly: unsigned values as integers, with
// an explicit "mod 2^w" wherever the interval analysis cannot exclude wrap-around.
// The encoding is exact; terms it does not cover are left to the bit-vector
// encoding.

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os/exec"
	"strconv"
	"strings"
)

// hardArith: t has a wide multiplication or division in it.
func (x *Ctx) hardArith(t *Term, seen map[*Term]bool) bool {
	if t == nil || t.op == OpConst || seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case OpMul, OpUDiv, OpURem, OpSDiv, OpSRem:
		if t.w >= 32 {
			return true
		}
	}
	return x.hardArith(t.a, seen) || x.hardArith(t.b, seen) || x.hardArith(t.d, seen)
}

type intEnc struct {
	sb   strings.Builder
	done map[*Term]string
	vars []*Term
	ok   bool
}

func pow2(n uint8) string {
	if n < 64 {
		return strconv.FormatUint(uint64(1)<<n, 10)
	}
	return "18446744073709551616"
}

func num(v uint64) string { return strconv.FormatUint(v, 10) }

// tz is a number of trailing zero bits t certainly has.
func tz(t *Term) int {
	switch t.op {
	case OpConst:
		if t.c == 0 {
			return int(t.w)
		}
		return bits.TrailingZeros64(t.c)
	case OpShl:
		if t.b.op == OpConst {
			return int(t.b.c) + tz(t.a)
		}
	case OpMul:
		return tz(t.a) + tz(t.b)
	case OpZExt:
		return tz(t.a)
	case OpAnd:
		return max(tz(t.a), tz(t.b))
	case OpOr, OpAdd:
		return min(tz(t.a), tz(t.b))
	}
	return 0
}

// wrap reduces an expression modulo 2^w unless it is certain to be in range.
func wrap(e string, w uint8, inRange bool) string {
	if inRange {
		return e
	}
	return "(mod " + e + " " + pow2(w) + ")"
}

func (q *intEnc) signed(t *Term) string {
	r := q.ref(t)
	half := uint64(1) << (t.w - 1)
	if t.hi < half {
		return r
	}
	if t.lo >= half {
		return "(- " + r + " " + pow2(t.w) + ")"
	}
	return "(ite (< " + r + " " + num(half) + ") " + r + " (- " + r + " " + pow2(t.w) + "))"
}

func (q *intEnc) ref(t *Term) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return num(t.c)
	}
	if r, ok := q.done[t]; ok {
		return r
	}
	n := "i" + strconv.Itoa(int(t.id))
	q.done[t] = n
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	if t.op == OpVar || t.op == OpUF {
		q.vars = append(q.vars, t)
		fmt.Fprintf(&q.sb, "(declare-const %s %s)\n", n, sort)
		if t.w > 0 {
			fmt.Fprintf(&q.sb, "(assert (and (<= 0 %s) (<= %s %s)))\n", n, n, num(mask(t.w)))
		}
		return n
	}
	b := q.body(t)
	if !q.ok {
		return n
	}
	fmt.Fprintf(&q.sb, "(define-fun %s () %s %s)\n", n, sort, b)
	return n
}

func (q *intEnc) body(t *Term) string {
	f := func(op string, a, b *Term) string { return "(" + op + " " + q.ref(a) + " " + q.ref(b) + ")" }
	no := func() string { q.ok = false; return "0" }
	m := mask(t.w)
	switch t.op {
	case OpAdd:
		hi, c := bits.Add64(t.a.hi, t.b.hi, 0)
		return wrap(f("+", t.a, t.b), t.w, c == 0 && hi <= m)
	case OpSub:
		return wrap(f("-", t.a, t.b), t.w, t.a.lo >= t.b.hi)
	case OpMul:
		if t.a.op != OpConst && t.b.op != OpConst {
			return no()
		}
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		return wrap(f("*", t.a, t.b), t.w, h == 0 && l <= m)
	case OpUDiv, OpURem:
		if t.b.op != OpConst || t.b.c == 0 {
			return no()
		}
		if t.op == OpUDiv {
			return f("div", t.a, t.b)
		}
		return f("mod", t.a, t.b)
	case OpSDiv, OpSRem:
		half := uint64(1) << (t.w - 1)
		if t.b.op != OpConst || t.b.c == 0 || t.b.c >= half {
			return no()
		}
		op := "div"
		if t.op == OpSRem {
			op = "mod"
		}
		if t.a.hi < half {
			return f(op, t.a, t.b)
		}
		s, c := q.signed(t.a), num(t.b.c)
		return wrap("(ite (< "+s+" 0) (- ("+op+" (- "+s+") "+c+")) ("+op+" "+s+" "+c+"))", t.w, false)
	case OpAnd:
		a, b := t.a, t.b
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op != OpConst {
			return no()
		}
		if b.c == 0 {
			return "0"
		}
		lo := bits.TrailingZeros64(b.c)
		k := b.c >> lo
		if k&(k+1) != 0 {
			return no()
		}
		n := uint8(bits.Len64(k))
		e := q.ref(a)
		if lo > 0 {
			e = "(div " + e + " " + pow2(uint8(lo)) + ")"
		}
		if a.hi>>lo > k {
			e = "(mod " + e + " " + pow2(n) + ")"
		}
		if lo > 0 {
			e = "(* " + e + " " + pow2(uint8(lo)) + ")"
		}
		return e
	case OpOr:
		if tz(t.a) >= bits.Len64(t.b.hi) || tz(t.b) >= bits.Len64(t.a.hi) {
			return f("+", t.a, t.b)
		}
		return no()
	case OpNot:
		return "(- " + num(m) + " " + q.ref(t.a) + ")"
	case OpShl:
		if t.b.op != OpConst || t.b.c >= uint64(t.w) {
			return no()
		}
		return wrap("(* "+q.ref(t.a)+" "+pow2(uint8(t.b.c))+")", t.w, bits.Len64(t.a.hi)+int(t.b.c) <= int(t.w))
	case OpLshr:
		if t.b.op != OpConst || t.b.c >= uint64(t.w) {
			return no()
		}
		return "(div " + q.ref(t.a) + " " + pow2(uint8(t.b.c)) + ")"
	case OpAshr:
		if t.b.op != OpConst || t.b.c >= uint64(t.w) {
			return no()
		}
		return wrap("(div "+q.signed(t.a)+" "+pow2(uint8(t.b.c))+")", t.w, t.a.hi < uint64(1)<<(t.w-1))
	case OpExtract:
		e := q.ref(t.a)
		if t.c > 0 {
			e = "(div " + e + " " + pow2(uint8(t.c)) + ")"
		}
		return wrap(e, t.w, t.a.hi>>t.c <= m)
	case OpZExt:
		return q.ref(t.a)
	case OpSExt:
		return wrap(q.signed(t.a), t.w, t.a.hi < uint64(1)<<(t.a.w-1))
	case OpIte:
		return "(ite " + q.ref(t.a) + " " + q.ref(t.b) + " " + q.ref(t.d) + ")"
	case OpEq:
		return f("=", t.a, t.b)
	case OpUlt:
		return f("<", t.a, t.b)
	case OpUle:
		return f("<=", t.a, t.b)
	case OpSlt:
		return "(< " + q.signed(t.a) + " " + q.signed(t.b) + ")"
	case OpSle:
		return "(<= " + q.signed(t.a) + " " + q.signed(t.b) + ")"
	case OpBNot:
		return "(not " + q.ref(t.a) + ")"
	case OpBAnd:
		return f("and", t.a, t.b)
	case OpBOr:
		return f("or", t.a, t.b)
	case OpDigit:
		return "(+ 48 (mod (div " + q.ref(t.a) + " " + num(pow10[t.c>>8]) + ") 10))"
	}
	return no()
}

// intSolver is a z3 process that gets each query as a whole.
type intSolver struct {
	cmd *exec.Cmd
	raw io.WriteCloser
	in  *bufio.Writer
	out *bufio.Reader
}

func (s *Solver) intStart() bool {
	if s.ints != nil {
		return true
	}
	p := &intSolver{cmd: exec.Command(s.bin, "-in", "-smt2")}
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return false
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil || p.cmd.Start() != nil {
		return false
	}
	p.raw, p.in, p.out = in, bufio.NewWriter(in), bufio.NewReader(out)
	s.ints = p
	return true
}

func (s *Solver) intClose() {
	if s.ints != nil {
		s.ints.raw.Close()
		s.ints.cmd.Process.Kill()
		s.ints.cmd.Wait()
		s.ints = nil
	}
}

// checkInt decides the literals over the integers; Unknown if it cannot.
func (s *Solver) checkInt(lits []*Term, vars []int32) (Res, cached) {
	if !strings.Contains(s.bin, "z3") {
		return Unknown, cached{}
	}
	q := &intEnc{done: map[*Term]string{}, ok: true}
	var refs []string
	for _, l := range lits {
		refs = append(refs, q.ref(l))
		if !q.ok {
			return Unknown, cached{}
		}
	}
	if !s.intStart() {
		return Unknown, cached{}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_LIA)\n", s.timeout)
	sb.WriteString(q.sb.String())
	for _, r := range refs {
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if s.log != nil {
		io.WriteString(s.log, "; over the integers\n"+sb.String())
	}
	p := s.ints
	p.in.WriteString(sb.String())
	p.in.Flush()
	l, err := p.out.ReadString('\n')
	l = strings.TrimSpace(l)
	if err != nil || strings.HasPrefix(l, "(error") {
		s.errors++
		s.intClose()
		return Unknown, cached{}
	}
	switch l {
	case "unsat":
		return Unsat, cached{r: Unsat}
	case "sat":
	default:
		return Unknown, cached{}
	}
	c := cached{r: Sat, vars: vars, vals: make([]uint64, len(vars))}
	if len(q.vars) == 0 {
		return Sat, c
	}
	p.in.WriteString("(get-value (")
	for _, v := range q.vars {
		p.in.WriteString(q.done[v] + " ")
	}
	p.in.WriteString("))\n")
	p.in.Flush()
	depth := 0
	var buf strings.Builder
	for {
		b, err := p.out.ReadByte()
		if err != nil {
			s.intClose()
			return Unknown, cached{}
		}
		buf.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	p.out.ReadString('\n')
	val := map[string]uint64{}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(buf.String()))
	for i := 0; i+1 < len(toks); i += 2 {
		switch toks[i+1] {
		case "true":
			val[toks[i]] = 1
		case "false":
			val[toks[i]] = 0
		default:
			n, err := strconv.ParseUint(toks[i+1], 10, 64)
			if err != nil {
				return Unknown, cached{}
			}
			val[toks[i]] = n
		}
	}
	for i, v := range vars {
		c.vals[i] = val[q.done[s.x.leaves[v]]]
	}
	return Sat, c
}
