package main

// Model of package regexp: native when the subject is concrete, otherwise a
// leftmost-first backtracking matcher over regexp/syntax programs whose character
// tests are decided by the solver.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"
)

type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	src  string
}

func compileRx(src string) (*rx, error) {
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &rx{re: re, prog: prog, src: src}, nil
}

type rxMatch struct {
	m    *Machine
	r    *rx
	s    *Str
	n    int
	seen map[[2]int]bool
	cap  []int
}

// runeCond builds the condition for instruction i matching rune term c.
func (q *rxMatch) runeCond(i *syntax.Inst, c *Term) *Term {
	x := q.m.x
	if c.isConst() {
		return mkBool(i.MatchRune(rune(int32(c.c))))
	}
	rr := i.Rune
	switch i.Op {
	case syntax.InstRuneAny:
		return tTrue
	case syntax.InstRuneAnyNotNL:
		return x.BNot(x.Eq(c, mkConst(32, '\n')))
	}
	if len(rr) == 1 {
		r0 := rr[0]
		cond := x.Eq(c, mkConst(32, uint64(r0)))
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
				cond = x.BOr(cond, x.Eq(c, mkConst(32, uint64(r1))))
			}
		}
		return cond
	}
	cond := tFalse
	for j := 0; j+1 < len(rr); j += 2 {
		lo, hi := mkConst(32, uint64(rr[j])), mkConst(32, uint64(rr[j+1]))
		cond = x.BOr(cond, x.BAnd(x.Ule(lo, c), x.Ule(c, hi)))
	}
	return cond
}

// step returns the rune at pos and its width.
func (q *rxMatch) step(pos int) (*Term, int) {
	if pos >= q.n {
		return nil, 0
	}
	b := q.s.at(pos)
	if b.isConst() {
		if b.c < 0x80 {
			return mkConst(32, b.c), 1
		}
		// concrete multi-byte?
		var buf []byte
		for k := pos; k < q.n && k < pos+4 && q.s.at(k).isConst(); k++ {
			buf = append(buf, byte(q.s.at(k).c))
		}
		if utf8.FullRune(buf) {
			r, w := utf8.DecodeRune(buf)
			return mkConst(32, uint64(uint32(r))), w
		}
	}
	it := &strIter{s: q.s, i: pos}
	return q.m.nextRune(nil, it)
}

func (q *rxMatch) try(pc, pos int) bool {
	for {
		k := [2]int{pc, pos}
		if q.seen[k] {
			return false
		}
		q.seen[k] = true
		i := &q.r.prog.Inst[pc]
		switch i.Op {
		case syntax.InstMatch:
			q.cap[1] = pos
			return true
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if q.try(int(i.Out), pos) {
				return true
			}
			pc = int(i.Arg)
		case syntax.InstCapture:
			if int(i.Arg) < len(q.cap) {
				old := q.cap[i.Arg]
				q.cap[i.Arg] = pos
				if q.try(int(i.Out), pos) {
					return true
				}
				q.cap[i.Arg] = old
				return false
			}
			pc = int(i.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(i.Arg)
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				q.m.unsupported("regexp empty-width op on a symbolic subject")
			}
			if op&syntax.EmptyBeginText != 0 && pos != 0 {
				return false
			}
			if op&syntax.EmptyEndText != 0 && pos != q.n {
				return false
			}
			pc = int(i.Out)
		case syntax.InstNop:
			pc = int(i.Out)
		default: // rune instructions
			if pos >= q.n {
				return false
			}
			// literal chains are decided with one condition so that impossible
			// continuations do not fork
			cond := tTrue
			cpc, cpos := pc, pos
			var ci *syntax.Inst = i
			steps := 0
			ok := true
			for {
				if cpos >= q.n {
					ok = false
					break
				}
				b := q.s.at(cpos)
				var c *Term
				w := 1
				if steps == 0 || (b.isConst() && b.c >= 0x80) {
					c, w = q.step(cpos)
				} else if b.isConst() {
					c = mkConst(32, b.c)
				} else {
					// non-ASCII handled lazily: only ASCII bytes can match here
					c = q.m.x.ZExt(b, 32)
					if !asciiOnly(ci) {
						break
					}
				}
				cond = q.m.x.BAnd(cond, q.runeCond(ci, c))
				if cond == tFalse {
					ok = false
					break
				}
				if lo, hi := q.m.x.ival(cond); lo == hi && hi == 0 {
					ok = false
					break
				}
				steps++
				cpc, cpos = int(ci.Out), cpos+w
				ni := &q.r.prog.Inst[cpc]
				if (ni.Op == syntax.InstRune1 || ni.Op == syntax.InstRune && len(ni.Rune) == 1) && (ci.Op == syntax.InstRune1 || ci.Op == syntax.InstRune && len(ci.Rune) == 1) {
					ci = ni
					continue
				}
				break
			}
			if !ok {
				return false
			}
			if !q.m.branch(cond) {
				return false
			}
			pc, pos = cpc, cpos
		}
	}
}

func asciiOnly(i *syntax.Inst) bool {
	if len(i.Rune) != 1 || i.Rune[0] >= 0x80 {
		return false
	}
	return true
}

// find returns the capture indices of the leftmost-first match at or after start.
func (m *Machine) rxFind(r *rx, s *Str, start int) []int {
	if s.concrete() && start == 0 {
		return r.re.FindStringSubmatchIndex(s.s)
	}
	q := &rxMatch{m: m, r: r, s: s, n: s.flen(), seen: map[[2]int]bool{}}
	for p := start; p <= q.n; p++ {
		q.cap = make([]int, 2*(r.re.NumSubexp()+1))
		for i := range q.cap {
			q.cap[i] = -1
		}
		q.cap[0] = p
		if q.try(r.prog.Start, p) {
			q.cap[0] = p
			return q.cap
		}
		// skip continuation bytes of concrete multi-byte runes
		if p < q.n {
			if b := s.at(p); b.isConst() && b.c >= 0xc0 {
				_, w := q.step(p)
				p += w - 1
			}
		}
	}
	return nil
}

func (m *Machine) rxOf(v Value) *rx {
	p := v.(*Value)
	if p == nil {
		m.throw(nil, "invalid memory address or nil pointer dereference")
	}
	st, ok := (*p).(Struct)
	if ok {
		for _, f := range st {
			if n, ok := f.(*Native); ok {
				return n.v.(*rx)
			}
		}
	}
	m.unsupported("regexp not made by Compile")
	return nil
}

func (m *Machine) rxNew(src *Str) (*Value, error) {
	s := m.force(src)
	if !s.concrete() {
		m.unsupported("symbolic regexp source")
	}
	r, err := compileRx(s.s)
	if err != nil {
		return nil, err
	}
	p := new(Value)
	t := m.P.pkgs["regexp"].Type("Regexp").Type()
	st := zero(t).(Struct)
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "expr":
			st[i] = cstr(s.s)
		case "numSubexp":
			st[i] = i64(r.re.NumSubexp())
		case "matchcap":
			st[i] = i64(2 * (r.re.NumSubexp() + 1))
		case "subexpNames":
			var names Slice
			for _, n := range r.re.SubexpNames() {
				names = append(names, cstr(n))
			}
			st[i] = names
		case "prog":
			pt := u.Field(i).Type().Underlying().(*types.Pointer).Elem()
			prog := zero(pt).(Struct)
			pu := pt.Underlying().(*types.Struct)
			for j := 0; j < pu.NumFields(); j++ {
				if pu.Field(j).Name() == "NumCap" {
					prog[j] = i64(2 * (r.re.NumSubexp() + 1))
				}
			}
			q := new(Value)
			*q = prog
			st[i] = q
		case "onepass":
			st[i] = &Native{kind: "regexp", v: r} // the matcher is modelled
		}
	}
	*p = st
	return p, nil
}

var regexIntrinsics = map[string]intrinsic{
	"regexp.MustCompile": func(m *Machine, fr *Frame, a []Value) Value {
		p, err := m.rxNew(a[0].(*Str))
		if err != nil {
			panic(targetPanic{v: m.mkError("regexp: Compile: " + err.Error()), where: m.where(fr)})
		}
		return p
	},
	"regexp.Compile": func(m *Machine, fr *Frame, a []Value) Value {
		p, err := m.rxNew(a[0].(*Str))
		if err != nil {
			return Tuple{(*Value)(nil), m.mkError(err.Error())}
		}
		return Tuple{p, nilErr()}
	},
	// the methods without a model run as they are, on this matcher
	"(*regexp.Regexp).find": func(m *Machine, fr *Frame, a []Value) Value {
		if a[1].(Iface).t != nil {
			m.unsupported("regexp on a RuneReader")
		}
		s := m.force(a[3].(*Str))
		if b, ok := a[2].(Slice); ok && b != nil {
			s = termsStr(bytesOf(m, b))
		}
		pos, ncap := int(m.concretize(a[4].(*Term))), int(m.concretize(a[5].(*Term)))
		dst, _ := a[6].(Slice)
		c := m.rxFind(m.rxOf(a[0]), s, pos)
		if c == nil {
			return Slice(nil)
		}
		r := append(Slice{}, dst...)
		for i := 0; i < ncap && i < len(c); i++ {
			r = append(r, i64(c[i]))
		}
		return r
	},
	"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, fr *Frame, a []Value) Value {
		r := m.rxOf(a[0])
		s := m.force(a[1].(*Str))
		c := m.rxFind(r, s, 0)
		if c == nil {
			return Slice(nil)
		}
		res := make(Slice, len(c)/2)
		for i := range res {
			res[i] = emptyStr
			if c[2*i] >= 0 {
				res[i] = s.sub(c[2*i], c[2*i+1])
			}
		}
		return res
	},
	"(*regexp.Regexp).FindString": func(m *Machine, fr *Frame, a []Value) Value {
		s := m.force(a[1].(*Str))
		c := m.rxFind(m.rxOf(a[0]), s, 0)
		if c == nil {
			return emptyStr
		}
		return s.sub(c[0], c[1])
	},
	"(*regexp.Regexp).MatchString": func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(m.rxFind(m.rxOf(a[0]), m.force(a[1].(*Str)), 0) != nil)
	},
	"(*regexp.Regexp).Match": func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(m.rxFind(m.rxOf(a[0]), termsStr(bytesOf(m, a[1])), 0) != nil)
	},
	"(*regexp.Regexp).FindStringSubmatchIndex": func(m *Machine, fr *Frame, a []Value) Value {
		c := m.rxFind(m.rxOf(a[0]), m.force(a[1].(*Str)), 0)
		if c == nil {
			return Slice(nil)
		}
		r := make(Slice, len(c))
		for i := range c {
			r[i] = i64(c[i])
		}
		return r
	},
	"(*regexp.Regexp).String": func(m *Machine, fr *Frame, a []Value) Value { return cstr(m.rxOf(a[0]).src) },
	"(*regexp.Regexp).ReplaceAllString": func(m *Machine, fr *Frame, a []Value) Value {
		r := m.rxOf(a[0])
		s := m.force(a[1].(*Str))
		rep := m.force(a[2].(*Str))
		if s.concrete() && rep.concrete() {
			return cstr(r.re.ReplaceAllString(s.s, rep.s))
		}
		if !rep.concrete() {
			return notHandled
		}
		for i := 0; i < len(rep.s); i++ {
			if rep.s[i] == '$' {
				return notHandled
			}
		}
		var parts []*Str
		pos := 0
		for pos <= s.flen() {
			c := m.rxFind(r, s, pos)
			if c == nil {
				break
			}
			if c[0] == c[1] {
				return notHandled
			}
			parts = append(parts, s.sub(pos, c[0]), rep)
			pos = c[1]
		}
		if pos <= s.flen() {
			parts = append(parts, s.sub(pos, s.flen()))
		}
		return joinStrs(parts)
	},
}
