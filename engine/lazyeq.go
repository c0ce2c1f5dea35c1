package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Atoms are lazily rendered numbers: strings that are an injective function of
// one integer term, made of the characters of their class only. Two atoms of the
// same kind followed by characters outside the class are equal exactly if the
// numbers are, which spares rendering (and forking on) the digits.
type Atom struct {
	kind  string // rendering, including padding
	t     *Term
	class func(c byte) bool
	show  func(v uint64) string
	parse func(s string) (uint64, bool)
	// of a number padded with blanks after it: the number, and the characters of the padded one
	inner *Atom
}

func digitClass(c byte) bool { return c >= '0' && c <= '9' || c == '-' }
func hexClass(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func durClass(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c == '.' || c == '-' || c >= 0x80
}

func decimalAtom(t *Term, signed bool) *Atom {
	w := t.w
	show := func(v uint64) string {
		if signed {
			return strconv.FormatInt(sx(w, v), 10)
		}
		return strconv.FormatUint(v, 10)
	}
	return &Atom{kind: fmt.Sprintf("dec%v:%d", signed, w), t: t, class: digitClass, show: show, parse: func(s string) (uint64, bool) {
		var v uint64
		if signed {
			n, err := strconv.ParseInt(s, 10, int(w))
			if err != nil {
				return 0, false
			}
			v = uint64(n) & mask(w)
		} else {
			n, err := strconv.ParseUint(s, 10, int(w))
			if err != nil {
				return 0, false
			}
			v = n
		}
		return v, show(v) == s
	}}
}

func durationAtom(t *Term) *Atom {
	return &Atom{kind: "duration", t: t, class: durClass,
		show: func(v uint64) string { return time.Duration(v).String() },
		parse: func(s string) (uint64, bool) {
			d, err := time.ParseDuration(s)
			return uint64(d), err == nil && d.String() == s
		}}
}

// padAtom is the atom padded to a width.
func padAtom(a *Atom, wid int, minus, zero bool) *Atom {
	fill := " "
	if zero && !minus {
		fill = "0"
	}
	show := func(v uint64) string {
		s := a.show(v)
		n := len([]rune(s))
		if n >= wid {
			return s
		}
		p := strings.Repeat(fill, wid-n)
		if minus {
			return s + p
		}
		return p + s
	}
	r := &Atom{kind: fmt.Sprintf("pad%d:%v:%v:%s", wid, minus, zero, a.kind), t: a.t, show: show,
		class: func(c byte) bool { return a.class(c) || !minus && c == ' ' },
		// a number padded before it is never read out of a literal
		parse: nil}
	if minus && a.parse != nil && a.inner == nil && !a.class(' ') {
		r.parse, r.inner = a.parse, a
	}
	return r
}

// lazyPieces flattens a string into literals and unforced lazy pieces.
func (m *Machine) lazyPieces(s *Str, out []*Str) []*Str {
	for s.lz != nil && s.lz.forced != nil {
		s = s.lz.forced
	}
	if s.lz != nil && s.lz.parts != nil {
		for _, p := range s.lz.parts {
			out = m.lazyPieces(p, out)
		}
		return out
	}
	if s.lz != nil && s.lz.conds != nil {
		for i, c := range s.lz.conds {
			lo, hi := m.x.ival(c)
			if lo != hi {
				break
			}
			if lo == 1 {
				return m.lazyPieces(s.lz.alts[i], out)
			}
			if i == len(s.lz.conds)-1 {
				return m.lazyPieces(s.lz.alts[i+1], out)
			}
		}
	}
	if s.lz != nil {
		return append(out, s)
	}
	if s.flen() == 0 {
		return out
	}
	if n := len(out); n > 0 && out[n-1].lz == nil {
		out[n-1] = joinStrs([]*Str{out[n-1], s})
		return out
	}
	return append(out, s)
}

// sameLazy: two unforced pieces that are syntactically the same string.
func sameLazy(a, b *Str) bool {
	if a == b || a.lz != nil && a.lz == b.lz {
		return true
	}
	if a.lz == nil || b.lz == nil {
		return a.lz == nil && b.lz == nil && a.concrete() && b.concrete() && a.s == b.s
	}
	p, q := a.lz, b.lz
	if p.atom != nil && q.atom != nil {
		return p.atom.kind == q.atom.kind && p.atom.t == q.atom.t
	}
	if p.sig != "" && p.sig == q.sig {
		return true
	}
	if p.conds != nil && q.conds != nil {
		if len(p.conds) != len(q.conds) || len(p.alts) != len(q.alts) {
			return false
		}
		for i := range p.conds {
			if p.conds[i] != q.conds[i] {
				return false
			}
		}
		for i := range p.alts {
			if !sameLazy(p.alts[i], q.alts[i]) {
				return false
			}
		}
		return true
	}
	if p.parts != nil && q.parts != nil && len(p.parts) == len(q.parts) {
		for i := range p.parts {
			if !sameLazy(p.parts[i], q.parts[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// outside: what follows in the string is certainly not of the class.
func outside(rest []*Str, class func(byte) bool) bool {
	if len(rest) == 0 {
		return true
	}
	s := rest[0]
	if s.lz != nil {
		return false
	}
	t := s.at(0)
	if t.hi-t.lo > 256 {
		return false
	}
	for v := t.lo; v <= t.hi; v++ {
		if class(byte(v)) {
			return false
		}
	}
	return true
}

// lazyEq compares strings of which at least one is lazy.
func (m *Machine) lazyEq(a, b *Str) *Term {
	p, q := m.lazyPieces(a, nil), m.lazyPieces(b, nil)
	r := tTrue
	drop := func(l []*Str, n int) []*Str {
		if l[0].flen() == n {
			return l[1:]
		}
		c := append([]*Str{l[0].sub(n, l[0].flen())}, l[1:]...)
		return c
	}
	for r != tFalse {
		if len(p) == 0 && len(q) == 0 {
			return r
		}
		if len(p) == 0 || len(q) == 0 {
			rest := p
			if len(p) == 0 {
				rest = q
			}
			for _, s := range rest {
				if s.lz == nil || s.lz.atom != nil {
					return tFalse
				}
			}
			break
		}
		x, y := p[0], q[0]
		if x.lz == nil && y.lz == nil {
			n := min(x.flen(), y.flen())
			for i := 0; i < n; i++ {
				s, t := x.at(i), y.at(i)
				if s.hi < t.lo || t.hi < s.lo {
					return tFalse
				}
			}
			for i := 0; i < n && r != tFalse; i++ {
				r = m.x.BAnd(r, m.x.Eq(x.at(i), y.at(i)))
			}
			p, q = drop(p, n), drop(q, n)
			continue
		}
		if sameLazy(x, y) {
			p, q = p[1:], q[1:]
			continue
		}
		if x.lz != nil && y.lz != nil && x.lz.atom != nil && y.lz.atom != nil {
			s, t := x.lz.atom, y.lz.atom
			if s.kind == t.kind && outside(p[1:], s.class) && outside(q[1:], s.class) {
				r = m.x.BAnd(r, m.x.Eq(s.t, t.t))
				p, q = p[1:], q[1:]
				continue
			}
			break
		}
		if c := m.choicesEq(x, y, p[1:], q[1:]); c != nil {
			r = m.x.BAnd(r, c)
			p, q = p[1:], q[1:]
			continue
		}
		if x.lz == nil {
			x, y = y, x
			p, q = q, p
		}
		// x is lazy, y is a literal
		if at := x.lz.atom; at != nil && at.parse != nil && y.lz == nil && outside(p[1:], at.class) {
			n := 0
			conc := true
			for n < y.flen() {
				c := y.at(n)
				if c.op != OpConst {
					conc = outside([]*Str{y.sub(n, y.flen())}, at.class)
					break
				}
				if !at.class(byte(c.c)) {
					break
				}
				n++
			}
			if n == y.flen() && len(q) > 1 {
				conc = false
			}
			if conc {
				lit := make([]byte, n)
				for i := range lit {
					lit[i] = byte(y.at(i).c)
				}
				v, ok := at.parse(string(lit))
				if !ok {
					return tFalse
				}
				if at.inner != nil {
					// the blanks that follow the number are in the literal, or it is another string
					full := at.show(v)
					if y.flen() < len(full) && len(q) > 1 {
						break
					}
					if y.flen() < len(full) {
						return tFalse
					}
					for ; n < len(full); n++ {
						r = m.x.BAnd(r, m.x.Eq(y.at(n), mkConst(8, ' ')))
					}
				}
				r = m.x.BAnd(r, m.x.Eq(at.t, mkConst(at.t.w, v)))
				p = p[1:]
				if n > 0 {
					q = drop(q, n)
				}
				continue
			}
		}
		break
	}
	if r == tFalse || len(p) == 0 && len(q) == 0 {
		return r
	}
	return m.x.BAnd(r, m.strEqForced(m.force(m.lazyConcat(p)), m.force(m.lazyConcat(q))))
}

// choicesEq compares two choices of concrete strings, nil if that does not
// decide the comparison of the strings they are part of: no alternative may
// become another one with what follows.
func (m *Machine) choicesEq(a, b *Str, ra, rb []*Str) *Term {
	if a.lz == nil || b.lz == nil || a.lz.conds == nil || b.lz.conds == nil {
		return nil
	}
	for _, l := range []*Lazy{a.lz, b.lz} {
		for _, s := range l.alts {
			if !s.concrete() {
				return nil
			}
		}
	}
	never := func(rest []*Str, c byte) bool {
		if len(rest) == 0 {
			return true
		}
		if rest[0].lz == nil {
			t := rest[0].at(0)
			return uint64(c) < t.lo || uint64(c) > t.hi
		}
		return rest[0].lz.atom != nil && !rest[0].lz.atom.class(c)
	}
	by := map[string]*Term{}
	sel := func(l *Lazy, f func(s string, c *Term)) {
		none := tTrue
		for i, s := range l.alts {
			c := none
			if i < len(l.conds) {
				c = m.x.BAnd(none, l.conds[i])
				none = m.x.BAnd(none, m.x.BNot(l.conds[i]))
			}
			f(s.s, c)
		}
	}
	sel(b.lz, func(s string, c *Term) {
		if o := by[s]; o != nil {
			c = m.x.BOr(o, c)
		}
		by[s] = c
	})
	for _, s := range a.lz.alts {
		for t := range by {
			if len(s.s) < len(t) && t[:len(s.s)] == s.s && !never(ra, t[len(s.s)]) {
				return nil
			}
			if len(t) < len(s.s) && s.s[:len(t)] == t && !never(rb, s.s[len(t)]) {
				return nil
			}
		}
	}
	r := tFalse
	sel(a.lz, func(s string, c *Term) {
		if o := by[s]; o != nil {
			r = m.x.BOr(r, m.x.BAnd(c, o))
		}
	})
	return r
}

// LazyBytes are the bytes of a string that cannot be rendered. They can be made a
// string again or be written to a sink; anything else is outside the encoding.
type LazyBytes struct{ s *Str }

// unrendered: the string has a symbolic duration in it.
func unrendered(s *Str) bool {
	if s.lz == nil || s.lz.forced != nil {
		return false
	}
	if a := s.lz.atom; a != nil {
		return a.kind == "duration" || a.inner != nil && a.inner.kind == "duration"
	}
	for _, p := range s.lz.parts {
		if unrendered(p) {
			return true
		}
	}
	return false
}
