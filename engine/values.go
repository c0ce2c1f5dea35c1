package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value any

type Struct []Value
type Array []Value
type Slice []Value // nil == nil slice
type Tuple []Value

type Float struct {
	w int
	c float64
	t *Term // non-nil when symbolic
}

type Iface struct {
	t types.Type // nil == nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(m *Machine, args []Value) Value
}

// Native is an opaque engine-side object (regexp, template, json decoder, ...).
type Native struct {
	kind string
	v    any
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
}

type MapEnt struct {
	k, v Value
	ck   any // comparable concrete key, nil when symbolic
}

type Map struct {
	ents []MapEnt
	idx  map[any]int
	nsym int
	gen  uint64
	et   types.Type
}

type mapIter struct {
	m    *Map
	keys []Value
	i    int
}

type strIter struct {
	s *Str
	i int
}

// Str is a Go string value.
type Str struct {
	s  string
	b  []*Term
	lz *Lazy
}

type Lazy struct {
	parts  []*Str
	conds  []*Term // choice: first true condition selects; last entry is default
	alts   []*Str
	f      func(m *Machine) *Str
	forced *Str
	atom   *Atom  // a rendered number
	sig    string // equal signatures: equal strings
}

func cstr(s string) *Str { return &Str{s: s} }

func (s *Str) concrete() bool { return s.b == nil && s.lz == nil }

// termsStr builds a Str from byte terms, collapsing to concrete where possible.
func termsStr(b []*Term) *Str {
	for _, t := range b {
		if t.op != OpConst {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.c)
	}
	return &Str{s: string(bs)}
}

func (m *Machine) force(s *Str) *Str {
	if s.lz == nil {
		return s
	}
	l := s.lz
	if l.forced != nil {
		return l.forced
	}
	var r *Str
	switch {
	case l.f != nil:
		r = m.force(l.f(m))
	case l.parts != nil:
		var acc *Str = cstr("")
		fs := make([]*Str, len(l.parts))
		for i, p := range l.parts {
			fs[i] = m.force(p)
		}
		acc = joinStrs(fs)
		r = acc
	default:
		r = nil
		for i, c := range l.conds {
			if m.branch(c) {
				r = m.force(l.alts[i])
				break
			}
		}
		if r == nil {
			r = m.force(l.alts[len(l.alts)-1])
		}
	}
	l.forced = r
	return r
}

// joinStrs concatenates already forced strings.
func joinStrs(fs []*Str) *Str {
	all := true
	n := 0
	for _, f := range fs {
		if !f.concrete() {
			all = false
		}
		n += f.flen()
	}
	if all {
		b := make([]byte, 0, n)
		for _, f := range fs {
			b = append(b, f.s...)
		}
		return &Str{s: string(b)}
	}
	b := make([]*Term, 0, n)
	for _, f := range fs {
		b = append(b, f.bytes()...)
	}
	return &Str{b: b}
}

func (s *Str) flen() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) bytes() []*Term {
	if s.b != nil {
		return s.b
	}
	b := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		b[i] = mkConst(8, uint64(s.s[i]))
	}
	return b
}

func (s *Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return mkConst(8, uint64(s.s[i]))
}

func (s *Str) sub(i, j int) *Str {
	if s.b != nil {
		if i == j {
			return cstr("")
		}
		return termsStr(s.b[i:j])
	}
	return &Str{s: s.s[i:j]}
}

func (m *Machine) concat(a, b *Str) *Str {
	if a.concrete() && b.concrete() {
		return &Str{s: a.s + b.s}
	}
	if a.lz != nil || b.lz != nil {
		return &Str{lz: &Lazy{parts: []*Str{a, b}}}
	}
	return joinStrs([]*Str{a, b})
}

func (m *Machine) lazyConcat(parts []*Str) *Str {
	lazy := false
	for _, p := range parts {
		if p.lz != nil {
			lazy = true
		}
	}
	if lazy {
		return &Str{lz: &Lazy{parts: parts}}
	}
	return joinStrs(parts)
}

// strEq returns the boolean term a == b.
func (m *Machine) strEq(a, b *Str) *Term {
	if a == b {
		return tTrue
	}
	if a.lz != nil && a.lz.forced == nil && a.lz.conds != nil && b.lz == nil {
		return m.choiceEq(a.lz, b)
	}
	if b.lz != nil && b.lz.forced == nil && b.lz.conds != nil && a.lz == nil {
		return m.choiceEq(b.lz, a)
	}
	if a.lz != nil || b.lz != nil {
		return m.lazyEq(a, b)
	}
	return m.strEqForced(a, b)
}

func (m *Machine) strEqForced(a, b *Str) *Term {
	if a.concrete() && b.concrete() {
		return mkBool(a.s == b.s)
	}
	if a.flen() != b.flen() {
		return tFalse
	}
	r := tTrue
	// cheap concrete mismatch first
	n := a.flen()
	for i := 0; i < n; i++ {
		p, q := a.at(i), b.at(i)
		if p.hi < q.lo || q.hi < p.lo {
			return tFalse
		}
	}
	for i := 0; i < n; i++ {
		r = m.x.BAnd(r, m.x.Eq(a.at(i), b.at(i)))
		if r == tFalse {
			return r
		}
	}
	return r
}

func (m *Machine) choiceEq(l *Lazy, s *Str) *Term {
	none := tTrue
	r := tFalse
	for i, alt := range l.alts {
		c := none
		if i < len(l.conds) {
			c = m.x.BAnd(none, l.conds[i])
		}
		r = m.x.BOr(r, m.x.BAnd(c, m.strEq(alt, s)))
		if i < len(l.conds) {
			none = m.x.BAnd(none, m.x.BNot(l.conds[i]))
		}
	}
	return r
}

// strLess forks as required and returns a < b.
func (m *Machine) strLess(a, b *Str) *Term {
	a, b = m.force(a), m.force(b)
	if a.concrete() && b.concrete() {
		return mkBool(a.s < b.s)
	}
	n := a.flen()
	if b.flen() < n {
		n = b.flen()
	}
	r := mkBool(a.flen() < b.flen())
	for i := n - 1; i >= 0; i-- {
		p, q := a.at(i), b.at(i)
		r = m.x.BOr(m.x.Ult(p, q), m.x.BAnd(m.x.Eq(p, q), r))
	}
	return r
}

func (m *Machine) bytesToStr(s Slice) *Str {
	b := make([]*Term, len(s))
	for i, v := range s {
		b[i] = v.(*Term)
	}
	return termsStr(b)
}

func (m *Machine) strToSlice(s *Str) Slice {
	s = m.force(s)
	n := s.flen()
	r := make(Slice, n)
	for i := 0; i < n; i++ {
		r[i] = s.at(i)
	}
	return r
}

// ---------- zero values, copies ----------

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return mkConst(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tFalse
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float32:
			return Float{w: 32}
		case types.Float64, types.UntypedFloat:
			return Float{w: 64}
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return nil
		case types.Complex128, types.Complex64:
			return complex128(0)
		}
		panic(fmt.Sprintf("zero: basic %v", t))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		z := zero(u.Elem())
		switch z.(type) {
		case Struct, Array:
			for i := range a {
				a[i] = zero(u.Elem())
			}
		default:
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

var emptyStr = &Str{}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, e := range v {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, e := range v {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	}
	return false
}
