package main

// Model of package fmt over interpreter values (symbolic integers and strings are
// rendered lazily, so messages that nobody looks at never fork).

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fspec struct {
	verb               byte
	minus, plus, sharp bool
	space, zero        bool
	wid, prec          int
	hasWid, hasPrec    bool
}

func (m *Machine) sprintf(fr *Frame, format *Str, args []Value) *Str {
	f := m.force(format)
	if !f.concrete() {
		m.unsupported("symbolic format string")
	}
	s := f.s
	var parts []*Str
	argi := 0
	lit := func(x string) {
		if x != "" {
			parts = append(parts, cstr(x))
		}
	}
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			lit(s[i:])
			break
		}
		lit(s[i : i+j])
		i += j + 1
		var sp fspec
	flags:
		for ; i < len(s); i++ {
			switch s[i] {
			case '-':
				sp.minus = true
				sp.zero = false
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = !sp.minus
			default:
				break flags
			}
		}
		if i < len(s) && s[i] == '*' {
			i++
			if argi < len(args) {
				if t, ok := args[argi].(Iface).v.(*Term); ok {
					sp.wid = int(int64(m.concretize(t)))
					sp.hasWid = true
					if sp.wid < 0 {
						sp.wid = -sp.wid
						sp.minus = true
						sp.zero = false
					}
				}
				argi++
			}
		}
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			sp.wid = sp.wid*10 + int(s[i]-'0')
			sp.hasWid = true
			i++
		}
		if i < len(s) && s[i] == '.' {
			i++
			sp.hasPrec = true
			if i < len(s) && s[i] == '*' {
				i++
				if argi < len(args) {
					if t, ok := args[argi].(Iface).v.(*Term); ok {
						sp.prec = int(int64(m.concretize(t)))
					}
					argi++
				}
			}
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				sp.prec = sp.prec*10 + int(s[i]-'0')
				i++
			}
		}
		if i >= len(s) {
			lit("%!(NOVERB)")
			break
		}
		sp.verb = s[i]
		i++
		if sp.verb == '%' {
			lit("%")
			continue
		}
		if argi >= len(args) {
			lit("%!" + string(sp.verb) + "(MISSING)")
			continue
		}
		a := args[argi].(Iface)
		argi++
		parts = append(parts, m.fmtArg(fr, sp, a))
	}
	if argi < len(args) {
		lit("%!(EXTRA ...)")
	}
	return m.lazyConcat(parts)
}

func qualPkgName(p *types.Package) string { return p.Name() }

func (m *Machine) fmtArg(fr *Frame, sp fspec, a Iface) *Str {
	if a.t == nil {
		switch sp.verb {
		case 'T', 'v':
			return m.padStr(fr, sp, cstr("<nil>"))
		}
		return cstr("%!" + string(sp.verb) + "(<nil>)")
	}
	if sp.verb == 'T' {
		return m.padStr(fr, sp, cstr(types.TypeString(a.t, qualPkgName)))
	}
	if sp.verb == 'p' {
		return cstr("0xc000000000")
	}
	return m.fmtVal(fr, sp, a.t, a.v, 0, true)
}

// fmtMethod tries Error / String.
func (m *Machine) fmtMethod(fr *Frame, t types.Type, v Value) (*Str, bool) {
	for _, n := range []string{"Error", "String"} {
		f := m.P.method(m.P.canon(t), nil, n)
		if f == nil {
			continue
		}
		sig := f.Signature
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		if p, ok := v.(*Value); ok && p == nil {
			return cstr("<nil>"), true
		}
		vv := v
		// keep methods on symbolic receivers lazy where they are pure: evaluate on demand
		if m.hasSymbolic(vv) {
			cv := copyVal(vv)
			l := &Lazy{f: func(m *Machine) *Str {
				return m.callSSA(nil, f, []Value{cv}, nil).(*Str)
			}}
			if f.String() == "(time.Duration).String" {
				l.atom = durationAtom(cv.(*Term))
			} else if sg, ok := valSig(cv); ok {
				l.sig = f.String() + "(" + sg + ")"
			}
			return &Str{lz: l}, true
		}
		return m.callSSA(fr, f, []Value{copyVal(vv)}, nil).(*Str), true
	}
	return nil, false
}

// hasSymbolic: value types only (pointers are evaluated eagerly since they may alias).
func (m *Machine) hasSymbolic(v Value) bool {
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case *Str:
		return !v.concrete()
	case Struct:
		s := false
		for _, e := range v {
			switch e.(type) {
			case *Value, *Map, *Chan:
				return false
			}
			if m.hasSymbolic(e) {
				s = true
			}
		}
		return s
	case Array:
		for _, e := range v {
			if m.hasSymbolic(e) {
				return true
			}
		}
	}
	return false
}

func (m *Machine) fmtVal(fr *Frame, sp fspec, t types.Type, v Value, depth int, exported bool) *Str {
	if exported {
		if n, ok := v.(*Native); ok {
			return cstr(fmt.Sprint(n.v))
		}
		switch sp.verb {
		case 'v', 's', 'q', 'x', 'X':
			if !(sp.sharp && sp.verb == 'v') {
				if s, ok := m.fmtMethod(fr, t, v); ok {
					return m.fmtString(fr, sp, s)
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if u.Info()&types.IsBoolean != 0 {
				if x.isConst() {
					return m.padStr(fr, sp, cstr(strconv.FormatBool(x.c == 1)))
				}
				return m.padStr(fr, sp, &Str{lz: &Lazy{conds: []*Term{x}, alts: []*Str{cstr("true"), cstr("false")}}})
			}
			_, signed, _ := intWidth(u)
			return m.fmtInt(fr, sp, x, signed)
		case *Str:
			return m.fmtString(fr, sp, x)
		case Float:
			if x.t != nil {
				tt := x.t
				_ = tt
				return &Str{lz: &Lazy{f: func(m *Machine) *Str { m.unsupported("formatting a symbolic float"); return nil }}}
			}
			verb := sp.verb
			pr := -1
			if sp.hasPrec {
				pr = sp.prec
			}
			f := verb
			if verb == 'v' {
				f = 'g'
			}
			if !sp.hasPrec && (verb == 'f' || verb == 'e') {
				pr = 6
			}
			if verb == 'v' && !sp.hasPrec {
				return m.padStr(fr, sp, cstr(fmt.Sprint(x.c)))
			}
			return m.padStr(fr, sp, cstr(strconv.FormatFloat(x.c, f, pr, x.w)))
		}
	case *types.Slice, *types.Array:
		var el []Value
		var et types.Type
		switch uu := u.(type) {
		case *types.Slice:
			et = uu.Elem()
			el = v.(Slice)
		case *types.Array:
			et = uu.Elem()
			el = v.(Array)
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch sp.verb {
			case 's', 'q':
				return m.fmtString(fr, sp, m.bytesToStr(Slice(el)))
			case 'x', 'X':
				return m.fmtString(fr, sp, m.bytesToStr(Slice(el)))
			}
		}
		parts := []*Str{cstr("[")}
		for i, e := range el {
			if i > 0 {
				parts = append(parts, cstr(" "))
			}
			if ev, ok := e.(Iface); ok {
				parts = append(parts, m.fmtIface(fr, sp, ev, depth+1))
			} else {
				parts = append(parts, m.fmtVal(fr, sp, et, e, depth+1, true))
			}
		}
		parts = append(parts, cstr("]"))
		return m.lazyConcat(parts)
	case *types.Struct:
		st := v.(Struct)
		parts := []*Str{cstr("{")}
		for i := range st {
			if i > 0 {
				parts = append(parts, cstr(" "))
			}
			f := u.Field(i)
			if sp.plus && sp.verb == 'v' {
				parts = append(parts, cstr(f.Name()+":"))
			}
			if ev, ok := st[i].(Iface); ok {
				if f.Exported() {
					parts = append(parts, m.fmtIface(fr, sp, ev, depth+1))
				} else if ev.t == nil {
					parts = append(parts, cstr("<nil>"))
				} else {
					parts = append(parts, m.fmtVal(fr, sp, ev.t, ev.v, depth+1, false))
				}
			} else {
				parts = append(parts, m.fmtVal(fr, sp, f.Type(), st[i], depth+1, f.Exported() && exported))
			}
		}
		parts = append(parts, cstr("}"))
		return m.lazyConcat(parts)
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return m.padStr(fr, sp, cstr("<nil>"))
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return m.lazyConcat([]*Str{cstr("&"), m.fmtVal(fr, sp, u.Elem(), *p, depth+1, exported)})
			}
		}
		return cstr("0xc000000000")
	case *types.Map:
		mp := v.(*Map)
		parts := []*Str{cstr("map[")}
		if mp != nil {
			ents := append([]MapEnt(nil), mp.ents...)
			sort.SliceStable(ents, func(i, j int) bool { return fmt.Sprint(ents[i].ck) < fmt.Sprint(ents[j].ck) })
			for i, e := range ents {
				if i > 0 {
					parts = append(parts, cstr(" "))
				}
				parts = append(parts, m.fmtVal(fr, sp, u.Key(), e.k, depth+1, true), cstr(":"), m.fmtVal(fr, sp, u.Elem(), e.v, depth+1, true))
			}
		}
		parts = append(parts, cstr("]"))
		return m.lazyConcat(parts)
	case *types.Interface:
		return m.fmtIface(fr, sp, v.(Iface), depth)
	case *types.Signature, *types.Chan:
		return cstr("0xc000000000")
	}
	m.unsupported("fmt %v", t)
	return nil
}

func (m *Machine) fmtIface(fr *Frame, sp fspec, v Iface, depth int) *Str {
	if v.t == nil {
		return cstr("<nil>")
	}
	return m.fmtVal(fr, sp, v.t, v.v, depth, true)
}

func (m *Machine) fmtString(fr *Frame, sp fspec, s *Str) *Str {
	switch sp.verb {
	case 'v', 's':
		if sp.hasPrec {
			f := m.force(s)
			if f.concrete() {
				r := []rune(f.s)
				if len(r) > sp.prec {
					r = r[:sp.prec]
				}
				s = cstr(string(r))
			} else {
				m.unsupported("precision on symbolic string")
			}
		}
		return m.padStr(fr, sp, s)
	case 'q':
		return &Str{lz: &Lazy{f: func(m *Machine) *Str {
			f := m.force(s)
			if f.concrete() {
				return cstr(strconv.Quote(f.s))
			}
			q := m.callSSA(nil, m.P.pkgs["strconv"].Func("Quote"), []Value{f}, nil).(*Str)
			return q
		}}}
	case 'x', 'X':
		f := m.force(s)
		var b []*Term
		up := sp.verb == 'X'
		for i := 0; i < f.flen(); i++ {
			if sp.space && i > 0 {
				b = append(b, mkConst(8, ' '))
			}
			b = append(b, m.x.HexDigit(f.at(i), 1, up), m.x.HexDigit(f.at(i), 0, up))
		}
		return m.padStr(fr, sp, termsStr(b))
	case 'd', 'c', 'U', 't', 'f':
		return m.lazyConcat([]*Str{cstr("%!" + string(sp.verb) + "(string="), s, cstr(")")})
	}
	m.unsupported("fmt string verb %c", sp.verb)
	return nil
}

func (m *Machine) padStr(fr *Frame, sp fspec, s *Str) *Str {
	if !sp.hasWid || sp.wid == 0 {
		return s
	}
	pad := func(m *Machine, f *Str) *Str {
		n := m.runeCount(f)
		if n >= sp.wid {
			return f
		}
		fill := " "
		if sp.zero && !sp.minus {
			fill = "0"
		}
		p := cstr(strings.Repeat(fill, sp.wid-n))
		if sp.minus {
			return joinStrs([]*Str{f, p})
		}
		return joinStrs([]*Str{p, f})
	}
	if s.lz != nil {
		l := &Lazy{f: func(m *Machine) *Str { return pad(m, m.force(s)) }}
		if s.lz.atom != nil {
			l.atom = padAtom(s.lz.atom, sp.wid, sp.minus, sp.zero)
		} else if sg, ok := strSig(s); ok {
			l.sig = fmt.Sprintf("pad%d:%v:%v:%s", sp.wid, sp.minus, sp.zero, sg)
		}
		return &Str{lz: l}
	}
	return pad(m, s)
}

func (m *Machine) runeCount(s *Str) int {
	s = m.force(s)
	if s.concrete() {
		return len([]rune(s.s))
	}
	it := &strIter{s: s}
	n := 0
	for it.i < s.flen() {
		m.nextRune(nil, it)
		n++
	}
	return n
}

// decimal renders an integer term in base 10 (lazily when symbolic).
func (m *Machine) decimal(t *Term, signed bool) *Str {
	if t.isConst() {
		if signed {
			return cstr(strconv.FormatInt(sx(t.w, t.c), 10))
		}
		return cstr(strconv.FormatUint(t.c, 10))
	}
	return &Str{lz: &Lazy{f: func(m *Machine) *Str { return m.forceDecimal(t, signed) }, atom: decimalAtom(t, signed)}}
}

func (m *Machine) forceDecimal(t *Term, signed bool) *Str {
	if signed {
		if m.branch(m.x.Slt(t, mkConst(t.w, 0))) {
			// magnitude
			return joinStrs([]*Str{cstr("-"), m.forceDecimal(m.x.Neg(t), false)})
		}
	}
	if lo, hi := m.x.ival(t); lo == hi {
		return cstr(strconv.FormatUint(lo, 10))
	}
	n := 1
	for n < 20 && pow10[n] <= mask(t.w) {
		if m.branch(m.x.Ult(t, mkConst(t.w, pow10[n]))) {
			break
		}
		n++
		if n == 20 {
			break
		}
	}
	b := make([]*Term, n)
	for i := 0; i < n; i++ {
		b[n-1-i] = m.x.Digit(t, i, n)
	}
	return termsStr(b)
}

func (m *Machine) fmtInt(fr *Frame, sp fspec, t *Term, signed bool) *Str {
	switch sp.verb {
	case 'v', 'd':
		s := m.decimal(t, signed)
		if sp.sharp || sp.hasPrec {
			m.unsupported("fmt int flags")
		}
		if sp.plus {
			if !t.isConst() {
				m.unsupported("%%+d symbolic")
			}
			if !strings.HasPrefix(s.s, "-") {
				s = cstr("+" + s.s)
			}
		}
		if sp.zero && sp.hasWid && signed && t.isConst() && sx(t.w, t.c) < 0 {
			return cstr(fmt.Sprintf("%0*d", sp.wid, sx(t.w, t.c)))
		}
		return m.padStr(fr, sp, s)
	case 'x', 'X', 'o', 'b':
		if t.isConst() {
			f := "%"
			if sp.minus {
				f += "-"
			}
			if sp.sharp {
				f += "#"
			}
			if sp.zero {
				f += "0"
			}
			if sp.hasWid {
				f += strconv.Itoa(sp.wid)
			}
			f += string(sp.verb)
			if signed {
				return cstr(fmt.Sprintf(f, sx(t.w, t.c)))
			}
			return cstr(fmt.Sprintf(f, t.c))
		}
		if sp.sharp && (sp.hasWid || sp.verb == 'o' || sp.verb == 'b') {
			m.unsupported("fmt %%#%c symbolic", sp.verb)
		}
		if sp.sharp {
			q := sp
			q.sharp = false
			return m.concat(cstr("0"+string(sp.verb)), m.fmtInt(fr, q, t, signed))
		}
		if sp.verb == 'o' || sp.verb == 'b' {
			if signed && m.branch(m.x.Slt(t, mkConst(t.w, 0))) {
				m.unsupported("fmt %%%c of negative", sp.verb)
			}
			k := 1
			if sp.verb == 'o' {
				k = 3
			}
			return &Str{lz: &Lazy{f: func(m *Machine) *Str {
				n := 1
				if sp.zero && sp.wid > n {
					n = sp.wid
				}
				for n*k < int(t.w) && !m.branch(m.x.Ult(t, mkConst(t.w, uint64(1)<<uint(n*k)))) {
					n++
				}
				b := make([]*Term, n)
				for i := range b {
					b[n-1-i] = mkConst(8, '0')
					if lo := i * k; lo < int(t.w) {
						w := min(k, int(t.w)-lo)
						b[n-1-i] = m.x.Add(m.x.ZExt(m.x.Extract(t, uint8(lo), uint8(w)), 8), mkConst(8, '0'))
					}
				}
				return m.force(m.padStr(fr, sp, termsStr(b)))
			}}}
		}
		up := sp.verb == 'X'
		maxd := (int(t.w) + 3) / 4
		mk := func(m *Machine, n int) *Str {
			b := make([]*Term, n)
			for i := 0; i < n; i++ {
				b[n-1-i] = m.x.HexDigit(t, i, up)
			}
			return termsStr(b)
		}
		if signed {
			if m.branch(m.x.Slt(t, mkConst(t.w, 0))) {
				if sp.hasWid || sp.zero {
					m.unsupported("fmt %%x of negative, padded")
				}
				return m.concat(cstr("-"), m.fmtInt(fr, sp, m.x.Neg(t), false))
			}
		}
		if sp.zero && sp.wid >= maxd {
			return m.padStr(fr, sp, mk(m, maxd))
		}
		return &Str{lz: &Lazy{f: func(m *Machine) *Str {
			n := 1
			if sp.zero && sp.wid > n {
				n = sp.wid
			}
			for n < maxd {
				if m.branch(m.x.Ult(t, mkConst(t.w, uint64(1)<<(4*uint(n))))) {
					break
				}
				n++
			}
			return m.force(m.padStr(fr, sp, mk(m, n)))
		}}}
	case 'c':
		return m.padStr(fr, sp, m.runeStr(fr, m.x.Extract(m.x.ZExt(t, 64), 0, 32)))
	case 'q', 'U':
		if t.isConst() {
			return cstr(fmt.Sprintf("%"+string(sp.verb), rune(t.c)))
		}
	case 's', 't', 'f':
		return m.lazyConcat([]*Str{cstr("%!" + string(sp.verb) + "(int="), m.decimal(t, signed), cstr(")")})
	}
	m.unsupported("fmt int verb %c", sp.verb)
	return nil
}

// sprint models fmt.Sprint / Sprintln.
func (m *Machine) sprint(fr *Frame, args []Value, ln bool) *Str {
	var parts []*Str
	prevString := true
	for i, a := range args {
		ia := a.(Iface)
		isStr := false
		if ia.t != nil {
			if b, ok := ia.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevString)) {
			parts = append(parts, cstr(" "))
		}
		parts = append(parts, m.fmtArg(fr, fspec{verb: 'v'}, ia))
		prevString = isStr
	}
	if ln {
		parts = append(parts, cstr("\n"))
	}
	return m.lazyConcat(parts)
}

func (m *Machine) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	defer func() { recover() }()
	s := m.fmtArg(nil, fspec{verb: 'v'}, v)
	return m.renderModel(s)
}

// renderModel renders a value under the current model without forking (best effort).
func (m *Machine) renderModel(v Value) string {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return strconv.FormatBool(m.x.eval(v) == 1)
		}
		return strconv.FormatUint(m.x.eval(v), 10)
	case *Str:
		if v.lz != nil {
			if v.lz.forced != nil {
				return m.renderModel(v.lz.forced)
			}
			if v.lz.parts != nil {
				s := ""
				for _, p := range v.lz.parts {
					s += m.renderModel(p)
				}
				return s
			}
			if v.lz.conds != nil {
				for i, c := range v.lz.conds {
					if m.x.eval(c) == 1 {
						return m.renderModel(v.lz.alts[i])
					}
				}
				return m.renderModel(v.lz.alts[len(v.lz.alts)-1])
			}
			if v.lz.atom != nil {
				return v.lz.atom.show(m.x.eval(v.lz.atom.t))
			}
			return "…"
		}
		if v.concrete() {
			return v.s
		}
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(m.x.eval(t))
		}
		return string(b)
	case Slice:
		var p []string
		for _, e := range v {
			p = append(p, m.renderModel(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Iface:
		if v.t == nil {
			return "<nil>"
		}
		if b, ok := v.t.Underlying().(*types.Basic); ok {
			if t, ok := v.v.(*Term); ok {
				if _, signed, ok := intWidth(b); ok && signed {
					return strconv.FormatInt(sx(t.w, m.x.eval(t)), 10)
				}
			}
		}
		return m.renderModel(v.v)
	case Struct:
		var p []string
		for _, e := range v {
			p = append(p, m.renderModel(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		var p []string
		for _, e := range v {
			p = append(p, m.renderModel(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Value:
		if v == nil {
			return "<nil>"
		}
		return "&" + m.renderModel(*v)
	case Float:
		if v.t == nil {
			return strconv.FormatFloat(v.c, 'g', -1, 64)
		}
		return fmt.Sprint(math.Float64frombits(m.x.eval(v.t)))
	}
	return fmt.Sprintf("%T", v)
}

var _ = ssa.NaiveForm

// valSig and strSig: a signature that equal signatures mean equal values for.
func valSig(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprintf("t%p", v), true
	case *Str:
		return strSig(v)
	case Slice:
		return listSig(v)
	case Struct:
		return listSig(v)
	case Array:
		return listSig(v)
	}
	return "", false
}

func listSig(l []Value) (string, bool) {
	s := "["
	for _, e := range l {
		g, ok := valSig(e)
		if !ok {
			return "", false
		}
		s += g + ","
	}
	return s + "]", true
}

func strSig(s *Str) (string, bool) {
	switch {
	case s.lz != nil && s.lz.atom != nil:
		return fmt.Sprintf("a%s:%p", s.lz.atom.kind, s.lz.atom.t), true
	case s.lz != nil && s.lz.sig != "":
		return "s" + s.lz.sig, true
	case s.lz != nil && s.lz.parts != nil:
		var l []Value
		for _, p := range s.lz.parts {
			l = append(l, p)
		}
		return listSig(l)
	case s.lz != nil && s.lz.conds != nil:
		r := "?"
		for _, c := range s.lz.conds {
			r += fmt.Sprintf("%p,", c)
		}
		for _, a := range s.lz.alts {
			g, ok := strSig(a)
			if !ok {
				return "", false
			}
			r += g + ","
		}
		return r, true
	case s.lz != nil:
		return "", false
	case s.b != nil:
		r := "b"
		for _, t := range s.b {
			r += fmt.Sprintf("%p,", t)
		}
		return r, true
	}
	return strconv.Quote(s.s), true
}
