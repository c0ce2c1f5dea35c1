package main

// Model of encoding/json over interpreter values.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jbuf struct{ b []*Term }

func (j *jbuf) lit(s string) {
	for i := 0; i < len(s); i++ {
		j.b = append(j.b, mkConst(8, uint64(s[i])))
	}
}
func (j *jbuf) str(s *Str) { j.b = append(j.b, s.bytes()...) }

type jsonErr struct{ e Iface }

type jfield struct {
	name      string
	idx       []int
	typ       types.Type
	omitempty bool
	quoted    bool
	depth     int
	tagged    bool
}

func jsonFields(t *types.Struct) []jfield {
	var out []jfield
	var walk func(st *types.Struct, pre []int, depth int)
	walk = func(st *types.Struct, pre []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			idx := append(append([]int(nil), pre...), i)
			if f.Anonymous() && parts[0] == "" {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					ft = p.Elem()
				}
				if es, ok := ft.Underlying().(*types.Struct); ok {
					walk(es, idx, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: parts[0], idx: idx, typ: f.Type(), depth: depth, tagged: parts[0] != ""}
			if jf.name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				if o == "omitempty" {
					jf.omitempty = true
				}
				if o == "string" {
					jf.quoted = true
				}
			}
			out = append(out, jf)
		}
	}
	walk(t, nil, 0)
	// shadowing: keep the shallowest for each name
	best := map[string]int{}
	for _, f := range out {
		if d, ok := best[f.name]; !ok || f.depth < d {
			best[f.name] = f.depth
		}
	}
	var r []jfield
	for _, f := range out {
		if f.depth == best[f.name] {
			r = append(r, f)
		}
	}
	return r
}

func (m *Machine) jsonMethod(t types.Type, name string) *ssa.Function {
	return m.P.method(m.P.canon(t), nil, name)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) jsonString(j *jbuf, s *Str) {
	s = m.force(s)
	j.lit(`"`)
	for i := 0; i < s.flen(); {
		b := s.at(i)
		if b.isConst() && b.c >= 0x80 || !b.isConst() && !m.branch(m.x.Ult(b, mkConst(8, 0x80))) {
			it := &strIter{s: s, i: i}
			r, n := m.nextRune(nil, it)
			bad := n == 1 // RuneError of width 1
			if bad {
				j.lit(`\ufffd`)
				i++
				continue
			}
			if m.branch(m.x.BOr(m.x.Eq(r, mkConst(32, 0x2028)), m.x.Eq(r, mkConst(32, 0x2029)))) {
				v := m.concretize(r)
				j.lit(fmt.Sprintf(`\u%04x`, v))
			} else {
				for k := 0; k < n; k++ {
					j.b = append(j.b, s.at(i+k))
				}
			}
			i += n
			continue
		}
		i++
		if b.isConst() {
			c := byte(b.c)
			switch {
			case c == '"' || c == '\\':
				j.lit(`\` + string(c))
			case c == '\n':
				j.lit(`\n`)
			case c == '\r':
				j.lit(`\r`)
			case c == '\t':
				j.lit(`\t`)
			case c == '\b':
				j.lit(`\b`)
			case c == '\f':
				j.lit(`\f`)
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				j.lit(fmt.Sprintf(`\u%04x`, c))
			default:
				j.b = append(j.b, b)
			}
			continue
		}
		special := m.x.Ult(b, mkConst(8, 0x20))
		for _, c := range []byte{'"', '\\', '<', '>', '&'} {
			special = m.x.BOr(special, m.x.Eq(b, mkConst(8, uint64(c))))
		}
		if !m.branch(special) {
			j.b = append(j.b, b)
			continue
		}
		// special characters: enumerate
		c := m.concretize(b)
		sub := &jbuf{}
		m.jsonString(sub, cstr(string([]byte{byte(c)})))
		j.b = append(j.b, sub.b[1:len(sub.b)-1]...)
	}
	j.lit(`"`)
}

func (m *Machine) jsonEmpty(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return m.x.Eq(x, mkConst(x.w, 0))
	case *Str:
		return mkBool(m.force(x).flen() == 0)
	case Slice:
		return mkBool(len(x) == 0)
	case *Map:
		return mkBool(x == nil || len(x.ents) == 0)
	case *Value:
		return mkBool(x == nil)
	case Iface:
		return mkBool(x.t == nil)
	case Float:
		return mkBool(x.t == nil && x.c == 0)
	}
	return tFalse
}

func (m *Machine) jsonEnc(fr *Frame, j *jbuf, t types.Type, v Value, addr *Value, quoted bool) {
	if p, ok := v.(*Value); ok && p == nil {
		j.lit("null")
		return
	}
	if iv, ok := v.(Iface); ok {
		if iv.t == nil {
			j.lit("null")
			return
		}
		m.jsonEnc(fr, j, iv.t, iv.v, nil, quoted)
		return
	}
	f := m.jsonMethod(t, "MarshalJSON")
	recv := v
	if f == nil && addr != nil {
		if pf := m.jsonMethod(types.NewPointer(t), "MarshalJSON"); pf != nil {
			f = pf
			recv = addr
		}
	}
	if f != nil {
		r := m.callSSA(fr, f, []Value{copyVal(recv)}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(jsonErr{m.mkErrorStr(m.lazyConcat([]*Str{cstr("json: error calling MarshalJSON: "), m.fmtArg(fr, fspec{verb: 'v'}, e)}))})
		}
		raw := bytesOf(m, r[0])
		j.b = append(j.b, m.jsonCompact(raw)...)
		return
	}
	if f := m.jsonMethod(t, "MarshalText"); f != nil {
		r := m.callSSA(fr, f, []Value{copyVal(v)}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(jsonErr{e})
		}
		m.jsonString(j, m.bytesToStr(r[0].(Slice)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if quoted {
			m.unsupported("json ,string option")
		}
		switch x := v.(type) {
		case *Term:
			if u.Info()&types.IsBoolean != 0 {
				if m.branch(x) {
					j.lit("true")
				} else {
					j.lit("false")
				}
				return
			}
			_, signed, _ := intWidth(u)
			j.str(m.force(m.decimal(x, signed)))
			return
		case *Str:
			m.jsonString(j, x)
			return
		case Float:
			if x.t != nil {
				m.unsupported("json symbolic float")
			}
			j.lit(strconv.FormatFloat(x.c, 'f', -1, 64))
			return
		}
	case *types.Pointer:
		p := v.(*Value)
		m.jsonEnc(fr, j, u.Elem(), *p, p, quoted)
		return
	case *types.Struct:
		st := v.(Struct)
		j.lit("{")
		first := true
		for _, f := range jsonFields(u) {
			var fv Value = st
			var fa *Value
			skip := false
			for _, i := range f.idx {
				if p, ok := fv.(*Value); ok {
					if p == nil {
						skip = true
						break
					}
					fv = *p
				}
				s := fv.(Struct)
				fa = &s[i]
				fv = s[i]
			}
			if skip {
				continue
			}
			if addr == nil {
				fa = nil
			}
			if f.omitempty && m.branch(m.jsonEmpty(fv)) {
				continue
			}
			if !first {
				j.lit(",")
			}
			first = false
			m.jsonString(j, cstr(f.name))
			j.lit(":")
			m.jsonEnc(fr, j, f.typ, fv, fa, f.quoted)
		}
		j.lit("}")
		return
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			j.lit("null")
			return
		}
		if isByteSlice(t) {
			f := m.P.prog.LookupMethod(types.NewPointer(m.P.pkgs["encoding/base64"].Type("Encoding").Type()), nil, "EncodeToString")
			g := m.P.pkgs["encoding/base64"].Var("StdEncoding")
			m.jsonString(j, m.callSSA(fr, f, []Value{*m.global(m.P.globalIdx(g), g), s}, nil).(*Str))
			return
		}
		j.lit("[")
		for i := range s {
			if i > 0 {
				j.lit(",")
			}
			m.jsonEnc(fr, j, u.Elem(), s[i], &s[i], false)
		}
		j.lit("]")
		return
	case *types.Array:
		s := v.(Array)
		j.lit("[")
		for i := range s {
			if i > 0 {
				j.lit(",")
			}
			m.jsonEnc(fr, j, u.Elem(), s[i], nil, false)
		}
		j.lit("]")
		return
	case *types.Map:
		mp := v.(*Map)
		if mp == nil {
			j.lit("null")
			return
		}
		ents := append([]MapEnt(nil), mp.ents...)
		key := func(e MapEnt) string {
			switch k := e.k.(type) {
			case *Str:
				if k.concrete() {
					return k.s
				}
			case *Term:
				if k.isConst() {
					b, _ := u.Key().Underlying().(*types.Basic)
					if _, signed, _ := intWidth(b); signed {
						return strconv.FormatInt(sx(k.w, k.c), 10)
					}
					return strconv.FormatUint(k.c, 10)
				}
			}
			m.unsupported("json map with symbolic key")
			return ""
		}
		sort.SliceStable(ents, func(a, b int) bool { return key(ents[a]) < key(ents[b]) })
		j.lit("{")
		for i, e := range ents {
			if i > 0 {
				j.lit(",")
			}
			m.jsonString(j, cstr(key(e)))
			j.lit(":")
			m.jsonEnc(fr, j, u.Elem(), e.v, nil, false)
		}
		j.lit("}")
		return
	case *types.Interface:
		m.jsonEnc(fr, j, t, v.(Iface), nil, quoted)
		return
	}
	m.unsupported("json encode %v", t)
}

// walkJSON calls f for every element with a flag telling whether it is inside a string.
func (m *Machine) walkJSON(b []*Term, f func(i int, inStr bool)) {
	in, esc := false, false
	for i, t := range b {
		if in {
			f(i, true)
			if esc {
				esc = false
				continue
			}
			if m.branch(m.x.Eq(t, mkConst(8, '\\'))) {
				esc = true
			} else if m.branch(m.x.Eq(t, mkConst(8, '"'))) {
				in = false
			}
			continue
		}
		f(i, false)
		if t.isConst() && t.c == '"' {
			in = true
		}
	}
}

func (m *Machine) jsonCompact(b []*Term) []*Term {
	// RawMessage / MarshalJSON output: validate, compact, escape HTML
	p := &jparser{m: m, b: b}
	p.ws()
	if _, ok := p.value(); !ok {
		panic(jsonErr{m.mkError("json: error calling MarshalJSON: invalid JSON")})
	}
	p.ws()
	if p.i != len(b) {
		panic(jsonErr{m.mkError("json: error calling MarshalJSON: trailing data")})
	}
	var r []*Term
	m.walkJSON(b, func(i int, in bool) {
		t := b[i]
		if !in {
			if t.isConst() && (t.c == ' ' || t.c == '\n' || t.c == '\t' || t.c == '\r') {
				return
			}
			r = append(r, t)
			return
		}
		if t.isConst() && (t.c == '<' || t.c == '>' || t.c == '&') {
			for _, c := range []byte(fmt.Sprintf(`\u%04x`, t.c)) {
				r = append(r, mkConst(8, uint64(c)))
			}
			return
		}
		r = append(r, t)
	})
	return r
}

func (m *Machine) jsonIndent(b []*Term, prefix, indent string) []*Term {
	j := &jbuf{}
	depth := 0
	nl := func() {
		j.lit("\n" + prefix)
		for i := 0; i < depth; i++ {
			j.lit(indent)
		}
	}
	needIndent := false
	m.walkJSON(b, func(i int, in bool) {
		t := b[i]
		if in {
			j.b = append(j.b, t)
			return
		}
		c := byte(0)
		if t.isConst() {
			c = byte(t.c)
		}
		if needIndent && c != ']' && c != '}' {
			needIndent = false
			depth++
			nl()
		}
		switch c {
		case '{', '[':
			needIndent = true
			j.b = append(j.b, t)
		case ',':
			j.b = append(j.b, t)
			nl()
		case ':':
			j.b = append(j.b, t)
			j.lit(" ")
		case '}', ']':
			if needIndent {
				needIndent = false
			} else {
				depth--
				nl()
			}
			j.b = append(j.b, t)
		default:
			j.b = append(j.b, t)
		}
	})
	return j.b
}

func termsToSlice(b []*Term) Slice {
	r := make(Slice, len(b))
	for i, t := range b {
		r[i] = t
	}
	return r
}

func (m *Machine) jsonMarshal(fr *Frame, v Iface) (b []*Term, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				b, err = nil, e.e
				return
			}
			panic(r)
		}
	}()
	j := &jbuf{}
	if v.t == nil {
		j.lit("null")
	} else {
		m.jsonEnc(fr, j, v.t, v.v, nil, false)
	}
	return j.b, nilErr()
}

// ---------- decoding ----------

type jnode struct {
	kind   byte // '{' '[' '"' '0' 't' 'f' 'n'
	lo, hi int
	keys   []*Str
	vals   []*jnode
	str    *Str
	num    []*Term
}

type jparser struct {
	m *Machine
	b []*Term
	i int
}

// peek returns the concrete byte at i (forking if symbolic), or 0 at end.
func (p *jparser) peek() int {
	if p.i >= len(p.b) {
		return -1
	}
	t := p.b[p.i]
	if t.op == OpDigit {
		return '1' // any digit
	}
	if t.isConst() {
		return int(t.c)
	}
	return int(p.m.concretize(t))
}

func (p *jparser) ws() {
	for p.i < len(p.b) {
		switch p.peek() {
		case ' ', '\t', '\r', '\n':
			p.i++
		default:
			return
		}
	}
}

func (p *jparser) value() (*jnode, bool) {
	m := p.m
	n := &jnode{lo: p.i}
	switch c := p.peek(); {
	case c == '{':
		n.kind = '{'
		p.i++
		p.ws()
		if p.peek() == '}' {
			p.i++
			n.hi = p.i
			return n, true
		}
		for {
			p.ws()
			if p.peek() != '"' {
				return nil, false
			}
			k, ok := p.value()
			if !ok {
				return nil, false
			}
			p.ws()
			if p.peek() != ':' {
				return nil, false
			}
			p.i++
			p.ws()
			v, ok := p.value()
			if !ok {
				return nil, false
			}
			n.keys = append(n.keys, k.str)
			n.vals = append(n.vals, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				n.hi = p.i
				return n, true
			default:
				return nil, false
			}
		}
	case c == '[':
		n.kind = '['
		p.i++
		p.ws()
		if p.peek() == ']' {
			p.i++
			n.hi = p.i
			return n, true
		}
		for {
			p.ws()
			v, ok := p.value()
			if !ok {
				return nil, false
			}
			n.vals = append(n.vals, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case ']':
				p.i++
				n.hi = p.i
				return n, true
			default:
				return nil, false
			}
		}
	case c == '"':
		n.kind = '"'
		p.i++
		var out []*Term
		for {
			if p.i >= len(p.b) {
				return nil, false
			}
			t := p.b[p.i]
			if m.branch(m.x.Eq(t, mkConst(8, '"'))) {
				p.i++
				break
			}
			if m.branch(m.x.Eq(t, mkConst(8, '\\'))) {
				p.i++
				if p.i >= len(p.b) {
					return nil, false
				}
				e := p.peek()
				p.i++
				switch e {
				case '"', '\\', '/':
					out = append(out, mkConst(8, uint64(e)))
				case 'n':
					out = append(out, mkConst(8, '\n'))
				case 't':
					out = append(out, mkConst(8, '\t'))
				case 'r':
					out = append(out, mkConst(8, '\r'))
				case 'b':
					out = append(out, mkConst(8, '\b'))
				case 'f':
					out = append(out, mkConst(8, '\f'))
				case 'u':
					if p.i+4 > len(p.b) {
						return nil, false
					}
					var hs []byte
					for k := 0; k < 4; k++ {
						hs = append(hs, byte(p.peek()))
						p.i++
					}
					v, err := strconv.ParseUint(string(hs), 16, 16)
					if err != nil {
						return nil, false
					}
					if v >= 0xd800 && v < 0xe000 {
						m.unsupported("json surrogate escape")
					}
					for _, c := range []byte(string(rune(v))) {
						out = append(out, mkConst(8, uint64(c)))
					}
				default:
					return nil, false
				}
				continue
			}
			if m.branch(m.x.Ult(t, mkConst(8, 0x20))) {
				return nil, false
			}
			if !m.branch(m.x.Ult(t, mkConst(8, 0x80))) {
				it := &strIter{s: termsStr(p.b), i: p.i}
				_, w := m.nextRune(nil, it)
				if w == 1 {
					for _, c := range []byte("\ufffd") {
						out = append(out, mkConst(8, uint64(c)))
					}
				} else {
					out = append(out, p.b[p.i:p.i+w]...)
				}
				p.i += w
				continue
			}
			out = append(out, t)
			p.i++
		}
		n.str = termsStr(out)
		n.hi = p.i
		return n, true
	case c == '-' || c >= '0' && c <= '9':
		n.kind = '0'
		lo := p.i
		if c == '-' {
			p.i++
		}
		d := 0
		lead0 := false
		for p.i < len(p.b) {
			t := p.b[p.i]
			if t.op == OpDigit {
				p.i++
				d++
				continue
			}
			c := p.peek()
			if c < '0' || c > '9' {
				break
			}
			if d == 0 && c == '0' {
				lead0 = true
			}
			d++
			p.i++
		}
		if d == 0 || lead0 && d > 1 {
			return nil, false
		}
		if c := p.peek(); c == '.' {
			p.i++
			d = 0
			for c := p.peek(); c >= '0' && c <= '9'; c = p.peek() {
				p.i++
				d++
			}
			if d == 0 {
				return nil, false
			}
		}
		if c := p.peek(); c == 'e' || c == 'E' {
			p.i++
			if c := p.peek(); c == '+' || c == '-' {
				p.i++
			}
			d = 0
			for c := p.peek(); c >= '0' && c <= '9'; c = p.peek() {
				p.i++
				d++
			}
			if d == 0 {
				return nil, false
			}
		}
		n.num = p.b[lo:p.i]
		n.hi = p.i
		return n, true
	case c == 't':
		return n, p.word(n, "true")
	case c == 'f':
		return n, p.word(n, "false")
	case c == 'n':
		return n, p.word(n, "null")
	}
	return nil, false
}

func (p *jparser) word(n *jnode, w string) bool {
	n.kind = w[0]
	for i := 0; i < len(w); i++ {
		if p.peek() != int(w[i]) {
			return false
		}
		p.i++
	}
	n.hi = p.i
	return true
}

type jdec struct {
	m   *Machine
	fr  *Frame
	b   []*Term
	err Iface // first saved type error

	strict bool // unknown fields are errors
}

func (d *jdec) save(msg string) {
	if d.err.t == nil {
		d.err = d.m.mkError("json: cannot unmarshal " + msg)
	}
}

// dec assigns node n into *p of type t.
func (d *jdec) dec(n *jnode, t types.Type, p *Value) {
	m := d.m
	// allocate through pointers / find Unmarshaler
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				if f := m.jsonMethod(types.NewPointer(t), "UnmarshalJSON"); f != nil {
					break
				}
			}
			m.store(p, zero(t))
			return
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(pt.Elem())
			m.store(p, q)
		}
		d.dec(n, pt.Elem(), q)
		return
	}
	if f := m.jsonMethod(types.NewPointer(t), "UnmarshalJSON"); f != nil {
		raw := append([]*Term(nil), d.b[n.lo:n.hi]...)
		e := m.callSSA(d.fr, f, []Value{p, termsToSlice(raw)}, nil).(Iface)
		if e.t != nil {
			panic(jsonErr{e})
		}
		return
	}
	if f := m.jsonMethod(types.NewPointer(t), "UnmarshalText"); f != nil && n.kind == '"' {
		e := m.callSSA(d.fr, f, []Value{p, termsToSlice(n.str.bytes())}, nil).(Iface)
		if e.t != nil {
			panic(jsonErr{e})
		}
		return
	}
	if n.kind == 'n' {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := intWidth(u); ok {
			if n.kind != '0' {
				d.save(fmt.Sprintf("%c into %v", n.kind, t))
				return
			}
			for _, c := range n.num {
				if c.isConst() && (c.c == '.' || c.c == 'e' || c.c == 'E') {
					d.save("number into int")
					return
				}
			}
			s := termsStr(n.num)
			name := "ParseUint"
			if signed {
				name = "ParseInt"
			}
			fn := m.P.pkgs["strconv"].Func(name)
			r := m.callSSA(d.fr, fn, []Value{s, i64(10), i64(int(w))}, nil).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				d.save("number into " + t.String())
				return
			}
			m.store(p, m.x.Extract(r[0].(*Term), 0, w))
			return
		}
		switch u.Kind() {
		case types.String:
			if n.kind != '"' {
				d.save("non-string into string")
				return
			}
			m.store(p, n.str)
			return
		case types.Bool:
			if n.kind != 't' && n.kind != 'f' {
				d.save("non-bool into bool")
				return
			}
			m.store(p, mkBool(n.kind == 't'))
			return
		case types.Float64, types.Float32:
			if n.kind != '0' {
				d.save("non-number into float")
				return
			}
			s := termsStr(n.num)
			if !s.concrete() {
				m.unsupported("json symbolic float")
			}
			f, _ := strconv.ParseFloat(s.s, 64)
			m.store(p, Float{w: 64, c: f})
			return
		}
	case *types.Struct:
		if n.kind != '{' {
			d.save(fmt.Sprintf("%c into struct", n.kind))
			return
		}
		fields := jsonFields(u)
		for i, k := range n.keys {
			var f *jfield
			if k.concrete() {
				for x := range fields {
					if fields[x].name == k.s {
						f = &fields[x]
						break
					}
				}
				if f == nil {
					for x := range fields {
						if strings.EqualFold(fields[x].name, k.s) {
							f = &fields[x]
							break
						}
					}
				}
			} else {
				m.unsupported("json symbolic object key")
			}
			if f == nil {
				if d.strict && d.err.t == nil {
					d.err = m.mkError("json: unknown field " + strconv.Quote(k.s))
				}
				continue
			}
			q := p
			for _, ix := range f.idx {
				if pp, ok := (*q).(*Value); ok {
					if pp == nil {
						m.unsupported("json embedded nil pointer")
					}
					q = pp
				}
				st := (*q).(Struct)
				q = &st[ix]
			}
			d.dec(n.vals[i], f.typ, q)
		}
		return
	case *types.Slice:
		if n.kind != '[' {
			if n.kind == '"' && isByteSlice(t) {
				f := m.P.prog.LookupMethod(types.NewPointer(m.P.pkgs["encoding/base64"].Type("Encoding").Type()), nil, "DecodeString")
				g := m.P.pkgs["encoding/base64"].Var("StdEncoding")
				r := m.callSSA(d.fr, f, []Value{*m.global(m.P.globalIdx(g), g), n.str}, nil).(Tuple)
				if e := r[1].(Iface); e.t != nil {
					if d.err.t == nil {
						d.err = e
					}
					return
				}
				m.store(p, r[0])
				return
			}
			d.save("non-array into slice")
			return
		}
		s := make(Slice, len(n.vals))
		for i := range s {
			s[i] = zero(u.Elem())
			d.dec(n.vals[i], u.Elem(), &s[i])
		}
		m.store(p, s)
		return
	case *types.Array:
		if n.kind != '[' {
			d.save("non-array into array")
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.vals) {
				d.dec(n.vals[i], u.Elem(), &a[i])
			} else {
				m.store(&a[i], zero(u.Elem()))
			}
		}
		return
	case *types.Map:
		if n.kind != '{' {
			d.save("non-object into map")
			return
		}
		mp, _ := (*p).(*Map)
		if mp == nil {
			mp = &Map{idx: map[any]int{}, gen: m.pathGen, et: u.Elem()}
			m.store(p, mp)
		}
		for i, k := range n.keys {
			c := new(Value)
			*c = zero(u.Elem())
			d.dec(n.vals[i], u.Elem(), c)
			m.mapSet(mp, k, *c)
		}
		return
	case *types.Interface:
		if u.NumMethods() == 0 {
			m.store(p, d.any(n))
			return
		}
		d.save("value into interface")
		return
	}
	m.unsupported("json decode into %v", t)
}

var (
	anyType      = types.NewInterfaceType(nil, nil)
	anySliceType = types.NewSlice(anyType)
	anyMapType   = types.NewMap(types.Typ[types.String], anyType)
)

// any is the value of a node for an empty interface.
func (d *jdec) any(n *jnode) Iface {
	m := d.m
	switch n.kind {
	case 'n':
		return Iface{}
	case '"':
		return Iface{types.Typ[types.String], n.str}
	case 't', 'f':
		return Iface{types.Typ[types.Bool], mkBool(n.kind == 't')}
	case '0':
		c := new(Value)
		*c = Float{w: 64}
		d.dec(n, types.Typ[types.Float64], c)
		return Iface{types.Typ[types.Float64], *c}
	case '[':
		s := make(Slice, len(n.vals))
		for i := range s {
			s[i] = d.any(n.vals[i])
		}
		return Iface{m.P.canon(anySliceType), s}
	case '{':
		mp := &Map{idx: map[any]int{}, gen: m.pathGen, et: anyType}
		for i, k := range n.keys {
			m.mapSet(mp, k, d.any(n.vals[i]))
		}
		return Iface{m.P.canon(anyMapType), mp}
	}
	m.unsupported("json decode into interface{}")
	return Iface{}
}

func (m *Machine) jsonUnmarshal(fr *Frame, b []*Term, v Iface, prefix, strict bool) (err Iface, used int) {
	p := &jparser{m: m, b: b}
	p.ws()
	if p.i >= len(b) && prefix {
		return m.ioEOF(), p.i
	}
	n, ok := p.value()
	if !ok {
		return m.mkError("invalid character in JSON input"), p.i
	}
	used = p.i
	if !prefix {
		p.ws()
		if p.i != len(b) {
			return m.mkError("invalid character after top-level value"), p.i
		}
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok || v.v.(*Value) == nil {
		return m.mkError("json: Unmarshal(non-pointer)"), used
	}
	d := &jdec{m: m, fr: fr, b: b, strict: strict}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(jsonErr); ok {
					err = e.e
					return
				}
				panic(r)
			}
		}()
		d.dec(n, pt.Elem(), v.v.(*Value))
		err = d.err
	}()
	return err, used
}

type jdecoder struct {
	r   Iface
	buf []*Term
	eof bool

	strict bool
}

type jencoder struct {
	w              Iface
	prefix, indent string
}

func (m *Machine) readAll(fr *Frame, r Iface) ([]*Term, Iface) {
	t := m.callSSA(fr, m.P.pkgs["io"].Func("ReadAll"), []Value{r}, nil).(Tuple)
	return bytesOf(m, t[0]), t[1].(Iface)
}

var jsonIntrinsics = map[string]intrinsic{
	"encoding/json.Marshal": func(m *Machine, fr *Frame, a []Value) Value {
		b, e := m.jsonMarshal(fr, a[0].(Iface))
		if e.t != nil {
			return Tuple{Slice(nil), e}
		}
		return Tuple{termsToSlice(b), nilErr()}
	},
	"encoding/json.MarshalIndent": func(m *Machine, fr *Frame, a []Value) Value {
		b, e := m.jsonMarshal(fr, a[0].(Iface))
		if e.t != nil {
			return Tuple{Slice(nil), e}
		}
		return Tuple{termsToSlice(m.jsonIndent(b, m.concStr(a[1], "prefix"), m.concStr(a[2], "indent"))), nilErr()}
	},
	"encoding/json.Unmarshal": func(m *Machine, fr *Frame, a []Value) Value {
		e, _ := m.jsonUnmarshal(fr, bytesOf(m, a[0]), a[1].(Iface), false, false)
		return e
	},
	"encoding/json.Valid": func(m *Machine, fr *Frame, a []Value) Value { return mkBool(m.jsonValid(bytesOf(m, a[0]))) },
	"encoding/json.NewDecoder": func(m *Machine, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = &Native{kind: "jsondec", v: &jdecoder{r: a[0].(Iface)}}
		return p
	},
	"(*encoding/json.Decoder).DisallowUnknownFields": func(m *Machine, fr *Frame, a []Value) Value {
		(*a[0].(*Value)).(*Native).v.(*jdecoder).strict = true
		return nil
	},
	"(*encoding/json.Decoder).More": func(m *Machine, fr *Frame, a []Value) Value {
		d := (*a[0].(*Value)).(*Native).v.(*jdecoder)
		if !d.eof {
			b, _ := m.readAll(fr, d.r)
			d.buf = append(d.buf, b...)
			d.eof = true
		}
		p := &jparser{m: m, b: d.buf}
		p.ws()
		c := p.peek()
		return mkBool(c >= 0 && c != ']' && c != '}')
	},
	"encoding/json.NewEncoder": func(m *Machine, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = &Native{kind: "jsonenc", v: &jencoder{w: a[0].(Iface)}}
		return p
	},
	"(*encoding/json.Encoder).SetIndent": func(m *Machine, fr *Frame, a []Value) Value {
		e := (*a[0].(*Value)).(*Native).v.(*jencoder)
		e.prefix, e.indent = m.concStr(a[1], "prefix"), m.concStr(a[2], "indent")
		return nil
	},
	"(*encoding/json.Encoder).SetEscapeHTML": func(m *Machine, fr *Frame, a []Value) Value {
		if !m.branch(a[1].(*Term)) {
			m.unsupported("json without HTML escapes")
		}
		return nil
	},
	"(*encoding/json.Encoder).Encode": func(m *Machine, fr *Frame, a []Value) Value {
		e := (*a[0].(*Value)).(*Native).v.(*jencoder)
		b, err := m.jsonMarshal(fr, a[1].(Iface))
		if err.t != nil {
			return err
		}
		if e.prefix != "" || e.indent != "" {
			b = m.jsonIndent(b, e.prefix, e.indent)
		}
		b = append(append([]*Term{}, b...), mkConst(8, '\n'))
		return m.ioWrite(fr, e.w, termsStr(b))[1]
	},
	"encoding/json.Indent": func(m *Machine, fr *Frame, a []Value) Value {
		b := bytesOf(m, a[1])
		if !m.jsonValid(b) {
			return m.mkError("invalid JSON")
		}
		p := &jparser{m: m, b: b}
		p.ws()
		r := m.jsonIndent(m.jsonCompact(b[p.i:]), m.concStr(a[2], "prefix"), m.concStr(a[3], "indent"))
		return m.ioWrite(fr, Iface{m.P.canon(types.NewPointer(m.P.pkgs["bytes"].Type("Buffer").Type())), a[0]}, termsStr(r))[1]
	},
	"encoding/json.Compact": func(m *Machine, fr *Frame, a []Value) Value {
		b := bytesOf(m, a[1])
		if !m.jsonValid(b) {
			return m.mkError("invalid JSON")
		}
		return m.ioWrite(fr, Iface{m.P.canon(types.NewPointer(m.P.pkgs["bytes"].Type("Buffer").Type())), a[0]}, termsStr(m.jsonCompact(b)))[1]
	},
	"(*encoding/json.Decoder).Decode": func(m *Machine, fr *Frame, a []Value) Value {
		d := (*a[0].(*Value)).(*Native).v.(*jdecoder)
		if !d.eof {
			b, e := m.readAll(fr, d.r)
			d.buf = append(d.buf, b...)
			d.eof = true
			if e.t != nil {
				return e
			}
		}
		e, n := m.jsonUnmarshal(fr, d.buf, a[1].(Iface), true, d.strict)
		d.buf = d.buf[n:]
		return e
	},
	"(encoding/json.RawMessage).MarshalJSON": func(m *Machine, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		if s == nil {
			return Tuple{m.strToSlice(cstr("null")), nilErr()}
		}
		return Tuple{s, nilErr()}
	},
	"(*encoding/json.RawMessage).UnmarshalJSON": func(m *Machine, fr *Frame, a []Value) Value {
		m.store(a[0].(*Value), append(Slice{}, a[1].(Slice)...))
		return nilErr()
	},
}

func (m *Machine) jsonValid(b []*Term) bool {
	p := &jparser{m: m, b: b}
	p.ws()
	_, ok := p.value()
	if ok {
		p.ws()
		ok = p.i == len(p.b)
	}
	return ok
}
