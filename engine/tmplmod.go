package main

// Model of text/template: parsing is native, execution runs over interpreter values.

import (
	"fmt"
	"go/types"
	"maps"
	"reflect"
	"strconv"
	"text/template/parse"
)

type tset struct {
	trees map[string]*parse.Tree
	funcs map[string]Value
	ftyp  map[string]types.Type
}

type tmpl struct {
	name string
	set  *tset
	tree *parse.Tree
}

// tmplField gives the exported fields of templates and trees that lead to the root node.
func tmplField(n *Native, st *types.Struct, i int) (Value, bool) {
	mk := func(kind string, v any) Value {
		p := new(Value)
		*p = &Native{kind: kind, v: v}
		return p
	}
	switch x := n.v.(type) {
	case *tmpl:
		if st.Field(i).Name() == "Tree" {
			if x.tree == nil {
				return (*Value)(nil), true
			}
			return mk("tree", x.tree), true
		}
	case *parse.Tree:
		switch st.Field(i).Name() {
		case "Root":
			if x.Root == nil {
				return (*Value)(nil), true
			}
			return mk("node", x.Root), true
		case "Name":
			return cstr(x.Name), true
		}
	}
	return nil, false
}

type tmplErr struct{ e Iface }

var tmplBuiltins = map[string]any{
	"and": 1, "call": 1, "html": 1, "index": 1, "slice": 1, "js": 1, "len": 1, "not": 1, "or": 1, "print": 1, "printf": 1, "println": 1, "urlquery": 1,
	"eq": 1, "ge": 1, "gt": 1, "le": 1, "lt": 1, "ne": 1,
}

func (m *Machine) tmplOf(fr *Frame, v Value) *tmpl {
	p := v.(*Value)
	if p == nil {
		m.throw(fr, "invalid memory address or nil pointer dereference")
	}
	return (*p).(*Native).v.(*tmpl)
}

func mkTmpl(t *tmpl) *Value {
	p := new(Value)
	*p = &Native{kind: "template", v: t}
	return p
}

var tmplIntrinsics = map[string]intrinsic{
	"text/template.New": func(m *Machine, fr *Frame, a []Value) Value {
		return mkTmpl(&tmpl{name: m.concStr(a[0], "template name"), set: &tset{trees: map[string]*parse.Tree{}, funcs: map[string]Value{}}})
	},
	"text/template.Must": func(m *Machine, fr *Frame, a []Value) Value {
		if e := a[1].(Iface); e.t != nil {
			panic(targetPanic{v: e, where: m.where(fr)})
		}
		return a[0]
	},
	"(*text/template.Template).New": func(m *Machine, fr *Frame, a []Value) Value {
		return mkTmpl(&tmpl{name: m.concStr(a[1], "template name"), set: m.tmplOf(fr, a[0]).set})
	},
	"(*text/template.Template).Funcs": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		mp := a[1].(*Map)
		for _, e := range mp.ents {
			t.set.funcs[e.k.(*Str).s] = e.v.(Iface)
		}
		return a[0]
	},
	"(*text/template.Template).Parse": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		src := m.concStr(a[1], "template text")
		fs := map[string]any{}
		for k := range t.set.funcs {
			fs[k] = 1
		}
		trees, err := parse.Parse(t.name, src, "", "", fs, tmplBuiltins)
		if err != nil {
			return Tuple{(*Value)(nil), m.mkError(err.Error())}
		}
		for n, tr := range trees {
			if n == t.name && t.tree == nil {
				t.tree = tr
			}
			if old, ok := t.set.trees[n]; ok && parse.IsEmptyTree(tr.Root) && !parse.IsEmptyTree(old.Root) {
				continue
			}
			t.set.trees[n] = tr
			if n == t.name {
				t.tree = tr
			}
		}
		return Tuple{a[0], nilErr()}
	},
	"(*text/template.Template).Lookup": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		n := m.concStr(a[1], "template name")
		if _, ok := t.set.trees[n]; !ok {
			return (*Value)(nil)
		}
		return mkTmpl(&tmpl{name: n, set: t.set, tree: t.set.trees[n]})
	},
	"(*text/template.Template).Clone": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		return Tuple{mkTmpl(&tmpl{name: t.name, tree: t.tree, set: &tset{trees: maps.Clone(t.set.trees), funcs: maps.Clone(t.set.funcs), ftyp: t.set.ftyp}}), nilErr()}
	},
	"(*text/template.Template).AddParseTree": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		n := m.concStr(a[1], "template name")
		p := a[2].(*Value)
		if p == nil {
			m.unsupported("AddParseTree of nil")
		}
		tr := (*p).(*Native).v.(*parse.Tree)
		nt := t
		if n != t.name {
			nt = &tmpl{name: n, set: t.set}
		}
		if _, ok := t.set.trees[n]; !ok || !parse.IsEmptyTree(tr.Root) {
			t.set.trees[n] = tr
			nt.tree = tr
		} else if nt.tree == nil {
			nt.tree = tr
		}
		if nt == t {
			return Tuple{a[0], nilErr()}
		}
		return Tuple{mkTmpl(nt), nilErr()}
	},
	"text/template/parse.IsEmptyTree": func(m *Machine, fr *Frame, a []Value) Value {
		n := a[0].(Iface)
		if n.t == nil {
			return mkBool(true)
		}
		p := n.v.(*Value)
		if p == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		nd, ok := (*p).(*Native)
		if !ok {
			m.unsupported("IsEmptyTree of %T", *p)
		}
		return mkBool(parse.IsEmptyTree(nd.v.(parse.Node)))
	},
	"(*text/template.Template).Execute": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		return m.tmplExec(fr, t, a[1].(Iface), a[2].(Iface))
	},
	"(*text/template.Template).ExecuteTemplate": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tmplOf(fr, a[0])
		return m.tmplExec(fr, &tmpl{name: m.concStr(a[2], "template name"), set: t.set}, a[1].(Iface), a[3].(Iface))
	},
	"(*text/template.Template).Name": func(m *Machine, fr *Frame, a []Value) Value { return cstr(m.tmplOf(fr, a[0]).name) },
}

type tstate struct {
	m    *Machine
	fr   *Frame
	set  *tset
	out  []*Str
	vars []tvar
}

type tvar struct {
	name string
	v    Iface
}

func (m *Machine) tmplExec(fr *Frame, t *tmpl, w Iface, data Iface) (res Value) {
	s := &tstate{m: m, fr: fr, set: t.set}
	res = nilErr()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(tmplErr); ok {
					res = e.e
					return
				}
				panic(r)
			}
		}()
		tr := t.set.trees[t.name]
		if tr == nil {
			s.fail("template: %s is an incomplete or empty template", t.name)
		}
		s.vars = []tvar{{"$", data}}
		s.walk(data, tr.Root)
	}()
	// output produced so far is written
	for _, o := range s.out {
		r := m.ioWrite(fr, w, o)
		if e := r[1].(Iface); e.t != nil {
			if res.(Iface).t == nil {
				res = e
			}
			break
		}
	}
	return res
}

func (s *tstate) fail(f string, a ...any) {
	panic(tmplErr{s.m.mkError(fmt.Sprintf(f, a...))})
}

func (s *tstate) emit(x *Str) {
	s.out = append(s.out, x)
}

func (s *tstate) walk(dot Iface, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		for _, c := range n.Nodes {
			s.walk(dot, c)
		}
	case *parse.TextNode:
		s.emit(cstr(string(n.Text)))
	case *parse.ActionNode:
		v := s.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s.print(v)
		}
	case *parse.CommentNode:
	case *parse.IfNode:
		mark := len(s.vars)
		if s.truth(s.pipe(dot, n.Pipe)) {
			s.walk(dot, n.List)
		} else if n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
		s.vars = s.vars[:mark]
	case *parse.WithNode:
		mark := len(s.vars)
		v := s.pipe(dot, n.Pipe)
		if s.truth(v) {
			s.walk(v, n.List)
		} else if n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
		s.vars = s.vars[:mark]
	case *parse.RangeNode:
		v := s.pipe(dot, n.Pipe)
		mark := len(s.vars)
		v = s.indirect(v)
		cnt := 0
		one := func(i Iface, e Iface) {
			if len(n.Pipe.Decl) > 0 {
				s.vars = append(s.vars, tvar{n.Pipe.Decl[0].Ident[0], e})
				if len(n.Pipe.Decl) > 1 {
					s.vars[len(s.vars)-1].v = i
					s.vars = append(s.vars, tvar{n.Pipe.Decl[1].Ident[0], e})
				}
			}
			s.walk(e, n.List)
			s.vars = s.vars[:mark]
			cnt++
		}
		switch x := v.v.(type) {
		case Slice:
			et := v.t.Underlying().(*types.Slice).Elem()
			for i, e := range x {
				one(Iface{types.Typ[types.Int], i64(i)}, s.wrap(et, e))
			}
		case Array:
			et := v.t.Underlying().(*types.Array).Elem()
			for i, e := range x {
				one(Iface{types.Typ[types.Int], i64(i)}, s.wrap(et, e))
			}
		case nil:
		default:
			s.m.unsupported("template range over %v", v.t)
		}
		if cnt == 0 && n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
	case *parse.TemplateNode:
		tr := s.set.trees[n.Name]
		if tr == nil {
			s.fail("template %q not defined", n.Name)
		}
		var d Iface
		if n.Pipe != nil {
			d = s.pipe(dot, n.Pipe)
		}
		save := s.vars
		s.vars = []tvar{{"$", d}}
		s.walk(d, tr.Root)
		s.vars = save
	default:
		s.m.unsupported("template node %T", n)
	}
}

func (s *tstate) wrap(t types.Type, v Value) Iface {
	if iv, ok := v.(Iface); ok {
		return iv
	}
	return Iface{s.m.P.canon(t), v}
}

func (s *tstate) indirect(v Iface) Iface {
	for v.t != nil {
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q, _ := v.v.(*Value)
		if q == nil {
			break
		}
		v = s.wrap(p.Elem(), *q)
	}
	return v
}

func (s *tstate) print(v Iface) {
	if v.t == nil {
		s.emit(cstr("<no value>"))
		return
	}
	m := s.m
	// printableValue: pointers are dereferenced unless they implement error/Stringer
	if _, ok := v.t.Underlying().(*types.Pointer); ok {
		if m.P.method(v.t, nil, "String") == nil && m.P.method(v.t, nil, "Error") == nil {
			v = s.indirect(v)
		}
	} else if m.P.method(v.t, nil, "String") == nil && m.P.method(v.t, nil, "Error") == nil {
		// addressable values with pointer-receiver String methods are not modelled
	}
	s.emit(m.fmtArg(s.fr, fspec{verb: 'v'}, v))
}

func (s *tstate) truth(v Iface) bool {
	if v.t == nil {
		return false
	}
	switch x := v.v.(type) {
	case *Term:
		if x.w == 0 {
			return s.m.branch(x)
		}
		return !s.m.branch(s.m.x.Eq(x, mkConst(x.w, 0)))
	case *Str:
		return s.m.force(x).flen() > 0
	case Slice:
		return len(x) > 0
	case *Map:
		return x != nil && len(x.ents) > 0
	case *Value:
		return x != nil
	}
	return true
}

func (s *tstate) pipe(dot Iface, p *parse.PipeNode) Iface {
	var v Iface
	have := false
	for _, c := range p.Cmds {
		v = s.command(dot, c, v, have)
		have = true
		if it, ok := v.v.(Iface); ok {
			v = it
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(s.vars) - 1; i >= 0; i-- {
				if s.vars[i].name == d.Ident[0] {
					s.vars[i].v = v
					break
				}
			}
		} else {
			s.vars = append(s.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (s *tstate) command(dot Iface, c *parse.CommandNode, final Iface, have bool) Iface {
	args := c.Args[1:]
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, args, final, have)
	case *parse.ChainNode:
		return s.chain(dot, s.arg(dot, n.Node), n.Field, args, final, have)
	case *parse.IdentifierNode:
		return s.function(dot, n.Ident, args, final, have)
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.VariableNode:
		v := s.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return s.chain(dot, v, n.Ident[1:], args, final, have)
	}
	return s.arg(dot, c.Args[0])
}

func (s *tstate) variable(n string) Iface {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == n {
			return s.vars[i].v
		}
	}
	s.fail("undefined variable %s", n)
	return Iface{}
}

func (s *tstate) arg(dot Iface, n parse.Node) Iface {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.StringNode:
		return Iface{types.Typ[types.String], cstr(n.Text)}
	case *parse.NumberNode:
		if n.IsInt {
			return Iface{types.Typ[types.Int], mkConst(64, uint64(n.Int64))}
		}
		return Iface{types.Typ[types.Float64], Float{w: 64, c: n.Float64}}
	case *parse.BoolNode:
		return Iface{types.Typ[types.Bool], mkBool(n.True)}
	case *parse.NilNode:
		return Iface{}
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, nil, Iface{}, false)
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.VariableNode:
		v := s.variable(n.Ident[0])
		return s.chain(dot, v, n.Ident[1:], nil, Iface{}, false)
	case *parse.IdentifierNode:
		return s.function(dot, n.Ident, nil, Iface{}, false)
	case *parse.ChainNode:
		return s.chain(dot, s.arg(dot, n.Node), n.Field, nil, Iface{}, false)
	}
	s.m.unsupported("template arg %T", n)
	return Iface{}
}

func (s *tstate) chain(dot, recv Iface, ids []string, args []parse.Node, final Iface, have bool) Iface {
	for i, id := range ids {
		var a []Iface
		if i == len(ids)-1 {
			for _, n := range args {
				a = append(a, s.arg(dot, n))
			}
			if have {
				a = append(a, final)
			}
		}
		recv = s.field(recv, id, a)
	}
	return recv
}

func (s *tstate) field(recv Iface, name string, args []Iface) Iface {
	m := s.m
	if recv.t == nil {
		s.fail("nil data; no entry for key %q", name)
	}
	// methods (value, then pointer receiver for addressable values)
	try := func(t types.Type, v Value) (Iface, bool) {
		f := m.P.method(m.P.canon(t), nil, name)
		if f == nil {
			return Iface{}, false
		}
		var vs []Value = []Value{copyVal(v)}
		sig := f.Signature
		for i, a := range args {
			if i < sig.Params().Len() {
				vs = append(vs, s.coerce(a, sig.Params().At(i).Type()))
			}
		}
		r := m.callSSA(s.fr, f, vs, nil)
		return s.result(sig, r), true
	}
	if p, ok := recv.t.Underlying().(*types.Pointer); ok {
		if q, _ := recv.v.(*Value); q == nil {
			s.fail("nil pointer evaluating %v.%s", recv.t, name)
		}
		_ = p
	}
	if r, ok := try(recv.t, recv.v); ok {
		return r
	}
	if _, ok := recv.t.Underlying().(*types.Pointer); !ok {
		c := new(Value)
		*c = recv.v
		if r, ok := try(types.NewPointer(recv.t), c); ok {
			return r
		}
	}
	v := s.indirect(recv)
	switch u := v.t.Underlying().(type) {
	case *types.Struct:
		obj, path, _ := types.LookupFieldOrMethod(v.t, true, nil, name)
		if fv, ok := obj.(*types.Var); ok && fv.Exported() {
			cur := v
			for _, ix := range path {
				cur = s.indirect(cur)
				st := cur.t.Underlying().(*types.Struct)
				cur = s.wrap(st.Field(ix).Type(), cur.v.(Struct)[ix])
			}
			if len(args) > 0 {
				s.fail("%s has arguments but cannot be invoked as function", name)
			}
			return cur
		}
	case *types.Map:
		r, ok := m.mapLookup(v.v.(*Map), cstr(name), u)
		if m.branch(ok) {
			return s.wrap(u.Elem(), r)
		}
		return Iface{}
	}
	s.fail("can't evaluate field %s in type %v", name, recv.t)
	return Iface{}
}

func (s *tstate) result(sig *types.Signature, r Value) Iface {
	switch sig.Results().Len() {
	case 1:
		return s.wrap(sig.Results().At(0).Type(), r)
	case 2:
		t := r.(Tuple)
		if e := t[1].(Iface); e.t != nil {
			panic(tmplErr{e})
		}
		return s.wrap(sig.Results().At(0).Type(), t[0])
	}
	s.m.unsupported("template function results")
	return Iface{}
}

// coerce converts a template argument to a parameter type.
func (s *tstate) coerce(a Iface, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return a
	}
	if a.t == nil {
		return zero(t)
	}
	if types.AssignableTo(a.t, t) || types.Identical(a.t, t) {
		return a.v
	}
	if p, ok := a.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
		if q, _ := a.v.(*Value); q != nil {
			return *q
		}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok {
		if w, _, ok := intWidth(bt); ok {
			if x, ok := a.v.(*Term); ok && a.t == types.Typ[types.Int] {
				return s.m.x.Extract(x, 0, w)
			}
		}
	}
	s.fail("wrong type for value; expected %v; got %v", t, a.t)
	return nil
}

func (s *tstate) function(dot Iface, name string, args []parse.Node, final Iface, have bool) Iface {
	m := s.m
	if name == "and" || name == "or" {
		var v Iface
		for _, n := range args {
			v = s.arg(dot, n)
			if s.truth(v) == (name == "or") {
				return v
			}
		}
		if have {
			v = final
		}
		return v
	}
	var a []Iface
	for _, n := range args {
		a = append(a, s.arg(dot, n))
	}
	if have {
		a = append(a, final)
	}
	if fv, ok := s.set.funcs[name]; ok {
		fi := fv.(Iface)
		sig := fi.t.Underlying().(*types.Signature)
		var vs []Value
		np := sig.Params().Len()
		if sig.Variadic() {
			np--
		}
		if len(a) < np || (!sig.Variadic() && len(a) > np) {
			s.fail("wrong number of args for %s", name)
		}
		for i := 0; i < np; i++ {
			vs = append(vs, s.coerce(a[i], sig.Params().At(i).Type()))
		}
		if sig.Variadic() {
			et := sig.Params().At(np).Type().(*types.Slice).Elem()
			var rest Slice
			for i := np; i < len(a); i++ {
				rest = append(rest, s.coerce(a[i], et))
			}
			vs = append(vs, rest)
		}
		return s.result(sig, m.call(s.fr, fi.v, vs))
	}
	boolv := func(t *Term) Iface { return Iface{types.Typ[types.Bool], t} }
	switch name {
	case "not":
		return boolv(mkBool(!s.truth(a[0])))
	case "eq", "ne":
		l := s.indirect(a[0])
		r := tFalse
		for _, b := range a[1:] {
			r = m.x.BOr(r, s.cmpEq(l, s.indirect(b)))
		}
		if name == "ne" {
			r = m.x.BNot(r)
		}
		return boolv(r)
	case "len":
		v := s.indirect(a[0])
		n := 0
		switch x := v.v.(type) {
		case *Str:
			n = m.force(x).flen()
		case Slice:
			n = len(x)
		case *Map:
			n = len(x.ents)
		}
		return Iface{types.Typ[types.Int], i64(n)}
	case "printf":
		var vs []Value
		for _, b := range a[1:] {
			vs = append(vs, b)
		}
		return Iface{types.Typ[types.String], m.sprintf(s.fr, a[0].v.(*Str), vs)}
	case "print", "println":
		var vs []Value
		for _, b := range a {
			vs = append(vs, b)
		}
		return Iface{types.Typ[types.String], m.sprint(s.fr, vs, name == "println")}
	case "index":
		v := s.indirect(a[0])
		for _, ix := range a[1:] {
			switch x := v.v.(type) {
			case Slice:
				i := m.index(s.fr, ix.v.(*Term), len(x), types.Typ[types.Int])
				v = s.wrap(v.t.Underlying().(*types.Slice).Elem(), x[i])
			case *Map:
				u := v.t.Underlying().(*types.Map)
				r, _ := m.mapLookup(x, ix.v, u)
				v = s.wrap(u.Elem(), r)
			default:
				m.unsupported("template index %v", v.t)
			}
		}
		return v
	}
	m.unsupported("template builtin %s", name)
	return Iface{}
}

func (s *tstate) cmpEq(a, b Iface) *Term {
	m := s.m
	switch x := a.v.(type) {
	case *Str:
		if y, ok := b.v.(*Str); ok {
			return m.strEq(x, y)
		}
	case *Term:
		if y, ok := b.v.(*Term); ok {
			if x.w == y.w {
				return m.x.Eq(x, y)
			}
			return m.x.Eq(m.ext64(x, a.t), m.ext64(y, b.t))
		}
	}
	s.fail("incompatible types for comparison")
	return nil
}

var _ = strconv.Itoa

var modelIntrinsics = func() map[string]intrinsic {
	r := map[string]intrinsic{}
	for _, t := range []map[string]intrinsic{regexIntrinsics, jsonIntrinsics, tmplIntrinsics} {
		for k, v := range t {
			r[k] = v
		}
	}
	return r
}()

func (m *Machine) nativeMethod(fr *Frame, n *Native, name string, args []Value) Value {
	switch n.kind {
	case "rtype":
		switch name {
		case "Comparable":
			return mkBool(types.Comparable(n.v.(types.Type)))
		case "PkgPath":
			if t, ok := n.v.(types.Type).(*types.Named); ok && t.Obj().Pkg() != nil {
				return cstr(t.Obj().Pkg().Path())
			}
			return emptyStr
		case "Name":
			switch t := n.v.(type) {
			case *types.Named:
				return cstr(t.Obj().Name())
			case *types.Basic:
				return cstr(t.Name())
			}
			return emptyStr
		case "String":
			return cstr(types.TypeString(n.v.(types.Type), qualPkgName))
		case "Elem":
			if p, ok := n.v.(types.Type).Underlying().(*types.Pointer); ok {
				return Iface{t: rtypeMarker, v: &Native{kind: "rtype", v: m.P.canon(p.Elem())}}
			}
			m.unsupported("reflect Elem")
		case "Kind":
			return mkConst(64, uint64(kindOf(n.v.(types.Type))))
		}
	}
	m.unsupported("native method %s.%s", n.kind, name)
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
			if k.String() == u.Name() || u.Name() == "byte" && k == reflect.Uint8 || u.Name() == "rune" && k == reflect.Int32 {
				return k
			}
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}
