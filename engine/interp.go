package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int32 // >=0 register, -1 constant, -2 global, -3 zero of type
	val Value
	t   types.Type
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	ops []opnd
}

type cblock struct {
	idx    int
	quiet  int
	phis   []*ssa.Phi
	phiDst []int32
	phiOps [][]opnd
	ins    []cinstr
	succs  []int
	preds  []int
}

type fnInfo struct {
	pkgInit bool
	fn      *ssa.Function
	nregs   int
	blocks  []cblock
	intr    intrinsic
	name    string
	project bool
}

type intrinsic func(m *Machine, fr *Frame, args []Value) Value

type deferred struct {
	fn   Value
	args []Value
	next *deferred
}

type Frame struct {
	fi        *fnInfo
	caller    *Frame
	env       []Value
	block     int
	prev      int
	defers    *deferred
	result    Value
	panicking bool
	panicv    any
	depth     int
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.gidx)
	p.gidx[g] = i
	return i
}

func (m *Machine) global(i int, g *ssa.Global) *Value {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if m.globals[i] == nil {
		c := new(Value)
		*c = zero(g.Type().(*types.Pointer).Elem())
		m.initGlobal(g, c)
		m.globals[i] = c
	}
	return m.globals[i]
}

func constValue(c *ssa.Const) (Value, bool) {
	if c.Value == nil {
		return nil, false
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if w, _, ok := intWidth(t); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return mkConst(w, uint64(i)), true
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(w, u), true
	}
	switch t.Kind() {
	case types.Bool, types.UntypedBool:
		return mkBool(constant.BoolVal(c.Value)), true
	case types.String, types.UntypedString:
		return cstr(constant.StringVal(c.Value)), true
	case types.Float64, types.UntypedFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Float{w: 64, c: f}, true
	case types.Float32:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Float{w: 32, c: float64(float32(f))}, true
	case types.Complex128, types.Complex64:
		return complex128(0), true
	}
	panic(fmt.Sprintf("const %v", c))
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi := &fnInfo{fn: fn, name: name, pkgInit: fn.Synthetic == "package initializer"}
	if f, ok := intrinsics[name]; ok {
		fi.intr = f
	} else if fn.Pkg != nil {
		if f := pkgIntrinsic(fn, name); f != nil {
			fi.intr = f
		}
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/transcriptaze/") {
		fi.project = true
	}
	if len(fn.Blocks) > 0 {
		p.compile(fi)
	}
	v, _ := p.fns.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (p *Program) compile(fi *fnInfo) {
	fn := fi.fn
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, q := range fn.Params {
		regs[q] = n
		n++
	}
	for _, q := range fn.FreeVars {
		regs[q] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{reg: -1}
		case *ssa.Const:
			if cv, ok := constValue(v); ok {
				return opnd{reg: -1, val: cv}
			}
			if v.Type() == types.Typ[types.UntypedNil] {
				return opnd{reg: -1}
			}
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return opnd{reg: -3, t: v.Type()}
			}
			if _, ok := v.Type().(*types.TypeParam); ok {
				return opnd{reg: -1}
			}
			return opnd{reg: -1, val: zero(v.Type())}
		case *ssa.Global:
			return opnd{reg: -2, val: gref{p.globalIdx(v), v}}
		case *ssa.Function, *ssa.Builtin:
			return opnd{reg: -1, val: v}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no reg for %v in %v", v, fn))
		}
		return opnd{reg: r}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &fi.blocks[i]
		cb.idx = i
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ph)
				cb.phiDst = append(cb.phiDst, regs[ph])
				var ops []opnd
				for _, e := range ph.Edges {
					ops = append(ops, mkop(e))
				}
				cb.phiOps = append(cb.phiOps, ops)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			cb.quiet = -1
			if br, ok := in.(*ssa.If); ok {
				cb.quiet = quietSkip(br)
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			var rands [12]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{reg: -1})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

type gref struct {
	i int
	g *ssa.Global
}

func (m *Machine) get(fr *Frame, o *opnd) Value {
	if o.reg >= 0 {
		return fr.env[o.reg]
	}
	switch o.reg {
	case -1:
		return o.val
	case -2:
		g := o.val.(gref)
		if g.i < len(m.globals) && m.globals[g.i] != nil {
			return m.globals[g.i]
		}
		return m.global(g.i, g.g)
	}
	return zero(o.t)
}

// callFn invokes an interpreted function value.
func (m *Machine) call(fr *Frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		return m.callSSA(fr, f, args, nil)
	case *Closure:
		return m.callSSA(fr, f.fn, args, f.env)
	case *NativeFn:
		return f.f(m, args)
	case *ssa.Builtin:
		return m.builtin(fr, f, args, nil)
	case nil:
		m.throw(fr, "invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call: %T", fv))
}

func (m *Machine) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.P.info(fn)
	if fi.intr != nil {
		for i, a := range args {
			if ss, ok := a.(*SymSlice); ok {
				args[i] = m.fix(ss)
			}
		}
		r := fi.intr(m, caller, args)
		if _, ok := r.(fallthru); !ok {
			return r
		}
	}
	if m.inInit && fn.Synthetic == "package initializer" && !m.P.initSet[fn.Pkg.Pkg.Path()] {
		return nil
	}
	if len(fi.blocks) == 0 {
		m.unsupported("no body: %s", fi.name)
	}
	if !m.inInit {
		m.coverage[fn] = true
	}
	fr := &Frame{fi: fi, caller: caller, prev: -1}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 4000 {
			panic(pathEnd{"budget", "recursion depth in " + m.where(fr)})
		}
	}
	fr.env = make([]Value, fi.nregs)
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	m.curFr = fr
	m.runFrame(fr)
	m.curFr = caller
	return fr.result
}

func (m *Machine) runFrame(fr *Frame) {
	if fr.fi.fn.Recover == nil {
		m.exec(fr)
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(targetPanic); !ok {
				panic(r)
			}
			fr.panicking = true
			fr.panicv = r
			m.runDefers(fr)
			// recovered: run the recover block
			fr.prev = fr.block
			fr.block = fr.fi.fn.Recover.Index
			m.exec(fr)
		}()
		m.exec(fr)
	}()
}

func (m *Machine) runDefers(fr *Frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (m *Machine) runDefer(fr *Frame, d *deferred) {
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if _, isT := r.(targetPanic); !isT {
				panic(r)
			}
			fr.panicking = true
			fr.panicv = r
		}()
		m.call(fr, d.fn, d.args)
		ok = true
	}()
}

func (m *Machine) exec(fr *Frame) {
	fi := fr.fi
	for {
		blk := &fi.blocks[fr.block]
		if len(blk.phis) > 0 {
			pi := 0
			for i, p := range blk.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(blk.phis) == 1 {
				fr.env[blk.phiDst[0]] = m.get(fr, &blk.phiOps[0][pi])
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := range blk.phis {
					t = append(t, m.get(fr, &blk.phiOps[i][pi]))
				}
				for i, v := range t {
					fr.env[blk.phiDst[i]] = v
				}
			}
		}
		next := -1
		for i := range blk.ins {
			ci := &blk.ins[i]
			m.steps++
			if m.steps > m.E.maxStep && !m.inInit {
				panic(pathEnd{"budget", "instruction budget in " + m.where(fr)})
			}
			if m.steps&0x3fff == 0 && !m.inInit && time.Now().After(m.E.deadline) {
				panic(pathEnd{"timeout", "time budget in " + m.where(fr)})
			}
			switch in := ci.in.(type) {
			case *ssa.If:
				c := m.get(fr, &ci.ops[0]).(*Term)
				if lo, hi := m.x.ival(c); blk.quiet >= 0 && lo != hi {
					next = blk.succs[blk.quiet]
				} else if m.branch(c) {
					next = blk.succs[0]
				} else {
					next = blk.succs[1]
				}
			case *ssa.Jump:
				next = blk.succs[0]
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &ci.ops[0])
				default:
					r := make(Tuple, len(ci.ops))
					for i := range ci.ops {
						r[i] = m.get(fr, &ci.ops[i])
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				v := m.get(fr, &ci.ops[0]).(Iface)
				panic(targetPanic{v: v, where: m.where(fr)})
			case *ssa.RunDefers:
				m.runDefers(fr)
			default:
				if m.inInit && fi.pkgInit {
					m.initInstr(fr, ci, in)
					continue
				}
				v := m.instr(fr, ci, in)
				if ci.dst >= 0 {
					fr.env[ci.dst] = v
				}
			}
		}
		fr.prev = fr.block
		fr.block = next
		if next < 0 {
			panic("fell off block")
		}
	}
}

// initInstr runs an instruction of a package initialiser; what lies outside the
// encoding poisons the values that depend on it.
func (m *Machine) initInstr(fr *Frame, ci *cinstr, in ssa.Instruction) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		m.curFr = fr
		why := fmt.Sprint(r)
		if tp, ok := r.(targetPanic); ok {
			why = "panic: " + m.panicText(tp.v)
		}
		why = "initialiser of " + fr.fi.fn.Pkg.Pkg.Path() + ": " + why
		m.initProblems = append(m.initProblems, why)
		if ci.dst >= 0 {
			fr.env[ci.dst] = poison{why}
		}
	}()
	v := m.instr(fr, ci, in)
	if ci.dst >= 0 {
		fr.env[ci.dst] = v
	}
}

func (m *Machine) instr(fr *Frame, ci *cinstr, in ssa.Instruction) Value {
	switch in := in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.BinOp:
		return m.binop(fr, in.Op, in.X.Type(), m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		return m.unop(fr, in, m.get(fr, &ci.ops[0]))
	case *ssa.Call:
		return m.doCall(fr, &in.Call, ci.ops)
	case *ssa.Store:
		p := m.get(fr, &ci.ops[0]).(*Value)
		if p == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		m.store(p, m.get(fr, &ci.ops[1]))
		return nil
	case *ssa.FieldAddr:
		p := m.get(fr, &ci.ops[0]).(*Value)
		if p == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if n, yes := (*p).(*Native); yes {
			if st, yes := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); yes {
				if v, yes := tmplField(n, st, in.Field); yes {
					return &v
				}
			}
		}
		if !ok {
			m.unsupported("FieldAddr on %T in %s", *p, fr.fi.name)
		}
		return &s[in.Field]
	case *ssa.Field:
		return m.get(fr, &ci.ops[0]).(Struct)[in.Field]
	case *ssa.IndexAddr:
		xv := m.get(fr, &ci.ops[0])
		it := m.get(fr, &ci.ops[1]).(*Term)
		var arr []Value
		switch a := xv.(type) {
		case Slice:
			arr = a
		case *SymSlice:
			i64 := m.ext64(it, in.Index.Type())
			if !m.branch(m.x.Ult(i64, a.n)) {
				m.throw(fr, "index out of range of slice")
			}
			if i64.isConst() {
				if i64.c >= uint64(len(a.b)) {
					m.unsupported("index beyond materialised part of a long slice")
				}
				return &a.b[i64.c]
			}
			arr = m.fix(a).(Slice)
		case *Value:
			if a == nil {
				m.throw(fr, "invalid memory address or nil pointer dereference")
			}
			arr = (*a).(Array)
		default:
			m.unsupported("IndexAddr on %T", xv)
		}
		idx := it
		if !it.isConst() && len(arr) <= 512 && onlyLoaded(in) {
			m.boundsTerm(fr, it, len(arr), in.Index.Type())
			if v, ok := m.iteRead(arr, it); ok {
				c := new(Value)
				*c = v
				return c
			}
		}
		i := m.index(fr, idx, len(arr), in.Index.Type())
		return &arr[i]
	case *ssa.Index:
		xv := m.get(fr, &ci.ops[0])
		it := m.get(fr, &ci.ops[1]).(*Term)
		switch a := xv.(type) {
		case Array:
			if !it.isConst() {
				m.boundsTerm(fr, it, len(a), in.Index.Type())
				if v, ok := m.iteRead(a, it); ok {
					return v
				}
			}
			return a[m.index(fr, it, len(a), in.Index.Type())]
		case *Str:
			return m.strIndex(fr, a, it, in.Index.Type())
		}
		panic(fmt.Sprintf("Index on %T", xv))
	case *ssa.Lookup:
		xv := m.get(fr, &ci.ops[0])
		k := m.get(fr, &ci.ops[1])
		switch a := xv.(type) {
		case *Str:
			return m.strIndex(fr, a, k.(*Term), in.Index.Type())
		case *Map:
			v, ok := m.mapLookup(a, k, in.X.Type().Underlying().(*types.Map))
			if in.CommaOk {
				return Tuple{v, ok}
			}
			return v
		}
		panic(fmt.Sprintf("Lookup on %T", xv))
	case *ssa.MapUpdate:
		mp := m.get(fr, &ci.ops[0]).(*Map)
		if mp == nil {
			panic(targetPanic{v: m.mkError("assignment to entry in nil map"), where: m.where(fr)})
		}
		m.mapSet(mp, m.get(fr, &ci.ops[1]), copyVal(m.get(fr, &ci.ops[2])))
		return nil
	case *ssa.Slice:
		return m.slice(fr, in, ci.ops)
	case *ssa.MakeInterface:
		return Iface{t: m.P.canon(in.X.Type()), v: copyVal(m.get(fr, &ci.ops[0]))}
	case *ssa.TypeAssert:
		return m.typeAssert(fr, in, m.get(fr, &ci.ops[0]).(Iface))
	case *ssa.Extract:
		return m.get(fr, &ci.ops[0]).(Tuple)[in.Index]
	case *ssa.Convert:
		return m.convert(fr, in.Type(), in.X.Type(), m.fix(m.get(fr, &ci.ops[0])))
	case *ssa.MultiConvert:
		return m.convert(fr, in.Type(), in.X.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.ChangeType:
		return m.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		return m.get(fr, &ci.ops[0])
	case *ssa.MakeSlice:
		if lt := m.get(fr, &ci.ops[0]).(*Term); !lt.isConst() && lt == m.get(fr, &ci.ops[1]).(*Term) {
			if v, ok := m.makeSym(fr, lt, in.Len.Type(), in.Type().Underlying().(*types.Slice).Elem()); ok {
				return v
			}
		}
		n := m.makeLen(fr, m.get(fr, &ci.ops[0]).(*Term), "makeslice: len out of range")
		c := m.makeLen(fr, m.get(fr, &ci.ops[1]).(*Term), "makeslice: cap out of range")
		if c < n {
			c = n
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		return m.makeSlice(et, n, c)
	case *ssa.MakeMap:
		return &Map{idx: map[any]int{}, gen: m.pathGen, et: in.Type().Underlying().(*types.Map).Elem()}
	case *ssa.MakeChan:
		n := int(int64(m.concretize(m.get(fr, &ci.ops[0]).(*Term))))
		return &Chan{cap: n}
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = m.get(fr, &ci.ops[i+1])
		}
		return &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.Range:
		switch a := m.get(fr, &ci.ops[0]).(type) {
		case *Map:
			it := &mapIter{m: a}
			if a != nil {
				for _, e := range a.ents {
					it.keys = append(it.keys, e.k)
				}
			}
			return it
		case *Str:
			return &strIter{s: m.force(a)}
		}
		panic("range")
	case *ssa.Next:
		return m.next(fr, in, m.get(fr, &ci.ops[0]))
	case *ssa.Defer:
		if in.DeferStack != nil {
			m.unsupported("defer in range-over-func")
		}
		fn, args := m.prepCall(fr, &in.Call, ci.ops[:len(ci.ops)-1])
		fr.defers = &deferred{fn: fn, args: args, next: fr.defers}
		return nil
	case *ssa.Go:
		fn, args := m.prepCall(fr, &in.Call, ci.ops)
		m.spawn(fr, fn, args)
		return nil
	case *ssa.Send:
		m.chanSend(fr, m.get(fr, &ci.ops[0]).(*Chan), m.get(fr, &ci.ops[1]))
		return nil
	case *ssa.Select:
		return m.doSelect(fr, in, ci.ops)
	case *ssa.SliceToArrayPointer:
		s := m.fix(m.get(fr, &ci.ops[0])).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.throw(fr, fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		p := new(Value)
		*p = Array(s[:n:n])
		return p
	}
	m.unsupported("instr %T", in)
	return nil
}

func onlyLoaded(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func (m *Machine) makeLen(fr *Frame, t *Term, msg string) int {
	if !t.isConst() {
		// huge symbolic allocations: bound
		lim := mkConst(t.w, 1<<20)
		if m.branch(m.x.Ult(lim, t)) {
			half := mkConst(t.w, uint64(1)<<(t.w-1))
			if m.branch(m.x.Ult(t, half)) {
				if t.w == 64 && m.branch(m.x.Ult(mkConst(64, 1<<47), t)) {
					m.throw(fr, msg)
				}
				panic(pathEnd{"unsupported", "allocation above 1MiB in " + m.where(fr)})
			}
			m.throw(fr, msg)
		}
	}
	v := int64(sx(t.w, m.concretize(t)))
	if v < 0 || v > 1<<47 {
		m.throw(fr, msg)
	}
	if v > 1<<24 {
		panic(pathEnd{"unsupported", "allocation above 16MiB in " + m.where(fr)})
	}
	return int(v)
}

// SymSlice is a freshly made slice whose length is still symbolic: n elements,
// of which the first len(b) are materialised.
type SymSlice struct {
	n *Term
	b Slice
}

const symMax = 4096

func (m *Machine) makeSym(fr *Frame, t *Term, ty, et types.Type) (Value, bool) {
	l := m.ext64(t, ty)
	if _, hi := m.x.ival(l); hi <= 16 {
		return nil, false
	}
	if !m.branch(m.x.Ule(l, mkConst(64, 1<<47))) {
		m.throw(fr, "makeslice: len out of range")
	}
	return &SymSlice{n: l, b: m.makeSlice(et, symMax, symMax)}, true
}

// fix concretises a symbolic-length slice.
func (m *Machine) fix(v Value) Value {
	s, ok := v.(*SymSlice)
	if !ok {
		return v
	}
	if !m.branch(m.x.Ule(s.n, mkConst(64, uint64(len(s.b))))) {
		panic(pathEnd{"unsupported", fmt.Sprintf("slice longer than %d used in %s", len(s.b), m.where(m.curFr))})
	}
	n := m.concretize(s.n)
	return s.b[:n:n]
}

func (m *Machine) makeSlice(et types.Type, n, c int) Slice {
	s := make(Slice, c)
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func isSignedType(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		_, s, _ := intWidth(b)
		return s
	}
	return false
}

func (m *Machine) ext64(t *Term, ty types.Type) *Term {
	if isSignedType(ty) {
		return m.x.SExt(t, 64)
	}
	return m.x.ZExt(t, 64)
}

// boundsTerm forks on i out of [0,n) and throws on the bad side.
func (m *Machine) boundsTerm(fr *Frame, it *Term, n int, ty types.Type) {
	t := m.ext64(it, ty)
	if !m.branch(m.x.Ult(t, mkConst(64, uint64(n)))) {
		m.throw(fr, fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Machine) index(fr *Frame, it *Term, n int, ty types.Type) int {
	t := m.ext64(it, ty)
	if t.isConst() {
		if t.c >= uint64(n) {
			m.throw(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(t.c), n))
		}
		return int(t.c)
	}
	m.boundsTerm(fr, it, n, ty)
	return int(m.concretize(t))
}

// iteRead builds a merged read arr[it] (it known to be in range).
func (m *Machine) iteRead(arr []Value, it *Term) (Value, bool) {
	lo, hi := m.x.ival(it)
	if hi >= uint64(len(arr)) {
		hi = uint64(len(arr)) - 1
	}
	if lo > hi {
		return nil, false
	}
	if hi-lo > 300 {
		return nil, false
	}
	r := arr[hi]
	for i := int64(hi) - 1; i >= int64(lo); i-- {
		var ok bool
		r, ok = m.merge(m.x.Eq(it, mkConst(it.w, uint64(i))), arr[i], r)
		if !ok {
			return nil, false
		}
	}
	return r, true
}

// merge builds ite(c, a, b) for mergeable values.
func (m *Machine) merge(c *Term, a, b Value) (Value, bool) {
	if c == tTrue {
		return a, true
	}
	if c == tFalse {
		return b, true
	}
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok || bt.w != a.w {
			return nil, false
		}
		return m.x.Ite(c, a, bt), true
	case *Str:
		bs, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if a == bs || (a.concrete() && bs.concrete() && a.s == bs.s) {
			return a, true
		}
		if bs.lz != nil && bs.lz.conds != nil && bs.lz.forced == nil {
			l := &Lazy{conds: append([]*Term{c}, bs.lz.conds...), alts: append([]*Str{a}, bs.lz.alts...)}
			return &Str{lz: l}, true
		}
		return &Str{lz: &Lazy{conds: []*Term{c}, alts: []*Str{a, bs}}}, true
	case Struct:
		bs, ok := b.(Struct)
		if !ok || len(bs) != len(a) {
			return nil, false
		}
		r := make(Struct, len(a))
		for i := range a {
			v, ok := m.merge(c, a[i], bs[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Array:
		bs, ok := b.(Array)
		if !ok || len(bs) != len(a) {
			return nil, false
		}
		r := make(Array, len(a))
		for i := range a {
			v, ok := m.merge(c, a[i], bs[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *Value:
		if bp, ok := b.(*Value); ok && a == bp {
			return a, true
		}
	case Slice:
		bs, ok := b.(Slice)
		if ok && len(a) == 0 && len(bs) == 0 && (a == nil) == (bs == nil) {
			return a, true
		}
		if ok && len(a) > 0 && len(a) == len(bs) && &a[0] == &bs[0] {
			return a, true
		}
	case Iface:
		bi, ok := b.(Iface)
		if ok && a.t == bi.t {
			if a.t == nil {
				return a, true
			}
			v, ok := m.merge(c, a.v, bi.v)
			if ok {
				return Iface{a.t, v}, true
			}
		}
	case Float:
		bf, ok := b.(Float)
		if ok && a.t == nil && bf.t == nil && a.c == bf.c {
			return a, true
		}
	case *ssa.Function:
		if bf, ok := b.(*ssa.Function); ok && bf == a {
			return a, true
		}
	case *Map:
		if bf, ok := b.(*Map); ok && bf == a {
			return a, true
		}
	}
	return nil, false
}

func (m *Machine) strIndex(fr *Frame, s *Str, it *Term, ty types.Type) Value {
	s = m.force(s)
	if !it.isConst() {
		m.boundsTerm(fr, it, s.flen(), ty)
		if s.concrete() && len(s.s) <= 512 {
			arr := make([]Value, len(s.s))
			for i := range arr {
				arr[i] = mkConst(8, uint64(s.s[i]))
			}
			if v, ok := m.iteRead(arr, it); ok {
				return v
			}
		}
	}
	return s.at(m.index(fr, it, s.flen(), ty))
}

// ---------- operators ----------

func (m *Machine) unop(fr *Frame, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(*Value)
		if !ok {
			m.unsupported("deref %T", x)
		}
		if p == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return m.x.Neg(v)
		case Float:
			if v.t == nil {
				return Float{w: v.w, c: -v.c}
			}
			return Float{w: v.w, t: m.x.UF("fneg", 64, v.t)}
		}
	case token.NOT:
		return m.x.BNot(x.(*Term))
	case token.XOR:
		return m.x.Not(x.(*Term))
	case token.ARROW:
		v, ok := m.chanRecv(fr, x.(*Chan))
		if v == nil {
			v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return Tuple{v, mkBool(ok)}
		}
		return v
	}
	m.unsupported("unop %v %T", in.Op, x)
	return nil
}

func (m *Machine) fterm(f Float) *Term {
	if f.t != nil {
		return f.t
	}
	return mkConst(64, math.Float64bits(f.c))
}

func (m *Machine) binop(fr *Frame, op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.equal(fr, x, y)
	case token.NEQ:
		return m.x.BNot(m.equal(fr, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		signed := isSignedType(t)
		switch op {
		case token.ADD:
			return m.x.Add(a, b)
		case token.SUB:
			return m.x.Sub(a, b)
		case token.MUL:
			return m.x.Mul(a, b)
		case token.QUO, token.REM:
			if m.branch(m.x.Eq(b, mkConst(b.w, 0))) {
				m.throw(fr, "integer divide by zero")
			}
			// narrow with path-sensitive knowledge of signs
			if signed {
				half := uint64(1) << (a.w - 1)
				_, ah := m.x.ival(a)
				_, bh := m.x.ival(b)
				if ah < half && bh < half {
					signed = false
					if k := narrowS(a, b); k > 0 {
						p, q := m.x.Extract(a, 0, k), m.x.Extract(b, 0, k)
						if op == token.QUO {
							return m.x.ZExt(m.x.UDiv(p, q), a.w)
						}
						return m.x.ZExt(m.x.URem(p, q), a.w)
					}
				}
			}
			switch {
			case op == token.QUO && signed:
				return m.x.SDiv(a, b)
			case op == token.QUO:
				return m.x.UDiv(a, b)
			case signed:
				return m.x.SRem(a, b)
			default:
				return m.x.URem(a, b)
			}
		case token.AND:
			if a.w == 0 {
				return m.x.BAnd(a, b)
			}
			return m.x.And(a, b)
		case token.OR:
			if a.w == 0 {
				return m.x.BOr(a, b)
			}
			return m.x.Or(a, b)
		case token.XOR:
			return m.x.Xor(a, b)
		case token.AND_NOT:
			return m.x.And(a, m.x.Not(b))
		case token.SHL, token.SHR:
			if isSignedType(yt) {
				if m.branch(m.x.Slt(b, mkConst(b.w, 0))) {
					m.throw(fr, "negative shift amount")
				}
			}
			// normalise shift amount to a's width, saturating
			var s *Term
			if b.w <= a.w {
				s = m.x.ZExt(b, a.w)
			} else {
				big := m.x.Ult(mkConst(b.w, uint64(a.w)), b)
				s = m.x.Ite(big, mkConst(a.w, uint64(a.w)), m.x.Extract(b, 0, a.w))
			}
			if op == token.SHL {
				return m.x.Shl(a, s)
			}
			if signed {
				return m.x.Ashr(a, s)
			}
			return m.x.Lshr(a, s)
		case token.LSS:
			if signed {
				return m.x.Slt(a, b)
			}
			return m.x.Ult(a, b)
		case token.LEQ:
			if signed {
				return m.x.Sle(a, b)
			}
			return m.x.Ule(a, b)
		case token.GTR:
			if signed {
				return m.x.Slt(b, a)
			}
			return m.x.Ult(b, a)
		case token.GEQ:
			if signed {
				return m.x.Sle(b, a)
			}
			return m.x.Ule(b, a)
		}
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.x.BNot(m.strLess(b, a))
		case token.GEQ:
			return m.x.BNot(m.strLess(a, b))
		}
	case Float:
		b := y.(Float)
		if a.t == nil && b.t == nil {
			r := 0.0
			switch op {
			case token.ADD:
				r = a.c + b.c
			case token.SUB:
				r = a.c - b.c
			case token.MUL:
				r = a.c * b.c
			case token.QUO:
				r = a.c / b.c
			case token.LSS:
				return mkBool(a.c < b.c)
			case token.LEQ:
				return mkBool(a.c <= b.c)
			case token.GTR:
				return mkBool(a.c > b.c)
			case token.GEQ:
				return mkBool(a.c >= b.c)
			}
			if a.w == 32 {
				r = float64(float32(r))
			}
			return Float{w: a.w, c: r}
		}
		p, q := m.fterm(a), m.fterm(b)
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return Float{w: a.w, t: m.x.UF("f"+op.String()+fmt.Sprint(a.w), 64, p, q)}
		case token.LSS:
			return m.x.UF("f<", 0, p, q)
		case token.GTR:
			return m.x.UF("f<", 0, q, p)
		case token.LEQ:
			return m.x.UF("f<=", 0, p, q)
		case token.GEQ:
			return m.x.UF("f<=", 0, q, p)
		}
	}
	m.unsupported("binop %v %T", op, x)
	return nil
}

// equal returns the boolean term x == y.
func (m *Machine) equal(fr *Frame, x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return m.x.Eq(a, y.(*Term))
	case *Str:
		return m.strEq(a, y.(*Str))
	case Float:
		b := y.(Float)
		if a.t == nil && b.t == nil {
			return mkBool(a.c == b.c)
		}
		p, q := m.fterm(a), m.fterm(b)
		return m.x.UF("f==", 0, p, q)
	case *Value:
		b, _ := y.(*Value)
		return mkBool(a == b)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			if y == nil {
				return mkBool(a.t == nil)
			}
			return tFalse
		}
		if a.t != b.t {
			return tFalse
		}
		if a.t == nil {
			return tTrue
		}
		switch a.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.throw(fr, "comparing uncomparable type "+a.t.String())
		}
		return m.equal(fr, a.v, b.v)
	case Struct:
		b := y.(Struct)
		r := tTrue
		for i := range a {
			r = m.x.BAnd(r, m.equal(fr, a[i], b[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case Array:
		b := y.(Array)
		r := tTrue
		for i := range a {
			r = m.x.BAnd(r, m.equal(fr, a[i], b[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case Slice:
		b, _ := y.(Slice)
		if a == nil || b == nil {
			return mkBool(a == nil && b == nil)
		}
		m.unsupported("slice comparison")
	case *SymSlice:
		if b, ok := y.(Slice); y == nil || (ok && b == nil) {
			return tFalse
		}
	case *Map:
		b, _ := y.(*Map)
		return mkBool(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return mkBool(a == b)
	case *Native:
		b, _ := y.(*Native)
		if a != nil && b != nil && a.kind == "rtype" && b.kind == "rtype" {
			return mkBool(a.v == b.v)
		}
		return mkBool(a == b)
	case *ssa.Function, *Closure, *NativeFn:
		return mkBool(isNilFn(x) && isNilFn(y))
	case nil:
		switch b := y.(type) {
		case nil:
			return tTrue
		case Iface:
			return mkBool(b.t == nil)
		}
	}
	m.unsupported("equal %T %T", x, y)
	return nil
}

func (m *Machine) typeAssert(fr *Frame, in *ssa.TypeAssert, v Iface) Value {
	ok := false
	var r Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && (types.Implements(v.t, it) || implementsNative(v, it)) {
			ok = true
			r = v
		} else {
			r = Iface{}
		}
	} else {
		if v.t != nil && v.t == m.P.canon(in.AssertedType) {
			ok = true
			r = copyVal(v.v)
		}
	}
	if in.CommaOk {
		if !ok {
			r = zero(in.AssertedType)
		}
		return Tuple{r, mkBool(ok)}
	}
	if !ok {
		vt := "nil"
		if v.t != nil {
			vt = v.t.String()
		}
		panic(targetPanic{v: m.mkError("interface conversion: interface is " + vt + ", not " + in.AssertedType.String()), where: m.where(fr)})
	}
	return r
}

func implementsNative(v Iface, it *types.Interface) bool { return false }

func (m *Machine) convert(fr *Frame, dst, src types.Type, x Value) Value {
	du, su := dst.Underlying(), src.Underlying()
	switch d := du.(type) {
	case *types.Basic:
		if w, _, ok := intWidth(d); ok {
			switch v := x.(type) {
			case *Term:
				if isSignedType(src) {
					return m.x.SExt(v, w)
				}
				return m.x.ZExt(v, w)
			case Float:
				if v.t == nil {
					_, s, _ := intWidth(d)
					if s {
						return mkConst(w, uint64(int64(v.c)))
					}
					return mkConst(w, uint64(v.c))
				}
				return m.x.UF(fmt.Sprintf("f2i_%s", d.Name()), w, v.t)
			}
		}
		switch d.Kind() {
		case types.Float64, types.Float32:
			w := 64
			if d.Kind() == types.Float32 {
				w = 32
			}
			switch v := x.(type) {
			case *Term:
				if v.isConst() {
					var f float64
					if isSignedType(src) {
						f = float64(sx(v.w, v.c))
					} else {
						f = float64(v.c)
					}
					if w == 32 {
						f = float64(float32(f))
					}
					return Float{w: w, c: f}
				}
				k := "u2f"
				t := m.x.ZExt(v, 64)
				if isSignedType(src) {
					if _, h := m.x.ival(v); h >= uint64(1)<<(v.w-1) {
						k = "i2f"
						t = m.x.SExt(v, 64)
					}
				}
				return Float{w: w, t: m.x.UF(fmt.Sprintf("%s%d", k, w), 64, t)}
			case Float:
				if v.t == nil {
					if w == 32 {
						return Float{w: w, c: float64(float32(v.c))}
					}
					return Float{w: w, c: v.c}
				}
				if v.w == w {
					return v
				}
				return Float{w: w, t: m.x.UF("f2f", 64, v.t)}
			}
		case types.String:
			switch v := x.(type) {
			case *Str:
				return v
			case Slice:
				if e, ok := su.(*types.Slice).Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Int32 {
					var parts []*Str
					for _, r := range v {
						parts = append(parts, m.runeStr(fr, r.(*Term)))
					}
					return joinStrs(parts)
				}
				return m.bytesToStr(v)
			case LazyBytes:
				return v.s
			case *Term:
				return m.runeStr(fr, m.x.Extract(m.ext64(v, src), 0, 32))
			}
		case types.UnsafePointer:
			return x
		}
	case *types.Slice:
		switch v := x.(type) {
		case *Str:
			if e, ok := d.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Int32 {
				var r Slice = Slice{}
				it := &strIter{s: m.force(v)}
				for it.i < it.s.flen() {
					rn, _ := m.nextRune(fr, it)
					r = append(r, rn)
				}
				return r
			}
			if unrendered(v) {
				return LazyBytes{v}
			}
			return m.strToSlice(v)
		case Slice:
			return v
		case LazyBytes:
			return v
		}
	case *types.Pointer:
		return x
	case *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Interface:
		return x
	}
	m.unsupported("convert %v -> %v (%T)", src, dst, x)
	return nil
}

func (m *Machine) runeStr(fr *Frame, r *Term) *Str {
	if r.isConst() {
		return cstr(string(rune(int32(r.c))))
	}
	if m.branch(m.x.Ult(r, mkConst(32, 0x80))) {
		return termsStr([]*Term{m.x.Extract(r, 0, 8)})
	}
	ap := m.P.pkgs["unicode/utf8"].Func("AppendRune")
	return m.bytesToStr(m.callSSA(fr, ap, []Value{Slice(nil), r}, nil).(Slice))
}

func (m *Machine) nextRune(fr *Frame, it *strIter) (*Term, int) {
	s := it.s
	if s.concrete() {
		r, n := utf8.DecodeRuneInString(s.s[it.i:])
		it.i += n
		return mkConst(32, uint64(uint32(r))), n
	}
	b := s.at(it.i)
	if m.branch(m.x.Ult(b, mkConst(8, 0x80))) {
		it.i++
		return m.x.ZExt(b, 32), 1
	}
	f := m.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	end := it.i + 4
	if end > s.flen() {
		end = s.flen()
	}
	r := m.callSSA(fr, f, []Value{s.sub(it.i, end)}, nil).(Tuple)
	n := int(m.concretize(r[1].(*Term)))
	it.i += n
	return r[0].(*Term), n
}

func (m *Machine) next(fr *Frame, in *ssa.Next, v Value) Value {
	switch it := v.(type) {
	case *strIter:
		if it.i >= it.s.flen() {
			return Tuple{tFalse, mkConst(64, 0), mkConst(32, 0)}
		}
		i := it.i
		r, _ := m.nextRune(fr, it)
		return Tuple{tTrue, mkConst(64, uint64(i)), r}
	case *mapIter:
		for it.m != nil && it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			// still present?
			for _, e := range it.m.ents {
				if sameKey(e.k, k) {
					return Tuple{tTrue, k, copyVal(e.v)}
				}
			}
		}
		tt := in.Type().(*types.Tuple)
		return Tuple{tFalse, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	}
	panic("next")
}

func zeroOrNil(t types.Type) Value {
	if t == nil || t == types.Typ[types.Invalid] {
		return nil
	}
	return zero(t)
}

// sameKey is identity of stored key objects (used during iteration only).
func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && (x == y || (x.isConst() && y.isConst() && x.c == y.c))
	case *Str:
		y, ok := b.(*Str)
		return ok && (x == y || (x.concrete() && y.concrete() && x.s == y.s))
	}
	if ka, ok := concKey(a); ok {
		kb, ok2 := concKey(b)
		return ok2 && ka == kb
	}
	switch a := a.(type) {
	case Struct:
		b, ok := b.(Struct)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameKey(a[i], b[i]) {
				return false
			}
		}
		return true
	case Iface:
		b, ok := b.(Iface)
		return ok && a.t == b.t && sameKey(a.v, b.v)
	}
	return false
}

func (m *Machine) slice(fr *Frame, in *ssa.Slice, ops []opnd) Value {
	x := m.get(fr, &ops[0])
	if ss, ok := x.(*SymSlice); ok {
		cst := func(v ssa.Value, o *opnd) (uint64, bool) {
			if v == nil {
				return 0, true
			}
			t := m.get(fr, o).(*Term)
			return t.c, t.isConst() && t.c < uint64(len(ss.b))
		}
		if lo, ok := cst(in.Low, &ops[1]); ok && in.Max == nil {
			if hi, ok := cst(in.High, &ops[2]); ok {
				if in.High == nil {
					if !m.branch(m.x.Ule(mkConst(64, lo), ss.n)) {
						m.throw(fr, "slice bounds out of range")
					}
					return &SymSlice{n: m.x.Sub(ss.n, mkConst(64, lo)), b: ss.b[lo:]}
				}
				if !m.branch(m.x.Ule(mkConst(64, hi), ss.n)) || lo > hi {
					m.throw(fr, "slice bounds out of range")
				}
				return ss.b[lo:hi:hi]
			}
		}
		x = m.fix(ss)
	}
	oi := 1
	lo, hi, max := -1, -1, -1
	var length, capacity int
	var arr Slice
	var str *Str
	switch a := x.(type) {
	case *Str:
		str = m.force(a)
		length = str.flen()
		capacity = length
	case Slice:
		arr = a
		length = len(a)
		capacity = cap(a)
	case *Value:
		if a == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		arr = Slice((*a).(Array))
		length = len(arr)
		capacity = length
	default:
		m.unsupported("slice of %T", x)
	}
	conv := func(v ssa.Value, limit int, what string) int {
		t := m.ext64(m.get(fr, &ops[oi]).(*Term), v.Type())
		oi++
		if !t.isConst() {
			if !m.branch(m.x.Ule(t, mkConst(64, uint64(limit)))) {
				m.throw(fr, "slice bounds out of range "+what+fmt.Sprintf(" with capacity %d", limit))
			}
		}
		v2 := m.concretize(t)
		if v2 > uint64(limit) {
			m.throw(fr, fmt.Sprintf("slice bounds out of range [%s%d] with capacity %d", what, int64(v2), limit))
		}
		return int(v2)
	}
	// operand order in ssa.Slice: X, Low, High, Max (nil ones are present as empty operands)
	getOpt := func(v ssa.Value, limit int, what string) int {
		if v == nil {
			oi++
			return -1
		}
		return conv(v, limit, what)
	}
	limit := capacity
	lo = getOpt(in.Low, limit, "")
	hi = getOpt(in.High, limit, ":")
	max = getOpt(in.Max, limit, "::")
	if lo < 0 {
		lo = 0
	}
	if hi < 0 {
		hi = length
	}
	if max < 0 {
		max = capacity
	}
	if hi > max || lo > hi {
		m.throw(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if str != nil {
		return str.sub(lo, hi)
	}
	if arr == nil {
		return Slice(nil)
	}
	return arr[lo:hi:max]
}

// ---------- calls ----------

func (m *Machine) prepCall(fr *Frame, c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	// operand order: Value, Args... (static and invoke alike)
	v := m.get(fr, &ops[0])
	if c.Method != nil {
		recv := v.(Iface)
		if recv.t == nil {
			m.throw(fr, "invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, len(ops))
		if n, ok := recv.v.(*Native); ok {
			name := c.Method.Name()
			for i := 1; i < len(ops); i++ {
				args = append(args, m.get(fr, &ops[i]))
			}
			return &NativeFn{name: name, f: func(m *Machine, a []Value) Value { return m.nativeMethod(fr, n, name, a) }}, args
		}
		f := m.P.method(recv.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			m.unsupported("no method %s on %v", c.Method.Name(), recv.t)
		}
		args = append(args, recv.v)
		for i := 1; i < len(ops); i++ {
			args = append(args, m.get(fr, &ops[i]))
		}
		return f, args
	}
	args := make([]Value, len(ops)-1)
	for i := range args {
		args[i] = m.get(fr, &ops[i+1])
	}
	return v, args
}

func (m *Machine) doCall(fr *Frame, c *ssa.CallCommon, ops []opnd) Value {
	fn, args := m.prepCall(fr, c, ops)
	if b, ok := fn.(*ssa.Builtin); ok {
		return m.builtin(fr, b, args, c)
	}
	return m.call(fr, fn, args)
}

func (m *Machine) appendSlice(fr *Frame, s Slice, add Slice) Slice {
	n := len(s)
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		for i, v := range add {
			m.store(&r[n+i], v)
		}
		return r
	}
	c := cap(s) * 2
	if c < n+len(add) {
		c = n + len(add)
	}
	if c < 8 {
		c = 8
	}
	// Go guarantees only that cap is large enough; spare capacity mirrors growslice
	r := make(Slice, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[n+i] = copyVal(v)
	}
	// fill the rest with a zero-like value of the element kind
	if n+len(add) < c {
		var z Value
		if n+len(add) > 0 {
			z = zeroLike(r[0])
		}
		for i := n + len(add); i < c; i++ {
			switch z.(type) {
			case Struct, Array:
				r[i] = zeroLike(r[0])
			default:
				r[i] = z
			}
		}
	}
	return r[:n+len(add)]
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case *Term:
		return mkConst(v.w, 0)
	case *Str:
		return emptyStr
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case Slice:
		return Slice(nil)
	case *Value:
		return (*Value)(nil)
	case Iface:
		return Iface{}
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case Float:
		return Float{w: v.w}
	case *ssa.Function, *Closure, *NativeFn:
		return (*ssa.Function)(nil)
	}
	return nil
}

func (m *Machine) builtin(fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	for i, a := range args {
		if ss, ok := a.(*SymSlice); ok {
			switch b.Name() {
			case "len", "cap":
				return ss.n
			case "copy":
				if i == 0 {
					n := -1
					switch src := args[1].(type) {
					case Slice:
						n = len(src)
					case *Str:
						n = m.force(src).flen()
					}
					if n >= 0 && n <= len(ss.b) && m.branch(m.x.Ule(mkConst(64, uint64(n)), ss.n)) {
						args = []Value{ss.b[:n:n], args[1]}
						break
					}
				}
				args = append([]Value(nil), args...)
				args[i] = m.fix(ss)
			default:
				args = append([]Value(nil), args...)
				args[i] = m.fix(ss)
			}
		}
	}
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return mkConst(64, uint64(m.force(v).flen()))
		case Slice:
			return mkConst(64, uint64(len(v)))
		case *Map:
			if v == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(v.ents)))
		case *Chan:
			if v == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(v.buf)))
		case Array:
			return mkConst(64, uint64(len(v)))
		case *Value:
			return mkConst(64, uint64(len((*v).(Array))))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(cap(v)))
		case Array:
			return mkConst(64, uint64(len(v)))
		case *Value:
			return mkConst(64, uint64(len((*v).(Array))))
		case *Chan:
			return mkConst(64, uint64(v.cap))
		}
	case "append":
		s, _ := args[0].(Slice)
		switch a := args[1].(type) {
		case Slice:
			if len(a) == 0 {
				return s
			}
			return m.appendSlice(fr, s, a)
		case *Str:
			b := m.strToSlice(a)
			if len(b) == 0 {
				return s
			}
			return m.appendSlice(fr, s, b)
		case nil:
			return s
		}
	case "copy":
		d := args[0].(Slice)
		var s Slice
		switch a := args[1].(type) {
		case Slice:
			s = a
		case *Str:
			s = m.strToSlice(a)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if n > 0 && len(s) > 0 {
			tmp := make(Slice, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				m.store(&d[i], tmp[i])
			}
		}
		return mkConst(64, uint64(n))
	case "delete":
		mp := args[0].(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *Map:
			if a != nil {
				m.mapTouch(a)
				a.ents = nil
				a.idx = map[any]int{}
				a.nsym = 0
			}
		case Slice:
			for i := range a {
				m.store(&a[i], zeroLike(a[i]))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface), where: m.where(fr)})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		f := fr.caller
		if f != nil && f.panicking {
			f.panicking = false
			p := f.panicv.(targetPanic)
			f.panicv = nil
			return p.v
		}
		return Iface{}
	case "close":
		ch := args[0].(*Chan)
		if ch == nil || ch.closed {
			panic(targetPanic{v: m.mkError("close of nil or closed channel"), where: m.where(fr)})
		}
		ch.closed = true
		m.undo = append(m.undo, func() {})
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := c.Args[0].Type()
			cnd := m.binop(fr, op, t, a, r, t).(*Term)
			v, ok := m.merge(cnd, a, r)
			if !ok {
				if m.branch(cnd) {
					v = a
				} else {
					v = r
				}
			}
			r = v
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.throw(fr, "value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData":
		return &Native{kind: "data", v: args[0]}
	case "String":
		if n, ok := args[0].(*Native); ok && n.kind == "data" {
			if s, ok := n.v.(Slice); ok {
				k := int(m.concretize(args[1].(*Term)))
				return m.bytesToStr(s[:k])
			}
			if s, ok := n.v.(*Str); ok {
				k := int(m.concretize(args[1].(*Term)))
				return m.force(s).sub(0, k)
			}
		}
		if p, ok := args[0].(*Value); ok && p == nil {
			return emptyStr
		}
	case "Slice":
		if n, ok := args[0].(*Native); ok && n.kind == "data" {
			k := int(m.concretize(args[1].(*Term)))
			if s, ok := n.v.(Slice); ok {
				return s[:k:k]
			}
			if s, ok := n.v.(*Str); ok {
				return m.strToSlice(s)[:k]
			}
		}
	}
	m.unsupported("builtin %s %T", b.Name(), args)
	return nil
}
