package main

// Models of library functions that work through reflection, unsafe or assembly.

import (
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// poison is the value of an initialiser outside the encoding.
type poison struct{ why string }

// snap copies a value so that later writes do not show.
func snap(v Value) Value {
	switch v := v.(type) {
	case Slice:
		if v == nil {
			return v
		}
		r := make(Slice, len(v))
		for i, e := range v {
			r[i] = snap(e)
		}
		return r
	case Iface:
		return Iface{v.t, snap(v.v)}
	}
	return copyVal(v)
}

// ---- encoding/binary

// bigEndian tells the order of a binary.ByteOrder value.
func (m *Machine) bigEndian(v Value) bool {
	i := v.(Iface)
	switch {
	case i.t == nil:
		m.unsupported("nil byte order")
	case strings.HasSuffix(i.t.String(), "binary.bigEndian"):
		return true
	case strings.HasSuffix(i.t.String(), "binary.littleEndian"):
		return false
	}
	m.unsupported("byte order %v", i.t)
	return false
}

// binSize is the encoded size of a value of the type, or -1.
func binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (m *Machine) binEncode(t types.Type, v Value, big bool, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var x *Term
		switch w := v.(type) {
		case *Term:
			x = w
			if x.w == 0 || u.Kind() == types.Bool {
				return append(out, m.x.Ite(x, mkConst(8, 1), mkConst(8, 0)))
			}
		default:
			m.unsupported("binary encoding of %T", v)
		}
		n := int(x.w) / 8
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			out = append(out, m.x.Extract(x, uint8(8*k), 8))
		}
		return out
	case *types.Array:
		for _, e := range v.(Array) {
			out = m.binEncode(u.Elem(), e, big, out)
		}
		return out
	case *types.Struct:
		for i, e := range v.(Struct) {
			if u.Field(i).Name() == "_" {
				for j := binSize(u.Field(i).Type()); j > 0; j-- {
					out = append(out, mkConst(8, 0))
				}
				continue
			}
			out = m.binEncode(u.Field(i).Type(), e, big, out)
		}
		return out
	}
	m.unsupported("binary encoding of %v", t)
	return nil
}

func (m *Machine) binDecode(t types.Type, b []Value, big bool) (Value, []Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := binSize(t)
		if u.Kind() == types.Bool {
			return m.x.BNot(m.x.Eq(b[0].(*Term), mkConst(8, 0))), b[1:]
		}
		if u.Info()&types.IsInteger == 0 {
			m.unsupported("binary decoding of %v", t)
		}
		w := uint8(8 * n)
		r := mkConst(w, 0)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			x := m.x.ZExt(b[i].(*Term), w)
			if k > 0 {
				x = m.x.Shl(x, mkConst(w, uint64(8*k)))
			}
			r = m.x.Or(r, x)
		}
		return r, b[n:]
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i], b = m.binDecode(u.Elem(), b, big)
		}
		return a, b
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			if u.Field(i).Name() == "_" {
				s[i], b = zero(u.Field(i).Type()), b[binSize(u.Field(i).Type()):]
				continue
			}
			s[i], b = m.binDecode(u.Field(i).Type(), b, big)
		}
		return s, b
	}
	m.unsupported("binary decoding of %v", t)
	return nil, nil
}

// binArg splits the data argument into the element type, its values and their cells.
func (m *Machine) binArg(data Iface) (t types.Type, vals []Value, cells []*Value, ok bool) {
	if data.t == nil {
		return nil, nil, nil, false
	}
	switch u := data.t.Underlying().(type) {
	case *types.Pointer:
		p := data.v.(*Value)
		if p == nil {
			return nil, nil, nil, false
		}
		if s, isS := u.Elem().Underlying().(*types.Slice); isS {
			sl, _ := (*p).(Slice)
			for i := range sl {
				vals, cells = append(vals, sl[i]), append(cells, &sl[i])
			}
			return s.Elem(), vals, cells, binSize(s.Elem()) >= 0
		}
		return u.Elem(), []Value{*p}, []*Value{p}, binSize(u.Elem()) >= 0
	case *types.Slice:
		sl, _ := data.v.(Slice)
		for i := range sl {
			vals, cells = append(vals, sl[i]), append(cells, &sl[i])
		}
		return u.Elem(), vals, cells, binSize(u.Elem()) >= 0
	}
	return data.t, []Value{data.v}, nil, binSize(data.t) >= 0
}

func (m *Machine) binBytes(data Iface, order Value) (Slice, bool) {
	t, vals, _, ok := m.binArg(data)
	if !ok {
		return nil, false
	}
	big := m.bigEndian(order)
	out := []Value{}
	for _, v := range vals {
		out = m.binEncode(t, v, big, out)
	}
	return Slice(out), true
}

var stdIntrinsics = map[string]intrinsic{
	"encoding/binary.Read": func(m *Machine, fr *Frame, a []Value) Value {
		data := a[2].(Iface)
		t, vals, cells, ok := m.binArg(data)
		if !ok || cells == nil && len(vals) > 0 {
			return m.mkError("binary.Read: invalid type")
		}
		n := binSize(t) * len(vals)
		buf := m.makeSlice(types.Typ[types.Uint8], n, n)
		r := m.callSSA(fr, m.P.pkgs["io"].Func("ReadFull"), []Value{a[0], buf}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		big := m.bigEndian(a[1])
		b := []Value(buf)
		for _, c := range cells {
			var v Value
			v, b = m.binDecode(t, b, big)
			m.store(c, v)
		}
		return nilErr()
	},
	"encoding/binary.Write": func(m *Machine, fr *Frame, a []Value) Value {
		b, ok := m.binBytes(a[2].(Iface), a[1])
		if !ok {
			return m.mkError("binary.Write: some values are not fixed-sized")
		}
		return m.callMethod(fr, a[0].(Iface), "Write", b).(Tuple)[1]
	},
	"encoding/binary.Append": func(m *Machine, fr *Frame, a []Value) Value {
		b, ok := m.binBytes(a[2].(Iface), a[1])
		if !ok {
			return Tuple{Slice(nil), m.mkError("binary.Append: some values are not fixed-sized")}
		}
		s, _ := a[0].(Slice)
		return Tuple{append(append(Slice{}, s...), b...), nilErr()}
	},
	"encoding/binary.Size": func(m *Machine, fr *Frame, a []Value) Value {
		t, vals, _, ok := m.binArg(a[0].(Iface))
		if !ok {
			return i64(-1)
		}
		return i64(binSize(t) * len(vals))
	},

	// ---- maps, slices
	"maps.clone": func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		mp, _ := i.v.(*Map)
		if mp == nil {
			return i
		}
		r := &Map{idx: map[any]int{}, gen: m.pathGen, et: i.t.Underlying().(*types.Map).Elem()}
		for _, e := range mp.ents {
			m.mapSet(r, e.k, copyVal(e.v))
		}
		return Iface{i.t, r}
	},
	"slices.overlaps": func(m *Machine, fr *Frame, a []Value) Value {
		x, _ := a[0].(Slice)
		y, _ := a[1].(Slice)
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return tTrue
				}
			}
		}
		return tFalse
	},
	"slices.startIdx": func(m *Machine, fr *Frame, a []Value) Value {
		h, _ := a[0].(Slice)
		n, _ := a[1].(Slice)
		for i := range h {
			if len(n) > 0 && &h[i] == &n[0] {
				return i64(i)
			}
		}
		m.unsupported("slices.startIdx")
		return nil
	},

	// ---- sync: goroutines switch only where they block
	"(*sync.Mutex).Lock":      lockIt,
	"(*sync.Mutex).Unlock":    unlockIt,
	"(*sync.Mutex).TryLock":   tryLockIt,
	"(*sync.RWMutex).Lock":    lockIt,
	"(*sync.RWMutex).Unlock":  unlockIt,
	"(*sync.RWMutex).TryLock": tryLockIt,
	"(*sync.RWMutex).RLock": func(m *Machine, fr *Frame, a []Value) Value {
		k := a[0].(*Value)
		m.blockUntil(func() bool { n, _ := m.natives[k].(int); return n >= 0 })
		n, _ := m.natives[k].(int)
		m.natives[k] = n + 1
		return nil
	},
	"(*sync.RWMutex).RUnlock": func(m *Machine, fr *Frame, a []Value) Value {
		k := a[0].(*Value)
		n, _ := m.natives[k].(int)
		m.natives[k] = n - 1
		return nil
	},
	"(*errors.joinError).Error": func(m *Machine, fr *Frame, a []Value) Value {
		var ps []*Str
		for i, e := range (*a[0].(*Value)).(Struct)[0].(Slice) {
			if i > 0 {
				ps = append(ps, cstr("\n"))
			}
			ps = append(ps, m.callMethod(fr, e.(Iface), "Error").(*Str))
		}
		return m.lazyConcat(ps)
	},
	"strconv.ParseFloat": func(m *Machine, fr *Frame, a []Value) Value {
		s, n := argStr(m, a[0]), a[1].(*Term)
		if !s.concrete() || !n.isConst() {
			m.unsupported("strconv.ParseFloat of a symbolic string")
		}
		f, err := strconv.ParseFloat(s.s, int(n.c))
		if err != nil {
			return Tuple{Float{w: 64, c: f}, m.mkError(err.Error())}
		}
		return Tuple{Float{w: 64, c: f}, nilErr()}
	},
	"strconv.FormatFloat": func(m *Machine, fr *Frame, a []Value) Value {
		f, c, p, n := a[0].(Float), a[1].(*Term), a[2].(*Term), a[3].(*Term)
		if f.t != nil || !c.isConst() || !p.isConst() || !n.isConst() {
			m.unsupported("strconv.FormatFloat of a symbolic number")
		}
		return cstr(strconv.FormatFloat(f.c, byte(c.c), int(int64(p.c)), int(n.c)))
	},
	"(*sync/atomic.Value).Load": func(m *Machine, fr *Frame, a []Value) Value {
		return (*a[0].(*Value)).(Struct)[0]
	},
	"(*sync/atomic.Value).Store": func(m *Machine, fr *Frame, a []Value) Value {
		m.store(&(*a[0].(*Value)).(Struct)[0], a[1])
		return nil
	},
}

func lockIt(m *Machine, fr *Frame, a []Value) Value {
	k := a[0].(*Value)
	if k == nil {
		m.throw(fr, "invalid memory address or nil pointer dereference")
	}
	m.blockUntil(func() bool { n, _ := m.natives[k].(int); return n == 0 })
	m.natives[k] = -1
	return nil
}

func unlockIt(m *Machine, fr *Frame, a []Value) Value {
	m.natives[a[0].(*Value)] = 0
	return nil
}

func tryLockIt(m *Machine, fr *Frame, a []Value) Value {
	k := a[0].(*Value)
	if n, _ := m.natives[k].(int); n != 0 {
		return tFalse
	}
	m.natives[k] = -1
	return tTrue
}

// errorTree visits an error and what it wraps, until f accepts one.
func (m *Machine) errorTree(fr *Frame, e Iface, f func(e Iface) bool) bool {
	for e.t != nil {
		if f(e) {
			return true
		}
		u := m.P.method(e.t, nil, "Unwrap")
		if u == nil {
			return false
		}
		switch r := m.callSSA(fr, u, []Value{e.v}, nil).(type) {
		case Iface:
			e = r
		case Slice:
			for _, x := range r {
				if m.errorTree(fr, x.(Iface), f) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func errorsIs(m *Machine, fr *Frame, a []Value) Value {
	e, target := a[0].(Iface), a[1].(Iface)
	if e.t == nil || target.t == nil {
		return mkBool(e.t == nil && target.t == nil)
	}
	return mkBool(m.errorTree(fr, e, func(e Iface) bool {
		if m.branch(m.equal(fr, e, target)) {
			return true
		}
		if f := m.P.method(e.t, nil, "Is"); f != nil {
			return m.branch(m.callSSA(fr, f, []Value{e.v, target}, nil).(*Term))
		}
		return false
	}))
}

func errorsAs(m *Machine, fr *Frame, a []Value) Value {
	e, target := a[0].(Iface), a[1].(Iface)
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		m.unsupported("errors.As target")
	}
	it, isI := pt.Elem().Underlying().(*types.Interface)
	return mkBool(m.errorTree(fr, e, func(e Iface) bool {
		if isI && types.Implements(e.t, it) {
			m.store(target.v.(*Value), e)
			return true
		}
		if !isI && e.t == m.P.canon(pt.Elem()) {
			m.store(target.v.(*Value), e.v)
			return true
		}
		if f := m.P.method(e.t, nil, "As"); f != nil {
			return m.branch(m.callSSA(fr, f, []Value{e.v, target}, nil).(*Term))
		}
		return false
	}))
}

func fun1n(name string, f func(float64) float64) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) Value {
		x := a[0].(Float)
		if x.t == nil {
			return Float{w: 64, c: f(x.c)}
		}
		return Float{w: 64, t: m.x.UF("math_"+name, 64, x.t)}
	}
}

func fun2n(name string, f func(x, y float64) float64) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) Value {
		x, y := a[0].(Float), a[1].(Float)
		if x.t == nil && y.t == nil {
			return Float{w: 64, c: f(x.c, y.c)}
		}
		return Float{w: 64, t: m.x.UF("math_"+name, 64, m.fterm(x), m.fterm(y))}
	}
}

func addMath() {
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Sin": math.Sin, "Cos": math.Cos, "RoundToEven": math.RoundToEven,
		"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs, "Cbrt": math.Cbrt} {
		stdIntrinsics["math."+n] = fun1n(n, f)
	}
	for n, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod, "Hypot": math.Hypot, "Remainder": math.Remainder} {
		stdIntrinsics["math."+n] = fun2n(n, f)
	}
}

func atomicIntrinsic(fn *ssa.Function, name string) intrinsic {
	if len(fn.Blocks) > 0 && fn.Signature.Recv() != nil {
		return nil
	}
	n := fn.Name()
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(m *Machine, fr *Frame, a []Value) Value { return *m.addr(fr, a[0]) }
	case strings.HasPrefix(n, "Store"):
		return func(m *Machine, fr *Frame, a []Value) Value { m.store(m.addr(fr, a[0]), a[1]); return nil }
	case strings.HasPrefix(n, "Swap"):
		return func(m *Machine, fr *Frame, a []Value) Value {
			p := m.addr(fr, a[0])
			old := *p
			m.store(p, a[1])
			return old
		}
	case strings.HasPrefix(n, "Add"):
		return func(m *Machine, fr *Frame, a []Value) Value {
			p := m.addr(fr, a[0])
			m.store(p, m.x.Add((*p).(*Term), a[1].(*Term)))
			return *p
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(m *Machine, fr *Frame, a []Value) Value {
			p := m.addr(fr, a[0])
			if m.branch(m.equal(fr, *p, a[1])) {
				m.store(p, a[2])
				return tTrue
			}
			return tFalse
		}
	}
	return nil
}

func (m *Machine) addr(fr *Frame, v Value) *Value {
	p, _ := v.(*Value)
	if p == nil {
		m.throw(fr, "invalid memory address or nil pointer dereference")
	}
	return p
}
