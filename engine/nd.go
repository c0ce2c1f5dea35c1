package main

import (
	"fmt"
	"go/types"
)

const ndPkg = "verif/harness/nd"

func (m *Machine) newVar(kind string, w uint8) *Term {
	t := m.x.Var(fmt.Sprintf("v%d_%d", m.nvar, w), w)
	m.nvar++
	m.inputs = append(m.inputs, Input{Kind: kind, t: t})
	return t
}

func ndVar(kind string, w uint8) intrinsic {
	return func(m *Machine, fr *Frame, a []Value) Value { return m.newVar(kind, w) }
}

var ndIntrinsics = map[string]intrinsic{
	ndPkg + ".Byte": ndVar("u8", 8),
	ndPkg + ".U16":  ndVar("u16", 16),
	ndPkg + ".U32":  ndVar("u32", 32),
	ndPkg + ".U64":  ndVar("u64", 64),
	ndPkg + ".Bool": func(m *Machine, fr *Frame, a []Value) Value {
		t := m.newVar("bool", 8)
		m.assume(m.x.Ule(t, mkConst(8, 1)))
		return m.x.Eq(t, mkConst(8, 1))
	},
	ndPkg + ".Int": func(m *Machine, fr *Frame, a []Value) Value {
		lo, hi := int64(m.concretize(a[0].(*Term))), int64(m.concretize(a[1].(*Term)))
		n := uint64(hi - lo)
		w := uint8(64)
		switch {
		case n < 1<<8:
			w = 8
		case n < 1<<16:
			w = 16
		case n < 1<<32:
			w = 32
		}
		v := m.x.Var(fmt.Sprintf("v%d_%d", m.nvar, w), w)
		m.nvar++
		r := m.x.Add(m.x.ZExt(v, 64), mkConst(64, uint64(lo)))
		m.inputs = append(m.inputs, Input{Kind: "int", t: r})
		m.assume(m.x.Ule(v, mkConst(w, n)))
		return r
	},
	ndPkg + ".Choose": func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concretize(a[0].(*Term)))
		k := m.choose(n)
		m.inputs = append(m.inputs, Input{Kind: "choose", Val: uint64(k)})
		return i64(k)
	},
	ndPkg + ".Pick": func(m *Machine, fr *Frame, a []Value) Value {
		// concretise a symbolic int by forking over its feasible values
		return mkConst(64, m.concretize(a[0].(*Term)))
	},
	ndPkg + ".Assume": func(m *Machine, fr *Frame, a []Value) Value { m.assume(a[0].(*Term)); return nil },
	ndPkg + ".Assert": func(m *Machine, fr *Frame, a []Value) Value {
		msg := m.renderModel(a[1])
		m.check(a[0].(*Term), msg, "")
		return nil
	},
	ndPkg + ".Fail": func(m *Machine, fr *Frame, a []Value) Value {
		m.check(tFalse, m.renderModel(a[0]), "")
		return nil
	},
	ndPkg + ".Finding": func(m *Machine, fr *Frame, a []Value) Value {
		if m.branch(a[1].(*Term)) {
			m.tag = m.renderModel(a[0])
			return tTrue
		}
		return tFalse
	},
	ndPkg + ".Stop": func(m *Machine, fr *Frame, a []Value) Value { panic(pathEnd{"ok", ""}) },
	ndPkg + ".Reach": func(m *Machine, fr *Frame, a []Value) Value {
		l := m.renderModel(a[0])
		m.E.mu.Lock()
		m.E.reach[l]++
		m.E.mu.Unlock()
		return nil
	},
	ndPkg + ".Observe": func(m *Machine, fr *Frame, a []Value) Value {
		l := m.renderModel(a[0])
		var vals []Value
		for _, v := range m.variadic(a[1]) {
			vals = append(vals, snap(v))
		}
		m.obs = append(m.obs, Obs{Label: l, vals: vals})
		return nil
	},
	ndPkg + ".Thorough": func(m *Machine, fr *Frame, a []Value) Value { return mkBool(m.E.tier > 0) },
	ndPkg + ".TempDir":  func(m *Machine, fr *Frame, a []Value) Value { return cstr("/vfs") },
	ndPkg + ".Implies": func(m *Machine, fr *Frame, a []Value) Value {
		return m.x.BOr(m.x.BNot(a[0].(*Term)), a[1].(*Term))
	},
	ndPkg + ".And": func(m *Machine, fr *Frame, a []Value) Value {
		r := tTrue
		for _, v := range m.variadic(a[0]) {
			r = m.x.BAnd(r, v.(*Term))
		}
		return r
	},
	ndPkg + ".Or": func(m *Machine, fr *Frame, a []Value) Value {
		r := tFalse
		for _, v := range m.variadic(a[0]) {
			r = m.x.BOr(r, v.(*Term))
		}
		return r
	},
	ndPkg + ".EqBytes": func(m *Machine, fr *Frame, a []Value) Value {
		return m.strEq(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1])))
	},
	ndPkg + ".EqStr": func(m *Machine, fr *Frame, a []Value) Value { return m.strEq(a[0].(*Str), a[1].(*Str)) },
	ndPkg + ".DeepEq": func(m *Machine, fr *Frame, a []Value) Value {
		return m.deepEqual(a[0].(Iface), a[1].(Iface))
	},
	ndPkg + ".Ite": func(m *Machine, fr *Frame, a []Value) Value {
		return m.x.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	},
}

var _ = types.Typ
