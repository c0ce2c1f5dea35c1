package main

import (
	"fmt"
	"go/types"
	"strings"
)

// concKey converts a fully concrete key to a comparable Go value.
func concKey(v Value) (any, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return v.c, true
		}
	case *Str:
		if v.concrete() {
			return v.s, true
		}
	case *Value:
		return v, true
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := concKey(v.v)
		if ok {
			return [2]any{v.t, k}, true
		}
	case Struct:
		var sb strings.Builder
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "S" + sb.String(), true
	case Array:
		var sb strings.Builder
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "A" + sb.String(), true
	case *Native:
		return v.v, true
	case Float:
		if v.t == nil {
			return v.c, true
		}
	case *Chan:
		return v, true
	}
	return nil, false
}

func (m *Machine) mapTouch(mp *Map) {
	if m.inInit || mp.gen == m.pathGen {
		return
	}
	ents := append([]MapEnt(nil), mp.ents...)
	idx := make(map[any]int, len(mp.idx))
	for k, v := range mp.idx {
		idx[k] = v
	}
	oe, oi, on, og := mp.ents, mp.idx, mp.nsym, mp.gen
	mp.ents, mp.idx, mp.gen = ents, idx, m.pathGen
	m.undo = append(m.undo, func() { mp.ents, mp.idx, mp.nsym, mp.gen = oe, oi, on, og })
}

// find returns the index of key k, forking where necessary (-1: absent).
func (m *Machine) mapFind(mp *Map, k Value) int {
	ck, conc := concKey(k)
	if conc {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i, e := range mp.ents {
		if conc && e.ck != nil {
			continue
		}
		if m.branch(m.equal(nil, e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapLookup(mp *Map, k Value, mt *types.Map) (Value, *Term) {
	if mp == nil {
		return zero(mt.Elem()), tFalse
	}
	if s, ok := k.(*Str); ok && s.lz != nil {
		// keep choices lazy only when all alternatives are concrete
		k = s
	}
	if _, conc := concKey(k); conc {
		if i := m.mapFind(mp, k); i >= 0 {
			return copyVal(mp.ents[i].v), tTrue
		}
		return zero(mt.Elem()), tFalse
	}
	// symbolic key: try a merged lookup
	var r Value = zero(mt.Elem())
	found := tFalse
	ok := true
	type cv struct {
		c *Term
		v Value
	}
	var cands []cv
	for i := range mp.ents {
		c := m.equal(nil, mp.ents[i].k, k)
		if c == tFalse {
			continue
		}
		if lo, hi := m.x.ival(c); lo == hi && hi == 0 {
			continue
		}
		cands = append(cands, cv{c, mp.ents[i].v})
	}
	for i := len(cands) - 1; i >= 0; i-- {
		var v Value
		v, ok = m.merge(cands[i].c, copyVal(cands[i].v), r)
		if !ok {
			break
		}
		r = v
		found = m.x.BOr(cands[i].c, found)
	}
	if ok {
		return r, found
	}
	if i := m.mapFind(mp, k); i >= 0 {
		return copyVal(mp.ents[i].v), tTrue
	}
	return zero(mt.Elem()), tFalse
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if s, ok := k.(*Str); ok && s.lz != nil {
		k = m.force(s)
	}
	i := m.mapFind(mp, k)
	m.mapTouch(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	ck, conc := concKey(k)
	e := MapEnt{k: copyVal(k), v: v}
	if conc {
		e.ck = ck
		mp.idx[ck] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	if mp.ents[i].ck == nil {
		mp.nsym--
	}
	ents := append([]MapEnt(nil), mp.ents[:i]...)
	ents = append(ents, mp.ents[i+1:]...)
	mp.ents = ents
	clear(mp.idx)
	for j, e := range mp.ents {
		if e.ck != nil {
			mp.idx[e.ck] = j
		}
	}
}
