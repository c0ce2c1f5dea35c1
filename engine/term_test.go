package main

import (
	"fmt"
	"math/rand"
	"os"
	"testing"
)

// TestTerms compares random terms, as the constructors simplify them, with the
// values of the operations they were made with, and with their intervals.
func TestTerms(t *testing.T) {
	type val struct {
		t *Term
		f func(m []uint64) uint64
	}
	n := 20000
	fmt.Sscan(os.Getenv("VERIF_TERMS"), &n)
	for seed := 0; seed < n; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		x := newCtx()
		var vars []*Term
		pool := map[uint8][]val{}
		add := func(v val) { pool[v.t.w] = append(pool[v.t.w], v) }
		for i, w := range []uint8{8, 8, 8, 16, 32, 64} {
			i, v := i, x.Var(string(rune('a'+i)), w)
			vars = append(vars, v)
			add(val{v, func(m []uint64) uint64 { return m[i] & mask(w) }})
		}
		consts := []uint64{0, 1, 2, 3, 7, 10, 16, 48, 60, 96, 100, 127, 128, 255, 256, 480, 500, 1000, 10000, 32767, 500000, 1000000, 1 << 31, 1<<32 - 1, 1 << 63, ^uint64(0)}
		widths := []uint8{8, 16, 32, 64}
		pick := func(w uint8) val {
			p := pool[w]
			if len(p) == 0 || r.Intn(5) == 0 {
				c := consts[r.Intn(len(consts))] & mask(w)
				return val{mkConst(w, c), func([]uint64) uint64 { return c }}
			}
			return p[r.Intn(len(p))]
		}
		// a few moduli, so that terms are often divided by the same number
		mods := []uint64{consts[1+r.Intn(len(consts)-1)], consts[2+r.Intn(14)]}
		var all []val
		for k := 0; k < 60; k++ {
			w := widths[r.Intn(4)]
			if r.Intn(3) > 0 {
				w = 64
			}
			a, b := pick(w), pick(w)
			c := mods[r.Intn(2)] & mask(w)
			m := mask(w)
			s := func(v uint64) int64 { return sx(w, v) }
			var v val
			switch r.Intn(19) {
			case 0, 1:
				v = val{x.Add(a.t, b.t), func(e []uint64) uint64 { return (a.f(e) + b.f(e)) & m }}
			case 2:
				v = val{x.Sub(a.t, b.t), func(e []uint64) uint64 { return (a.f(e) - b.f(e)) & m }}
			case 3:
				k := consts[r.Intn(len(consts))] & m
				v = val{x.Mul(a.t, mkConst(w, k)), func(e []uint64) uint64 { return (a.f(e) * k) & m }}
			case 4, 5, 6:
				if c == 0 {
					continue
				}
				v = val{x.UDiv(a.t, mkConst(w, c)), func(e []uint64) uint64 { return a.f(e) / c }}
			case 7, 8, 9:
				if c == 0 {
					continue
				}
				v = val{x.URem(a.t, mkConst(w, c)), func(e []uint64) uint64 { return a.f(e) % c }}
			case 10:
				if c == 0 || s(c) == -1 {
					continue
				}
				v = val{x.SDiv(a.t, mkConst(w, c)), func(e []uint64) uint64 { return uint64(s(a.f(e))/s(c)) & m }}
			case 11:
				if c == 0 || s(c) == -1 {
					continue
				}
				v = val{x.SRem(a.t, mkConst(w, c)), func(e []uint64) uint64 { return uint64(s(a.f(e))%s(c)) & m }}
			case 12:
				to := widths[r.Intn(4)]
				if to < w {
					v = val{x.Extract(a.t, 0, to), func(e []uint64) uint64 { return a.f(e) & mask(to) }}
				} else {
					v = val{x.ZExt(a.t, to), func(e []uint64) uint64 { return a.f(e) }}
				}
			case 13:
				v = val{x.And(a.t, b.t), func(e []uint64) uint64 { return a.f(e) & b.f(e) }}
			case 14:
				v = val{x.Or(a.t, b.t), func(e []uint64) uint64 { return a.f(e) | b.f(e) }}
			case 15:
				k := uint64(r.Intn(int(w)))
				v = val{x.Shl(a.t, mkConst(w, k)), func(e []uint64) uint64 { return a.f(e) << k & m }}
			case 16:
				v = val{x.Ite(x.Ult(a.t, b.t), a.t, b.t), func(e []uint64) uint64 { return min(a.f(e), b.f(e)) }}
			case 17:
				v = val{x.Ite(x.Slt(a.t, b.t), a.t, b.t), func(e []uint64) uint64 {
					if s(a.f(e)) < s(b.f(e)) {
						return a.f(e)
					}
					return b.f(e)
				}}
			}
			if v.t == nil {
				// quotients with the remainders carried on
				if c == 0 {
					continue
				}
				rest, at := val{mkConst(w, 0), func([]uint64) uint64 { return 0 }}, val{mkConst(w, 0), func([]uint64) uint64 { return 0 }}
				for i := 0; i < 4; i++ {
					y, d := rest, at
					k := uint64(r.Intn(5)) * consts[r.Intn(len(consts))] & m
					sum := val{x.Add(y.t, x.Mul(a.t, mkConst(w, k))), func(e []uint64) uint64 { return (y.f(e) + a.f(e)*k) & m }}
					rest = val{x.URem(sum.t, mkConst(w, c)), func(e []uint64) uint64 { return sum.f(e) % c }}
					at = val{x.Add(d.t, x.UDiv(sum.t, mkConst(w, c))), func(e []uint64) uint64 { return (d.f(e) + sum.f(e)/c) & m }}
					all = append(all, rest, at)
				}
				v = at
			}
			add(v)
			all = append(all, v)
		}
		for k := 0; k < 12; k++ {
			e := make([]uint64, len(vars))
			for i := range e {
				switch r.Intn(4) {
				case 0:
					e[i] = consts[r.Intn(len(consts))]
				case 1:
					e[i] = consts[r.Intn(len(consts))] + uint64(r.Intn(3)) - 1
				case 2:
					e[i] = r.Uint64() >> uint(r.Intn(64))
				case 3:
					e[i] = r.Uint64()
				}
				e[i] &= mask(vars[i].w)
			}
			x.setModel(e)
			for i, v := range all {
				got, want := x.eval(v.t), v.f(e)
				if got != want {
					t.Fatalf("seed %d term %d: %v has the value %d, expected %d, for %v", seed, i, v.t, got, want, e)
				}
				if got < v.t.lo || got > v.t.hi {
					t.Fatalf("seed %d term %d: the value %d of %v is not in [%d,%d]", seed, i, got, v.t, v.t.lo, v.t.hi)
				}
			}
		}
	}
}
