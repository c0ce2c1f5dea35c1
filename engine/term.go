package main

// Hash-consed bit-vector / boolean terms with a light simplifier and unsigned
// interval analysis.  Width 0 denotes the boolean sort; widths 1..64 bit-vectors.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF // opaque function application treated as a leaf (syntactic congruence)
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpShl
	OpLshr
	OpAshr
	OpExtract // c = lo
	OpZExt
	OpSExt
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBNot
	OpBAnd
	OpBOr
	OpDigit // c = i<<8 | n : i'th (from the right) decimal digit (ASCII) of a, which has exactly n digits
	OpHexDg // c = i<<1 | upper : i'th hex digit (ASCII) of a
)

type Term struct {
	op      Op
	w       uint8
	canon   bool
	c       uint64
	a, b, d *Term
	id      uint32
	vidx    int32 // leaf index (OpVar, OpUF)
	lo, hi  uint64
	name    string
	evGen   uint32
	evVal   uint64
	ivGen   uint32
	ivLo    uint64
	ivHi    uint64
	defd    uint32 // solver definition generation
	sup     []int32
	supOK   bool
}

type tkey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d uint32
}

// Ctx is a per-worker term table.
type Ctx struct {
	tab     map[tkey]*Term
	consts  map[tkey]*Term
	names   map[string]*Term
	leaves  []*Term
	nextID  uint32
	gen     uint32
	model   []uint64
	ivgen   uint32
	refine  map[uint32][2]uint64
	solvGen uint32
	ufTab   map[string]*Term
}

func newCtx() *Ctx {
	return &Ctx{tab: map[tkey]*Term{}, consts: map[tkey]*Term{}, names: map[string]*Term{}, nextID: 1, gen: 1, ivgen: 1, refine: map[uint32][2]uint64{}, solvGen: 1, ufTab: map[string]*Term{}}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

var smallConsts [65][]*Term

var tTrue = &Term{op: OpConst, w: 0, c: 1, lo: 1, hi: 1}
var tFalse = &Term{op: OpConst, w: 0, c: 0}

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		n := 1024
		if w == 8 {
			n = 256
		}
		arr := make([]Term, n)
		smallConsts[w] = make([]*Term, n)
		for i := range arr {
			arr[i] = Term{op: OpConst, w: uint8(w), c: uint64(i), lo: uint64(i), hi: uint64(i)}
			smallConsts[w][i] = &arr[i]
		}
	}
}

func mkConst(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		if v != 0 {
			return tTrue
		}
		return tFalse
	}
	if sc := smallConsts[w]; v < uint64(len(sc)) {
		return sc[v]
	}
	return &Term{op: OpConst, w: w, c: v, lo: v, hi: v}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sx(w uint8, v uint64) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (x *Ctx) canonConst(t *Term) *Term {
	if t.op != OpConst || t.canon {
		return t
	}
	k := tkey{op: OpConst, w: t.w, c: t.c}
	if r, ok := x.consts[k]; ok {
		return r
	}
	r := &Term{op: OpConst, w: t.w, c: t.c, lo: t.c, hi: t.c, canon: true, id: x.nextID}
	x.nextID++
	x.consts[k] = r
	return r
}

func (x *Ctx) mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := tkey{op: op, w: w, c: c}
	if a != nil {
		a = x.canonConst(a)
		k.a = a.id
	}
	if b != nil {
		b = x.canonConst(b)
		k.b = b.id
	}
	if d != nil {
		d = x.canonConst(d)
		k.d = d.id
	}
	if r, ok := x.tab[k]; ok {
		return r
	}
	r := &Term{op: op, w: w, c: c, a: a, b: b, d: d, id: x.nextID, canon: true}
	x.nextID++
	r.lo, r.hi = x.interval(r, func(t *Term) (uint64, uint64) { return t.lo, t.hi })
	x.tab[k] = r
	return r
}

func (x *Ctx) leaf(op Op, name string, w uint8) *Term {
	if r, ok := x.names[name]; ok {
		if r.w != w {
			panic(fmt.Sprintf("leaf %s width mismatch", name))
		}
		return r
	}
	r := &Term{op: op, w: w, id: x.nextID, canon: true, name: name, vidx: int32(len(x.leaves)), lo: 0, hi: mask(w)}
	x.nextID++
	x.names[name] = r
	x.leaves = append(x.leaves, r)
	return r
}

func (x *Ctx) Var(name string, w uint8) *Term { return x.leaf(OpVar, name, w) }

// UF builds an opaque application; equal argument terms give the same leaf.
// Leaves are numbered in path order so that models transfer between workers.
func (x *Ctx) UF(fn string, w uint8, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(fn)
	for _, a := range args {
		a = x.canonConst(a)
		if a.op == OpConst {
			fmt.Fprintf(&sb, "!c%d_%d", a.w, a.c)
		} else {
			fmt.Fprintf(&sb, "!%d", a.id)
		}
	}
	k := sb.String()
	if t, ok := x.ufTab[k]; ok {
		return t
	}
	t := x.leaf(OpUF, fmt.Sprintf("u%d_%d", len(x.ufTab), w), w)
	x.ufTab[k] = t
	return t
}

var pow10 [20]uint64

func init() {
	p := uint64(1)
	for i := range pow10 {
		pow10[i] = p
		p *= 10
	}
}

// interval computes an unsigned over-approximation of t from its children.
func (x *Ctx) interval(t *Term, g func(*Term) (uint64, uint64)) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.c, t.c
	case OpAdd:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		lo, c1 := bits.Add64(al, bl, 0)
		hi, c2 := bits.Add64(ah, bh, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			return lo, hi
		}
		// a + const with wrap on both ends (i.e. subtraction of a constant)
		if bl == bh {
			if lo&m <= hi&m && (c1 == 1 || lo > m) {
				return lo & m, hi & m
			}
		}
		return 0, m
	case OpSub:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		if al >= bh {
			return al - bh, ah - bl
		}
		if t.b.op == OpURem && t.b.a == t.a {
			return 0, ah
		}
		return 0, m
	case OpMul:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		h, l := bits.Mul64(ah, bh)
		if h == 0 && l <= m {
			return al * bl, l
		}
		return 0, m
	case OpUDiv:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		if bl > 0 {
			return al / bh, ah / bl
		}
		return 0, m
	case OpURem:
		_, ah := g(t.a)
		bl, bh := g(t.b)
		if bl > 0 {
			if ah < bl {
				return g(t.a)
			}
			if bh-1 < ah {
				return 0, bh - 1
			}
			return 0, ah
		}
		return 0, m
	case OpAnd:
		_, ah := g(t.a)
		_, bh := g(t.b)
		if bh < ah {
			ah = bh
		}
		return 0, ah
	case OpOr:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		n := bits.Len64(ah | bh)
		hi := m
		if n < 64 {
			hi = (uint64(1) << n) - 1
		}
		lo := al
		if bl > lo {
			lo = bl
		}
		return lo, hi & m
	case OpXor:
		_, ah := g(t.a)
		_, bh := g(t.b)
		n := bits.Len64(ah | bh)
		hi := m
		if n < 64 {
			hi = (uint64(1) << n) - 1
		}
		return 0, hi & m
	case OpNot:
		al, ah := g(t.a)
		return m - ah, m - al
	case OpShl:
		if t.b.op == OpConst && t.b.c < 64 {
			al, ah := g(t.a)
			if bits.Len64(ah)+int(t.b.c) <= int(t.w) {
				return al << t.b.c, ah << t.b.c
			}
		}
		return 0, m
	case OpLshr:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		if bl == bh {
			if bl >= 64 {
				return 0, 0
			}
			return al >> bl, ah >> bl
		}
		return 0, ah
	case OpExtract:
		al, ah := g(t.a)
		al >>= t.c
		ah >>= t.c
		if ah <= m {
			return al, ah
		}
		if al>>t.w == ah>>t.w {
			return al & m, ah & m
		}
		return 0, m
	case OpZExt:
		return g(t.a)
	case OpSExt:
		al, ah := g(t.a)
		half := uint64(1) << (t.a.w - 1)
		if ah < half {
			return al, ah
		}
		if al >= half {
			ext := m &^ mask(t.a.w)
			return al | ext, ah | ext
		}
		return 0, m
	case OpIte:
		cl, ch := g(t.a)
		bl, bh := g(t.b)
		dl, dh := g(t.d)
		if cl == 1 {
			return bl, bh
		}
		if ch == 0 {
			return dl, dh
		}
		if dl < bl {
			bl = dl
		}
		if dh > bh {
			bh = dh
		}
		return bl, bh
	case OpEq:
		if t.a == t.b {
			return 1, 1
		}
		al, ah := g(t.a)
		bl, bh := g(t.b)
		if ah < bl || bh < al {
			return 0, 0
		}
		if al == ah && bl == bh {
			return 1, 1
		}
		return 0, 1
	case OpUlt:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		if ah < bl {
			return 1, 1
		}
		if al >= bh {
			return 0, 0
		}
		return 0, 1
	case OpUle:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		if ah <= bl {
			return 1, 1
		}
		if al > bh {
			return 0, 0
		}
		return 0, 1
	case OpSlt, OpSle:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		w := t.a.w
		half := uint64(1) << (w - 1)
		// signed ranges, when an interval does not cross the sign boundary
		if (ah < half || al >= half) && (bh < half || bl >= half) {
			sal, sah, sbl, sbh := sx(w, al), sx(w, ah), sx(w, bl), sx(w, bh)
			if t.op == OpSlt {
				if sah < sbl {
					return 1, 1
				}
				if sal >= sbh {
					return 0, 0
				}
			} else {
				if sah <= sbl {
					return 1, 1
				}
				if sal > sbh {
					return 0, 0
				}
			}
		}
		return 0, 1
	case OpBNot:
		al, ah := g(t.a)
		return 1 - ah, 1 - al
	case OpBAnd:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		return al & bl, ah & bh
	case OpBOr:
		al, ah := g(t.a)
		bl, bh := g(t.b)
		return al | bl, ah | bh
	case OpDigit:
		i, n := t.c>>8, t.c&0xff
		if n > 1 && i == n-1 {
			return '1', '9'
		}
		return '0', '9'
	case OpHexDg:
		if t.c&1 == 1 {
			return '0', 'F'
		}
		return '0', 'f'
	}
	return 0, m
}

// ival is the path-sensitive interval of t (uses refinements from assumed comparisons).
func (x *Ctx) ival(t *Term) (uint64, uint64) {
	if t.op == OpConst {
		return t.c, t.c
	}
	if t.ivGen == x.ivgen {
		return t.ivLo, t.ivHi
	}
	lo, hi := x.interval(t, x.ival)
	if lo < t.lo {
		lo = t.lo
	}
	if hi > t.hi {
		hi = t.hi
	}
	if r, ok := x.refine[t.id]; ok {
		if r[0] > lo {
			lo = r[0]
		}
		if r[1] < hi {
			hi = r[1]
		}
	}
	t.ivGen, t.ivLo, t.ivHi = x.ivgen, lo, hi
	return lo, hi
}

func (x *Ctx) setRefine(t *Term, lo, hi uint64) {
	if t.op == OpConst {
		return
	}
	l, h := x.ival(t)
	if lo > l {
		l = lo
	}
	if hi < h {
		h = hi
	}
	if l > h {
		return // contradictory path: leave it to the solver
	}
	x.refine[t.id] = [2]uint64{l, h}
	// propagate through simple injective wrappers
	switch t.op {
	case OpZExt:
		if h > mask(t.a.w) {
			h = mask(t.a.w)
		}
		x.setRefine(t.a, l, h)
	case OpExtract:
		// low extract of a value known to fit
		_, ah := x.ival(t.a)
		if t.c == 0 && ah <= mask(t.w) {
			x.setRefine(t.a, l, h)
		}
	case OpAdd:
		if t.b.op == OpConst {
			al, ah := x.ival(t.a)
			if s, c := bits.Add64(ah, t.b.c, 0); c == 0 && s <= mask(t.w) {
				if l >= t.b.c {
					x.setRefine(t.a, l-t.b.c, h-t.b.c)
				}
			} else {
				neg := (-t.b.c) & mask(t.w)
				if al >= neg { // a - neg, no underflow
					s, c := bits.Add64(h, neg, 0)
					if c == 0 {
						x.setRefine(t.a, l+neg, s)
					}
				}
			}
		}
	}
}

// learn records interval facts implied by cond being true (v) / false (!v).
func (x *Ctx) learn(cond *Term, v bool) {
	if cond.op == OpConst {
		return
	}
	n := uint64(0)
	if v {
		n = 1
	}
	x.refine[cond.id] = [2]uint64{n, n}
	switch cond.op {
	case OpBNot:
		x.learn(cond.a, !v)
	case OpBAnd:
		if v {
			x.learn(cond.a, true)
			x.learn(cond.b, true)
		}
	case OpBOr:
		if !v {
			x.learn(cond.a, false)
			x.learn(cond.b, false)
		}
	case OpEq:
		if cond.a.w == 0 {
			break
		}
		if v {
			al, ah := x.ival(cond.a)
			bl, bh := x.ival(cond.b)
			x.setRefine(cond.a, bl, bh)
			x.setRefine(cond.b, al, ah)
		} else {
			al, ah := x.ival(cond.a)
			bl, bh := x.ival(cond.b)
			if bl == bh {
				if al == bl && al < ah {
					x.setRefine(cond.a, al+1, ah)
				} else if ah == bl && al < ah {
					x.setRefine(cond.a, al, ah-1)
				}
			}
		}
	case OpUlt:
		al, ah := x.ival(cond.a)
		bl, bh := x.ival(cond.b)
		if v {
			if bh > 0 {
				x.setRefine(cond.a, 0, bh-1)
			}
			if al < ^uint64(0) {
				x.setRefine(cond.b, al+1, ^uint64(0))
			}
		} else {
			x.setRefine(cond.a, bl, ^uint64(0))
			x.setRefine(cond.b, 0, ah)
		}
	case OpUle:
		al, ah := x.ival(cond.a)
		bl, bh := x.ival(cond.b)
		if v {
			x.setRefine(cond.a, 0, bh)
			x.setRefine(cond.b, al, ^uint64(0))
		} else {
			if bl < ^uint64(0) {
				x.setRefine(cond.a, bl+1, ^uint64(0))
			}
			if ah > 0 {
				x.setRefine(cond.b, 0, ah-1)
			}
		}
	case OpSlt, OpSle:
		// only in the non-negative half
		a, b := cond.a, cond.b
		w := a.w
		half := uint64(1) << (w - 1)
		al, ah := x.ival(a)
		bl, bh := x.ival(b)
		if ah < half && bh < half {
			c := cond.op == OpSlt
			if v {
				if c {
					if bh > 0 {
						x.setRefine(a, 0, bh-1)
					}
					x.setRefine(b, al+1, bh)
				} else {
					x.setRefine(a, 0, bh)
					x.setRefine(b, al, bh)
				}
			} else {
				if c {
					x.setRefine(a, bl, ah)
					x.setRefine(b, bl, ah)
				} else {
					x.setRefine(a, bl+1, ah)
					if ah > 0 {
						x.setRefine(b, bl, ah-1)
					}
				}
			}
		} else if bl == bh && bl < half && v && al >= half {
			// negative a: nothing
		} else if cond.op == OpSlt && !v && bl == bh && bl == 0 {
			// a >= 0 (signed)
			x.setRefine(a, 0, half-1)
		} else if cond.op == OpSlt && v && bl == bh && bl == 0 {
			x.setRefine(a, half, mask(w))
		}
	}
	x.ivgen++
}

func (x *Ctx) resetPath() {
	clear(x.refine)
	clear(x.ufTab)
	x.ivgen++
}

// ---------- constructors with simplification ----------

func (x *Ctx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return mkBool(a.c == 0)
	}
	if a.op == OpBNot {
		return a.a
	}
	return x.mk(OpBNot, 0, 0, a, nil, nil)
}

func (x *Ctx) BAnd(a, b *Term) *Term {
	if a.op == OpConst {
		if a.c == 0 {
			return tFalse
		}
		return b
	}
	if b.op == OpConst {
		if b.c == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return tFalse
	}
	return x.mk(OpBAnd, 0, 0, a, b, nil)
}

func (x *Ctx) BOr(a, b *Term) *Term {
	if a.op == OpConst {
		if a.c != 0 {
			return tTrue
		}
		return b
	}
	if b.op == OpConst {
		if b.c != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return tTrue
	}
	return x.mk(OpBOr, 0, 0, a, b, nil)
}

func (x *Ctx) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b || (a.op == OpConst && b.op == OpConst && a.c == b.c) {
		return a
	}
	if a.w == 0 {
		if a.op == OpConst && b.op == OpConst {
			if a.c == 1 {
				return c
			}
			return x.BNot(c)
		}
		return x.BOr(x.BAnd(c, a), x.BAnd(x.BNot(c), b))
	}
	if c.op == OpBNot {
		return x.Ite(c.a, b, a)
	}
	return x.mk(OpIte, a.w, 0, c, a, b)
}

func (x *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OpConst && b.op == OpConst {
		return mkBool(a.c == b.c)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tFalse
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.c == 1 {
				return a
			}
			return x.BNot(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpZExt:
			if b.c > mask(a.a.w) {
				return tFalse
			}
			return x.Eq(a.a, mkConst(a.a.w, b.c))
		case OpSExt:
			lowc := b.c & mask(a.a.w)
			if uint64(sx(a.a.w, lowc))&mask(a.w) != b.c {
				return tFalse
			}
			return x.Eq(a.a, mkConst(a.a.w, lowc))
		case OpAdd:
			if a.b.op == OpConst {
				return x.Eq(a.a, mkConst(a.w, b.c-a.b.c))
			}
		case OpXor:
			if a.b.op == OpConst {
				return x.Eq(a.a, mkConst(a.w, b.c^a.b.c))
			}
		case OpNot:
			return x.Eq(a.a, mkConst(a.w, ^b.c))
		case OpIte:
			if a.b.op == OpConst && a.d.op == OpConst {
				p, q := a.b.c == b.c, a.d.c == b.c
				if p && q {
					return tTrue
				}
				if !p && !q {
					return tFalse
				}
				if p {
					return a.a
				}
				return x.BNot(a.a)
			}
			if (a.b.op == OpConst || a.d.op == OpConst) && iteDepth(a) < 300 {
				// distribute over one-sided constant chains
				if a.b.op == OpConst {
					if a.b.c == b.c {
						return x.BOr(a.a, x.Eq(a.d, b))
					}
					return x.BAnd(x.BNot(a.a), x.Eq(a.d, b))
				}
				if a.d.c == b.c {
					return x.BOr(x.BNot(a.a), x.Eq(a.b, b))
				}
				return x.BAnd(a.a, x.Eq(a.b, b))
			}
		case OpHexDg:
			up := a.c&1 == 1
			v := -1
			switch {
			case b.c >= '0' && b.c <= '9':
				v = int(b.c - '0')
			case up && b.c >= 'A' && b.c <= 'F':
				v = int(b.c-'A') + 10
			case !up && b.c >= 'a' && b.c <= 'f':
				v = int(b.c-'a') + 10
			}
			if v < 0 {
				return tFalse
			}
			return x.Eq(x.nibble(a.a, a.c>>1), mkConst(4, uint64(v)))
		case OpDigit:
			if a.c&0xff == 1 { // single digit number
				return x.Eq(a.a, mkConst(a.a.w, b.c-'0'))
			}
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return x.Eq(a.a, b.a)
		}
		if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
			return x.Eq(a.a, b.a)
		}
		if a.op == OpHexDg && b.op == OpHexDg && a.c&1 == b.c&1 {
			return x.Eq(x.nibble(a.a, a.c>>1), x.nibble(b.a, b.c>>1))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OpEq, 0, 0, a, b, nil)
}

func iteDepth(t *Term) int {
	n := 0
	for t.op == OpIte && n < 400 {
		n++
		if t.b.op == OpConst {
			t = t.d
		} else {
			t = t.b
		}
	}
	return n
}

func (x *Ctx) nibble(a *Term, i uint64) *Term {
	if i*4 >= uint64(a.w) {
		return mkConst(4, 0)
	}
	if n := uint64(a.w) - i*4; n < 4 {
		return x.ZExt(x.Extract(a, uint8(i*4), uint8(n)), 4)
	}
	return x.Extract(a, uint8(i*4), 4)
}

func (x *Ctx) Ult(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkBool(a.c < b.c)
	}
	if a == b {
		return tFalse
	}
	if a.hi < b.lo {
		return tTrue
	}
	if a.lo >= b.hi {
		return tFalse
	}
	if b.op == OpAdd && b.b.op == OpConst && noCarry(b) && b.a.op == OpSub && b.a.a == a {
		// a < a - a%c + d
		if r := b.a.b; r.op == OpURem && r.a == a && r.hi < b.b.c {
			return tTrue
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return x.Ult(a.a, b.a)
	}
	if a.op == OpZExt && b.op == OpConst && b.c <= mask(a.a.w) {
		return x.Ult(a.a, mkConst(a.a.w, b.c))
	}
	if b.op == OpZExt && a.op == OpConst && a.c <= mask(b.a.w) {
		return x.Ult(mkConst(b.a.w, a.c), b.a)
	}
	return x.mk(OpUlt, 0, 0, a, b, nil)
}

func (x *Ctx) Ule(a, b *Term) *Term { return x.BNot(x.Ult(b, a)) }

func (x *Ctx) Slt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkBool(sx(a.w, a.c) < sx(b.w, b.c))
	}
	if a == b {
		return tFalse
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return x.Ult(a, b)
	}
	if a.hi < half && b.lo >= half {
		return tFalse
	}
	if a.lo >= half && b.hi < half {
		return tTrue
	}
	return x.mk(OpSlt, 0, 0, a, b, nil)
}

func (x *Ctx) Sle(a, b *Term) *Term { return x.BNot(x.Slt(b, a)) }

func (x *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return x.Extract(a, 0, w)
	}
	if a.op == OpConst {
		return mkConst(w, a.c)
	}
	if a.op == OpZExt {
		return x.ZExt(a.a, w)
	}
	return x.mk(OpZExt, w, 0, a, nil, nil)
}

func (x *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return x.Extract(a, 0, w)
	}
	if a.op == OpConst {
		return mkConst(w, uint64(sx(a.w, a.c)))
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return x.ZExt(a, w)
	}
	if a.op == OpSExt {
		return x.SExt(a.a, w)
	}
	return x.mk(OpSExt, w, 0, a, nil, nil)
}

func (x *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OpConst {
		return mkConst(w, a.c>>lo)
	}
	if lo >= a.w {
		return mkConst(w, 0)
	}
	switch a.op {
	case OpZExt:
		if lo >= a.a.w {
			return mkConst(w, 0)
		}
		if lo+w <= a.a.w {
			return x.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return x.ZExt(a.a, w)
		}
		return x.ZExt(x.Extract(a.a, lo, a.a.w-lo), w)
	case OpSExt:
		if lo+w <= a.a.w {
			return x.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return x.SExt(a.a, w)
		}
	case OpExtract:
		return x.Extract(a.a, uint8(a.c)+lo, w)
	case OpAnd, OpOr, OpXor:
		f := x.And
		if a.op == OpOr {
			f = x.Or
		} else if a.op == OpXor {
			f = x.Xor
		}
		return f(x.Extract(a.a, lo, w), x.Extract(a.b, lo, w))
	case OpNot:
		return x.Not(x.Extract(a.a, lo, w))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			p, q := x.Extract(a.a, 0, w), x.Extract(a.b, 0, w)
			switch a.op {
			case OpAdd:
				return x.Add(p, q)
			case OpSub:
				return x.Sub(p, q)
			default:
				return x.Mul(p, q)
			}
		}
	case OpShl:
		if a.b.op == OpConst {
			s := a.b.c
			if s >= uint64(lo)+uint64(w) {
				return mkConst(w, 0)
			}
			if s <= uint64(lo) {
				return x.Extract(a.a, lo-uint8(s), w)
			}
			if lo == 0 {
				return x.Shl(x.Extract(a.a, 0, w), mkConst(w, s))
			}
		}
	case OpLshr:
		if a.b.op == OpConst {
			s := a.b.c + uint64(lo)
			if s+uint64(w) <= uint64(a.w) {
				return x.Extract(a.a, uint8(s), w)
			}
			if s >= uint64(a.w) {
				return mkConst(w, 0)
			}
			return x.ZExt(x.Extract(a.a, uint8(s), a.w-uint8(s)), w)
		}
	case OpIte:
		if a.b.op == OpConst || a.d.op == OpConst {
			return x.Ite(a.a, x.Extract(a.b, lo, w), x.Extract(a.d, lo, w))
		}
	}
	if lo == 0 && a.hi <= mask(w) {
		// keep as an extract (it is an injection); fallthrough
	} else if a.hi>>lo == 0 {
		return mkConst(w, 0)
	}
	return x.mk(OpExtract, w, uint64(lo), a, nil, nil)
}

func (x *Ctx) Add(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkConst(a.w, a.c+b.c)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.c == 0 {
			return a
		}
		if a.op == OpAdd && a.b.op == OpConst {
			return x.Add(a.a, mkConst(a.w, a.b.c+b.c))
		}
		if a.op == OpSub && a.a.op == OpConst {
			return x.Sub(mkConst(a.w, a.a.c+b.c), a.b)
		}
		if a.op == OpZExt {
			// push under the extension when it cannot overflow
			if s, c := bits.Add64(a.a.hi, b.c, 0); c == 0 && s <= mask(a.a.w) {
				return x.ZExt(x.Add(a.a, mkConst(a.a.w, b.c)), a.w)
			}
		}
	} else {
		// pull constants outwards: (p+c)+q -> (p+q)+c
		if a.op == OpAdd && a.b.op == OpConst {
			return x.Add(x.Add(a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.op == OpConst {
			return x.Add(x.Add(a, b.a), b.b)
		}
		if a.op == OpMul || b.op == OpMul {
			// c*p + d*p -> (c+d)*p
			c, p := coef(a)
			d, q := coef(b)
			if p == q {
				return x.Mul(p, mkConst(a.w, c+d))
			}
			if a.op == OpAdd && b.op == OpMul {
				if c, p := coef(a.b); p == q && a.b.op == OpMul {
					return x.Add(a.a, x.Mul(p, mkConst(a.w, c+d)))
				}
			}
		}
		if a.op == OpSub && a.b == b {
			return a.a
		}
		if b.op == OpSub && b.b == a {
			return b.a
		}
		// (p+q) + (r-q) -> p+r and k*p + (c*p)/d -> ((k*d+c)*p)/d
		for i := 0; i < 2; i++ {
			if b.op == OpUDiv && b.b.op == OpConst {
				k, p := coef(a)
				if c, q := coef(b.a); p == q && k < 1<<24 && b.b.c < 1<<16 && c < 1<<40 {
					c += k * b.b.c
					if h, l := bits.Mul64(c, p.hi); h == 0 && l <= mask(a.w) {
						return x.UDiv(x.Mul(p, mkConst(a.w, c)), b.b)
					}
				}
			}
			// (c*p)/d + (q - (e*p)/d) -> k*p + q, with c = e + k*d
			if b.op == OpSub && b.b.op == OpUDiv && b.b.b.op == OpConst && a.op == OpUDiv && a.b.op == OpConst && a.b.c == b.b.b.c {
				c, p := coef(a.a)
				e, q := coef(b.b.a)
				if p == q && c >= e && (c-e)%a.b.c == 0 {
					h1, l1 := bits.Mul64(c, p.hi)
					if h1 == 0 && l1 <= mask(a.w) {
						return x.Add(x.Mul(p, mkConst(a.w, (c-e)/a.b.c)), b.a)
					}
				}
			}
			if a.op == OpAdd && b.op == OpSub {
				if a.b == b.b {
					return x.Add(a.a, b.a)
				}
				if a.a == b.b {
					return x.Add(a.b, b.a)
				}
			}
			a, b = b, a
		}
		if a.op != OpAdd && b.op != OpAdd {
			if r := x.disjoint(a, b); r != nil {
				return r
			}
		}
		if a.op != OpAdd && b.op == OpAdd {
			a, b = b, a
		}
		if a.op != OpAdd && a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OpAdd, a.w, 0, a, b, nil)
}

func (x *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return mkConst(a.w, 0)
	}
	if b.op == OpConst {
		return x.Add(a, mkConst(a.w, -b.c))
	}
	if a.op == OpAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if b.op == OpAdd && b.b.op == OpConst {
		return x.Sub(x.Add(a, mkConst(a.w, -b.b.c)), b.a)
	}
	if a.op == OpAdd && a.b.op == OpConst {
		return x.Add(x.Sub(a.a, b), a.b)
	}
	return x.mk(OpSub, a.w, 0, a, b, nil)
}

func (x *Ctx) Mul(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkConst(a.w, a.c*b.c)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return x.Shl(a, mkConst(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.op == OpMul && a.b.op == OpConst {
			return x.Mul(a.a, mkConst(a.w, a.b.c*b.c))
		}
		if a.op == OpShl && a.b.op == OpConst && a.b.c < uint64(a.w) {
			return x.Mul(a.a, mkConst(a.w, b.c<<a.b.c))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OpMul, a.w, 0, a, b, nil)
}

// coef splits a term into a constant factor and the rest.
func coef(t *Term) (uint64, *Term) {
	switch {
	case t.op == OpMul && t.b.op == OpConst:
		return t.b.c, t.a
	case t.op == OpShl && t.b.op == OpConst && t.b.c < uint64(t.w):
		return 1 << t.b.c, t.a
	}
	return 1, t
}

// multiple: the term is certainly a multiple of c, as a natural number.
func multiple(t *Term, c uint64) bool {
	switch t.op {
	case OpConst:
		return t.c%c == 0
	case OpAdd:
		return noCarry(t) && multiple(t.a, c) && multiple(t.b, c)
	}
	if k, base := coef(t); k > 1 && k%c == 0 {
		h, l := bits.Mul64(k, base.hi)
		return h == 0 && l <= mask(t.w)
	}
	return false
}

// noCarry: the sum does not wrap around.
func noCarry(t *Term) bool {
	s, c := bits.Add64(t.a.hi, t.b.hi, 0)
	return c == 0 && s <= mask(t.w)
}

// remainder: t is the remainder of a division by c; the result is what was divided.
func (x *Ctx) remainder(t *Term, c uint64) *Term {
	switch {
	case t.op == OpURem && t.b.op == OpConst && t.b.c == c:
		return t.a
	case t.op == OpZExt:
		if r := x.remainder(t.a, c); r != nil {
			return x.ZExt(r, t.w)
		}
	}
	return nil
}

// carried: a is a sum with a remainder of a division by c, which the result has
// replaced by what was divided (the second result). Neither wraps around.
func (x *Ctx) carried(a *Term, c uint64) (sum, divided *Term) {
	if a.op != OpAdd || !noCarry(a) {
		return nil, nil
	}
	for i, p := range []*Term{a.a, a.b} {
		q := a.b
		if i == 1 {
			q = a.a
		}
		r := x.remainder(p, c)
		divided := r
		if r == nil {
			if r, divided = x.carried(p, c); r == nil {
				continue
			}
		}
		if s, o := bits.Add64(r.hi, q.hi, 0); o == 0 && s <= mask(a.w) {
			return x.Add(r, q), divided
		}
	}
	return nil, nil
}

func (x *Ctx) UDiv(a, b *Term) *Term {
	if b.op == OpConst && b.c > 1 {
		// (p%c + q)/c -> (p+q)/c - p/c
		if sum, p := x.carried(a, b.c); p != nil {
			return x.Sub(x.UDiv(sum, b), x.UDiv(p, b))
		}
	}
	if b.op == OpConst && b.c > 1 && a.op == OpAdd && noCarry(a) {
		// (c*p + q)/c -> p + q/c
		for i, p := range []*Term{a.a, a.b} {
			q := a.b
			if i == 1 {
				q = a.a
			}
			if multiple(p, b.c) {
				return x.Add(x.UDiv(p, b), x.UDiv(q, b))
			}
		}
		if a.b.op == OpConst && a.b.c >= b.c {
			k := a.b.c / b.c
			return x.Add(x.UDiv(x.Add(a.a, mkConst(a.w, a.b.c%b.c)), b), mkConst(a.w, k))
		}
	}
	if b.op == OpConst && b.c != 0 {
		if c, base := coef(a); c > 1 && b.c > 1 && c%b.c == 0 {
			if h, l := bits.Mul64(c, base.hi); h == 0 && l <= mask(a.w) {
				return x.Mul(base, mkConst(a.w, c/b.c))
			}
		}
		if a.op == OpConst {
			return mkConst(a.w, a.c/b.c)
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return x.Lshr(a, mkConst(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.hi < b.c {
			return mkConst(a.w, 0)
		}
		if a.op == OpZExt && b.c <= mask(a.a.w) {
			return x.ZExt(x.UDiv(a.a, mkConst(a.a.w, b.c)), a.w)
		}
		if k := narrowU(a, b); k > 0 {
			return x.ZExt(x.UDiv(x.Extract(a, 0, k), mkConst(k, b.c)), a.w)
		}
	}
	return x.mk(OpUDiv, a.w, 0, a, b, nil)
}

func (x *Ctx) URem(a, b *Term) *Term {
	if b.op == OpConst && b.c > 1 {
		// (p%c + q)%c -> (p+q)%c
		if sum, p := x.carried(a, b.c); p != nil {
			return x.URem(sum, b)
		}
		if multiple(a, b.c) {
			return mkConst(a.w, 0)
		}
		if a.op == OpAdd && noCarry(a) {
			if multiple(a.a, b.c) {
				return x.URem(a.b, b)
			}
			if multiple(a.b, b.c) {
				return x.URem(a.a, b)
			}
			if a.b.op == OpConst && a.b.c >= b.c {
				return x.URem(x.Add(a.a, mkConst(a.w, a.b.c%b.c)), b)
			}
		}
	}
	if b.op == OpConst && b.c != 0 {
		if a.op == OpConst {
			return mkConst(a.w, a.c%b.c)
		}
		if b.c == 1 {
			return mkConst(a.w, 0)
		}
		if b.c&(b.c-1) == 0 {
			return x.And(a, mkConst(a.w, b.c-1))
		}
		if a.hi < b.c {
			return a
		}
		if a.op == OpZExt && b.c <= mask(a.a.w) {
			return x.ZExt(x.URem(a.a, mkConst(a.a.w, b.c)), a.w)
		}
		if k := narrowU(a, b); k > 0 {
			return x.ZExt(x.URem(x.Extract(a, 0, k), mkConst(k, b.c)), a.w)
		}
	}
	return x.mk(OpURem, a.w, 0, a, b, nil)
}

func (x *Ctx) SDiv(a, b *Term) *Term {
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return x.UDiv(a, b)
	}
	if a.op == OpConst && b.op == OpConst && b.c != 0 {
		p, q := sx(a.w, a.c), sx(b.w, b.c)
		if q == -1 {
			return mkConst(a.w, uint64(-p))
		}
		return mkConst(a.w, uint64(p/q))
	}
	if k := narrowS(a, b); k > 0 {
		return x.SExt(x.SDiv(x.Extract(a, 0, k), x.Extract(b, 0, k)), a.w)
	}
	return x.mk(OpSDiv, a.w, 0, a, b, nil)
}

func (x *Ctx) SRem(a, b *Term) *Term {
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return x.URem(a, b)
	}
	if a.op == OpConst && b.op == OpConst && b.c != 0 {
		p, q := sx(a.w, a.c), sx(b.w, b.c)
		if q == -1 {
			return mkConst(a.w, 0)
		}
		return mkConst(a.w, uint64(p%q))
	}
	if k := narrowS(a, b); k > 0 {
		return x.SExt(x.SRem(x.Extract(a, 0, k), x.Extract(b, 0, k)), a.w)
	}
	return x.mk(OpSRem, a.w, 0, a, b, nil)
}

// narrowU is a width of 8 or 16 bits in which a and the constant b fit, if a is
// wider than that; 0 if there is none.
func narrowU(a, b *Term) uint8 {
	for _, k := range []uint8{8, 16} {
		if a.w > k && a.hi <= mask(k) && b.c <= mask(k) {
			return k
		}
	}
	return 0
}

// narrowS is the same for signed values. (The least value of the width is left
// out because of its quotient by -1.)
func narrowS(a, b *Term) uint8 {
	if b.op != OpConst || b.c == 0 {
		return 0
	}
	lo, hi := srange(a, 6)
	q := sx(b.w, b.c)
	for _, k := range []uint8{8, 16} {
		n := int64(1) << (k - 1)
		if a.w > k && lo > -n && hi < n && q > -n && q < n {
			return k
		}
	}
	return 0
}

// srange is a signed range of t, whatever the values of the variables.
func srange(t *Term, depth int) (int64, int64) {
	n := int64(mask(t.w) >> 1)
	lo, hi := -n-1, n
	half := uint64(1) << (t.w - 1)
	if t.hi < half || t.lo >= half {
		return sx(t.w, t.lo), sx(t.w, t.hi)
	}
	if depth == 0 {
		return lo, hi
	}
	const small = 1 << 40
	fits := func(a, b int64) (int64, int64) {
		if a < lo || b > hi {
			return lo, hi
		}
		return a, b
	}
	switch t.op {
	case OpAdd, OpSub:
		al, ah := srange(t.a, depth-1)
		bl, bh := srange(t.b, depth-1)
		if al > -small && ah < small && bl > -small && bh < small {
			if t.op == OpAdd {
				return fits(al+bl, ah+bh)
			}
			return fits(al-bh, ah-bl)
		}
	case OpMul:
		al, ah := srange(t.a, depth-1)
		if t.b.op == OpConst {
			c := sx(t.w, t.b.c)
			if al > -1<<30 && ah < 1<<30 && c > -1<<30 && c < 1<<30 {
				if c >= 0 {
					return fits(al*c, ah*c)
				}
				return fits(ah*c, al*c)
			}
		}
	case OpShl:
		al, ah := srange(t.a, depth-1)
		if t.b.op == OpConst && t.b.c < 20 && al > -small && ah < small {
			return fits(al<<t.b.c, ah<<t.b.c)
		}
	case OpSExt:
		return srange(t.a, depth-1)
	case OpIte:
		bl, bh := srange(t.b, depth-1)
		dl, dh := srange(t.d, depth-1)
		return min(bl, dl), max(bh, dh)
	case OpSRem:
		if t.b.op == OpConst && t.b.c != 0 {
			c := sx(t.w, t.b.c)
			if c > 0 {
				return -(c - 1), c - 1
			}
		}
	}
	return lo, hi
}

func (x *Ctx) And(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkConst(a.w, a.c&b.c)
	}
	if a == b {
		return a
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.c == 0 {
			return b
		}
		if b.c == mask(a.w) {
			return a
		}
		// a & lowmask where a already fits
		if b.c&(b.c+1) == 0 && a.hi <= b.c {
			return a
		}
		switch a.op {
		case OpAnd:
			if a.b.op == OpConst {
				return x.And(a.a, mkConst(a.w, a.b.c&b.c))
			}
		case OpZExt:
			return x.ZExt(x.And(a.a, mkConst(a.a.w, b.c)), a.w)
		case OpOr:
			return x.Or(x.And(a.a, b), x.And(a.b, b))
		case OpShl:
			if a.b.op == OpConst && b.c&^(mask(a.w)<<a.b.c) == b.c {
				return mkConst(a.w, 0)
			}
		}
		// contiguous low mask => extract
		if b.c&(b.c+1) == 0 {
			n := uint8(bits.Len64(b.c))
			return x.ZExt(x.Extract(a, 0, n), a.w)
		}
		if a.op == OpExtract || a.op == OpVar {
			// contiguous mask hi..lo => (extract) << lo
			tz := uint8(bits.TrailingZeros64(b.c))
			m2 := b.c >> tz
			if m2&(m2+1) == 0 {
				n := uint8(bits.Len64(m2))
				return x.Shl(x.ZExt(x.Extract(a, tz, n), a.w), mkConst(a.w, uint64(tz)))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OpAnd, a.w, 0, a, b, nil)
}

func (x *Ctx) Or(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkConst(a.w, a.c|b.c)
	}
	if a == b {
		return a
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.c == 0 {
			return a
		}
		if b.c == mask(a.w) {
			return b
		}
		if a.op == OpOr && a.b.op == OpConst {
			return x.Or(a.a, mkConst(a.w, a.b.c|b.c))
		}
	} else {
		if r := x.disjoint(a, b); r != nil {
			return r
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OpOr, a.w, 0, a, b, nil)
}

// seg is a run of bits of a term: w bits of src from lo, placed at pos.
type seg struct {
	src     *Term
	pos, lo uint8
	w       uint8
}

// segments reads a term as runs of bits with zeros between them, lowest first;
// false if it has no such form.
func segments(t *Term, out []seg) ([]seg, bool) {
	switch t.op {
	case OpConst:
		return out, t.c == 0
	case OpZExt:
		return segments(t.a, out)
	case OpShl:
		if t.b.op != OpConst {
			break
		}
		n := len(out)
		out, ok := segments(t.a, out)
		if !ok {
			return out, false
		}
		k := n
		for i := n; i < len(out); i++ {
			g := out[i]
			p := uint64(g.pos) + t.b.c
			if p >= uint64(t.w) {
				continue
			}
			g.pos = uint8(p)
			if g.pos+g.w > t.w {
				g.w = t.w - g.pos
			}
			out[k] = g
			k++
		}
		return out[:k], true
	case OpOr:
		out, ok := segments(t.a, out)
		if !ok {
			return out, false
		}
		return segments(t.b, out)
	case OpExtract:
		return append(out, seg{t.a, 0, uint8(t.c), t.w}), true
	}
	w := uint8(bits.Len64(t.hi))
	if w == 0 || w > t.w {
		return out, w == 0
	}
	return append(out, seg{t, 0, 0, w}), true
}

// disjoint gives a|b (= a+b) in a canonical form if both are runs of bits that
// do not overlap; nil otherwise.
func (x *Ctx) disjoint(a, b *Term) *Term {
	var buf [12]seg
	l, ok := segments(a, buf[:0])
	if !ok || len(l) > 8 {
		return nil
	}
	l, ok = segments(b, l)
	if !ok || len(l) > 10 || len(l) < 2 {
		return nil
	}
	sort.Slice(l, func(i, j int) bool { return l[i].pos < l[j].pos })
	for i := 1; i < len(l); i++ {
		if l[i-1].pos+l[i-1].w > l[i].pos {
			return nil
		}
	}
	k := 0
	for i := 1; i < len(l); i++ {
		p := &l[k]
		if p.src == l[i].src && p.pos+p.w == l[i].pos && p.lo+p.w == l[i].lo {
			p.w += l[i].w
		} else {
			k++
			l[k] = l[i]
		}
	}
	l = l[:k+1]
	w := a.w
	var r *Term
	for _, g := range l {
		t := x.ZExt(x.Extract(g.src, g.lo, g.w), w)
		if g.pos > 0 {
			t = x.Shl(t, mkConst(w, uint64(g.pos)))
		}
		if r == nil {
			r = t
		} else {
			r = x.mk(OpOr, w, 0, r, t, nil)
		}
	}
	return r
}

func (x *Ctx) Xor(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return mkConst(a.w, a.c^b.c)
	}
	if a == b {
		return mkConst(a.w, 0)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.c == 0 {
			return a
		}
		if b.c == mask(a.w) {
			return x.Not(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OpXor, a.w, 0, a, b, nil)
}

func (x *Ctx) Not(a *Term) *Term {
	if a.op == OpConst {
		return mkConst(a.w, ^a.c)
	}
	if a.op == OpNot {
		return a.a
	}
	return x.mk(OpNot, a.w, 0, a, nil, nil)
}

func (x *Ctx) Neg(a *Term) *Term { return x.Sub(mkConst(a.w, 0), a) }

// shifts: b has the same width as a; amounts >= width give 0 (or sign fill)
func (x *Ctx) Shl(a, b *Term) *Term {
	if b.op == OpConst {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return mkConst(a.w, 0)
		}
		if a.op == OpConst {
			return mkConst(a.w, a.c<<b.c)
		}
		if a.op == OpShl && a.b.op == OpConst {
			return x.Shl(a.a, mkConst(a.w, a.b.c+b.c))
		}
	}
	if a.op == OpConst && a.c == 0 {
		return a
	}
	return x.mk(OpShl, a.w, 0, a, b, nil)
}

func (x *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OpConst {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return mkConst(a.w, 0)
		}
		if a.op == OpConst {
			return mkConst(a.w, a.c>>b.c)
		}
		if a.hi>>b.c == 0 {
			return mkConst(a.w, 0)
		}
		n := a.w - uint8(b.c)
		return x.ZExt(x.Extract(a, uint8(b.c), n), a.w)
	}
	return x.mk(OpLshr, a.w, 0, a, b, nil)
}

func (x *Ctx) Ashr(a, b *Term) *Term {
	if a.hi < uint64(1)<<(a.w-1) {
		return x.Lshr(a, b)
	}
	if b.op == OpConst {
		if b.c == 0 {
			return a
		}
		if a.op == OpConst {
			s := b.c
			if s > 63 {
				s = 63
			}
			return mkConst(a.w, uint64(sx(a.w, a.c)>>s))
		}
	}
	return x.mk(OpAshr, a.w, 0, a, b, nil)
}

func (x *Ctx) Digit(a *Term, i, n int) *Term {
	if a.op == OpConst {
		return mkConst(8, '0'+(a.c/pow10[i])%10)
	}
	if a.op == OpZExt {
		return x.Digit(a.a, i, n)
	}
	return x.mk(OpDigit, 8, uint64(i)<<8|uint64(n), a, nil, nil)
}

func hexch(v uint64, up bool) uint64 {
	if v < 10 {
		return '0' + v
	}
	if up {
		return 'A' + v - 10
	}
	return 'a' + v - 10
}

func (x *Ctx) HexDigit(a *Term, i int, up bool) *Term {
	u := uint64(0)
	if up {
		u = 1
	}
	if a.op == OpConst {
		if i*4 >= 64 {
			return mkConst(8, '0')
		}
		return mkConst(8, hexch((a.c>>(uint(i)*4))&15, up))
	}
	if i*4 >= int(a.w) {
		return mkConst(8, '0')
	}
	n := x.nibble(a, uint64(i))
	if n.op == OpConst {
		return mkConst(8, hexch(n.c, up))
	}
	if a.op == OpZExt {
		return x.HexDigit(a.a, i, up)
	}
	return x.mk(OpHexDg, 8, uint64(i)<<1|u, a, nil, nil)
}

// ---------- evaluation under the current model ----------

func (x *Ctx) setModel(m []uint64) {
	x.model = m
	x.gen++
}

func (x *Ctx) modelVal(i int32) uint64 {
	if int(i) < len(x.model) {
		return x.model[i] & mask(x.leaves[i].w)
	}
	return 0
}

func (x *Ctx) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if t.evGen == x.gen {
		return t.evVal
	}
	var v uint64
	m := mask(t.w)
	switch t.op {
	case OpVar, OpUF:
		if int(t.vidx) < len(x.model) {
			v = x.model[t.vidx] & m
		}
	case OpIte:
		if x.eval(t.a) != 0 {
			v = x.eval(t.b)
		} else {
			v = x.eval(t.d)
		}
	case OpBAnd:
		v = x.eval(t.a)
		if v != 0 {
			v = x.eval(t.b)
		}
	case OpBOr:
		v = x.eval(t.a)
		if v == 0 {
			v = x.eval(t.b)
		}
	case OpBNot:
		v = 1 - x.eval(t.a)
	default:
		a := x.eval(t.a)
		var b uint64
		if t.b != nil {
			b = x.eval(t.b)
		}
		v = evalOp(t, a, b) & m
	}
	t.evGen, t.evVal = x.gen, v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, a, b uint64) uint64 {
	w := t.a.w
	switch t.op {
	case OpAdd:
		return a + b
	case OpSub:
		return a - b
	case OpMul:
		return a * b
	case OpUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		p, q := sx(w, a), sx(w, b)
		if q == 0 {
			if p < 0 {
				return 1
			}
			return mask(w)
		}
		if q == -1 {
			return uint64(-p)
		}
		return uint64(p / q)
	case OpSRem:
		p, q := sx(w, a), sx(w, b)
		if q == 0 {
			return a
		}
		if q == -1 {
			return 0
		}
		return uint64(p % q)
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpNot:
		return ^a
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b > 63 {
			b = 63
		}
		return uint64(sx(w, a) >> b)
	case OpExtract:
		return a >> t.c
	case OpZExt:
		return a
	case OpSExt:
		return uint64(sx(w, a))
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sx(w, a) < sx(w, b))
	case OpSle:
		return b2u(sx(w, a) <= sx(w, b))
	case OpDigit:
		return '0' + (a/pow10[t.c>>8])%10
	case OpHexDg:
		return hexch((a>>(4*(t.c>>1)))&15, t.c&1 == 1)
	}
	panic("evalOp: " + strconv.Itoa(int(t.op)))
}

// ---------- printing ----------

func bvlit(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

var opName = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBNot: "not", OpBAnd: "and", OpBOr: "or",
}

// body renders t with ref() used for children.
func (t *Term) body(ref func(*Term) string) string {
	switch t.op {
	case OpConst:
		return bvlit(t.w, t.c)
	case OpVar, OpUF:
		return ref(t)
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c+uint64(t.w)-1, t.c, ref(t.a))
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpDigit:
		w := t.a.w
		a := ref(t.a)
		if w < 8 {
			a = fmt.Sprintf("((_ zero_extend %d) %s)", 8-w, a)
			w = 8
		}
		i := t.c >> 8
		q := a
		if i > 0 {
			q = fmt.Sprintf("(bvudiv %s %s)", a, bvlit(w, pow10[i]))
		}
		return fmt.Sprintf("(bvadd (_ bv48 8) ((_ extract 7 0) (bvurem %s %s)))", q, bvlit(w, 10))
	case OpHexDg:
		i := t.c >> 1
		lo := i * 4
		hi := lo + 3
		n := ""
		if hi >= uint64(t.a.w) {
			n = fmt.Sprintf("((_ zero_extend %d) ((_ extract %d %d) %s))", 8-(uint64(t.a.w)-lo), t.a.w-1, lo, ref(t.a))
		} else {
			n = fmt.Sprintf("((_ zero_extend 4) ((_ extract %d %d) %s))", hi, lo, ref(t.a))
		}
		off := 'a' - 10
		if t.c&1 == 1 {
			off = 'A' - 10
		}
		return fmt.Sprintf("(let ((hn %s)) (ite (bvult hn (_ bv10 8)) (bvadd hn (_ bv48 8)) (bvadd hn (_ bv%d 8))))", n, off)
	}
	s := "(" + opName[t.op] + " " + ref(t.a)
	if t.b != nil {
		s += " " + ref(t.b)
	}
	if t.d != nil {
		s += " " + ref(t.d)
	}
	return s + ")"
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.op == OpVar || t.op == OpUF {
		return t.name
	}
	return t.body(func(c *Term) string { return c.String() })
}

// support is the sorted set of leaves of t.
func (x *Ctx) support(t *Term) []int32 {
	if t.supOK {
		return t.sup
	}
	t.supOK = true
	if t.op == OpVar || t.op == OpUF {
		t.sup = []int32{t.vidx}
		return t.sup
	}
	for _, c := range []*Term{t.a, t.b, t.d} {
		if c != nil {
			t.sup = mergeSup(t.sup, x.support(c))
		}
	}
	return t.sup
}

func mergeSup(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset tests keep the shared slices
	var r []int32
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}
