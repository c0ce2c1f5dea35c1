package main

import (
	"encoding/hex"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fallthru struct{}

var notHandled Value = fallthru{}

var intrinsics map[string]intrinsic

func argStr(m *Machine, v Value) *Str { return m.force(v.(*Str)) }

func i64(n int) *Term { return mkConst(64, uint64(int64(n))) }

func nilErr() Iface { return Iface{} }

func (m *Machine) variadic(v Value) []Value {
	s, _ := v.(Slice)
	return []Value(s)
}

// callMethod invokes a method by name on an interface value.
func (m *Machine) callMethod(fr *Frame, recv Iface, name string, args ...Value) Value {
	if recv.t == nil {
		m.throw(fr, "invalid memory address or nil pointer dereference")
	}
	if n, ok := recv.v.(*Native); ok {
		return m.nativeMethod(fr, n, name, args)
	}
	f := m.P.method(recv.t, nil, name)
	if f == nil {
		m.unsupported("method %s missing on %v", name, recv.t)
	}
	return m.callSSA(fr, f, append([]Value{recv.v}, args...), nil)
}

func (m *Machine) ioWrite(fr *Frame, w Iface, s *Str) Tuple {
	if m.isStd(w) {
		m.out["std"] = append(m.out["std"], s)
		return Tuple{i64(0), nilErr()}
	}
	if pt, ok := w.t.(*types.Pointer); ok && pt.Elem().String() == "verif/harness/nd.Sink" {
		// keeps what is written as it is, without rendering it
		p := w.v.(*Value)
		st := (*p).(Struct)
		st[0] = m.concat(st[0].(*Str), s)
		return Tuple{i64(0), nilErr()}
	}
	f := m.force(s)
	b := m.strToSlice(f)
	return m.callMethod(fr, w, "Write", b).(Tuple)
}

// stdoutWrite writes to what os.Stdout is at the moment.
func (m *Machine) stdoutWrite(fr *Frame, s *Str) Tuple {
	if q := m.P.pkgs["os"]; q != nil {
		g := q.Var("Stdout")
		return m.ioWrite(fr, Iface{t: g.Type().(*types.Pointer).Elem(), v: *m.global(m.P.globalIdx(g), g)}, s)
	}
	m.out["std"] = append(m.out["std"], s)
	return Tuple{i64(0), nilErr()}
}

// isStd reports whether w is os.Stdout / os.Stderr.
func (m *Machine) isStd(w Iface) bool {
	p, ok := w.v.(*Value)
	if !ok || p == nil {
		return false
	}
	n, ok := (*p).(*Native)
	if !ok {
		return false
	}
	f, ok := n.v.(*vfile)
	return ok && f.std
}

func bytesOf(m *Machine, v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return m.force(x).bytes()
	case Slice:
		r := make([]*Term, len(x))
		for i, e := range x {
			r[i] = e.(*Term)
		}
		return r
	}
	m.unsupported("bytesOf %T", v)
	return nil
}

func (m *Machine) indexByte(b []*Term, c *Term) Value {
	for i, t := range b {
		if m.branch(m.x.Eq(t, c)) {
			return i64(i)
		}
	}
	return i64(-1)
}

func (m *Machine) indexOf(s, sub *Str) int {
	s, sub = m.force(s), m.force(sub)
	if s.concrete() && sub.concrete() {
		return strings.Index(s.s, sub.s)
	}
	n := sub.flen()
	for i := 0; i+n <= s.flen(); i++ {
		if m.branch(m.strEq(s.sub(i, i+n), sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) compare(a, b *Str) Value {
	if m.branch(m.strEq(a, b)) {
		return i64(0)
	}
	if m.branch(m.strLess(a, b)) {
		return i64(-1)
	}
	return i64(1)
}

// digitRun recognises a full decimal / hex rendering of one term.
func digitRun(b []*Term, base int) *Term {
	if len(b) == 0 {
		return nil
	}
	n := len(b)
	// strip literal leading zeros for zero padded numbers
	for n > 1 && b[0].isConst() && b[0].c == '0' && !b[1].isConst() {
		b = b[1:]
		n--
	}
	f := b[0]
	switch {
	case base == 10 && f.op == OpDigit:
		for i, t := range b {
			if t.op != OpDigit || t.a != f.a || int(t.c&0xff) != n || int(t.c>>8) != n-1-i {
				return nil
			}
		}
		return f.a
	case base == 16 && f.op == OpHexDg:
		for i, t := range b {
			if t.op != OpHexDg || t.a != f.a || int(t.c>>1) != n-1-i {
				return nil
			}
		}
		return f.a
	}
	return nil
}

func (m *Machine) parseUintFast(s *Str, base, bitSize int, signed bool) (Value, bool) {
	b := s.bytes()
	neg := false
	if signed && len(b) > 1 && b[0].isConst() && (b[0].c == '-' || b[0].c == '+') {
		neg = b[0].c == '-'
		b = b[1:]
	}
	pfx := base
	if base == 0 {
		pfx = 10
	}
	t := digitRun(b, pfx)
	if t == nil {
		return nil, false
	}
	if base == 16 && len(b)*4 < int(t.w) {
		_, h := m.x.ival(t)
		if h>>(uint(len(b))*4) != 0 {
			t = m.x.Extract(t, 0, uint8(len(b)*4))
		}
	}
	if bitSize == 0 {
		bitSize = 64
	}
	v := m.x.ZExt(t, 64)
	limit := mask(uint8(bitSize))
	if signed {
		limit = mask(uint8(bitSize)) >> 1
		if neg {
			limit++
		}
	}
	if m.branch(m.x.Ult(mkConst(64, limit), v)) {
		return nil, false
	}
	if neg {
		v = m.x.Neg(v)
	}
	return Tuple{v, nilErr()}, true
}

func init() {
	str := func(f func(m *Machine, a []Value) Value) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) Value { return f(m, a) }
	}
	nop := func(m *Machine, fr *Frame, a []Value) Value { return nil }
	intrinsics = map[string]intrinsic{
		// ---- fmt
		"fmt.Sprintf": func(m *Machine, fr *Frame, a []Value) Value { return m.sprintf(fr, a[0].(*Str), m.variadic(a[1])) },
		"fmt.Sprint":  func(m *Machine, fr *Frame, a []Value) Value { return m.sprint(fr, m.variadic(a[0]), false) },
		"fmt.Sprintln": func(m *Machine, fr *Frame, a []Value) Value {
			return m.sprint(fr, m.variadic(a[0]), true)
		},
		"fmt.Appendf": func(m *Machine, fr *Frame, a []Value) Value {
			return m.appendStr(a[0], m.sprintf(fr, a[1].(*Str), m.variadic(a[2])))
		},
		"fmt.Append": func(m *Machine, fr *Frame, a []Value) Value {
			return m.appendStr(a[0], m.sprint(fr, m.variadic(a[1]), false))
		},
		"fmt.Appendln": func(m *Machine, fr *Frame, a []Value) Value {
			return m.appendStr(a[0], m.sprint(fr, m.variadic(a[1]), true))
		},
		"fmt.Errorf": func(m *Machine, fr *Frame, a []Value) Value {
			f := m.force(a[0].(*Str))
			args := m.variadic(a[1])
			if strings.Contains(f.s, "%w") {
				s := m.sprintf(fr, cstr(strings.ReplaceAll(f.s, "%w", "%v")), args)
				var wrapped Iface
				var all Slice
				k := 0
				for i := 0; i+1 < len(f.s); i++ {
					if f.s[i] != '%' {
						continue
					}
					for i++; i < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[i]) >= 0; i++ {
					}
					if i >= len(f.s) || f.s[i] == '%' {
						continue
					}
					if f.s[i] == 'w' && k < len(args) {
						if ix := args[k].(Iface); ix.t != nil && types.Implements(ix.t, errorIface) {
							wrapped = ix
							all = append(all, ix)
						}
					}
					k++
				}
				p := new(Value)
				if len(all) > 1 {
					*p = Struct{s, all}
					return Iface{t: m.P.canon(types.NewPointer(m.P.pkgs["fmt"].Type("wrapErrors").Type())), v: p}
				}
				*p = Struct{s, wrapped}
				t := m.P.pkgs["fmt"].Type("wrapError").Type()
				return Iface{t: m.P.canon(types.NewPointer(t)), v: p}
			}
			return m.mkErrorStr(m.sprintf(fr, f, args))
		},
		"fmt.Fprintf": func(m *Machine, fr *Frame, a []Value) Value {
			return m.ioWrite(fr, a[0].(Iface), m.sprintf(fr, a[1].(*Str), m.variadic(a[2])))
		},
		"fmt.Fprintln": func(m *Machine, fr *Frame, a []Value) Value {
			return m.ioWrite(fr, a[0].(Iface), m.sprint(fr, m.variadic(a[1]), true))
		},
		"fmt.Fprint": func(m *Machine, fr *Frame, a []Value) Value {
			return m.ioWrite(fr, a[0].(Iface), m.sprint(fr, m.variadic(a[1]), false))
		},
		"fmt.Printf": func(m *Machine, fr *Frame, a []Value) Value {
			return m.stdoutWrite(fr, m.sprintf(fr, a[0].(*Str), m.variadic(a[1])))
		},
		"fmt.Println": func(m *Machine, fr *Frame, a []Value) Value {
			return m.stdoutWrite(fr, m.sprint(fr, m.variadic(a[0]), true))
		},
		"fmt.Print": func(m *Machine, fr *Frame, a []Value) Value {
			return m.stdoutWrite(fr, m.sprint(fr, m.variadic(a[0]), false))
		},

		// ---- log (stdlib)
		"log.Printf": nop, "log.Println": nop, "log.Print": nop, "log.SetFlags": nop, "log.SetOutput": nop, "log.SetPrefix": nop,
		"log.Fatalf": func(m *Machine, fr *Frame, a []Value) Value { panic(pathEnd{"exit", "log.Fatalf"}) },

		// ---- bytealg
		"internal/bytealg.IndexByte": str(func(m *Machine, a []Value) Value { return m.indexByte(bytesOf(m, a[0]), a[1].(*Term)) }),
		"internal/bytealg.IndexByteString": str(func(m *Machine, a []Value) Value {
			return m.indexByte(bytesOf(m, a[0]), a[1].(*Term))
		}),
		"internal/bytealg.LastIndexByte": str(func(m *Machine, a []Value) Value {
			b := bytesOf(m, a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if m.branch(m.x.Eq(b[i], a[1].(*Term))) {
					return i64(i)
				}
			}
			return i64(-1)
		}),
		"internal/bytealg.Count":       str(countByte),
		"internal/bytealg.CountString": str(countByte),
		"internal/bytealg.Equal": str(func(m *Machine, a []Value) Value {
			return m.strEq(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1])))
		}),
		"bytes.Equal": str(func(m *Machine, a []Value) Value {
			return m.strEq(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1])))
		}),
		"internal/bytealg.Compare": str(func(m *Machine, a []Value) Value {
			return m.compare(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1])))
		}),
		"internal/bytealg.CompareString": str(func(m *Machine, a []Value) Value { return m.compare(a[0].(*Str), a[1].(*Str)) }),
		"bytes.Compare": str(func(m *Machine, a []Value) Value {
			return m.compare(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1])))
		}),
		"strings.Compare": str(func(m *Machine, a []Value) Value { return m.compare(a[0].(*Str), a[1].(*Str)) }),
		"internal/bytealg.MakeNoZero": str(func(m *Machine, a []Value) Value {
			n := int(m.concretize(a[0].(*Term)))
			return m.makeSlice(types.Typ[types.Uint8], n, n)
		}),
		"strings.Index":    str(func(m *Machine, a []Value) Value { return i64(m.indexOf(a[0].(*Str), a[1].(*Str))) }),
		"strings.Contains": str(func(m *Machine, a []Value) Value { return mkBool(m.indexOf(a[0].(*Str), a[1].(*Str)) >= 0) }),
		"bytes.Index": str(func(m *Machine, a []Value) Value {
			return i64(m.indexOf(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1]))))
		}),
		"bytes.Contains": str(func(m *Machine, a []Value) Value {
			return mkBool(m.indexOf(termsStr(bytesOf(m, a[0])), termsStr(bytesOf(m, a[1]))) >= 0)
		}),
		"strings.ToLower":   str(concStr1(strings.ToLower)),
		"strings.ToUpper":   str(concStr1(strings.ToUpper)),
		"strings.TrimSpace": str(concStr1(strings.TrimSpace)),
		"strings.Repeat": str(func(m *Machine, a []Value) Value {
			s := argStr(m, a[0])
			n := int64(m.concretize(a[1].(*Term)))
			if n < 0 {
				panic(targetPanic{v: m.mkError("strings: negative Repeat count")})
			}
			var ps []*Str
			for i := int64(0); i < n; i++ {
				ps = append(ps, s)
			}
			return joinStrs(ps)
		}),
		"strings.Join": str(func(m *Machine, a []Value) Value {
			var ps []*Str
			for i, e := range m.variadic(a[0]) {
				if i > 0 {
					ps = append(ps, a[1].(*Str))
				}
				ps = append(ps, e.(*Str))
			}
			return m.lazyConcat(ps)
		}),
		"(*strings.Builder).String": str(func(m *Machine, a []Value) Value {
			st := (*a[0].(*Value)).(Struct)
			for _, f := range st {
				if s, ok := f.(Slice); ok {
					return m.bytesToStr(s)
				}
			}
			return emptyStr
		}),
		"(*strings.Builder).copyCheck": nop,
		"strings.Clone":                str(func(m *Machine, a []Value) Value { return a[0] }),
		"internal/stringslite.Clone":   str(func(m *Machine, a []Value) Value { return a[0] }),
		"internal/stringslite.Index":   str(func(m *Machine, a []Value) Value { return i64(m.indexOf(a[0].(*Str), a[1].(*Str))) }),
		"internal/stringslite.IndexByte": str(func(m *Machine, a []Value) Value {
			return m.indexByte(bytesOf(m, a[0]), a[1].(*Term))
		}),
		"internal/abi.NoEscape": str(func(m *Machine, a []Value) Value { return a[0] }),
		"internal/abi.Escape":   str(func(m *Machine, a []Value) Value { return a[0] }),

		// ---- strconv
		"strconv.ParseUint": func(m *Machine, fr *Frame, a []Value) Value { return m.parseIntrin(fr, a, false) },
		"strconv.ParseInt":  func(m *Machine, fr *Frame, a []Value) Value { return m.parseIntrin(fr, a, true) },
		"strconv.Atoi": func(m *Machine, fr *Frame, a []Value) Value {
			s := argStr(m, a[0])
			if !s.concrete() {
				if v, ok := m.parseUintFast(s, 10, 64, true); ok {
					return v
				}
			}
			return notHandled
		},
		"strconv.Itoa":       str(func(m *Machine, a []Value) Value { return m.decimal(a[0].(*Term), true) }),
		"strconv.FormatInt":  str(func(m *Machine, a []Value) Value { return m.formatInt(a, true) }),
		"strconv.FormatUint": str(func(m *Machine, a []Value) Value { return m.formatInt(a, false) }),

		// ---- hex
		"encoding/hex.DecodeString": func(m *Machine, fr *Frame, a []Value) Value {
			s := argStr(m, a[0])
			if s.concrete() {
				if b, err := hex.DecodeString(s.s); err == nil {
					r := make(Slice, len(b))
					for i := range b {
						r[i] = mkConst(8, uint64(b[i]))
					}
					return Tuple{r, nilErr()}
				}
				return notHandled
			}
			b := s.bytes()
			if len(b)%2 != 0 {
				return notHandled
			}
			r := make(Slice, len(b)/2)
			for i := range r {
				p, q := b[2*i], b[2*i+1]
				switch {
				case p.op == OpHexDg && q.op == OpHexDg && p.a == q.a && p.c>>1 == q.c>>1+1 && (q.c>>1)%2 == 0 && int(q.c>>1)*4+8 <= int(p.a.w):
					r[i] = m.x.Extract(p.a, uint8(q.c>>1)*4, 8)
				case p.op == OpHexDg && q.op == OpHexDg && p.a == q.a && p.c>>1 == 1 && q.c>>1 == 0 && p.a.w < 8:
					r[i] = m.x.ZExt(p.a, 8)
				case p.isConst() && q.isConst():
					d, err := hex.DecodeString(string([]byte{byte(p.c), byte(q.c)}))
					if err != nil {
						return notHandled
					}
					r[i] = mkConst(8, uint64(d[0]))
				default:
					return notHandled
				}
			}
			return Tuple{r, nilErr()}
		},

		// ---- math
		"math.Float64bits": str(func(m *Machine, a []Value) Value {
			f := a[0].(Float)
			if f.t != nil {
				return f.t
			}
			return mkConst(64, math.Float64bits(f.c))
		}),
		"math.Float64frombits": str(func(m *Machine, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return Float{w: 64, c: math.Float64frombits(t.c)}
			}
			return Float{w: 64, t: t}
		}),
		"math/bits.LeadingZeros64": func(m *Machine, fr *Frame, a []Value) Value {
			if t := a[0].(*Term); t.isConst() {
				return i64(bits.LeadingZeros64(t.c))
			}
			return notHandled
		},

		// ---- reflect / errors
		"reflect.TypeOf": str(func(m *Machine, a []Value) Value {
			v := a[0].(Iface)
			if v.t == nil {
				return Iface{}
			}
			return Iface{t: rtypeMarker, v: &Native{kind: "rtype", v: v.t}}
		}),
		"reflect.DeepEqual": str(func(m *Machine, a []Value) Value { return m.deepEqual(a[0].(Iface), a[1].(Iface)) }),
		"errors.Is":         errorsIs, "errors.As": errorsAs,
		"internal/reflectlite.TypeOf": str(func(m *Machine, a []Value) Value {
			v := a[0].(Iface)
			if v.t == nil {
				return Iface{}
			}
			return Iface{t: rtypeMarker, v: &Native{kind: "rtype", v: v.t}}
		}),

		// ---- sort
		"sort.SliceStable": func(m *Machine, fr *Frame, a []Value) Value {
			m.sortSlice(fr, a[0].(Iface).v.(Slice), a[1], true)
			return nil
		},
		"sort.Slice": func(m *Machine, fr *Frame, a []Value) Value {
			m.sortSlice(fr, a[0].(Iface).v.(Slice), a[1], false)
			return nil
		},

		// ---- sync (single-threaded interpretation)
		"(*sync.Once).Do": func(m *Machine, fr *Frame, a []Value) Value {
			k := a[0].(*Value)
			if _, ok := m.natives[k]; !ok {
				m.natives[k] = true
				m.call(fr, a[1], nil)
			}
			return nil
		},
		"(*sync.WaitGroup).Add": func(m *Machine, fr *Frame, a []Value) Value {
			m.wg(a[0], int(int64(m.concretize(a[1].(*Term)))))
			return nil
		},
		"(*sync.WaitGroup).Done": func(m *Machine, fr *Frame, a []Value) Value { m.wg(a[0], -1); return nil },
		"(*sync.WaitGroup).Wait": func(m *Machine, fr *Frame, a []Value) Value {
			m.blockUntil(func() bool { c, _ := m.natives[a[0].(*Value)].(int); return c == 0 })
			return nil
		},
		"(*sync.WaitGroup).Go": func(m *Machine, fr *Frame, a []Value) Value {
			m.wg(a[0], 1)
			m.spawn(fr, &NativeFn{name: "wg.Go", f: func(m *Machine, _ []Value) Value {
				m.call(nil, a[1], nil)
				m.wg(a[0], -1)
				return nil
			}}, nil)
			return nil
		},
		"(*sync.Pool).Get": func(m *Machine, fr *Frame, a []Value) Value {
			st := (*a[0].(*Value)).(Struct)
			f := st[len(st)-1]
			if isNilFn(f) {
				return Iface{}
			}
			return m.call(fr, f, nil)
		},
		"(*sync.Pool).Put": nop,

		"time.Now":             func(m *Machine, fr *Frame, a []Value) Value { m.unsupported("time.Now"); return nil },
		"runtime.SetFinalizer": nop, "runtime.KeepAlive": nop,
		"time.Duration.String": nil,
		"(*verif/harness/nd.Sink).Write": func(m *Machine, fr *Frame, a []Value) Value {
			st := (*a[0].(*Value)).(Struct)
			if l, ok := a[1].(LazyBytes); ok {
				st[0] = m.concat(st[0].(*Str), l.s)
				return Tuple{i64(0), nilErr()}
			}
			b := a[1].(Slice)
			st[0] = m.concat(st[0].(*Str), m.bytesToStr(b))
			return Tuple{i64(len(b)), nilErr()}
		},
		"(time.Duration).String": func(m *Machine, fr *Frame, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return notHandled
			}
			return &Str{lz: &Lazy{atom: durationAtom(t), f: func(m *Machine) *Str { m.unsupported("rendering a symbolic duration"); return nil }}}
		},
		"unicode/utf8.ValidString": func(m *Machine, fr *Frame, a []Value) Value {
			if s := m.force(a[0].(*Str)); s.concrete() {
				return mkBool(utf8.ValidString(s.s))
			}
			return notHandled
		},
	}
	delete(intrinsics, "time.Duration.String")
	for k, v := range ndIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range osIntrinsics {
		intrinsics[k] = v
	}
	addMath()
	for k, v := range stdIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range modelIntrinsics {
		intrinsics[k] = v
	}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
var rtypeMarker types.Type = types.NewNamed(types.NewTypeName(0, nil, "rtype!", nil), types.NewStruct(nil, nil), nil)

func concStr1(f func(string) string) func(m *Machine, a []Value) Value {
	return func(m *Machine, a []Value) Value {
		s := argStr(m, a[0])
		if s.concrete() {
			return cstr(f(s.s))
		}
		return notHandled
	}
}

func countByte(m *Machine, a []Value) Value {
	n := 0
	for _, t := range bytesOf(m, a[0]) {
		if m.branch(m.x.Eq(t, a[1].(*Term))) {
			n++
		}
	}
	return i64(n)
}

func (m *Machine) wg(v Value, d int) {
	k := v.(*Value)
	c, _ := m.natives[k].(int)
	m.natives[k] = c + d
}

func (m *Machine) formatInt(a []Value, signed bool) Value {
	base := int(m.concretize(a[1].(*Term)))
	t := a[0].(*Term)
	if base == 10 {
		return m.decimal(t, signed)
	}
	if t.isConst() {
		if signed {
			return cstr(strconv.FormatInt(int64(t.c), base))
		}
		return cstr(strconv.FormatUint(t.c, base))
	}
	if base == 16 {
		return m.fmtInt(nil, fspec{verb: 'x'}, t, signed)
	}
	return notHandled
}

func (m *Machine) parseIntrin(fr *Frame, a []Value, signed bool) Value {
	s := argStr(m, a[0])
	base := int(int64(m.concretize(a[1].(*Term))))
	size := int(int64(m.concretize(a[2].(*Term))))
	if s.concrete() {
		if signed {
			if v, err := strconv.ParseInt(s.s, base, size); err == nil {
				return Tuple{mkConst(64, uint64(v)), nilErr()}
			}
		} else if v, err := strconv.ParseUint(s.s, base, size); err == nil {
			return Tuple{mkConst(64, v), nilErr()}
		}
		return notHandled
	}
	if v, ok := m.parseUintFast(s, base, size, signed); ok {
		return v
	}
	return notHandled
}

// sortSlice: insertion sort with symbolic comparisons decided by forking.
// sortSlice runs the sort package's own algorithm, with a swap of its own instead of one by reflection.
func (m *Machine) sortSlice(fr *Frame, s Slice, less Value, stable bool) {
	swap := &NativeFn{name: "swap", f: func(m *Machine, a []Value) Value {
		i, j := int(m.concretize(a[0].(*Term))), int(m.concretize(a[1].(*Term)))
		x, y := copyVal(s[i]), copyVal(s[j])
		m.store(&s[i], y)
		m.store(&s[j], x)
		return nil
	}}
	p := m.P.pkgs["sort"]
	data, n := Struct{less, swap}, len(s)
	if stable {
		m.callSSA(fr, p.Func("stable_func"), []Value{data, i64(n)}, nil)
	} else {
		m.callSSA(fr, p.Func("pdqsort_func"), []Value{data, i64(0), i64(n), i64(bits.Len(uint(n)))}, nil)
	}
}

// deepEqual returns a term for reflect.DeepEqual.
func (m *Machine) deepEqual(a, b Iface) *Term {
	if a.t == nil || b.t == nil {
		return mkBool(a.t == nil && b.t == nil)
	}
	if a.t != b.t {
		return tFalse
	}
	return m.deepEq(a.v, b.v)
}

func (m *Machine) deepEq(a, b Value) *Term {
	switch x := a.(type) {
	case Iface:
		return m.deepEqual(x, b.(Iface))
	case Struct:
		y := b.(Struct)
		r := tTrue
		for i := range x {
			r = m.x.BAnd(r, m.deepEq(x[i], y[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := tTrue
		for i := range x {
			r = m.x.BAnd(r, m.deepEq(x[i], y[i]))
		}
		return r
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return tFalse
		}
		r := tTrue
		for i := range x {
			r = m.x.BAnd(r, m.deepEq(x[i], y[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case *Value:
		y := b.(*Value)
		if x == y {
			return tTrue
		}
		if x == nil || y == nil {
			return tFalse
		}
		return m.deepEq(*x, *y)
	case *Map:
		y := b.(*Map)
		if x == y {
			return tTrue
		}
		if x == nil || y == nil || len(x.ents) != len(y.ents) {
			return tFalse
		}
		r := tTrue
		for _, e := range x.ents {
			i := m.mapFind(y, e.k)
			if i < 0 {
				return tFalse
			}
			r = m.x.BAnd(r, m.deepEq(e.v, y.ents[i].v))
		}
		return r
	case *ssa.Function, *Closure:
		return mkBool(isNilFn(a) && isNilFn(b))
	}
	return m.equal(nil, a, b)
}

func pkgIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Pkg == nil {
		return nil
	}
	p := fn.Pkg.Pkg.Path()
	switch p {
	case "sync/atomic", "internal/runtime/atomic":
		return atomicIntrinsic(fn, name)
	}
	return nil
}

func (m *Machine) appendStr(dst Value, s *Str) Value {
	d, _ := dst.(Slice)
	r := append(Slice{}, d...)
	for _, b := range m.force(s).bytes() {
		r = append(r, b)
	}
	return r
}
