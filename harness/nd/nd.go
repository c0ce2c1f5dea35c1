// Package nd is the boundary between a harness and the checker.  The symbolic
// engine intercepts every function of this package; compiled natively, the same
// functions read a concrete assignment so that a counterexample (or a path
// witness) can be replayed against the real build.
package nd

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
)

type Input struct {
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Outcome struct {
	Result string   `json:"result"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Tag    string   `json:"tag"`
	Used   []Input  `json:"used"`
}

// Ended is panicked to end a native run early.
type Ended struct{ Outcome }

var (
	In   []Input
	Pos  int
	Obs  []string
	Tier string
	Dir  string

	// Extend is not 0 where a run goes on with pseudo-random values after its
	// inputs are used up, and Vary where the inputs other than choices are
	// replaced by such values too.
	Extend uint64
	Vary   bool
	Used   []Input
	Tag    string
)

func end(result, msg string) {
	panic(Ended{Outcome{Result: result, Msg: msg, Obs: Obs, Tag: Tag, Used: Used}})
}

func take(kind string) uint64 { return takeIn(kind, 0, 0) }

// takeIn reads the next input; lo and hi limit the values made up for ints and
// choices.
func takeIn(kind string, lo, hi int64) uint64 {
	if Pos >= len(In) && Extend == 0 {
		end("diverged", "inputs exhausted at "+kind)
	}
	v := Input{Kind: kind}
	if Pos < len(In) {
		v = In[Pos]
		Pos++
		if v.Kind != kind {
			end("diverged", "input kind "+v.Kind+" where "+kind+" is read")
		}
		if Vary && kind != "choose" && next()%4 != 0 {
			v.Val = makeUp(kind, lo, hi)
		}
	} else {
		v.Val = makeUp(kind, lo, hi)
	}
	if Extend != 0 {
		Used = append(Used, v)
	}
	return v.Val
}

func next() uint64 {
	Extend += 0x9e3779b97f4a7c15
	z := Extend
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func makeUp(kind string, lo, hi int64) uint64 {
	z := next()
	switch kind {
	case "int", "choose":
		n := uint64(hi-lo) + 1
		if n == 0 {
			return z
		}
		if kind == "int" && z&7 == 0 {
			return uint64([]int64{lo, hi}[z>>3&1])
		}
		return uint64(lo) + (z>>8)%n
	case "bool":
		return z >> 8 & 1
	case "u8":
		switch z & 7 {
		case 0:
			return []uint64{0, 1, 63, 64, 126, 127, 128, 255}[z>>8&7]
		case 1:
			return z >> 8 & 0xff
		case 2, 3:
			return 'a' + (z>>8)%26
		case 4:
			return z >> 8 & 0x0f
		}
		return z >> 8 & 0x7f
	}
	w := map[string]uint{"u16": 16, "u32": 32, "u64": 64}[kind]
	v := z >> (z & 63)
	if w < 64 {
		v &= 1<<w - 1
	}
	return v
}

// arbitrary values
func Byte() byte  { return byte(take("u8")) }
func U16() uint16 { return uint16(take("u16")) }
func U32() uint32 { return uint32(take("u32")) }
func U64() uint64 { return take("u64") }
func Bool() bool  { return take("bool") == 1 }
func Int(lo, hi int) int {
	v := int(int64(takeIn("int", int64(lo), int64(hi))))
	if v < lo || v > hi {
		end("diverged", "int out of range")
	}
	return v
}

// Choose forks over 0..n-1.
func Choose(n int) int {
	if n <= 1 {
		takeIn("choose", 0, 0)
		return 0
	}
	return int(takeIn("choose", 0, int64(n)-1))
}

// Pick forks over the feasible values of a symbolic int.
func Pick(n int) int { return n }

func Assume(c bool) {
	if !c {
		end("assume", "")
	}
}

func Assert(c bool, msg string) {
	if !c {
		end("assert", msg)
	}
}

func Fail(msg string) { end("assert", msg) }
func Stop()           { end("ok", "") }
func Reach(string)    {}
func Thorough() bool  { return Tier == "thorough" }

// Finding tags the rest of this run with a listed defect when c holds.
func Finding(tag string, c bool) bool {
	if c {
		Tag = tag
	}
	return c
}

func TempDir() string {
	d := filepath.Join(Dir, "files")
	os.MkdirAll(d, 0o755)
	return d
}

func Implies(a, b bool) bool { return !a || b }
func And(c ...bool) bool {
	for _, v := range c {
		if !v {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, v := range c {
		if v {
			return true
		}
	}
	return false
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func EqStr(a, b string) bool   { return a == b }
func DeepEq(a, b any) bool     { return reflect.DeepEqual(a, b) }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Sink is a writer that keeps what is written to it.
type Sink struct{ S string }

func (s *Sink) Write(p []byte) (int, error) {
	s.S += string(p)
	return len(p), nil
}

func Observe(label string, vals ...any) {
	var p []string
	for _, v := range vals {
		p = append(p, render(reflect.ValueOf(v)))
	}
	Obs = append(Obs, label+"="+strings.Join(p, ","))
}

func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "<nil>"
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		switch v.Kind() {
		case reflect.Bool:
			return fmt.Sprint(v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return fmt.Sprint(v.Int())
		}
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Slice, reflect.Array:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "…"
}
