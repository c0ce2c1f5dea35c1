package selftest

import (
	"context"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"text/template"

	"verif/harness/nd"

	"bytes"
	"iter"
)

func X20_Regexp() {
	s := string([]byte{'a', nd.Byte(), 'b', '1', '2'})
	re := regexp.MustCompile(`([a-z])([0-9]+)`)
	nd.Observe("FindStringSubmatch", re.FindStringSubmatch(s))
	nd.Observe("FindStringIndex", re.FindStringIndex(s), re.MatchString(s))
	nd.Observe("FindString", re.FindString(s), re.NumSubexp())
	nd.Observe("Match", re.Match([]byte(s)), re.FindSubmatch([]byte(s)) != nil)
}

func X20_RegexpAll() {
	s := string([]byte{'a', nd.Byte(), 'b', '1', '2'})
	re := regexp.MustCompile(`[0-9]`)
	nd.Observe("FindAllString", re.FindAllString(s, -1))
	nd.Observe("ReplaceAllString", re.ReplaceAllString(s, "x"))
	nd.Observe("Split", re.Split(s, -1))
	nd.Observe("ReplaceAllStringFunc", re.ReplaceAllStringFunc(s, strings.ToUpper))
	nd.Observe("FindAllStringSubmatch", len(re.FindAllStringSubmatch(s, -1)))
	nd.Observe("FindAllStringIndex", len(re.FindAllStringIndex(s, -1)))
	nd.Observe("QuoteMeta", regexp.QuoteMeta("a.b"))
	nd.Observe("ReplaceAllLiteralString", re.ReplaceAllLiteralString(s, "$1"))
}

func X20_RegexpNamed() {
	s := string([]byte{'k', '=', nd.Byte(), '7'})
	re := regexp.MustCompile(`(?P<key>\w+)\s*=\s*(?P<val>[^ ]+)`)
	m := re.FindStringSubmatch(s)
	nd.Observe("SubexpNames", re.SubexpNames(), re.SubexpIndex("val"))
	if m != nil {
		nd.Observe("named", m[re.SubexpIndex("key")], m[re.SubexpIndex("val")])
	}
	ok, err := regexp.MatchString(`^k=.7$`, s)
	nd.Observe("MatchString", ok, err == nil)
	_, err = regexp.Compile("(")
	nd.Observe("Compile", err != nil)
}

type jt struct {
	A int             `json:"a"`
	B string          `json:"b,omitempty"`
	C []byte          `json:"c"`
	D *jt             `json:"d,omitempty"`
	E map[string]int  `json:"e,omitempty"`
	F json.RawMessage `json:"f,omitempty"`
	G any             `json:"g,omitempty"`
	h int
}

func X21_JSON() {
	v := jt{A: int(nd.Byte()), B: "x<", C: []byte{1, 2}, D: &jt{A: 2}, E: map[string]int{"z": 1, "y": 2}, G: []int{1}}
	b, err := json.Marshal(v)
	nd.Observe("Marshal", string(b), err == nil)
	b, err = json.MarshalIndent(v, ">", " ")
	nd.Observe("MarshalIndent", string(b), err == nil)
	var w jt
	err = json.Unmarshal(b, &w)
	nd.Observe("Unmarshal", err == nil)
}

func X21_JSONRound() {
	v := jt{A: int(nd.Byte()), B: "x", C: []byte{1, 2}, D: &jt{A: 2}, E: map[string]int{"z": 1, "y": 2}}
	b, _ := json.Marshal(v)
	var w jt
	err := json.Unmarshal(b, &w)
	nd.Observe("Unmarshal", err == nil, w.A, w.B, w.C, w.D.A, w.E["z"])
	var m map[string]any
	err = json.Unmarshal([]byte(`{"a":1,"b":[true,null,"x"]}`), &m)
	nd.Observe("any", err == nil, len(m))
	err = json.Unmarshal([]byte(`{"a":"x"}`), &w)
	nd.Observe("type error", err != nil)
}

func X21_JSONEncoder() {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetIndent("", "  ")
	err := e.Encode(jt{A: int(nd.Byte()), B: "<"})
	nd.Observe("Encode", b.String(), err == nil)
	var c bytes.Buffer
	json.Indent(&c, []byte(`{"a":1}`), "", " ")
	nd.Observe("Indent", c.String())
	c.Reset()
	json.Compact(&c, []byte(`{ "a" : 1 }`))
	nd.Observe("Compact", c.String())
}

func X21_JSONDecoder() {
	d := json.NewDecoder(strings.NewReader(`{"a":` + fmt.Sprint(nd.Byte()) + `} {"a":2,"zz":1}`))
	var v jt
	err := d.Decode(&v)
	nd.Observe("first", v.A, err == nil, d.More())
	d.DisallowUnknownFields()
	err = d.Decode(&v)
	nd.Observe("second", err != nil)
}

func X22_Template() {
	t := template.Must(template.New("x").Funcs(template.FuncMap{"up": strings.ToUpper}).Parse(`{{define "l"}}[{{.}}]{{end}}{{range $i, $e := .List}}{{if $i}}, {{end}}{{template "l" $e}}{{else}}none{{end}}{{with .Name}} {{. | up | printf "%-5s|"}}{{end}} {{len .List}} {{.N | printf "%03d"}}{{/* c */}} {{eq .N 3}} {{and .Name "x"}} {{index .List 0}}`))
	var b bytes.Buffer
	err := t.Execute(&b, struct {
		List []int
		Name string
		N    byte
	}{[]int{1, 2}, "abc", nd.Byte()})
	nd.Observe("Execute", b.String(), err == nil)
}

func X22_Sscan() {
	var a int
	var s string
	n, err := fmt.Sscanf("12 abc", "%d %s", &a, &s)
	nd.Observe("Sscanf", n, err == nil, a, s)
	n, err = fmt.Sscan("7", &a)
	nd.Observe("Sscan", n, err == nil, a)
	n, err = fmt.Sscanf("0x1f", "0x%x", &a)
	nd.Observe("hex", n, err == nil, a)
}

func X22_SscanSym() {
	var a byte
	n, err := fmt.Sscanf(fmt.Sprintf("%d", nd.Byte()), "%d", &a)
	nd.Observe("Sscanf", n, err == nil, a)
}

type pt struct{ X, Y int }

func (p pt) String() string { return fmt.Sprintf("(%d,%d)", p.X, p.Y) }

func X22_Fmt() {
	v := nd.Byte()
	nd.Observe("Append", fmt.Appendf(nil, "%d", v), fmt.Append(nil, "a", 1), fmt.Appendln(nil, "x"))
	nd.Observe("verbs", fmt.Sprintf("%v %+v %d %5d|%-5d|%05d %x %X %02X %c %q %U", pt{1, int(v)}, pt{1, 2}, v, v, v, v, v, v, v, 'x', 'y', 'z'))
	nd.Observe("strs", fmt.Sprintf("%s|%10s|%-10s|%.2s|%q|%x|% X|%v", "abc", "abc", "abc", "abc", "abc", "abc", []byte{1, 2}, []string{"a"}))
	nd.Observe("misc", fmt.Sprintf("%t %v %p %T %v %v %%", true, nil, nil, v, []int{1}, map[string]int{"a": 1}))
	nd.Observe("structs", fmt.Sprintf("%v %+v %#v", struct {
		A int
		B string
	}{1, "x"}, struct{ A int }{1}, pt{1, 2}))
	nd.Observe("width", fmt.Sprintf("%*d|%-*s|", 5, 7, 4, "a"), fmt.Sprintf("%[2]d %[1]d", 1, 2))
	nd.Observe("bad", fmt.Sprintf("%d", "x"), fmt.Sprintf("%d"), fmt.Sprintf("x", 1))
	nd.Observe("bin", fmt.Sprintf("%08b %o %#x %+d", 5, 8, 255, 3))
	nd.Observe("ptr", fmt.Sprint(&pt{3, 4}), fmt.Sprint(errors.New("e")), fmt.Sprintln("a", 1, "b"))
}

func X22_FmtBin() {
	v := nd.Byte()
	nd.Observe("bin", fmt.Sprintf("%08b", v), fmt.Sprintf("%#x", v), fmt.Sprintf("%+d", v), fmt.Sprintf("%c", 'a'+v&3))
}

func X23_CSV() {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write([]string{"a", string([]byte{nd.Byte()}), "c d"})
	w.WriteAll([][]string{{"1", "2"}, {"", "\"x"}})
	nd.Observe("csv", b.String(), w.Error() == nil)
	w.UseCRLF = true
	r := csv.NewReader(strings.NewReader("a,b\n\"c,d\",e\n"))
	all, err := r.ReadAll()
	nd.Observe("ReadAll", len(all), err == nil, all[1])
}

func X23_Files() {
	d := nd.TempDir()
	p := filepath.Join(d, "a.bin")
	err := os.WriteFile(p, []byte{1, nd.Byte()}, 0o644)
	b, err2 := os.ReadFile(p)
	nd.Observe("WriteFile", err == nil, b, err2 == nil)
	f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
	f.WriteString("xy")
	f.Close()
	st, err := os.Stat(p)
	nd.Observe("Stat", st.Size(), st.IsDir(), st.Name(), err == nil)
	_, err = os.Stat(p + ".none")
	nd.Observe("none", os.IsNotExist(err), errors.Is(err, os.ErrNotExist))
	_, err = os.Open(filepath.Join(d, "no", "x"))
	nd.Observe("Open", err != nil)
	err = os.MkdirAll(filepath.Join(d, "q", "r"), 0o755)
	g, err2 := os.Create(filepath.Join(d, "q", "r", "f"))
	fmt.Fprintf(g, "%d\n", 5)
	err3 := g.Close()
	nd.Observe("Create", err == nil, err2 == nil, err3 == nil)
	h, _ := os.Open(filepath.Join(d, "q", "r", "f"))
	all, err := io.ReadAll(h)
	h.Close()
	nd.Observe("ReadAll", all, err == nil)
	err = os.Rename(p, p+"2")
	_, err2 = os.Stat(p)
	nd.Observe("Rename", err == nil, err2 == nil)
	err = os.Remove(p + "2")
	nd.Observe("Remove", err == nil)
	tf, err := os.CreateTemp(d, "x*")
	nd.Observe("CreateTemp", err == nil, strings.HasPrefix(tf.Name(), d))
	tf.Close()
	es, err := os.ReadDir(filepath.Join(d, "q"))
	nd.Observe("ReadDir", len(es), err == nil)
}

type shape interface{ Area() int }
type sq struct{ n int }
type rc struct {
	sq
	m int
}

func (s sq) Area() int  { return s.n * s.n }
func (r *rc) Area() int { return r.n * r.m }

type num interface{ ~int | ~uint8 }

func sum[T num](l ...T) (r T) {
	for _, v := range l {
		r += v
	}
	return
}

func mapOf[T, U any](l []T, f func(T) U) []U {
	r := make([]U, 0, len(l))
	for _, v := range l {
		r = append(r, f(v))
	}
	return r
}

type stack[T any] struct{ items []T }

func (s *stack[T]) Push(v T) { s.items = append(s.items, v) }
func (s *stack[T]) Pop() (v T, ok bool) {
	if len(s.items) == 0 {
		return
	}
	v = s.items[len(s.items)-1]
	s.items = s.items[:len(s.items)-1]
	return v, true
}

func count(n int) iter.Seq2[int, string] {
	return func(yield func(int, string) bool) {
		for i := range n {
			if !yield(i, strings.Repeat("x", i)) {
				return
			}
		}
	}
}

func X30_Lang() {
	v := int(nd.Byte())
	var s shape = sq{v & 3}
	nd.Observe("iface", s.Area(), shape(&rc{sq{2}, v}).Area())
	switch x := s.(type) {
	case *rc:
		nd.Observe("rc", x.m)
	case sq:
		nd.Observe("sq", x.n)
	}
	f := s.Area
	g := sq.Area
	nd.Observe("method values", f(), g(sq{5}))
	nd.Observe("generic", sum(1, 2, v), sum[uint8](250, uint8(v)), mapOf([]int{1, v}, func(i int) string { return fmt.Sprint(i) }))
	st := stack[string]{}
	st.Push("a")
	st.Push("b")
	p, ok := st.Pop()
	nd.Observe("stack", p, ok)
	for i, x := range count(5) {
		if i == 3 {
			break
		}
		nd.Observe("iter", i, x)
	}
	next, stop := iter.Pull2(count(3))
	i, x, more := next()
	stop()
	nd.Observe("pull", i, x, more)
outer:
	for i := range 4 {
		for j := 0; ; j++ {
			if j > i {
				continue outer
			}
			if i*j == 2 {
				break outer
			}
			nd.Observe("loop", i, j)
		}
	}
	k := 0
again:
	k++
	if k < 3 {
		goto again
	}
	nd.Observe("goto", k)
	var arr [4]byte
	copy(arr[1:], []byte{9, byte(v)})
	brr := arr
	brr[0] = 1
	nd.Observe("arrays", arr[:], brr[:], arr == brr)
	sl := arr[:2:3]
	sl = append(sl, 7)
	sl = append(sl, 8)
	sl[0] = 99
	nd.Observe("append", arr[:], sl, len(sl))
	q := [4]byte(arr[:])
	pa := (*[2]byte)(arr[1:3])
	pa[0] = 42
	nd.Observe("conv", q[:], arr[:])
	var np *rc
	nd.Observe("nil", np == nil, shape(np) == nil)
	c := 0
	func() {
		for i := 0; i < 3; i++ {
			defer func() { c = c*10 + i }()
		}
	}()
	nd.Observe("defer", c)
	switch {
	case v < 10:
		nd.Observe("switch", "small")
		fallthrough
	case v < 20:
		nd.Observe("switch", "medium")
	default:
		nd.Observe("switch", "large")
	}
	nd.Observe("shifts", uint8(v)<<3, int8(v)>>1, v&^5, ^v, uint16(v)<<9>>3, -v%7, v/7)
	type pair struct {
		a, b any
	}
	nd.Observe("eq", pair{1, "x"} == pair{1, "x"}, any(v) == any(3))
	str := "héllo"
	for i, r := range str {
		nd.Observe("runes", i, int(r))
	}
	nd.Observe("struct conv", pt(struct{ X, Y int }{1, 2}).Y)
}

func X31_Sync() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	total := 0
	v := int(nd.Byte())
	for i := range 3 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			total += i * v
		}()
	}
	wg.Wait()
	nd.Observe("total", total)
	var once sync.Once
	n := 0
	once.Do(func() { n++ })
	once.Do(func() { n++ })
	nd.Observe("once", n)
	var a atomic.Int32
	a.Add(3)
	a.Store(a.Load() + 1)
	nd.Observe("atomic", a.Load(), a.CompareAndSwap(4, 9), a.Swap(2))
	var b int64
	atomic.AddInt64(&b, 5)
	nd.Observe("atomic func", atomic.LoadInt64(&b))
	ov := sync.OnceValue(func() int { n++; return n })
	nd.Observe("OnceValue", ov(), ov())
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	buf := pool.Get().(*bytes.Buffer)
	buf.WriteString("x")
	pool.Put(buf)
	nd.Observe("pool", buf.String())
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	var fl atomic.Bool
	fl.Store(true)
	nd.Observe("bool", fl.Load())
	var ap atomic.Pointer[pt]
	ap.Store(&pt{1, 2})
	nd.Observe("ptr", ap.Load().X)
}

func X31_SyncMap() {
	var m sync.Map
	m.Store("a", 1)
	x, ok := m.Load("a")
	_, loaded := m.LoadOrStore("b", 2)
	nd.Observe("map", x.(int), ok, loaded)
	n := 0
	m.Range(func(k, v any) bool { n += v.(int); return true })
	nd.Observe("range", n)
}

func X31_Chan() {
	c := make(chan int)
	done := make(chan struct{})
	v := int(nd.Byte())
	go func() {
		defer close(c)
		for i := range 3 {
			select {
			case c <- i * v:
			case <-done:
				return
			}
		}
	}()
	n := 0
	for x := range c {
		n += x
	}
	close(done)
	_, ok := <-c
	nd.Observe("sum", n, ok)
	b := make(chan string, 2)
	b <- "x"
	select {
	case b <- "y":
	default:
	}
	select {
	case b <- "z":
		nd.Observe("bad")
	default:
		nd.Observe("full", len(b), cap(b))
	}
	results := make(chan error, 3)
	for i := range 3 {
		go func() {
			if i == 1 {
				results <- errors.New("one")
				return
			}
			results <- nil
		}()
	}
	e := 0
	for range 3 {
		if err := <-results; err != nil {
			e++
		}
	}
	nd.Observe("errors", e)
}

func X31_Context() {
	ctx, cancel := context.WithCancel(context.Background())
	ctx = context.WithValue(ctx, "k", 3)
	nd.Observe("value", ctx.Value("k").(int), ctx.Err() == nil)
	cancel()
	<-ctx.Done()
	nd.Observe("err", errors.Is(ctx.Err(), context.Canceled))
}

func X32_Reflect() {
	v := pt{1, int(nd.Byte())}
	t := reflect.TypeOf(v)
	nd.Observe("type", t.Name(), t.String(), t.Kind() == reflect.Struct)
	nd.Observe("DeepEqual", reflect.DeepEqual(v, pt{1, 2}), reflect.DeepEqual([]int{1}, []int{1}))
}

func X32_ReflectValue() {
	v := pt{1, int(nd.Byte())}
	r := reflect.ValueOf(v)
	nd.Observe("value", r.NumField(), r.Field(1).Int(), r.Type().Field(0).Name)
}

func X32_SortIface() {
	l := byY{{1, 3}, {2, int(small())}, {3, 2}}
	sort.Sort(l)
	nd.Observe("sorted", l[0].X, l[1].X, l[2].X)
}

type byY []pt

func (l byY) Len() int           { return len(l) }
func (l byY) Less(i, j int) bool { return l[i].Y < l[j].Y }
func (l byY) Swap(i, j int)      { l[i], l[j] = l[j], l[i] }
