// Package selftest validates the engine: library code that is not used by the
// repository today but may be after a change runs with symbolic inputs, and what
// it yields is compared with native runs on the models of the paths.
package selftest

import (
	"bufio"
	"bytes"
	"cmp"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"maps"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/nd"
)

func small() byte { b := nd.Byte(); nd.Assume(b < 4); return b }

func X01_BytesBuffer() {
	b := bytes.NewBuffer([]byte{1, 2, nd.Byte(), 4})
	x, err := b.ReadByte()
	nd.Observe("ReadByte", x, err == nil)
	b.UnreadByte()
	nd.Observe("Next", b.Next(2), b.Len())
	b.WriteByte(nd.Byte())
	b.WriteString("abc")
	b.WriteRune('é')
	nd.Observe("Bytes", b.Bytes(), b.String(), b.Len())
	line, err := b.ReadBytes('b')
	nd.Observe("ReadBytes", line, err == nil)
	b.Truncate(2)
	s, err := b.ReadString('z')
	nd.Observe("ReadString", s, err == io.EOF)
	b.Reset()
	n, err := b.ReadFrom(strings.NewReader("hello"))
	nd.Observe("ReadFrom", n, err == nil)
	var w bytes.Buffer
	m, err := b.WriteTo(&w)
	nd.Observe("WriteTo", m, err == nil, w.String())
	b.Grow(10)
	nd.Observe("Available", b.Len())
}

func X01_BytesReader() {
	r := bytes.NewReader([]byte{1, nd.Byte(), 3, 4, 5})
	x, _ := r.ReadByte()
	p := make([]byte, 2)
	n, err := r.Read(p)
	nd.Observe("Read", x, n, err == nil, p, r.Len(), r.Size())
	o, err := r.Seek(1, io.SeekStart)
	nd.Observe("Seek", o, err == nil)
	n, err = r.ReadAt(p, 3)
	nd.Observe("ReadAt", n, err == nil, p)
	all, err := io.ReadAll(r)
	nd.Observe("ReadAll", all, err == nil)
	_, err = r.ReadByte()
	nd.Observe("EOF", err == io.EOF)
	r.Reset([]byte{9})
	n, err = io.ReadFull(r, p)
	nd.Observe("ReadFull", n, err == io.ErrUnexpectedEOF)
}

func X01_BytesFuncs() {
	c := nd.Byte()
	a := []byte{'a', c, 'b', ' ', 'c'}
	nd.Observe("HasPrefix", bytes.HasPrefix(a, []byte("ab")), bytes.HasSuffix(a, []byte(" c")))
	nd.Observe("IndexByte", bytes.IndexByte(a, 'b'), bytes.Contains(a, []byte("b ")), bytes.Count(a, []byte("b")))
	nd.Observe("Equal", bytes.Equal(a, []byte("aXb c")), bytes.Compare(a, []byte("aXb c")))
	nd.Observe("Clone", bytes.Clone(a))
	x, y, ok := bytes.Cut(a, []byte{' '})
	nd.Observe("Cut", x, y, ok)
	nd.Observe("Trim", bytes.TrimRight(a, "c "), bytes.TrimSuffix(a, []byte("c")), bytes.TrimPrefix(a, []byte("a")))
	nd.Observe("Repeat", bytes.Repeat(a, 2))
	nd.Observe("Join", bytes.Join([][]byte{a, {1}}, []byte(",")))
	nd.Observe("Replace", bytes.ReplaceAll(a, []byte(" "), []byte("__")))
}

func X01_BytesSplit() {
	c := nd.Byte()
	a := []byte{'a', c, 'b', ' ', 'c'}
	nd.Observe("Split", fmt.Sprint(len(bytes.Split(a, []byte(" ")))), len(bytes.Fields(a)))
	nd.Observe("TrimSpace", bytes.TrimSpace(a))
	nd.Observe("ToUpper", bytes.ToUpper(a[:1]), bytes.IndexAny(a, "bc"))
	nd.Observe("EqualFold", bytes.EqualFold([]byte("AbC"), []byte("aBc")))
}

func str() string { return string([]byte{'a', nd.Byte(), ' ', 'b', ':', 'c'}) }

func X02_Strings() {
	s := str()
	nd.Observe("Index", strings.Index(s, " b"), strings.IndexByte(s, 'b'), strings.LastIndex(s, "b"), strings.LastIndexByte(s, ':'))
	nd.Observe("Has", strings.HasPrefix(s, "ab"), strings.HasSuffix(s, ":c"), strings.Contains(s, "b:"), strings.Count(s, "b"))
	a, b, ok := strings.Cut(s, ":")
	nd.Observe("Cut", a, b, ok)
	a, ok = strings.CutPrefix(s, "a")
	b, ok2 := strings.CutSuffix(s, "d")
	nd.Observe("CutPrefix", a, ok, b, ok2)
	nd.Observe("Split", strings.Split(s, ":"), strings.SplitN(s, ":", 2), strings.SplitAfter(s, ":"))
	nd.Observe("Replace", strings.ReplaceAll(s, " ", "--"), strings.Replace(s, "b", "x", 1))
	nd.Observe("Trim", strings.Trim(s, "ac"), strings.TrimLeft(s, "a"), strings.TrimRight(s, "c:"), strings.TrimPrefix(s, "a"), strings.TrimSuffix(s, "c"))
	nd.Observe("Compare", strings.Compare(s, "ab b:c"), s < "ab b:c", s >= "aX")
	nd.Observe("Repeat", strings.Repeat(s, 3), strings.Join([]string{s, "x"}, "+"))
	nd.Observe("Clone", strings.Clone(s))
	var x strings.Builder
	x.WriteString(s)
	x.WriteByte(nd.Byte())
	x.WriteRune('♯')
	fmt.Fprintf(&x, "%d", 7)
	nd.Observe("Builder", x.String(), x.Len())
	x.Reset()
	x.Grow(10)
}

func X02_StringsUnicode() {
	s := str()
	nd.Observe("Fields", strings.Fields(s))
	nd.Observe("TrimSpace", strings.TrimSpace(s), strings.TrimFunc(s, unicode.IsLetter))
	nd.Observe("EqualFold", strings.EqualFold(s, "Ab b:c"), strings.ToUpper(s), strings.ToLower(s))
	nd.Observe("IndexFunc", strings.IndexFunc(s, unicode.IsDigit), strings.IndexRune(s, 'b'), strings.IndexAny(s, "bc"), strings.ContainsRune(s, 'z'), strings.ContainsAny(s, "z:"))
}

func X02_StringsMap() {
	s := str()
	nd.Assume(s[1] < 0x80)
	nd.Observe("Map", strings.Map(func(r rune) rune {
		if r == ' ' {
			return -1
		}
		return r + 1
	}, s))
	nd.Observe("FieldsFunc", strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ':' }))
	nd.Observe("Title", strings.Title("abc def"), strings.ToTitle("abc"))
	nd.Observe("runes", []rune(s), string([]rune{'a', 0x266f}), len([]rune("♯♭")))
	n := 0
	for i, r := range s {
		n += i * int(r)
	}
	nd.Observe("range", n)
}

func X02_Replacer() {
	s := str()
	nd.Observe("Replacer", strings.NewReplacer("♯", "#", "b", "x", ":", "").Replace(s))
	nd.Observe("Replacer1", strings.NewReplacer("a", "1", "b", "2").Replace(s))
	nd.Observe("Replacer2", strings.NewReplacer("\\", "\\\\").Replace(s))
}

func X02_StringsIter() {
	s := str()
	for p := range strings.SplitSeq(s, ":") {
		nd.Observe("SplitSeq", p)
	}
	for p := range strings.Lines("a\nb\nc") {
		nd.Observe("Lines", p)
	}
	for p := range strings.FieldsSeq("a b  c") {
		nd.Observe("FieldsSeq", p)
	}
}

func X02_StringsReader() {
	r := strings.NewReader(str())
	b, _ := r.ReadByte()
	ch, n, err := r.ReadRune()
	nd.Observe("ReadRune", b, ch, n, err == nil, r.Len())
	o, _ := r.Seek(-2, io.SeekEnd)
	all, _ := io.ReadAll(r)
	nd.Observe("Seek", o, all)
}

func X03_Scanner() {
	s := bufio.NewScanner(strings.NewReader("ab\nc" + str() + "\r\nlast"))
	for s.Scan() {
		nd.Observe("Scan", s.Text(), s.Bytes())
	}
	nd.Observe("Err", s.Err() == nil)
	w := bufio.NewScanner(strings.NewReader("a bc  d"))
	w.Buffer(make([]byte, 0, 100), 1000)
	w.Split(bufio.ScanWords)
	for w.Scan() {
		nd.Observe("Words", w.Text())
	}
}

func X03_Reader() {
	r := bufio.NewReader(bytes.NewReader([]byte{1, 2, nd.Byte(), 10, 5, 6, 7}))
	b, _ := r.ReadByte()
	p, err := r.Peek(2)
	nd.Observe("Peek", b, p, err == nil, r.Buffered())
	r.UnreadByte()
	l, err := r.ReadBytes(10)
	nd.Observe("ReadBytes", l, err == nil)
	n, err := r.Discard(1)
	nd.Observe("Discard", n, err == nil)
	s, err := r.ReadString(10)
	nd.Observe("ReadString", s, err == io.EOF)
	_, err = r.ReadByte()
	nd.Observe("EOF", err == io.EOF)
	line, pre, err := bufio.NewReaderSize(strings.NewReader("abc\ndef"), 16).ReadLine()
	nd.Observe("ReadLine", line, pre, err == nil)
}

func X03_Writer() {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	w.WriteByte(nd.Byte())
	w.WriteString("abc")
	w.Write([]byte{1, nd.Byte()})
	w.WriteRune('♭')
	fmt.Fprintf(w, "%03d", nd.Byte())
	nd.Observe("before", b.Len(), w.Buffered(), w.Available() > 0)
	err := w.Flush()
	nd.Observe("after", b.Bytes(), err == nil)
	rw := bufio.NewReadWriter(bufio.NewReader(&b), bufio.NewWriterSize(&b, 20))
	x, _ := rw.ReadByte()
	nd.Observe("rw", x)
}

func X04_IO() {
	src := []byte{1, nd.Byte(), 3, 4, 5, 6}
	var b bytes.Buffer
	n, err := io.Copy(&b, bytes.NewReader(src))
	nd.Observe("Copy", n, err == nil, b.Bytes())
	n, err = io.CopyN(&b, bytes.NewReader(src), 2)
	nd.Observe("CopyN", n, err == nil, b.Len())
	l, err := io.ReadAll(io.LimitReader(bytes.NewReader(src), 3))
	nd.Observe("LimitReader", l, err == nil)
	l, err = io.ReadAll(io.MultiReader(bytes.NewReader(src), strings.NewReader("x")))
	nd.Observe("MultiReader", l, err == nil)
	var c bytes.Buffer
	l, err = io.ReadAll(io.TeeReader(bytes.NewReader(src), &c))
	nd.Observe("TeeReader", l, c.Bytes())
	k, err := io.MultiWriter(&b, &c).Write([]byte{9})
	nd.Observe("MultiWriter", k, err == nil, b.Len(), c.Len())
	k, err = io.ReadAtLeast(bytes.NewReader(src), make([]byte, 4), 2)
	nd.Observe("ReadAtLeast", k, err == nil)
	sr := io.NewSectionReader(bytes.NewReader(src), 1, 3)
	l, err = io.ReadAll(sr)
	nd.Observe("SectionReader", l)
	k, err = io.WriteString(&c, "zz")
	nd.Observe("WriteString", k)
	io.Copy(io.Discard, bytes.NewReader(src))
	fmt.Fprintln(io.Discard, "x")
	io.NopCloser(&c).Close()
	// a copy through a type that hides WriterTo
	n, err = io.Copy(struct{ io.Writer }{&b}, struct{ io.Reader }{bytes.NewReader(src)})
	nd.Observe("Copy2", n, err == nil)
}

func X04_Pipe() {
	r, w := io.Pipe()
	v := nd.Byte()
	go func() {
		w.Write([]byte{1, v})
		w.CloseWithError(errors.New("done"))
	}()
	l, err := io.ReadAll(r)
	nd.Observe("Pipe", l, err != nil)
}

func X05_Binary() {
	b := []byte{nd.Byte(), nd.Byte(), 3, 4, 5, 6, 7, 8}
	nd.Observe("BE", binary.BigEndian.Uint16(b), binary.BigEndian.Uint32(b), binary.BigEndian.Uint64(b))
	nd.Observe("LE", binary.LittleEndian.Uint16(b), binary.LittleEndian.Uint32(b))
	v := nd.U32()
	binary.BigEndian.PutUint32(b, v)
	binary.BigEndian.PutUint16(b[4:], uint16(v))
	nd.Observe("Put", b)
	nd.Observe("Append", binary.BigEndian.AppendUint16(nil, uint16(v)), binary.BigEndian.AppendUint32([]byte{1}, v))
	nd.Observe("PutUvarint", binary.AppendUvarint(nil, uint64(v&0xff)))
}

type rec struct {
	A uint16
	B byte
	C [2]byte
	D int32
}

func X05_BinaryRead() {
	b := []byte{nd.Byte(), nd.Byte(), 3, 4, 5, 6, 7, 8, 9, 10}
	r := bytes.NewReader(b)
	var x uint16
	err := binary.Read(r, binary.BigEndian, &x)
	nd.Observe("u16", x, err == nil)
	var y uint32
	err = binary.Read(r, binary.BigEndian, &y)
	nd.Observe("u32", y, err == nil)
	z := make([]byte, 2)
	err = binary.Read(r, binary.BigEndian, z)
	nd.Observe("bytes", z, err == nil)
	err = binary.Read(r, binary.BigEndian, &y)
	nd.Observe("short", err == io.ErrUnexpectedEOF)
	err = binary.Read(r, binary.BigEndian, &y)
	nd.Observe("eof", err == io.EOF)
}

func X05_BinaryReadStruct() {
	b := []byte{nd.Byte(), nd.Byte(), 3, 4, 5, 6, 7, 8, 9, 10}
	var x rec
	err := binary.Read(bytes.NewReader(b), binary.BigEndian, &x)
	nd.Observe("struct", x.A, x.B, x.C[:], x.D, err == nil)
	var q []uint16 = make([]uint16, 3)
	err = binary.Read(bytes.NewReader(b), binary.LittleEndian, q)
	nd.Observe("slice", q, err == nil)
	nd.Observe("Size", binary.Size(x), binary.Size(uint32(1)))
}

func X05_BinaryWrite() {
	var w bytes.Buffer
	v := nd.U32()
	nd.Observe("err", binary.Write(&w, binary.BigEndian, v) == nil, binary.Write(&w, binary.BigEndian, uint16(v)) == nil, binary.Write(&w, binary.BigEndian, []byte{1, byte(v)}) == nil, binary.Write(&w, binary.BigEndian, int8(-1)) == nil)
	nd.Observe("out", w.Bytes())
	b, err := binary.Append([]byte{9}, binary.BigEndian, uint16(v))
	nd.Observe("Append", b, err == nil)
}

func X05_BinaryWriteStruct() {
	var w bytes.Buffer
	x := rec{nd.U16(), 2, [2]byte{nd.Byte(), 4}, -5}
	nd.Observe("err", binary.Write(&w, binary.BigEndian, x) == nil, binary.Write(&w, binary.BigEndian, []uint16{1, 2}) == nil)
	nd.Observe("out", w.Bytes())
}

func X06_Sort() {
	l := []int{int(small()), 2, int(small()), 1}
	sort.Ints(l)
	nd.Observe("Ints", l)
	s := []string{"b", string([]byte{nd.Byte()}), "a"}
	sort.Strings(s)
	nd.Observe("Strings", s)
	m := []rec{{A: 3}, {A: uint16(small()), B: 1}, {A: 2}}
	sort.Slice(m, func(i, j int) bool { return m[i].A < m[j].A })
	nd.Observe("Slice", m[0].A, m[1].A, m[2].A)
	sort.SliceStable(m, func(i, j int) bool { return m[i].B < m[j].B })
	nd.Observe("SliceStable", m[0].A, m[1].A, m[2].A)
	sort.Sort(sort.Reverse(sort.IntSlice(l)))
	nd.Observe("Reverse", l)
	nd.Observe("Search", sort.SearchInts([]int{1, 3, 5}, int(small())), sort.Search(4, func(i int) bool { return i >= 2 }), sort.IsSorted(sort.IntSlice(l)))
	sort.Stable(sort.StringSlice(s))
}

func X06_Slices() {
	a, b := int(small()), int(small())
	l := []int{a, 2, b, 1}
	nd.Observe("Contains", slices.Contains(l, 3), slices.Index(l, 1), slices.IndexFunc(l, func(v int) bool { return v == 0 }))
	nd.Observe("Max", slices.Max(l), slices.Min(l), max(a, b, 2), min(a, b))
	c := slices.Clone(l)
	slices.Reverse(c)
	nd.Observe("Reverse", c)
	slices.Sort(c)
	nd.Observe("Sort", c, slices.IsSorted(c))
	i, ok := slices.BinarySearch(c, 2)
	nd.Observe("BinarySearch", i, ok)
	nd.Observe("Equal", slices.Equal(c, l), slices.Compare(c, l))
	d := slices.Delete(slices.Clone(l), 1, 2)
	nd.Observe("Delete", d, slices.Insert(slices.Clone(d), 1, 7, 8), slices.Concat(d, l), slices.Compact([]int{1, 1, 2}))
	slices.SortFunc(d, func(x, y int) int { return cmp.Compare(y, x) })
	nd.Observe("SortFunc", d)
	r := []rec{{A: 3}, {A: uint16(small()), B: 1}, {A: 2}}
	slices.SortStableFunc(r, func(x, y rec) int { return int(x.A) - int(y.A) })
	nd.Observe("SortStableFunc", r[0].A, r[1].A, r[2].A)
	nd.Observe("Repeat", slices.Repeat([]int{1, 2}, 2), slices.ContainsFunc(l, func(v int) bool { return v > 3 }), slices.EqualFunc(l, l, func(a, b int) bool { return a == b }))
	for i, v := range slices.Backward(l) {
		nd.Observe("Backward", i, v)
	}
	nd.Observe("Collect", slices.Collect(slices.Values(l)), slices.Grow(l, 3), slices.Clip(l))
	for c := range slices.Chunk(l, 3) {
		nd.Observe("Chunk", c)
	}
	clear(c)
	nd.Observe("clear", c)
}

func X06_Maps() {
	k := int(small())
	m := map[int]string{1: "a", 2: "b"}
	m[k] = "c"
	keys := slices.Sorted(maps.Keys(m))
	nd.Observe("Keys", keys, len(m))
	vals := slices.Sorted(maps.Values(m))
	nd.Observe("Values", vals)
	c := maps.Clone(m)
	delete(c, 1)
	nd.Observe("Clone", len(c), maps.Equal(c, m))
	maps.Copy(c, map[int]string{9: "x"})
	maps.DeleteFunc(c, func(k int, v string) bool { return k == 9 })
	nd.Observe("Copy", len(c))
	n := 0
	for k, v := range maps.All(m) {
		n += k * len(v)
	}
	nd.Observe("All", n)
	clear(c)
	nd.Observe("clear", len(c))
	type key struct {
		a byte
		b string
	}
	q := map[key]int{{1, "x"}: 3, {byte(k), "y"}: 4}
	v, ok := q[key{2, "y"}]
	nd.Observe("struct key", v, ok)
	w := map[[2]byte]bool{{1, byte(k)}: true}
	nd.Observe("array key", w[[2]byte{1, 3}])
}

func X07_Strconv() {
	v := int(nd.Byte()) - 100
	nd.Observe("Itoa", strconv.Itoa(v), strconv.FormatInt(int64(v), 10), strconv.FormatInt(int64(v), 16), strconv.FormatUint(uint64(v&0xff), 2))
	nd.Observe("Append", strconv.AppendInt([]byte("x"), int64(v), 10))
	s := "1" + string([]byte{nd.Byte()}) + "3"
	n, err := strconv.Atoi(s)
	nd.Observe("Atoi", n, err == nil)
	u, err := strconv.ParseUint(s, 16, 8)
	nd.Observe("ParseUint", u, err == nil)
	i, err := strconv.ParseInt("-"+s, 0, 16)
	nd.Observe("ParseInt", i, err == nil)
}

func X07_StrconvMore() {
	b, err := strconv.ParseBool("true")
	nd.Observe("ParseBool", b, err == nil, strconv.FormatBool(false))
	nd.Observe("Quote", strconv.Quote("a\"b\n♯"))
	q, err := strconv.Unquote(`"a\tb"`)
	nd.Observe("Unquote", q, err == nil)
	_, err = strconv.Atoi("x")
	nd.Observe("error", err.Error(), errors.Is(err, strconv.ErrSyntax))
	f, err := strconv.ParseFloat("1.5", 64)
	nd.Observe("ParseFloat", f == 1.5, err == nil)
	nd.Observe("FormatFloat", strconv.FormatFloat(2.25, 'f', 3, 64))
}

func X07_Hex() {
	b := []byte{nd.Byte(), 0xab}
	nd.Observe("Encode", hex.EncodeToString(b))
	d, err := hex.DecodeString("0" + string([]byte{nd.Byte()}) + "ff")
	nd.Observe("Decode", d, err == nil)
	nd.Observe("b64", base64.StdEncoding.EncodeToString([]byte{1, 2, 3}))
	nd.Observe("AppendEncode", hex.AppendEncode(nil, b))
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.n) }

func X08_Errors() {
	e := &myErr{3}
	w := fmt.Errorf("wrapped %w", e)
	var t *myErr
	nd.Observe("As", errors.As(w, &t), t.n, w.Error(), errors.Unwrap(w) == error(e))
	j := errors.Join(w, io.EOF, nil)
	nd.Observe("Join", errors.Is(j, io.EOF), j.Error(), errors.Is(j, e))
	m := fmt.Errorf("%w and %w", io.EOF, e)
	nd.Observe("multi", errors.Is(m, io.EOF), errors.Is(m, e), errors.Is(m, io.ErrUnexpectedEOF))
	func() {
		defer func() {
			r := recover()
			nd.Observe("recover", r != nil)
		}()
		var a []int
		_ = a[int(nd.Byte()&1)+1]
	}()
	func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered %v", r)
			}
			nd.Observe("recovered", err.Error())
		}()
		panic(e)
	}()
}

func X08_Math() {
	v := nd.Byte()
	nd.Observe("bits", bits.Reverse8(v), bits.LeadingZeros8(v), bits.Len(uint(v)), bits.OnesCount8(v), bits.TrailingZeros8(v), bits.RotateLeft8(v, 3))
	hi, lo := bits.Mul64(uint64(v)<<60, 1234567)
	s, c := bits.Add64(uint64(v), math.MaxUint64, 0)
	nd.Observe("Mul64", hi, lo, s, c)
	nd.Observe("consts", math.MaxInt32, int64(math.MinInt64), uint64(math.MaxUint64))
}

func X08_Float() {
	x := 2.75
	nd.Observe("Round", int(math.Round(x)), int(math.Floor(x)), int(math.Ceil(x)), int(math.Trunc(-x)), int(math.Abs(-x)), int(math.Pow(2, 10)), int(math.Mod(7, 4)), int(math.Max(1, 2)), int(math.Sqrt(16)))
	nd.Observe("IsNaN", math.IsNaN(math.NaN()), math.IsInf(math.Inf(1), 0))
	nd.Observe("Log2", int(math.Log2(8)))
}

func X08_SymFloat() {
	n := int(nd.Byte())
	nd.Observe("div", int(float64(n)/2), int(math.Round(float64(n)*1.5)))
}

func X09_Duration() {
	d := time.Duration(nd.U16()) * time.Microsecond
	nd.Observe("Round", int64(d.Round(time.Millisecond)), int64(d.Truncate(time.Millisecond)), d.Milliseconds(), d.Microseconds(), d.Nanoseconds(), int64(d.Abs()))
	nd.Observe("String", d.String())
}

func X09_DurationFloat() {
	d := 1500 * time.Millisecond
	nd.Observe("Seconds", d.Seconds() == 1.5, d.Minutes() < 1, fmt.Sprintf("%.3f", d.Seconds()))
	p, err := time.ParseDuration("1.5s")
	nd.Observe("Parse", int64(p), err == nil)
}

func X09_Unicode() {
	r := rune(nd.Byte())
	nd.Observe("Is", unicode.IsDigit(r), unicode.IsSpace(r), unicode.IsUpper(r), unicode.IsLetter(r), unicode.IsPrint(r), unicode.IsControl(r), unicode.IsPunct(r))
	nd.Observe("To", unicode.ToUpper(r), unicode.ToLower(r))
	nd.Observe("IsGraphic", unicode.IsGraphic('♯'), unicode.IsLetter('é'), unicode.In('é', unicode.Latin))
}

func X09_UTF8() {
	b := []byte{'a', nd.Byte(), nd.Byte()}
	nd.Observe("Valid", utf8.Valid(b), utf8.ValidString(string(b)), utf8.RuneCount(b), utf8.RuneCountInString(string(b)))
	r, n := utf8.DecodeRune(b[1:])
	nd.Observe("DecodeRune", r, n)
	r, n = utf8.DecodeLastRune(b)
	nd.Observe("DecodeLastRune", r, n)
	nd.Observe("AppendRune", utf8.AppendRune(nil, 0x266d), utf8.RuneLen(0x266d), utf8.ValidRune(-1))
	nd.Observe("ToValid", strings.ToValidUTF8(string(b), "?"))
}

func X10_Path() {
	nd.Observe("path", path.Join("a", "../b", "c.mid"), path.Base("/x/y.mid"), path.Ext("y.mid"), path.Dir("/a/b/c"), path.Clean("a//b/./c"), path.IsAbs("/a"))
	nd.Observe("filepath", filepath.Join("a", "b"), filepath.Base("/x/y.mid"), filepath.Ext("y.tar.gz"), filepath.Dir("/a/b/c"), filepath.Clean("a/../b"))
	a, b := filepath.Split("/x/y")
	ok, err := filepath.Match("*.mid", "a.mid")
	nd.Observe("Split", a, b, ok, err == nil)
	rel, err := filepath.Rel("/a", "/a/b/c")
	nd.Observe("Rel", rel, err == nil)
}

func X10_Tabwriter() {
	var b bytes.Buffer
	w := tabwriter.NewWriter(&b, 0, 8, 2, ' ', 0)
	fmt.Fprintln(w, "a\tb\tc")
	fmt.Fprintf(w, "aaa\t%v\tccc\n", 12)
	w.Flush()
	nd.Observe("tab", b.String())
}
