package h

import (
	"bytes"
	"errors"
	"io"

	"verif/harness/nd"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
)

var errRead = errors.New("read error")

func decodeFrom(r io.Reader) (*midi.SMF, error) { return midifile.NewDecoder().Decode(r) }

// sample is a file with one or two tracks of symbolic events.
func sample() []byte {
	e := genEvent([]int{kNoteOn, kText, kEscape}[nd.Choose(3)], smallDelta(), 2, nd.Byte)
	if nd.Choose(2) == 0 {
		return file1(e, eot(0))
	}
	return cat(header(1, 2, 96), track(e, eot(0)), track(genEvent(kTempo, 0, 0, nil), eot(0)))
}

// C16_Split: files of one or two tracks, split into reads at any two places.
func C16_Split() {
	b := sample()
	i := nd.Choose(len(b))
	j := i + nd.Choose(len(b)-i)
	if !nd.Thorough() && j > i && j-i > 9 && (j-i)%4 != 0 {
		nd.Stop()
	}
	want := mustDecode(b)
	got, err := decodeFrom(&parts{p: [][]byte{b[:i], b[i:j], b[j:]}, err: io.EOF})
	nd.Assert(nd.And(err == nil, got != nil), "a file read in pieces is decoded")
	sameFile(want, got, "read in pieces")
	nd.Reach("end")
}

// step is a reader that hands out at most n bytes at a time, and the last of them together with io.EOF if with is set.
type step struct {
	b    []byte
	n    int
	with bool
}

func (r *step) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(r.b) {
		n = len(r.b)
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.with && len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// C16_Steps: files of one or two tracks, read 1 to 9 or 100 bytes at a time, with io.EOF after or together with the last bytes.
func C16_Steps() {
	b := sample()
	n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 100}[nd.Choose(10)]
	want := mustDecode(b)
	got, err := decodeFrom(&step{b: b, n: n, with: nd.Choose(2) == 1})
	nd.Assert(nd.And(err == nil, got != nil), "a file read in steps is decoded")
	sameFile(want, got, "read in steps")
	nd.Reach("end")
}

// C16_Fail: a reader that fails after any number of bytes of a file (before the end of its last chunk, or after it).
func C16_Fail() {
	b := sample()
	k := nd.Choose(len(b) + 1)
	got, err := decodeFrom(&parts{p: [][]byte{b[:k]}, err: errRead})
	nd.Assert(nd.And(err != nil, got == nil), "a read error is reported")
	nd.Reach("end")
}

// C16_FailWith: a reader that fails together with the bytes of its last successful read.
func C16_FailWith() {
	b := sample()
	k := 1 + nd.Choose(len(b)-1)
	got, err := decodeFrom(&failWith{b: b[:k]})
	nd.Assert(nd.And(err != nil, got == nil), "a read error is reported")
	nd.Reach("end")
}

type failWith struct{ b []byte }

func (r *failWith) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 {
		return n, errRead
	}
	return n, nil
}

// C16_Truncate: a file that ends at any place before its end.
func C16_Truncate() {
	b := sample()
	k := nd.Choose(len(b))
	got, err := decode(b[:k])
	nd.Assert(nd.And(err != nil, got == nil), "a truncated file is an error")
	nd.Reach("end")
}

// C16_MidEvent: a track that ends in the middle of its last event, of any general kind, with the right length field.
func C16_MidEvent() {
	kind := nd.Choose(nGeneral + 1)
	e := genEvent(kind, genDelta(), 2, nd.Byte)
	w := e.bytes()
	k := 1 + nd.Choose(len(w)-1)
	var before []byte
	if nd.Choose(2) == 1 {
		before = genEvent(kTempo, 0, 0, nil).bytes()
	}
	got, err := decode(cat(header(0, 1, 96), chunk("MTrk", cat(before, w[:k]))))
	nd.Assert(nd.And(err != nil, got == nil), "a track that ends in the middle of an event is an error")
	nd.Reach("end")
}

// C16_Length: the last chunk of a file has a length field that is greater than the number of bytes left by 1 to 4, 7, 8, 255, 256, 65535 or 65536.
func C16_Length() {
	body := cat(genEvent(kNoteOn, 0, 0, nil).bytes(), eot(0).bytes())
	n := len(body) + []int{1, 2, 3, 4, 7, 8, 255, 256, 65535, 65536}[nd.Choose(10)]
	b := cat(header(0, 1, 96), []byte{'M', 'T', 'r', 'k', 0, byte(n >> 16), byte(n >> 8), byte(n)}, body)
	got, err := decode(b)
	nd.Assert(nd.And(err != nil, got == nil), "a chunk that is shorter than its length is an error")
	nd.Reach("end")
}

// C16_None: a file that ends after the header of its last chunk, a track or another one, whose length is 1, 255, 256, 65535, 65536 or 2^24, or with a reader that fails there.
func C16_None() {
	n := []int{1, 255, 256, 65535, 65536, 1 << 24}[nd.Choose(6)]
	b := cat(header(0, 1, 96))
	tag := "MTrk"
	switch nd.Choose(3) {
	case 1:
		b = cat(b, track(eot(0)))
		b[11] = 2
	case 2:
		b, tag = cat(b, track(eot(0))), "XFIH"
	}
	b = cat(b, []byte(tag), []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	got, err := decode(b)
	if nd.Choose(2) == 1 {
		got, err = decodeFrom(&parts{p: [][]byte{b}, err: errRead})
	}
	nd.Assert(nd.And(err != nil, got == nil), "a chunk that is shorter than its length is an error")
	nd.Reach("end")
}

// C16_Trailing: 1 to 7 stray bytes after the last chunk.
func C16_Trailing() {
	b := cat(sample(), symBytes(1+nd.Choose(7)))
	got, err := decode(b)
	nd.Assert(nd.And(err != nil, got == nil), "an incomplete chunk header is an error")
	nd.Reach("end")
}

// C16_Twice: decoding the same bytes twice gives the same file, and the bytes are left as they were.
func C16_Twice() {
	b := sample()
	before := append([]byte{}, b...)
	want := mustDecode(b)
	got, err := decodeFrom(bytes.NewBuffer(b))
	nd.Assert(err == nil, "a file is decoded again")
	sameFile(want, got, "decoded again")
	nd.Assert(nd.EqBytes(b, before), "decoding does not change the bytes")
	nd.Reach("end")
}

// C16_Big: files of 300 tracks, of a track of 400 events, and of a track with a text of 66000 bytes, read 1000, 4096 or 65536 bytes at a time, cut off at one of the last places, or with a reader that fails there.
//
// @steps 100000000
func C16_Big() {
	b := bigFile(big())
	switch nd.Choose(3) {
	case 0:
		want := mustDecode(b)
		got, err := decodeFrom(&step{b: b, n: []int{1000, 4096, 65536}[nd.Choose(3)], with: nd.Choose(2) == 1})
		nd.Assert(nd.And(err == nil, got != nil), "a file read in steps is decoded")
		sameFile(want, got, "read in steps")
	case 1:
		got, err := decode(b[:len(b)-[]int{1, 4, 9, 17, 500}[nd.Choose(5)]])
		nd.Assert(nd.And(err != nil, got == nil), "a truncated file is an error")
	case 2:
		got, err := decodeFrom(&parts{p: [][]byte{b[:len(b)-[]int{0, 1, 4, 9, 500}[nd.Choose(5)]]}, err: errRead})
		nd.Assert(nd.And(err != nil, got == nil), "a read error is reported")
	}
	nd.Reach("end")
}

// C16_Unknown: an unknown chunk with 3 arbitrary bytes after the track: cut off at any place, with a reader that fails there, or with a length field that is too great by 1 to 4, 255, 256 or 65536; or before the track, with such a length field.
func C16_Unknown() {
	a := file1(genEvent(kNoteOn, 0, 0, nil), eot(0))
	tag := []string{"XFIH", "MThd", "MTrx"}[nd.Choose(3)]
	x := chunk(tag, symBytes(3))
	b := append(append([]byte{}, a...), x...)
	k := len(a) + 1 + nd.Choose(len(x)-1)
	n := 3 + []int{1, 2, 3, 4, 255, 256, 65536}[nd.Choose(7)]
	var err error
	switch nd.Choose(4) {
	case 0:
		_, err = decode(b[:k])
	case 1:
		_, err = decodeFrom(&parts{p: [][]byte{b[:k]}, err: errRead})
	case 2:
		_, err = decode(cat(a, []byte(tag), []byte{0, byte(n >> 16), byte(n >> 8), byte(n)}, x[8:]))
	case 3:
		_, err = decode(cat(a[:14], []byte(tag), []byte{0, byte(n >> 16), byte(n >> 8), byte(n)}, x[8:], a[14:]))
	}
	nd.Assert(err != nil, "a chunk that is shorter than its length is an error")
	nd.Reach("end")
}
