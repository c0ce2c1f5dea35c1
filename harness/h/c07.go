package h

import (
	"bytes"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// C07_DeltaRoundTrip: every 32-bit delta (no bound).
func C07_DeltaRoundTrip() {
	v := nd.U32()
	enc, err := lib.Delta(v).MarshalBinary()
	nd.Assert(err == nil, "delta encodes")
	nd.Assert(nd.EqBytes(enc, refVLQ(v)), "delta is the minimal VLQ")
	d, err := lib.DecodeDelta(bytes.NewReader(enc))
	nd.Assert(err == nil, "delta decodes")
	nd.Assert(uint32(d) == v, "delta round trips")
	nd.Observe("delta", v, enc, uint32(d))
	nd.Reach("end")
}

// C07_VLQ: every 32-bit quantity (no bound), followed by arbitrary bytes.
func C07_VLQ() {
	v := nd.U32()
	enc, err := lib.VLQ(v).MarshalBinary()
	nd.Assert(err == nil, "a quantity is encoded without error")
	nd.Assert(nd.EqBytes(enc, refVLQ(v)), "a quantity is encoded as the minimal VLQ")
	r := bytes.NewReader(cat(enc, symBytes(2)))
	u, err := events.VLQ(r)
	nd.Assert(err == nil, "a quantity is decoded without error")
	nd.Assert(u == v, "a quantity is decoded to its value")
	nd.Assert(r.Len() == 2, "decoding a quantity takes exactly its bytes")
	nd.Observe("vlq", v, enc, u)
	nd.Reach("end")
}

// C07_DeltaConsumes: every 32-bit delta, followed by arbitrary bytes.
func C07_DeltaConsumes() {
	v := nd.U32()
	r := bytes.NewReader(cat(refVLQ(v), symBytes(2)))
	d, err := lib.DecodeDelta(r)
	nd.Assert(err == nil, "delta decodes")
	nd.Assert(uint32(d) == v, "delta is decoded to its value")
	nd.Assert(r.Len() == 2, "decoding a delta takes exactly its bytes")
	nd.Reach("end")
}

// C07_Truncated: every proper prefix of every quantity of up to five bytes is an error.
func C07_Truncated() {
	n := nd.Choose(5)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte() | 0x80
	}
	if nd.Choose(2) == 0 {
		_, err := events.VLQ(bytes.NewReader(b))
		nd.Assert(err != nil, "a truncated quantity is an error")
	} else {
		_, err := lib.DecodeDelta(bytes.NewReader(b))
		nd.Assert(err != nil, "a truncated delta is an error")
	}
	nd.Reach("end")
}

// C07_VLF: data of 0 to 4, 127, 128, 129 and 300 bytes (thorough: also 16383, 16384 and 16385) with arbitrary bytes, followed by arbitrary bytes.
func C07_VLF() {
	l := []int{0, 1, 2, 3, 4, 127, 128, 129, 300}
	if nd.Thorough() {
		l = append(l, 16383, 16384, 16385)
	}
	n := l[nd.Choose(len(l))]
	data := make([]byte, n)
	f := filler()
	for i := range data {
		if n <= 4 {
			data[i] = nd.Byte()
		} else {
			data[i] = f()
		}
	}
	enc, err := lib.VLF(data).MarshalBinary()
	nd.Assert(err == nil, "data is encoded without error")
	nd.Assert(nd.EqBytes(enc, cat(refVLQ(uint32(n)), data)), "data is preceded by its length")
	r := bytes.NewReader(cat(enc, symBytes(2)))
	d, err := events.VLF(r)
	nd.Assert(err == nil, "data is decoded without error")
	nd.Assert(nd.EqBytes(d, data), "data is decoded to itself")
	nd.Assert(r.Len() == 2, "decoding data takes exactly its bytes")
	nd.Reach("end")
}
