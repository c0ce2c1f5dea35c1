package h

import (
	"encoding"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/events"
)

// either reads the event with the type of its kind or with the type of all events.
func either(kind int, b []byte) (events.IEvent, error) {
	if nd.Choose(2) == 0 || kind == kEscape { // without its history an F7 packet is a continuation
		return own(kind, fromBinary(b))
	}
	var e events.Event
	err := e.UnmarshalBinary(b)
	return e.Event, err
}

// reads asserts that the bytes of the event are read to it, and written again.
func reads(e ev) {
	b := e.bytes()
	x, err := either(e.kind, b)
	nd.Assert(err == nil, "the bytes of an event are read")
	nd.Assert(nd.And(e.summary().eq(summary(x)), x.Delta() == e.delta), "the event has the values of its bytes")
	nd.Assert(nd.EqBytes(x.Bytes(), b), "the event has its bytes")
	m, ok := x.(encoding.BinaryMarshaler)
	nd.Assert(ok, "the event can be written")
	w, err := m.MarshalBinary()
	nd.Assert(err == nil, "the event is written")
	nd.Assert(nd.EqBytes(w, e.wire), "the event is written as the bytes it was read from")
	nd.Reach("end")
}

// C31_Event: one event of each kind but SysEx with arbitrary values, delta below 2^28, texts of 0 to 3 bytes.
func C31_Event() {
	reads(genEvent(nd.Choose(kEndOfTrack+1), genDelta(), nd.Choose(4), nd.Byte))
}

// C31_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 bytes (thorough: also 16383 and 16384).
func C31_Long() {
	kinds := []int{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName, kEscape}
	reads(genEvent(kinds[nd.Choose(len(kinds))], 0, longLength(), filler()))
}

// C31_Manufacturer: SysEx messages (complete and first packets) and sequencer specific events of any manufacturer (1 and 3 byte IDs), 0 to 2 data bytes.
func C31_Manufacturer() {
	reads(genEvent([]int{kSysEx, kSysExFirst, kSequencerSpecific}[nd.Choose(3)], smallDelta(), nd.Choose(3), nd.Byte))
}

// C31_Packet: continuation packets, in the middle and last, of 0 to 3 data bytes.
func C31_Packet() {
	reads(genEvent([]int{kSysExNext, kSysExLast}[nd.Choose(2)], smallDelta(), nd.Choose(4), nd.Byte))
}

// C31_Other: each type given the bytes of an event of any other kind (texts of 1 byte) rejects them.
func C31_Other() {
	kind := nd.Choose(kSysEx + 1)
	e := fixedEvent(nd.Choose(kSysEx), smallDelta())
	nd.Assume(e.kind != kind)
	_, err := own(kind, fromBinary(e.bytes()))
	nd.Assert(err != nil, "the bytes of an event of another kind are rejected")
	nd.Reach("end")
}

// C31_Short: the bytes of an event of any kind without its last bytes (any number) are rejected.
func C31_Short() {
	kind := nd.Choose(kSysEx + 1)
	e := genEvent(kind, smallDelta(), 2, nd.Byte)
	b := e.bytes()
	n := nd.Choose(len(b))
	if kind == kEndOfTrack {
		nd.Assume(n < 3) // its length byte says nothing
	}
	_, err := either(kind, b[:n])
	nd.Assert(err != nil, "a part of an event is rejected")
	nd.Reach("end")
}

// C31_Any: up to 7 arbitrary bytes given to the type of all events: an error or an event, and the event can be written and read again.
func C31_Any() {
	b := symBytes(nd.Choose(8))
	var e events.Event
	if err := e.UnmarshalBinary(b); err != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(e.Event != nil, "an event that is read is there")
	x := summary(e.Event)
	m, ok := e.Event.(encoding.BinaryMarshaler)
	nd.Assert(ok, "the event can be written")
	w, err := m.MarshalBinary()
	nd.Assert(err == nil, "the event is written")
	var f events.Event
	nd.Assert(f.UnmarshalBinary(append(refVLQ(e.Delta()), w...)) == nil, "the event that was written is read")
	nd.Assert(nd.And(x.eq(summary(f.Event)), f.Delta() == e.Delta()), "the event that was written is the same")
	nd.Reach("event")
}

// C31_Data: a meta event of any type with 0 to 9 arbitrary data bytes and a length field of 0 to 9, given to the type of all events or to that of its kind: an error or an event that can be written and read again.
func C31_Data() {
	e := fixedEvent(nd.Choose(kSysEx), 0)
	if e.wire[0] != 0xff {
		nd.Stop()
	}
	b := cat([]byte{0x00, 0xff, e.wire[1], byte(nd.Choose(10))}, symBytes(nd.Choose(10)))
	x, err := either(e.kind, b)
	if err != nil {
		nd.Reach("error")
		return
	}
	s := summary(x)
	nd.Assert(s.tag == tags[e.kind], "the event is of its kind")
	m, ok := x.(encoding.BinaryMarshaler)
	nd.Assert(ok, "the event can be written")
	w, err := m.MarshalBinary()
	nd.Assert(err == nil, "the event is written")
	var f events.Event
	nd.Assert(f.UnmarshalBinary(append([]byte{0}, w...)) == nil, "the event that was written is read")
	nd.Assert(s.eq(summary(f.Event)), "the event that was written is the same")
	nd.Reach("event")
}

// C31_AnyOwn: up to 6 arbitrary bytes given to the type of any kind: an error or an event, and never a panic.
func C31_AnyOwn() {
	kind := nd.Choose(kSysEx + 2)
	if kind == kSysEx+1 {
		kind = kSysExNext
	}
	x, err := own(kind, fromBinary(symBytes(nd.Choose(7))))
	if err != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(summary(x).tag == tags[kind], "the event is of its kind")
	nd.Reach("event")
}
