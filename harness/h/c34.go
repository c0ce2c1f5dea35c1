package h

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

// stated is the event as it is decoded, its JSON and its line of a disassembly.
func stated(evs ...ev) (events.IEvent, []byte, []byte) {
	smf := mustDecode(file1(evs...))
	last := smf.Tracks[0].Events[len(evs)-2].Event
	j, err := last.(json.Marshaler).MarshalJSON()
	nd.Assert(err == nil, "the JSON of an event is written")
	lines := bytes.Split(printed(smf, "document"), []byte("\n"))
	for i := range lines {
		if bytes.Contains(lines[i], []byte("EndOfTrack")) {
			return last, j, lines[i-1]
		}
	}
	nd.Assert(false, "the disassembly has the end of the track")
	return nil, nil, nil
}

// restates asserts that the event is read from its JSON or line, by the type of its kind or by that of all events.
func restates(kind int, evs ...ev) {
	x, j, line := stated(evs...)
	var y events.IEvent
	var err error
	how := nd.Choose(4)
	text := how == 1 || how == 3
	switch how {
	case 0:
		y, err = own(kind, fromObject(j))
	case 1:
		y, err = own(kind, fromLine(line))
	case 2:
		var e events.Event
		err = e.UnmarshalJSON([]byte(fmt.Sprintf(`{"event":%s}`, j)))
		y = e.Event
	case 3:
		var e events.Event
		err = e.UnmarshalText(line)
		y = e.Event
	}
	nd.Assert(err == nil, "the JSON and the line of an event are read")
	if m, ok := y.(sysex.SysExMessage); ok && text {
		m.Single = x.(sysex.SysExMessage).Single // the lines that follow say that
		y = m
	}
	nd.Assert(nd.And(summary(x).eq(summary(y)), x.Delta() == y.Delta()), "the event has the values its JSON and line state")
	m, err := y.(encoding.BinaryMarshaler).MarshalBinary()
	nd.Assert(err == nil, "the event that was read is written")
	nd.Assert(nd.EqBytes(m, evs[len(evs)-2].wire), "the event that was read is written as the bytes of the event")
	nd.Reach("end")
}

// C34_Event: one event of each kind but SysEx with arbitrary values, one byte delta, texts of 1 character, escapes of 1 byte.
func C34_Event() {
	kind := nd.Choose(nGeneral)
	next := word
	if kind == kEscape {
		next = nd.Byte
	}
	restates(kind, genEvent(kind, smallDelta(), 1, next), eot(0))
}

// C34_Bank: a program change after bank selects with any MSB and one of three LSBs.
func C34_Bank() {
	restates(kProgramChange, banked()...)
}

// C34_Delta: a NoteOn, Text or Escape with a delta time below 2^28.
func C34_Delta() {
	kind := []int{kNoteOn, kText, kEscape}[nd.Choose(3)]
	restates(kind, fixedEvent(kind, genDelta()), eot(0))
}

// C34_Manufacturer: SysEx messages and sequencer specific events of any known manufacturer, 0 to 2 data bytes.
func C34_Manufacturer() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	e := genEvent(kind, 3, nd.Choose(3), nd.Byte)
	if !known(mustDecode(file1(e, eot(0))).Tracks[0].Events[0]) {
		nd.Stop()
	}
	restates(kind, e, eot(0))
}

// C34_Packet: a middle packet of 0 to 2 data bytes after the first of a message.
func C34_Packet() {
	restates(kSysExNext, genEvent(kSysExFirst, 0, 1, sevenBit), genEvent(kSysExNext, smallDelta(), nd.Choose(3), sevenBit), eot(0))
}

// C34_Other: each type given the JSON or the line of an event of any other kind (texts of 1 character) rejects it.
func C34_Other() {
	kind := nd.Choose(kSysEx + 2)
	if kind == kSysEx+1 {
		kind = kSysExNext
	}
	e := fixedEvent(nd.Choose(kSysEx), smallDelta())
	nd.Assume(e.kind != kind)
	if e.kind == kEndOfTrack {
		nd.Stop()
	}
	_, j, line := stated(e, eot(0))
	var err error
	if nd.Choose(2) == 0 {
		_, err = own(kind, fromObject(j))
	} else {
		_, err = own(kind, fromLine(line))
	}
	nd.Assert(err != nil, "the JSON and the line of an event of another kind are rejected")
	nd.Reach("end")
}

// C34_End: the JSON and the line of an end of track with any delta below 2^28.
func C34_End() {
	smf := mustDecode(file1(eot(genDelta())))
	x := smf.Tracks[0].Events[0].Event
	j, err := x.(json.Marshaler).MarshalJSON()
	nd.Assert(err == nil, "the JSON of an event is written")
	f := fromObject(j)
	if nd.Choose(2) == 0 {
		for _, l := range bytes.Split(printed(smf, "document"), []byte("\n")) {
			if bytes.Contains(l, []byte("EndOfTrack")) {
				f = fromLine(l)
			}
		}
	}
	y, err := own(kEndOfTrack, f)
	nd.Assert(err == nil, "the JSON and the line of an event are read")
	nd.Assert(x.Delta() == y.Delta(), "the event has the values its JSON and line state")
	nd.Reach("end")
}

// C34_Tag: the JSON of an event of each kind with one arbitrary other character in its tag.
func C34_Tag() {
	kind := nd.Choose(kSysEx)
	o := []byte(object(base(kind), "", ""))
	at := bytes.Index(o, []byte(tags[kind])) + nd.Choose(len(tags[kind]))
	c := printable()
	nd.Assume(c != o[at])
	o[at] = c
	var err error
	if nd.Choose(2) == 0 {
		_, err = own(kind, fromObject(o[len(`{"event":`):len(o)-1]))
	} else {
		var e events.Event
		err = e.UnmarshalJSON(o)
	}
	nd.Assert(err != nil, "the JSON of an event with another tag is rejected")
	nd.Reach("end")
}

// C34_Any: each type given up to 2 arbitrary bytes as JSON or line, and a line with its tag and up to 2 (thorough: 3) arbitrary characters: an error or an event that can be written, and never a panic.
func C34_Any() {
	kind := nd.Choose(kSysEx + 2)
	if kind == kSysEx+1 {
		kind = kSysExNext
	}
	var x events.IEvent
	var err error
	switch nd.Choose(3) {
	case 0:
		_, err = own(kind, fromObject(symBytes(nd.Choose(3))))
		nd.Assert(err != nil, "bytes that are not the JSON of an event are rejected")
		return
	case 1:
		_, err = own(kind, fromLine(symBytes(nd.Choose(3))))
		nd.Assert(err != nil, "bytes that are not the line of an event are rejected")
		return
	}
	s := []byte("delta:5 00 " + tags[kind] + " ")
	most := 2
	if nd.Thorough() {
		most = 3
	}
	for n := nd.Choose(most + 1); n > 0; n-- {
		s = append(s, printable())
	}
	if x, err = own(kind, fromLine(s)); err != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(summary(x).tag == tags[kind], "the event is of its kind")
	nd.Assert(x.Delta() == 5, "the event has the delta time its line states")
	_, err = x.(encoding.BinaryMarshaler).MarshalBinary()
	nd.Assert(err == nil, "the event that was read is written")
	nd.Reach("event")
}
