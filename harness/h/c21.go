package h

import (
	"encoding/json"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/context"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// under runs f with the convention, and leaves the default one.
func under(c4 bool, f func()) {
	if c4 {
		context.SetMiddleC(lib.C4)
	}
	f()
	context.SetMiddleC(lib.C3)
}

// C21_Events: one event of each general kind with arbitrary values, decoded and encoded under both conventions.
func C21_Events() {
	b := file1(genEvent(nd.Choose(nGeneral), genDelta(), 1, nd.Byte), eot(0))
	a := mustDecode(b)
	x := mustEncode(a)
	under(true, func() {
		c := mustDecode(b)
		sameFile(a, c, "the other middle C")
		nd.Assert(nd.EqBytes(a.Tracks[0].Events[0].Bytes(), c.Tracks[0].Events[0].Bytes()), "the bytes of an event are the same with the other middle C")
		nd.Assert(nd.EqBytes(x, mustEncode(c)), "a file is encoded the same with the other middle C")
		nd.Assert(nd.EqBytes(x, mustEncode(a)), "a file decoded with one middle C is encoded the same with the other")
	})
	nd.Reach("end")
}

// C21_Names: any NoteOn and its NoteOff after a key signature: the octave of the other convention is one lower, the rest of the name the same.
func C21_Names() {
	n := data7()
	acc := []int{-2, 0, 2}[nd.Choose(3)]
	b := file1(ev{wire: []byte{0xff, 0x59, 2, byte(acc), 0}}, on(1, 3, n, 9), off(1, 3, n, 9), eot(0))
	names := func() (string, string) {
		t := mustDecode(b).Tracks[0]
		return t.Events[1].Event.(midievent.NoteOn).Note.Name, t.Events[2].Event.(midievent.NoteOff).Note.Name
	}
	p, q := names()
	nd.Assert(nd.And(nd.EqStr(p, noteName(int(n), acc < 0, false)), nd.EqStr(q, p)), "the name of a note with note 60 in octave 4")
	under(true, func() {
		p, q := names()
		nd.Assert(nd.And(nd.EqStr(p, noteName(int(n), acc < 0, true)), nd.EqStr(q, p)), "the name of a note with note 60 in octave 3")
	})
	nd.Reach("end")
}

// C21_Text: a NoteOn, a NoteOff or a key signature and a NoteOn, with arbitrary values, disassembled and assembled with the other convention.
func C21_Text() {
	var evs []ev
	switch nd.Choose(3) {
	case 0:
		evs = []ev{genEvent(kNoteOn, 0, 0, nil)}
	case 1:
		evs = []ev{genEvent(kNoteOff, 0, 0, nil)}
	case 2:
		evs = []ev{fixedEvent(kKeySignature, 0), {wire: []byte{0x95, data7(), 64}}}
		evs[0].wire[3] = 0xfd
	}
	under(true, func() { textTrip(file1(append(evs, eot(0))...)) })
}

// C21_JSON: a NoteOn and a NoteOff with arbitrary values, exported and assembled with the other convention.
func C21_JSON() {
	e := genEvent(kNoteOff+nd.Choose(2), 0, 0, nil)
	under(true, func() { jsonTrip(file1(e, eot(0))) })
}

// C21_Others: one event of each general kind with fixed values, disassembled and exported: only the lines of notes differ between the conventions.
func C21_Others() {
	k := nd.Choose(nGeneral)
	if k == kNoteOn || k == kNoteOff {
		nd.Stop()
	}
	b := file1(fixedEvent(k, 3), eot(0))
	text, js := toText(mustDecode(b)), toJSON(mustDecode(b))
	under(true, func() {
		nd.Assert(nd.EqBytes(text, toText(mustDecode(b))), "the disassembly of other events is the same with the other middle C")
		nd.Assert(nd.EqBytes(js, toJSON(mustDecode(b))), "the export of other events is the same with the other middle C")
	})
	nd.Reach("end")
}

// C21_Transpose: a key signature and a NoteOn with arbitrary values and one of seven numbers of semitones give the same file under both conventions.
func C21_Transpose() {
	steps := []int{-100, -13, -1, 0, 1, 12, 100}[nd.Choose(7)]
	evs := []ev{genEvent(kKeySignature, 0, 0, nil), genEvent(kNoteOn, 0, 0, nil), eot(0)}
	under(true, func() { moves(evs, steps) })
}

// C21_Parse: any note, named with sharps or flats under one convention and read under the other, is an octave apart or an error.
func C21_Parse() {
	n := int(data7())
	s := noteName(n, nd.Choose(2) == 1, false)
	under(true, func() {
		v, err := midievent.ParseNote(nil, s)
		if n+12 <= 127 {
			nd.Assert(err == nil, "the name of a note is read with the other middle C")
			nd.Assert(int(v.Value) == n+12, "the name of a note is an octave apart with the other middle C")
		} else {
			nd.Assert(err != nil, "the name of a note beyond the last is an error")
		}
	})
	nd.Reach("end")
}

// C21_Alone: a NoteOff and a NoteOn, any channel and note, read outside a track from its bytes and from its JSON object, under both conventions: note 60 is in octave 4 or 3, the value the same.
func C21_Alone() {
	kind := kNoteOff + nd.Choose(2)
	e := genEvent(kind, 0, 0, nil)
	c4 := nd.Choose(2) == 1
	how := fromBinary(append([]byte{0}, e.wire...))
	if nd.Choose(2) == 1 {
		js, err := json.Marshal(mustDecode(file1(e, eot(0))).Tracks[0].Events[0].Event)
		nd.Assert(err == nil, "an event is exported")
		how = fromObject(js)
	}
	under(c4, func() {
		x, err := own(kind, how)
		nd.Assert(err == nil, "a note is read")
		var note midievent.Note
		switch v := x.(type) {
		case midievent.NoteOff:
			note = v.Note
		case midievent.NoteOn:
			note = v.Note
		}
		nd.Assert(note.Value == byte(e.nums[1]), "a note read by itself has its value")
		nd.Assert(nd.EqStr(note.Name, noteName(int(e.nums[1]), false, c4)), "a note read by itself has the name of the convention")
	})
	nd.Reach("end")
}
