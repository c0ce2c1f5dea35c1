package h

import (
	"verif/harness/nd"

	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
)

// C10_Notes: a NoteOn and a NoteOff with arbitrary values and any number of semitones of 32 bits.
func C10_Notes() {
	moves([]ev{genEvent(kNoteOn, genDelta(), 0, nil), genEvent(kNoteOff, smallDelta(), 0, nil), eot(0)}, anySteps())
}

// C10_Others: one event of each general kind but key signatures with arbitrary values, any number of semitones of 32 bits.
func C10_Others() {
	kind := nd.Choose(nGeneral)
	if kind == kKeySignature {
		nd.Stop()
	}
	moves([]ev{genEvent(kind, smallDelta(), 2, nd.Byte), eot(0)}, anySteps())
}

// C10_Keys: each of the 30 key signatures, transposed by -40 to 40 and by some greater numbers of semitones.
func C10_Keys() {
	var steps int
	if nd.Choose(2) == 0 {
		steps = nd.Int(-40, 40)
	} else {
		steps = []int{-1200, -997, -121, 121, 1000, 1200, 12345, -1 << 62, 1<<62 + 1}[nd.Choose(9)]
	}
	moves([]ev{genEvent(kKeySignature, smallDelta(), 0, nil), eot(0)}, steps)
}

// C10_Mixed: a key signature, another event of any kind, a NoteOn, another key signature and a NoteOff, by one of seven numbers of semitones.
func C10_Mixed() {
	steps := []int{-127, -13, -1, 0, 1, 12, 50}[nd.Choose(7)]
	moves([]ev{
		fixedEvent(kKeySignature, 1),
		fixedEvent(nd.Choose(nGeneral), 0),
		genEvent(kNoteOn, smallDelta(), 0, nil),
		{kind: kKeySignature, wire: []byte{0xff, 0x59, 2, 0xfd, 1}, nums: []uint64{0xfd, 1}},
		genEvent(kNoteOff, 0, 0, nil),
		eot(0)}, steps)
}

// C10_Tracks: one to three tracks of one note each, with arbitrary values; header and tracks are kept.
func C10_Tracks() {
	n := 1 + nd.Choose(3)
	format, division := uint16(nd.Choose(3)), genDivision()
	b := header(format, uint16(n), division)
	var all [][]ev
	for i := 0; i < n; i++ {
		evs := []ev{genEvent(kNoteOff+nd.Choose(2), smallDelta(), 0, nil), eot(0)}
		all = append(all, evs)
		b = append(b, track(evs...)...)
	}
	steps := anySteps()
	before := mustDecode(b)
	h := *before.MThd
	c := transposed(before, steps)
	nd.Assert(sameHeader(&h, c.MThd), "transposing keeps the header")
	nd.Assert(len(c.Tracks) == n, "transposing keeps the tracks")
	for i, t := range c.Tracks {
		movedBy(all[i], t, steps)
	}
	nd.Reach("end")
}

// C10_Running: three notes with the same status, as a file with running status.
func C10_Running() {
	a, b, c := genEvent(kNoteOn, 0, 0, nil), genEvent(kNoteOn, 3, 0, nil), genEvent(kNoteOn, 4, 0, nil)
	for _, e := range []*ev{&b, &c} {
		e.wire[0], e.nums[0] = a.wire[0], a.nums[0]
	}
	body := cat(a.bytes(), refVLQ(b.delta), b.wire[1:], refVLQ(c.delta), c.wire[1:], eot(0).bytes())
	steps := anySteps()
	t := transposed(mustDecode(cat(header(0, 1, 96), chunk("MTrk", body))), steps)
	movedBy([]ev{a, b, c, eot(0)}, t.Tracks[0], steps)
	nd.Reach("end")
}

// C10_Sysex: SysEx messages in one and two packets and sequencer specific events are kept.
func C10_Sysex() {
	var evs []ev
	switch nd.Choose(3) {
	case 0:
		evs = []ev{genEvent(kSysEx, smallDelta(), 1, nd.Byte)}
	case 1:
		evs = []ev{genEvent(kSequencerSpecific, smallDelta(), 1, nd.Byte)}
	case 2:
		evs = []ev{genEvent(kSysExFirst, smallDelta(), 1, nd.Byte), genEvent(kSysExLast, smallDelta(), 1, nd.Byte)}
	}
	moves(append(evs, eot(0)), anySteps())
}

// C10_Names: the names of transposed notes are those of their values (a NoteOn of any note after a key signature, by -12 to 12 semitones).
func C10_Names() {
	k := []int{-3, 0, 4}[nd.Choose(3)]
	steps := nd.Choose(25) - 12
	n := data7()
	kt := byte(nd.Choose(2))
	smf := mustDecode(file1(ev{wire: []byte{0xff, 0x59, 2, byte(k), kt}}, ev{wire: []byte{0x90, n, 64}}, eot(0)))
	c := transposed(smf, steps)
	on, ok := c.Tracks[0].Events[1].Event.(midievent.NoteOn)
	nd.Assert(ok, "a NoteOn stays a NoteOn")
	flat := signed(summary(c.Tracks[0].Events[0].Event).nums[0]) < 0
	nd.Assert(nd.EqStr(on.Note.Name, noteName(clamp(int(n)+steps), flat, false)), "a transposed note has the name of its new value")
	nd.Reach("end")
}

// C10_Big: files of 300 tracks and of a track of 400 events, fixed but for the last events, by one of five numbers of semitones.
//
// @steps 100000000
func C10_Big() {
	all := bigTracks(nd.Choose(2), 300, 400, 0, []ev{genEvent(kNoteOn, smallDelta(), 0, nil), genEvent(kNoteOff, 0, 0, nil), eot(0)})
	steps := []int{-30, -1, 0, 5, 64}[nd.Choose(5)]
	c := transposed(mustDecode(bigFile(all)), steps)
	nd.Assert(len(c.Tracks) == len(all), "transposing keeps the tracks")
	for i, t := range c.Tracks {
		movedBy(all[i], t, steps)
	}
	nd.Reach("end")
}
