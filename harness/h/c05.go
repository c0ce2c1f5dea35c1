package h

import "verif/harness/nd"

// C05_Omit: three (thorough: four) channel events of any kinds and values (statuses chosen so that neighbours may agree), every choice of omitted status bytes that running status allows.
func C05_Omit() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var evs []ev
	var with, without []byte
	omitted := false
	for i := 0; i < n; i++ {
		var e ev
		if i > 0 && nd.Choose(2) == 1 {
			// same status as the event before
			p := evs[i-1]
			e = genEvent(p.kind, smallDelta(), 0, nil)
			e.wire[0], e.nums[0] = p.wire[0], p.nums[0]
			omitted = true
			without = append(without, cat(refVLQ(e.delta), e.wire[1:])...)
		} else {
			e = genEvent(nd.Choose(kPitchBend+1), smallDelta(), 0, nil)
			without = append(without, e.bytes()...)
		}
		evs = append(evs, e)
		with = append(with, e.bytes()...)
	}
	if !omitted {
		nd.Stop()
	}
	sameTrack(with, without)
}

// C05_Cancel: a channel event, a meta, SysEx or escape event of any general kind, and a data byte where a status byte is needed.
func C05_Cancel() {
	first := genEvent(nd.Choose(kPitchBend+1), 0, 0, nil)
	var mid []byte
	switch k := kSequenceNumber + nd.Choose(kEndOfTrack-kSequenceNumber+3); k {
	case kEndOfTrack:
		mid = []byte{0x00, 0xff, 0x2f, 0x00}
	case kEndOfTrack + 1:
		mid = []byte{0x00, 0xf0, 0x03, 0x7e, data7(), 0xf7}
	case kEndOfTrack + 2:
		mid = []byte{0x00, 0xff, 0x7f, 0x02, 0x41, nd.Byte()}
	default:
		mid = genEvent(k, 0, 1, nd.Byte).bytes()
	}
	tail := []byte{0x00, data7(), data7(), 0x00, 0xff, 0x2f, 0x00}
	smf, err := decode(cat(header(0, 1, 96), chunk("MTrk", cat(first.bytes(), mid, tail))))
	nd.Assert(nd.And(err != nil, smf == nil), "a data byte after a meta or SysEx event is an error")
	nd.Reach("end")
}

// C05_First: a track that starts with a data byte where a status byte is needed, alone or after a track that ends with a channel event.
func C05_First() {
	body := []byte{0x00, data7(), data7(), 0x00, 0xff, 0x2f, 0x00}
	var b []byte
	if nd.Choose(2) == 0 {
		b = cat(header(0, 1, 96), chunk("MTrk", body))
	} else {
		b = cat(header(1, 2, 96), chunk("MTrk", genEvent(kNoteOn, 0, 0, nil).bytes()), chunk("MTrk", body))
	}
	_, err := decode(b)
	nd.Assert(err != nil, "a track cannot start with running status")
	nd.Reach("end")
}

// C05_After: a NoteOn or ProgramChange (thorough: any channel event), a meta or escape event, channel event with its status byte, and one with running status.
func C05_After() {
	first := []int{kNoteOn, kProgramChange}
	if nd.Thorough() {
		first = []int{kNoteOff, kNoteOn, kPolyPressure, kController, kProgramChange, kChannelPressure, kPitchBend}
	}
	a := genEvent(first[nd.Choose(len(first))], smallDelta(), 0, nil)
	m := genEvent(kSequenceNumber+nd.Choose(kEndOfTrack-kSequenceNumber), smallDelta(), 1, nd.Byte)
	b := genEvent(nd.Choose(kPitchBend+1), smallDelta(), 0, nil)
	c := genEvent(b.kind, smallDelta(), 0, nil)
	c.wire[0], c.nums[0] = b.wire[0], b.nums[0]
	sameTrack(cat(a.bytes(), m.bytes(), b.bytes(), c.bytes()), cat(a.bytes(), m.bytes(), b.bytes(), refVLQ(c.delta), c.wire[1:]))
}

func sameTrack(with, without []byte) {
	end := []byte{0x00, 0xff, 0x2f, 0x00}
	a := mustDecode(cat(header(0, 1, 96), chunk("MTrk", cat(with, end)))).Tracks[0]
	b := mustDecode(cat(header(0, 1, 96), chunk("MTrk", cat(without, end)))).Tracks[0]
	nd.Assert(len(a.Events) == len(b.Events), "as many events with running status as without")
	for i := range a.Events {
		nd.Assert(nd.And(sameEvent(a.Events[i], b.Events[i]), sameNames(a.Events[i], b.Events[i])), "the same event with running status as without")
	}
	observe(b)
	nd.Reach("end")
}

// C05_Big: 300 NoteOns of which every second, third or only the first has a status byte, the last two with arbitrary velocities.
//
// @steps 100000000
func C05_Big() {
	var with, without []byte
	n := []int{2, 3, 1000}[nd.Choose(3)]
	for i := 0; i < 300; i++ {
		e := on(uint32(i), 3, byte(i%128), byte(i%99+1))
		if i >= 298 {
			e = on(uint32(i), 3, 61, data7())
		}
		with = append(with, e.bytes()...)
		without = append(without, refVLQ(e.delta)...)
		if i%n == 0 {
			without = append(without, e.wire...)
		} else {
			without = append(without, e.wire[1:]...)
		}
	}
	sameTrack(with, without)
}

// C05_Divided: a NoteOn, the first packet of a divided SysEx message, with or without another NoteOn between it and a continuation that is the last one or not: it cancels running status. A data byte after it is an error, and a channel event needs its status byte.
func C05_Divided() {
	first := ev{wire: []byte{0xf0, 2, 0x43, data7()}}
	next := ev{wire: []byte{0xf7, 1, data7()}}
	if nd.Choose(2) == 1 {
		next = ev{wire: []byte{0xf7, 2, data7(), 0xf7}}
	}
	before := cat(on(0, 1, 60, 64).bytes(), first.bytes())
	if nd.Choose(2) == 1 {
		before = append(before, genEvent(kNoteOn, 0, 0, nil).bytes()...)
	}
	before = append(before, next.bytes()...)
	if nd.Choose(2) == 1 {
		smf, err := decode(cat(header(0, 1, 96), chunk("MTrk", cat(before, []byte{0, data7(), data7(), 0x00, 0xff, 0x2f, 0x00}))))
		nd.Assert(nd.And(err != nil, smf == nil), "a SysEx event cancels running status")
		nd.Reach("end")
		return
	}
	b := genEvent(nd.Choose(kPitchBend+1), smallDelta(), 0, nil)
	c := genEvent(b.kind, smallDelta(), 0, nil)
	c.wire[0], c.nums[0] = b.wire[0], b.nums[0]
	sameTrack(cat(before, b.bytes(), c.bytes()), cat(before, b.bytes(), refVLQ(c.delta), c.wire[1:]))
}
