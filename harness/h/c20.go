package h

import "verif/harness/nd"

// leftover is the body of a track that leaves state behind.
func leftover() []byte {
	switch nd.Choose(8) {
	case 0: // running status
		return genEvent(nd.Choose(kPitchBend+1), smallDelta(), 0, nil).bytes()
	case 1: // a selected bank
		return []byte{0, 0xb0 | upto(15), byte(32 * nd.Choose(2)), data7()}
	case 2: // flats
		return []byte{0, 0xff, 0x59, 2, 0xfd, upto(1)}
	case 3: // a sounding note named with a flat
		return []byte{0, 0xff, 0x59, 2, 0xfd, 0, 0, 0x90 | upto(15), data7(), 64}
	case 4: // a pending SysEx message
		return []byte{0, 0xf0, 2, 0x7e, data7()}
	case 5: // a large tick
		return append(refVLQ(nd.U32()&(1<<28-1)), 0xff, 0x2f, 0)
	case 6: // an empty track
		return nil
	}
	return []byte{0, 0xff, 0x2f, 0}
}

// probe is the body of a track whose meaning could depend on what came before.
func probe() []byte {
	end := []byte{0, 0xff, 0x2f, 0}
	switch nd.Choose(6) {
	case 0: // a note
		return cat([]byte{data7(), 0x90 | upto(15), data7(), data7()}, end)
	case 1: // the end of a note that has no start
		return cat([]byte{data7(), 0x80 | upto(15), data7(), data7()}, end)
	case 2: // a program
		return cat([]byte{data7(), 0xc0 | upto(15), data7()}, end)
	case 3: // an escape or the continuation of a SysEx message
		return cat([]byte{data7(), 0xf7, 2, nd.Byte(), nd.Byte()}, end)
	case 4: // a SysEx message
		return cat([]byte{data7(), 0xf0, 3, 0x7e, data7(), 0xf7}, end)
	}
	// a data byte in place of a status byte
	return cat([]byte{0, data7(), data7()}, end)
}

// C20_Tracks: a track of one to two symbolic events after one (thorough: one or two) that leaves state behind: running status, a bank, flats, a sounding note, a pending SysEx message or a tick.
func C20_Tracks() {
	first, body := leftover(), probe()
	alone, errAlone := decode(cat(header(0, 1, 96), chunk("MTrk", body)))
	before := chunk("MTrk", first)
	n := 1
	if nd.Thorough() && nd.Choose(2) == 1 {
		before = cat(before, chunk("MTrk", leftover()))
		n = 2
	}
	both, errBoth := decode(cat(header(1, uint16(n+1), 96), before, chunk("MTrk", body)))
	nd.Assert((errAlone == nil) == (errBoth == nil), "a track is accepted whatever comes before it")
	if errAlone == nil {
		a, b := alone.Tracks[0], both.Tracks[n]
		nd.Assert(len(a.Events) == len(b.Events), "a track has the same events whatever comes before it")
		for i := range a.Events {
			nd.Assert(nd.And(sameEvent(a.Events[i], b.Events[i]), sameNames(a.Events[i], b.Events[i])), "an event is the same whatever track comes before")
		}
	}
	nd.Reach("end")
}

// C20_Files: the same for a file decoded before (and a file that fails to decode), with the same decoder or a new one.
func C20_Files() {
	first, body := leftover(), probe()
	in := cat(header(0, 1, 96), chunk("MTrk", body))
	alone, errAlone := decode(in)
	if nd.Choose(2) == 1 {
		first = append(first, 0x00)
	}
	decode(cat(header(0, 1, 96), chunk("MTrk", first)))
	after, errAfter := decode(in)
	nd.Assert((errAlone == nil) == (errAfter == nil), "a file is accepted whatever was decoded before")
	if errAlone == nil {
		a, b := alone.Tracks[0], after.Tracks[0]
		nd.Assert(len(a.Events) == len(b.Events), "a file has the same events whatever was decoded before")
		for i := range a.Events {
			nd.Assert(nd.And(sameEvent(a.Events[i], b.Events[i]), sameNames(a.Events[i], b.Events[i])), "an event is the same whatever was decoded before")
		}
	}
	nd.Reach("end")
}

// C20_Input: decoding and encoding leave the bytes of the input and the decoded file as they were; one event of each general kind.
func C20_Input() {
	b := file1(genEvent(nd.Choose(nGeneral), genDelta(), 2, nd.Byte), eot(0))
	before := append([]byte{}, b...)
	smf := mustDecode(b)
	nd.Assert(nd.EqBytes(b, before), "decoding does not change the bytes")
	again := mustDecode(b)
	mustEncode(smf)
	nd.Assert(nd.EqBytes(b, before), "encoding does not change the bytes")
	sameFile(smf, again, "after encoding")
	var rec []byte
	for _, e := range smf.Tracks[0].Events {
		rec = append(rec, e.Bytes()...)
	}
	nd.Assert(nd.EqBytes(rec, before[22:]), "encoding does not change the recorded bytes")
	nd.Reach("end")
}

// C20_Reuse: changing the caller's buffer after decoding does not change the decoded file; one event of each general kind.
func C20_Reuse() {
	b := file1(genEvent(nd.Choose(nGeneral), smallDelta(), 2, nd.Byte), eot(0))
	orig := append([]byte{}, b...)
	smf := mustDecode(b)
	for i := range b {
		b[i] = 0x55
	}
	sameFile(mustDecode(orig), smf, "after reusing the buffer")
	nd.Reach("end")
}

// C20_Big: 300 tracks of which the last has arbitrary values and all others leave state behind: each is decoded as if it were alone.
//
// @steps 100000000
func C20_Big() {
	var all [][]ev
	for i := 0; i < 299; i++ {
		c := byte(i % 16)
		all = append(all, []ev{
			{kind: kController, wire: []byte{0xb0 | c, 0, byte(i % 128)}}, {kind: kKeySignature, wire: []byte{0xff, 0x59, 2, 0xfd, 0}},
			on(uint32(i), c, 61, 64), {kind: kSysExFirst, wire: []byte{0xf0, 2, 0x43, 1}}, eot(0)})
	}
	all = append(all, []ev{genEvent(kProgramChange, smallDelta(), 0, nil), genEvent(kNoteOff, 0, 0, nil), genEvent(kEscape, 0, 1, nd.Byte), eot(0)})
	smf := mustDecode(bigFile(all))
	nd.Assert(len(smf.Tracks) == len(all), "every track is decoded")
	for _, i := range []int{0, 1, 15, 16, 17, 255, 256, 257, 298, 299} {
		alone := mustDecode(cat(header(1, 1, 480), track(all[i]...)))
		a, b := alone.Tracks[0], smf.Tracks[i]
		nd.Assert(len(a.Events) == len(b.Events), "a track is decoded as if it were alone")
		for j := range a.Events {
			nd.Assert(nd.And(sameEvent(a.Events[j], b.Events[j]), sameNames(a.Events[j], b.Events[j])), "a track is decoded as if it were alone")
		}
	}
	nd.Reach("end")
}
