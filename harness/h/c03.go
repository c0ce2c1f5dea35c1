package h

import "verif/harness/nd"

// C03_Event: one event of each general kind with arbitrary values, delta below 2^28, texts of 0 to 3 bytes, and an EndOfTrack.
func C03_Event() {
	decodesTo(genEvent(nd.Choose(nGeneral), genDelta(), nd.Choose(4), nd.Byte), eot(0))
}

// C03_Pair: every pair of general kinds with arbitrary values, texts of 1 byte, and an EndOfTrack.
func C03_Pair() {
	decodesTo(
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte),
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte),
		eot(smallDelta()))
}

// C03_Triple: every triple of general kinds with arbitrary values, texts of 1 byte, and an EndOfTrack.
//
// @tier thorough
func C03_Triple() {
	decodesTo(
		genEvent(nd.Choose(nGeneral), 0, 1, nd.Byte),
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte),
		genEvent(nd.Choose(nGeneral), 0, 1, nd.Byte),
		eot(0))
}

// C03_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 bytes (thorough: also 16383 and 16384), then a NoteOn.
func C03_Long() {
	kinds := []int{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName, kEscape}
	decodesTo(genEvent(kinds[nd.Choose(len(kinds))], 0, longLength(), filler()), genEvent(kNoteOn, 0, 0, nil), eot(0))
}

// C03_Many: 60 events (thorough: 600) in one track: pitch bends, channel pressures, texts, tempi and escapes with arbitrary values.
func C03_Many() {
	n := 60
	if nd.Thorough() {
		n = 600
	}
	var evs []ev
	for i := 0; i < n; i++ {
		evs = append(evs, genEvent([]int{kPitchBend, kChannelPressure, kText, kTempo, kEscape}[i%5], smallDelta(), i%7, nd.Byte))
	}
	decodesTo(append(evs, eot(0))...)
}

// C03_Manufacturer: a SysEx message and a sequencer specific event of any manufacturer (1 and 3 byte IDs), 0 to 2 data bytes.
func C03_Manufacturer() {
	decodesTo(genEvent([]int{kSysEx, kSequencerSpecific}[nd.Choose(2)], smallDelta(), nd.Choose(3), nd.Byte), eot(0))
}

// C03_Tracks: 1 to 4 tracks of one event each; each track has its own events.
func C03_Tracks() {
	n := 1 + nd.Choose(4)
	b := header(1, uint16(n), 96)
	var all [][]ev
	for i := 0; i < n; i++ {
		evs := []ev{genEvent([]int{kNoteOn, kMarker}[nd.Choose(2)], smallDelta(), 1, nd.Byte), eot(smallDelta())}
		all = append(all, evs)
		b = append(b, track(evs...)...)
	}
	smf := mustDecode(b)
	nd.Assert(len(smf.Tracks) == n, "as many tracks as in the file")
	for i, t := range smf.Tracks {
		nd.Assert(int(t.TrackNumber) == i, "tracks are numbered in order")
		trackSays(t, all[i], "as many events as in the track", "the event has the values of its bytes")
	}
	nd.Reach("end")
}

func decodesTo(evs ...ev) {
	t := mustDecode(file1(evs...)).Tracks[0]
	trackSays(t, evs, "as many events as in the track", "the event has the values of its bytes")
	observe(t)
	nd.Reach("end")
}

// C03_PolyphonicPressure: a polyphonic pressure event as the specification has it: a note and a pressure, then a NoteOn.
func C03_PolyphonicPressure() {
	c, note, pressure := upto(15), data7(), data7()
	e := ev{kind: kPolyPressure, wire: []byte{0xa0 | c, note, pressure}, nums: []uint64{uint64(c), uint64(pressure)}}
	nd.Finding("polyphonic-pressure", true)
	smf, err := decode(file1(e, genEvent(kNoteOn, 0, 0, nil), eot(0)))
	nd.Assert(err == nil, "a two byte polyphonic pressure event is decoded")
	nd.Assert(len(smf.Tracks[0].Events) == 3, "a two byte polyphonic pressure event is decoded")
	nd.Assert(e.says(smf.Tracks[0].Events[0]), "a two byte polyphonic pressure event is decoded")
	nd.Reach("end")
}

// C03_PitchBend: a pitch bend event as the specification has it: the low 7 bits first. Values whose bytes are equal are decoded as specified.
func C03_PitchBend() {
	c, lsb, msb := upto(15), data7(), data7()
	e := ev{kind: kPitchBend, wire: []byte{0xe0 | c, lsb, msb}, nums: []uint64{uint64(c), uint64(msb)<<7 | uint64(lsb)}}
	nd.Finding("pitch-bend", lsb != msb)
	smf := mustDecode(file1(e, eot(0)))
	nd.Assert(e.says(smf.Tracks[0].Events[0]), "the pitch bend has the value of its bytes")
	nd.Reach("end")
}

// C03_Big: files of 300 tracks, of a track of 400 events, and of a track with a text of 66000 bytes, fixed but for the last events.
//
// @steps 100000000
func C03_Big() {
	all := big()
	smf := mustDecode(bigFile(all))
	nd.Assert(len(smf.Tracks) == len(all), "as many tracks as in the file")
	for i, t := range smf.Tracks {
		nd.Assert(int(t.TrackNumber) == i, "tracks are numbered in order")
		trackSays(t, all[i], "as many events as in the track", "the event has the values of its bytes")
	}
	nd.Reach("end")
}
