package h

import "verif/harness/nd"

// C02_Event: one event of each general kind with arbitrary values, delta below 2^28, texts of 0 to 3 bytes, and an EndOfTrack.
func C02_Event() {
	evs := []ev{genEvent(nd.Choose(nGeneral), genDelta(), nd.Choose(4), nd.Byte), eot(0)}
	roundTrip(evs)
}

// C02_Pair: every pair of general kinds with arbitrary values and one byte deltas, texts of 1 byte, and an EndOfTrack.
func C02_Pair() {
	roundTrip([]ev{
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte),
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte),
		eot(smallDelta()),
	})
}

// C02_Channel: three (thorough: four) channel events of any kinds and values, one of them optionally preceded by a Text, Escape or SysEx event.
func C02_Channel() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var evs []ev
	between := nd.Choose(3)
	at := nd.Choose(n)
	for i := 0; i < n; i++ {
		if i == at {
			switch between {
			case 1:
				evs = append(evs, genEvent(kText, 0, 1, nd.Byte))
			case 2:
				evs = append(evs, genEvent(kEscape, 0, 1, nd.Byte))
			}
		}
		evs = append(evs, genEvent(nd.Choose(kPitchBend+1), 0, 0, nil))
	}
	roundTrip(append(evs, eot(0)))
}

// C02_Triple: every triple of general kinds with arbitrary values, texts of 1 byte, and an EndOfTrack.
//
// @tier thorough
func C02_Triple() {
	roundTrip([]ev{
		genEvent(nd.Choose(nGeneral), 0, 1, nd.Byte),
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte),
		genEvent(nd.Choose(nGeneral), 0, 1, nd.Byte),
		eot(0),
	})
}

// C02_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 bytes (thorough: also 16383 and 16384), the first and last byte arbitrary.
func C02_Long() {
	kinds := []int{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName, kEscape}
	roundTrip([]ev{genEvent(kinds[nd.Choose(len(kinds))], 0, longLength(), filler()), eot(0)})
}

// C02_Manufacturer: a SysEx message and a sequencer specific event of any manufacturer (1 and 3 byte IDs), 0 to 2 data bytes (thorough: also 128).
func C02_Manufacturer() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	l := []int{0, 1, 2}
	if nd.Thorough() {
		l = append(l, 128)
	}
	roundTrip([]ev{genEvent(kind, smallDelta(), l[nd.Choose(len(l))], nd.Byte), eot(0)})
}

// C02_Tracks: files of formats 0 to 2 with 0 to 3 tracks of up to two events, any metrical or SMPTE division.
func C02_Tracks() {
	n := nd.Choose(4)
	b := header(uint16(nd.Choose(3)), uint16(n), genDivision())
	for i := 0; i < n; i++ {
		evs := []ev{genEvent([]int{kNoteOn, kTempo, kTrackName}[nd.Choose(3)], smallDelta(), 1, nd.Byte)}
		if nd.Choose(2) == 1 {
			evs = append(evs, genEvent(kNoteOn, 0, 0, nil))
		}
		b = append(b, track(append(evs, eot(0))...)...)
	}
	roundTripBytes(b)
}

func roundTrip(evs []ev) { roundTripBytes(file1(evs...)) }

func roundTripBytes(in []byte) {
	a := mustDecode(in)
	b := mustEncode(a)
	c, err := decode(b)
	nd.Assert(err == nil, "the encoding of a decoded file is decoded without error")
	sameFile(a, c, "binary round trip")
	for _, t := range c.Tracks {
		observe(t)
	}
	nd.Reach("end")
}

// C02_Big: files of 300 tracks, of a track of 400 events, and of a track with a text of 66000 bytes, fixed but for the last events.
//
// @steps 100000000
func C02_Big() { roundTripBytes(bigFile(big())) }

// C02_Many: files of 11 to 300 tracks, the last with a note of any velocity.
//
// @steps 100000000
func C02_Many() { roundTripBytes(manyTracks()) }

// C02_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C02_Track() { roundTripBytes(file1(longTrack()...)) }
