package h

import (
	"verif/harness/nd"
)

// C08_Event: one event of each general kind with arbitrary values, one byte delta, texts and escapes of 0 or 1 ASCII byte (texts also of 2 printable ones), and an EndOfTrack.
func C08_Event() {
	n := nd.Choose(3)
	if n == 2 {
		jsonTrip(file1(genEvent(kText+nd.Choose(kDeviceName-kText+1), smallDelta(), n, printable), eot(0)))
	} else {
		jsonTrip(file1(genEvent(nd.Choose(nGeneral), smallDelta(), n, data7), eot(0)))
	}
}

// C08_Delta: a NoteOn, Text or Escape and an EndOfTrack with delta times below 2^28.
func C08_Delta() {
	jsonTrip(file1(fixedEvent([]int{kNoteOn, kText, kEscape}[nd.Choose(3)], genDelta()), eot(genDelta())))
}

// mixedPair is a pair of events of which one has arbitrary values and the other fixed ones.
func mixedPair() []ev {
	if nd.Choose(2) == 0 {
		return []ev{genEvent(mixedKind(), 0, 1, printable), fixedEvent(nd.Choose(nGeneral), 3), eot(0)}
	}
	return []ev{fixedEvent(nd.Choose(nGeneral), 3), genEvent(mixedKind(), 0, 1, printable), eot(0)}
}

// C08_Pair: pairs of an event of seven kinds (thorough: any general kind) with arbitrary values and one of any general kind with fixed values, in either order.
func C08_Pair() {
	jsonTrip(file1(mixedPair()...))
}

// C08_Manufacturer: a SysEx message and a sequencer specific event of any manufacturer (1 and 3 byte IDs), 0 to 2 data bytes.
func C08_Manufacturer() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	jsonTrip(file1(genEvent(kind, smallDelta(), nd.Choose(3), nd.Byte), eot(0)))
}

// C08_Tracks: files of formats 0 to 2 with 0 to 3 tracks of one event, any metrical division.
func C08_Tracks() {
	n := nd.Choose(4)
	b := header(uint16(nd.Choose(3)), uint16(n), nd.U16()&0x7fff)
	for i := 0; i < n; i++ {
		b = append(b, track(fixedEvent([]int{kNoteOn, kTempo, kTrackName}[nd.Choose(3)], 5), eot(0))...)
	}
	jsonTrip(b)
}

// banked is a track of bank selects (any MSB and one of three LSBs) and a program change.
func banked() []ev {
	c := upto(15)
	return []ev{
		{kind: kController, wire: []byte{0xb0 | c, 0, data7()}},
		{kind: kController, delta: 1, wire: []byte{0xb0 | c, 32, []byte{0, 1, 127}[nd.Choose(3)]}},
		{kind: kProgramChange, delta: 2, wire: []byte{0xc0 | c, data7()}},
		eot(0),
	}
}

// C08_Bank: bank selects with any MSB and one of three LSBs, then a program change, any channel.
func C08_Bank() {
	jsonTrip(file1(banked()...))
}

// C08_Empty: files of one to three tracks, each of which has an event, only an EndOfTrack, or nothing.
func C08_Empty() {
	jsonTrip(sparse())
}

func sparse() []byte {
	n := 1 + nd.Choose(3)
	b := header(1, uint16(n), 480)
	for i := 0; i < n; i++ {
		switch nd.Choose(3) {
		case 0:
			b = append(b, track(on(1, 2, byte(60+i), data7()), eot(0))...)
		case 1:
			b = append(b, track(eot(0))...)
		case 2:
			b = append(b, track()...)
		}
	}
	return b
}

// C08_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 printable bytes.
func C08_Long() {
	kinds := []int{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName, kEscape}
	i := 0
	f := func() byte {
		if i++; i == 100 {
			return printable()
		}
		return byte('a' + i%26)
	}
	jsonTrip(file1(genEvent(kinds[nd.Choose(len(kinds))], 0, longLength(), f), eot(0)))
}

// C08_Longer: a text, an escape, a sequencer specific event or a SysEx message in one or three packets, of 8 to 200 bytes, the last of which is any printable one.
func C08_Longer() { jsonTrip(file1(append(longEvents(false), eot(0))...)) }

// C08_UTF8: texts of any one character of two or three bytes (U+0080 to U+FFFF without surrogates and U+FFFD).
func C08_UTF8() {
	s := utf8Char()
	i := -1
	kinds := []int{kText, kTrackName}
	jsonTrip(file1(genEvent(kinds[nd.Choose(2)], 0, len(s), func() byte { i++; return s[i] }), eot(0)))
}

// utf8Char is any character of two or three bytes (U+0080 to U+FFFF without surrogates and U+FFFD).
func utf8Char() []byte {
	if nd.Choose(2) == 0 {
		a, b := nd.Byte(), nd.Byte()
		nd.Assume(nd.And(a >= 0xc2, a <= 0xdf, b&0xc0 == 0x80))
		return []byte{a, b}
	}
	a, b, c := nd.Byte(), nd.Byte(), nd.Byte()
	nd.Assume(nd.And(a&0xf0 == 0xe0, b&0xc0 == 0x80, c&0xc0 == 0x80))
	r := int(a&0xf)<<12 | int(b&0x3f)<<6 | int(c&0x3f)
	nd.Assume(nd.And(r >= 0x800, nd.Or(r < 0xd800, r > 0xdfff), r != 0xfffd))
	return []byte{a, b, c}
}

// C08_Big: files of 260 tracks, of a track of 300 events, and of a track with a text of 5000 bytes, fixed but for an arbitrary program in the last event.
//
// @steps 100000000
func C08_Big() { jsonTrip(bigFile(bigText())) }

// C08_Many: files of 11 to 300 tracks, the last with a note of any velocity.
//
// @steps 100000000
func C08_Many() { jsonTrip(manyTracks()) }

// C08_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C08_Track() { jsonTrip(file1(longTrack()...)) }
