package h

import (
	"bytes"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

// C09_Event: one event of each general kind with arbitrary values, one byte delta, texts of 1 printable byte, escapes of 1 byte.
func C09_Event() {
	kind := nd.Choose(nGeneral)
	next := word
	if kind == kEscape {
		next = nd.Byte
	}
	textTrip(file1(genEvent(kind, smallDelta(), 1, next), eot(0)))
}

// C09_Delta: a NoteOn, Text or Escape and an EndOfTrack with delta times below 2^28.
func C09_Delta() {
	textTrip(file1(fixedEvent([]int{kNoteOn, kText, kEscape}[nd.Choose(3)], genDelta()), eot(genDelta())))
}

// C09_Text: texts of 0, 2 and 3 printable characters.
func C09_Text() {
	n := []int{0, 2, 3}[nd.Choose(3)]
	textTrip(file1(genEvent(kText+nd.Choose(kDeviceName-kText+1), 0, n, word), eot(0)))
}

// C09_Escape: escapes of 0, 2 and 3 bytes.
func C09_Escape() {
	textTrip(file1(genEvent(kEscape, 0, []int{0, 2, 3}[nd.Choose(3)], nd.Byte), eot(0)))
}

// C09_Pair: pairs of an event of seven kinds (thorough: any general kind) with arbitrary values and one of any general kind with fixed values, in either order.
func C09_Pair() {
	var evs []ev
	kind := mixedKind()
	a, b := genEvent(kind, 0, 1, word), fixedEvent(nd.Choose(nGeneral), 3)
	if nd.Choose(2) == 0 {
		evs = []ev{a, b, eot(0)}
	} else {
		evs = []ev{b, a, eot(0)}
	}
	textTrip(file1(evs...))
}

// C09_Manufacturer: a SysEx message and a sequencer specific event of any known manufacturer, 0 to 2 data bytes.
func C09_Manufacturer() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	in := file1(genEvent(kind, 0, nd.Choose(3), nd.Byte), eot(0))
	if !known(mustDecode(in).Tracks[0].Events[0]) {
		nd.Stop()
	}
	textTrip(in)
}

// C09_Tracks: files of formats 0 to 2 with 0 to 3 tracks of one event, any metrical division.
func C09_Tracks() {
	n := nd.Choose(4)
	b := header(uint16(nd.Choose(3)), uint16(n), nd.U16()&0x7fff)
	for i := 0; i < n; i++ {
		b = append(b, track(fixedEvent([]int{kNoteOn, kTempo, kTrackName}[nd.Choose(3)], 5), eot(0))...)
	}
	textTrip(b)
}

// C09_Bank: bank selects with any MSB and one of three LSBs, then a program change, any channel.
func C09_Bank() {
	textTrip(file1(banked()...))
}

// C09_Empty: files of one to three tracks, each of which has an event, only an EndOfTrack, or nothing.
func C09_Empty() {
	textTrip(sparse())
}

// C09_UTF8: texts with any one character of two or three bytes (U+0080 to U+FFFF without surrogates and U+FFFD) between two letters.
func C09_UTF8() {
	s := cat([]byte("a"), utf8Char(), []byte("b"))
	i := -1
	kinds := []int{kText, kTrackName}
	textTrip(file1(genEvent(kinds[nd.Choose(2)], 0, len(s), func() byte { i++; return s[i] }), eot(0)))
}

// C09_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 printable bytes.
func C09_Long() {
	kinds := []int{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName, kEscape}
	i := 0
	f := func() byte {
		if i++; i == 100 {
			return word()
		}
		return byte('a' + i%26)
	}
	textTrip(file1(genEvent(kinds[nd.Choose(len(kinds))], 0, longLength(), f), eot(0)))
}

// C09_Longer: a text, an escape, a sequencer specific event or a SysEx message in one or three packets, of 8 to 200 bytes, the last of which is any letter or digit.
func C09_Longer() {
	evs := longEvents(true)
	in := file1(append(evs, eot(0))...)
	if k := evs[0].kind; (k == kSysEx || k == kSequencerSpecific) && !known(mustDecode(in).Tracks[0].Events[0]) {
		nd.Stop()
	}
	textTrip(in)
}

// known: the manufacturer of the event has a name.
func known(e *events.Event) bool {
	switch m := e.Event.(type) {
	case sysex.SysExMessage:
		return m.Manufacturer.Name != "<unknown>"
	case metaevent.SequencerSpecificEvent:
		return m.Manufacturer.Name != "<unknown>"
	}
	return true
}

// C09_Blanks: texts of three printable characters that do not start with a blank.
func C09_Blanks() {
	first := true
	f := func() byte {
		if first {
			first = false
			return word()
		}
		b := nd.Byte()
		nd.Assume(nd.And(b >= 0x20, b < 0x7f))
		return b
	}
	textTrip(file1(genEvent([]int{kText, kLyric, kMarker}[nd.Choose(3)], 0, 3, f), eot(0)))
}

// C09_Big: files of 260 tracks, of a track of 300 events, and of a track with a text of 5000 bytes, fixed but for an arbitrary program in the last event.
//
// @steps 100000000
func C09_Big() { textTrip(bigFile(bigText())) }

// C09_Names: texts that are or contain the name of an event or chunk type or of a field, alone, after or before an arbitrary character, or as two words.
func C09_Names() {
	name := append(append([]string{}, tags[:]...), "MThd", "MTrk", "delta:17", "tick:3", "%%")[nd.Choose(len(tags)+5)]
	kind := kText + nd.Choose(kDeviceName-kText+1)
	text := []byte(name)
	switch nd.Choose(4) {
	case 1:
		text = append([]byte{word()}, text...)
	case 2:
		text = append(text, word())
	case 3:
		text = append([]byte("x "), append(text, " y"...)...)
	}
	i := -1
	next := func() byte { i++; return text[i] }
	textTrip(file1(on(1, 2, 60, 64), genEvent(kind, 4, len(text), next), tempo(3, 500000), eot(0)))
}

// C09_Comments: comment lines, with the name of an event or chunk type or an arbitrary character, before any line of a disassembly change nothing.
func C09_Comments() {
	in := file1(on(1, 2, data7(), 64), genEvent(kText, 4, 2, word), eot(0))
	smf := mustDecode(in)
	lines := bytes.Split(printed(smf, "document"), []byte("\n"))
	word := []string{"MThd", "MTrk", "NoteOn", "EndOfTrack", ""}[nd.Choose(5)]
	comment := append(append([]byte("%%"), printable()), word...)
	at := nd.Choose(len(lines) + 1)
	var b []byte
	for i, l := range lines {
		if i == at {
			b = append(append(b, comment...), '\n')
		}
		b = append(append(b, l...), '\n')
	}
	if at == len(lines) {
		b = append(append(b, comment...), '\n')
	}
	got, err := txt().Assemble(bytes.NewReader(b))
	nd.Assert(err == nil, "a disassembly with comments is assembled")
	sameFile(smf, mustDecode(got), "assembled with comments")
	nd.Reach("end")
}

// C09_Line: a text of 66000 characters, of which the last is arbitrary, between two other events.
//
// @steps 200000000
func C09_Line() {
	i := 0
	t := genEvent(kText, 0, 66000, func() byte {
		i++
		if i == 66000 {
			return word()
		}
		return byte('a' + i%26)
	})
	textTrip(file1(fixedEvent(kTempo, 1), t, fixedEvent(kNoteOn, 1), eot(0)))
}

// C09_Many: files of 11 to 300 tracks, the last with a note of any velocity.
//
// @steps 100000000
func C09_Many() { textTrip(manyTracks()) }

// C09_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C09_Track() { textTrip(file1(longTrack()...)) }
