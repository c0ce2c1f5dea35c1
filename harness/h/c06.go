package h

import (
	"bytes"
	"errors"

	"verif/harness/nd"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// wellFormed reads an encoded file as the SMF specification has it and asserts
// that it holds exactly the reference events.
func wellFormed(b []byte, format, division uint16, tracks [][]ev) {
	nd.Assert(len(b) >= 14, "an encoded file has a 14 byte header")
	nd.Assert(nd.EqBytes(b[:14], header(format, uint16(len(tracks)), division)), "the header has the format, number of tracks and division")
	b = b[14:]
	for _, evs := range tracks {
		nd.Assert(len(b) >= 8, "there is a chunk for every track")
		nd.Assert(nd.EqBytes(b[:4], []byte("MTrk")), "every chunk is an MTrk chunk")
		n := uint32(b[4])<<24 | uint32(b[5])<<16 | uint32(b[6])<<8 | uint32(b[7])
		b = b[8:]
		i := 0
		var running byte
		for _, e := range evs {
			d := refVLQ(e.delta)
			nd.Assert(len(b) >= i+len(d)+1, "the track has every event")
			nd.Assert(nd.EqBytes(b[i:i+len(d)], d), "every event has its delta time")
			i += len(d)
			w := e.wire
			if nd.And(isMIDI(e.kind), running == w[0], b[i] < 0x80) {
				w = w[1:]
			}
			nd.Assert(len(b) >= i+len(w), "the track has every event")
			nd.Assert(nd.EqBytes(b[i:i+len(w)], w), "every event has its bytes, with or without running status")
			i += len(w)
			if isMIDI(e.kind) {
				running = e.wire[0]
			} else {
				running = 0
			}
		}
		nd.Assert(n == uint32(i), "the length of a track is the number of its bytes")
		b = b[i:]
	}
	nd.Assert(len(b) == 0, "nothing follows the last track")
	nd.Reach("end")
}

func encodesTo(format, division uint16, tracks ...[]ev) {
	in := header(format, uint16(len(tracks)), division)
	for _, evs := range tracks {
		in = append(in, track(evs...)...)
	}
	b := mustEncode(mustDecode(in))
	nd.Observe("encoded", b)
	wellFormed(b, format, division, tracks)
}

// C06_Event: one event of each general kind with arbitrary values, delta below 2^28, texts of 0 to 2 bytes, and an EndOfTrack.
func C06_Event() {
	encodesTo(0, 480, []ev{genEvent(nd.Choose(nGeneral), genDelta(), nd.Choose(3), nd.Byte), eot(0)})
}

// C06_Pair: every pair of general kinds with arbitrary values, and an EndOfTrack.
func C06_Pair() {
	encodesTo(0, 480, []ev{genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte), genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte), eot(smallDelta())})
}

// C06_Channel: three (thorough: four) channel events of any kinds and values, any two neighbours with the same or different statuses.
func C06_Channel() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var evs []ev
	for i := 0; i < n; i++ {
		evs = append(evs, genEvent(nd.Choose(kPitchBend+1), 0, 0, nil))
	}
	encodesTo(0, 480, append(evs, eot(0)))
}

// C06_Between: NoteOns and NoteOffs of any values with a meta or escape event between them.
func C06_Between() {
	encodesTo(0, 480, []ev{
		genEvent(kNoteOff+nd.Choose(2), 0, 0, nil),
		genEvent([]int{kText, kEscape, kTempo}[nd.Choose(3)], 0, 1, nd.Byte),
		genEvent(kNoteOff+nd.Choose(2), 0, 0, nil),
		genEvent(kNoteOff+nd.Choose(2), 0, 0, nil),
		eot(0)})
}

// C06_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 bytes (thorough: also 16383 and 16384).
func C06_Long() {
	kinds := []int{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName, kEscape}
	encodesTo(0, 480, []ev{genEvent(kinds[nd.Choose(len(kinds))], 0, longLength(), filler()), eot(0)})
}

// C06_Manufacturer: SysEx messages and sequencer specific events of any manufacturer (1 and 3 byte IDs), 0 to 2 or 128 data bytes.
func C06_Manufacturer() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	next := nd.Byte
	n := []int{0, 1, 2, 128}[nd.Choose(4)]
	if n == 128 {
		next = filler()
	}
	encodesTo(0, 480, []ev{genEvent(kind, smallDelta(), n, next), eot(0)})
}

// C06_Tracks: files of formats 0 to 2 with 0 to 3 tracks of up to two events, any metrical or SMPTE division.
func C06_Tracks() {
	n := nd.Choose(4)
	var tracks [][]ev
	for i := 0; i < n; i++ {
		evs := []ev{genEvent([]int{kNoteOn, kTempo, kTrackName}[nd.Choose(3)], smallDelta(), 1, nd.Byte)}
		if nd.Choose(2) == 1 {
			evs = append(evs, genEvent(kNoteOn, 0, 0, nil))
		}
		tracks = append(tracks, append(evs, eot(0)))
	}
	encodesTo(uint16(nd.Choose(3)), genDivision(), tracks...)
}

var errFull = errors.New("no space left")

// full is a writer that takes a number of bytes and then fails.
type full struct {
	b    bytes.Buffer
	room int
}

func (w *full) Write(p []byte) (int, error) {
	n := len(p)
	if n > w.room {
		n = w.room
	}
	w.room -= n
	w.b.Write(p[:n])
	if n < len(p) {
		return n, errFull
	}
	return n, nil
}

// C06_Full: a destination that fails after any number of bytes, for files with 0 to 2 tracks.
func C06_Full() {
	n := nd.Choose(3)
	in := header(uint16(nd.Choose(3)), uint16(n), 96)
	for i := 0; i < n; i++ {
		in = append(in, track(genEvent(kNoteOn, 0, 0, nil), eot(0))...)
	}
	smf := mustDecode(in)
	w := full{room: nd.Int(0, 60)}
	room := w.room
	err := midifile.NewEncoder(&w).Encode(*smf)
	nd.Assert((err != nil) == (room < len(in)), "encoding fails exactly if the destination cannot take the file")
	nd.Reach("end")
}

// C06_Header: a file of any format without a header, and headers that disagree with the number of tracks (any 16-bit number).
func C06_Header() {
	n := nd.Choose(3)
	in := header(1, uint16(n), 96)
	for i := 0; i < n; i++ {
		in = append(in, track(eot(0))...)
	}
	smf := mustDecode(in)
	if nd.Choose(2) == 0 {
		smf.MThd = nil
		_, err := encode(smf)
		nd.Assert(err != nil, "a file without a header is not encoded")
	} else {
		t := nd.U16()
		nd.Assume(int(t) != n)
		h := *smf.MThd
		h.Tracks = t
		_, err := encode(&midi.SMF{MThd: &h, Tracks: smf.Tracks})
		nd.Assert(err != nil, "a header that disagrees with the number of tracks is not encoded")
	}
	nd.Reach("end")
}

// C06_Made: a header made with MakeMThd, of any valid format and division, and an empty track made with NewMTrk.
func C06_Made() {
	n := nd.Choose(2)
	format, division := uint16(nd.Choose(3)), nd.U16()&0x7fff
	mthd := midi.MakeMThd(format, uint16(n), division)
	smf := midi.SMF{MThd: &mthd}
	for i := 0; i < n; i++ {
		mtrk, err := midi.NewMTrk()
		nd.Assert(err == nil, "a new track is made")
		mtrk.TrackNumber = lib.TrackNumber(i)
		smf.Tracks = append(smf.Tracks, mtrk)
	}
	b, err := encode(&smf)
	nd.Assert(err == nil, "a new file is encoded without error")
	wellFormed(b, format, division, make([][]ev, n))
}

// C06_Big: files of 300 tracks, of a track of 400 events, and of a track with a text of 66000 bytes, fixed but for the last events.
//
// @steps 100000000
func C06_Big() { encodesTo(1, 480, big()...) }
