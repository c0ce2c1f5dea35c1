package h

import (
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
)

func recorded(t *midi.MTrk, body []byte) {
	var b []byte
	for _, e := range t.Events {
		b = append(b, e.Bytes()...)
	}
	nd.Assert(nd.EqBytes(b, body), "the bytes of the events are the bytes of the track")
	nd.Assert(nd.EqBytes(t.Bytes, chunk("MTrk", body)), "a track records its chunk")
	nd.Assert(int(t.Length) == len(body), "a track records its length")
}

// C19_Any: any track of up to 5 (thorough: 7) bytes that can be decoded.
func C19_Any() {
	n := 6
	if nd.Thorough() {
		n = 8
	}
	body := symBytes(nd.Choose(n))
	smf, err := decode(cat(header(0, 1, 96), chunk("MTrk", body)))
	if err != nil {
		nd.Stop()
	}
	recorded(smf.Tracks[0], body)
	nd.Reach("end")
}

// C19_Pair: every pair of general kinds with arbitrary values, delta times below 2^28 and 2^7.
func C19_Pair() {
	evs := []ev{genEvent(nd.Choose(nGeneral), genDelta(), 2, nd.Byte), genEvent(nd.Choose(nGeneral), smallDelta(), 1, nd.Byte), eot(0)}
	b := track(evs...)
	t := mustDecode(cat(header(0, 1, 96), b)).Tracks[0]
	nd.Assert(len(t.Events) == 3, "as many events as in the track")
	for i, e := range evs {
		nd.Assert(nd.EqBytes(t.Events[i].Bytes(), e.bytes()), "an event records its delta time and its bytes")
	}
	recorded(t, b[8:])
	nd.Reach("end")
}

// C19_Running: a channel event of any kind, and two more with running status; note events are formatted again after parsing.
func C19_Running() {
	a := genEvent(nd.Choose(kPitchBend+1), smallDelta(), 0, nil)
	b := genEvent(a.kind, smallDelta(), 0, nil)
	c := genEvent(a.kind, smallDelta(), 0, nil)
	body := cat(a.bytes(), refVLQ(b.delta), b.wire[1:], refVLQ(c.delta), c.wire[1:], eot(0).bytes())
	t := mustDecode(cat(header(0, 1, 96), chunk("MTrk", body))).Tracks[0]
	nd.Assert(len(t.Events) == 4, "as many events as in the track")
	nd.Assert(nd.EqBytes(t.Events[1].Bytes(), cat(refVLQ(b.delta), b.wire[1:])), "an event with running status records its own bytes")
	recorded(t, body)
	nd.Reach("end")
}

// C19_Manufacturer: SysEx messages in one and two packets and sequencer specific events with arbitrary bytes.
func C19_Manufacturer() {
	var evs []ev
	switch nd.Choose(3) {
	case 0:
		evs = []ev{genEvent(kSysEx, smallDelta(), nd.Choose(3), nd.Byte)}
	case 1:
		evs = []ev{genEvent(kSequencerSpecific, smallDelta(), nd.Choose(3), nd.Byte)}
	case 2:
		evs = []ev{genEvent(kSysExFirst, smallDelta(), 1, nd.Byte), genEvent(kSysExLast, smallDelta(), 1, nd.Byte)}
	}
	evs = append(evs, eot(0))
	b := track(evs...)
	t := mustDecode(cat(header(0, 1, 96), b)).Tracks[0]
	for i, e := range evs {
		nd.Assert(nd.EqBytes(t.Events[i].Bytes(), e.bytes()), "an event records its delta time and its bytes")
	}
	recorded(t, b[8:])
	nd.Reach("end")
}

// C19_Tracks: one to three tracks, and a header of any format and valid division.
func C19_Tracks() {
	n := 1 + nd.Choose(3)
	h := header(uint16(nd.Choose(3)), uint16(n), genDivision())
	b := h
	var bodies [][]byte
	for i := 0; i < n; i++ {
		t := track(genEvent([]int{kNoteOn, kText}[nd.Choose(2)], 0, 2, nd.Byte), eot(0))
		bodies = append(bodies, t[8:])
		b = cat(b, t)
	}
	smf := mustDecode(b)
	nd.Assert(nd.EqBytes(smf.MThd.Bytes, h), "the header records its chunk")
	for i, t := range smf.Tracks {
		recorded(t, bodies[i])
	}
	nd.Reach("end")
}

// C19_Long: texts and escapes of 127, 128, 129, 255, 256 and 300 bytes (thorough: also 16383 and 16384).
func C19_Long() {
	b := track(genEvent([]int{kText, kEscape}[nd.Choose(2)], 0, longLength(), filler()), genEvent(kNoteOn, 0, 0, nil), eot(0))
	recorded(mustDecode(cat(header(0, 1, 96), b)).Tracks[0], b[8:])
	nd.Reach("end")
}

// C19_Big: files of 300 tracks, of a track of 400 events, and of a track with a text of 66000 bytes, fixed but for the last events.
//
// @steps 100000000
func C19_Big() {
	all := big()
	smf := mustDecode(bigFile(all))
	nd.Assert(len(smf.Tracks) == len(all), "every track is decoded")
	for i, t := range smf.Tracks {
		b := track(all[i]...)
		for j, e := range all[i] {
			nd.Assert(nd.EqBytes(t.Events[j].Bytes(), e.bytes()), "an event records its delta time and its bytes")
		}
		recorded(t, b[8:])
	}
	nd.Reach("end")
}
