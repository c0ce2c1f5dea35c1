package h

import (
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
)

// C17_Header: every value of the six bytes of the header, with 0 to 2 tracks.
func C17_Header() {
	h := symBytes(6)
	n := nd.Choose(3)
	b := chunk("MThd", h)
	for i := 0; i < n; i++ {
		b = append(b, track(eot(0))...)
	}
	format, tracks, division := int(h[0])<<8|int(h[1]), int(h[2])<<8|int(h[3]), int(h[4])<<8|int(h[5])
	rate := h[4]
	smpte := nd.Or(rate == 0xe8, rate == 0xe7, rate == 0xe3, rate == 0xe2)
	valid := nd.And(format <= 2, tracks == n, nd.Or(rate < 0x80, smpte))
	smf, err := decode(b)
	nd.Assert((err == nil) == valid, "exactly the valid headers are accepted")
	if err != nil {
		nd.Assert(smf == nil, "an invalid header gives no file")
		nd.Stop()
	}
	m := smf.MThd
	nd.Assert(nd.And(int(m.Format) == format, int(m.Tracks) == tracks, int(m.Division) == division), "format, tracks and division are those of the header")
	if rate < 0x80 {
		nd.Assert(nd.And(int(m.PPQN) == division, !m.SMPTETimeCode), "a metrical division is the number of pulses per quarter note")
	} else {
		fps := nd.Ite(rate == 0xe8, 24, nd.Ite(rate == 0xe7, 25, nd.Ite(rate == 0xe3, 29, 30)))
		nd.Assert(nd.And(m.SMPTETimeCode, int(m.FPS) == fps, m.DropFrame == (rate == 0xe3), int(m.SubFrames) == int(h[5])), "an SMPTE division is the frame rate and the number of sub-frames")
	}
	nd.Assert(len(smf.Tracks) == n, "the file has its tracks")
	nd.Assert(nd.EqBytes(m.Bytes, b[:14]), "the header records its bytes")
	nd.Observe("mthd", m.Format, m.Tracks, m.Division, m.PPQN, m.SMPTETimeCode, m.FPS, m.DropFrame, m.SubFrames)
	nd.Reach("end")
}

// C17_Tag: a first chunk of any other type, or of any length but 6 (0 to 10 bytes), followed by a track or by a valid file.
func C17_Tag() {
	tag := []byte("MThd")
	n := 6
	if nd.Choose(2) == 0 {
		tag = symBytes(4)
		nd.Assume(!nd.EqBytes(tag, []byte("MThd")))
	} else {
		n = nd.Choose(11)
		if n == 6 {
			nd.Stop()
		}
	}
	h := []byte{0, 0, 0, 1, 0, 96, 0, 0, 0, 0}[:n]
	rest := track(eot(0))
	if nd.Choose(2) == 1 {
		rest = file1(eot(0))
	}
	smf, err := decode(cat(chunk(string(tag), h), rest))
	nd.Assert(nd.And(err != nil, smf == nil), "a file must start with a 6 byte MThd chunk")
	nd.Reach("end")
}

// C17_Chunks: up to four (thorough: six) chunks after the header, each a track, an empty track or an unknown chunk of any other type with 0 or 3 arbitrary bytes, and any declared number of tracks.
func C17_Chunks() {
	most := 4
	if nd.Thorough() {
		most = 6
	}
	n := nd.Choose(most + 1)
	var b []byte
	var all [][]ev
	for i := 0; i < n; i++ {
		switch nd.Choose(4) {
		case 3:
			all = append(all, nil)
			b = append(b, track()...)
		case 0:
			evs := []ev{genEvent(kNoteOn, smallDelta(), 0, nil), eot(0)}
			all = append(all, evs)
			b = append(b, track(evs...)...)
		case 1:
			b = append(b, chunk("XFIH", nil)...)
		case 2:
			tag := symBytes(4)
			nd.Assume(!nd.EqBytes(tag, []byte("MTrk")))
			b = append(b, chunk(string(tag), symBytes(3))...)
		}
	}
	t := nd.U16()
	smf, err := decode(cat(header(1, t, 96), b))
	nd.Assert((err == nil) == (int(t) == len(all)), "a file is accepted exactly if it has as many tracks as declared")
	if err == nil {
		nd.Assert(len(smf.Tracks) == len(all), "the file has its tracks")
		for i, mtrk := range smf.Tracks {
			nd.Assert(int(mtrk.TrackNumber) == i, "tracks are numbered in order")
			trackSays(mtrk, all[i], "as many events as in the track", "unknown chunks leave the tracks as they are")
		}
	}
	nd.Reach("end")
}

// C17_Second: a second MThd chunk is skipped as any other chunk that is not a track.
func C17_Second() {
	h := symBytes(6)
	smf := mustDecode(cat(header(0, 1, 96), chunk("MThd", h), track(eot(0))))
	nd.Assert(nd.And(smf.MThd.Format == 0, smf.MThd.Tracks == 1, smf.MThd.Division == 96), "the first header counts")
	nd.Reach("end")
}

// C17_Big: 60 chunks, of which every second, third or fifth is unknown and as long as its place, and a track of an arbitrary note at the end; any declared number of tracks.
func C17_Big() {
	step := []int{2, 3, 5}[nd.Choose(3)]
	var b []byte
	var all [][]ev
	for i := 0; i < 60; i++ {
		if i%step == 1 {
			b = append(b, chunk("XFIH", make([]byte, i))...)
			continue
		}
		evs := []ev{on(uint32(i), byte(i&15), byte(i), 64), eot(0)}
		all = append(all, evs)
		b = append(b, track(evs...)...)
	}
	evs := []ev{on(1, upto(15), data7(), data7()), eot(0)}
	all = append(all, evs)
	b = append(b, track(evs...)...)
	t := nd.U16()
	smf, err := decode(cat(header(1, t, 96), b))
	nd.Assert((err == nil) == (int(t) == len(all)), "a file is accepted exactly if it has as many tracks as declared")
	if err == nil {
		nd.Assert(len(smf.Tracks) == len(all), "the file has its tracks")
		for i, mtrk := range smf.Tracks {
			nd.Assert(int(mtrk.TrackNumber) == i, "tracks are numbered in order")
			trackSays(mtrk, all[i], "as many events as in the track", "unknown chunks leave the tracks as they are")
		}
	}
	nd.Reach("end")
}

// C17_Made: a header made from a format of 0 to 2 and any number of tracks and valid division has the values of the one decoded from its bytes, and is written as them.
func C17_Made() {
	format, division := uint16(nd.Choose(3)), nd.U16()
	n := nd.Choose(3)
	if division >= 0x8000 {
		r := division >> 8
		nd.Assume(nd.Or(r == 0xe8, r == 0xe7, r == 0xe3, r == 0xe2))
	}
	b := header(format, uint16(n), division)
	for i := 0; i < n; i++ {
		b = append(b, track(eot(0))...)
	}
	m, d := midi.MakeMThd(format, uint16(n), division), mustDecode(b).MThd
	nd.Assert(nd.And(m.Format == d.Format, m.Tracks == d.Tracks, m.Division == d.Division, m.Length == d.Length, nd.EqStr(m.Tag, d.Tag)), "a header that is made has its values")
	nd.Assert(nd.And(m.PPQN == d.PPQN, m.SMPTETimeCode == d.SMPTETimeCode, m.FPS == d.FPS, m.DropFrame == d.DropFrame, m.SubFrames == d.SubFrames), "a header that is made has the division of the decoded one")
	w, err := m.MarshalBinary()
	nd.Assert(err == nil && nd.EqBytes(w, b[:14]), "a header that is made is written with its values")
	nd.Reach("end")
}

// C17_Many: a file with 255, 256, 257 or 300 tracks, the last with a note of any key, and a declared number that is any with the same low byte or the right one.
//
// @steps 100000000
func C17_Many() {
	n := []int{255, 256, 257, 300}[nd.Choose(4)]
	tracks := uint16(nd.Choose(4))<<8 | uint16(n)&0xff
	key := data7()
	b := header(uint16(1+nd.Choose(2)), tracks, 480)
	for i := 1; i < n; i++ {
		b = append(b, track(eot(0))...)
	}
	b = append(b, track(on(3, 1, key, 64), eot(0))...)
	smf, err := decode(b)
	nd.Assert((err == nil) == (int(tracks) == n), "exactly a file with the declared number of tracks is accepted")
	if err != nil {
		nd.Stop()
	}
	nd.Assert(len(smf.Tracks) == n, "the file has its tracks")
	for i, t := range smf.Tracks {
		nd.Assert(int(t.TrackNumber) == i, "each track has its number")
	}
	last := smf.Tracks[n-1].Events
	nd.Assert(len(last) == 2, "the last track has its events")
	nd.Assert(summary(last[0].Event).nums[1] == uint64(key), "the last track has its events")
	nd.Reach("end")
}
