package h

import "verif/harness/nd"

// fixedVLQ is v as a quantity of exactly n bytes (padded with 80 bytes).
func fixedVLQ(v uint32, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v>>(7*i)) & 0x7f
		if i > 0 {
			b[n-1-i] |= 0x80
		}
	}
	return b
}

// C04_Ticks: 40 events (thorough: 400) with any deltas below 2^28 encoded in four bytes (the sum passes 2^32); the events alternate between notes, texts and controllers.
func C04_Ticks() {
	n := 40
	if nd.Thorough() {
		n = 400
	}
	var body []byte
	var deltas []uint32
	for i := 0; i < n; i++ {
		d := genDelta()
		deltas = append(deltas, d)
		body = append(body, fixedVLQ(d, 4)...)
		body = append(body, [][]byte{{0x90, 60, 64}, {0xff, 0x01, 0x01, 'x'}, {0xb1, 7, 100}, {0xf7, 0x01, 0xf8}, {0xc2, 3}}[i%5]...)
	}
	ticksAre(body, deltas)
}

// C04_FiveBytes: three events with any 32-bit deltas encoded in five bytes.
func C04_FiveBytes() {
	var body []byte
	var deltas []uint32
	for i := 0; i < 3; i++ {
		d := nd.U32()
		deltas = append(deltas, d)
		body = append(body, fixedVLQ(d, 5)...)
		body = append(body, 0x90, 60, byte(i))
	}
	ticksAre(body, deltas)
}

// C04_Kinds: every pair of general kinds after a first event with a delta below 2^28, deltas of one byte, in the second of two tracks.
func C04_Kinds() {
	evs := []ev{
		genEvent(kNoteOn, genDelta(), 0, nil),
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, data7),
		genEvent(nd.Choose(nGeneral), smallDelta(), 1, data7),
		eot(smallDelta()),
	}
	smf := mustDecode(cat(header(1, 2, 96), track(genEvent(kMarker, smallDelta(), 0, nil), eot(smallDelta())), track(evs...)))
	nd.Assert(len(smf.Tracks) == 2, "every track is decoded")
	t := smf.Tracks[1]
	nd.Assert(len(t.Events) == len(evs), "every event is decoded")
	var sum uint64
	for i, e := range t.Events {
		sum += uint64(evs[i].delta)
		nd.Assert(e.Tick() == sum, "the tick is the sum of the delta times")
		nd.Assert(e.Delta() == evs[i].delta, "the delta time is that of the event")
	}
	nd.Reach("end")
}

// C04_Running: four channel events of which any of the last three use running status, any one byte deltas.
func C04_Running() {
	var body []byte
	var deltas []uint32
	for i := 0; i < 4; i++ {
		d := smallDelta()
		deltas = append(deltas, d)
		body = append(body, byte(d))
		if i == 0 || nd.Choose(2) == 0 {
			body = append(body, 0x91)
		}
		body = append(body, data7(), data7())
	}
	ticksAre(body, deltas)
}

func ticksAre(body []byte, deltas []uint32) {
	d := smallDelta()
	deltas = append(deltas, d)
	body = append(body, byte(d), 0xff, 0x2f, 0x00)
	t := mustDecode(cat(header(0, 1, 96), chunk("MTrk", body))).Tracks[0]
	nd.Assert(len(t.Events) == len(deltas), "every event is decoded")
	var sum uint64
	for i, e := range t.Events {
		sum += uint64(deltas[i])
		nd.Assert(e.Tick() == sum, "the tick is the sum of the delta times")
		nd.Assert(e.Delta() == deltas[i], "the delta time is that of the event")
	}
	nd.Observe("end", sum)
	nd.Reach("end")
}

// C04_Big: a track of 400 events and 300 tracks, fixed but for the delta times of the last events.
//
// @steps 100000000
func C04_Big() {
	all := bigTracks(nd.Choose(2), 300, 400, 0, []ev{genEvent(kNoteOn, genDelta(), 0, nil), eot(smallDelta())})
	smf := mustDecode(bigFile(all))
	nd.Assert(len(smf.Tracks) == len(all), "every track is decoded")
	for i, t := range smf.Tracks {
		nd.Assert(len(t.Events) == len(all[i]), "every event is decoded")
		var sum uint64
		for j, e := range t.Events {
			sum += uint64(all[i][j].delta)
			nd.Assert(e.Tick() == sum, "the tick is the sum of the delta times")
		}
	}
	nd.Reach("end")
}
