package h

import "verif/harness/nd"

// C29_Notes: a NoteOn and a NoteOff with arbitrary values, any number of semitones of 31 bits, up and down again.
func C29_Notes() {
	steps := int(int32(nd.U32()) >> 1)
	evs := []ev{genEvent(kNoteOn, smallDelta(), 0, nil), genEvent(kNoteOff, smallDelta(), 0, nil), eot(0)}
	for _, e := range evs[:2] {
		n := int(e.nums[1]) + steps
		nd.Assume(nd.And(n >= 0, n <= 127))
	}
	c := transposed(transposed(mustDecode(file1(evs...)), steps), -steps)
	trackSays(c.Tracks[0], evs, "transposing there and back keeps the number of events", "transposing there and back restores every note")
	nd.Reach("end")
}

// C29_Keys: each of the 30 key signatures, by -14 to 14 (thorough: -40 to 40) semitones, there and back.
func C29_Keys() {
	n := 14
	if nd.Thorough() {
		n = 40
	}
	steps := nd.Choose(2*n+1) - n
	e := genEvent(kKeySignature, smallDelta(), 0, nil)
	c := transposed(transposed(mustDecode(file1(e, eot(0))), steps), -steps)
	s := summary(c.Tracks[0].Events[0].Event)
	minor := e.nums[1] == 1
	nd.Assert(s.nums[1] == e.nums[1], "transposing there and back keeps the mode")
	nd.Assert(tonic(signed(s.nums[0]), minor) == tonic(signed(e.nums[0]), minor), "transposing there and back restores the tonic")
	nd.Reach("end")
}

// C29_Octaves: each of the 30 key signatures and a note, by -5 to 5 octaves.
func C29_Octaves() {
	oct := nd.Choose(11) - 5
	k, n := genEvent(kKeySignature, 0, 0, nil), genEvent(kNoteOn, 0, 0, nil)
	c := transposed(mustDecode(file1(k, n, eot(0))), 12*oct)
	s := summary(c.Tracks[0].Events[0].Event)
	minor := k.nums[1] == 1
	nd.Assert(nd.And(s.nums[1] == k.nums[1], tonic(signed(s.nums[0]), minor) == tonic(signed(k.nums[0]), minor)), "transposing by octaves keeps the key")
	nd.Assert(int(summary(c.Tracks[0].Events[1].Event).nums[1]) == clamp(int(n.nums[1])+12*oct), "transposing by octaves moves the notes")
	nd.Reach("end")
}

// C29_Zero: one event of each general kind with arbitrary values, by 0 semitones.
func C29_Zero() {
	evs := []ev{genEvent(nd.Choose(nGeneral), genDelta(), 2, nd.Byte), eot(0)}
	c := transposed(mustDecode(file1(evs...)), 0)
	nd.Assert(len(c.Tracks[0].Events) == 2, "transposing by nothing keeps the events")
	if evs[0].kind == kKeySignature {
		movedBy(evs, c.Tracks[0], 0)
	} else {
		trackSays(c.Tracks[0], evs, "transposing by nothing keeps the events", "transposing by nothing changes nothing")
	}
	nd.Reach("end")
}

// C29_Sum: a note and a key signature by a and then by b semitones (a of -25, -7, -1, 0, 3, 12 and b of -13, -2, 1, 7, 24) as by a+b, unless a note is limited.
func C29_Sum() {
	a, b := []int{-25, -7, -1, 0, 3, 12}[nd.Choose(6)], []int{-13, -2, 1, 7, 24}[nd.Choose(5)]
	k := genEvent(kKeySignature, 0, 0, nil)
	n := genEvent(kNoteOn, 0, 0, nil)
	v := int(n.nums[1])
	nd.Assume(nd.And(v+a >= 0, v+a <= 127))
	in := file1(k, n, eot(0))
	c := transposed(transposed(mustDecode(in), a), b)
	d := transposed(mustDecode(in), a+b)
	minor := k.nums[1] == 1
	x, y := summary(c.Tracks[0].Events[0].Event), summary(d.Tracks[0].Events[0].Event)
	nd.Assert(tonic(signed(x.nums[0]), minor) == tonic(signed(y.nums[0]), minor), "transposing twice moves a key as transposing by the sum")
	x, y = summary(c.Tracks[0].Events[1].Event), summary(d.Tracks[0].Events[1].Event)
	nd.Assert(x.nums[1] == y.nums[1], "transposing twice moves a note as transposing by the sum")
	nd.Reach("end")
}
