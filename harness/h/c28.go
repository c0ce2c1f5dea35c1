package h

import (
	"fmt"
	"time"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
)

func twoTracks(a, b []ev) *midi.SMF {
	return mustDecode(cat(header(1, 2, 500), track(a...), track(b...)))
}

// C28_Later: a note of the same or another track that ends before, or at the tick of, a tempo change; any two tempi for the change and one of two for the beginning; 480 (500 with two tracks) ticks per quarter note.
func C28_Later() {
	first := []uint32{300000, 1234567}[nd.Choose(2)]
	gap := uint32(nd.Choose(2)) * 100
	list := func(t uint32, how int) string {
		switch how {
		case 0: // after the NoteOff in the file
			e := []ev{tempo(0, first), on(7, 1, 60, 5), off(33, 1, 60, 5), tempo(gap, t), eot(0)}
			return noteList(mustDecode(cat(header(0, 1, 480), track(e...))), 0, false)
		case 1: // before the NoteOff in the file, at its tick
			e := []ev{tempo(0, first), on(7, 1, 60, 5), tempo(33, t), off(0, 1, 60, 5), eot(gap)}
			return noteList(mustDecode(cat(header(0, 1, 480), track(e...))), 0, false)
		default: // in another track
			return noteList(twoTracks([]ev{tempo(0, first), tempo(40+gap, t), eot(0)}, []ev{on(7, 1, 60, 5), off(33, 1, 60, 5), eot(gap)}), 0, false)
		}
	}
	how := nd.Choose(3)
	a, b := list(anyTempo(), how), list(anyTempo(), how)
	nd.Assert(nd.EqStr(a, b), "a tempo change leaves the times up to its tick as they were")
	nd.Reach("end")
}

// C28_Instant: a NoteOn and a NoteOff at the same tick, at or after a change to any tempo, have the same time.
func C28_Instant() {
	d := []uint32{0, 1, 777}[nd.Choose(3)]
	t := anyTempo()
	e := []ev{tempo(0, t), on(d, 1, 60, 5), off(0, 1, 60, 6), eot(0)}
	if nd.Choose(2) == 1 {
		e = []ev{on(d, 1, 60, 5), tempo(0, t), off(0, 1, 60, 6), eot(0)}
		t = 500000
	}
	at := time.Duration(uint64(d) * uint64(t) * 1000 / 480).Round(time.Millisecond)
	s := noteList(mustDecode(cat(header(0, 1, 480), track(e...))), 0, false)
	nd.Assert(nd.EqStr(s, fmt.Sprintf("C4   channel:1   note:3C  velocity:5    start:%-9s  end:%-9s  duration:0s\n", at, at)), "a note that ends at its own tick has no duration")
	nd.Reach("end")
}

// C28_Same: repeating the current tempo (any tempo) in the middle of a note changes nothing; 500 and 96 ticks per quarter note.
func C28_Same() {
	ppqn := []uint16{500, 96}[nd.Choose(2)]
	t := anyTempo()
	a := []ev{tempo(0, t), on(10, 1, 60, 5), off(200, 1, 60, 6), eot(5)}
	b := []ev{tempo(0, t), on(10, 1, 60, 5), tempo(uint32(50*nd.Choose(3)), t), off(0, 1, 60, 6), eot(5)}
	b[3].delta = 200 - b[2].delta
	list := func(e []ev) string { return noteList(mustDecode(cat(header(0, 1, ppqn), track(e...))), 0, false) }
	nd.Assert(nd.EqStr(list(a), list(b)), "repeating the tempo changes nothing")
	nd.Reach("end")
}

// C28_Between: a tempo that is repeated, or a text, at any tick of a note of 60 or 127 ticks changes nothing; 24, 96 and 480 ticks per quarter note and one of two tempi.
func C28_Between() {
	ppqn := []uint16{24, 96, 480}[nd.Choose(3)]
	t := []uint32{500000, 423729}[nd.Choose(2)]
	n := []uint32{60, 127}[nd.Choose(2)]
	x := uint32(upto(60))
	y := n - x
	a := []ev{tempo(0, t), on(12, 1, 60, 5), off(n, 1, 60, 6), eot(5)}
	m := tempo(x, t)
	if nd.Choose(2) == 1 {
		m = fixedEvent(kText, x)
	}
	b := []ev{a[0], a[1], m, off(y, 1, 60, 6), eot(5)}
	list := func(e []ev) string { return noteList(mustDecode(cat(header(0, 1, ppqn), track(e...))), 0, false) }
	nd.Assert(nd.EqStr(list(a), list(b)), "an event that does not change the tempo changes no time")
	nd.Reach("end")
}

// C28_Tracks: the notes of a single track are the same in a track of their own, with any tempo at the beginning and another one at the start, in the middle or at the end of the note.
func C28_Tracks() {
	t, u := anyTempo(), uint32(600000)
	if nd.Choose(2) == 1 {
		t, u = u, t
	}
	d := uint32(nd.Choose(3)) * 20
	one := []ev{tempo(0, t), on(10, 1, 60, 5), tempo(d, u), off(40-d, 1, 60, 6), eot(0)}
	a := noteList(mustDecode(cat(header(0, 1, 500), track(one...))), 0, false)
	b := noteList(twoTracks([]ev{tempo(0, t), tempo(10+d, u), eot(0)}, []ev{on(10, 1, 60, 5), off(40, 1, 60, 6), eot(0)}), 0, false)
	nd.Assert(nd.EqStr(a, b), "a tempo change has the same effect on notes of another track")
	nd.Reach("end")
}

// C28_Replaced: a tempo that is replaced at its own tick has no effect: two tempi in a row (the first arbitrary, the second one of two) at the beginning, at the start or in the middle of a note, of the same or another track, with or without five tempo changes in a bar before them.
func C28_Replaced() {
	before := nd.Choose(2) * 5
	u := []uint32{300000, 1234567}[nd.Choose(2)]
	where, other := nd.Choose(3), nd.Choose(2) == 1
	list := func(t ...uint32) string {
		at := []uint32{0, 10, 30}[where]
		var tempi []ev
		for i, v := range t {
			d := at
			if i > 0 {
				d = 0
			}
			tempi = append(tempi, tempo(d, v))
		}
		var bar []ev
		for i := 0; i < before; i++ {
			bar = append(bar, tempo(uint32(10*i), uint32(400000+i)))
		}
		if before > 0 && other {
			tempi[0].delta += 20
		}
		notes := []ev{on(10, 1, 60, 5), off(40, 1, 60, 6), eot(0)}
		if other {
			if before > 0 {
				notes[0].delta += 120
			}
			return noteList(twoTracks(append(append(bar, tempi...), eot(0)), notes), 0, false)
		}
		var e []ev
		switch where {
		case 0:
			e = append(tempi, notes...)
		case 1:
			notes[0].delta = 0
			e = append(tempi, notes...)
		case 2:
			tempi[0].delta, notes[1].delta = 20, 20
			e = append(append([]ev{notes[0]}, tempi...), notes[1:]...)
		}
		return noteList(mustDecode(cat(header(0, 1, 500), track(append(bar, e...)...))), 0, false)
	}
	nd.Assert(nd.EqStr(list(anyTempo(), u), list(u)), "a tempo that is replaced at its own tick has no effect")
	nd.Reach("end")
}
