package h

import (
	"encoding/json"
	"fmt"
	"time"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/notes"
)

// refNote is an entry of the reference list of notes.
type refNote struct {
	channel, note, velocity uint64
	flat                    bool
	on, off                 uint64 // ticks
	pending                 bool
}

// refNotes pairs the notes of a track; ended are in the order in which they end,
// the last group being the ones ended by the end of the track.
func refNotes(evs []ev) (ended, open []refNote) {
	var sounding []refNote
	tick, flat := uint64(0), false
	find := func(c, n uint64) int {
		for i, s := range sounding {
			if nd.And(s.channel == c, s.note == n) {
				return i
			}
		}
		return -1
	}
	for _, e := range evs {
		tick += uint64(e.delta)
		switch e.kind {
		case kKeySignature:
			flat = signed(e.nums[0]) < 0
		case kNoteOn, kNoteOff:
			i := find(e.nums[0], e.nums[1])
			if e.kind == kNoteOn && e.nums[2] > 0 {
				if i < 0 {
					sounding = append(sounding, refNote{channel: e.nums[0], note: e.nums[1], velocity: e.nums[2], flat: flat, on: tick})
				}
			} else if i >= 0 {
				n := sounding[i]
				n.off = tick
				ended = append(ended, n)
				sounding = append(append([]refNote{}, sounding[:i]...), sounding[i+1:]...)
			}
		}
	}
	for i := range sounding {
		sounding[i].off = tick
	}
	return ended, sounding
}

// line is the entry of a note in the list.
func (n refNote) line(steps int, at func(tick uint64) time.Duration) string {
	v := clamp(int(n.note) + steps)
	start, end := at(n.on).Round(time.Millisecond), at(n.off).Round(time.Millisecond)
	return fmt.Sprintf("%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", noteName(v, n.flat, false), n.channel, v, n.velocity, start, end, end-start)
}

// orders are the orders of the strings.
func orders(s []string) []string {
	if len(s) == 0 {
		return []string{""}
	}
	var all []string
	for i := range s {
		rest := append(append([]string{}, s[:i]...), s[i+1:]...)
		for _, r := range orders(rest) {
			all = append(all, s[i]+r)
		}
	}
	return all
}

// lists asserts that the list has the notes of the tracks. Notes ended by the end
// of the track may be in any order.
func lists(smf *midi.SMF, steps int, at func(tick uint64) time.Duration, tracks ...[]ev) {
	expected := []string{""}
	for _, evs := range tracks {
		ended, open := refNotes(evs)
		s := ""
		for _, n := range ended {
			s += n.line(steps, at)
		}
		var last []string
		for _, n := range open {
			last = append(last, n.line(steps, at))
		}
		var all []string
		for _, x := range expected {
			for _, o := range orders(last) {
				all = append(all, x+s+o)
			}
		}
		expected = all
	}
	got := noteList(smf, steps, false)
	ok := false
	for _, s := range expected {
		ok = nd.Or(ok, nd.EqStr(got, s))
	}
	nd.Assert(ok, "the list has each note once, with its start and end")
	nd.Reach("end")
}

// steady: the time of a tick without tempo changes.
func steady(tempo, ppqn uint64) func(tick uint64) time.Duration {
	return func(tick uint64) time.Duration { return time.Duration(tick * tempo * 1000 / ppqn) }
}

// noteEvent is a NoteOn or NoteOff of one of two notes on one of two channels, with any velocity.
func noteEvent(delta uint32) ev {
	kind := kNoteOff + nd.Choose(2)
	c, n, v := byte(nd.Choose(2))*9, byte(60+nd.Choose(2)), data7()
	return ev{kind: kind, delta: delta, wire: []byte{0x80 | byte(kind)<<4 | c, n, v}, nums: []uint64{uint64(c), uint64(n), uint64(v)}}
}

// C11_Pairs: three (thorough: four) events that are a NoteOn or NoteOff of one of two notes on one of two channels, with any velocity.
// @thorough 1500
func C11_Pairs() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var evs []ev
	for i := 0; i < n; i++ {
		evs = append(evs, noteEvent(uint32(10*i+5)))
	}
	evs = append(evs, eot(100))
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, steady(500000, 500), evs)
}

// C11_Chords: a NoteOn of any velocity and another NoteOn or NoteOff at the same tick, of the same note and channel or not, then a NoteOff, or two, or the end of the track at that tick or later.
func C11_Chords() {
	d := uint32(nd.Choose(2) * 50)
	evs := []ev{on(20, 3, 60, data7()), noteEvent(0)}
	c, k := byte(3), byte(60)
	if nd.Choose(2) == 1 {
		evs[0], c = on(20, 9, 60, data7()), 9
	}
	switch nd.Choose(4) {
	case 0:
		evs = append(evs, off(d, c, k, 64))
	case 1:
		evs = append(evs, on(d, c, k, 0), off(0, c, k, 64))
	case 2:
		evs = append(evs, off(0, c, k, 64), on(d, c, k, 64))
	}
	evs = append(evs, eot(d))
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, steady(500000, 500), evs)
}

// C11_Times: a note with arbitrary one byte (thorough: two byte) delta times, ended by a NoteOff, a NoteOn with velocity 0 or the end of the track; divisions 250 and 1000.
func C11_Times() {
	ppqn := []uint16{250, 1000}[nd.Choose(2)]
	n := uint16(0x7f)
	if nd.Thorough() {
		n = 0x3fff
	}
	evs := []ev{on(uint32(nd.U16()&n), 1, 61, 99)}
	switch nd.Choose(3) {
	case 0:
		evs = append(evs, off(uint32(nd.U16()&n), 1, 61, 5), eot(3))
	case 1:
		evs = append(evs, on(uint32(nd.U16()&n), 1, 61, 0), eot(3))
	case 2:
		evs = append(evs, eot(uint32(nd.U16()&n)))
	}
	lists(mustDecode(cat(header(0, 1, ppqn), track(evs...))), 0, steady(500000, uint64(ppqn)), evs)
}

// C11_Division: a note from tick 0, 1 or 1000 to a tick later, one of twelve divisions.
func C11_Division() {
	ppqn := []uint16{1, 7, 24, 48, 96, 120, 192, 384, 480, 960, 15360, 32767}[nd.Choose(12)]
	evs := []ev{on(0, 2, 60, 1), off([]uint32{0, 1, 1000}[nd.Choose(3)], 2, 60, 1), eot(0)}
	lists(mustDecode(cat(header(0, 1, ppqn), track(evs...))), 0, steady(500000, uint64(ppqn)), evs)
}

// C11_Tempo: an arbitrary tempo at the beginning, and a note; 96 and 480 ticks per quarter note.
func C11_Tempo() {
	ppqn := []uint16{96, 480}[nd.Choose(2)]
	t := uint32(nd.Byte())<<16 | uint32(nd.Byte())<<8 | uint32(nd.Byte())
	evs := []ev{tempo(0, t), on(0, 3, 62, 100), off([]uint32{1, 480, 5000}[nd.Choose(3)], 3, 62, 64), eot(0)}
	lists(mustDecode(cat(header(0, 1, ppqn), track(evs...))), 0, steady(uint64(t), uint64(ppqn)), evs)
}

// tempoMap is the time of a tick under the tempo changes of the events.
func tempoMap(evs []ev, ppqn uint64) func(tick uint64) time.Duration {
	return func(tick uint64) time.Duration {
		at, last, tempo, now := uint64(0), uint64(0), uint64(500000), uint64(0)
		for _, e := range evs {
			now += uint64(e.delta)
			if e.kind != kTempo {
				continue
			}
			t := now
			if t > tick {
				t = tick
			}
			at += 1000 * (t - last) * tempo
			last = t
			tempo = e.nums[0]
		}
		at += 1000 * (tick - last) * tempo
		return time.Duration(at / ppqn)
	}
}

// C11_Changes: two tempo changes before, during, at the ends of or after a note, the first or the second with an arbitrary tempo; 500 ticks per quarter note, and 96 with one of four tempi.
func C11_Changes() {
	ppqn := []uint16{500, 96}[nd.Choose(2)]
	any := anyTempo()
	if ppqn == 96 {
		any = []uint32{1, 123457, 428571, 1<<24 - 1}[nd.Choose(4)]
	}
	a, b := any, uint32(250000)
	if nd.Choose(2) == 1 {
		a, b = 750000, any
	}
	pool := []ev{on(0, 0, 64, 80), off(0, 0, 64, 64)}
	t := []ev{tempo(0, a), tempo(0, b)}
	// merge in any order
	var evs []ev
	for len(pool)+len(t) > 0 {
		if len(t) == 0 || len(pool) > 0 && nd.Choose(2) == 0 {
			evs, pool = append(evs, pool[0]), pool[1:]
		} else {
			evs, t = append(evs, t[0]), t[1:]
		}
		evs[len(evs)-1].delta = uint32(nd.Choose(2)) * 300
	}
	evs = append(evs, eot(10))
	lists(mustDecode(cat(header(0, 1, ppqn), track(evs...))), 0, tempoMap(evs, uint64(ppqn)), evs)
}

// C11_Tracks: two tracks, tempo changes (one arbitrary) in the first and notes in both; 1000 ticks per quarter note.
func C11_Tracks() {
	any := uint32(nd.Byte())<<16 | uint32(nd.Byte())<<8 | uint32(nd.Byte())
	a := []ev{tempo(0, 400000), tempo(uint32(100*nd.Choose(3)), any), eot(0)}
	b := []ev{on(uint32(nd.Choose(3)*50), 0, 40, 41), eot(50)}
	if nd.Choose(2) == 1 {
		a = append([]ev{a[0], a[1], on(50, 1, 70, 70), off(20, 1, 70, 0)}, a[2:]...)
	} else {
		b = []ev{b[0], off(100, 0, 40, 0), eot(0)}
	}
	smf := mustDecode(cat(header(1, 2, 1000), track(a...), track(b...)))
	lists(smf, 0, tempoMap(a, 1000), a, b)
}

// C11_Transpose: an arbitrary note, any number of semitones of 32 bits.
func C11_Transpose() {
	evs := []ev{on(0, 0, data7(), 7), off(0, 0, 0, 0), eot(10)}
	evs[1].wire[1], evs[1].nums[1] = evs[0].wire[1], evs[0].nums[1]
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), anySteps(), steady(500000, 500), evs)
}

// C11_Keys: a key signature before, between and after a NoteOn and NoteOff of any note, the first ones at the same tick as the NoteOn, at the beginning or later, and with a text before, between and after them or not: the name follows the key of the NoteOn; transposed by 0 or 1.
func C11_Keys() {
	n := data7()
	key := func() ev {
		k := byte([]int{-2, 0, 3}[nd.Choose(3)])
		return ev{kind: kKeySignature, wire: []byte{0xff, 0x59, 2, k, 0}, nums: []uint64{uint64(k), 0}}
	}
	evs := []ev{key(), on(0, 0, n, 7), key(), off(10, 0, n, 0), eot(0)}
	if nd.Choose(2) == 1 {
		t := fixedEvent(kMarker, 0)
		evs = []ev{t, key(), t, on(0, 0, n, 7), t, key(), off(10, 0, n, 0), eot(0)}
	}
	if nd.Choose(2) == 1 {
		evs[0].delta = 20
	}
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), nd.Choose(2), steady(500000, 500), evs)
}

// C11_Others: any event of the general kinds with fixed values before, during and after a note changes nothing (but its own effect as key or tempo).
func C11_Others() {
	o := fixedEvent(nd.Choose(nGeneral), 7)
	if o.kind == kTempo || o.kind == kNoteOn || o.kind == kNoteOff {
		nd.Stop()
	}
	evs := []ev{on(5, 1, 66, 7), off(6, 1, 66, 0), eot(0)}
	i := nd.Choose(3)
	evs = append(append(append([]ev{}, evs[:i]...), o), evs[i:]...)
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, steady(500000, 500), evs)
}

// C11_SMPTE: a file with an SMPTE division has no ticks per quarter note: an error.
func C11_SMPTE() {
	fps := []byte{0xe8, 0xe7, 0xe3, 0xe2}[nd.Choose(4)]
	smf := mustDecode(cat(header(0, 1, uint16(fps)<<8|uint16(nd.Byte())), track(on(0, 0, 60, 1), eot(1))))
	w := &nd.Sink{}
	op := notes.Notes{Writer: w}
	err := op.Execute(smf)
	nd.Assert(err != nil, "without ticks per quarter note there are no times: an error")
	nd.Reach("end")
}

// C11_JSON: the list as JSON has the same notes (two notes with arbitrary note and velocity, fixed times).
func C11_JSON() {
	n, v := data7(), data7()
	nd.Assume(v != 0)
	evs := []ev{on(100, 2, n, v), off(50, 2, n, 0), on(25, 9, 60, 64), eot(1000)}
	smf := mustDecode(cat(header(0, 1, 500), track(evs...)))
	s := noteList(smf, 0, true)
	var got struct {
		Notes []struct {
			Channel  int     `json:"channel"`
			MidiNote int     `json:"midi-note"`
			Note     string  `json:"note"`
			Velocity int     `json:"velocity"`
			Start    float64 `json:"start"`
			End      float64 `json:"end"`
			Duration float64 `json:"duration"`
		} `json:"notes"`
	}
	nd.Assert(json.Unmarshal([]byte(s), &got) == nil, "the list is valid JSON")
	nd.Assert(len(got.Notes) == 2, "the JSON list has each note once")
	a, b := got.Notes[0], got.Notes[1]
	nd.Assert(nd.And(a.Channel == 2, a.MidiNote == int(n), a.Velocity == int(v), nd.EqStr(a.Note, noteName(int(n), false, false))), "the JSON list has the note")
	nd.Assert(nd.And(a.Start == 0.1, a.End == 0.15, a.Duration == 0.05), "the JSON list has the times")
	nd.Assert(nd.And(b.Channel == 9, b.MidiNote == 60, b.Velocity == 64, b.Start == 0.175, b.End == 1.175, b.Duration == 1), "the JSON list has the second note")
	nd.Reach("end")
}

// C11_JSONTimes: the list as JSON of a note of a velocity above 99 in the second track, after a key signature or not, that starts and ends after one of nine times each, up to three days, ended by a NoteOff or the end of the track, transposed by -1, 0 or 1.
func C11_JSONTimes() {
	times := []uint32{0, 1, 57, 333, 999, 1000, 61001, 3600007, 0x0fffffff}
	start, length := times[nd.Choose(9)], times[nd.Choose(9)]
	c, v := byte(12), data7()
	nd.Assume(v > 99)
	evs := []ev{on(start, c, 61, v)}
	flat := nd.Bool()
	if flat {
		evs = append([]ev{{kind: kKeySignature, wire: []byte{0xff, 0x59, 2, 0xfe, 0}, nums: []uint64{0xfe, 0}}}, evs...)
	}
	if nd.Bool() {
		evs = append(evs, off(length, c, 61, 0), eot(5))
	} else {
		evs = append(evs, eot(length))
	}
	steps := nd.Choose(3) - 1
	s := noteList(mustDecode(cat(header(1, 2, 500), track(tempo(0, 500000), eot(0)), track(evs...))), steps, true)
	var got struct {
		Notes []struct {
			Channel  *int     `json:"channel"`
			MidiNote *int     `json:"midi-note"`
			Note     string   `json:"note"`
			Velocity *int     `json:"velocity"`
			Start    *float64 `json:"start"`
			End      *float64 `json:"end"`
			Duration *float64 `json:"duration"`
		} `json:"notes"`
	}
	nd.Assert(json.Unmarshal([]byte(s), &got) == nil, "the list is valid JSON")
	nd.Assert(len(got.Notes) == 1, "the JSON list has each note once")
	n := got.Notes[0]
	nd.Assert(n.Channel != nil && n.MidiNote != nil && n.Velocity != nil && n.Start != nil && n.End != nil && n.Duration != nil, "the JSON list has the values of the note")
	nd.Assert(nd.And(*n.Channel == int(c), *n.MidiNote == 61+steps, *n.Velocity == int(v), nd.EqStr(n.Note, noteName(61+steps, flat, false))), "the JSON list has the note")
	ms := func(n uint64) float64 { return (time.Duration(n) * time.Millisecond).Seconds() }
	nd.Assert(nd.And(*n.Start == ms(uint64(start)), *n.End == ms(uint64(start)+uint64(length)), *n.Duration == ms(uint64(length))), "the JSON list has the times")
	nd.Reach("end")
}

// C11_Any: a note with any channel, note number and velocity, ended by a NoteOff, a NoteOn with velocity 0 or the end of the track.
func C11_Any() {
	c, n, v := upto(15), data7(), data7()
	evs := []ev{on(100, c, n, v)}
	switch nd.Choose(3) {
	case 0:
		evs = append(evs, off(50, c, n, data7()), eot(3))
	case 1:
		evs = append(evs, on(50, c, n, 0), eot(3))
	case 2:
		evs = append(evs, eot(50))
	}
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, steady(500000, 500), evs)
}

// C11_AnyChannels: two NoteOns and a NoteOff or NoteOn with velocity 0, each with any channel and one of two notes (equal or not).
func C11_AnyChannels() {
	any := func() (byte, byte) { return upto(15), byte(60 + nd.Choose(2)) }
	a, m := any()
	b, n := any()
	c, o := any()
	evs := []ev{on(100, a, m, 64), on(50, b, n, 65), off(25, c, o, 0), eot(10)}
	if nd.Choose(2) == 1 {
		evs[2] = on(25, c, o, 0)
	}
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, steady(500000, 500), evs)
}

// C11_AnyNotes: a NoteOn and a NoteOff with any note number (equal or not), on one channel.
func C11_AnyNotes() {
	evs := []ev{on(100, 3, data7(), 64), off(25, 3, data7(), 0), eot(10)}
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, steady(500000, 500), evs)
}

// C11_Big: 64 notes in 2 tracks on all channels, of which up to three overlap, and 20 tempo changes in the first track; the velocity of the last note is arbitrary; 1000 ticks per quarter note.
//
// @steps 100000000
func C11_Big() {
	var a, b []ev
	for i := 0; i < 32; i++ {
		c := byte(i % 16)
		v := byte(1 + i)
		if i == 31 {
			v = data7()
			nd.Assume(v != 0)
		}
		a = append(a, on(uint32(i*20), c, byte(i), 64), on(5, c, byte(i+1), 65), off(10, c, byte(i), 0), on(500, c, byte(i+1), 0))
		if i%2 == 0 {
			a = append(a, tempo(uint32(i), uint32(300000+1000*i)))
		}
		b = append(b, on(100, c, byte(127-i), v), tempoless(i), off(400, c, byte(127-i), 0))
	}
	a, b = append(a, eot(0)), append(b, eot(99))
	lists(mustDecode(cat(header(1, 2, 1000), track(a...), track(b...))), 0, tempoMap(a, 1000), a, b)
}

// tempoless is an event that has no effect on notes.
func tempoless(i int) ev {
	k := i % nGeneral
	if k == kNoteOn || k == kNoteOff || k == kTempo || k == kKeySignature {
		k = kMarker
	}
	return fixedEvent(k, uint32(i))
}

// C11_Late: a note of any velocity that starts late, at up to three delta times of 2^14, 2^21 and 2^28-1 ticks; tempi of 1, 500000 and 2^24-1 and divisions of 1, 100 and 25000.
func C11_Late() {
	ppqn := []uint16{1, 100, 25000}[nd.Choose(3)]
	t := []uint32{1, 500000, 1<<24 - 1}[nd.Choose(3)]
	d := []uint32{1 << 14, 1 << 21, 1<<28 - 1}[nd.Choose(3)]
	// no times beyond those of a time.Duration
	if t > 500000 && ppqn < 100 && d > 1<<21 {
		nd.Stop()
	}
	v := data7()
	nd.Assume(v != 0)
	evs := []ev{tempo(0, t), on(d, 4, 60, v), off(d, 4, 60, 0), eot(d)}
	lists(mustDecode(cat(header(0, 1, ppqn), track(evs...))), 0, tempoMap(evs, uint64(ppqn)), evs)
}

// C11_VeryLate: a note of any velocity after 9 or 17 of the largest delta times, above 2^31 and 2^32 ticks; divisions of 1000 and 25000.
func C11_VeryLate() {
	ppqn := []uint16{1000, 25000}[nd.Choose(2)]
	n := []int{9, 17}[nd.Choose(2)]
	v := data7()
	nd.Assume(v != 0)
	evs := []ev{tempo(0, 400000)}
	for i := 1; i < n; i++ {
		evs = append(evs, fixedEvent(kMarker, 1<<28-1))
	}
	evs = append(evs, on(1<<28-1, 4, 60, v), off(100, 4, 60, 0), eot(1))
	lists(mustDecode(cat(header(0, 1, ppqn), track(evs...))), 0, tempoMap(evs, uint64(ppqn)), evs)
}

// C11_Same: 20 notes that start and end at the same tick, among as many tempo changes at that tick, and a note of any velocity after them, in the same track or the notes in another one: the order of the track counts.
//
// @steps 100000000
func C11_Same() {
	var evs, tempi, others []ev
	t := []uint32{1, 400000, 1<<24 - 1}[nd.Choose(3)]
	for i := 0; i < 20; i++ {
		d := uint32(0)
		if i == 0 {
			d = 100
		}
		x := uint32(300000 + 1000*i)
		if i == 19 {
			x = t
		}
		tempi = append(tempi, tempo(d, x))
		others = append(others, on(d, byte(i%3), byte(60+i), byte(i+1)), off(0, byte(i%3), byte(60+i), 0))
		evs = append(evs, on(d, byte(i%3), byte(60+i), byte(i+1)), tempo(0, x), off(0, byte(i%3), byte(60+i), 0))
	}
	v := data7()
	nd.Assume(v != 0)
	evs = append(evs, on(250, 1, 50, v), off(500, 1, 50, 0), eot(10))
	if nd.Choose(2) == 1 {
		tempi = append(tempi, eot(0))
		others = append(others, on(250, 1, 50, v), off(500, 1, 50, 0), eot(10))
		lists(mustDecode(cat(header(1, 2, 500), track(tempi...), track(others...))), 0, tempoMap(tempi, 500), tempi, others)
		nd.Stop()
	}
	lists(mustDecode(cat(header(0, 1, 500), track(evs...))), 0, tempoMap(evs, 500), evs)
}

// C11_Repeated: three notes that are repeated 15 times, ended and started again at the same ticks, in the second track, with a tempo change at every or every second of those ticks in the first; the velocity of the last ones is arbitrary.
//
// @steps 100000000
func C11_Repeated() {
	a, b := []ev{}, []ev{}
	k := 1 + nd.Choose(2)
	v := data7()
	nd.Assume(v != 0)
	for i := 0; i < 15; i++ {
		if i%k == 0 {
			d := uint32(100 * k)
			if i == 0 {
				d = 0
			}
			a = append(a, tempo(d, uint32(300000+20000*i)))
		}
		d := uint32(100)
		if i == 0 {
			d = 0
		} else {
			b = append(b, off(d, 1, 60, 0), off(0, 1, 64, 0), on(0, 2, 67, 0))
			d = 0
		}
		w := byte(1 + i)
		if i == 14 {
			w = v
		}
		b = append(b, on(d, 1, 60, w), on(0, 1, 64, w), on(0, 2, 67, w))
	}
	a, b = append(a, eot(0)), append(b, off(100, 1, 60, 0), off(0, 1, 64, 0), off(0, 2, 67, 0), eot(0))
	lists(mustDecode(cat(header(1, 2, 1000), track(a...), track(b...))), 0, tempoMap(a, 1000), a, b)
}

// C11_Between: a note with an event between its start and its end, at any tick (of a note of 60 or 127 ticks): its times do not depend on it; 24, 96 and 480 ticks per quarter note.
func C11_Between() {
	ppqn := []uint16{24, 96, 480}[nd.Choose(3)]
	d := uint32(upto(60))
	x := fixedEvent([]int{kText, kController, kTempo}[nd.Choose(3)], d)
	if x.kind == kTempo {
		x = tempo(d, 500000)
	}
	n := []uint32{60, 127}[nd.Choose(2)]
	evs := []ev{on(12, 1, 60, 5), x, off(n-d, 1, 60, 6), eot(5)}
	smf := mustDecode(cat(header(0, 1, ppqn), track(evs...)))
	want := refNote{channel: 1, note: 60, velocity: 5, on: 12, off: 12 + uint64(n)}
	nd.Assert(nd.EqStr(noteList(smf, 0, false), want.line(0, steady(500000, uint64(ppqn)))), "the list has each note once, with its start and end")
	nd.Reach("end")
}

// C11_Long: notes hours, days and weeks into a track with the longest delta times between them (four, or seventeen of the longest, thorough: twelve, of one to four bytes), at the slowest or at the default tempo; 32767 or 480 ticks per quarter note.
func C11_Long() {
	n := 4
	if nd.Thorough() {
		n = 12
	}
	ppqn, us := []uint64{480, 32767}[nd.Choose(2)], uint32(0xffffff)
	if nd.Bool() {
		us = 500000
	}
	d := []uint32{0x7f, 0x3fff, 0x1fffff, 0x0fffffff}[nd.Choose(4)]
	if d == 0x0fffffff && nd.Bool() {
		n = 17 // past 2^32 ticks
	}
	c, k := nd.Byte()&0x0f, data7()
	evs := []ev{tempo(0, us), on(d, c, k, 1)}
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			evs = append(evs, off(d, c, k, 1), on(d-uint32(i), c, k, byte(i)))
		} else {
			evs = append(evs, fixedEvent(kMarker, d))
		}
	}
	evs = append(evs, off(d, c, k, 1), eot(d))
	at := func(tick uint64) time.Duration {
		q, r := tick/ppqn, tick%ppqn
		return time.Duration(q*uint64(us)*1000 + r*uint64(us)*1000/ppqn)
	}
	lists(mustDecode(cat(header(0, 1, uint16(ppqn)), track(evs...))), 0, at, evs)
}

// C11_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C11_Track() {
	evs := longTrack()
	lists(mustDecode(file1(evs...)), 0, tempoMap(evs, 480), evs)
}
