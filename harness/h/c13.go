package h

import (
	"fmt"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/context"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// middleC chooses one of the two conventions.
func middleC() bool {
	c4 := nd.Choose(2) == 1
	if c4 {
		context.SetMiddleC(lib.C4)
	} else {
		context.SetMiddleC(lib.C3)
	}
	return c4
}

// C13_Format: every note, both conventions, sharps and flats, with and without a context.
func C13_Format() {
	c4 := middleC()
	n := int(data7())
	switch nd.Choose(4) {
	case 0:
		nd.Assert(nd.EqStr(context.NewContext().FormatNote(byte(n)), noteName(n, false, c4)), "the name of the note, with sharps to begin with")
	case 1:
		nd.Assert(nd.EqStr(context.NewContext().UseFlats().FormatNote(byte(n)), noteName(n, true, c4)), "the name of the note with flats")
	case 2:
		nd.Assert(nd.EqStr(context.NewContext().UseFlats().UseSharps().FormatNote(byte(n)), noteName(n, false, c4)), "the name of the note with sharps")
	case 3:
		nd.Assert(nd.EqStr(midievent.FormatNote(nil, byte(n)), noteName(n, false, c4)), "the name of the note without a context")
	}
	nd.Reach("end")
}

// C13_Parse: the name of every note, with sharps or flats, both conventions.
func C13_Parse() {
	c4 := middleC()
	n := int(data7())
	name := noteName(n, nd.Choose(2) == 1, c4)
	note, err := midievent.ParseNote(nil, name)
	nd.Assert(err == nil, "the name of a note can be read")
	nd.Assert(int(note.Value) == n, "reading the name of a note gives the note")
	nd.Reach("end")
}

// C13_ParseAny: every note letter with any accidental and octaves -9 to 9, both conventions.
func C13_ParseAny() {
	c4 := middleC()
	pc := []int{0, 2, 4, 5, 7, 9, 11}
	i := nd.Choose(7)
	a := nd.Choose(3)
	octave := nd.Int(-9, 9)
	// names such as C♭ and E♯ are left out: their octave is a matter of convention
	if a == 1 && (i == 2 || i == 6) || a == 2 && (i == 0 || i == 3) {
		nd.Stop()
	}
	n := 12*(octave+1) + pc[i] + []int{0, 1, -1}[a]
	if c4 {
		n += 12
	}
	name := fmt.Sprintf("%s%s%d", []string{"C", "D", "E", "F", "G", "A", "B"}[i], []string{"", "♯", "♭"}[a], octave)
	note, err := midievent.ParseNote(nil, name)
	if nd.Or(n < 0, n > 127) {
		nd.Assert(err != nil, "the name of a note outside the MIDI range is rejected")
	} else {
		nd.Assert(err == nil, "the name of a note in the MIDI range can be read")
		nd.Assert(int(note.Value) == n, "reading the name of a note gives the note")
	}
	nd.Reach("end")
}

// key is a key signature event with the accidentals.
func key(k int) ev {
	return ev{kind: kKeySignature, wire: []byte{0xff, 0x59, 2, byte(k), upto(1)}}
}

// noteOf is the name and alias of a decoded note event.
func noteOf(x interface{}) midievent.Note {
	switch e := x.(type) {
	case midievent.NoteOn:
		return e.Note
	case midievent.NoteOff:
		return e.Note
	}
	nd.Fail("a note event")
	return midievent.Note{}
}

// C13_History: four (thorough: five) of: a key signature with flats, one with sharps, a NoteOn of any note; then a NoteOff of the same note on the same or another channel.
func C13_History() {
	c4 := middleC()
	n := data7()
	var evs []ev
	var names []string
	flat := false
	on := map[byte]bool{}
	flatOn := map[byte]bool{}
	steps := 4
	if nd.Thorough() {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		switch nd.Choose(4) {
		case 0:
			evs = append(evs, key(-3))
			flat = true
			names = append(names, "")
		case 1:
			evs = append(evs, key(2))
			flat = false
			names = append(names, "")
		default:
			ch := byte(nd.Choose(2))
			evs = append(evs, ev{kind: kNoteOn, wire: []byte{0x90 | ch, n, 64}})
			on[ch], flatOn[ch] = true, flat
			names = append(names, noteName(int(n), flat, c4))
		}
	}
	ch := byte(nd.Choose(2))
	evs = append(evs, ev{kind: kNoteOff, wire: []byte{0x80 | ch, n, 64}})
	if on[ch] {
		names = append(names, noteName(int(n), flatOn[ch], c4))
	} else {
		names = append(names, noteName(int(n), flat, c4))
	}
	t := mustDecode(file1(append(evs, eot(0))...)).Tracks[0]
	nd.Assert(len(t.Events) == len(evs)+1, "as many events as in the track")
	for i, e := range evs {
		if e.kind == kNoteOn {
			nd.Assert(nd.EqStr(noteOf(t.Events[i].Event).Name, names[i]), "a NoteOn is named after the key signature before it")
		}
		if e.kind == kNoteOff {
			nd.Assert(nd.EqStr(noteOf(t.Events[i].Event).Name, names[i]), "a NoteOff is named as the NoteOn it ends")
		}
	}
	nd.Reach("end")
}

// C13_Keys: a NoteOn of any note after each of the 30 key signatures.
func C13_Keys() {
	k := nd.Int(-7, 7)
	n := int(data7())
	t := mustDecode(file1(key(k), ev{kind: kNoteOn, wire: []byte{0x90, byte(n), 64}}, eot(0))).Tracks[0]
	nd.Assert(nd.EqStr(noteOf(t.Events[1].Event).Name, noteName(n, k < 0, false)), "a NoteOn is named with flats exactly if the key signature has flats")
	nd.Reach("end")
}

// C13_Channels: NoteOns of two notes on any channels before and after a key signature, then their NoteOffs in either order.
func C13_Channels() {
	a, b := byte(61), byte([]int{61, 63, 49}[nd.Choose(3)])
	c, d := upto(15), upto(15)
	nd.Assume(nd.Or(a != b, c != d))
	first := nd.Choose(2)
	evs := []ev{
		key(-3),
		{kind: kNoteOn, wire: []byte{0x90 | c, a, 64}},
		key(2),
		{kind: kNoteOn, wire: []byte{0x90 | d, b, 64}},
	}
	off1 := ev{kind: kNoteOff, wire: []byte{0x80 | c, a, 64}}
	off2 := ev{kind: kNoteOff, wire: []byte{0x80 | d, b, 64}}
	if first == 0 {
		evs = append(evs, off1, off2, eot(0))
	} else {
		evs = append(evs, off2, off1, eot(0))
	}
	t := mustDecode(file1(evs...)).Tracks[0]
	i, j := 4+first, 5-first
	nd.Assert(nd.EqStr(noteOf(t.Events[i].Event).Name, noteName(int(a), true, false)), "a NoteOff is named as the NoteOn it ends")
	nd.Assert(nd.EqStr(noteOf(t.Events[j].Event).Name, noteName(int(b), false, false)), "a NoteOff is named as the NoteOn it ends")
	nd.Reach("end")
}

// C13_Many: 24 notes that sound at once, on the keys from an arbitrary one up, of which one of any place has its NoteOn before a key signature and the others after it; then their NoteOffs in the order of the NoteOns or in the reverse order.
func C13_Many() {
	const m = 24
	base := upto(127 - m)
	place := nd.Choose(m)
	flats := nd.Choose(2) == 0
	ks := []int{2, -3}
	if flats {
		ks = []int{-3, 2}
	}
	evs := []ev{key(ks[0]), {kind: kNoteOn, wire: []byte{0x90, base + byte(place), 64}}, key(ks[1])}
	for i := 0; i < m; i++ {
		if i != place {
			evs = append(evs, ev{kind: kNoteOn, wire: []byte{0x90, base + byte(i), 64}})
		}
	}
	reverse := nd.Choose(2) == 1
	k := len(evs)
	for i := 0; i < m; i++ {
		j := i
		if reverse {
			j = m - 1 - i
		}
		evs = append(evs, ev{kind: kNoteOff, wire: []byte{0x80, base + byte(j), 64}})
	}
	t := mustDecode(file1(append(evs, eot(0))...)).Tracks[0]
	for i := 0; i < m; i++ {
		j := i
		if reverse {
			j = m - 1 - i
		}
		nd.Assert(nd.EqStr(noteOf(t.Events[k+i].Event).Name, noteName(int(base)+j, (j == place) == flats, false)), "a NoteOff is named as the NoteOn it ends")
	}
	nd.Reach("end")
}
