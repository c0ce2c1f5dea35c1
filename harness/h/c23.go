package h

import (
	"fmt"

	"verif/harness/nd"

	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// C23_Decode: any two bytes of a key signature.
func C23_Decode() {
	a, k := nd.Byte(), nd.Byte()
	smf, err := decode(file1(ev{wire: []byte{0xff, 0x59, 2, a, k}}, eot(0)))
	n := int(int8(a))
	ok := nd.And(n >= -7, n <= 7, k <= 1)
	if ok {
		nd.Assert(err == nil, "a key signature of -7 to 7 accidentals, major or minor, is accepted")
		e, is := smf.Tracks[0].Events[0].Event.(metaevent.KeySignature)
		nd.Assert(is, "a key signature is decoded as one")
		nd.Assert(nd.And(e.Accidentals == int8(a), byte(e.KeyType) == k), "a key signature has its accidentals and mode")
		nd.Assert(nd.EqStr(e.Key, keyName(n, k == 1)), "a key signature has the name of its key")
	} else {
		nd.Assert(err != nil, "other key signatures are rejected")
	}
	nd.Reach("end")
}

// C23_Length: a key signature with 0, 1 or 3 arbitrary bytes is rejected.
func C23_Length() {
	d := symBytes([]int{0, 1, 3}[nd.Choose(3)])
	_, err := decode(file1(ev{wire: cat([]byte{0xff, 0x59, byte(len(d))}, d)}, eot(0)))
	nd.Assert(err != nil, "a key signature has two bytes")
	nd.Reach("end")
}

func isKey(e metaevent.KeySignature, n int, k byte) bool {
	return nd.And(int(e.Accidentals) == n, byte(e.KeyType) == k, nd.EqStr(e.Key, keyName(n, k == 1)))
}

// C23_Text: the name of each of the 30 keys, read from a line of text; and names that are no keys.
func C23_Text() {
	i, k := nd.Choose(15), byte(nd.Choose(2))
	var e metaevent.KeySignature
	err := e.UnmarshalText([]byte(fmt.Sprintf("      00 FF 59 02 00 00   tick:0   delta:5   59 KeySignature   %s", keyName(i-7, k == 1))))
	nd.Assert(err == nil, "the name of a key is accepted")
	nd.Assert(nd.And(isKey(e, i-7, k), e.Delta() == 5), "the name of a key gives the key")
	nd.Reach("end")
}

// C23_NotKeys: a letter with an accidental or without, and a mode: accepted exactly if there is such a key.
func C23_NotKeys() {
	l := string([]byte{'A' + byte(nd.Choose(7))}) + []string{"", "♯", "♭"}[nd.Choose(3)]
	minor := nd.Choose(2) == 1
	list, mode := majors, " major"
	if minor {
		list, mode = minors, " minor"
	}
	at := -1
	for i, s := range list {
		if s == l {
			at = i
		}
	}
	var e metaevent.KeySignature
	err := e.UnmarshalText([]byte("tick:0   delta:5   59 KeySignature   " + l + mode))
	if at < 0 {
		nd.Assert(err != nil, "a name that is no key is an error")
	} else {
		nd.Assert(err == nil, "a name of a key is accepted")
		nd.Assert(isKey(e, at-7, byte(b2u(minor))), "a name of a key gives the key")
	}
	nd.Reach("end")
}

// C23_JSON: a key signature as JSON with any accidentals from -20 to 20 and modes from 0 to 3.
func C23_JSON() {
	n, k := nd.Choose(41)-20, nd.Choose(4)
	var e metaevent.KeySignature
	err := e.UnmarshalJSON([]byte(fmt.Sprintf(`{"tag":"KeySignature","delta":5,"status":255,"type":89,"accidentals":%d,"key-type":%d}`, n, k)))
	if n >= -7 && n <= 7 && k <= 1 {
		nd.Assert(err == nil, "a key signature is read from JSON")
		nd.Assert(nd.And(isKey(e, n, byte(k)), e.Delta() == 5), "a key signature read from JSON has its values")
	} else {
		nd.Assert(err != nil, "accidentals or modes that are no key are an error")
	}
	nd.Reach("end")
}

const letters = "CDEFGAB"

var naturals = []int{0, 2, 4, 5, 7, 9, 11}

// accidental of the letter (0 is C) in a key signature: +1, -1 or 0.
func accidental(letter, accidentals int) int {
	// sharps come in the order F C G D A E B, flats in the opposite one
	order := []int{3, 0, 4, 1, 5, 2, 6}
	for i, l := range order {
		if l == letter {
			if accidentals > i {
				return 1
			}
			if -accidentals > 6-i {
				return -1
			}
		}
	}
	return 0
}

// C23_Scales: the notes of the scale of each key, for any number of accidentals of 8 bits.
func C23_Scales() {
	n := int8(nd.Byte())
	minor := nd.Choose(2) == 1
	var s lib.Scale
	var ok bool
	if minor {
		s, ok = lib.MinorScale(n)
	} else {
		s, ok = lib.MajorScale(n)
	}
	if nd.Or(n < -7, n > 7) {
		nd.Assert(!ok, "there are scales of -7 to 7 accidentals only")
		nd.Stop()
	}
	nd.Assert(ok, "there is a scale for every key")
	a := nd.Pick(int(n))
	nd.Assert(nd.And(s.Accidentals == n, nd.EqStr(s.Name, keyName(a, minor)), (s.Type == lib.Minor) == minor), "a scale has its name, accidentals and mode")
	nd.Assert(len(s.Notes) == 7, "a scale has seven notes")
	// the letter of the tonic: each fifth is four letters up
	first := ((a*4)%7 + 7) % 7
	if minor {
		first = (first + 5) % 7
	}
	for i, note := range s.Notes {
		l := (first + i) % 7
		acc := accidental(l, a)
		name := string(letters[l])
		if acc > 0 {
			name += "♯"
		} else if acc < 0 {
			name += "♭"
		}
		nd.Assert(nd.EqStr(note.Name, name), "the notes of a scale are spelled with its accidentals")
		nd.Assert(mod12(note.Ord) == mod12(naturals[l]+acc), "the notes of a scale have their pitch")
	}
	nd.Reach("end")
}

// C23_Transposed: the scale of each key, transposed by -25 to 25 semitones, is a scale of the same mode with the tonic that much higher.
func C23_Transposed() {
	i, minor, steps := nd.Choose(15)-7, nd.Choose(2) == 1, nd.Choose(51)-25
	s, _ := lib.MajorScale(int8(i))
	if minor {
		s, _ = lib.MinorScale(int8(i))
	}
	t := s.Transpose(steps)
	nd.Assert((t.Type == lib.Minor) == minor, "a transposed scale keeps its mode")
	nd.Assert(nd.EqStr(t.Name, keyName(int(t.Accidentals), minor)), "a transposed scale has its name")
	nd.Assert(tonic(int(t.Accidentals), minor) == mod12(tonic(i, minor)+steps), "a transposed scale has its tonic")
	nd.Assert(len(t.Notes) == 7, "a transposed scale has seven notes")
	for k := range t.Notes {
		nd.Assert(mod12(t.Notes[k].Ord) == mod12(s.Notes[k].Ord+steps), "a transposed scale has its notes")
	}
	nd.Reach("end")
}
