package h

import (
	"encoding/json"
	"fmt"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/lib"
)

// C35_Channel: every number from 0 to 300 as the text of a channel, of a line and as JSON: the channels 0 to 15, printed and read again, and an error for all others.
func C35_Channel() {
	n := nd.Int(0, 300)
	s := fmt.Sprint(n)
	var c lib.Channel
	var err error
	switch nd.Choose(3) {
	case 0:
		c, err = lib.ParseChannel(s)
	case 1:
		err = c.UnmarshalText([]byte("delta:7   NoteOn   channel:" + s + "  note:C3"))
	case 2:
		err = c.UnmarshalJSON([]byte(s))
	}
	nd.Assert((err == nil) == (n < 16), "a channel is a number from 0 to 15")
	if err == nil {
		nd.Assert(int(c) == n, "a channel is read as its number")
		nd.Assert(nd.EqStr(c.String(), s), "a channel is printed as its number")
		j, err := c.MarshalJSON()
		nd.Assert(err == nil && nd.EqBytes(j, []byte(s)), "the JSON of a channel is its number")
	}
	nd.Reach("end")
}

// C35_ChannelText: up to 2 arbitrary bytes as a channel: an error or the channel of the digits.
func C35_ChannelText() {
	b := symBytes(nd.Choose(3))
	c, err := lib.ParseChannel(string(b))
	n, digits := 0, len(b) > 0
	for _, x := range b {
		digits = nd.And(digits, x >= '0', x <= '9')
		n = 10*n + int(x-'0')
	}
	nd.Assert((err == nil) == nd.And(digits, n < 16), "a channel is a number from 0 to 15")
	if err == nil {
		nd.Assert(int(c) == n, "a channel is read as its number")
	}
	nd.Reach("end")
}

// C35_Delta: every 32 bit delta time is printed as a decimal that is read as it.
func C35_Delta() {
	n := nd.U32()
	s := lib.Delta(n).String()
	nd.Assert(nd.EqStr(s, fmt.Sprint(n)), "a delta time is printed as its number")
	d, err := lib.ParseDelta(s)
	nd.Assert(err == nil && uint32(d) == n, "a delta time that is printed is read again")
	nd.Reach("end")
}

// C35_DeltaText: up to 3 arbitrary bytes as a delta time: an error or the number of the digits.
func C35_DeltaText() {
	b := symBytes(nd.Choose(4))
	d, err := lib.ParseDelta(string(b))
	n, digits := 0, len(b) > 0
	for _, x := range b {
		digits = nd.And(digits, x >= '0', x <= '9')
		n = 10*n + int(x-'0')
	}
	nd.Assert((err == nil) == digits, "a delta time is a number")
	if err == nil {
		nd.Assert(int(d) == n, "a delta time is read as its number")
	}
	nd.Reach("end")
}

// C35_Hex: any 0 to 4 bytes are printed as their digits, and read again from that, from that without blanks, with other white space and in lower case; their JSON is their values; their binary has their length.
func C35_Hex() {
	b := symBytes(nd.Choose(5))
	h := lib.Hex(b)
	s := h.String()
	nd.Assert(nd.EqStr(s, hexOf(b)), "bytes are printed as their digits")
	t := []byte{}
	how := nd.Choose(4)
	for _, c := range []byte(s) {
		switch {
		case c == ' ' && how == 1:
		case c == ' ' && how == 2:
			t = append(t, '\t', ' ')
		case how == 3:
			t = append(t, c|0x20)
		default:
			t = append(t, c)
		}
	}
	x, err := lib.ParseHex(string(t))
	nd.Assert(err == nil && nd.EqBytes(x, b), "bytes that are printed are read again")
	j, err := h.MarshalJSON()
	nd.Assert(err == nil, "bytes have a JSON form")
	var v []int
	nd.Assert(json.Unmarshal(j, &v) == nil && len(v) == len(b), "the JSON of bytes is a list of their values")
	for i := range v {
		nd.Assert(v[i] == int(b[i]), "the JSON of bytes is a list of their values")
	}
	var y lib.Hex
	nd.Assert(y.UnmarshalJSON(j) == nil && nd.EqBytes(y, b), "bytes are read from their JSON")
	m, err := h.MarshalBinary()
	nd.Assert(err == nil && nd.EqBytes(m, cat([]byte{byte(len(b))}, b)), "the binary form of bytes is their length and the bytes")
	nd.Reach("end")
}

// C35_HexText: up to 3 arbitrary characters as bytes: pairs of digits, and an error for anything else.
func C35_HexText() {
	n := nd.Choose(4)
	var b []byte
	digits := true
	for i := 0; i < n; i++ {
		c := word()
		b = append(b, c)
		digits = nd.And(digits, nd.Or(nd.And(c >= '0', c <= '9'), nd.And(c >= 'A', c <= 'F'), nd.And(c >= 'a', c <= 'f')))
	}
	h, err := lib.ParseHex(string(b))
	nd.Assert((err == nil) == nd.And(digits, n%2 == 0), "bytes are pairs of digits")
	if err == nil {
		nd.Assert(len(h) == n/2, "bytes are pairs of digits")
	}
	nd.Reach("end")
}

// C35_HexNumber: JSON lists of a valid value and any number from -5 to 300 or a limit of 16, 32 or 64 bits.
func C35_HexNumber() {
	n := 0
	if nd.Choose(2) == 0 {
		n = nd.Int(-5, 300)
	} else {
		n = []int{1 << 16, 1<<16 + 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, -1 << 63}[nd.Choose(6)]
	}
	var h lib.Hex
	err := h.UnmarshalJSON([]byte(fmt.Sprintf("[7,%d]", n)))
	nd.Assert((err == nil) == nd.And(n >= 0, n <= 255), "the JSON of bytes has values from 0 to 255")
	if err == nil {
		nd.Assert(len(h) == 2 && h[0] == 7 && int(h[1]) == n, "bytes are read from their JSON")
	}
	nd.Reach("end")
}

// C35_Tag: every tag is read from its name, alone and in a line, and from nothing else (names with one arbitrary other character).
func C35_Tag() {
	t := lib.Tag(1 + nd.Choose(int(lib.TagSysExMessage)))
	name := []byte(t.String())
	found := false
	for _, s := range tags {
		found = found || s == string(name)
	}
	nd.Assert(found, "a tag has the name of an event")
	var x lib.Tag
	switch nd.Choose(3) {
	case 0:
		nd.Assert(x.UnmarshalText(name) == nil && x == t, "a tag is read from its name")
	case 1:
		nd.Assert(x.UnmarshalText([]byte("tick:0   delta:0   "+string(name)+"   ")) == nil && x == t, "a tag is read from a line with its name")
	case 2:
		c := printable()
		i := nd.Choose(len(name))
		nd.Assume(nd.And(c != name[i], nd.Or(t != lib.TagNoteOff, i != 5, c != 'n'))) // NoteOnf has the name NoteOn
		name[i] = c
		nd.Assert(x.UnmarshalText(name) != nil, "a tag is not read from another name")
	}
	nd.Reach("end")
}

// C35_MiddleC: up to 3 arbitrary bytes as a middle C convention: C3 or C4 in either case, and an error for anything else; what is read is printed as it was.
func C35_MiddleC() {
	b := symBytes(nd.Choose(4))
	was := lib.MiddleC(nd.Choose(2))
	c := was
	err := c.Set(string(b))
	ok := false
	if len(b) == 2 {
		ok = nd.And(nd.Or(b[0] == 'C', b[0] == 'c'), nd.Or(b[1] == '3', b[1] == '4'))
	}
	nd.Assert((err == nil) == ok, "a middle C convention is C3 or C4")
	if err == nil {
		nd.Assert(nd.EqStr(c.String(), "C"+string(b[1:])), "a middle C convention is read as it is")
		nd.Assert((c == lib.C4) == (b[1] == '4'), "a middle C convention is read as it is")
	} else {
		nd.Assert(c == was, "what is not a middle C convention changes nothing")
	}
	nd.Reach("end")
}

// C35_Note: every note is found by its name and has the pitch class its name says; names with one arbitrary other character are not notes or are the note of that name.
func C35_Note() {
	n := lib.Notes[nd.Choose(len(lib.Notes))]
	nd.Assert(n.String() == n.Name, "a note is printed as its name")
	base := map[byte]int{'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
	class := func(name string) int {
		v := base[name[0]]
		switch name[1:] {
		case "♯":
			v++
		case "♭":
			v--
		default:
			nd.Assert(name[1:] == "", "a note is a letter and an accidental")
		}
		return mod12(v)
	}
	nd.Assert(n.Ord == class(n.Name), "a note has the pitch class its name says")
	x, err := lib.LookupNote(n.Name)
	nd.Assert(err == nil && x == n, "a note is found by its name")
	c := nd.Byte()
	y, err := lib.LookupNote(string(c) + n.Name[1:])
	letter := nd.And(c >= 'A', c <= 'G')
	if err == nil {
		nd.Assert(letter, "what is not a note has no name")
		nd.Assert(y.Name[0] == c && y.Name[1:] == n.Name[1:] && y.Ord == class(y.Name), "a note is found by its name")
	}
	nd.Assert(nd.Or(!letter, err == nil, n.Name[1:] != ""), "every letter is a note")
	nd.Reach("end")
}

// C35_Code: every status byte and type is printed as its two digits; types match exactly the status or type bytes of their events.
func C35_Code() {
	b := nd.Byte()
	hex := hexOf([]byte{b})
	nd.Assert(nd.EqStr(lib.Status(b).String(), hex), "a status is printed as its digits")
	nd.Assert(nd.EqStr(lib.MetaEventType(b).String(), hex), "a type is printed as its digits")
	nd.Assert(nd.EqStr(lib.MidiEventType(b).String(), hex), "a type is printed as its digits")
	nd.Assert(nd.EqStr(lib.SysExEventType(b).String(), hex), "a type is printed as its digits")
	c := nd.Byte()
	nd.Assert(lib.MidiEventType(b&0xf0).Equals(c) == (c>>4 == b>>4), "a MIDI event type is the high half of its status")
	nd.Assert(lib.SysExEventType(b).Equals(c) == (b == c), "a SysEx event type is its status")
	if c < 0x80 {
		nd.Assert(lib.MetaEventType(b).Equals(c) == (b == c), "a meta event type is its type byte")
	}
	nd.Assert(lib.Major.String() == "major" && lib.Minor.String() == "minor", "key types are printed as their names")
	nd.Reach("end")
}

// C35_Signature: every time signature is printed as its fraction.
func C35_Signature() {
	e := genEvent(kTimeSignature, 0, 0, nil)
	x := mustDecode(file1(e, eot(0))).Tracks[0].Events[0].Event
	nd.Assert(nd.EqStr(x.(fmt.Stringer).String(), fmt.Sprintf("%d/%d", e.nums[0], e.nums[1])), "a time signature is printed as its fraction")
	nd.Reach("end")
}

// C35_Manufacturer: JSON of manufacturers with an ID of 1 or 3 numbers from -1 to 260 (the first of 3 is 0 or 1): IDs of the specification, and an error for others.
func C35_Manufacturer() {
	var n []int
	s := "["
	count := []int{0, 1, 2, 3, 4}[nd.Choose(5)]
	for i := 0; i < count; i++ {
		v := nd.Int(-1, 260)
		if count > 1 && i == 0 {
			v = nd.Choose(2)
		}
		n = append(n, v)
		if i > 0 {
			s += ","
		}
		s += fmt.Sprint(v)
	}
	var m lib.Manufacturer
	err := m.UnmarshalJSON([]byte(`{"id":` + s + `]}`))
	ok := nd.Or(count == 1, nd.And(count == 3, n != nil && n[0] == 0))
	for _, v := range n {
		ok = nd.And(ok, v >= 0, v < 128)
	}
	nd.Assert((err == nil) == ok, "a manufacturer ID is one number below 128, or 0 and two of them")
	if err == nil {
		nd.Assert(len(m.ID) == count, "a manufacturer is read with its ID")
		for i, v := range n {
			nd.Assert(int(m.ID[i]) == v, "a manufacturer is read with its ID")
		}
	}
	nd.Reach("end")
}
