package h

import (
	"encoding/json"
	"strings"

	"verif/harness/nd"

	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// anyID: any ID of one byte, or of three bytes of which the first is 0.
func anyID() []byte {
	if nd.Choose(2) == 0 {
		return []byte{nd.Byte()}
	}
	return []byte{0, nd.Byte(), nd.Byte()}
}

// C24_Lookup: any ID of one byte or of 00 and two bytes: the manufacturer found has that ID, and a known one is found by its name.
func C24_Lookup() {
	id := anyID()
	m := lib.LookupManufacturer(append([]byte{}, id...))
	nd.Assert(nd.EqBytes(m.ID, id), "a manufacturer has the ID it was looked up with")
	nd.Assert(nd.And(len(m.Name) > 0, len(m.Region) > 0), "a manufacturer has a name and a region")
	if m.Name != "<unknown>" {
		f, err := lib.FindManufacturer(m.Name)
		nd.Assert(err == nil, "a known manufacturer is found by its name")
		nd.Assert(nd.EqStr(f.Name, m.Name), "a manufacturer found by its name has that name")
		back := lib.LookupManufacturer(f.ID)
		nd.Assert(nd.And(nd.EqStr(back.Name, m.Name), nd.EqBytes(back.ID, f.ID)), "the ID found for a name is one of that name")
		nd.Assert(nd.EqBytes(f.ID, id), "looking a known manufacturer's name up gives its ID")
	}
	nd.Reach("end")
}

// C24_History: three lookups, of any IDs of one byte or of 00 and two bytes (the same or others): each has its ID, and a name does not depend on the lookups before it.
func C24_History() {
	a, b := anyID(), anyID()
	first := lib.LookupManufacturer(append([]byte{}, a...))
	name, region := first.Name, first.Region
	second := lib.LookupManufacturer(append([]byte{}, b...))
	third := lib.LookupManufacturer(append([]byte{}, a...))
	nd.Assert(nd.And(nd.EqBytes(first.ID, a), nd.EqBytes(second.ID, b), nd.EqBytes(third.ID, a)), "each manufacturer has the ID it was looked up with")
	nd.Assert(nd.And(nd.EqStr(first.Name, name), nd.EqStr(third.Name, name), nd.EqStr(third.Region, region)), "the name of a manufacturer does not depend on other lookups")
	nd.Reach("end")
}

// C24_Unknown: a name that no manufacturer has (one arbitrary printable character after a 'Q') is an error.
func C24_Unknown() {
	_, err := lib.FindManufacturer(string([]byte{'Q', word()}))
	nd.Assert(err != nil, "an unknown name is an error")
	nd.Reach("end")
}

// C24_Near: a name that is not quite that of a manufacturer (any known one: without its last or first letter, with a blank after it, in other letters, nothing at all): what is found, if anything, has exactly the name asked for.
func C24_Near() {
	m := lib.LookupManufacturer(anyID())
	if m.Name != "<unknown>" {
		s := m.Name
		s = []string{s[:len(s)-1], s[1:], s + " ", " " + s, strings.ToLower(s), strings.ToUpper(s), s[:3], ""}[nd.Choose(8)]
		f, err := lib.FindManufacturer(s)
		nd.Assert(err != nil || f.Name == s, "a manufacturer found by a name has that name")
	}
	nd.Reach("end")
}

// C24_Some: some manufacturers are known by their assigned IDs.
func C24_Some() {
	list := []struct {
		id   []byte
		name string
	}{
		{[]byte{0x01}, "Sequential Circuits"}, {[]byte{0x04}, "Moog"}, {[]byte{0x41}, "Roland"}, {[]byte{0x42}, "Korg"}, {[]byte{0x43}, "Yamaha"}, {[]byte{0x44}, "Casio"},
		{[]byte{0x7d}, "Non-Commercial"}, {[]byte{0x7e}, "Non-RealTime Extensions"}, {[]byte{0x7f}, "RealTime Extensions"}, {[]byte{0, 0, 0x3b}, "Mark Of The Unicorn (MOTU)"},
	}
	c := list[nd.Choose(len(list))]
	nd.Assert(nd.EqStr(lib.LookupManufacturer(c.id).Name, c.name), "a well known manufacturer has its name")
	nd.Reach("end")
}

// C24_Events: the manufacturer of a SysEx message and of a sequencer specific event with any ID of 7-bit bytes.
func C24_Events() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	e := genEvent(kind, 0, 0, nd.Byte)
	smf := mustDecode(file1(e, eot(0)))
	var m lib.Manufacturer
	if kind == kSysEx {
		m = smf.Tracks[0].Events[0].Event.(sysex.SysExMessage).Manufacturer
	} else {
		m = smf.Tracks[0].Events[0].Event.(metaevent.SequencerSpecificEvent).Manufacturer
	}
	var id []byte
	for i := 0; i < int(e.nums[0]); i++ {
		id = append(id, byte(e.nums[1+i]))
	}
	w := lib.LookupManufacturer(id)
	nd.Assert(nd.And(nd.EqBytes(m.ID, id), nd.EqStr(m.Name, w.Name), nd.EqStr(m.Region, w.Region)), "an event has the manufacturer of its ID")
	nd.Reach("end")
}

// C24_JSON: a manufacturer of any ID of 7-bit bytes, as JSON and back.
func C24_JSON() {
	id := anyID()
	for _, b := range id {
		nd.Assume(b < 0x80)
	}
	m := lib.LookupManufacturer(id)
	j, err := json.Marshal(m)
	nd.Assert(err == nil, "a manufacturer is written as JSON")
	var back lib.Manufacturer
	nd.Assert(json.Unmarshal(j, &back) == nil, "a manufacturer is read from JSON")
	nd.Assert(nd.And(nd.EqBytes(back.ID, m.ID), nd.EqStr(back.Name, m.Name), nd.EqStr(back.Region, m.Region)), "a manufacturer is the same after JSON")
	nd.Reach("end")
}

// C24_Controllers: every number of a controller, known or not.
func C24_Controllers() {
	b := nd.Byte()
	c := lib.LookupController(b)
	nd.Assert(nd.And(c.ID == b, len(c.Name) > 0), "a controller has the number it was looked up with")
	n := data7()
	smf := mustDecode(file1(ev{wire: []byte{0xb0, n, 5}}, eot(0)))
	e := smf.Tracks[0].Events[0].Event.(midievent.Controller)
	nd.Assert(nd.And(e.Controller.ID == n, nd.EqStr(e.Controller.Name, lib.LookupController(n).Name)), "an event has the controller of its number")
	nd.Reach("end")
}

// C24_Names: some controllers are known by their assigned numbers.
func C24_Names() {
	list := []struct {
		id   byte
		name string
	}{
		{0, "Bank Select (MSB)"}, {32, "Bank Select (LSB)"}, {1, "Modulation Wheel (MSB)"}, {7, "Channel Volume (MSB)"}, {10, "Pan (MSB)"}, {11, "Expression Controller (MSB)"},
	}
	c := list[nd.Choose(len(list))]
	nd.Assert(nd.EqStr(lib.LookupController(c.id).Name, c.name), "a well known controller has its name")
	nd.Reach("end")
}

// C24_Added: a manufacturer of seven IDs, of one byte and of three, loaded from a configuration: it is found, and others are as they were.
func C24_Added() {
	added := []struct {
		id  []byte
		ids string
	}{
		{[]byte{0x02}, "2"}, {[]byte{0x41}, "65"}, {[]byte{0x7f}, "127"}, {[]byte{0x00, 0x7e, 0x11}, "0,126,17"}, {[]byte{0x00, 0x00, 0x77}, "0,0,119"}, {[]byte{0x00, 0x77, 0x00}, "0,119,0"}, {[]byte{0x00, 0x41, 0x7f}, "0,65,127"},
	}[nd.Choose(7)]
	id, ids := added.id, added.ids
	other := anyID()
	before := lib.LookupManufacturer(other)
	list, err := lib.LoadManufacturers(strings.NewReader(`{ "manufacturers": [ { "id": [` + ids + `], "region": "Here", "name": "Quux" } ] }`))
	nd.Assert(err == nil, "a configuration is loaded")
	lib.AddManufacturers(list)
	m := lib.LookupManufacturer(id)
	nd.Assert(nd.And(nd.EqBytes(m.ID, id), nd.EqStr(m.Name, "Quux"), nd.EqStr(m.Region, "Here")), "a loaded manufacturer is found by its ID")
	f, err := lib.FindManufacturer("Quux")
	nd.Assert(err == nil && nd.EqBytes(f.ID, id), "a loaded manufacturer is found by its name")
	after := lib.LookupManufacturer(other)
	if !nd.EqBytes(other, id) {
		nd.Assert(nd.And(nd.EqBytes(after.ID, before.ID), nd.EqStr(after.Name, before.Name), nd.EqStr(after.Region, before.Region)), "adding a manufacturer leaves the others")
	}
	nd.Reach("end")
}
