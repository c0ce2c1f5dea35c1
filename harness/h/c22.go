package h

import (
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

func decodesAs(evs []ev) {
	smf := mustDecode(file1(evs...))
	trackSays(smf.Tracks[0], evs, "a track has each packet once", "each packet has its kind, terminator and data")
	b := mustEncode(smf)
	again := mustDecode(b)
	trackSays(again.Tracks[0], evs, "an encoded track has each packet once", "each encoded packet has its kind, terminator and data")
	observe(again.Tracks[0])
	nd.Reach("end")
}

// C22_Packets: a message in one to four packets of 0 to 2 (thorough: 3) arbitrary data bytes each, then an escape of 1 arbitrary byte.
func C22_Packets() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	evs := message(1+nd.Choose(4), nd.Choose(n))
	evs = append(evs, genEvent(kEscape, smallDelta(), 1, nd.Byte), eot(0))
	decodesAs(evs)
}

// C22_Two: two messages in one to three packets each, one data byte per packet, by a known manufacturer, with or without an escape before, between and after them.
func C22_Two() {
	var evs []ev
	esc := func() {
		if nd.Choose(2) == 1 {
			evs = append(evs, genEvent(kEscape, 0, 1, nd.Byte))
		}
	}
	esc()
	evs = append(evs, yamaha(message(1+nd.Choose(3), 1))...)
	esc()
	second := yamaha(message(1+nd.Choose(3), 1))
	evs = append(evs, second...)
	esc()
	decodesAs(append(evs, eot(0)))
}

// C22_Escape: an escape of 0 to 3 (thorough: 5) arbitrary bytes, also ones that end with F7.
func C22_Escape() {
	n := 4
	if nd.Thorough() {
		n = 6
	}
	decodesAs([]ev{genEvent(kEscape, smallDelta(), nd.Choose(n), nd.Byte), eot(0)})
}

// C22_Inside: data bytes of any value (also F7) before the end of a message are data.
func C22_Inside() {
	a, b := nd.Byte(), nd.Byte()
	evs := []ev{
		{kind: kSysEx, wire: []byte{0xf0, 4, 0x43, a, b, 0xf7}, nums: []uint64{1, 0x43, 1}, data: []byte{a, b}},
		{kind: kEscape, wire: []byte{0xf7, 2, a, b}, data: []byte{a, b}},
		eot(0)}
	if nd.Choose(2) == 1 {
		evs = []ev{
			{kind: kSysExFirst, wire: []byte{0xf0, 2, 0x43, 1}, nums: []uint64{1, 0x43, 0}, data: []byte{1}},
			{kind: kSysExLast, wire: []byte{0xf7, 3, a, b, 0xf7}, nums: []uint64{1}, data: []byte{a, b}},
			{kind: kEscape, wire: []byte{0xf7, 2, a, b}, data: []byte{a, b}},
			eot(0)}
	}
	decodesAs(evs)
}

// C22_JSON: a message in one to three packets of one arbitrary data byte each, by a known manufacturer, through JSON; an escape after it.
func C22_JSON() {
	evs := yamaha(message(1+nd.Choose(3), 1))
	jsonTrip(file1(append(evs, fixedEvent(kEscape, 0), eot(0))...))
}

// C22_Text: the same through text.
func C22_Text() {
	evs := yamaha(message(1+nd.Choose(3), 1))
	textTrip(file1(append(evs, fixedEvent(kEscape, 0), eot(0))...))
}

// C22_TwoText: two messages of one to three packets with fixed bytes, with or without an escape between them, through JSON and text.
func C22_TwoText() {
	one := func(k int) []ev {
		var evs []ev
		if k == 1 {
			return []ev{{wire: []byte{0xf0, 3, 0x43, 1, 0xf7}}}
		}
		evs = append(evs, ev{wire: []byte{0xf0, 2, 0x43, 1}})
		for i := 2; i < k; i++ {
			evs = append(evs, ev{wire: []byte{0xf7, 2, 5, 6}})
		}
		return append(evs, ev{wire: []byte{0xf7, 2, 7, 0xf7}})
	}
	evs := one(1 + nd.Choose(3))
	if nd.Choose(2) == 1 {
		evs = append(evs, ev{wire: []byte{0xf7, 2, 0xf3, nd.Byte()}})
	}
	evs = append(evs, one(1+nd.Choose(3))...)
	b := file1(append(evs, eot(0))...)
	if nd.Choose(2) == 0 {
		jsonTrip(b)
	} else {
		textTrip(b)
	}
}

// C22_Empty: a message without data after the manufacturer, whole and in two packets, through binary, JSON and text.
func C22_Empty() {
	evs := []ev{{wire: []byte{0xf0, 2, 0x43, 0xf7}}}
	if nd.Choose(2) == 1 {
		evs = []ev{{wire: []byte{0xf0, 1, 0x43}}, {wire: []byte{0xf7, 1, 0xf7}}}
	}
	b := file1(append(evs, eot(0))...)
	switch nd.Choose(3) {
	case 0:
		a := mustDecode(b)
		sameFile(a, mustDecode(mustEncode(a)), "binary round trip")
	case 1:
		jsonTrip(b)
	case 2:
		textTrip(b)
	}
	nd.Reach("end")
}

// C22_Between: a complete message of any manufacturer, another event of each general kind, and an escape: the event does not change what they are.
func C22_Between() {
	evs := []ev{genEvent(kSysEx, 0, 1, sevenBit), fixedEvent(nd.Choose(nGeneral), 1), genEvent(kEscape, 0, 2, nd.Byte), eot(0)}
	decodesAs(evs)
}

// C22_Terminator: a decoded whole message ends with F7 when it is encoded, and a first packet does not.
func C22_Terminator() {
	d := symBytes(2)
	for _, b := range d {
		nd.Assume(b < 0x80)
	}
	smf := mustDecode(file1(ev{wire: cat([]byte{0xf0, 4, 0x43}, d, []byte{0xf7})}, ev{wire: cat([]byte{0xf0, 3, 0x43}, d)}, ev{wire: []byte{0xf7, 1, 0xf7}}, eot(0)))
	x, err := smf.Tracks[0].Events[0].Event.(sysex.SysExMessage).MarshalBinary()
	nd.Assert(err == nil, "a message is encoded")
	nd.Assert(nd.EqBytes(x, cat([]byte{0xf0, 4, 0x43}, d, []byte{0xf7})), "a whole message ends with F7")
	x, err = smf.Tracks[0].Events[1].Event.(sysex.SysExMessage).MarshalBinary()
	nd.Assert(err == nil, "a first packet is encoded")
	nd.Assert(nd.EqBytes(x, cat([]byte{0xf0, 3, 0x43}, d)), "a first packet does not end with F7")
	nd.Reach("end")
}

// C22_LongID: the first of one to three packets of a message with a manufacturer ID of 3 bytes (00 and two arbitrary 7-bit bytes) and 0 to 2 data bytes.
func C22_LongID() {
	a, b := data7(), data7()
	n := nd.Choose(3)
	var d []byte
	for i := 0; i < n; i++ {
		d = append(d, data7())
	}
	body := cat([]byte{0, a, b}, d)
	nums := []uint64{3, 0, uint64(a), uint64(b)}
	var evs []ev
	if k := nd.Choose(3); k == 0 {
		body = append(body, 0xf7)
		evs = []ev{{kind: kSysEx, wire: cat([]byte{0xf0, byte(len(body))}, body), nums: append(nums, 1), data: d}}
	} else {
		evs = []ev{{kind: kSysExFirst, wire: cat([]byte{0xf0, byte(len(body))}, body), nums: append(nums, 0), data: d}}
		if k == 2 {
			evs = append(evs, genEvent(kSysExNext, 1, 1, sevenBit))
		}
		evs = append(evs, genEvent(kSysExLast, 1, 1, sevenBit))
	}
	decodesAs(append(evs, eot(0)))
}

// apart is a message in two or three packets of one arbitrary data byte each with an event of any general kind but escapes (fixed values) after each of them.
func apart() []ev {
	evs := yamaha(message(2+nd.Choose(2), 1))
	kind := nd.Choose(kEscape)
	var all []ev
	for _, e := range evs {
		all = append(all, e, fixedEvent(kind, 1))
	}
	return append(all, genEvent(kEscape, 0, 1, nd.Byte), eot(0))
}

// C22_Apart: a message in two or three packets of one arbitrary data byte each, with an event of any general kind after each packet, and an escape.
func C22_Apart() {
	decodesAs(apart())
}

// C22_ApartJSON: the same through JSON.
func C22_ApartJSON() {
	jsonTrip(file1(apart()...))
}

// C22_ApartText: the same through text.
func C22_ApartText() {
	textTrip(file1(apart()...))
}

// C22_End: a track that ends with a message, whole or in two packets, without an EndOfTrack, through binary, JSON and text.
func C22_End() {
	b := file1(append([]ev{on(0, 1, 60, 64)}, yamaha(message(1+nd.Choose(2), 1))...)...)
	switch nd.Choose(3) {
	case 0:
		a := mustDecode(b)
		sameFile(a, mustDecode(mustEncode(a)), "binary round trip")
	case 1:
		jsonTrip(b)
	case 2:
		textTrip(b)
	}
	nd.Reach("end")
}

// C22_Many: a message in 40 packets (thorough: 400) of which the last has an arbitrary data byte, then an escape; then another message in two packets; through binary, JSON and text.
func C22_Many() {
	n := 40
	if nd.Thorough() {
		n = 400
	}
	d := nd.Byte()
	evs := []ev{{kind: kSysExFirst, wire: []byte{0xf0, 2, 0x43, 1}, nums: []uint64{1, 0x43, 0}, data: []byte{1}}}
	for i := 2; i < n; i++ {
		evs = append(evs, ev{kind: kSysExNext, delta: uint32(i), wire: []byte{0xf7, 2, byte(i & 0x7f), 6}, nums: []uint64{0}, data: []byte{byte(i & 0x7f), 6}})
	}
	evs = append(evs, ev{kind: kSysExLast, wire: []byte{0xf7, 2, d, 0xf7}, nums: []uint64{1}, data: []byte{d}},
		ev{kind: kEscape, wire: []byte{0xf7, 2, 0xf3, d}, data: []byte{0xf3, d}},
		ev{kind: kSysExFirst, wire: []byte{0xf0, 2, 0x43, 1}, nums: []uint64{1, 0x43, 0}, data: []byte{1}},
		ev{kind: kSysExLast, wire: []byte{0xf7, 2, 5, 0xf7}, nums: []uint64{1}, data: []byte{5}},
		eot(0))
	switch nd.Choose(3) {
	case 0:
		decodesAs(evs)
	case 1:
		jsonTrip(file1(evs...))
	case 2:
		textTrip(file1(evs...))
	}
}
