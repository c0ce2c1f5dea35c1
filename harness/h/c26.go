package h

import (
	"encoding/json"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi/lib"
)

// jsonEvent has the fields of an exported event, whatever its kind.
type jsonEvent struct {
	Tag      string `json:"tag"`
	Delta    int    `json:"delta"`
	Status   int    `json:"status"`
	Type     int    `json:"type"`
	Channel  int    `json:"channel"`
	Velocity int    `json:"velocity"`
	Note     struct {
		Value int    `json:"value"`
		Name  string `json:"name"`
	} `json:"note"`
	Pressure   int `json:"pressure"`
	Controller struct {
		ID   int    `json:"id"`
		Name string `json:"name"`
	} `json:"controller"`
	Value          int    `json:"value"`
	Bank           int    `json:"bank"`
	Program        int    `json:"program"`
	Bend           int    `json:"bend"`
	SequenceNumber int    `json:"sequence-number"`
	Text           string `json:"text"`
	Copyright      string `json:"copyright"`
	Name           string `json:"name"`
	Lyric          string `json:"lyric"`
	Marker         string `json:"marker"`
	CuePoint       string `json:"cuepoint"`
	Port           int    `json:"port"`
	Tempo          int    `json:"tempo"`
	Hour           int    `json:"hour"`
	Minute         int    `json:"minute"`
	Second         int    `json:"second"`
	FrameRate      int    `json:"frame-rate"`
	Frames         int    `json:"frames"`
	Fractional     int    `json:"fractional-frames"`
	Numerator      int    `json:"numerator"`
	Denominator    int    `json:"denominator"`
	TicksPerClick  int    `json:"ticks-per-click"`
	ThirtySeconds  int    `json:"thirty-seconds-per-quarter"`
	Accidentals    int    `json:"accidentals"`
	KeyType        int    `json:"key-type"`
	Key            string `json:"key"`
	Manufacturer   struct {
		ID     []int  `json:"id"`
		Region string `json:"region"`
		Name   string `json:"name"`
	} `json:"manufacturer"`
	Data   []int `json:"data"`
	Single bool  `json:"single"`
	End    bool  `json:"end"`
}

// UnmarshalJSON leaves values that are not stated as ones no event has.
func (x *jsonEvent) UnmarshalJSON(b []byte) error {
	type plain jsonEvent
	const no, none = -1000, "not stated"
	p := plain{Tag: none, Delta: no, Status: no, Type: no, Channel: no, Velocity: no, Pressure: no, Value: no, Bank: no, Program: no, Bend: no,
		SequenceNumber: no, Text: none, Copyright: none, Name: none, Lyric: none, Marker: none, CuePoint: none, Port: no, Tempo: no,
		Hour: no, Minute: no, Second: no, FrameRate: no, Frames: no, Fractional: no, Numerator: no, Denominator: no, TicksPerClick: no, ThirtySeconds: no,
		Accidentals: no, KeyType: no, Key: none}
	p.Note.Value, p.Note.Name, p.Controller.ID, p.Controller.Name = no, none, no, none
	p.Manufacturer.Region, p.Manufacturer.Name = none, none
	err := json.Unmarshal(b, &p)
	*x = jsonEvent(p)
	return err
}

type jsonFile struct {
	Header struct {
		Tag      string
		Length   int
		Format   int
		Tracks   int
		Division int
		PPQN     int
	} `json:"header"`
	Tracks []struct {
		Tag    string `json:"tag"`
		Number int    `json:"track-number"`
		Events []struct {
			Event jsonEvent `json:"event"`
		} `json:"events"`
	} `json:"tracks"`
}

func ints(b []byte) []int {
	n := make([]int, len(b))
	for i, v := range b {
		n[i] = int(v)
	}
	return n
}

func eqInts(a []int, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	return ok
}

// states asserts that the exported event has the values of the reference event.
func (e ev) states(x jsonEvent) {
	n := func(i int) int { return int(e.nums[i]) }
	nd.Assert(nd.And(nd.EqStr(x.Tag, tags[e.kind]), x.Delta == int(e.delta), x.Status == int(e.wire[0])), "an exported event has its tag, delta time and status")
	if e.wire[0] == 0xff {
		nd.Assert(x.Type == int(e.wire[1]), "an exported meta event has its type")
	}
	if isMIDI(e.kind) {
		nd.Assert(x.Channel == n(0), "an exported channel event has its channel")
	}
	ok := true
	switch e.kind {
	case kNoteOn, kNoteOff:
		ok = nd.And(x.Note.Value == n(1), x.Velocity == n(2), nd.EqStr(x.Note.Name, noteName(n(1), false, false)))
	case kPolyPressure, kChannelPressure:
		ok = x.Pressure == n(1)
	case kController:
		ok = nd.And(x.Controller.ID == n(1), x.Value == n(2), nd.EqStr(x.Controller.Name, lib.LookupController(byte(n(1))).Name))
	case kProgramChange:
		ok = nd.And(x.Program == n(1), x.Bank == 0)
	case kPitchBend:
		ok = x.Bend == n(1)
	case kSequenceNumber:
		ok = x.SequenceNumber == n(0)
	case kText:
		ok = nd.EqStr(x.Text, string(e.data))
	case kCopyright:
		ok = nd.EqStr(x.Copyright, string(e.data))
	case kTrackName, kInstrumentName, kProgramName, kDeviceName:
		ok = nd.EqStr(x.Name, string(e.data))
	case kLyric:
		ok = nd.EqStr(x.Lyric, string(e.data))
	case kMarker:
		ok = nd.EqStr(x.Marker, string(e.data))
	case kCuePoint:
		ok = nd.EqStr(x.CuePoint, string(e.data))
	case kChannelPrefix:
		ok = x.Channel == n(0)
	case kPort:
		ok = x.Port == n(0)
	case kTempo:
		ok = x.Tempo == n(0)
	case kSMPTEOffset:
		ok = nd.And(x.Hour == n(0), x.Minute == n(1), x.Second == n(2), x.FrameRate == n(3), x.Frames == n(4), x.Fractional == n(5))
	case kTimeSignature:
		ok = nd.And(x.Numerator == n(0), x.Denominator == n(1), x.TicksPerClick == n(2), x.ThirtySeconds == n(3))
	case kKeySignature:
		ok = nd.And(x.Accidentals == signed(e.nums[0]), x.KeyType == n(1), nd.EqStr(x.Key, keyName(nd.Pick(signed(e.nums[0])), n(1) == 1)))
	case kEscape:
		ok = eqInts(x.Data, ints(e.data))
	case kSysEx, kSysExFirst:
		m := manufacturerOf(e.nums[1 : len(e.nums)-1]...)
		ok = nd.And(eqInts(x.Manufacturer.ID, ints(m.ID)), nd.EqStr(x.Manufacturer.Name, m.Name), nd.EqStr(x.Manufacturer.Region, m.Region), x.Single == (e.kind == kSysEx), eqInts(x.Data, ints(e.data)))
	case kSysExNext, kSysExLast:
		ok = nd.And(x.End == (e.kind == kSysExLast), eqInts(x.Data, ints(e.data)))
	case kSequencerSpecific:
		var id []byte
		for _, v := range e.nums[1:] {
			id = append(id, byte(v))
		}
		m := lib.LookupManufacturer(id)
		ok = nd.And(eqInts(x.Manufacturer.ID, ints(id)), nd.EqStr(x.Manufacturer.Name, m.Name), nd.EqStr(x.Manufacturer.Region, m.Region), eqInts(x.Data, ints(e.data)))
	}
	nd.Assert(ok, "an exported event has its values")
}

func exported(format, division uint16, tracks ...[]ev) {
	b := header(format, uint16(len(tracks)), division)
	for _, t := range tracks {
		b = append(b, track(t...)...)
	}
	var f jsonFile
	f.Header.Format = -1
	nd.Assert(json.Unmarshal(toJSON(mustDecode(b)), &f) == nil, "an export is valid JSON")
	h := f.Header
	nd.Assert(nd.And(nd.EqStr(h.Tag, "MThd"), h.Length == 6, h.Format == int(format), h.Tracks == len(tracks), h.Division == int(division), h.PPQN == int(division)), "an export has the values of the header")
	nd.Assert(len(f.Tracks) == len(tracks), "an export has each track")
	for i, evs := range tracks {
		t := f.Tracks[i]
		nd.Assert(nd.And(nd.EqStr(t.Tag, "MTrk"), t.Number == i), "an exported track has its number")
		nd.Assert(len(t.Events) == len(evs), "an exported track has each event")
		for j, e := range evs {
			e.states(t.Events[j].Event)
		}
	}
	nd.Reach("end")
}

// C26_Event: one event of each general kind with arbitrary values, texts of 1 printable byte, escapes of 1 byte.
func C26_Event() {
	kind := nd.Choose(nGeneral)
	next := printable
	if kind == kEscape {
		next = nd.Byte
	}
	exported(0, 480, []ev{genEvent(kind, 0, 1, next), eot(0)})
}

// C26_Delta: delta times below 2^28.
func C26_Delta() { exported(0, 480, []ev{on(genDelta(), 1, 60, 64), eot(0)}) }

// C26_Long: a text, an escape, a sequencer specific event or a SysEx message in one or three packets, of 8 to 200 bytes, the last of which is any printable one.
func C26_Long() { exported(0, 480, append(longEvents(false), eot(0))) }

// C26_Manufacturer: SysEx messages in one and in two packets and sequencer specific events of any manufacturer, 1 data byte.
func C26_Manufacturer() {
	switch nd.Choose(3) {
	case 0:
		exported(0, 480, []ev{genEvent(kSysEx, 0, 1, sevenBit), eot(0)})
	case 1:
		exported(0, 480, append(yamaha(message(3, 1)), eot(0)))
	case 2:
		exported(0, 480, []ev{genEvent(kSequencerSpecific, 0, 1, nd.Byte), eot(0)})
	}
}

// C26_Pair: two events of any general kinds with fixed values.
func C26_Pair() {
	a, b := fixedEvent(nd.Choose(nGeneral), 3), fixedEvent(nd.Choose(nGeneral), 200)
	if a.kind == kKeySignature || a.kind == kController {
		nd.Stop()
	}
	exported(0, 480, []ev{a, b, eot(7)})
}

// C26_Tracks: one to three tracks with an arbitrary tempo in the last, any format, an arbitrary metrical division.
func C26_Tracks() {
	n := 1 + nd.Choose(3)
	ppqn := nd.U16() & 0x7fff
	nd.Assume(ppqn != 0)
	var tracks [][]ev
	for i := 0; i < n; i++ {
		t := uint32(1000 * i)
		if i == n-1 {
			t = anyTempo()
		}
		tracks = append(tracks, []ev{tempo(uint32(i), t), eot(0)})
	}
	exported(uint16(nd.Choose(3)), ppqn, tracks...)
}

// C26_Text: texts of 0 to 2 printable characters, with the ones that JSON escapes.
func C26_Text() {
	exported(0, 480, []ev{genEvent(kText+nd.Choose(9), 0, nd.Choose(3), printable), eot(0)})
}

// C26_Big: files of 300 tracks, of a track of 400 events, and of a track with a text of 5000 bytes, fixed but for an arbitrary program in the last event.
//
// @steps 100000000
func C26_Big() {
	all := bigText()
	for i := range all {
		for j, e := range all[i] {
			if e.kind == kKeySignature || e.kind == kController { // they change the names and banks of later events
				all[i][j] = fixedEvent(kMarker, e.delta)
			}
		}
	}
	exported(1, 480, all...)
}

// C26_Bank: a bank select (either half first, any values, any channel) and a program change of the same or another channel: the exported bank is the one selected for the channel, or 0.
func C26_Bank() {
	ch, msb, lsb := upto(15), data7(), data7()
	other := ch
	if nd.Choose(2) == 1 {
		other = upto(15)
		nd.Assume(other != ch)
	}
	ctl := func(id, v byte) ev { return ev{wire: []byte{0xb0 | ch, id, v}} }
	evs := []ev{ctl(0, msb), ctl(0x20, lsb)}
	if nd.Choose(2) == 1 {
		evs[0], evs[1] = evs[1], evs[0]
	}
	var f jsonFile
	b := file1(evs[0], evs[1], ev{wire: []byte{0xc0 | other, data7()}}, eot(0))
	nd.Assert(json.Unmarshal(toJSON(mustDecode(b)), &f) == nil, "an export is valid JSON")
	nd.Assert(len(f.Tracks) == 1 && len(f.Tracks[0].Events) == 4, "an export has each event")
	bank := int(msb)*128 + int(lsb)
	if other != ch {
		bank = 0
	}
	nd.Assert(f.Tracks[0].Events[2].Event.Bank == bank, "an exported program change has the bank that was selected")
	nd.Reach("end")
}

// C26_Header: the header of files of any format with any metrical division, or of any SMPTE frame rate and any sub-frames (below 128): the values, and a field for each of them.
func C26_Header() {
	format, division := uint16(nd.Choose(3)), nd.U16()&0x7fff
	fps, ppqn, sub := 0, 0, 0
	if k := nd.Choose(5); k < 4 {
		fps = []int{24, 25, 29, 30}[k]
		division = division&0x7f | []uint16{0xe800, 0xe700, 0xe300, 0xe200}[k]
		sub = int(division & 0x7f)
	} else {
		ppqn = int(division)
	}
	no := -1
	f := struct {
		Header struct {
			Tag                                         string
			Length, Format, Tracks, Division, PPQN, FPS *int
			SubFrames                                   *int
			SMPTETimeCode, DropFrame                    *bool
		} `json:"header"`
	}{}
	nd.Assert(json.Unmarshal(toJSON(mustDecode(cat(header(format, 1, division), track(eot(0))))), &f) == nil, "an export is valid JSON")
	h := f.Header
	is := func(p *int) int {
		if p == nil {
			return no
		}
		return *p
	}
	nd.Assert(nd.And(nd.EqStr(h.Tag, "MThd"), is(h.Length) == 6, is(h.Format) == int(format), is(h.Tracks) == 1, is(h.Division) == int(division)), "an export has the values of the header")
	nd.Assert(nd.And(is(h.PPQN) == ppqn, is(h.FPS) == fps, is(h.SubFrames) == sub), "an export has the division of the header")
	nd.Assert(h.SMPTETimeCode != nil && h.DropFrame != nil, "an export has the division of the header")
	nd.Assert(nd.And(*h.SMPTETimeCode == (fps != 0), *h.DropFrame == (fps == 29)), "an export has the division of the header")
	nd.Reach("end")
}

// C26_Many: a file with 256, 257 or 300 tracks, the last with a note of any key.
//
// @steps 100000000
func C26_Many() {
	n := []int{256, 257, 300}[nd.Choose(3)]
	var tracks [][]ev
	for i := 1; i < n; i++ {
		tracks = append(tracks, []ev{eot(0)})
	}
	exported(1, 480, append(tracks, []ev{on(3, 1, data7(), 64), eot(0)})...)
}

// C26_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C26_Track() { exported(0, 480, longTrack()) }
