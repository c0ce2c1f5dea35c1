package h

import (
	"bytes"
	"fmt"
	"io"

	"verif/harness/nd"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// The kinds of event a generated track is made of.
const (
	kNoteOff = iota
	kNoteOn
	kPolyPressure
	kController
	kProgramChange
	kChannelPressure
	kPitchBend
	kSequenceNumber
	kText
	kCopyright
	kTrackName
	kInstrumentName
	kLyric
	kMarker
	kCuePoint
	kProgramName
	kDeviceName
	kChannelPrefix
	kPort
	kTempo
	kSMPTEOffset
	kTimeSignature
	kKeySignature
	kEscape
	kEndOfTrack
	// manufacturer look-ups fork once per known manufacturer: not part of the
	// general mixes
	kSequencerSpecific
	kSysEx
	kSysExFirst
	kSysExNext
	kSysExLast
)

// nGeneral is the number of kinds of the general mixes (0..nGeneral-1).
const nGeneral = kEndOfTrack

var tags = []string{
	"NoteOff", "NoteOn", "PolyphonicPressure", "Controller", "ProgramChange", "ChannelPressure", "PitchBend",
	"SequenceNumber", "Text", "Copyright", "TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint", "ProgramName", "DeviceName",
	"MIDIChannelPrefix", "MIDIPort", "Tempo", "SMPTEOffset", "TimeSignature", "KeySignature", "SysExEscape", "EndOfTrack",
	"SequencerSpecificEvent", "SysExMessage", "SysExMessage", "SysExContinuation", "SysExContinuation",
}

// ev is a reference event: the kind, the delta time and the values, and the
// bytes the SMF specification gives it (without running status).
type ev struct {
	kind  int
	delta uint32
	nums  []uint64 // the values, in the order of the type's fields
	data  []byte   // text or data bytes
	wire  []byte   // status byte and everything after it
}

func isMIDI(kind int) bool   { return kind <= kPitchBend }
func isText(kind int) bool   { return kind >= kText && kind <= kDeviceName }
func (e ev) status() byte    { return e.wire[0] }
func (e ev) channel() uint64 { return e.nums[0] }

// draw is where the generated values come from: arbitrary, or fixed ones for the
// events made by fixedEvent.
var draw = nd.Byte

func drawInt(lo, hi int) int {
	if fixed {
		return (lo + hi) / 2
	}
	return nd.Int(lo, hi)
}

var fixed = false

// fixedEvent makes an event of the kind with fixed values.
func fixedEvent(kind int, delta uint32) ev {
	i := byte(0)
	draw, fixed = func() byte { i++; return i }, true
	e := genEvent(kind, delta, 1, func() byte { return 'x' })
	draw, fixed = nd.Byte, false
	return e
}

func data7() byte {
	return draw() & 0x7f
}

func upto(n byte) byte {
	if n&(n+1) == 0 {
		return draw() & n
	}
	b := draw()
	nd.Assume(b <= n)
	return b
}

func symBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
	}
	return b
}

// genDelta: a delta time below 2^28, of any of the four lengths.
func genDelta() uint32 {
	return nd.U32() & (1<<28 - 1)
}

// smallDelta: a one byte delta time.
func smallDelta() uint32 { return uint32(data7()) }

// genEvent makes a well-formed event of the kind with arbitrary values; n is the
// number of text or data bytes, drawn with next.
func genEvent(kind int, delta uint32, n int, next func() byte) ev {
	e := ev{kind: kind, delta: delta}
	text := func() {
		e.data = make([]byte, n)
		for i := range e.data {
			e.data[i] = next()
		}
	}
	meta := func(typ byte, data ...byte) {
		e.wire = append([]byte{0xff, typ}, refVLQ(uint32(len(data)))...)
		e.wire = append(e.wire, data...)
	}
	switch kind {
	case kNoteOff, kNoteOn, kController:
		c, a, b := upto(15), data7(), data7()
		s := []byte{kNoteOff: 0x80, kNoteOn: 0x90, kController: 0xb0}[kind]
		e.wire = []byte{s | c, a, b}
		e.nums = []uint64{uint64(c), uint64(a), uint64(b)}
	case kPolyPressure, kProgramChange, kChannelPressure:
		c, a := upto(15), data7()
		s := []byte{kPolyPressure: 0xa0, kProgramChange: 0xc0, kChannelPressure: 0xd0}[kind]
		e.wire = []byte{s | c, a}
		e.nums = []uint64{uint64(c), uint64(a)}
	case kPitchBend:
		c, a, b := upto(15), data7(), data7()
		e.wire = []byte{0xe0 | c, a, b}
		e.nums = []uint64{uint64(c), uint64(a)<<7 | uint64(b)}
	case kSequenceNumber:
		a, b := draw(), draw()
		meta(0x00, a, b)
		e.nums = []uint64{uint64(a)<<8 | uint64(b)}
	case kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName:
		text()
		meta(byte(kind-kText+1), e.data...)
	case kChannelPrefix:
		c := upto(15)
		meta(0x20, c)
		e.nums = []uint64{uint64(c)}
	case kPort:
		p := data7()
		meta(0x21, p)
		e.nums = []uint64{uint64(p)}
	case kTempo:
		a, b, c := draw(), draw(), draw()
		meta(0x51, a, b, c)
		e.nums = []uint64{uint64(a)<<16 | uint64(b)<<8 | uint64(c)}
	case kSMPTEOffset:
		h, m, s, r, f, x := upto(24), upto(59), upto(59), upto(3), draw(), upto(100)
		rate := nd.Ite(r == 0, 24, nd.Ite(r == 1, 25, nd.Ite(r == 2, 29, 30)))
		nd.Assume(int(f) < rate)
		meta(0x54, r<<5|h, m, s, f, x)
		e.nums = []uint64{uint64(h), uint64(m), uint64(s), uint64(rate), uint64(f), uint64(x)}
	case kTimeSignature:
		a, b, c, d := draw(), upto(7), draw(), draw()
		meta(0x58, a, b, c, d)
		e.nums = []uint64{uint64(a), uint64(1) << b, uint64(c), uint64(d)}
	case kKeySignature:
		k := drawInt(-7, 7)
		t := upto(1)
		meta(0x59, byte(k), t)
		e.nums = []uint64{uint64(uint8(k)), uint64(t)}
	case kEndOfTrack:
		meta(0x2f)
	case kEscape:
		text()
		e.wire = append([]byte{0xf7}, refVLQ(uint32(len(e.data)))...)
		e.wire = append(e.wire, e.data...)
	case kSequencerSpecific:
		// the manufacturer: one byte, or 00 and two bytes
		id := []byte{data7()}
		if nd.Choose(2) == 1 {
			id = []byte{0, data7(), data7()}
		} else {
			nd.Assume(id[0] != 0)
		}
		text()
		meta(0x7f, append(append([]byte{}, id...), e.data...)...)
		e.nums = []uint64{uint64(len(id))}
		for _, b := range id {
			e.nums = append(e.nums, uint64(b))
		}
	case kSysEx, kSysExFirst:
		// the manufacturer of a message in one packet: one byte, or 00 and two bytes
		id := []byte{data7()}
		if kind == kSysEx && nd.Choose(2) == 1 {
			id = []byte{0, data7(), data7()}
		} else {
			nd.Assume(id[0] != 0)
		}
		text()
		for _, b := range e.data {
			nd.Assume(b < 0x80)
		}
		body := append(append([]byte{}, id...), e.data...)
		if kind == kSysEx {
			body = append(body, 0xf7)
		}
		e.wire = append([]byte{0xf0}, refVLQ(uint32(len(body)))...)
		e.wire = append(e.wire, body...)
		e.nums = append(append([]uint64{uint64(len(id))}, wide(id)...), b2u(kind == kSysEx))
	case kSysExNext, kSysExLast:
		text()
		for _, b := range e.data {
			nd.Assume(b < 0x80)
		}
		body := append([]byte{}, e.data...)
		if kind == kSysExLast {
			body = append(body, 0xf7)
		}
		e.wire = append([]byte{0xf7}, refVLQ(uint32(len(body)))...)
		e.wire = append(e.wire, body...)
		e.nums = []uint64{b2u(kind == kSysExLast)}
	}
	return e
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// bytes is the event as it stands in a track.
func (e ev) bytes() []byte { return append(refVLQ(e.delta), e.wire...) }

func eot(delta uint32) ev { return genEvent(kEndOfTrack, delta, 0, nil) }

// track is the MTrk chunk of the events.
func track(evs ...ev) []byte {
	var body []byte
	for _, e := range evs {
		body = append(body, e.bytes()...)
	}
	return chunk("MTrk", body)
}

func chunk(tag string, body []byte) []byte {
	n := len(body)
	return append([]byte{tag[0], tag[1], tag[2], tag[3], byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

func header(format, tracks, division uint16) []byte {
	return []byte{'M', 'T', 'h', 'd', 0, 0, 0, 6, byte(format >> 8), byte(format), byte(tracks >> 8), byte(tracks), byte(division >> 8), byte(division)}
}

func cat(p ...[]byte) []byte {
	var b []byte
	for _, s := range p {
		b = append(b, s...)
	}
	return b
}

// file1 is a file with a single track.
func file1(evs ...ev) []byte { return cat(header(0, 1, 480), track(evs...)) }

func decode(b []byte) (*midi.SMF, error) { return midifile.NewDecoder().Decode(bytes.NewReader(b)) }

// mustDecode decodes a well-formed file.
func mustDecode(b []byte) *midi.SMF {
	smf, err := decode(b)
	nd.Assert(err == nil, "a well-formed file is decoded without error")
	nd.Assert(smf != nil, "a well-formed file is decoded to a file")
	return smf
}

func encode(smf *midi.SMF) ([]byte, error) {
	var b bytes.Buffer
	err := midifile.NewEncoder(&b).Encode(*smf)
	return b.Bytes(), err
}

func mustEncode(smf *midi.SMF) []byte {
	b, err := encode(smf)
	nd.Assert(err == nil, "a decoded file is encoded without error")
	return b
}

// sum is what an event says, whatever the representation.
type sum struct {
	tag  string
	nums []uint64
	data []byte
}

func text(s string) []byte { return []byte(s) }

func status(s byte, typ int, n ...uint64) []uint64 { return n }

// summary reads the public fields of a decoded event.
func summary(x events.IEvent) sum {
	s := sum{tag: x.Tag()}
	n := func(v ...uint64) { s.nums = v }
	switch e := x.(type) {
	case midievent.NoteOff:
		n(uint64(e.Channel), uint64(e.Note.Value), uint64(e.Velocity))
	case midievent.NoteOn:
		n(uint64(e.Channel), uint64(e.Note.Value), uint64(e.Velocity))
	case midievent.Controller:
		n(uint64(e.Channel), uint64(e.Controller.ID), uint64(e.Value))
	case midievent.PolyphonicPressure:
		n(uint64(e.Channel), uint64(e.Pressure))
	case midievent.ProgramChange:
		n(uint64(e.Channel), uint64(e.Program))
	case midievent.ChannelPressure:
		n(uint64(e.Channel), uint64(e.Pressure))
	case midievent.PitchBend:
		n(uint64(e.Channel), uint64(e.Bend))
	case metaevent.SequenceNumber:
		n(uint64(e.SequenceNumber))
	case metaevent.Text:
		s.data = text(e.Text)
	case metaevent.Copyright:
		s.data = text(e.Copyright)
	case metaevent.TrackName:
		s.data = text(e.Name)
	case metaevent.InstrumentName:
		s.data = text(e.Name)
	case metaevent.Lyric:
		s.data = text(e.Lyric)
	case metaevent.Marker:
		s.data = text(e.Marker)
	case metaevent.CuePoint:
		s.data = text(e.CuePoint)
	case metaevent.ProgramName:
		s.data = text(e.Name)
	case metaevent.DeviceName:
		s.data = text(e.Name)
	case metaevent.MIDIChannelPrefix:
		n(uint64(e.Channel))
	case metaevent.MIDIPort:
		n(uint64(e.Port))
	case metaevent.Tempo:
		n(uint64(e.Tempo))
	case metaevent.SMPTEOffset:
		n(uint64(e.Hour), uint64(e.Minute), uint64(e.Second), uint64(e.FrameRate), uint64(e.Frames), uint64(e.FractionalFrames))
	case metaevent.TimeSignature:
		n(uint64(e.Numerator), uint64(e.Denominator), uint64(e.TicksPerClick), uint64(e.ThirtySecondsPerQuarter))
	case metaevent.KeySignature:
		n(uint64(uint8(e.Accidentals)), uint64(e.KeyType))
	case metaevent.EndOfTrack:
	case metaevent.SequencerSpecificEvent:
		s.nums = append([]uint64{uint64(len(e.Manufacturer.ID))}, wide(e.Manufacturer.ID)...)
		s.data = e.Data
	case sysex.SysExMessage:
		s.nums = append([]uint64{uint64(len(e.Manufacturer.ID))}, wide(e.Manufacturer.ID)...)
		s.nums = append(s.nums, b2u(e.Single))
		s.data = e.Data
	case sysex.SysExContinuationMessage:
		n(b2u(e.End))
		s.data = e.Data
	case sysex.SysExEscapeMessage:
		s.data = e.Data
	default:
		nd.Fail("an event of an unknown type")
	}
	return s
}

func wide(b []byte) []uint64 {
	var n []uint64
	for _, v := range b {
		n = append(n, uint64(v))
	}
	return n
}

func (e ev) summary() sum { return sum{tags[e.kind], e.nums, e.data} }

func eqNums(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	return ok
}

func (a sum) eq(b sum) bool {
	return nd.And(nd.EqStr(a.tag, b.tag), eqNums(a.nums, b.nums), nd.EqBytes(a.data, b.data))
}

// says: the decoded event is the reference event.
func (e ev) says(x *events.Event) bool {
	return nd.And(e.summary().eq(summary(x.Event)), x.Delta() == e.delta)
}

// trackSays asserts that the decoded track holds exactly the reference events.
func trackSays(t *midi.MTrk, evs []ev, msgCount, msgEvent string) {
	nd.Assert(len(t.Events) == len(evs), msgCount)
	for i, e := range evs {
		nd.Assert(e.says(t.Events[i]), msgEvent)
	}
}

// sameEvent: two decoded events say the same.
func sameEvent(a, b *events.Event) bool {
	return nd.And(summary(a.Event).eq(summary(b.Event)), a.Delta() == b.Delta(), a.Tick() == b.Tick())
}

// sameFile asserts that two decoded files have the same header, tracks and events.
func sameFile(a, b *midi.SMF, msg string) {
	nd.Assert(sameHeader(a.MThd, b.MThd), msg+": the header")
	nd.Assert(len(a.Tracks) == len(b.Tracks), msg+": the number of tracks")
	for i := range a.Tracks {
		s, t := a.Tracks[i], b.Tracks[i]
		nd.Assert(s.TrackNumber == t.TrackNumber, msg+": the track numbers")
		nd.Assert(len(s.Events) == len(t.Events), msg+": the number of events")
		for j := range s.Events {
			nd.Assert(sameEvent(s.Events[j], t.Events[j]), msg+": the events")
		}
	}
}

func sameHeader(a, b *midi.MThd) bool {
	return nd.And(a.Format == b.Format, a.Tracks == b.Tracks, a.Division == b.Division, a.PPQN == b.PPQN,
		a.SMPTETimeCode == b.SMPTETimeCode, a.SubFrames == b.SubFrames, a.FPS == b.FPS, a.DropFrame == b.DropFrame)
}

func observe(t *midi.MTrk) {
	for _, e := range t.Events {
		s := summary(e.Event)
		nd.Observe(s.tag, e.Tick(), e.Delta(), s.nums, s.data)
	}
}

// parts is a reader that hands out its bytes in pieces and then fails with err.
type parts struct {
	p   [][]byte
	err error
}

func (r *parts) Read(b []byte) (int, error) {
	for len(r.p) > 0 && len(r.p[0]) == 0 {
		r.p = r.p[1:]
	}
	if len(r.p) == 0 {
		return 0, r.err
	}
	n := copy(b, r.p[0])
	r.p[0] = r.p[0][n:]
	return n, nil
}

var _ io.Reader = &parts{}

// sameNames: the derived fields that depend on what came before are the same:
// note names, the bank of a program change and the name of a key.
func sameNames(a, b *events.Event) bool {
	return nd.EqStr(derived(a), derived(b))
}

func derived(x *events.Event) string {
	switch e := x.Event.(type) {
	case midievent.NoteOn:
		return e.Note.Name + " " + e.Note.Alias
	case midievent.NoteOff:
		return e.Note.Name + " " + e.Note.Alias
	case midievent.ProgramChange:
		return fmt.Sprintf("%d", e.Bank)
	case midievent.Controller:
		return e.Controller.Name
	case metaevent.KeySignature:
		return e.Key
	}
	return ""
}

// refVLQ is the variable length quantity of the SMF specification.
func refVLQ(v uint32) []byte {
	b := []byte{byte(v & 0x7f)}
	v >>= 7
	for v != 0 {
		b = append([]byte{byte(v&0x7f) | 0x80}, b...)
		v >>= 7
	}
	return b
}

// filler makes printable bytes of which every 100th is arbitrary (below 128).
func filler() func() byte {
	i := -1
	return func() byte {
		i++
		if i%100 == 0 {
			return data7()
		}
		return byte('a' + i%26)
	}
}

// longLength: a length at a boundary of the encodings of lengths.
func longLength() int {
	l := []int{127, 128, 129, 255, 256, 300}
	if nd.Thorough() {
		l = append(l, 16383, 16384)
	}
	return l[nd.Choose(len(l))]
}

// genDivision: any valid division.
func genDivision() uint16 {
	d := nd.U16()
	nd.Assume(nd.Or(d < 0x8000, d>>8 == 0xe8, d>>8 == 0xe7, d>>8 == 0xe3, d>>8 == 0xe2))
	return d
}

// noteName is the name of a note: with note 60 in octave 4 by default and in
// octave 3 with the C4 option.
func noteName(n int, flat, c4 bool) string {
	s := sharps[n%12]
	if flat {
		s = flats[n%12]
	}
	octave := n/12 - 1
	if c4 {
		octave = n/12 - 2
	}
	return fmt.Sprintf("%s%d", s, octave)
}

func signed(v uint64) int { return int(int8(uint8(v))) }

func clamp(n int) int {
	return nd.Ite(n < 0, 0, nd.Ite(n > 127, 127, n))
}

// printable: any character from space to ~ but quotes, backslash and the HTML characters
func printable() byte {
	b := nd.Byte()
	nd.Assume(nd.And(b >= 0x20, b < 0x7f, b != '"', b != '\\', b != '<', b != '>', b != '&'))
	return b
}

func hexOf(b []byte) string {
	s := ""
	for i, v := range b {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%02X", v)
	}
	return s
}

func keyName(accidentals int, minor bool) string {
	if minor {
		return minors[accidentals+7] + " minor"
	}
	return majors[accidentals+7] + " major"
}

func sevenBit() byte { return nd.Byte() & 0x7f }

// yamaha makes Yamaha the manufacturer and fixes the delta times.
func yamaha(evs []ev) []ev {
	if evs[0].nums[0] != 1 {
		nd.Stop()
	}
	evs[0].wire[2] = 0x43
	evs[0].nums[1] = 0x43
	for i := range evs {
		evs[i].delta = uint32(i)
	}
	return evs
}

// message is a SysEx message in packets: a whole one, or a first packet, some continuations and a last one.
func message(packets, n int) []ev {
	if packets == 1 {
		return []ev{genEvent(kSysEx, smallDelta(), n, sevenBit)}
	}
	evs := []ev{genEvent(kSysExFirst, smallDelta(), n, sevenBit)}
	for i := 2; i < packets; i++ {
		evs = append(evs, genEvent(kSysExNext, smallDelta(), n, sevenBit))
	}
	return append(evs, genEvent(kSysExLast, smallDelta(), n, sevenBit))
}

func on(delta uint32, c, n, v byte) ev {
	return ev{kind: kNoteOn, delta: delta, wire: []byte{0x90 | c, n, v}, nums: []uint64{uint64(c), uint64(n), uint64(v)}}
}

func off(delta uint32, c, n, v byte) ev {
	return ev{kind: kNoteOff, delta: delta, wire: []byte{0x80 | c, n, v}, nums: []uint64{uint64(c), uint64(n), uint64(v)}}
}

// word: any character from ! to ~
func word() byte {
	b := nd.Byte()
	nd.Assume(nd.And(b > 0x20, b < 0x7f))
	return b
}

func tempo(delta uint32, t uint32) ev {
	return ev{kind: kTempo, delta: delta, wire: []byte{0xff, 0x51, 3, byte(t >> 16), byte(t >> 8), byte(t)}, nums: []uint64{uint64(t)}}
}

func anyTempo() uint32 { return uint32(nd.Byte())<<16 | uint32(nd.Byte())<<8 | uint32(nd.Byte()) }

func mixedKind() int {
	if nd.Thorough() {
		return nd.Choose(nGeneral)
	}
	return mixed[nd.Choose(len(mixed))]
}

// mod12 is n modulo 12, for any sign.
func mod12(n int) int { return ((n % 12) + 12) % 12 }

// tonic is the pitch class of the tonic of a key signature.
func tonic(accidentals int, minor bool) int {
	if minor {
		return mod12(7*accidentals + 9)
	}
	return mod12(7 * accidentals)
}

func manufacturerOf(id ...uint64) lib.Manufacturer {
	var b []byte
	for _, v := range id {
		b = append(b, byte(v))
	}
	return lib.LookupManufacturer(b)
}

// anySteps: any number of semitones from -2^31 to 2^31-1.
func anySteps() int { return int(int32(nd.U32())) }

var sharps = []string{"C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"}

var flats = []string{"C", "D♭", "D", "E♭", "E", "F", "G♭", "G", "A♭", "A", "B♭", "B"}

var minors = []string{"A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯", "G♯", "D♯", "A♯"}

// the names of the keys with -7 to 7 accidentals
var majors = []string{"C♭", "G♭", "D♭", "A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯"}

// mixed are the kinds of event of the mixes in quick runs.
var mixed = []int{kNoteOff, kNoteOn, kProgramChange, kText, kTempo, kEscape, kKeySignature}

// bigTracks are the tracks of a file that is big in one way, of which some values
// near the end are arbitrary: many tracks, many events, or two long texts.
func bigTracks(shape, tracks, events, length int, last []ev) [][]ev {
	switch shape {
	case 0:
		var t [][]ev
		for i := 0; i < tracks-1; i++ {
			t = append(t, []ev{fixedEvent(i%nGeneral, uint32(i)), eot(0)})
		}
		return append(t, last)
	case 1:
		var evs []ev
		for i := 0; i < events; i++ {
			evs = append(evs, fixedEvent((i*7)%nGeneral, uint32(i%200)))
		}
		return [][]ev{append(evs, last...)}
	default:
		i := 0
		t := genEvent(kText, 0, length, func() byte { i++; return byte('a' + i%26) })
		return [][]ev{append([]ev{t, t}, last...)}
	}
}

// bigFile is the file of the tracks.
func bigFile(tracks [][]ev) []byte {
	b := header(1, uint16(len(tracks)), 480)
	for _, t := range tracks {
		b = append(b, track(t...)...)
	}
	return b
}

// big is the size of a file in a check: more tracks, events and bytes than fit 8
// (and for bytes 16) bits.
func big() [][]ev {
	return bigTracks(nd.Choose(3), 300, 400, 66000, []ev{genEvent(kNoteOn, smallDelta(), 0, nil), genEvent(kText, 0, 1, data7), eot(smallDelta())})
}

// bigText is one for JSON and text.
func bigText() [][]ev {
	p := genEvent(kProgramChange, 0, 0, nil)
	nd.Assume(p.nums[0] == 5)
	return bigTracks(nd.Choose(3), 260, 300, 5000, []ev{p, eot(0)})
}

// longEvents is an event with 8, 16, 17, 33, 40, 128 or 200 bytes of text or data: a text, an escape, a sequencer specific event of a manufacturer,
// or a SysEx message of one in one or in three packets; the last byte is any printable one (letter or digit if plain).
func longEvents(plain bool) []ev {
	n := []int{8, 16, 17, 33, 40, 128, 200}[nd.Choose(7)]
	last := printable
	if plain {
		last = word
	}
	x := last()
	if plain {
		nd.Assume(nd.Or(nd.And(x >= '0', x <= '9'), nd.And(x >= 'a', x <= 'z')))
	}
	make := func(kind int) ev {
		i, j := 0, byte(0x42)
		draw, fixed = func() byte { j++; return j }, true
		e := genEvent(kind, 5, n, func() byte {
			if i++; i == n {
				return x
			}
			return byte('a' + i%26)
		})
		draw, fixed = nd.Byte, false
		return e
	}
	switch k := nd.Choose(13); {
	case k < 9:
		return []ev{make(kText + k)}
	case k == 9:
		return []ev{make(kEscape)}
	case k == 10:
		return []ev{make(kSequencerSpecific)}
	case k == 11:
		return []ev{make(kSysEx)}
	}
	return []ev{make(kSysExFirst), make(kSysExNext), make(kSysExLast)}
}

// manyTracks is a file of format 1 with 11, 100, 256, 257 or 300 tracks, the last with a note of any velocity.
func manyTracks() []byte {
	n := []int{11, 100, 256, 257, 300}[nd.Choose(5)]
	b := header(1, uint16(n), 480)
	for i := 1; i < n; i++ {
		b = append(b, track(eot(uint32(i)))...)
	}
	return append(b, track(on(3, 1, 60, data7()), eot(0))...)
}

// longTrack is 600 events: notes that start and end one after the other, with texts among them, the last note of any velocity above 0.
func longTrack() []ev {
	var evs []ev
	for i := 0; i < 199; i++ {
		evs = append(evs, on(uint32(1+i), byte(i%16), byte(20+i%80), byte(1+i%127)), fixedEvent(kMarker, 2), off(uint32(3+i%5), byte(i%16), byte(20+i%80), 0))
	}
	v := data7()
	nd.Assume(v != 0)
	return append(evs, on(3, 1, 60, v), off(100, 1, 60, 0), eot(7))
}
