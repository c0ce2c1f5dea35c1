package h

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/assemble"
)

// field is a numeric field of an event in JSON: its name and which of the values it is (-1: the delta time, -2: a data byte).
type field struct {
	name string
	at   int
}

var jsonFields = map[int][]field{
	kNoteOff:         {{"channel", 0}, {"note", 1}, {"velocity", 2}},
	kNoteOn:          {{"channel", 0}, {"note", 1}, {"velocity", 2}},
	kPolyPressure:    {{"channel", 0}, {"pressure", 1}},
	kController:      {{"channel", 0}, {"controller", 1}, {"value", 2}},
	kProgramChange:   {{"channel", 0}, {"program", 1}},
	kChannelPressure: {{"channel", 0}, {"pressure", 1}},
	kPitchBend:       {{"channel", 0}, {"bend", 1}},
	kSequenceNumber:  {{"sequence-number", 0}},
	kChannelPrefix:   {{"channel", 0}},
	kPort:            {{"port", 0}},
	kTempo:           {{"tempo", 0}},
	kSMPTEOffset:     {{"hour", 0}, {"minute", 1}, {"second", 2}, {"frame-rate", 3}, {"frames", 4}, {"fractional-frames", 5}},
	kTimeSignature:   {{"numerator", 0}, {"denominator", 1}, {"ticks-per-click", 2}, {"thirty-seconds-per-quarter", 3}},
	kKeySignature:    {{"accidentals", 0}, {"key-type", 1}},
	kEscape:          {{"data", -2}},
}

// base is a valid event of each kind.
func base(kind int) ev {
	e := ev{kind: kind}
	switch kind {
	case kNoteOff, kNoteOn, kController:
		e.nums = []uint64{1, 60, 64}
	case kPolyPressure, kProgramChange, kChannelPressure:
		e.nums = []uint64{1, 5}
	case kPitchBend:
		e.nums = []uint64{1, 8000}
	case kSequenceNumber, kChannelPrefix, kPort, kTempo:
		e.nums = []uint64{3}
	case kSMPTEOffset:
		e.nums = []uint64{1, 2, 3, 25, 5, 6}
	case kTimeSignature:
		e.nums = []uint64{3, 4, 24, 8}
	case kKeySignature:
		e.nums = []uint64{2, 1}
	default:
		e.data = []byte("x")
	}
	return e
}

// numbers: a decimal number, and its value if it is one a field may have at all.
func number() (string, int) {
	if nd.Choose(2) == 0 {
		n := nd.Int(-1000, 70000)
		return fmt.Sprint(n), n
	}
	n := []int{1<<24 - 1, 1 << 24, 1<<28 - 1, 1 << 28, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, -1 << 31}[nd.Choose(10)]
	return fmt.Sprint(n), n
}

const jsonHead = `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[`
const jsonEOT = `{"event":{"tag":"EndOfTrack","delta":0}}]}]}`

// object is the JSON of an event; change replaces the value of a field ("" leaves the field out).
func object(e ev, change string, value string) string {
	s := []string{`"tag":"` + tags[e.kind] + `"`}
	put := func(name, v string) {
		if name == change {
			if value == "" {
				return
			}
			v = value
		}
		s = append(s, `"`+name+`":`+v)
	}
	put("delta", fmt.Sprint(e.delta))
	for _, f := range jsonFields[e.kind] {
		v := ""
		if f.at >= 0 {
			v = fmt.Sprint(e.nums[f.at])
		}
		switch {
		case f.at == -2:
			v = "[1]"
			if f.name == change && value != "" {
				s = append(s, `"data":[1,`+value+`]`)
				continue
			}
		case f.name == "note" && f.name == change && value != "":
			s = append(s, `"note":{"value":`+value+`}`)
			continue
		case f.name == "note":
			v = `{"value":` + v + `}`
		case f.name == "controller" && f.name == change && value != "":
			s = append(s, `"controller":{"id":`+value+`}`)
			continue
		case f.name == "controller":
			v = `{"id":` + v + `}`
		}
		put(f.name, v)
	}
	if isText(e.kind) {
		put(textField(e.kind), `"x"`)
	}
	return `{"event":{` + strings.Join(s, ",") + `}}`
}

func textField(kind int) string {
	switch kind {
	case kText:
		return "text"
	case kCopyright:
		return "copyright"
	case kLyric:
		return "lyric"
	case kMarker:
		return "marker"
	case kCuePoint:
		return "cuepoint"
	}
	return "name"
}

// assembles gives the file that a source is assembled to, nil if it is rejected: the decoder has to accept it.
func assembles(a assemble.Assembler, src string) *midi.SMF {
	b, err := a.Assemble(strings.NewReader(src))
	if err != nil {
		nd.Assert(len(b) == 0, "a rejected source gives no file")
		nd.Reach("rejected")
		return nil
	}
	smf, err := midifileDecode(b)
	nd.Assert(err == nil, "the decoder accepts every assembled file")
	nd.Reach("assembled")
	return smf
}

func midifileDecode(b []byte) (*midi.SMF, error) { return decode(append([]byte{}, b...)) }

// limit is the largest number that a field of a channel message can have: its channel is of 4 bits, its data bytes are of 7.
func limit(kind, at int) int {
	switch kind {
	case kNoteOff, kNoteOn, kPolyPressure, kController, kProgramChange, kChannelPressure, kPitchBend:
		switch {
		case at == 0:
			return 15
		case kind == kPitchBend:
			return 16383
		}
		return 127
	}
	return 1 << 62
}

// holds asserts that the first event of an assembled file has the value n for the field.
func holds(smf *midi.SMF, e ev, f field, n int) {
	if smf == nil {
		return
	}
	nd.Assert(len(smf.Tracks) == 1, "an assembled file has its tracks")
	nd.Assert(len(smf.Tracks[0].Events) == 2, "an assembled track has its events")
	x := smf.Tracks[0].Events[0]
	s := summary(x.Event)
	nd.Assert(nd.EqStr(s.tag, tags[e.kind]), "an assembled event is of its kind")
	switch {
	case f.at == -1:
		nd.Assert(int(x.Delta()) == n, "a field value is never replaced by another")
	case f.at == -2:
		nd.Assert(nd.And(len(s.data) == 2, int(s.data[1]) == n), "a data byte is never replaced by another")
	case e.kind == kKeySignature && f.at == 0:
		nd.Assert(signed(s.nums[0]) == n, "a field value is never replaced by another")
	default:
		nd.Assert(int(s.nums[f.at]) == n, "a field value is never replaced by another")
	}
	nd.Assert(f.at < 0 || n <= limit(e.kind, f.at), "a field value fits the MIDI encoding")
	// and the others are as given
	r := e.summary()
	for i := range r.nums {
		if i != f.at {
			nd.Assert(s.nums[i] == r.nums[i], "the other fields are as given")
		}
	}
}

func numericKind() int {
	return []int{kNoteOff, kNoteOn, kPolyPressure, kController, kProgramChange, kChannelPressure, kPitchBend, kSequenceNumber, kChannelPrefix, kPort, kTempo, kSMPTEOffset, kTimeSignature, kKeySignature, kEscape}[nd.Choose(15)]
}

func js() assemble.Assembler  { return assemble.NewJSONAssembler() }
func txt() assemble.Assembler { return assemble.NewTextAssembler() }

// C15_JSONNumber: any number from -1000 to 70000, and the limits of 24, 28, 32 and 64 bits, as the value of any field of any event with numbers.
func C15_JSONNumber() {
	e := base(numericKind())
	fs := append([]field{{"delta", -1}}, jsonFields[e.kind]...)
	f := fs[nd.Choose(len(fs))]
	s, n := number()
	holds(assembles(js(), jsonHead+object(e, f.name, s)+","+jsonEOT), e, f, n)
}

// C15_JSONInvalid: every field of every event missing or with a value of another type: null, a string, true, a fraction, an array or an object.
func C15_JSONInvalid() {
	e := base(nd.Choose(nGeneral))
	fs := append([]field{{"delta", -1}, {"tag", 0}}, jsonFields[e.kind]...)
	if isText(e.kind) {
		fs = append(fs, field{textField(e.kind), 0})
	}
	f := fs[nd.Choose(len(fs))].name
	v := []string{"", "null", `"7"`, "true", "1.5", "[]", "[1]", "{}", `{"value":null}`, `{"id":"x"}`, `[-1]`, `["x"]`}[nd.Choose(12)]
	src := object(e, f, v)
	if f == "tag" {
		src = strings.Replace(src, `"tag":"`+tags[e.kind]+`",`, "", 1)
		if v != "" {
			src = strings.Replace(src, `{"event":{`, `{"event":{"tag":`+v+",", 1)
		}
	}
	assembles(js(), jsonHead+src+","+jsonEOT)
}

// C15_JSONShape: sources with missing or invalid parts other than fields.
func C15_JSONShape() {
	srcs := []string{
		``, ` `, `null`, `{}`, `[]`, `0`, `"x"`, `{"header":`, `{"header":null}`, `{"header":{}}`, `{"header":[]}`, `{"tracks":[]}`,
		`{"header":{"tag":"MThd"}}`, `{"header":{"tag":"MThd","format":0}}`, `{"header":{"tag":"MThd","format":null,"PPQN":1}}`,
		`{"header":{"tag":"MTrk","format":0,"PPQN":480}}`, `{"header":{"tag":"MThd","format":0,"PPQN":480}}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":null}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[null]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk"}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[]}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":{}}`,
		jsonHead + `null]}]}`, jsonHead + `{}]}]}`, jsonHead + `{"event":null}]}]}`, jsonHead + `{"event":{}}]}]}`, jsonHead + `{"event":{"tag":"NoSuchEvent"}}]}]}`, jsonHead + `{"event":[]}]}]}`, jsonHead + `7]}]}`,
		jsonHead + jsonEOT, jsonHead + `{"event":{"tag":"EndOfTrack","delta":0}},` + jsonEOT, jsonHead + object(base(kNoteOn), "", "") + `]}]}`,
		jsonHead + `{"event":{"tag":"EndOfTrack","delta":0}},` + object(base(kNoteOn), "", "") + `]}]}`, jsonHead + object(base(kNoteOn), "", ""),
	}
	assembles(js(), srcs[nd.Choose(len(srcs))])
}

// C15_JSONHeader: any format and division from -100 to 70000.
func C15_JSONHeader() {
	format, ppqn := 0, 480
	if nd.Choose(2) == 0 {
		format = nd.Int(-100, 70000)
	} else {
		ppqn = nd.Int(-100, 70000)
	}
	smf := assembles(js(), fmt.Sprintf(`{"header":{"tag":"MThd","format":%d,"PPQN":%d},"tracks":[{"tag":"MTrk","events":[`, format, ppqn)+jsonEOT)
	if smf != nil {
		nd.Assert(int(smf.MThd.Format) == format, "the format is never replaced by another")
		nd.Assert(int(smf.MThd.Division) == ppqn, "the division is never replaced by another")
	}
}

// C15_JSONManufacturer: SysEx messages and sequencer specific events with manufacturer IDs of 0 to 4 numbers from -10 to 300 (the first arbitrary), and 0 to 2 data bytes, the last one from -10 to 300.
func C15_JSONManufacturer() {
	kind := []int{kSysEx, kSequencerSpecific}[nd.Choose(2)]
	id, data := []string{}, []string{}
	a, b := 67, 1
	k, n := nd.Choose(5), nd.Choose(3)
	if nd.Choose(2) == 0 {
		a = nd.Int(-10, 300)
	} else {
		b = nd.Int(-10, 300)
	}
	for i := 0; i < k; i++ {
		v := 0
		if i == 0 {
			v = a
		}
		id = append(id, fmt.Sprint(v))
	}
	for i := 0; i < n; i++ {
		v := 1
		if i == n-1 {
			v = b
		}
		data = append(data, fmt.Sprint(v))
	}
	src := fmt.Sprintf(`{"event":{"tag":"%s","delta":0,"manufacturer":{"id":[%s]},"data":[%s],"single":true}},`, tags[kind], strings.Join(id, ","), strings.Join(data, ","))
	smf := assembles(js(), jsonHead+src+jsonEOT)
	if smf == nil {
		return
	}
	s := summary(smf.Tracks[0].Events[0].Event)
	nd.Assert(nd.EqStr(s.tag, tags[kind]), "an assembled event is of its kind")
	// the ID and the data, one after the other (00 and two data bytes are an ID of 3 bytes)
	got := append(append([]uint64{}, s.nums[1:1+s.nums[0]]...), wide(s.data)...)
	want := append(make([]uint64, k), wide(make([]byte, n))...)
	for i := range want {
		switch {
		case i == 0 && k > 0:
			want[i] = uint64(a)
		case i == k+n-1 && n > 0:
			want[i] = uint64(b)
		case i >= k:
			want[i] = 1
		}
	}
	nd.Assert(eqNums(got, want), "a manufacturer or data byte is never replaced by another")
	nd.Assert(nd.Or(k == 1, nd.And(k == 3, a == 0)), "a manufacturer ID is one byte, or 00 and two bytes")
	nd.Assert(a <= 0x7f, "a manufacturer ID is of 7-bit bytes")
}

// C15_JSONBytes: sources of up to 3 arbitrary bytes.
func C15_JSONBytes() {
	assembles(js(), string(symBytes(nd.Choose(4))))
}

const textHead = "4D 54 68 64 00 00 00 06 00 00 00 01 01 E0   MThd length:6, format:0, tracks:1, metrical time:480 ppqn\n\n4D 54 72 6B 00 00 00 6C…                    MTrk 0  length:108\n"
const textEOT = "      00 FF 2F 00                           tick:0          delta:0          2F EndOfTrack\n"

// line is the text of an event; the value at a place is replaced by another.
func (e ev) line(at int, value string) string {
	v := func(i int) string {
		if i == at {
			return value
		}
		return fmt.Sprint(e.nums[i])
	}
	delta := fmt.Sprint(e.delta)
	if at == -1 {
		delta = value
	}
	s := ""
	channel := func() string { return "channel:" + v(0) + "  " }
	switch e.kind {
	case kNoteOn, kNoteOff:
		s = channel() + "note:C4, velocity:" + v(2)
	case kPolyPressure, kChannelPressure:
		s = channel() + "pressure:" + v(1)
	case kController:
		s = channel() + v(1) + "/some controller, value:" + v(2)
	case kProgramChange:
		s = channel() + "bank:0, program:" + v(1)
	case kPitchBend:
		s = channel() + "bend:" + v(1)
	case kSequenceNumber, kChannelPrefix, kPort:
		s = v(0)
	case kTempo:
		s = "tempo:" + v(0)
	case kSMPTEOffset:
		s = v(0) + " " + v(1) + " " + v(2) + " " + v(3) + " " + v(4) + " " + v(5)
	case kTimeSignature:
		s = v(0) + "/" + v(1) + ", " + v(2) + " ticks per click, " + v(3) + "/32 per quarter"
	case kKeySignature:
		s = "B minor"
	default:
		s = "01"
	}
	return "   00 00   tick:0          delta:" + delta + "          00 " + tags[e.kind] + "  " + s + "\n"
}

// C15_TextNumber: any number from -1000 to 70000, and the limits of 24, 28, 32 and 64 bits, as any number of any event.
func C15_TextNumber() {
	e := base(numericKind())
	var places []int
	for _, f := range append([]field{{"delta", -1}}, jsonFields[e.kind]...) {
		if f.at != -2 && e.kind != kKeySignature && !((e.kind == kNoteOn || e.kind == kNoteOff) && f.at == 1) || f.at == -1 {
			places = append(places, f.at)
		}
	}
	at := places[nd.Choose(len(places))]
	s, n := number()
	smf := assembles(txt(), textHead+e.line(at, s)+textEOT)
	holds(smf, e, field{"", at}, n)
}

// C15_TextMissing: lines of events cut off at any point.
func C15_TextMissing() {
	e := base(nd.Choose(nGeneral))
	s := e.line(-3, "")
	s = s[:len(s)-1]
	cut := strings.Index(s, "delta")
	n := nd.Choose(len(s) - cut)
	assembles(txt(), textHead+s[:cut+n]+"\n"+textEOT)
}

// C15_TextWithout: lines of events with one arbitrary byte of the first or last ones of the values replaced by any other.
func C15_TextWithout() {
	e := base(nd.Choose(nGeneral))
	s := []byte(e.line(-3, ""))
	cut := bytes.Index(s, []byte(tags[e.kind])) + len(tags[e.kind])
	n := len(s) - cut - 1
	at := cut + nd.Choose(n)
	c := nd.Byte()
	nd.Assume(nd.And(c != '\n', c != '\r', c < 0x80))
	s[at] = c
	assembles(txt(), textHead+string(s)+textEOT)
}

// C15_TextShape: sources with missing, repeated or invalid parts other than values.
func C15_TextShape() {
	note := base(kNoteOn).line(-3, "")
	head := strings.SplitAfter(textHead, "\n")
	srcs := []string{
		``, "\n", "\n\n\n", "x", head[0], head[0] + head[0], head[2], head[2] + textEOT, head[0] + textEOT, head[0] + note,
		textHead, textHead + note, textHead + textEOT, textHead + textEOT + note, textHead + textEOT + textEOT, textHead + "x\n" + textEOT, textHead + "%% x\n" + textEOT, textHead + "   \n" + textEOT,
		textHead + note + head[0] + textEOT, textHead + textEOT + head[2] + textEOT, textHead + textEOT + head[2] + note,
		"MThd\n", "MThd format:0\n", "MThd format:7, metrical time:480 ppqn\n", "MThd format:0, metrical time: ppqn\n", "MThd format:0, metrical time:-4 ppqn\nMTrk\n" + textEOT, "MThd format:1, metrical time:99999 ppqn\nMTrk\n" + textEOT,
		"MThd format:0, metrical time:480 ppqn\nMTrk\n" + textEOT, "MThd MTrk format:0, metrical time:480 ppqn\n" + textEOT, "MTrk\n" + textEOT + head[0], strings.TrimSuffix(textHead+textEOT, "\n"),
	}
	assembles(txt(), srcs[nd.Choose(len(srcs))])
}

// C15_TextHeader: any format from -9 to 99 and division from -100 to 70000.
func C15_TextHeader() {
	format, ppqn := 0, 480
	if nd.Choose(2) == 0 {
		format = nd.Int(-9, 99)
		nd.Assume(nd.Or(format < 0, format >= 3, format == 1, format == 2, format == 0))
	} else {
		ppqn = nd.Int(-100, 70000)
	}
	smf := assembles(txt(), fmt.Sprintf("MThd length:6, format:%d, tracks:1, metrical time:%d ppqn\nMTrk 0 length:4\n", format, ppqn)+textEOT)
	if smf != nil {
		nd.Assert(int(smf.MThd.Format) == format, "the format is never replaced by another")
		nd.Assert(int(smf.MThd.Division) == ppqn, "the division is never replaced by another")
	}
}

// C15_TextBytes: sources of up to 3 arbitrary bytes, and up to 2 arbitrary bytes as the line of an event.
func C15_TextBytes() {
	if nd.Choose(2) == 0 {
		assembles(txt(), string(symBytes(nd.Choose(4))))
	} else {
		assembles(txt(), textHead+string(symBytes(nd.Choose(3)))+"\n"+textEOT)
	}
}

// C15_TextHex: escapes and the data of SysEx messages with two arbitrary characters in place of a byte.
func C15_TextHex() {
	a, b := nd.Byte(), nd.Byte()
	nd.Assume(nd.And(a < 0x80, b < 0x80, a != '\n', b != '\n', a != '\r', b != '\r'))
	d := string([]byte{a, b})
	s := []string{"SysExEscape  " + d, "SysExMessage Yamaha, " + d, "SequencerSpecificEvent Yamaha, " + d}[nd.Choose(3)]
	assembles(txt(), textHead+"tick:0 delta:0 F7 "+s+"\n"+textEOT)
}
