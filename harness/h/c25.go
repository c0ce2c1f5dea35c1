package h

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/disassemble"
)

func disassembly(smf *midi.SMF) string {
	x, err := disassemble.NewDisassemble()
	nd.Assert(err == nil, "a disassembler is made")
	w := &nd.Sink{}
	err = x.Print(smf, "document", w)
	nd.Assert(err == nil, "a decoded file is disassembled")
	return w.S
}

// column fits a string of one byte characters into a column.
func column(s string, max, width int) string {
	if len(s) > max {
		return s[:max-1] + "…" + strings.Repeat(" ", width-max)
	}
	return s + strings.Repeat(" ", width-len(s))
}

func left(width int, v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) < width {
		s += strings.Repeat(" ", width-len(s))
	}
	return s
}

// values is how a disassembly shows the values of an event.
func (e ev) values() string {
	n := e.nums
	channel := func() string { return "channel:" + left(2, n[0]) + " " }
	switch e.kind {
	case kNoteOn, kNoteOff:
		return channel() + "note:" + noteName(int(n[1]), false, false) + fmt.Sprintf(", velocity:%d", n[2])
	case kPolyPressure, kChannelPressure:
		return channel() + fmt.Sprintf("pressure:%d", n[1])
	case kController:
		return channel() + fmt.Sprintf("%d/%s, value:%d", n[1], lib.LookupController(byte(n[1])).Name, n[2])
	case kProgramChange:
		return channel() + fmt.Sprintf("bank:0, program:%d", n[1])
	case kPitchBend:
		return channel() + fmt.Sprintf("bend:%d", n[1])
	case kSequenceNumber, kChannelPrefix, kPort:
		return fmt.Sprintf("%d", n[0])
	case kTempo:
		return fmt.Sprintf("tempo:%d", n[0])
	case kSMPTEOffset:
		return fmt.Sprintf("%d %d %d %d %d %d", n[0], n[1], n[2], n[3], n[4], n[5])
	case kTimeSignature:
		return fmt.Sprintf("%d/%d, %d ticks per click, %d/32 per quarter", n[0], n[1], n[2], n[3])
	case kKeySignature:
		return keyName(nd.Pick(signed(n[0])), n[1] == 1)
	case kEscape, kSysExNext, kSysExLast:
		return hexOf(e.data)
	case kSysEx, kSysExFirst:
		return manufacturerOf(n[1:len(n)-1]...).Name + ", " + hexOf(e.data)
	case kSequencerSpecific:
		var id []byte
		for _, v := range n[1:] {
			id = append(id, byte(v))
		}
		return lib.LookupManufacturer(id).Name + ", " + hexOf(e.data)
	}
	return string(e.data)
}

// shows is the line of an event, of which the wire bytes may be without a status byte.
func (e ev) shows(tick uint64, status byte, wire []byte) string {
	d := refVLQ(e.delta)
	indent := ""
	if len(d) < 3 {
		indent = strings.Repeat("   ", 3-len(d))
	}
	s := column(indent+hexOf(append(append([]byte{}, d...), wire...)), 42, 42)
	s += "  tick:" + left(9, tick) + "  delta:" + left(9, e.delta) + "  "
	if status == 0xff {
		s += hexOf(e.wire[1:2])
	} else {
		s += hexOf([]byte{status})
	}
	if e.kind == kEndOfTrack {
		return s + " EndOfTrack\n"
	}
	return s + " " + left(22, tags[e.kind]) + " " + e.values() + "\n"
}

func trackLine(i int, body []byte) string {
	return "\n" + column(hexOf(chunk("MTrk", body)[:8])+" "+hexOf(body), 24, 42) + fmt.Sprintf("  MTrk %-2d length:%d\n", i, len(body))
}

func headerLine(format, tracks, division uint16) string {
	return column(hexOf(header(format, tracks, division)), 42, 42) + fmt.Sprintf("  MThd length:6, format:%d, tracks:%d, metrical time:%d ppqn\n", format, tracks, division)
}

// shown asserts that the disassembly of a file with one track has the lines of the events.
func shown(evs ...ev) {
	want := headerLine(0, 1, 480)
	var body []byte
	for _, e := range evs {
		body = append(body, e.bytes()...)
	}
	want += trackLine(0, body)
	tick := uint64(0)
	for _, e := range evs {
		tick += uint64(e.delta)
		want += e.shows(tick, e.wire[0], e.wire)
	}
	nd.Assert(nd.EqStr(disassembly(mustDecode(file1(evs...))), want), "a disassembly shows each event with its bytes, tick, delta, tag and values")
	nd.Reach("end")
}

// C25_Event: one event of each general kind with arbitrary values, texts and escapes of 2 arbitrary bytes.
func C25_Event() {
	shown(genEvent(nd.Choose(nGeneral), 0, 2, nd.Byte), eot(0))
}

// C25_Delta: any delta time below 2^14 (thorough: 2^28), and some greater ones, of a NoteOn.
func C25_Delta() {
	var d uint32
	switch nd.Choose(2) {
	case 0:
		d = nd.U32() & 0x3fff
		if nd.Thorough() {
			d = genDelta()
		}
	case 1:
		d = []uint32{16384, 99999, 100000, 2097151, 2097152, 99999999, 100000000, 1<<28 - 1}[nd.Choose(8)]
	}
	shown(on(d, 1, 60, 64), eot(0))
}

// C25_Ticks: three NoteOn events with fixed delta times: ticks add up.
func C25_Ticks() {
	d := []uint32{0, 1, 127, 128, 100000000}
	shown(on(d[nd.Choose(5)], 1, 60, 64), on(d[nd.Choose(5)], 1, 61, 64), on(d[nd.Choose(5)], 1, 62, 64), eot(9))
}

// C25_Late: 9, 17 or 33 events with the largest delta time, the last of an arbitrary velocity: ticks above 2^31, 2^32 and 2^33.
func C25_Late() {
	var evs []ev
	n := []int{9, 17, 33}[nd.Choose(3)]
	for i := 1; i < n; i++ {
		evs = append(evs, on(1<<28-1, 1, byte(i), 64))
	}
	shown(append(evs, on(1<<28-1, 1, 100, data7()), eot(5))...)
}

// C25_Longer: a text, an escape, a sequencer specific event or a SysEx message in one or three packets, of 8 to 200 bytes, the last of which is any printable one.
func C25_Longer() { shown(append(longEvents(false), eot(0))...) }

// C25_Manufacturer: SysEx messages in one and in two packets and sequencer specific events of any manufacturer, 1 arbitrary data byte.
func C25_Manufacturer() {
	switch nd.Choose(3) {
	case 0:
		shown(genEvent(kSysEx, 0, 1, sevenBit), eot(0))
	case 1:
		shown(append(yamaha(message(2, 1)), eot(0))...)
	case 2:
		shown(genEvent(kSequencerSpecific, 0, 1, nd.Byte), eot(0))
	}
}

// C25_Pair: two events of any general kinds with fixed values.
func C25_Pair() {
	a, b := fixedEvent(nd.Choose(nGeneral), 3), fixedEvent(nd.Choose(nGeneral), 200)
	if a.kind == kKeySignature || a.kind == kController {
		nd.Stop()
	}
	shown(a, b, eot(7))
}

// C25_Long: texts and escapes of 0 to 20 bytes, the first or last of which is arbitrary: long ones are shortened in the bytes only.
func C25_Long() {
	kind := []int{kText, kEscape, kLyric}[nd.Choose(3)]
	n := nd.Choose(21)
	at := 0
	if nd.Choose(2) == 1 {
		at = n - 1
	}
	i := 0
	shown(genEvent(kind, []uint32{0, 200, 40000}[nd.Choose(3)], n, func() byte {
		i++
		if i-1 == at {
			return nd.Byte()
		}
		return 'a' + byte(i)
	}), eot(0))
}

// C25_Running: a NoteOn with arbitrary values and one with running status: the bytes shown are those of the file.
func C25_Running() {
	a := genEvent(kNoteOn, 0, 0, nil)
	n := data7()
	b := ev{kind: kNoteOn, delta: 5, wire: []byte{n, 9}, nums: []uint64{a.nums[0], uint64(n), 9}}
	body := cat(a.bytes(), b.bytes(), eot(0).bytes())
	got := disassembly(mustDecode(cat(header(0, 1, 480), chunk("MTrk", body))))
	want := headerLine(0, 1, 480) + trackLine(0, body) + a.shows(0, a.wire[0], a.wire) + b.shows(5, a.wire[0], b.wire) + eot(0).shows(5, 0xff, eot(0).wire)
	nd.Assert(nd.EqStr(got, want), "a disassembly shows events with running status")
	nd.Reach("end")
}

// C25_Tracks: one to three tracks with a SequenceNumber with an arbitrary low byte each, format 1, an arbitrary metrical division.
func C25_Tracks() {
	n := 1 + nd.Choose(3)
	ppqn := nd.U16() & 0x7fff
	nd.Assume(ppqn != 0)
	b, want := header(1, uint16(n), ppqn), headerLine(1, uint16(n), ppqn)
	for i := 0; i < n; i++ {
		v := byte(i)
		if i == n-1 {
			v = nd.Byte()
		}
		e := ev{kind: kSequenceNumber, wire: []byte{0xff, 0, 2, byte(i), v}, nums: []uint64{uint64(i)<<8 | uint64(v)}}
		body := cat(e.bytes(), eot(0).bytes())
		b = append(b, chunk("MTrk", body)...)
		want += trackLine(i, body) + e.shows(0, 0xff, e.wire) + eot(0).shows(0, 0xff, eot(0).wire)
	}
	nd.Assert(nd.EqStr(disassembly(mustDecode(b)), want), "a disassembly shows the header and each track")
	nd.Reach("end")
}

// C25_Keys: the name of any note after a key signature with flats is shown with flats.
func C25_Keys() {
	n := data7()
	smf := mustDecode(file1(ev{wire: []byte{0xff, 0x59, 2, 0xfd, 0}}, on(0, 0, n, 1), eot(0)))
	var b bytes.Buffer
	x, _ := disassemble.NewDisassemble()
	nd.Assert(x.Print(smf, "document", &b) == nil, "a decoded file is disassembled")
	want := "note:" + noteName(int(n), true, false) + ", velocity:1\n"
	nd.Assert(strings.Contains(b.String(), want), "a disassembly names notes by the key signature")
	nd.Reach("end")
}

// C25_Header: the header of files with a SMPTE division.
func C25_Header() {
	rate, fps := []byte{0xe8, 0xe7, 0xe3, 0xe2}, []int{24, 25, 29, 30}
	i, sub := nd.Choose(4), nd.Byte()
	division := uint16(rate[i])<<8 | uint16(sub)
	got := disassembly(mustDecode(cat(header(0, 1, division), track(eot(0)))))
	a := column(hexOf(header(0, 1, division)), 42, 42)
	want := a + fmt.Sprintf("  MThd length:6, format:0, tracks:1, SMPTE:%d fps,%d sub-frames\n", fps[i], sub) + trackLine(0, eot(0).bytes()) + eot(0).shows(0, 0xff, eot(0).wire)
	nd.Assert(nd.EqStr(got, want), "a disassembly shows a SMPTE division")
	nd.Reach("end")
}

// C25_Big: files of 300 tracks and of a track of 400 events, fixed but for an arbitrary program in the last event.
//
// @steps 100000000
func C25_Big() {
	p := genEvent(kProgramChange, 0, 0, nil)
	nd.Assume(p.nums[0] == 5)
	all := bigTracks(nd.Choose(2), 300, 400, 0, []ev{p, eot(0)})
	want := headerLine(1, uint16(len(all)), 480)
	for i := range all {
		for j, e := range all[i] {
			if e.kind == kKeySignature || e.kind == kController { // they change the names and banks of later events
				all[i][j] = fixedEvent(kMarker, e.delta)
			}
		}
		want += trackLine(i, track(all[i]...)[8:])
		tick := uint64(0)
		for _, e := range all[i] {
			tick += uint64(e.delta)
			want += e.shows(tick, e.wire[0], e.wire)
		}
	}
	nd.Assert(nd.EqStr(disassembly(mustDecode(bigFile(all))), want), "a disassembly shows each event with its bytes, tick, delta, tag and values")
	nd.Reach("end")
}

// C25_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C25_Track() { shown(longTrack()...) }
