package h

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/disassemble"
)

// layout disassembles a file after the templates were loaded.
func layout(smf *midi.SMF, templates ...string) string {
	x, err := disassemble.NewDisassemble()
	nd.Assert(err == nil, "a disassembler is made")
	for _, t := range templates {
		nd.Assert(x.LoadTemplates(bytes.NewReader([]byte(t))) == nil, "templates are loaded")
	}
	w := &nd.Sink{}
	nd.Assert(x.Print(smf, "document", w) == nil, "a decoded file is disassembled")
	return w.S
}

// linesOf are the lines up to the event that starts with its tick.
func linesOf(s string) []string { return strings.Split(s, "\n") }

// C32_Event: a template for NoteOn events, loaded before a file with two NoteOns, one with arbitrary channel and note and one with arbitrary velocity, and another event of any general kind with fixed values between them: the NoteOns are shown as it says and everything else as without it.
func C32_Event() {
	a, b := on(0, upto(15), data7(), 5), on(3, 1, 61, data7())
	o := fixedEvent(nd.Choose(nGeneral), 2)
	nd.Assume(o.kind != kNoteOn)
	smf := mustDecode(file1(a, o, b, eot(0)))
	was := linesOf(layout(smf))
	is := linesOf(layout(smf, `{"templates": {"noteon": "<{{.Channel}}|{{.Note.Value}}|{{.Velocity}}>"}}`))
	nd.Assert(len(is) == len(was), "a template for an event keeps the number of lines")
	n := 0
	for i := range was {
		var e ev
		switch {
		case strings.Contains(was[i], "NoteOn ") && n == 0:
			e = a
		case strings.Contains(was[i], "NoteOn "):
			e = b
		default:
			nd.Assert(nd.EqStr(was[i], is[i]), "a template for an event changes the lines of other events")
			continue
		}
		n++
		at := strings.Index(was[i], "delta:") + len("delta:") + 11
		want := was[i][:at] + fmt.Sprintf("<%d|%d|%d>", e.nums[0], e.nums[1], e.nums[2])
		nd.Assert(nd.EqStr(is[i], want), "an event is shown as its template says")
	}
	nd.Assert(n == 2, "every event of the kind is shown")
	nd.Reach("end")
}

// C32_Kinds: a template for the events of each kind that has a template of its own, one event of that kind (fixed values) and a NoteOff.
func C32_Kinds() {
	names := map[int]string{
		kSequenceNumber: "sequenceno", kText: "text", kCopyright: "copyright", kTrackName: "trackname", kInstrumentName: "instrumentname", kLyric: "lyric",
		kMarker: "marker", kCuePoint: "cuepoint", kProgramName: "programname", kDeviceName: "devicename", kChannelPrefix: "midichannelprefix", kPort: "midiport",
		kEndOfTrack: "endoftrack", kTempo: "tempo", kSMPTEOffset: "smpteoffset", kTimeSignature: "timesignature", kKeySignature: "keysignature",
		kNoteOff: "noteoff", kNoteOn: "noteon", kPolyPressure: "polyphonicpressure", kController: "controller", kProgramChange: "programchange",
		kChannelPressure: "channelpressure", kPitchBend: "pitchbend", kEscape: "sysexescape",
	}
	kind := nd.Choose(nGeneral + 1)
	evs := []ev{fixedEvent(kind, 1), off(5, 2, data7(), 3), eot(0)}
	if kind == kEndOfTrack {
		evs = evs[1:]
	}
	smf := mustDecode(file1(evs...))
	was := linesOf(layout(smf))
	is := linesOf(layout(smf, `{"templates": {"`+names[kind]+`": "[{{.Tag}}]"}}`))
	nd.Assert(len(is) == len(was), "a template for an event keeps the number of lines")
	n := 0
	for i := range was {
		if strings.Contains(was[i], " "+tags[kind]+" ") || strings.HasSuffix(was[i], " "+tags[kind]) {
			n++
			at := strings.Index(was[i], "delta:") + len("delta:") + 11
			nd.Assert(nd.EqStr(is[i], was[i][:at]+"["+tags[kind]+"]"), "an event is shown as its template says")
		} else {
			nd.Assert(nd.EqStr(was[i], is[i]), "a template for an event changes the lines of other events")
		}
	}
	nd.Assert(n >= 1, "the event is shown")
	nd.Reach("end")
}

// C32_Parts: templates for the header, a track, an event and its bytes, an arbitrary note.
func C32_Parts() {
	v := data7()
	smf := mustDecode(file1(on(7, 0, 60, v), eot(0)))
	got := layout(smf, `{"templates": {"MThd": "H{{.PPQN}};", "MTrk": "T{{.Length}}:{{range .Events}}{{template \"event\" .}};{{end}}", "event": "{{.Tick}}+{{.Delta}} {{template \"hex\" .Bytes}}", "hex": "{{pad 8 (ellipsize . 6)}}"}}`)
	first := "07 90…  "
	nd.Assert(nd.EqStr(got, "H480;T8:7+7 "+first+";7+0 00 FF…  ;"), "header, tracks, events and bytes are shown as their templates say")
	got = layout(smf, `{"templates": {"document": "{{range .Tracks}}{{range .Events}}{{.Event.Tag}} {{end}}{{end}}."}}`)
	nd.Assert(nd.EqStr(got, "NoteOn EndOfTrack ."), "a file is shown as its template says")
	got = layout(smf, `{"templates": {"noteon": "V{{.Velocity}} {{template \"mine\" .}}", "mine": "M{{.Note.Name}}", "event": "{{template \"events\" .Event}}", "MThd": "-", "MTrk": "{{range .Events}}{{template \"event\" .}}{{end}}"}}`)
	nd.Assert(nd.EqStr(got, fmt.Sprintf("-V%d MC4\n2F EndOfTrack\n", v)), "a template can use another one of the file")
	nd.Reach("end")
}

// C32_Twice: templates loaded into one disassembler, twice, do not change another one; a file with an arbitrary note.
func C32_Twice() {
	smf := mustDecode(file1(on(7, 0, data7(), data7()), eot(0)))
	was := layout(smf)
	a := layout(smf, `{"templates": {"noteon": "A"}}`)
	b := layout(smf, `{"templates": {"noteon": "A"}}`, `{"templates": {"endoftrack": "B"}}`, `{"templates": {"noteon": "C"}}`, `{"templates": {}}`, `{}`)
	nd.Assert(strings.HasSuffix(linesOf(a)[3], "  A"), "an event is shown as its template says")
	nd.Assert(nd.And(strings.HasSuffix(linesOf(b)[3], "  C"), strings.HasSuffix(linesOf(b)[4], "  B")), "templates that are loaded later replace and extend the ones before")
	nd.Assert(nd.EqStr(layout(smf), was), "templates change only the disassembler they were loaded into")
	nd.Reach("end")
}

var badTemplates = []string{``, `{`, `[]`, `{"templates": [1]}`, `{"templates": {"noteon": 1}}`, `{"templates": {"noteon": "{{"}}`, `{"templates": {"noteon": "{{end}}"}}`, `{"templates": {"a": "x", "b": "{{if}}"}}`, `{"templates": {"noteon": "{{nofunction .}}"}}`, `{"templates": {"noteon": "x"}} x`, `{"templates": {"noteon": "x"}}}`, `{"templates": {"noteon": "x"}} {"templates": {}}`, `{"templates": {"noteon": "x",}}`}

// C32_Invalid: thirteen sources that are not JSON, not templates, or have templates with errors are rejected.
func C32_Invalid() {
	x, err := disassemble.NewDisassemble()
	nd.Assert(err == nil, "a disassembler is made")
	nd.Assert(x.LoadTemplates(bytes.NewReader([]byte(badTemplates[nd.Choose(len(badTemplates))]))) != nil, "invalid templates are rejected")
	nd.Reach("end")
}

// C32_Fails: a template that refers to a field that events of its kind do not have, or to a template that does not exist, and a template that is asked for and does not exist, are errors.
func C32_Fails() {
	x, err := disassemble.NewDisassemble()
	nd.Assert(err == nil, "a disassembler is made")
	smf := mustDecode(file1(on(7, 0, data7(), data7()), eot(0)))
	w := &nd.Sink{}
	switch nd.Choose(3) {
	case 0:
		nd.Assert(x.LoadTemplates(bytes.NewReader([]byte(`{"templates": {"noteon": "{{.Tempo}}"}}`))) == nil, "templates are loaded")
		nd.Assert(x.Print(smf, "document", w) != nil, "a template for a field that is not there fails")
	case 1:
		nd.Assert(x.LoadTemplates(bytes.NewReader([]byte(`{"templates": {"noteon": "{{template \"none\"}}"}}`))) == nil, "templates are loaded")
		nd.Assert(x.Print(smf, "document", w) != nil, "a template that uses one that is not there fails")
	case 2:
		nd.Assert(x.Print(smf, "none", w) != nil, "a template that is not there fails")
	}
	nd.Reach("end")
}

// C32_Command: the disassemble command with a file of templates: arbitrary note, to a file and split; a missing file and an invalid one are errors.
func C32_Command() {
	in := file1(on(7, 0, data7(), 5), eot(0))
	path, out := given("in.mid", in), nd.TempDir()+"/out.x"
	t := `{"templates": {"noteon": "<{{.Note.Value}}>", "MThd": "H{{.Tracks}}"}}`
	switch nd.Choose(4) {
	case 0:
		nd.Assert(run(&commands.Disassemble, "--templates", given("t.json", []byte(t)), "--out", out, path) == nil, "a file is disassembled with templates")
		nd.Assert(nd.EqStr(string(written(out)), layout(mustDecode(in), t)), "the disassembly is as the templates say")
	case 1:
		nd.Assert(run(&commands.Disassemble, "--templates", given("t.json", []byte(t)), "--split", path) == nil, "a file is split with templates")
		nd.Assert(nd.EqStr(string(written(nd.TempDir()+"/in.MThd")), "H1"), "the header is as the templates say")
	case 2:
		nd.Assert(run(&commands.Disassemble, "--templates", nd.TempDir()+"/none.json", "--out", out, path) != nil, "a missing file of templates is an error")
	case 3:
		nd.Assert(run(&commands.Disassemble, "--templates", given("t.json", []byte(badTemplates[nd.Choose(len(badTemplates))])), "--out", out, path) != nil, "an invalid file of templates is an error")
	}
	_, err := os.Stat(path)
	nd.Assert(err == nil, "the input file stays")
	nd.Reach("end")
}

// C32_Empty: templates that show nothing, blanks or a newline, or only have a comment, for NoteOn events, for the bytes, for the header or for two of them; a file with an arbitrary note.
func C32_Empty() {
	smf := mustDecode(file1(on(7, 0, data7(), data7()), eot(0)))
	was := linesOf(layout(smf))
	k := nd.Choose(5)
	source := []string{``, ` `, `\n`, `{{/* nothing */}}`, ` {{- /* nothing */ -}} `}[k]
	shown := []string{"", " ", "\n", "", ""}[k]
	switch nd.Choose(4) {
	case 0:
		is := layout(smf, `{"templates": {"noteon": "`+source+`"}}`)
		nd.Assert(nd.EqStr(is, strings.Join(was[:3], "\n")+"\n"+was[3][:strings.Index(was[3], "90 NoteOn")]+shown+"\n"+strings.Join(was[4:], "\n")), "a template that shows nothing replaces the one before")
	case 1:
		is := layout(smf, `{"templates": {"hex": "`+source+`", "noteon": "x"}}`)
		nd.Assert(strings.Contains(is, "\n"+shown+"  tick:7          delta:7          x\n"), "a template that shows nothing replaces the one before")
	case 2:
		is := layout(smf, `{"templates": {"MThd": "`+source+`"}}`)
		nd.Assert(nd.EqStr(is, shown+strings.Join(was[1:], "\n")), "a template that shows nothing replaces the one before")
	case 3:
		is := layout(smf, `{"templates": {"MThd": "`+source+`", "MTrk": "`+source+`"}}`)
		nd.Assert(nd.EqStr(is, shown+shown), "a template that shows nothing replaces the one before")
	}
	nd.Reach("end")
}
