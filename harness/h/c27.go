package h

import (
	"bytes"
	"fmt"
	"os"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/notes"
)

// writes runs a command on the input file and asserts that it writes exactly want to the output file and keeps the input file.
func writes(cmd commands.Command, name string, in, want []byte, args ...string) {
	path, out := given(name, in), nd.TempDir()+"/out.x"
	err := run(cmd, append(append([]string{}, args...), "--out", out, path)...)
	nd.Assert(err == nil, "a command succeeds with a well-formed file")
	nd.Assert(nd.EqBytes(written(out), want), "a command writes exactly the result to the output file")
	nd.Assert(nd.EqBytes(written(path), in), "a command keeps its input file")
	nd.Reach("end")
}

func anyFile() []byte {
	return file1(genEvent(nd.Choose(nGeneral), smallDelta(), 1, printable), on(3, 1, 60, 64), off(5, 1, 60, 64), eot(0))
}

// C27_Disassemble: disassembling a file with one event of each general kind with arbitrary values and a note to a file.
func C27_Disassemble() {
	in := file1(genEvent(nd.Choose(nGeneral), 0, 1, printable), on(3, 1, 60, 64), eot(0))
	writes(&commands.Disassemble, "in.mid", in, printed(mustDecode(in), "document"))
}

// C27_Split: splitting a file of one to three tracks, of which the last has an arbitrary note, into a directory, into one whose parents are not there yet, and next to the input file.
func C27_Split() {
	n := 1 + nd.Choose(3)
	in := header(1, uint16(n), 480)
	for i := 0; i < n; i++ {
		note := byte(60 + i)
		if i == n-1 {
			note = data7()
		}
		in = append(in, track(on(uint32(i), 1, note, 64), eot(0))...)
	}
	smf := mustDecode(in)
	path := given("in.mid", in)
	base := nd.TempDir() + "/in"
	args := []string{"--split"}
	if k := nd.Choose(3); k > 0 {
		dir := nd.TempDir() + []string{"", "/dir.x", "/sub/more/dir.x"}[k]
		args = append(args, "--out", dir)
		base = dir + "/dir"
	}
	nd.Assert(run(&commands.Disassemble, append(args, path)...) == nil, "splitting succeeds with a well-formed file")
	nd.Assert(nd.EqBytes(written(base+".MThd"), printed(smf.MThd, "MThd")), "splitting writes a file for the header")
	for i, t := range smf.Tracks {
		nd.Assert(nd.EqBytes(written(fmt.Sprintf("%s-%d.MTrk", base, i)), printed(t, "MTrk")), "splitting writes a file for each track")
	}
	nd.Assert(nd.EqBytes(written(path), in), "a command keeps its input file")
	nd.Reach("end")
}

// C27_Export: exporting a file with one event of each general kind with arbitrary values and a note to a file.
func C27_Export() {
	in := anyFile()
	writes(&commands.Export, "in.mid", in, toJSON(mustDecode(in)))
}

// C27_Transpose: transposing a file with one event of each general kind with arbitrary values and a note by one of several numbers of semitones.
func C27_Transpose() {
	in := anyFile()
	steps := []int{-70, -1, 0, 5, 100}[nd.Choose(5)]
	b, err := transposer(mustDecode(in), steps)
	nd.Assert(err == nil, "a file is transposed without error")
	writes(&commands.Transpose, "in.mid", in, b, "--semitones", fmt.Sprint(steps))
}

// C27_Notes: the notes of a file with two notes of arbitrary values, as text and JSON, transposed by one of several numbers of semitones.
func C27_Notes() {
	c, n := upto(15), data7()
	in := file1(on(480, c, n, 64), on(0, c^1, n, 1), off(480, c, n, 0), off(480, c^1, n, 0), eot(0))
	steps := []int{-70, 0, 5}[nd.Choose(3)]
	js := nd.Choose(2) == 1
	var b bytes.Buffer
	op := notes.Notes{JSON: js, Transpose: steps, Writer: &b}
	nd.Assert(op.Execute(mustDecode(in)) == nil, "the notes are listed without error")
	args := []string{"--transpose", fmt.Sprint(steps)}
	if js {
		args = append(args, "--json")
	}
	writes(&commands.Notes, "in.mid", in, b.Bytes(), args...)
}

func assembled(json bool, src []byte) []byte {
	var a assemble.Assembler = assemble.NewTextAssembler()
	if json {
		a = assemble.NewJSONAssembler()
	}
	b, err := a.Assemble(bytes.NewReader(src))
	nd.Assert(err == nil, "a disassembled file is assembled without error")
	return b
}

// C27_Assemble: assembling the JSON and the text of a file with one event of some kinds with arbitrary values, to a file.
func C27_Assemble() {
	e := genEvent([]int{kNoteOn, kText, kTempo, kProgramChange, kEscape}[nd.Choose(5)], 0, 1, word)
	smf := mustDecode(file1(e, eot(0)))
	if nd.Choose(2) == 0 {
		src := toJSON(smf)
		writes(&commands.Assemble, "in.json", src, assembled(true, src))
	} else {
		src := printed(smf, "document")
		writes(&commands.Assemble, "in.txt", src, assembled(false, src))
	}
}

// C27_Default: without an output file, assembling writes the source's file name with the extension .midi.
func C27_Default() {
	smf := mustDecode(file1(genEvent(kNoteOn, 0, 0, nil), eot(0)))
	src, name := toJSON(smf), "in.json"
	if nd.Choose(2) == 0 {
		src, name = printed(smf, "document"), "in.txt"
	}
	path := given(name, src)
	nd.Assert(run(&commands.Assemble, path) == nil, "assembling succeeds with a well-formed source")
	nd.Assert(nd.EqBytes(written(nd.TempDir()+"/in.midi"), assembled(name == "in.json", src)), "assembling writes the result")
	nd.Assert(nd.EqBytes(written(path), src), "a command keeps its input file")
	nd.Reach("end")
}

// C27_Names: the names of the files that are written without an output file, for input files (one note of arbitrary velocity) with several dots, with none, and in a directory with a dot in its name.
func C27_Names() {
	in := file1(on(3, 1, 60, data7()), eot(0))
	smf := mustDecode(in)
	dir := []string{"", "/d.e"}[nd.Choose(2)]
	if dir != "" {
		nd.Assert(os.Mkdir(nd.TempDir()+dir, 0o770) == nil, "a directory is made")
	}
	base := dir[min(1, len(dir)):]
	if base != "" {
		base += "/"
	}
	stem := []string{"in", "a.b", "a.json.b", "a b", "x.txt.midi"}[nd.Choose(5)]
	if nd.Choose(2) == 0 {
		path := given(base+stem+".mid", in)
		nd.Assert(run(&commands.Disassemble, "--split", path) == nil, "splitting succeeds with a well-formed file")
		nd.Assert(nd.EqBytes(written(nd.TempDir()+"/"+base+stem+".MThd"), printed(smf.MThd, "MThd")), "splitting writes a file for the header")
		nd.Assert(nd.EqBytes(written(nd.TempDir()+"/"+base+stem+"-0.MTrk"), printed(smf.Tracks[0], "MTrk")), "splitting writes a file for each track")
		nd.Assert(nd.EqBytes(written(path), in), "a command keeps its input file")
		nd.Reach("end")
		nd.Stop()
	}
	src, ext := printed(smf, "document"), ".txt"
	switch nd.Choose(3) {
	case 1:
		src, ext = toJSON(smf), ".json"
	case 2:
		if stem != "in" && stem != "a b" {
			nd.Stop()
		}
		ext = ""
	}
	path := given(base+stem+ext, src)
	nd.Assert(run(&commands.Assemble, path) == nil, "assembling succeeds with a well-formed source")
	nd.Assert(nd.EqBytes(written(nd.TempDir()+"/"+base+stem+".midi"), assembled(ext == ".json", src)), "assembling writes the result")
	nd.Assert(nd.EqBytes(written(path), src), "a command keeps its input file")
	nd.Reach("end")
}

var reading = []commands.Command{&commands.Disassemble, &commands.Export, &commands.Transpose, &commands.Notes, &commands.TSV}

// C27_Missing: every command with an input file that does not exist.
func C27_Missing() {
	cmds := append([]commands.Command{&commands.Assemble}, reading...)
	err := run(cmds[nd.Choose(len(cmds))], "--out", nd.TempDir()+"/out.x", nd.TempDir()+"/missing.mid")
	nd.Assert(err != nil, "a command with a missing input file fails")
	nd.Reach("end")
}

// C27_Invalid: every command that reads a MIDI file with one of 4 arbitrary bytes of track data: it fails if and only if the file cannot be decoded.
func C27_Invalid() {
	in := cat(header(0, 1, 480), chunk("MTrk", append(symBytes(1+nd.Choose(3)), 0, 0xff, 0x2f, 0)))
	_, bad := decode(in)
	cmd := reading[nd.Choose(len(reading))]
	err := run(cmd, "--out", nd.TempDir()+"/out.x", given("in.mid", in))
	nd.Assert((err != nil) == (bad != nil), "a command fails if and only if its input cannot be decoded")
	nd.Reach("end")
}

// C27_Header: every command that reads a MIDI file with an arbitrary header fails if the file cannot be decoded, and only then but for the notes of a file with no usable division.
func C27_Header() {
	in := cat(header(nd.U16(), nd.U16(), nd.U16()), track(eot(0)))
	_, bad := decode(in)
	cmd := reading[nd.Choose(len(reading))]
	err := run(cmd, "--out", nd.TempDir()+"/out.x", given("in.mid", in))
	if cmd == commands.Command(&commands.Notes) {
		nd.Assert(nd.Implies(bad != nil, err != nil), "a command fails if its input cannot be decoded")
		nd.Stop()
	}
	nd.Assert((err != nil) == (bad != nil), "a command fails if and only if its input cannot be decoded")
	nd.Reach("end")
}

// C27_Source: assembling a source that is neither JSON nor a disassembly fails.
func C27_Source() {
	name := []string{"in.json", "in.txt"}[nd.Choose(2)]
	err := run(&commands.Assemble, "--out", nd.TempDir()+"/out.x", given(name, symBytes(nd.Choose(3))))
	nd.Assert(err != nil, "assembling an invalid source fails")
	nd.Reach("end")
}

// C27_Twice: a command run again with other options does not depend on the first run: JSON notes, then text; transposed, then not.
func C27_Twice() {
	in := file1(on(0, 1, data7(), 64), eot(480))
	path := given("in.mid", in)
	nd.Assert(run(&commands.Notes, "--json", "--transpose", "3", "--out", nd.TempDir()+"/a", path) == nil, "notes are listed")
	nd.Assert(run(&commands.Transpose, "--semitones", "3", "--out", nd.TempDir()+"/b", path) == nil, "a file is transposed")
	nd.Assert(run(&commands.Transpose, "--out", nd.TempDir()+"/c", path) == nil, "a file is transposed")
	b, err := transposer(mustDecode(in), 0)
	nd.Assert(err == nil, "a file is transposed without error")
	nd.Assert(nd.EqBytes(written(nd.TempDir()+"/c"), b), "a command does not depend on those run before")
	var w bytes.Buffer
	op := notes.Notes{Writer: &w}
	nd.Assert(op.Execute(mustDecode(in)) == nil, "the notes are listed without error")
	writes(&commands.Notes, "in.mid", in, w.Bytes())
}

// C27_Overwrite: an output file that is longer than the result is replaced.
func C27_Overwrite() {
	in := file1(genEvent(kNoteOn, 0, 0, nil), eot(0))
	given("out.x", bytes.Repeat([]byte("0123456789"), 300))
	smf := mustDecode(in)
	switch nd.Choose(7) {
	case 4:
		args := []string{}
		if nd.Choose(2) == 1 {
			args = append(args, "--tabular")
		}
		fresh := nd.TempDir() + "/fresh.x"
		nd.Assert(run(&commands.TSV, append(append([]string{}, args...), "--out", fresh, given("in.mid", in))...) == nil, "a file is exported as TSV")
		writes(&commands.TSV, "in.mid", in, written(fresh), args...)
	case 5:
		var b bytes.Buffer
		op := notes.Notes{Writer: &b}
		nd.Assert(op.Execute(smf) == nil, "the notes are listed without error")
		writes(&commands.Notes, "in.mid", in, b.Bytes())
	case 6:
		var b bytes.Buffer
		op := notes.Notes{JSON: true, Writer: &b}
		nd.Assert(op.Execute(smf) == nil, "the notes are listed without error")
		writes(&commands.Notes, "in.mid", in, b.Bytes(), "--json")
	case 0:
		writes(&commands.Disassemble, "in.mid", in, printed(smf, "document"))
	case 1:
		writes(&commands.Export, "in.mid", in, toJSON(smf))
	case 2:
		b, _ := transposer(smf, 1)
		writes(&commands.Transpose, "in.mid", in, b, "--semitones", "1")
	case 3:
		src := toJSON(smf)
		writes(&commands.Assemble, "in.json", src, assembled(true, src))
	}
}

// unwritable are output files that cannot be written: a full device, a file in a directory that does not exist, and a directory.
func unwritable() string {
	nd.Assert(os.MkdirAll(nd.TempDir()+"/dir", 0o770) == nil, "a directory is made")
	return []string{"/dev/full", nd.TempDir() + "/missing/out.x", nd.TempDir() + "/dir"}[nd.Choose(3)]
}

// C27_Unwritable: every command that reads a MIDI file (one arbitrary note), as text, JSON or a table, with an output file that cannot be written.
func C27_Unwritable() {
	in := file1(on(3, 1, data7(), 64), eot(5))
	runs := []struct {
		cmd  commands.Command
		args []string
	}{
		{&commands.Disassemble, nil},
		{&commands.Export, nil},
		{&commands.Transpose, nil},
		{&commands.Notes, nil},
		{&commands.Notes, []string{"--json"}},
		{&commands.TSV, nil},
		{&commands.TSV, []string{"--tabular"}},
	}
	r := runs[nd.Choose(len(runs))]
	out := unwritable()
	err := run(r.cmd, append(r.args, "--out", out, given("in.mid", in))...)
	nd.Assert(err != nil, "a command that cannot write its output file fails")
	nd.Reach("end")
}

// C27_UnwritableSource: assembling the JSON and the text of a file with one arbitrary note, to an output file that cannot be written.
func C27_UnwritableSource() {
	smf := mustDecode(file1(on(3, 1, data7(), 64), eot(5)))
	path := ""
	if nd.Choose(2) == 0 {
		path = given("in.json", toJSON(smf))
	} else {
		path = given("in.txt", printed(smf, "document"))
	}
	err := run(&commands.Assemble, "--out", unwritable(), path)
	nd.Assert(err != nil, "a command that cannot write its output file fails")
	nd.Reach("end")
}

// C27_UnwritableSplit: splitting a file of two tracks where one of the three files cannot be created.
func C27_UnwritableSplit() {
	in := cat(header(1, 2, 480), track(eot(0)), track(on(0, 1, data7(), 64), eot(0)))
	path := given("in.mid", in)
	name := []string{"in.MThd", "in-0.MTrk", "in-1.MTrk"}[nd.Choose(3)]
	nd.Assert(os.MkdirAll(nd.TempDir()+"/"+name, 0o770) == nil, "a directory is made")
	nd.Assert(run(&commands.Disassemble, "--split", path) != nil, "a command that cannot write an output file fails")
	nd.Reach("end")
}

// C27_SplitMany: splitting a file of 13 tracks, of which the last has an arbitrary note, where files of two of the names are there already.
func C27_SplitMany() {
	in := header(1, 13, 480)
	for i := 0; i < 13; i++ {
		note := byte(60 + i)
		if i == 12 {
			note = data7()
		}
		in = append(in, track(on(uint32(i), 1, note, 64), eot(0))...)
	}
	smf := mustDecode(in)
	given("in.MThd", bytes.Repeat([]byte("0123456789"), 100))
	given("in-11.MTrk", bytes.Repeat([]byte("0123456789"), 100))
	nd.Assert(run(&commands.Disassemble, "--split", given("in.mid", in)) == nil, "splitting succeeds with a well-formed file")
	nd.Assert(nd.EqBytes(written(nd.TempDir()+"/in.MThd"), printed(smf.MThd, "MThd")), "splitting writes a file for the header")
	for i, t := range smf.Tracks {
		nd.Assert(nd.EqBytes(written(fmt.Sprintf("%s/in-%d.MTrk", nd.TempDir(), i)), printed(t, "MTrk")), "splitting writes a file for each track")
	}
	nd.Reach("end")
}

// C27_SplitTemplate: splitting a file of three tracks with a template that fails for NoteOns, which are in none or one of the tracks.
func C27_SplitTemplate() {
	k := nd.Choose(4)
	in := header(1, 3, 480)
	for i := 0; i < 3; i++ {
		if i == k {
			in = append(in, track(on(1, 1, data7(), 64), eot(0))...)
		} else {
			in = append(in, track(off(1, 1, 60, 64), eot(0))...)
		}
	}
	templates := given("templates.json", []byte(`{"templates": {"noteon": "{{.Missing}}"}}`))
	args := []string{"--templates", templates, "--split"}
	if nd.Choose(2) == 1 {
		args = []string{"--templates", templates, "--out", nd.TempDir() + "/out.x"}
	}
	err := run(&commands.Disassemble, append(args, given("in.mid", in))...)
	nd.Assert((err != nil) == (k < 3), "a template that fails for an event of a track is an error")
	nd.Reach("end")
}

// C27_Big: every command that reads a MIDI file, with a file of 70000 bytes (ten texts, then a note of any velocity; in eleven tracks for a disassembly) and its JSON or text for assembling: the output is that of the operation.
//
// @steps 100000000
func C27_Big() {
	var evs []ev
	for i := 0; i < 10; i++ {
		evs = append(evs, ev{kind: kText, wire: cat([]byte{0xff, 0x01, 0xb6, 0x58}, bytes.Repeat([]byte("a"), 7000))})
	}
	k := nd.Choose(6)
	last := []ev{on(3, 1, 60, data7()), off(5, 1, 60, 64), eot(0)}
	in := file1(append(evs, last...)...)
	if k == 0 || k == 5 {
		var tracks [][]ev
		for _, e := range evs {
			tracks = append(tracks, []ev{e, eot(0)})
		}
		in = cat(header(1, 11, 480))
		for _, t := range append(tracks, last) {
			in = cat(in, track(t...))
		}
	}
	smf := mustDecode(in)
	switch k {
	case 0:
		writes(&commands.Disassemble, "in.mid", in, printed(smf, "document"))
	case 1:
		writes(&commands.Export, "in.mid", in, toJSON(smf))
	case 2:
		b, err := transposer(smf, 1)
		nd.Assert(err == nil, "a file is transposed without error")
		writes(&commands.Transpose, "in.mid", in, b, "--semitones", "1")
	case 3:
		var b bytes.Buffer
		op := notes.Notes{Writer: &b}
		nd.Assert(op.Execute(smf) == nil, "the notes are listed without error")
		writes(&commands.Notes, "in.mid", in, b.Bytes())
	case 4:
		src := toJSON(smf)
		writes(&commands.Assemble, "in.json", src, assembled(true, src))
	case 5:
		src := printed(smf, "document")
		writes(&commands.Assemble, "in.txt", src, assembled(false, src))
	}
}
