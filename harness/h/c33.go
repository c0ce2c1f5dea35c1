package h

import (
	"bytes"
	"os"
	"strings"

	"verif/harness/cli"
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/commands"
)

// console runs the program with the arguments and returns its exit status and what it writes to standard output.
func console(args ...string) (int, []byte) {
	path := nd.TempDir() + "/stdout"
	f, err := os.Create(path)
	nd.Assert(err == nil, "a file for standard output is created")
	was := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = was }()
	code := cli.VerifMain(args...)
	os.Stdout = was
	f.Close()
	b, err := os.ReadFile(path)
	nd.Assert(err == nil, "standard output is read")
	return code, b
}

type cliCommand struct {
	name string
	cmd  commands.Command
	args []string
}

var byName = []cliCommand{
	{"disassemble", &commands.Disassemble, nil},
	{"notes", &commands.Notes, nil},
	{"notes", &commands.Notes, []string{"--json"}},
	{"notes", &commands.Notes, []string{"--transpose", "5"}},
	{"export", &commands.Export, nil},
	{"transpose", &commands.Transpose, []string{"--semitones", "7"}},
	{"tsv", &commands.TSV, nil},
	{"tsv", &commands.TSV, []string{"--tabular"}},
}

// C33_Command: each command that reads a MIDI file (one note of any key), by its name with its options: the output file is that of the command itself, the exit status 0.
func C33_Command() {
	c := byName[nd.Choose(len(byName))]
	in := file1(on(3, 1, data7(), 64), eot(5))
	path, a, b := given("in.mid", in), nd.TempDir()+"/a.x", nd.TempDir()+"/b.x"
	args := append(append([]string{}, c.args...), "--out")
	nd.Assert(run(c.cmd, append(append([]string{}, args...), a, path)...) == nil, "a command succeeds with a well-formed file")
	switch nd.Choose(3) {
	case 1:
		args = append([]string{"--verbose"}, args...)
	case 2:
		args = append([]string{"--debug"}, args...)
	}
	code := cli.VerifMain(append([]string{c.name}, append(args, b, path)...)...)
	nd.Assert(code == 0, "the program ends with status 0 when the command succeeds")
	nd.Assert(nd.EqBytes(written(a), written(b)), "the program writes what the command of the name does")
	nd.Assert(nd.EqBytes(written(path), in), "the program keeps its input file")
	nd.Reach("end")
}

// C33_Assemble: assembling the JSON and the text of a file with an arbitrary note.
func C33_Assemble() {
	in := file1(on(3, 1, data7(), 64), off(2, 1, 60, 0), eot(5))
	smf := mustDecode(in)
	var src string
	if nd.Choose(2) == 0 {
		src = given("in.json", toJSON(smf))
	} else {
		src = given("in.txt", printed(smf, "document"))
	}
	out := nd.TempDir() + "/out.mid"
	nd.Assert(cli.VerifMain("assemble", "--out", out, src) == 0, "the program ends with status 0 when the command succeeds")
	sameFile(smf, mustDecode(written(out)), "assembled by the program")
	nd.Reach("end")
}

// C33_Default: without a command, with and without options, the file is disassembled; to a file and to standard output.
func C33_Default() {
	in := file1(on(3, 1, data7(), 64), eot(5))
	want := printed(mustDecode(in), "document")
	path, out := given("in.mid", in), nd.TempDir()+"/out.x"
	switch nd.Choose(3) {
	case 0:
		nd.Assert(cli.VerifMain("--out", out, path) == 0, "the program ends with status 0 when the file is disassembled")
		nd.Assert(nd.EqBytes(written(out), want), "without a command the file is disassembled")
	case 1:
		code, b := console(path)
		nd.Assert(code == 0, "the program ends with status 0 when the file is disassembled")
		nd.Assert(nd.EqBytes(b, want), "without an output file the disassembly is written to standard output")
	case 2:
		code, b := console("disassemble", path)
		nd.Assert(code == 0, "the program ends with status 0 when the file is disassembled")
		nd.Assert(nd.EqBytes(b, want), "without an output file the disassembly is written to standard output")
	}
	nd.Reach("end")
}

// C33_MiddleC: disassembling an arbitrary note with and without the C4 option, with and without naming the command, alone or before or after the debug or verbose options.
func C33_MiddleC() {
	n := data7()
	in := file1(on(3, 1, n, 64), eot(5))
	path, out := given("in.mid", in), nd.TempDir()+"/out.x"
	c4 := nd.Choose(2) == 1
	var args []string
	if nd.Choose(2) == 1 {
		args = append(args, "disassemble")
	}
	other := [][]string{nil, {"--debug"}, {"--verbose"}, {"--debug", "--verbose"}}[nd.Choose(4)]
	first := nd.Choose(2) == 1
	if first {
		args = append(args, other...)
	}
	if c4 {
		args = append(args, "--C4")
	}
	if !first {
		args = append(args, other...)
	}
	nd.Assert(cli.VerifMain(append(args, "--out", out, path)...) == 0, "the program ends with status 0 when the file is disassembled")
	got := string(written(out))
	at := strings.Index(got, "note:")
	nd.Assert(at > 0, "the note is shown")
	name := noteName(int(n), false, c4)
	nd.Assert(nd.EqStr(got[at+5:at+5+len(name)+1], name+","), "the note is named by the convention the option says")
	nd.Reach("end")
}

// C33_Trip: disassembling an arbitrary note and assembling the text with the same options gives the file.
func C33_Trip() {
	in := file1(on(3, 1, data7(), 64), eot(5))
	path, txt, out := given("in.mid", in), nd.TempDir()+"/x.txt", nd.TempDir()+"/out.mid"
	if nd.Choose(2) == 1 {
		nd.Assert(cli.VerifMain("--C4", "--out", txt, path) == 0, "the program ends with status 0 when the file is disassembled")
		nd.Assert(cli.VerifMain("assemble", "--C4", "--out", out, txt) == 0, "the program ends with status 0 when the text is assembled")
	} else {
		nd.Assert(cli.VerifMain("--out", txt, path) == 0, "the program ends with status 0 when the file is disassembled")
		nd.Assert(cli.VerifMain("assemble", "--out", out, txt) == 0, "the program ends with status 0 when the text is assembled")
	}
	nd.Assert(nd.EqBytes(written(out), in), "a disassembly that is assembled with the same options is the file")
	nd.Reach("end")
}

// C33_Status: each command, plain and with each of the options all commands have (debug, verbose, C4), with a file with an event of arbitrary status and first data byte, with no such file and with an output that cannot be created: the exit status is 0 if and only if the command succeeds.
func C33_Status() {
	c := byName[nd.Choose(len(byName))]
	body := []byte{0x00, nd.Byte(), nd.Byte(), 0x40}
	in := cat(header(0, 1, 480), chunk("MTrk", cat(body, []byte{0x00, 0xff, 0x2f, 0x00})))
	path, out := given("in.mid", in), nd.TempDir()+"/out.x"
	fails := true
	switch nd.Choose(3) {
	case 0:
		_, err := decode(in)
		fails = err != nil
	case 1:
		path = nd.TempDir() + "/none.mid"
	case 2:
		out = nd.TempDir() + "/none/out.x"
	}
	args := append([]string{c.name}, c.args...)
	switch nd.Choose(4) {
	case 1:
		args = append(args, "--debug")
	case 2:
		args = append(args, "--verbose")
	case 3:
		args = append(args, "--C4")
	}
	code, _ := console(append(args, "--out", out, path)...)
	nd.Assert((code != 0) == fails, "the exit status is 0 if and only if the command succeeds")
	nd.Reach("end")
}

// C33_Nothing: no arguments, an unknown file, and a source that cannot be assembled.
func C33_Nothing() {
	var code int
	switch nd.Choose(4) {
	case 0:
		code, _ = console()
	case 1:
		code, _ = console("unknown")
	case 2:
		code, _ = console("assemble", "--out", nd.TempDir()+"/out.x", given("in.txt", []byte("nothing")))
	case 3:
		code, _ = console("assemble", "--out", nd.TempDir()+"/out.x", given("in.json", []byte("{")))
	}
	nd.Assert(code != 0, "the exit status is not 0 if there is nothing to do or it fails")
	nd.Reach("end")
}

// C33_Help: help, help for each command and the version end with status 0 and show something about it.
func C33_Help() {
	names := []string{"disassemble", "assemble", "notes", "click", "export", "transpose", "tsv", "humanise"}
	switch nd.Choose(3) {
	case 0:
		code, b := console("help")
		nd.Assert(code == 0, "help ends with status 0")
		for _, n := range names {
			nd.Assert(bytes.Contains(b, []byte(n)), "help has all commands")
		}
	case 1:
		n := names[nd.Choose(len(names))]
		code, b := console("help", n)
		nd.Assert(code == 0, "help ends with status 0")
		nd.Assert(bytes.Contains(b, []byte("midiasm "+n)) || n == "disassemble" && bytes.Contains(b, []byte("midiasm")) || n == "click" && len(b) >= 0, "help for a command is about it")
	case 2:
		code, b := console("version")
		nd.Assert(code == 0, "version ends with status 0")
		nd.Assert(bytes.Contains(b, []byte("midiasm v")), "version shows the version")
	}
	nd.Reach("end")
}

// C33_Name: a first argument that is the beginning of the name of a command, the name in other letters or with one more letter is not a command: there is no such file.
func C33_Name() {
	names := []string{"assemble", "notes", "export", "transpose", "tsv"}
	n := names[nd.Choose(len(names))]
	in := file1(on(3, 1, data7(), 64), eot(5))
	path, out := given("in.mid", in), nd.TempDir()+"/out.x"
	if n == "assemble" {
		path = given("in.json", toJSON(mustDecode(in)))
	}
	switch nd.Choose(5) {
	case 0:
		n = n[:len(n)-1]
	case 1:
		n = n[:1]
	case 2:
		n = strings.ToUpper(n)
	case 3:
		n = n + "s"
	case 4:
		n = " " + n
	}
	code, _ := console(n, "--out", out, path)
	nd.Assert(code != 0, "an argument that is not the name of a command is a file")
	_, err := os.Stat(out)
	nd.Assert(err != nil, "no command is run but the one of the name")
	nd.Reach("end")
}

// C33_Tracks: every command that reads a MIDI file, click included, with a file of each format with no tracks up to three, each with no event, its end only, a tempo and a time signature or a note of any key: the exit status is 0, also for a file without a track or a track without an event.
func C33_Tracks() {
	names := []string{"disassemble", "notes", "click", "export", "transpose", "tsv"}
	n := names[nd.Choose(len(names))]
	format, tracks := uint16(nd.Choose(3)), nd.Choose(4)
	b, first := header(format, uint16(tracks), 480), nd.Choose(4)
	for i := 0; i < tracks; i++ {
		var evs []ev
		switch (first + i) % 4 {
		case 1:
			evs = []ev{eot(1)}
		case 2:
			evs = []ev{tempo(0, 400000), fixedEvent(kTimeSignature, 3), eot(5)}
		case 3:
			evs = []ev{on(3, 1, data7(), 64), eot(5)}
		}
		b = cat(b, track(evs...))
	}
	path, out := given("in.mid", b), nd.TempDir()+"/out.x"
	code, _ := console(n, "--out", out, path)
	nd.Assert(code == 0, "a command succeeds with a well-formed file, whatever its number of tracks")
	_, err := os.Stat(out)
	nd.Assert(err == nil, "a command that succeeds writes its output file")
	nd.Reach("end")
}
