package h

import (
	"bytes"
	"flag"
	"os"
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/ops/disassemble"
)

// given is the name of an input file with the contents.
func given(name string, b []byte) string {
	path := nd.TempDir() + "/" + name
	nd.Assert(os.WriteFile(path, b, 0o660) == nil, "an input file is written")
	return path
}

func run(cmd commands.Command, args ...string) error {
	fs := flag.NewFlagSet("midiasm", flag.ContinueOnError)
	fs = cmd.Flagset(fs)
	err := fs.Parse(args)
	nd.Assert(err == nil, "the options of a command are accepted")
	return cmd.Execute(fs)
}

func written(path string) []byte {
	b, err := os.ReadFile(path)
	nd.Assert(err == nil, "a command writes its output file")
	return b
}

func printed(v any, template string) []byte {
	op, err := disassemble.NewDisassemble()
	nd.Assert(err == nil, "a disassembler is made")
	var b bytes.Buffer
	nd.Assert(op.Print(v, template, &b) == nil, "a decoded file is disassembled")
	return b.Bytes()
}
