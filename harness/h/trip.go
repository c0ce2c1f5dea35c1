package h

import (
	"bytes"
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
)

func toJSON(smf *midi.SMF) []byte {
	x, err := export.NewExport()
	nd.Assert(err == nil, "an export is made")
	var b bytes.Buffer
	err = x.Export(smf, &b)
	nd.Assert(err == nil, "a decoded file is exported as JSON")
	return b.Bytes()
}

func toText(smf *midi.SMF) []byte {
	x, err := disassemble.NewDisassemble()
	nd.Assert(err == nil, "a disassembler is made")
	var b bytes.Buffer
	err = x.Print(smf, "document", &b)
	nd.Assert(err == nil, "a decoded file is disassembled")
	return b.Bytes()
}

func jsonTrip(in []byte) {
	a := mustDecode(in)
	c := fromJSON(toJSON(a))
	sameFile(a, c, "JSON round trip")
	for _, t := range c.Tracks {
		observe(t)
	}
	nd.Reach("end")
}

func textTrip(in []byte) {
	a := mustDecode(in)
	c := fromText(toText(a))
	sameFile(a, c, "text round trip")
	for _, t := range c.Tracks {
		observe(t)
	}
	nd.Reach("end")
}

func fromJSON(j []byte) *midi.SMF {
	b, err := assemble.NewJSONAssembler().Assemble(bytes.NewReader(j))
	nd.Assert(err == nil, "an exported file is assembled without error")
	smf, err := decode(b)
	nd.Assert(err == nil, "an assembled file is decoded without error")
	return smf
}

func fromText(text []byte) *midi.SMF {
	b, err := assemble.NewTextAssembler().Assemble(bytes.NewReader(text))
	nd.Assert(err == nil, "a disassembled file is assembled without error")
	smf, err := decode(b)
	nd.Assert(err == nil, "an assembled file is decoded without error")
	return smf
}
