package h

import (
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/notes"
)

func noteList(smf *midi.SMF, steps int, js bool) string {
	w := &nd.Sink{}
	op := notes.Notes{Transpose: steps, JSON: js, Writer: w}
	err := op.Execute(smf)
	nd.Assert(err == nil, "the notes of a file are listed without error")
	return w.S
}
