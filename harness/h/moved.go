package h

import (
	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/transpose"
)

func moves(evs []ev, steps int) {
	c := transposed(mustDecode(file1(evs...)), steps)
	movedBy(evs, c.Tracks[0], steps)
	observe(c.Tracks[0])
	nd.Reach("end")
}

// movedBy asserts that the events of c are those of the reference, transposed.
func movedBy(evs []ev, t *midi.MTrk, steps int) {
	nd.Assert(len(t.Events) == len(evs), "transposing keeps the number of events")
	for i, e := range evs {
		s, r := summary(t.Events[i].Event), e.summary()
		nd.Assert(t.Events[i].Delta() == e.delta, "transposing keeps the delta times")
		nd.Assert(nd.EqStr(s.tag, r.tag), "transposing keeps the kind of every event")
		switch e.kind {
		case kNoteOn, kNoteOff:
			nd.Assert(nd.And(s.nums[0] == r.nums[0], s.nums[2] == r.nums[2]), "transposing keeps channel and velocity")
			nd.Assert(int(s.nums[1]) == clamp(int(r.nums[1])+steps), "transposing moves a note by the number of semitones, limited to 0 and 127")
		case kKeySignature:
			nd.Assert(s.nums[1] == r.nums[1], "transposing keeps the mode of a key")
			minor := r.nums[1] == 1
			nd.Assert(tonic(signed(s.nums[0]), minor) == mod12(tonic(signed(r.nums[0]), minor)+steps), "transposing moves the tonic of a key by the number of semitones")
		default:
			nd.Assert(s.eq(r), "transposing keeps all other events")
		}
	}
}

func transposer(smf *midi.SMF, steps int) ([]byte, error) {
	t := transpose.Transpose{}
	return t.Execute(smf, steps)
}

func transposed(smf *midi.SMF, steps int) *midi.SMF {
	b, err := transposer(smf, steps)
	nd.Assert(err == nil, "a file is transposed without error")
	c, err := decode(b)
	nd.Assert(err == nil, "a transposed file is decoded without error")
	return c
}
