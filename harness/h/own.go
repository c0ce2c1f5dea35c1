package h

import (
	"encoding"
	"encoding/json"

	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

// own reads one event with the type of its kind: f is given a pointer to one.
func own(kind int, f func(e any) error) (events.IEvent, error) {
	switch kind {
	case kNoteOff:
		var e midievent.NoteOff
		return read(&e, f, func() events.IEvent { return e })
	case kNoteOn:
		var e midievent.NoteOn
		return read(&e, f, func() events.IEvent { return e })
	case kPolyPressure:
		var e midievent.PolyphonicPressure
		return read(&e, f, func() events.IEvent { return e })
	case kController:
		var e midievent.Controller
		return read(&e, f, func() events.IEvent { return e })
	case kProgramChange:
		var e midievent.ProgramChange
		return read(&e, f, func() events.IEvent { return e })
	case kChannelPressure:
		var e midievent.ChannelPressure
		return read(&e, f, func() events.IEvent { return e })
	case kPitchBend:
		var e midievent.PitchBend
		return read(&e, f, func() events.IEvent { return e })
	case kSequenceNumber:
		var e metaevent.SequenceNumber
		return read(&e, f, func() events.IEvent { return e })
	case kText:
		var e metaevent.Text
		return read(&e, f, func() events.IEvent { return e })
	case kCopyright:
		var e metaevent.Copyright
		return read(&e, f, func() events.IEvent { return e })
	case kTrackName:
		var e metaevent.TrackName
		return read(&e, f, func() events.IEvent { return e })
	case kInstrumentName:
		var e metaevent.InstrumentName
		return read(&e, f, func() events.IEvent { return e })
	case kLyric:
		var e metaevent.Lyric
		return read(&e, f, func() events.IEvent { return e })
	case kMarker:
		var e metaevent.Marker
		return read(&e, f, func() events.IEvent { return e })
	case kCuePoint:
		var e metaevent.CuePoint
		return read(&e, f, func() events.IEvent { return e })
	case kProgramName:
		var e metaevent.ProgramName
		return read(&e, f, func() events.IEvent { return e })
	case kDeviceName:
		var e metaevent.DeviceName
		return read(&e, f, func() events.IEvent { return e })
	case kChannelPrefix:
		var e metaevent.MIDIChannelPrefix
		return read(&e, f, func() events.IEvent { return e })
	case kPort:
		var e metaevent.MIDIPort
		return read(&e, f, func() events.IEvent { return e })
	case kTempo:
		var e metaevent.Tempo
		return read(&e, f, func() events.IEvent { return e })
	case kSMPTEOffset:
		var e metaevent.SMPTEOffset
		return read(&e, f, func() events.IEvent { return e })
	case kTimeSignature:
		var e metaevent.TimeSignature
		return read(&e, f, func() events.IEvent { return e })
	case kKeySignature:
		var e metaevent.KeySignature
		return read(&e, f, func() events.IEvent { return e })
	case kEscape:
		var e sysex.SysExEscapeMessage
		return read(&e, f, func() events.IEvent { return e })
	case kEndOfTrack:
		var e metaevent.EndOfTrack
		return read(&e, f, func() events.IEvent { return e })
	case kSequencerSpecific:
		var e metaevent.SequencerSpecificEvent
		return read(&e, f, func() events.IEvent { return e })
	case kSysEx, kSysExFirst:
		var e sysex.SysExMessage
		return read(&e, f, func() events.IEvent { return e })
	}
	var e sysex.SysExContinuationMessage
	return read(&e, f, func() events.IEvent { return e })
}

func read(p any, f func(any) error, get func() events.IEvent) (events.IEvent, error) {
	err := f(p)
	return get(), err
}

func fromBinary(b []byte) func(any) error {
	return func(p any) error { return p.(encoding.BinaryUnmarshaler).UnmarshalBinary(b) }
}

func fromObject(b []byte) func(any) error {
	return func(p any) error { return p.(json.Unmarshaler).UnmarshalJSON(b) }
}

func fromLine(b []byte) func(any) error {
	return func(p any) error { return p.(encoding.TextUnmarshaler).UnmarshalText(b) }
}
