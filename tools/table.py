TRUST = "Exhaustive only within the bounds stated per harness (copied into the evidence); trusts go/ssa, the engine's semantics and library models (sampled path witnesses are replayed against the native build on every run) and z3."
NA = {
 "C30": "The feature is unfinished and nothing says what its list should contain: ops/click looks for pointers to events where the decoder makes values, so it lists nothing for any file, and matching them instead gives bar 0 and no time signature for ordinary files (it counts beats in floating point, ignores the denominator and looks for time signatures in the second track only). There is no result to specify without designing the feature, and floating point is outside the encoding. That click ends without an error for every file is part of C33.",
}
EV = ["midi/events/midi/midievent.go", "midi/events/meta/metaevent.go", "midi/events/sysex/sysex.go"]
PROPS += [
P("C01", "Decoding any bytes ends with a MIDI file or an error",
  "Decoding any sequence of bytes terminates and returns either a MIDI file or an error. It never panics, never loops forever and never returns both or neither.",
  ["inputs"], "every byte sequence: arbitrary track contents, arbitrary whole files, corrupted well-formed files",
  "The tests decode a handful of well-formed files; they never decode truncated or invalid event data.",
  [DEC, MTRK, MTHD] + EV, [("chunk reader and decoder", DEC), ("event parser", MTRK), ("per-event unmarshal and length checks", "midi/events")],
  "Arbitrary track bytes and arbitrary whole files up to the stated lengths."),
P("C02", "Decoding and encoding again preserves every event",
  "A well-formed MIDI file that is decoded, encoded and decoded again gives the same header, tracks and events: the same kinds, delta times, ticks and values, in the same order. Encoding what the decoder returned never fails.",
  ["inputs"], "every well-formed file: all event kinds and values, delta times, text and data lengths, sequences of events, numbers of tracks",
  "The tests encode one value per event kind and never decode what was encoded.",
  [ENC, DEC, MTRK] + EV, [("encoder and running status", ENC), ("MarshalBinary of each event", "midi/events"), ("parser", MTRK)],
  "All event kinds with symbolic values; sequences of events within the stated number."),
P("C03", "Decoded events carry the values that are in the file",
  "Each event of a well-formed track is decoded, in order, to an event of its kind with the delta time, channel and values that its bytes have under the Standard MIDI File specification. No event is dropped, invented or changed.",
  ["inputs"], "every well-formed track: all event kinds, all values of every field, all text and data bytes",
  "The tests check one value of each event kind.",
  [MTRK] + EV, [("unmarshal of each event", "midi/events"), ("parser", MTRK)],
  "All event kinds with symbolic values against an independent reading of the bytes."),
P("C04", "An event's tick is the sum of the delta times up to it",
  "The absolute tick of every decoded event is the sum of the delta times of the events of its own track up to and including it, without wrap-around.",
  ["inputs", "histories"], "every sequence of delta times",
  "The tests use short tracks with small delta times.",
  [MTRK], [("tick accumulation", MTRK)],
  "Sequences of events with symbolic delta times of any encoded length."),
P("C05", "Running status means the same as writing the status byte",
  "A MIDI channel event written without its status byte is decoded to the same event as with it, as long as the previous event was a channel event with the same status. A meta or SysEx event cancels running status: a data byte where a status byte is then needed is an error.",
  ["inputs", "histories"], "every sequence of channel events and every subset of the status bytes that can be left out",
  "One test has one event with running status.",
  [MTRK, ENC, "midi/events/midi/midievent.go"], [("running status of the parser", MTRK), ("running status of the encoder", ENC)],
  "Sequences of channel, meta and SysEx events with a symbolic choice of which status bytes are left out."),
P("C06", "Encoded files are well-formed and errors in writing are reported",
  "A file that is encoded has a 14 byte MThd chunk with its format, number of tracks and division, and then one MTrk chunk per track whose length field is the exact number of bytes that follow. Encoding fails if the header is missing or disagrees with the number of tracks, or if the destination cannot be written to.",
  ["inputs", "fault_sequences"], "every file that can be encoded; every point at which the destination fails",
  "The tests encode two files to memory.",
  [ENC, MTHD], [("EncodeMTrk", ENC), ("MThd.MarshalBinary", MTHD)],
  "Chunk structure parsed by an independent reader; a writer that fails at a symbolic call."),
P("C07", "Variable length quantities are minimal and decode to the same value",
  "A delta time or length is encoded as the shortest variable length quantity of the Standard MIDI File specification, and decoding it gives the value back and consumes exactly its bytes.",
  ["inputs"], "every 32-bit value; every data length",
  "The tests encode a few values.",
  ["midi/lib/delta.go", "midi/lib/types.go", "midi/events/event.go"], [("Delta", "midi/lib/delta.go"), ("VLQ and VLF", "midi/lib/types.go"), ("VLQ and VLF readers", "midi/events/event.go")],
  "Every 32-bit value (no bound); data lengths within the stated bounds."),
P("C08", "A JSON export assembles to the file it came from",
  "Exporting a well-formed MIDI file with a metrical division as JSON and assembling the JSON gives a MIDI file with the same format, division, tracks and events.",
  ["inputs"], "every well-formed file whose texts are valid UTF-8: all event kinds and values, sequences of events, tracks",
  "The tests compare one exported and one assembled file.",
  ["ops/export/export.go", "ops/assemble/json.go", "midi/events/json.go", "ops/assemble/assemble.go"] + EV, [("MarshalJSON/UnmarshalJSON of each event", "midi/events"), ("JSON assembler", "ops/assemble/json.go")],
  "All event kinds with symbolic values through the real MarshalJSON/UnmarshalJSON code and a model of encoding/json."),
P("C09", "A disassembly assembles to the file it came from",
  "Disassembling a well-formed MIDI file with a metrical division to text and assembling the text gives a MIDI file with the same format, division, tracks and events. Comment lines (%%) may be added anywhere. (Texts are single lines that do not start with a blank; manufacturers are known ones.)",
  ["inputs"], "every well-formed file with plain one-line texts and known manufacturers: all event kinds and values, sequences of events, tracks",
  "The tests compare one disassembly and assemble one file.",
  ["ops/disassemble/disassemble.go", "ops/disassemble/template", "ops/assemble/text.go", "midi/events/text.go", "ops/assemble/assemble.go"] + EV, [("text templates", "ops/disassemble/template"), ("UnmarshalText of each event", "midi/events"), ("text assembler", "ops/assemble/text.go")],
  "All event kinds with symbolic values through the real templates and regular expressions (models of text/template and regexp)."),
P("C10", "Transposing moves every note and key signature and nothing else",
  "Transposing by n semitones changes the note of every NoteOn and NoteOff by exactly n, limited to 0 and 127, and replaces every key signature by one of the same mode whose tonic is n semitones higher. Every other value, event, delta time and track stays as it was.",
  ["inputs"], "every file and every number of semitones",
  "One test transposes one note by one semitone.",
  ["ops/transpose/transpose.go", "midi/events/midi/note_on.go", "midi/events/midi/note_off.go", "midi/events/meta/key_signature.go", "midi/lib/scales.go"], [("Transpose of notes", "midi/events/midi"), ("Transpose of scales", "midi/lib/scales.go")],
  "Symbolic notes, keys and steps."),
P("C11", "The note list has each sounding note once, with its start and end",
  "The list of notes has one entry for every NoteOn with a velocity above 0 (of a note that is not sounding already), ended by the next NoteOff (or NoteOn with velocity 0) of the same channel and note in its track, or by the end of the track. Start and end are the times of those events under the tempo changes up to them (120 BPM before the first), rounded to a millisecond, and the note is transposed as asked, limited to 0 and 127.",
  ["inputs", "histories"], "every sequence of notes and tempo changes, every division and transposition",
  "One test extracts the notes of one file with one tempo.",
  ["ops/notes/notes.go"], [("tempo map and timestamps", "ops/notes/notes.go"), ("note pairing", "ops/notes/notes.go")],
  "Sequences of note and tempo events with symbolic channels, notes, ticks and tempi against an independent reference."),
P("C12", "Validation reports exactly the documented problems",
  "Validating a file reports a problem for, and only for: a format 0 file without exactly one track; an event of a format 1 file in the wrong track (other than tempo, time signature, track name, SMPTE offset, copyright or end of track in the first track; tempo or SMPTE offset in a later one); a track with no end of track event or with events after it; a bank select MSB followed by anything but the LSB of the same channel, or such an LSB preceded by anything but the MSB of its channel. A report has the number of the track and the name (and position, if it has one) of the event. It never panics and never changes the file. The commands that read a MIDI file warn about each problem on standard error, and go on.",
  ["inputs"], "every decoded file",
  "The tests validate a few hand-made files.",
  ["midi/smf.go", "midi/events/event.go"], [("Validate", "midi/smf.go")],
  "Sequences of events of all kinds; number and subject of the reported problems against an independent reference."),
P("C13", "Note names identify the note and follow the key signature",
  "A note's name is its pitch class and octave, with flats after a key signature with flats and sharps otherwise; reading a note name back gives the same note, and names outside the MIDI range are rejected. A NoteOff is named as the NoteOn it ends, even if the key signature changed in between.",
  ["inputs", "histories", "configurations"], "every note, every history of key signatures and notes, both middle C conventions",
  "The tests format a few notes.",
  ["midi/context/context.go", "midi/events/midi/midievent.go", "midi/events/midi/note_on.go", "midi/events/midi/note_off.go", MTRK], [("FormatNote, GetNoteOff, PutNoteOn", "midi/context/context.go"), ("ParseNote", "midi/events/midi/note_on.go")],
  "All 128 notes, both conventions, short histories."),
P("C14", "A program change carries the bank selected on its channel",
  "The bank of a decoded ProgramChange is the 14-bit value made of the latest bank select MSB (controller 0) and LSB (controller 32) values on the same channel of the same track, 0 where there was none.",
  ["inputs", "histories"], "every history of controllers and program changes",
  "One test has one bank select.",
  [MTRK, "midi/events/midi/program_change.go"], [("ProgramBank", MTRK)],
  "Sequences of symbolic controllers and a program change."),
P("C15", "Assembling any JSON or text ends with a valid file or an error",
  "Assembling any JSON or text input terminates and returns either a MIDI file that the decoder accepts or an error, and never panics. A field value that does not fit the MIDI encoding is an error and is never truncated to another value.",
  ["inputs"], "every JSON or text source: missing, malformed and out of range fields, arbitrary numbers and strings",
  "The tests assemble well-formed sources.",
  ["ops/assemble/json.go", "ops/assemble/text.go", "midi/events/json.go", "midi/events/text.go"] + EV, [("UnmarshalJSON and UnmarshalText of each event", "midi/events"), ("assemblers", "ops/assemble")],
  "Sources for every event kind with symbolic numbers and with fields missing."),
P("C16", "Decoding depends on the bytes only, and read errors are reported",
  "The result of decoding does not depend on how the reader splits the bytes. If the reader fails, or a track ends in the middle of an event, or a chunk is shorter than its length field says, decoding returns an error instead of a shortened file.",
  ["inputs", "fault_sequences"], "every way to split a file into reads; every point of failure and of truncation",
  "The tests decode from memory.",
  [DEC, MTRK], [("chunker", DEC), ("truncation in parse", MTRK)],
  "Symbolic split and failure points of symbolic files."),
P("C17", "The file header is decoded exactly and unknown chunks are skipped",
  "Format, number of tracks and division (pulses per quarter note, or SMPTE frame rate and sub-frames) are decoded from the MThd chunk as specified and invalid headers are rejected. Chunks other than MTrk after the header are skipped, and a file whose number of MTrk chunks differs from the header is rejected. A header made from its values has the same division as the one decoded from its bytes.",
  ["inputs"], "every header; every arrangement of chunks",
  "The tests decode a few headers.",
  [MTHD, DEC], [("MThd.UnmarshalBinary", MTHD), ("chunk loop", DEC)],
  "Every 6 byte header; arrangements of known and unknown chunks."),
P("C18", "The TSV export has one row per event with its values",
  "The TSV export has, for each track, one row per event in order, with the event's tick, delta time, tag, channel, note, velocity and details in the columns of its track, under a header row. Rows past the end of a shorter track are empty.",
  ["inputs"], "every file: all event kinds and values, tracks of different lengths",
  "One test exports one file.",
  ["commands/tsv.go"], [("export and fields", "commands/tsv.go")],
  "Files of symbolic events written through the real command to a virtual file."),
P("C19", "The bytes shown for the events are the bytes of the track",
  "The bytes recorded for the events of a decoded track, one after the other, are exactly the contents of its MTrk chunk; the header and each track record their own chunk.",
  ["inputs"], "every decodable track",
  "The tests compare the bytes of a few events.",
  [MTRK, "midi/reader.go", MTHD], [("recording reader", "midi/reader.go")],
  "Arbitrary track bytes."),
P("C20", "Tracks and files are decoded independently of each other",
  "What a track is decoded to depends on its own bytes only: running status, bank selections, key signatures, sounding notes and pending SysEx messages of other tracks and of files decoded before have no effect. Decoding does not change the bytes it was given.",
  ["inputs", "histories"], "every combination of tracks and files",
  "The tests decode single files.",
  [DEC, MTRK, "midi/context/context.go"], [("a new Context per track", DEC)],
  "Pairs of tracks, the first chosen to leave state behind."),
P("C21", "The middle C option changes note names only",
  "Choosing the other middle C convention changes the octave in every note name by one and changes no value, tick, byte or event. With either convention a disassembly assembled with the same option gives the same file back.",
  ["inputs", "configurations"], "every file, both conventions",
  "The tests use one convention per test.",
  ["midi/context/context.go", "midi/events/midi/midievent.go", "midi/events/midi/note_on.go"], [("MiddleC", "midi/context/context.go")],
  "Symbolic notes under both conventions."),
P("C22", "SysEx messages keep their packets, manufacturer and terminator",
  "A complete SysEx message, the first packet of a divided one, its continuation packets and the last one, and an escape sequence are each decoded as such with exactly their data bytes. Encoding, exporting as JSON or disassembling and assembling them keeps the packets and puts the terminating F7 exactly where it was.",
  ["inputs", "histories"], "every message, every division into packets, escapes before and after",
  "The tests have one of each.",
  [MTRK, "midi/events/sysex/message.go", "midi/events/sysex/continuation_message.go", "midi/events/sysex/escape_message.go", "ops/assemble/assemble.go"], [("Casio flag of the context", MTRK), ("fixups", "ops/assemble/assemble.go")],
  "Messages of symbolic bytes in up to the stated number of packets."),
P("C23", "Key signatures have the right name, and scales the right notes",
  "Each of the 30 key signatures is decoded to the name of its key, every other pair of bytes is rejected, and its name assembles to the same key signature. Each scale has the seven notes of its mode from its tonic, spelled with its accidentals.",
  ["inputs"], "every key signature",
  "The tests check a few keys.",
  ["midi/events/meta/key_signature.go", "midi/lib/scales.go"], [("MajorScale, MinorScale", "midi/lib/scales.go"), ("KeySignature", "midi/events/meta/key_signature.go")],
  "All accidentals and modes."),
P("C24", "Looking up a manufacturer or controller never changes its number",
  "The manufacturer found for an ID has that ID, known or not, and looking a known manufacturer's name up gives its ID. The controller found for a number has that number. A manufacturer loaded from a configuration is found with its ID, region and name, and the others stay as they were.",
  ["inputs"], "every 1 and 3 byte ID; every controller number",
  "The tests look a few up.",
  ["midi/lib/manufacturer.go", "midi/lib/controller.go"], [("LookupManufacturer, FindManufacturer", "midi/lib/manufacturer.go"), ("LookupController", "midi/lib/controller.go")],
  "Every ID and number (no bound)."),
P("C25", "A disassembly shows every event with its bytes, tick and values",
  "A disassembly has a line for the header, a line for each track and a line for each event in order, which shows the event's tick, delta time, tag and all its values, and its bytes (shortened with an ellipsis if they do not fit).",
  ["inputs"], "every decoded file: all event kinds and values",
  "One test compares one disassembly.",
  ["ops/disassemble/disassemble.go", "ops/disassemble/template"], [("templates", "ops/disassemble/template")],
  "All event kinds with symbolic values through the real templates (model of text/template)."),
P("C26", "A JSON export states every event's values",
  "The JSON export of a file has the header's values and, for every track and event in order, an object with the event's tag, delta time, status and values; it is valid JSON.",
  ["inputs"], "every decoded file: all event kinds and values",
  "One test compares one export.",
  ["ops/export/export.go"] + EV, [("MarshalJSON of each event", "midi/events")],
  "All event kinds with symbolic values (model of encoding/json)."),
P("C27", "Commands write exactly the result to the output file, or fail",
  "Each command reads the named MIDI file, leaves it unchanged and writes to the output file exactly what the operation produces; splitting writes one file for the header and one per track. If the input is missing or invalid, or the output cannot be written, the command returns an error.",
  ["inputs", "faults"], "every input file and every combination of options, and outputs that fail",
  "Only the TSV export is tested, without its files.",
  ["commands/command.go", "commands/disassemble.go", "commands/assemble.go", "commands/export.go", "commands/notes.go", "commands/transpose.go", "commands/tsv.go"], [("Execute of each command", "commands")],
  "Commands run on a virtual file system with symbolic files."),
P("C28", "A tempo change affects only the times after it",
  "Changing the tempo of a tempo event (of the first track) does not change the start or end time of anything at or before its tick, in any track; it changes later times in all tracks alike, whether the notes are in the track of the tempo event or in another one. Repeating the current tempo, or another event in between, changes nothing, and a note that ends at its own tick has no duration.",
  ["inputs", "histories"], "every sequence of notes and tempo changes",
  "One test has one tempo.",
  ["ops/notes/notes.go"], [("timestamps", "ops/notes/notes.go")],
  "Symbolic ticks and tempi within the stated widths."),
P("C29", "Transposing up and back down restores the file",
  "Transposing a file by n semitones and the result by -n gives the original notes as long as no note was limited, and key signatures equivalent to the original ones; transposing by 0 changes no note value, and by 12 keeps every key.",
  ["inputs"], "every file and every number of semitones",
  "One test transposes one note by one semitone.",
  ["ops/transpose/transpose.go", "midi/lib/scales.go"], [("Transpose", "ops/transpose/transpose.go")],
  "Symbolic notes, keys and steps."),
P("C30", "The click track has one click per beat",
  "The click track has a click on every beat of every bar under the time signatures of the file.",
  ["inputs"], "every sequence of time signatures",
  "There is no test.",
  ["ops/click/click.go"], [("click", "ops/click/click.go")], ""),
P("C31", "One event's bytes read to the event they are, and it writes them again",
  "Reading the bytes of one event (delta, status, data) by itself gives the event of its kind with the values and delta of the bytes, and writing it gives the same bytes again. Reading anything else (another kind of event, part of an event, arbitrary bytes) returns an error or an event that can be written and read again; it never panics.",
  ["inputs"], "every byte string given to the UnmarshalBinary of each event and of the general event",
  "The tests read one or two valid events of each kind.",
  EV, [("UnmarshalBinary, MarshalBinary of each event", "midi/events")],
  "All event kinds with symbolic values; arbitrary bytes up to the stated length."),
P("C32", "User templates replace exactly the parts of a disassembly they name",
  "A JSON file of templates given to disassemble replaces the templates it names and no others: a replaced template shows exactly the values of the events it is for, everything else is as before, and a file that is not such JSON, or a template that cannot be parsed or executed, is an error.",
  ["inputs"], "every template file over the documented template names, every event",
  "There is no test with user templates.",
  ["ops/disassemble/disassemble.go", "commands/disassemble.go"], [("LoadTemplates, Print", "ops/disassemble/disassemble.go"), ("--templates", "commands/disassemble.go")],
  "A list of template files, symbolic events (model of text/template)."),
P("C33", "The program runs the named command and its exit status says if it worked",
  "The midiasm program runs the command its first argument names with the options that follow, or disassembles if that is not a command; it writes what that command writes, to the output file or to standard output, under the middle C convention the C4 option says. It ends with status 0 if and only if the command succeeds; help and version show what they are for.",
  ["inputs", "faults"], "every command line and every input file",
  "The program itself has no test.",
  ["cmd/midiasm/main.go", "commands/command.go", "cmd/midiasm/help.go"], [("main, parse", "cmd/midiasm/main.go")],
  "A list of command lines, symbolic input files on a virtual file system."),
P("C34", "One event's JSON or line reads to the event it states",
  "Reading the JSON of one event, or its line of a disassembly, by itself gives the event of its kind with the values and delta time it states. Reading the JSON or the line of an event of another kind, or anything else, is an error or an event of the kind read that can be written; it never panics.",
  ["inputs"], "every JSON object and every line given to the UnmarshalJSON and UnmarshalText of each event and of the general event",
  "The tests read one or two valid events of each kind.",
  EV, [("UnmarshalJSON, UnmarshalText of each event", "midi/events"), ("UnmarshalText of any event", "midi/events/text.go"), ("UnmarshalJSON of any event", "midi/events/json.go")],
  "All event kinds with symbolic values; arbitrary bytes up to the stated length."),
P("C35", "Basic values read back from what they print, and from nothing else",
  "Channels, delta times, byte strings, tags, notes, manufacturers and the middle C convention are printed and exported as their values, and read from that as the same value; status bytes and types are printed as their digits. Text or JSON that is not such a value (out of range, not digits, another name) is an error.",
  ["inputs"], "every value of each type; every text up to the stated length",
  "The tests read and print a few values.",
  ["midi/lib/channel.go", "midi/lib/delta.go", "midi/lib/hex.go", "midi/lib/tag.go", "midi/lib/note.go", "midi/lib/middlec.go", "midi/lib/status.go", "midi/lib/event.go", "midi/lib/manufacturer.go"], [("String, Parse, MarshalJSON, UnmarshalJSON, UnmarshalText of each type", "midi/lib")],
  "Every value; arbitrary texts of up to 3 bytes."),
]
