HOW = {
"C01": "The harness hands arbitrary symbolic bytes to `Decode`; the assertion is that it returns exactly one of a file and an error. A panic, a step limit on one path (non-termination) or both/neither is a violation. Tests cannot sample the 256^n byte strings; the solver covers them by path.",
"C02": "Symbolic events are encoded as bytes by the generator, decoded, encoded and decoded again by the real code; both decoded files are compared field by field and encoding must not fail.",
"C03": "The generator gives, with the bytes of each event, the kind, delta, tick and values these have under the specification; the decoded event is compared with them.",
"C04": "The oracle is a 64-bit sum of the symbolic deltas, per track.",
"C05": "Two byte strings, with and without the status bytes a symbolic subset says can be left out, are decoded and the events compared; data bytes after a cancelling event must be an error.",
"C06": "An independent chunk reader walks the encoded bytes; the expected body of every event is the generator's; the destination is a writer that fails at a symbolic call or byte count.",
"C07": "Pure bit-vector reasoning with no bound on the 32-bit values: minimal length, value, bytes consumed; every proper prefix is an error.",
"C08": "Decode, export (real MarshalJSON code, model of encoding/json), assemble (real UnmarshalJSON code), decode again; events compared.",
"C09": "Decode, print (real template files from the tree, model of text/template and fmt), assemble (real regular expressions on symbolic strings), decode again; events compared.",
"C10": "Oracle: note + n limited to 0..127 in wide integers; keys: mode kept, tonic moved n semitones; everything else compared with the original.",
"C11": "Oracle: an independent reference that pairs notes per channel and computes times as the sum of ticks*tempo over the tempo changes, divided by the division once; times are compared after rounding. Products of symbolic ticks and tempi use the integer encoding.",
"C12": "Oracle: an independent list of the documented problems; number and subject of the reports are compared.",
"C13": "Oracle: name from pitch class, octave, flats and convention; histories of key signatures, NoteOns and NoteOffs on symbolic channels.",
"C14": "Oracle: the latest MSB and LSB per channel, folded over symbolic controllers.",
"C15": "JSON and text sources with symbolic numbers, strings and missing fields are assembled; what is assembled must decode, and a value outside its range must be an error.",
"C16": "A reader that returns symbolic amounts and fails at a symbolic point; the result is compared with that of one read. Truncations at every point must be errors.",
"C17": "Every 6 byte header against the specification; arrangements of MTrk and foreign chunks.",
"C18": "The real command writes to a virtual file; the rows are split with an independent reader and compared with the values.",
"C19": "The concatenation of the recorded bytes of arbitrary decodable tracks is compared with the chunk.",
"C20": "Two decodings, alone and after another symbolic track or file, compared; the input buffer compared with a copy.",
"C21": "The same file under both conventions: names differ by one octave, everything else is equal; round trips under each.",
"C22": "Symbolic packets: kind of each packet, data bytes and terminator after decoding and after each of the three round trips.",
"C23": "All 256x256 pairs of bytes; oracle by the circle of fifths; scales by intervals and spelling.",
"C24": "Every ID and number, no bound; configurations with symbolic content.",
"C25": "Lines of the disassembly against an independent formatting of header, tracks and events.",
"C26": "The exported JSON read by an independent reader; every value compared.",
"C27": "Every command on the virtual file system with symbolic input files and options: output files, unchanged input, errors with missing, invalid input and failing outputs (create, write, close where visible).",
"C28": "Two files that differ in one symbolic tempo: equal times at or before its tick, the same change in all tracks later.",
"C29": "Transposing twice through the encoder and decoder, symbolic notes and steps.",
"C31": "Generated bytes of one event, and arbitrary ones, through `UnmarshalBinary` of `events.Event` and of each event type; kind, delta and values against the generator's, `MarshalBinary` against the bytes.",
"C32": "Template files that name one or more templates, with symbolic events: the disassembly is compared, part by part, with the one under the default templates and with an independent rendering of the replaced part.",
"C33": "The main package is copied from the tree on every run into an importable package (only `os.Exit` is replaced, by a panic that carries the status) and run symbolically with each command line on the virtual file system; output compared with that of the command itself, status with the command's error.",
"C34": "Events are decoded, exported and printed by the real code; each event's own JSON or line is read by its own type, by the type of all events and by every other type. The event must be equal in the first two cases, the last must be an error.",
"C35": "Each value type directly: symbolic values printed and read again, symbolic texts and numbers read; oracle by arithmetic on the digits.",
}
