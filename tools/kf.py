import json,subprocess
fixed="""af5ea32 C01 a malformed event panicked instead of giving an error
2e8011b C16 a track truncated in the middle of an event was accepted
20fb275 C01 a length field beyond the data made the decoder panic
dd97c3f C01 a SysEx message with nothing after the manufacturer panicked
b795a0f C01 a sequencer specific event with an incomplete manufacturer ID panicked
5bba73b C01 a polyphonic pressure above 127 panicked
1946f59 C01 a short sequence number panicked
33d7389 C12 validating a format 1 file without tracks panicked
15c50d5 C04 ticks wrapped around at 32 bits
99aa0e4 C07 five byte quantities were encoded without a continuation bit
af66ddc C02 texts and data of more than 127 bytes were encoded with a one byte length
c05d8eb C02 a pitch bend was encoded as two 8-bit bytes
0e3b2c1 C14 the bank was put together from 8-bit bytes
c87f0c7 C24 manufacturer 7F had the ID of another
f32ffe2 C22 the terminator of the last SysEx packet was lost
2b9908c C15 assembling an empty track panicked
332d7b3 C15 time signature denominators that are not powers of two were accepted
6e91232 C09 time signatures with other than 8/32 could not be assembled
61e7880 C09 notes with negative octaves could not be assembled
8f6a2d3 C21 reading a note name ignored the middle C option
e2220b5 C13 note names outside the MIDI range were accepted
effbdd4 C15 JSON and text fields out of range panicked
9751e93 C15 an unknown key in a text key signature was accepted
20eecc9 C15 JSON and text values that do not fit the MIDI encoding were truncated
d98d90a C15 a text source with tracks but no header panicked
cdc8f01 C11 the default tempo was not 120 BPM
e560191 C11 a tempo change took effect after its own tick
155c687 C11 transposed notes of the note list wrapped around
8e82849 C11 notes ended by the end of the track were listed in random order
931d00d C11 the notes of a single track file were not listed
79159df C11 a division of 0 made the note list panic
a12f6c7 C15 JSON data bytes above 255 were truncated
843512b C16 a chunk header with no chunk after it was accepted
bc73770 C24 manufacturers loaded from a configuration lost their region and name
ecfe280 C27 assembling without --out wrote no file although the input name with .midi is documented
8d66691 C27 splitting into a new directory created it without any permissions, so that only root could write the files
01b300f C15 a text source with format 12 was assembled with format 1
4f55ffe C22 three byte manufacturer IDs of SysEx messages were decoded as manufacturer 00
f7f71f8 C15 a missing or impossible manufacturer ID in JSON was assembled to another manufacturer or to a file that cannot be decoded
d0a9da2 C27 notes (text or JSON) with an output file that cannot be written returned no error
bc1f885 C27 tsv --tabular with an output file that cannot be written returned no error
5ee7ebb C27 disassembling to split files printed but did not return an error when a file could not be written
58fbbd4 C09 a text that includes the name of an event was assembled as that event or rejected
85616ff C09 a text or comment that includes MThd or MTrk was assembled as a chunk or lost events
71604d8 C22 a divided SysEx message with other events between its packets was assembled with F7 after the wrong packets
abf3c45 C09 a disassembly with a line longer than 64 KB (a long text or SysEx message) could not be assembled
868c146 C33 click crashed on a file without tracks
3f65788 C10 transposing a file with a key signature by some 10^18 semitones down did not end
af3b782 C28 any event between the start and the end of a note (a text, a repeated tempo) could change its times by a millisecond, as the time of each event was cut to nanoseconds
9feba3d C11 the times of notes after some four of the longest delta times at the slowest tempo were wrong: the sum kept since af3b782 overflowed
abfabeb C32 a template that is empty, blank or only a comment was ignored and the default one kept
b5fcf2e C17 a header made (MakeMThd) with an SMPTE division of more than 127 sub-frames per frame had 128 less
""".splitlines()
out=[]
out.append(dict(property="C03",status="open",tag="polyphonic-pressure",msg="a two byte polyphonic pressure event is decoded",what="a polyphonic pressure event (An note pressure) is decoded as if it had one data byte; the existing tests require it"))
out.append(dict(property="C03",status="open",tag="pitch-bend",msg="the pitch bend has the value of its bytes",what="a pitch bend event (En lsb msb) is decoded with its first byte as the most significant; the existing tests require it"))
for l in fixed:
    h,p,w=l.split(" ",2)
    full=subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
    out.append(dict(property=p,status="fixed",commit=full,what=w,line="fixed: property=%s %s %s"%(p,full,w)))
open("/verif/known-findings.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
