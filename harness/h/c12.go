package h

import (
	"fmt"
	"os"
	"strings"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/midi"
)

// problems is the number of problems of each track, and of the file as a whole,
// under the rules of the property.
func problems(format int, tracks [][]ev) (int, []int) {
	file := 0
	if format == 0 && len(tracks) != 1 {
		file++
	}
	n := make([]int, len(tracks))
	for t, evs := range tracks {
		ended := false
		for i, e := range evs {
			if format == 1 && t == 0 {
				switch e.kind {
				case kTempo, kTimeSignature, kTrackName, kSMPTEOffset, kCopyright, kEndOfTrack:
				default:
					n[t]++
				}
			}
			if format == 1 && t > 0 && (e.kind == kTempo || e.kind == kSMPTEOffset) {
				n[t]++
			}
			if e.kind == kEndOfTrack {
				ended = true
				if i+1 < len(evs) {
					n[t]++
				}
			}
			msb := func(e ev) bool { return nd.And(e.kind == kController, e.nums[1] == 0x00) }
			lsb := func(e ev) bool { return nd.And(e.kind == kController, e.nums[1] == 0x20) }
			if e.kind == kController && i+1 < len(evs) {
				next := evs[i+1]
				if next.kind == kController {
					n[t] += nd.Ite(nd.And(msb(e), !nd.And(lsb(next), next.nums[0] == e.nums[0])), 1, 0)
				} else {
					n[t] += nd.Ite(msb(e), 1, 0)
				}
			}
			if e.kind == kController {
				if i > 0 && evs[i-1].kind == kController {
					last := evs[i-1]
					n[t] += nd.Ite(nd.And(lsb(e), !nd.And(msb(last), last.nums[0] == e.nums[0])), 1, 0)
				} else {
					n[t] += nd.Ite(lsb(e), 1, 0)
				}
			}
		}
		if !ended {
			n[t]++
		}
	}
	return file, n
}

// validates asserts that exactly the problems of the file are reported.
func validates(format int, tracks [][]ev) {
	b := header(uint16(format), uint16(len(tracks)), 96)
	for _, evs := range tracks {
		b = append(b, track(evs...)...)
	}
	smf := mustDecode(b)
	before := mustEncode(smf)
	errors := smf.Validate()
	file, n := problems(format, tracks)
	total := file
	for _, v := range n {
		total += v
	}
	nd.Assert(len(errors) == total, "as many problems are reported as there are")
	count := make([]int, len(tracks))
	other := 0
	for _, e := range errors {
		s := error(e).Error()
		mine := false
		for t := range tracks {
			if strings.Contains(s, []string{"Track 0", "Track 1", "Track 2"}[t]) {
				count[t]++
				mine = true
				named(s, tracks[t])
			}
		}
		if !mine {
			other++
		}
	}
	for t := range tracks {
		nd.Assert(count[t] == n[t], "the problems of a track are reported with its number")
	}
	nd.Assert(other == file, "problems of the file as a whole are reported as such")
	nd.Assert(nd.EqBytes(mustEncode(smf), before), "validating does not change the file")
	nd.Observe("errors", len(errors))
	nd.Reach("end")
}

// named asserts that a report about an event has the name of an event of the track, and of the one at the position it has.
func named(s string, evs []ev) {
	at := strings.Index(s, "(")
	if at < 0 {
		return
	}
	found := false
	for _, e := range evs {
		found = found || strings.HasPrefix(s[at+1:], tags[e.kind])
	}
	nd.Assert(found, "a problem of an event is reported with its name")
	if p := strings.Index(s, "@"); p >= 0 {
		n := 0
		for p++; s[p] >= '0' && s[p] <= '9'; p++ {
			n = 10*n + int(s[p]-'0')
		}
		nd.Assert(n >= 1 && n <= len(evs) && strings.HasPrefix(s[at+1:], tags[evs[n-1].kind]), "a problem of an event is reported with its position")
		if strings.Contains(s, "'Bank Select MSB'") {
			nd.Assert(evs[n-1].nums[1] == 0x00, "a problem of an MSB is reported with its position")
		}
		if strings.Contains(s, "'Bank Select LSB'") {
			nd.Assert(evs[n-1].nums[1] == 0x20, "a problem of an LSB is reported with its position")
		}
	}
}

// C12_First: files of all formats with one track of one event of any kind, with and without an EndOfTrack.
func C12_First() {
	kind := nd.Choose(nGeneral + 3)
	if kind >= kEndOfTrack {
		kind = []int{kEndOfTrack, kSysEx, kSequencerSpecific}[kind-kEndOfTrack]
	}
	next := func() byte { return 1 }
	e := genEvent(kind, 0, 1, nd.Byte)
	if kind == kSysEx || kind == kSequencerSpecific {
		nd.Assume(e.wire[len(e.wire)-2] == 1)
	}
	_ = next
	evs := []ev{e}
	if nd.Choose(2) == 1 {
		evs = append(evs, eot(0))
	}
	validates(nd.Choose(3), [][]ev{evs})
}

// C12_Second: files of all formats whose second track has one event of any general kind, with and without an EndOfTrack.
func C12_Second() {
	evs := []ev{genEvent(nd.Choose(nGeneral+1), 0, 1, nd.Byte)}
	if nd.Choose(2) == 1 {
		evs = append(evs, eot(0))
	}
	validates(nd.Choose(3), [][]ev{{eot(0)}, evs})
}

// C12_Tracks: files of all formats with 0 to 3 tracks that are empty, have an EndOfTrack, two of them, a tempo, or a note.
func C12_Tracks() {
	n := nd.Choose(4)
	var tracks [][]ev
	for i := 0; i < n; i++ {
		switch nd.Choose(5) {
		case 0:
			tracks = append(tracks, []ev{})
		case 1:
			tracks = append(tracks, []ev{eot(0)})
		case 2:
			tracks = append(tracks, []ev{eot(0), eot(0)})
		case 3:
			tracks = append(tracks, []ev{genEvent(kTempo, 0, 0, nil), eot(0)})
		case 4:
			tracks = append(tracks, []ev{genEvent(kNoteOn, 0, 0, nil), eot(0)})
		}
	}
	validates(nd.Choose(3), tracks)
}

// C12_Bank: tracks of three (thorough: four) events, controllers with arbitrary channels, numbers and values or program changes, and an EndOfTrack at any place or none.
func C12_Bank() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var evs []ev
	for i := 0; i < n; i++ {
		switch nd.Choose(3) {
		case 0:
			evs = append(evs, genEvent(kController, 0, 0, nil))
		case 1:
			evs = append(evs, genEvent(kProgramChange, 0, 0, nil))
		case 2:
			evs = append(evs, eot(0))
		}
	}
	if nd.Choose(2) == 1 {
		evs = append(evs, eot(0))
	}
	validates(0, [][]ev{evs})
}

// C12_BankSecond: the second track of a format 1 file has two controllers, with or without an event between them.
func C12_BankSecond() {
	evs := []ev{genEvent(kController, 0, 0, nil)}
	if nd.Choose(2) == 1 {
		evs = append(evs, genEvent([]int{kText, kProgramChange, kNoteOn}[nd.Choose(3)], 0, 1, nd.Byte))
	}
	evs = append(evs, genEvent(kController, 0, 0, nil), eot(0))
	validates(1, [][]ev{{eot(0)}, evs})
}

// C12_Any: any track of 4 (thorough: 6) bytes that is decoded is validated without a panic, in a file of any format.
func C12_Any() {
	n := 4
	if nd.Thorough() {
		n = 6
	}
	smf, err := decode(cat(header(uint16(nd.Choose(3)), 1, 96), chunk("MTrk", symBytes(n))))
	if err != nil {
		nd.Stop()
	}
	var _ []midi.ValidationError = smf.Validate()
	nd.Reach("end")
}

// C12_Big: a format 1 file of 40 tracks of 24 events of all general kinds with fixed values, with and without an EndOfTrack, and two controllers with arbitrary values at the end of the last track.
//
// @steps 100000000
func C12_Big() {
	var tracks [][]ev
	for i := 0; i < 40; i++ {
		var evs []ev
		for j := 0; j < nGeneral; j++ {
			evs = append(evs, fixedEvent((i*5+j*7)%nGeneral, uint32(j)))
		}
		if i%3 != 1 {
			evs = append(evs, eot(0))
		}
		tracks = append(tracks, evs)
	}
	tracks = append(tracks, []ev{genEvent(kController, 0, 0, nil), genEvent(kController, 0, 0, nil), eot(0)})
	errors := mustDecode(bigFile(tracks)).Validate()
	file, n := problems(1, tracks)
	total := file
	for _, v := range n {
		total += v
	}
	nd.Assert(len(errors) == total, "as many problems are reported as there are")
	nd.Reach("end")
}

// C12_BankTracks: a file of all formats with two tracks that have a controller with arbitrary values each, with or without an event and an EndOfTrack after it.
func C12_BankTracks() {
	var tracks [][]ev
	for i := 0; i < 2; i++ {
		evs := []ev{genEvent(kController, 0, 0, nil)}
		switch nd.Choose(3) {
		case 0:
			evs = append(evs, genEvent(kText, 0, 1, nd.Byte), eot(0))
		case 1:
			evs = append(evs, eot(0))
		}
		tracks = append(tracks, evs)
	}
	validates(nd.Choose(3), tracks)
}

// C12_Commands: disassemble, export, notes, tsv and transpose with files of all formats that have no, one or more problems (a note of any key in the first track, a tempo in the second, no EndOfTrack in either, one track too many): they write their output, and warn about each problem and nothing else on standard error.
func C12_Commands() {
	c := []cliCommand{byName[0], byName[1], byName[4], byName[5], byName[6]}[nd.Choose(5)]
	first, second := []ev{tempo(0, 400000)}, []ev{on(3, 1, 60, data7())}
	if nd.Choose(2) == 1 {
		first, second = second, first
	}
	switch nd.Choose(3) {
	case 0:
		first, second = append(first, eot(1)), append(second, eot(1))
	case 1:
		first = append(first, eot(1))
	case 2:
		second = append(second, eot(1))
	}
	b := header(uint16(nd.Choose(3)), 1, 480)
	if nd.Choose(2) == 0 {
		b = cat(b, track(first...))
	} else {
		b[11] = 2
		b = cat(b, track(first...), track(second...))
	}
	problems := mustDecode(b).Validate()
	in, out := given("in.mid", b), nd.TempDir()+"/out.x"
	path := nd.TempDir() + "/stderr"
	f, err := os.Create(path)
	nd.Assert(err == nil, "a file for standard error is created")
	was := os.Stderr
	os.Stderr = f
	err = run(c.cmd, append(append([]string{}, c.args...), "--out", out, in)...)
	os.Stderr = was
	f.Close()
	nd.Assert(err == nil, "a command goes on with a file that has problems")
	warnings, err := os.ReadFile(path)
	nd.Assert(err == nil, "standard error is read")
	for _, p := range problems {
		nd.Assert(strings.Contains(string(warnings), p.Error()), "a command warns about each problem")
	}
	n := strings.Count(string(warnings), "** ")
	nd.Assert(n == len(problems), "a command warns about nothing else")
	_, err = os.Stat(out)
	nd.Assert(err == nil, "a command writes its output for a file that has problems")
	nd.Reach("end")
}

// C12_Many: files of all formats with 2, 16, 17, 100 or 300 tracks, the last with a tempo or a note of any key and with or without an EndOfTrack.
//
// @steps 100000000
func C12_Many() {
	n := []int{2, 16, 17, 100, 300}[nd.Choose(5)]
	var tracks [][]ev
	for i := 1; i < n; i++ {
		tracks = append(tracks, []ev{eot(1)})
	}
	last := []ev{tempo(0, 400000)}
	if nd.Choose(2) == 1 {
		last = []ev{on(3, 1, 60, data7())}
	}
	if nd.Choose(2) == 1 {
		last = append(last, eot(1))
	}
	tracks = append(tracks, last)
	format := nd.Choose(3)
	b := header(uint16(format), uint16(n), 96)
	for _, evs := range tracks {
		b = append(b, track(evs...)...)
	}
	file, each := problems(format, tracks)
	errors := mustDecode(b).Validate()
	nd.Assert(len(errors) == file+each[n-1], "as many problems are reported as there are")
	mine := 0
	for _, e := range errors {
		if strings.Contains(e.Error(), fmt.Sprintf("Track %d", n-1)) {
			mine++
		}
	}
	nd.Assert(mine == each[n-1], "the problems of a track are reported with its number")
	nd.Reach("end")
}
