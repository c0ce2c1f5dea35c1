package h

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/harness/nd"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/midi/lib"
)

var titles = []string{"Tick", "Delta", "Tag", "Channel", "Note", "Velocity", "Details"}

// row is what the TSV export shows for an event; plain is the bank of a program change.
func (e ev) row(tick uint64, bank int) []string {
	n := e.nums
	r := []string{fmt.Sprint(tick), fmt.Sprint(e.delta), tags[e.kind], "", "", "", ""}
	if isMIDI(e.kind) {
		r[3] = fmt.Sprint(n[0])
	}
	d := ""
	switch e.kind {
	case kNoteOn, kNoteOff:
		r[4], r[5] = fmt.Sprint(n[1]), fmt.Sprint(n[2])
		d = noteName(int(n[1]), false, false)
	case kPolyPressure, kChannelPressure, kPitchBend:
		d = fmt.Sprint(n[1])
	case kController:
		d = fmt.Sprintf("%d:%s, %d", n[1], lib.LookupController(byte(n[1])).Name, n[2])
	case kProgramChange:
		d = fmt.Sprintf("%d, %d", bank, n[1])
	case kSequenceNumber, kChannelPrefix, kPort, kTempo:
		d = fmt.Sprint(n[0])
	case kSMPTEOffset:
		d = fmt.Sprintf("offset %02d:%02d:%02d  frame rate %d:%d:%d", n[0], n[1], n[2], n[3], n[4], n[5])
	case kTimeSignature:
		d = fmt.Sprintf("%d/%d, %d ticks/click, %d 32nds/quarter", n[0], n[1], n[2], n[3])
	case kKeySignature:
		d = keyName(nd.Pick(signed(n[0])), n[1] == 1)
	case kEscape, kSysExNext, kSysExLast:
		d = hexOf(e.data)
	case kSysEx, kSysExFirst:
		m := manufacturerOf(n[1 : len(n)-1]...)
		d = fmt.Sprintf("%v:%v:%v, %v", m.ID, m.Region, m.Name, hexOf(e.data))
	case kSequencerSpecific:
		d = fmt.Sprintf("%v [%v]", manufacturerOf(n[1:]...).Name, hexOf(e.data))
	default:
		d = string(e.data)
	}
	r[6] = d
	return r
}

// table is the rows of the export: the titles and the rows of the tracks next to each other.
func table(tracks ...[]ev) [][]string {
	max := 0
	for _, t := range tracks {
		if len(t) > max {
			max = len(t)
		}
	}
	rows := make([][]string, max+1)
	for _, t := range tracks {
		rows[0] = append(rows[0], titles...)
		tick := uint64(0)
		for i := 0; i < max; i++ {
			r := make([]string, len(titles))
			if i < len(t) {
				tick += uint64(t[i].delta)
				r = t[i].row(tick, 0)
			}
			rows[i+1] = append(rows[i+1], r...)
		}
	}
	return rows
}

func joined(rows [][]string, sep string) string {
	s := ""
	for _, r := range rows {
		s += strings.Join(r, sep) + "\n"
	}
	return s
}

// exports asserts that the TSV of the file is the table, under a row of titles.
func exports(in []byte, rows [][]string, sep string, args ...string) {
	path, out := given("in.mid", in), nd.TempDir()+"/out.tsv"
	err := run(&commands.TSV, append(append([]string{}, args...), "--out", out, path)...)
	nd.Assert(err == nil, "a file is exported as TSV")
	got, want := string(written(out)), joined(rows, sep)
	// the titles of one track may come first
	first := strings.Join(titles, sep) + "\n"
	nd.Assert(nd.Or(nd.EqStr(got, want), nd.EqStr(got, first+want)), "the TSV has one row per event with its values")
	nd.Reach("end")
}

// C18_Event: one event of each general kind but texts with arbitrary values, escapes of 2 bytes; one byte delta times.
func C18_Event() {
	kind := nd.Choose(nGeneral)
	if isText(kind) {
		nd.Stop()
	}
	evs := []ev{genEvent(kind, 0, 2, nd.Byte), eot(0)}
	exports(file1(evs...), table(evs), "\t")
}

// C18_Text: texts of 0 to 3 letters, digits and the like, of every kind.
func C18_Text() {
	evs := []ev{genEvent(kText+nd.Choose(kDeviceName-kText+1), 0, nd.Choose(4), func() byte {
		b := printable()
		nd.Assume(b != ' ')
		return b
	}), eot(0)}
	exports(file1(evs...), table(evs), "\t")
}

// C18_Delta: delta times of any value below 2^14 and some greater ones; ticks add up.
func C18_Delta() {
	d := nd.U32() & 0x3fff
	if nd.Choose(2) == 1 {
		d = []uint32{1 << 14, 99999, 1<<28 - 1}[nd.Choose(3)]
	}
	evs := []ev{on(d, 1, 60, 64), on(7, 1, 61, 1), off(d, 1, 60, 64), eot(3)}
	if d >= 1<<14 {
		exports(file1(evs...), table(evs), "\t")
		return
	}
	evs = []ev{on(3, 1, 60, 64), on(d, 1, 61, 1), eot(0)}
	exports(file1(evs...), table(evs), "\t")
}

// C18_Ticks: 9, 17 or 33 events with the largest delta time, the last of an arbitrary velocity: ticks above 2^31, 2^32 and 2^33.
func C18_Ticks() {
	var evs []ev
	n := []int{9, 17, 33}[nd.Choose(3)]
	for i := 1; i < n; i++ {
		evs = append(evs, on(1<<28-1, 1, byte(i), 64))
	}
	evs = append(evs, on(1<<28-1, 1, 100, data7()), eot(5))
	exports(file1(evs...), table(evs), "\t")
}

// C18_Long: a text, an escape, a sequencer specific event or a SysEx message in one or three packets, of 8 to 200 bytes, the last of which is any letter or digit.
func C18_Long() {
	evs := append(longEvents(true), eot(0))
	exports(file1(evs...), table(evs), "\t")
}

// C18_Manufacturer: SysEx messages in one and in two packets and sequencer specific events of any manufacturer, 1 arbitrary data byte.
func C18_Manufacturer() {
	var evs []ev
	switch nd.Choose(3) {
	case 0:
		evs = []ev{genEvent(kSysEx, 0, 1, sevenBit), eot(0)}
	case 1:
		evs = append(yamaha(message(2, 1)), eot(0))
	case 2:
		evs = []ev{genEvent(kSequencerSpecific, 0, 1, nd.Byte), eot(0)}
	}
	exports(file1(evs...), table(evs), "\t")
}

// C18_Pair: two events of any general kinds with fixed values.
func C18_Pair() {
	a, b := fixedEvent(nd.Choose(nGeneral), 3), fixedEvent(nd.Choose(nGeneral), 200)
	if a.kind == kKeySignature || a.kind == kController {
		nd.Stop()
	}
	evs := []ev{a, b, eot(7)}
	exports(file1(evs...), table(evs), "\t")
}

// C18_Tracks: one to three tracks of one to three events each; the last has an arbitrary program.
func C18_Tracks() {
	n := 1 + nd.Choose(3)
	in := header(1, uint16(n), 96)
	var all [][]ev
	for i := 0; i < n; i++ {
		evs := []ev{}
		for j, k := 0, nd.Choose(3); j < k; j++ {
			evs = append(evs, on(uint32(10*i+j), byte(i), byte(60+j), byte(i+1)))
		}
		if i == n-1 {
			p := data7()
			evs = append(evs, ev{kind: kProgramChange, delta: 2, wire: []byte{0xc1, p}, nums: []uint64{1, uint64(p)}})
		}
		evs = append(evs, eot(uint32(i)))
		all = append(all, evs)
		in = append(in, track(evs...)...)
	}
	exports(in, table(all...), "\t")
}

// C18_Empty: two or three tracks of which one or more have no events at all, the others a note of one arbitrary value; any format.
func C18_Empty() {
	n := 2 + nd.Choose(2)
	in := header(uint16(nd.Choose(3)), uint16(n), 96)
	var all [][]ev
	k := data7()
	for i := 0; i < n; i++ {
		evs := []ev{}
		if nd.Choose(2) == 1 {
			evs = []ev{on(uint32(10*i), byte(i), k, byte(i+1)), eot(uint32(i))}
		}
		all = append(all, evs)
		in = append(in, track(evs...)...)
	}
	exports(in, table(all...), "\t")
}

// C18_Bank: a program change after bank selects shows the selected bank (MSB 0, 1, 126 or 127, LSB below 8).
func C18_Bank() {
	c, m, l, p := upto(15), data7(), data7(), data7()
	cc := func(id, v byte) ev {
		return ev{kind: kController, wire: []byte{0xb0 | c, id, v}, nums: []uint64{uint64(c), uint64(id), uint64(v)}}
	}
	pc := ev{kind: kProgramChange, wire: []byte{0xc0 | c, p}, nums: []uint64{uint64(c), uint64(p)}}
	evs := []ev{cc(0, m), cc(32, l), pc, eot(0)}
	nd.Assume(nd.And(nd.Or(m < 2, m > 125), l < 8))
	rows := table(evs)
	rows[3] = pc.row(0, int(m)<<7|int(l))
	exports(file1(evs...), rows, "\t")
}

// C18_Delimiter: other delimiters: semicolon, bar, characters of 2 and 3 bytes, a blank, and \t.
func C18_Delimiter() {
	evs := []ev{genEvent(kNoteOn, 3, 0, nil), genEvent(kTempo, 1, 0, nil), eot(0)}
	d := []string{";", "|", `\t`, "é", "→", " "}[nd.Choose(6)]
	sep := d
	if d == `\t` {
		sep = "\t"
	}
	exports(file1(evs...), table(evs), sep, "--delimiter", d)
}

// padded is the table with blanks after the values, up to the width of the widest one.
func padded(rows [][]string, measure func(string) int) string {
	width := make([]int, len(rows[0]))
	for _, r := range rows {
		for i, f := range r {
			width[i] = max(width[i], measure(f))
		}
	}
	for _, r := range rows {
		for i := range r {
			r[i] += strings.Repeat(" ", width[i]-utf8.RuneCountInString(r[i]))
		}
	}
	return joined(rows, "  ")
}

// C18_Tabular: the table in columns padded with blanks to the width of the longest value, for notes of arbitrary values and a text.
func C18_Tabular() {
	evs := []ev{genEvent(kNoteOn, 3, 0, nil), fixedEvent(kText, 120), eot(9)}
	in := file1(evs...)
	path, out := given("in.mid", in), nd.TempDir()+"/out.tsv"
	nd.Assert(run(&commands.TSV, "--tabular", "--out", out, path) == nil, "a file is exported as a table")
	got := string(written(out))
	// the width of a value in characters or in bytes
	nd.Assert(nd.Or(nd.EqStr(got, padded(table(evs), utf8.RuneCountInString)), nd.EqStr(got, padded(table(evs), func(s string) int { return len(s) }))), "the table has one row per event with its values")
	nd.Reach("end")
}

// C18_Quoted: texts of one arbitrary ASCII character: those with delimiters, quotes and line ends are quoted.
func C18_Quoted() {
	c := data7()
	t := genEvent(kText, 0, 2, func() byte { return 'a' })
	t.wire[4], t.data[1] = c, c
	evs := []ev{t, eot(0)}
	rows := table(evs)
	if nd.Or(c == '\t', c == '\n', c == '\r', c == '"') {
		q := "a" + string(rune(c))
		if c == '"' {
			q += `"`
		}
		rows[1][6] = `"` + q + `"`
	}
	exports(file1(evs...), rows, "\t")
}

// C18_Big: files of 40 tracks and of a track of 200 events, fixed but for an arbitrary program in the last event.
//
// @steps 100000000
func C18_Big() {
	p := genEvent(kProgramChange, 0, 0, nil)
	nd.Assume(p.nums[0] == 5)
	all := bigTracks(nd.Choose(2), 40, 200, 0, []ev{p, eot(0)})
	for i := range all {
		for j, e := range all[i] {
			if e.kind == kKeySignature || e.kind == kController { // they change the names and banks of later events
				all[i][j] = fixedEvent(kMarker, e.delta)
			}
		}
	}
	exports(bigFile(all), table(all...), "\t")
}

// C18_TabularLong: a table with texts of 5, 20, 31 to 33, 70 or 300 characters, of which the last is an arbitrary digit or letter, and a note.
func C18_TabularLong() {
	n := []int{5, 20, 31, 32, 33, 70, 300}[nd.Choose(7)]
	i := 0
	t := genEvent(kText, 3, n, func() byte {
		i++
		if i == n {
			c := nd.Byte()
			nd.Assume(nd.Or(nd.And(c >= '0', c <= '9'), nd.And(c >= 'a', c <= 'z')))
			return c
		}
		return byte('a' + i%26)
	})
	evs := []ev{on(1, 2, 60, 64), t, eot(100000)}
	path, out := given("in.mid", file1(evs...)), nd.TempDir()+"/out.tsv"
	nd.Assert(run(&commands.TSV, "--tabular", "--out", out, path) == nil, "a file is exported as a table")
	got := string(written(out))
	nd.Assert(nd.Or(nd.EqStr(got, padded(table(evs), utf8.RuneCountInString)), nd.EqStr(got, padded(table(evs), func(s string) int { return len(s) }))), "the table has one row per event with its values")
	nd.Reach("end")
}

// C18_Track: a track of 600 events, notes and texts, the last note of any velocity above 0.
//
// @steps 100000000
func C18_Track() {
	evs := longTrack()
	exports(file1(evs...), table(evs), "\t")
}
