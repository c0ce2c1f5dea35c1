package h

import (
	"verif/harness/nd"

	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
)

// bankAfter decodes controllers (channel, number, value) and a program change and
// checks its bank.
func bankAfter(n int) {
	var evs []ev
	ch, program := upto(15), data7()
	msb, lsb := 0, 0
	for i := 0; i < n; i++ {
		e := genEvent(kController, smallDelta(), 0, nil)
		evs = append(evs, e)
		mine := e.nums[0] == uint64(ch)
		msb = nd.Ite(nd.And(mine, e.nums[1] == 0), int(e.nums[2]), msb)
		lsb = nd.Ite(nd.And(mine, e.nums[1] == 32), int(e.nums[2]), lsb)
	}
	evs = append(evs, ev{kind: kProgramChange, wire: []byte{0xc0 | ch, program}}, eot(0))
	t := mustDecode(file1(evs...)).Tracks[0]
	p, ok := t.Events[n].Event.(midievent.ProgramChange)
	nd.Assert(ok, "a program change is decoded")
	nd.Assert(nd.And(int(p.Bank) == msb<<7|lsb, byte(p.Channel) == ch, byte(p.Program) == program), "the bank is that of the latest bank selects of the channel")
	nd.Observe("bank", int(p.Bank))
	nd.Reach("end")
}

// C14_Controllers: 0 to 2 (thorough: 3) controllers with arbitrary channels, numbers and values, then a program change on any channel.
func C14_Controllers() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	bankAfter(nd.Choose(n))
}

// C14_Selects: 3 (thorough: 4) bank selects, MSB or LSB, on any channels, other events between them, then a program change on each of two channels.
func C14_Selects() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	var evs []ev
	c, d := upto(15), upto(15)
	bank := []int{0, 0}
	for i := 0; i < n; i++ {
		ch, v, lsb := upto(15), data7(), nd.Choose(2)
		evs = append(evs, ev{kind: kController, wire: []byte{0xb0 | ch, byte(32 * lsb), v}})
		for k, x := range []byte{c, d} {
			nv := bank[k]&0x7f | int(v)<<7
			if lsb == 1 {
				nv = bank[k]&0x3f80 | int(v)
			}
			bank[k] = nd.Ite(ch == x, nv, bank[k])
		}
	}
	mid := nd.Choose(4)
	evs = append(evs, ev{kind: kProgramChange, wire: []byte{0xc0 | c, data7()}})
	switch mid {
	case 1:
		evs = append(evs, genEvent(kNoteOn, 0, 0, nil))
	case 2:
		evs = append(evs, genEvent(kText, 0, 1, nd.Byte))
	case 3:
		evs = append(evs, genEvent(kEscape, 0, 1, nd.Byte))
	}
	evs = append(evs, ev{kind: kProgramChange, wire: []byte{0xc0 | d, data7()}}, eot(0))
	t := mustDecode(file1(evs...)).Tracks[0]
	p, ok := t.Events[n].Event.(midievent.ProgramChange)
	q, ok2 := t.Events[len(evs)-2].Event.(midievent.ProgramChange)
	nd.Assert(nd.And(ok, ok2), "a program change is decoded")
	nd.Assert(int(p.Bank) == bank[0], "the bank is that of the latest bank selects of the channel")
	nd.Assert(int(q.Bank) == bank[1], "a program change does not change the selected bank")
	nd.Reach("end")
}

// C14_Tracks: bank selects in one track do not affect another one.
func C14_Tracks() {
	c, v := upto(15), data7()
	a := track(ev{wire: []byte{0xb0 | c, byte(32 * nd.Choose(2)), v}}, eot(0))
	b := track(ev{wire: []byte{0xc0 | c, data7()}}, eot(0))
	smf := mustDecode(cat(header(1, 2, 96), a, b))
	p, ok := smf.Tracks[1].Events[0].Event.(midievent.ProgramChange)
	nd.Assert(ok, "a program change is decoded")
	nd.Assert(p.Bank == 0, "the bank is 0 if none was selected in the track")
	nd.Reach("end")
}

// C14_Big: bank selects with arbitrary values on all 16 channels, three rounds of them in turn, then a program change on each channel, in rising or falling order.
func C14_Big() {
	var evs []ev
	var bank [16]int
	for r := 0; r < 3; r++ {
		for c := byte(0); c < 16; c++ {
			v := data7()
			if r == 1 {
				evs = append(evs, ev{kind: kController, wire: []byte{0xb0 | c, 32, v}})
				bank[c] = bank[c]&0x3f80 | int(v)
			} else {
				evs = append(evs, ev{kind: kController, wire: []byte{0xb0 | c, 0, v}})
				bank[c] = bank[c]&0x7f | int(v)<<7
			}
		}
	}
	n := len(evs)
	falling := nd.Choose(2) == 1
	at := func(i int) int {
		if falling {
			return 15 - i
		}
		return i
	}
	for i := 0; i < 16; i++ {
		evs = append(evs, ev{kind: kProgramChange, wire: []byte{0xc0 | byte(at(i)), data7()}})
	}
	t := mustDecode(file1(append(evs, eot(0))...)).Tracks[0]
	for i := 0; i < 16; i++ {
		p, ok := t.Events[n+i].Event.(midievent.ProgramChange)
		nd.Assert(ok, "a program change is decoded")
		nd.Assert(int(p.Bank) == bank[at(i)], "the bank is that of the latest bank selects of the channel")
	}
	nd.Reach("end")
}

// C14_Others: a bank select (both halves, any values), an event of any general kind with arbitrary values that is not a controller, and a program change of the channel.
func C14_Others() {
	c, m, l := upto(15), data7(), data7()
	k := nd.Choose(nGeneral)
	if k == kController {
		nd.Stop()
	}
	evs := []ev{{wire: []byte{0xb0 | c, 0, m}}, {wire: []byte{0xb0 | c, 32, l}}, genEvent(k, 0, 1, nd.Byte), {wire: []byte{0xc0 | c, data7()}}, eot(0)}
	t := mustDecode(file1(evs...)).Tracks[0]
	p, ok := t.Events[3].Event.(midievent.ProgramChange)
	nd.Assert(ok, "a program change is decoded")
	nd.Assert(int(p.Bank) == int(m)<<7|int(l), "the bank is that of the latest bank selects of the channel")
	nd.Reach("end")
}
