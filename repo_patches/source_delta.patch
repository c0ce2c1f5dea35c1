From af5ea3255dadc59b056439421fcd6692a08b3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 01/52] fix: return the parse error for invalid meta and MIDI
 events instead of panicking on a nil event

---
 midi/MTrk.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..c016fcd 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -136,8 +136,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 
 		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		if err != nil {
+			return nil, err
+		}
 
-		return events.NewEvent(e), err
+		return events.NewEvent(e), nil
 	}
 
 	// ... SysEx event
@@ -184,8 +187,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	}
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	if err != nil {
+		return nil, err
+	}
 
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
-- 
2.43.0


From 2e8011b97a4d41975daaad39f6bcdc6202071d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 02/52] fix: report a track that ends in the middle of an event
 instead of silently dropping the event

---
 midi/MTrk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index c016fcd..f71143f 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -50,7 +50,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	var e *events.Event = nil
 
 	for err == nil {
-		e, err = parse(r, tick, chunk.Context)
+		if _, err = r.Peek(1); err != nil {
+			break
+		}
+
+		if e, err = parse(r, tick, chunk.Context); err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+
 		if err == nil && e != nil {
 			tick += e.Delta()
 			eventlist = append(eventlist, e)
-- 
2.43.0


From 20fb275a9fd711ac7863f498ab0b3a7c2cf7ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:21 +0000
Subject: [PATCH 03/52] fix: return an error for event data shorter than its
 declared length

---
 midi/events/meta/metaevent.go | 2 ++
 midi/events/midi/midievent.go | 2 ++
 midi/events/sysex/sysex.go    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..94fe44d 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%v)", N)
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..cb60537 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%v)", N)
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..f005d3c 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%v)", N)
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From dd97c3f269f11b895d1b477f4335ebf68f2e3ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:43 +0000
Subject: [PATCH 04/52] fix: do not panic on a SysExMessage with no data after
 the manufacturer ID

---
 midi/events/sysex/message.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..60efabf 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -58,7 +58,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	manufacturer := lib.LookupManufacturer(id)
 	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -98,12 +98,14 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) == 0 {
+		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
 		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
-- 
2.43.0


From b795a0f6340e68307d8b0d2400b6d2a8844d4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:45 +0000
Subject: [PATCH 05/52] fix: return an error for a SequencerSpecificEvent
 without a complete manufacturer ID

---
 midi/events/meta/sequencer_specific.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..8cd4c31 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent length (%d): expected a manufacturer ID", len(data))
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -68,7 +72,7 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
 		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
 	} else {
 		id := data[0:1]
-- 
2.43.0


From 5bba73b547d3623cba7ba23ba37435da6537754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:46 +0000
Subject: [PATCH 06/52] fix: return an error for an out of range
 PolyphonicPressure instead of panicking

---
 midi/events/midi/polyphonic_pressure.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..78b0ac7 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -48,6 +48,10 @@ func (e *PolyphonicPressure) unmarshal(tick uint64, delta uint32, status lib.Sta
 	var channel = lib.Channel(status & 0x0f)
 	var pressure = data[0]
 
+	if pressure > 127 {
+		return fmt.Errorf("invalid pressure (%v)", pressure)
+	}
+
 	*e = MakePolyphonicPressure(tick, delta, channel, pressure, bytes...)
 
 	return nil
-- 
2.43.0


From 1946f59a3a2ab3a61cecaac00ad3c2328282fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:48 +0000
Subject: [PATCH 07/52] fix: return an error for a short SequenceNumber event
 instead of panicking

---
 midi/events/meta/sequence_number.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..8c3691e 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) < 2 {
+		return fmt.Errorf("Invalid SequenceNumber data")
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
-- 
2.43.0


From 33d73896e1c65363341186c385b5d294f9accaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:08 +0000
Subject: [PATCH 08/52] fix: do not panic validating a format 1 file without
 tracks

---
 midi/smf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
-- 
2.43.0


From 15c50d5ec3a32dd8d5760b981ac5289872fb2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:09 +0000
Subject: [PATCH 09/52] fix: accumulate event ticks in 64 bits so that long
 tracks do not wrap around

---
 midi/MTrk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index f71143f..74dc6d8 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -45,7 +45,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
@@ -59,7 +59,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 		}
 
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -109,7 +109,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -142,7 +142,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...)
 		if err != nil {
 			return nil, err
 		}
@@ -161,7 +161,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -193,7 +193,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 99aa0e4641ca2c46d91ffa8546a2f452d764b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:11 +0000
Subject: [PATCH 10/52] fix: set the continuation bit on the first byte of a
 five byte variable length quantity

---
 midi/lib/delta.go | 3 +--
 midi/lib/types.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..6961e4a 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -51,8 +51,7 @@ func (d Delta) MarshalBinary() ([]byte, error) {
 		}
 	}
 
-	buffer[1] |= 0x80
-	buffer[0] = byte(b & 0x7f)
+	buffer[0] = 0x80 | byte(b&0x7f)
 
 	return buffer, nil
 }
diff --git a/midi/lib/types.go b/midi/lib/types.go
index 1f8b8ba..fd173b0 100644
--- a/midi/lib/types.go
+++ b/midi/lib/types.go
@@ -22,8 +22,7 @@ func vlq2bin(v uint32) []byte {
 		}
 	}
 
-	buffer[1] |= 0x80
-	buffer[0] = byte(v & 0x7f)
+	buffer[0] = 0x80 | byte(v&0x7f)
 
 	return buffer
 }
-- 
2.43.0


From af66ddc7c08c13fc591e8282456eb8e881aabf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 11/52] fix: encode the length of meta event text and data as a
 variable length quantity

---
 midi/events/meta/copyright.go          |  7 +++++--
 midi/events/meta/cue_point.go          |  7 +++++--
 midi/events/meta/device_name.go        |  7 +++++--
 midi/events/meta/instrument_name.go    |  7 +++++--
 midi/events/meta/lyric.go              |  7 +++++--
 midi/events/meta/marker.go             |  7 +++++--
 midi/events/meta/program_name.go       |  7 +++++--
 midi/events/meta/sequencer_specific.go | 16 ++++++++++------
 midi/events/meta/text.go               |  7 +++++--
 9 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..630c3d2 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,15 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(e.Copyright).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Copyright)),
 	},
-		[]byte(e.Copyright)...), nil
+		encoded...), nil
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..cc7eaa4 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,15 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(e.CuePoint).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.CuePoint)),
 	},
-		[]byte(e.CuePoint)...), nil
+		encoded...), nil
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..f3a8128 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,15 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(d.Name).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(d.Status),
 		byte(d.Type),
-		byte(len(d.Name)),
 	},
-		[]byte(d.Name)...), nil
+		encoded...), nil
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..43ec890 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,15 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Name)),
 	},
-		[]byte(e.Name)...), nil
+		encoded...), nil
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..656eccb 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,15 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(l.Lyric).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(l.Status),
 		byte(l.Type),
-		byte(len(l.Lyric)),
 	},
-		[]byte(l.Lyric)...), nil
+		encoded...), nil
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..8c69a7a 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,15 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(m.Marker).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(m.Status),
 		byte(m.Type),
-		byte(len(m.Marker)),
 	},
-		[]byte(m.Marker)...), nil
+		encoded...), nil
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..006c1b4 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,15 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Name)),
 	},
-		[]byte(e.Name)...), nil
+		encoded...), nil
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 8cd4c31..d5a143a 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -50,13 +50,17 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 
 // FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
+	data := append([]byte{}, e.Manufacturer.ID...)
+	data = append(data, e.Data...)
+
+	if encoded, err = lib.VLF(data).MarshalBinary(); err != nil {
+		return nil, err
+	}
 
-	b = append(b, e.Manufacturer.ID...)
-	b = append(b, e.Data...)
+	b := append([]byte{
+		byte(e.Status),
+		byte(e.Type)},
+		encoded...)
 
 	return b, nil
 }
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..f1b8601 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,15 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
+	if encoded, err = lib.VLF(e.Text).MarshalBinary(); err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Text)),
 	},
-		[]byte(e.Text)...), nil
+		encoded...), nil
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From c05d8ebb5d4bc5c9507c9136cf5fc41898727ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:33 +0000
Subject: [PATCH 12/52] fix: encode a PitchBend as two 7 bit data bytes

---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From 0e3b2c19eaa5e058d08be4038ddf78dff5e29b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 13/52] fix: use all 7 bits of the bank select MSB and LSB

---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 74dc6d8..181548c 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -74,13 +74,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From c87f0c7c84e592b739238ae56711dfe49631e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:55 +0000
Subject: [PATCH 14/52] fix: correct the manufacturer ID for RealTime
 Extensions (7F)

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..6fc548d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -154,7 +154,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From f32ffe2c1feab6f4717118e31bb655afd14c30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:21 +0000
Subject: [PATCH 15/52] fix: keep the F7 terminator of the last
 SysExContinuation packet when decoding

---
 midi/events/sysex/continuation_message.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..f18d9e1 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -51,7 +51,9 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 	if len(data) > 0 {
 		terminator := data[len(d)-1]
 		if terminator == 0xf7 {
-			d = data[:len(d)-1]
+			*e = MakeSysExContinuationEndMessage(tick, delta, data[:len(d)-1], bytes...)
+
+			return nil
 		}
 	}
 
@@ -95,8 +97,9 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 		if len(data) > 0 {
 			terminator := data[len(d)-1]
 			if terminator == 0xf7 {
-				d = data[:len(d)-1]
-				// ctx.Casio = false
+				*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:len(d)-1], bytes...)
+
+				return nil
 			}
 		}
 
-- 
2.43.0


From 2b9908c150efd32abd1e7a95ed0a15c7082750e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:23 +0000
Subject: [PATCH 16/52] fix: do not panic assembling a track without events

---
 ops/assemble/assemble.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..2270079 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -12,6 +12,10 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
+	if len(mtrk.Events) == 0 {
+		return mtrk, nil
+	}
+
 	for ix := range mtrk.Events[1:] {
 		previous := mtrk.Events[ix]
 		event := mtrk.Events[ix+1]
-- 
2.43.0


From 332d7b373e8c6bae98b7c6cf697612d3123c655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:56 +0000
Subject: [PATCH 17/52] fix: reject TimeSignature denominators that cannot be
 encoded instead of corrupting them or looping forever

---
 midi/events/meta/time_signature.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..cba0043 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -3,6 +3,7 @@ package metaevent
 import (
 	"encoding/json"
 	"fmt"
+	"math/bits"
 	"regexp"
 	"strconv"
 
@@ -18,13 +19,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -46,6 +40,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 		return fmt.Errorf("Invalid TimeSignature length (%d): expected '4'", len(data))
 	}
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [0..7]", data[1])
+	}
+
 	numerator := data[0]
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
@@ -65,11 +63,9 @@ func (t TimeSignature) String() string {
 }
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
-	d := 0
-	denominator := uint8(1)
-	for denominator < t.Denominator {
-		denominator *= 2
-		d += 1
+	d := bits.TrailingZeros8(t.Denominator)
+	if bits.OnesCount8(t.Denominator) != 1 {
+		return nil, fmt.Errorf("Invalid TimeSignature denominator (%d): expected a power of 2", t.Denominator)
 	}
 
 	encoded = make([]byte, 7)
@@ -98,6 +94,8 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return err
 	} else if len(data) < 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
+	} else if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [0..7]", data[1])
 	} else {
 		numerator := data[0]
 		ticksPerClick := data[2]
@@ -126,6 +124,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if denominator, err := strconv.ParseUint(match[3], 10, 8); err != nil {
 		return err
+	} else if bits.OnesCount64(denominator) != 1 {
+		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a power of 2", denominator)
 	} else if ticks, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
@@ -182,6 +182,8 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if bits.OnesCount8(t.Denominator) != 1 {
+		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a power of 2", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
-- 
2.43.0


From 6e91232161c0f5243365acc73d91b03cf5ef207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:57 +0000
Subject: [PATCH 18/52] fix: accept any number of 32nd notes per quarter when
 assembling a TimeSignature from text

---
 midi/events/meta/time_signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index cba0043..f75736a 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -113,7 +113,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
-- 
2.43.0


From 61e788054994e2a924258c1bd143e9d1e3c85394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:50 +0000
Subject: [PATCH 19/52] fix: accept notes in negative octaves when assembling
 from text

---
 midi/events/midi/note_off.go | 2 +-
 midi/events/midi/note_on.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..aed03c5 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -161,7 +161,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..a820bd5 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -105,7 +105,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
-- 
2.43.0


From 8f6a2d3c08fb2d67f7aeb1dfbbc50791d4b46c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:51 +0000
Subject: [PATCH 20/52] fix: use the selected middle C when parsing a note
 name, as when formatting it

---
 midi/events/midi/note_on.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index a820bd5..e19b8f8 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -234,8 +234,14 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
 	} else {
+		value := 12*(int(octave)+1) + int(note.Ord)
+
+		if context.MiddleC == lib.C4 {
+			value += 12
+		}
+
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
-- 
2.43.0


From e2220b52957fc95bb32c36523f72723e483125a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 21/52] fix: reject note names outside the MIDI note range

---
 midi/events/midi/note_on.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index e19b8f8..474e966 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -240,6 +240,10 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 			value += 12
 		}
 
+		if value < 0 || value > 127 {
+			return Note{}, fmt.Errorf("note out of range (%v)", s)
+		}
+
 		return Note{
 			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
-- 
2.43.0


From effbdd440a9bf0fa69896f009f23b3ed2a16b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 22/52] fix: return an error for out of range JSON and text
 event fields instead of panicking

---
 midi/events/meta/key_signature.go       | 4 ++++
 midi/events/meta/smpte_offset.go        | 6 ++++++
 midi/events/midi/channel_pressure.go    | 2 ++
 midi/events/midi/note_on.go             | 2 ++
 midi/events/midi/polyphonic_pressure.go | 2 ++
 5 files changed, 16 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..c7542ac 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -212,6 +212,10 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", uint8(t.KeyType))
+	} else if t.Accidentals < -7 || t.Accidentals > 7 {
+		return fmt.Errorf("Invalid KeySignature accidentals (%d): expected a value in the interval [-7..7]", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..3cc7308 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -228,6 +228,8 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
 	} else if fractions > 100 {
 		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
+	} else if hour > 24 || minute > 59 || second > 59 || frames >= frameRate {
+		return fmt.Errorf("invalid SMPTEOffset event (%v)", string(text))
 	} else {
 		*e = MakeSMPTEOffset(0, delta, uint8(hour), uint8(minute), uint8(second), uint8(frameRate), uint8(frames), uint8(fractions), []byte{}...)
 	}
@@ -279,6 +281,10 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.FrameRate != 24 && t.FrameRate != 25 && t.FrameRate != 29 && t.FrameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%d): expected a value in the set [24,25,29,30]", t.FrameRate)
+	} else if t.Hour > 24 || t.Minute > 59 || t.Second > 59 || t.Frames >= t.FrameRate || t.FractionalFrames > 100 {
+		return fmt.Errorf("invalid %v event (%v)", lib.TagSMPTEOffset, string(bytes))
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 474e966..43d34d9 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,8 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 78b0ac7..b9930cd 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -136,6 +136,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
-- 
2.43.0


From 9751e93a03e6a286c231888bb5b0d604edb8bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 23/52] fix: reject unknown keys in a text KeySignature instead
 of assembling C major

---
 midi/events/meta/key_signature.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index c7542ac..21669be 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -154,12 +154,14 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 	} else {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
+		found := false
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
 
+		if !found {
+			return fmt.Errorf("invalid KeySignature key (%v %v)", match[2], match[3])
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
-- 
2.43.0


From 20eecc9128755764267b6ad892d8ab899f46d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:59 +0000
Subject: [PATCH 24/52] fix: reject JSON and text event values that do not fit
 the MIDI encoding instead of corrupting them

---
 midi/events/meta/tempo.go          | 4 ++++
 midi/events/midi/controller.go     | 4 ++++
 midi/events/midi/note_off.go       | 4 ++++
 midi/events/midi/note_on.go        | 2 ++
 midi/events/midi/pitch_bend.go     | 4 ++++
 midi/events/midi/program_change.go | 4 ++++
 6 files changed, 22 insertions(+)

diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..4cf5795 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -99,6 +99,8 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return err
 	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
 		return err
+	} else if tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo tempo (%v)", tempo)
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
 	}
@@ -135,6 +137,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo tempo (%v)", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..5b0ac50 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -99,6 +99,8 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if controller > 127 || value > 127 {
+		return fmt.Errorf("invalid Controller value (%v,%v)", controller, value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
@@ -139,6 +141,8 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 || t.Value > 127 {
+		return fmt.Errorf("invalid Controller value (%v,%v)", t.Controller.ID, t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index aed03c5..bfd5e04 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -220,6 +220,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 43d34d9..c62631b 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,8 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
 	} else if t.Velocity > 127 {
 		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index e3ba0b4..a976f4e 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -100,6 +100,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 0x3fff {
+		return fmt.Errorf("invalid PitchBend bend (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
@@ -136,6 +138,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 0x3fff {
+		return fmt.Errorf("invalid PitchBend bend (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..1e3666f 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -94,6 +94,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
@@ -134,6 +136,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From d98d90a690bd31779d5b6d728ca6421eaa07c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:12 +0000
Subject: [PATCH 25/52] fix: return an error for a text file with tracks but no
 MThd instead of panicking

---
 ops/assemble/text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..90e7d8f 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -47,7 +47,9 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 				break
 
 			case strings.Contains(line, "MTrk"):
-				if mtrk, err := a.parseMTrk(chunk); err != nil {
+				if smf.MThd == nil {
+					return nil, fmt.Errorf("missing MThd")
+				} else if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
 					mtrk.TrackNumber = lib.TrackNumber(len(smf.Tracks))
-- 
2.43.0


From cdc8f01388783bdd9eca6ba094313450b8d94e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:50 +0000
Subject: [PATCH 26/52] fix: use the default tempo of 120 BPM until the first
 Tempo event when extracting notes

---
 ops/notes/notes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..a09ec43 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -116,7 +116,7 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
 	at := time.Duration(0)
 
 	for i, e := range list {
-- 
2.43.0


From e560191a9bb9e4a9261009fa0ac8a7c81f36c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:51 +0000
Subject: [PATCH 27/52] fix: apply a tempo change from its own tick when it
 falls between two track events

---
 ops/notes/notes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a09ec43..313d22f 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -118,11 +118,13 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	// ... assign event timestamps
 	tempo := uint64(500000)
 	at := time.Duration(0)
+	last := uint64(0)
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
+		delta := time.Duration(1000 * (e.tick - last) * tempo / uint64(ppqn))
 		at += delta
+		last = e.tick
 
 		if dt := (uint64(delta) * tempo) % uint64(ppqn); dt > 0 {
 			warnf("%-5dµs loss of precision converting from MIDI tick to physical time at tick %d", dt, e.tick)
-- 
2.43.0


From 155c6872cd40ed994329d9fe0981d06b6a3d92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 28/52] fix: clamp transposed notes to the MIDI note range when
 extracting notes

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 313d22f..747137b 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -274,8 +274,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From 8e82849a193909a1645d418e7775e3bf5bc5849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 29/52] fix: list notes ended by EndOfTrack in a fixed order

---
 ops/notes/notes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 747137b..a5e9e84 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -234,7 +234,12 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					for k := 0; k < 256; k++ {
+						p, ok := list[uint8(k)]
+						if !ok {
+							continue
+						}
+
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
-- 
2.43.0


From 931d00d9a667613455a95d8fdf6f63d56ce10b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:54 +0000
Subject: [PATCH 30/52] fix: extract notes from single track files and do not
 panic on files without tracks

---
 ops/notes/notes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a5e9e84..f4ef3d4 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -65,7 +65,7 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	tempoMap := buildTempoMap(*smf)
 
 	// ... extract track notes
-	for _, track := range smf.Tracks[1:] {
+	for _, track := range smf.Tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
@@ -81,6 +81,10 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 func buildTempoMap(smf midi.SMF) []events.Event {
 	list := []events.Event{}
 
+	if len(smf.Tracks) == 0 {
+		return list
+	}
+
 	for _, e := range smf.Tracks[0].Events {
 		if _, ok := e.Event.(metaevent.Tempo); ok {
 			list = append(list, *e)
-- 
2.43.0


From 79159dfcfb904f298a7e437ed6792f0d1efec3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:55 +0000
Subject: [PATCH 31/52] fix: return an error instead of dividing by zero
 extracting notes from a file without a metrical division

---
 ops/notes/notes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index f4ef3d4..007fb18 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -61,6 +61,10 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("unsupported MThd division (%v) - expected ticks per quarter note", smf.MThd.Division)
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From a12f6c7aa4e56ee69bc3d20401b0bb62fa7dfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 32/52] fix: reject JSON data bytes that do not fit in a byte
 instead of truncating them

---
 midi/lib/hex.go          | 4 ++++
 midi/lib/manufacturer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..d350e27 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 0xff {
+			return fmt.Errorf("Invalid byte value (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 6fc548d..1a6c6ca 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 0x7f {
+			return fmt.Errorf("Invalid manufacturer ID (%v)", manufacturer.ID)
+		}
+
 		id = append(id, byte(b))
 	}
 
-- 
2.43.0


From 843512bb9c674d22adf2255bd2d61cc64884c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:39 +0000
Subject: [PATCH 33/52] fix: report a chunk header with a missing body instead
 of dropping the chunk

---
 encoding/midi/decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..d3dbcb9 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -90,7 +90,9 @@ func (r *chunker) next() ([]byte, error) {
 	N := binary.BigEndian.Uint32(buffer[4:])
 	chunk := make([]byte, N)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	if _, err := io.ReadFull(r.reader, chunk); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From bc73770145acd866984ae613fe78ad1c956239a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:35 +0000
Subject: [PATCH 34/52] fix: keep the region and name of manufacturers loaded
 from a configuration

---
 midi/lib/manufacturer.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 1a6c6ca..cfc6f9b 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -97,11 +97,14 @@ func FindManufacturer(s string) (Manufacturer, error) {
 }
 
 func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
+	// ... Manufacturer::UnmarshalJSON looks up the ID and discards the region and name
 	conf := struct {
-		Manufacturers []Manufacturer `json:"manufacturers"`
-	}{
-		Manufacturers: []Manufacturer{},
-	}
+		Manufacturers []struct {
+			ID     []uint `json:"id"`
+			Region string `json:"region"`
+			Name   string `json:"name"`
+		} `json:"manufacturers"`
+	}{}
 
 	bytes, err := ioutil.ReadAll(r)
 	if err != nil {
@@ -115,7 +118,16 @@ func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 
 	list := map[string]Manufacturer{}
 	for _, m := range conf.Manufacturers {
-		k, v, err := makeManufacturer(m.ID, m.Region, m.Name)
+		id := []byte{}
+		for _, b := range m.ID {
+			if b > 0x7f {
+				return nil, fmt.Errorf("Invalid manufacturer ID (%v)", m.ID)
+			}
+
+			id = append(id, byte(b))
+		}
+
+		k, v, err := makeManufacturer(id, m.Region, m.Name)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ecfe28020e5a00f7fa74fb9acce70126aa55d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:42 +0000
Subject: [PATCH 35/52] fix: assemble writes to the input file name with a
 .midi extension by default

---
 commands/assemble.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..e75b376 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,11 +69,10 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
-	if a.out != "" {
-		if err := os.WriteFile(a.out, midi, 0660); err != nil {
-			return err
-		}
+	out := a.out
+	if out == "" {
+		out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"
 	}
 
-	return nil
+	return os.WriteFile(out, midi, 0660)
 }
-- 
2.43.0


From 8d6669124cd88ef99798a9126ab636de42b31fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 36/52] fix: make the directory of split files accessible

---
 commands/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..2b2f70a 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -115,7 +115,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0770)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 01b300ff59240453cde475f6243d9424d7c57abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 37/52] fix: reject text sources with a format above 9 instead
 of taking its first digit

---
 ops/assemble/text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 90e7d8f..f8f167c 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -141,10 +141,12 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 			var format uint16
 			var division uint16
 
-			if match := regexp.MustCompile(`format:(0|1|2)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`format:([0-9]+)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing or invalid 'format' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
+			} else if v > 2 {
+				return nil, fmt.Errorf("invalid 'format' (%v) in MThd", v)
 			} else {
 				format = uint16(v)
 			}
-- 
2.43.0


From 4f55ffefc6851f9fdfdc9c284200367fa2d1048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 38/52] fix: decode the three byte manufacturer IDs of SysEx
 messages

---
 midi/events/sysex/message.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 60efabf..acbc3cd 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -54,9 +54,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
 	}
 
-	id := data[0:1]
-	manufacturer := lib.LookupManufacturer(id)
-	d := data[1:]
+	manufacturer, d := split(data)
 
 	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
@@ -67,6 +65,15 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	return nil
 }
 
+// Splits the manufacturer ID (one byte, or 00 and another two bytes) from the message data.
+func split(data []byte) (lib.Manufacturer, []byte) {
+	if len(data) > 2 && data[0] == 0x00 && data[1] < 0x80 && data[2] < 0x80 {
+		return lib.LookupManufacturer(data[0:3]), data[3:]
+	}
+
+	return lib.LookupManufacturer(data[0:1]), data[1:]
+}
+
 func (e SysExMessage) MarshalBinary() ([]byte, error) {
 	status := byte(e.Status)
 
@@ -101,9 +108,7 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 	} else if len(data) == 0 {
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
-		id := data[0:1]
-		manufacturer := lib.LookupManufacturer(id)
-		d := data[1:]
+		manufacturer, d := split(data)
 
 		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
-- 
2.43.0


From f7f71f843caba925164a927b78758aa2a185a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:59 +0000
Subject: [PATCH 39/52] fix: reject missing and invalid manufacturer IDs in
 JSON

---
 midi/events/meta/sequencer_specific.go | 2 ++
 midi/events/sysex/message.go           | 2 ++
 midi/lib/manufacturer.go               | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d5a143a..4c12f24 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -163,6 +163,8 @@ func (e *SequencerSpecificEvent) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSequencerSpecificEvent) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; len(id) == 0 || (len(id) == 1 && id[0] == 0x00) {
+		return fmt.Errorf("missing or invalid SequencerSpecificEvent manufacturer (%v)", string(bytes))
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index acbc3cd..53cd7d8 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -182,6 +182,8 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSysExMessage) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if len(t.Manufacturer.ID) == 0 {
+		return fmt.Errorf("missing SysExMessage manufacturer (%v)", string(bytes))
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index cfc6f9b..7b4f707 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -42,6 +42,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 		return err
 	}
 
+	if N := len(manufacturer.ID); N != 1 && (N != 3 || manufacturer.ID[0] != 0) {
+		return fmt.Errorf("Invalid manufacturer ID (%v)", manufacturer.ID)
+	}
+
 	id := []byte{}
 	for _, b := range manufacturer.ID {
 		if b > 0x7f {
-- 
2.43.0


From d0a9da2a4f438c06063f3f5e5e997c2690e43a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:58 +0000
Subject: [PATCH 40/52] fix: report an error if the notes list cannot be
 written

---
 ops/notes/notes.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 007fb18..184f07c 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -47,15 +47,11 @@ type event struct {
 func (x *Notes) Execute(smf *midi.SMF) error {
 	if notes, err := extract(smf, x.Transpose); err != nil {
 		return err
+	} else if x.JSON {
+		return export(notes, x.Writer)
 	} else {
-		if x.JSON {
-			export(notes, x.Writer)
-		} else {
-			print(notes, x.Writer)
-		}
+		return print(notes, x.Writer)
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -300,7 +296,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -339,8 +337,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From bc1f88502bbb97f0e0bcf51209f3edf9c1c9cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:00 +0000
Subject: [PATCH 41/52] fix: report an error if the TSV table cannot be written

---
 commands/tsv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..70706c2 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -186,7 +186,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 5ee7ebb43500d17db548fd2c49e4faf6f31262f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:02 +0000
Subject: [PATCH 42/52] fix: report an error if a split track cannot be
 disassembled to file

---
 commands/disassemble.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 2b2f70a..ad46576 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -128,12 +128,14 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		return err
 	}
 
-	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
-	}
+	err = op.Print(smf.MThd, "MThd", w)
 
 	w.Close()
 
+	if err != nil {
+		return fmt.Errorf("error extracting MThd information (%w)", err)
+	}
+
 	// Print tracks
 	for _, mtrk := range smf.Tracks {
 		filename := fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)
@@ -142,11 +144,13 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 			return err
 		}
 
-		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
-		}
+		err = op.Print(mtrk, "MTrk", w)
 
 		w.Close()
+
+		if err != nil {
+			return fmt.Errorf("error extracting MTrk%d information (%w)", mtrk.TrackNumber, err)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 58fbbd411aa00347d3ae08b78effe2510ade56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:50 +0000
Subject: [PATCH 43/52] fix: assembling a text event whose text includes the
 name of another event

---
 midi/events/text.go | 50 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..79e6cb3 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -11,7 +11,7 @@ import (
 )
 
 func (e *Event) UnmarshalText(text []byte) error {
-	s := string(text)
+	s := eventTag(string(text))
 
 	switch {
 	case strings.Contains(s, "SequenceNumber"):
@@ -99,10 +99,56 @@ func (e *Event) UnmarshalText(text []byte) error {
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
-		return fmt.Errorf("Unrecognised event (%v)", s)
+		return fmt.Errorf("Unrecognised event (%v)", string(text))
 	}
 }
 
+// Returns the first event tag in a line i.e. ignores any tag in the text of the event itself.
+func eventTag(line string) string {
+	tags := []string{
+		"SequenceNumber",
+		"Text",
+		"Copyright",
+		"TrackName",
+		"InstrumentName",
+		"Lyric",
+		"Marker",
+		"CuePoint",
+		"ProgramName",
+		"DeviceName",
+		"MIDIChannelPrefix",
+		"MIDIPort",
+		"Tempo",
+		"TimeSignature",
+		"KeySignature",
+		"SMPTEOffset",
+		"EndOfTrack",
+		"SequencerSpecificEvent",
+		"NoteOff",
+		"NoteOn",
+		"PolyphonicPressure",
+		"Controller",
+		"ProgramChange",
+		"ChannelPressure",
+		"PitchBend",
+		"SysExMessage",
+		"SysExContinuation",
+		"SysExEscape",
+	}
+
+	tag := ""
+	index := len(line)
+
+	for _, t := range tags {
+		if ix := strings.Index(line, t); ix >= 0 && ix < index {
+			tag = t
+			index = ix
+		}
+	}
+
+	return tag
+}
+
 func unmarshalText[
 	E TEvent,
 	P interface {
-- 
2.43.0


From 85616ff9b3d593ce27cc23e1936fb60d8ce6c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:51 +0000
Subject: [PATCH 44/52] fix: assembling text with an event or comment that
 includes MThd or MTrk

---
 ops/assemble/text.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index f8f167c..7a670d7 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -37,7 +37,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 			case strings.HasPrefix(line, "%%"):
 				// comment - ignore
 
-			case strings.Contains(line, "MThd"):
+			case isChunk(line, "MThd"):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,7 +46,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isChunk(line, "MTrk"):
 				if smf.MThd == nil {
 					return nil, fmt.Errorf("missing MThd")
 				} else if mtrk, err := a.parseMTrk(chunk); err != nil {
@@ -74,6 +74,14 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 	}
 }
 
+// Returns true if the line is the heading of an MThd or MTrk chunk i.e. is not a comment or an event with
+// a text that includes the tag.
+func isChunk(line string, tag string) bool {
+	ix := strings.Index(line, tag)
+
+	return ix >= 0 && !strings.HasPrefix(line, "%%") && !strings.Contains(line[:ix], ":")
+}
+
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
 	lines := make(chan string)
@@ -103,8 +111,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -113,14 +119,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isChunk(line, "MThd") {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isChunk(line, "MThd") || isChunk(line, "MTrk") {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -137,7 +143,7 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
-		if strings.Contains(line, "MThd") {
+		if isChunk(line, "MThd") {
 			var format uint16
 			var division uint16
 
@@ -199,7 +205,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	var mtrk *midi.MTrk
 
 	for line := range lines {
-		if strings.Contains(line, "MTrk") {
+		if isChunk(line, "MTrk") {
 			if v, err := midi.NewMTrk(); err != nil {
 				return nil, err
 			} else {
-- 
2.43.0


From 71604d84b94b7393b765e3177342272e10c66696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:53 +0000
Subject: [PATCH 45/52] fix: assemble divided SysEx messages with other events
 between their packets

---
 ops/assemble/assemble.go | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 2270079..e27e130 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -11,44 +11,41 @@ type Assembler interface {
 	Assemble(io.Reader) ([]byte, error)
 }
 
+// Sets the Single and End flags of the SysEx packets of a track: a packet is the last one of
+// its message unless the next SysEx event (possibly after other events) is a continuation.
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
-	if len(mtrk.Events) == 0 {
-		return mtrk, nil
-	}
-
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
+	continued := false
 
-		if message, ok := previous.Event.(*sysex.SysExMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
+	for ix := len(mtrk.Events) - 1; ix >= 0; ix-- {
+		switch message := mtrk.Events[ix].Event.(type) {
+		case *sysex.SysExMessage:
+			if !continued {
 				message.Single = true
 			}
-		}
+			continued = false
 
-		if message, ok := previous.Event.(sysex.SysExMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExMessage:
+			if !continued {
 				message.Single = true
 				mtrk.Events[ix].Event = message
 			}
-		}
-	}
-
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
+			continued = false
 
-		if message, ok := previous.Event.(*sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
+		case *sysex.SysExContinuationMessage:
+			if !continued {
 				message.End = true
 			}
-		}
+			continued = true
 
-		if message, ok := previous.Event.(sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExContinuationMessage:
+			if !continued {
 				message.End = true
 				mtrk.Events[ix].Event = message
 			}
+			continued = true
+
+		case *sysex.SysExEscapeMessage, sysex.SysExEscapeMessage:
+			continued = false
 		}
 	}
 
-- 
2.43.0


From abf3c457f06defb008bae5e26dcf63b29aeb074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:11 +0000
Subject: [PATCH 46/52] fix: assemble text with lines longer than 64 KB

---
 ops/assemble/text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 7a670d7..61a11f0 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -84,6 +85,8 @@ func isChunk(line string, tag string) bool {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32) // a long text or SysEx message is a single line
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From 868c1462eda275846a902312a8905850f9d63025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:12 +0000
Subject: [PATCH 47/52] fix: extracting the click track of a file without
 tracks

---
 ops/click/click.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..88fbd5d 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -37,6 +37,10 @@ type signature struct {
 }
 
 func (x *ClickTrack) Execute(smf *midi.SMF) error {
+	if len(smf.Tracks) == 0 {
+		return nil
+	}
+
 	clucks := map[uint]Cluck{}
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
-- 
2.43.0


From 3f65788dbbbbdf26976794dc0eb354e3475d5664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:26 +0000
Subject: [PATCH 48/52] fix: transposing a key signature by very many semitones
 down

---
 midi/lib/scales.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/scales.go b/midi/lib/scales.go
index 65aad60..8307408 100644
--- a/midi/lib/scales.go
+++ b/midi/lib/scales.go
@@ -118,7 +118,7 @@ loop:
 func transpose(note Note, steps int) Note {
 	for ix, n := range SCALE {
 		if n.Ord == note.Ord {
-			ix = (ix + steps)
+			ix = (ix + steps%len(SCALE))
 			for ix < 0 {
 				ix += 12
 			}
-- 
2.43.0


From af3b7824488d94b4d1b52e7f9b1cd9e2759cbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:29 +0000
Subject: [PATCH 49/52] fix: events between the start and the end of a note
 change its times

---
 ops/notes/notes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 184f07c..0630abc 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -123,10 +123,12 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	tempo := uint64(500000)
 	at := time.Duration(0)
 	last := uint64(0)
+	elapsed := uint64(0) // ns x PPQN
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * (e.tick - last) * tempo / uint64(ppqn))
+		elapsed += 1000 * (e.tick - last) * tempo
+		delta := time.Duration(elapsed/uint64(ppqn)) - at
 		at += delta
 		last = e.tick
 
-- 
2.43.0


From 9feba3dca5ea3a47bd40b10eab475b7b88899d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 50/52] fix: times of notes days into a slow track overflow

---
 ops/notes/notes.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 0630abc..5c280f3 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -123,12 +123,13 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	tempo := uint64(500000)
 	at := time.Duration(0)
 	last := uint64(0)
-	elapsed := uint64(0) // ns x PPQN
+	elapsed := uint64(0) // ns x PPQN, not included in 'at' yet
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
 		elapsed += 1000 * (e.tick - last) * tempo
-		delta := time.Duration(elapsed/uint64(ppqn)) - at
+		delta := time.Duration(elapsed / uint64(ppqn))
+		elapsed %= uint64(ppqn)
 		at += delta
 		last = e.tick
 
-- 
2.43.0


From abfabeb71cade986cb3b04bf432b81f1b6de66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:58 +0000
Subject: [PATCH 51/52] fix: an empty template does not replace the default one

---
 ops/disassemble/disassemble.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ops/disassemble/disassemble.go b/ops/disassemble/disassemble.go
index 687a2e2..7ef6f64 100644
--- a/ops/disassemble/disassemble.go
+++ b/ops/disassemble/disassemble.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"strings"
 	"text/template"
+	"text/template/parse"
 
 	"github.com/transcriptaze/midiasm/midi/lib"
 )
@@ -54,7 +55,13 @@ func (p *Disassemble) LoadTemplates(r io.Reader) error {
 	}
 
 	for name, t := range templates.Templates {
-		if _, err = p.root.New(name).Parse(t); err != nil {
+		tmpl, err := p.root.New(name).Parse(t)
+		if err == nil && parse.IsEmptyTree(tmpl.Root) {
+			// text/template does not replace a template with an empty one
+			_, err = p.root.New(name).Parse(t + `{{""}}`)
+		}
+
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From b5fcf2e782e9e7176ed5b950a87c08b901ca8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:04 +0000
Subject: [PATCH 52/52] fix: a header made with more than 127 sub-frames has
 them all

---
 midi/MThd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/MThd.go b/midi/MThd.go
index 645530a..d631a64 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -49,7 +49,7 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 		mthd.PPQN = division & 0x7fff
 	} else {
 		mthd.SMPTETimeCode = true
-		mthd.SubFrames = division & 0x007f
+		mthd.SubFrames = division & 0x00ff
 
 		fps := division & 0xff00 >> 8
 		switch fps {
-- 
2.43.0

