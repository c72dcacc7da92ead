From de7b5684b0a83ecdd26c8a9e008adeb103ee53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 01/14] fix: avoid int16 overflow when averaging stereo samples

---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From ac1d2c4377984e044110d0327e3cf11635c4c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 02/14] fix: reject crypto attributes with a key that is too
 short

---
 sdp/offer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..f4c792d 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,9 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(keys) < keyLen {
+			return nil, fmt.Errorf("crypto key is too short for %s: %d bytes", prof, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 71c2de098ce9b71c04076f0e656897222a84dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 03/14] fix: accept 8 byte MKI values in crypto attributes

---
 sdp/offer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index f4c792d..b0b1ed3 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,7 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if length < 8 && value >= uint64(1)<<(length*8) {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From 775232021aa1b27e7018f196b4fe4cc6b123b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 04/14] fix: lookup of payload type 255 must not panic

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From 4fece9413d6a176cc7a77841d7dc289e144c0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 05/14] fix: reset discontinuity flag of reused jitter buffer
 packets

---
 jitter/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From ef54aebea157f73249bda1fa4eba567a3d4ab8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 06/14] fix: drop duplicates of buffered packets in the jitter
 buffer

---
 jitter/buffer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..ab8bd3d 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -201,8 +201,8 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		}
 	}
 
-	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
-		// packet expired
+	if (b.initialized && before(pkt.SequenceNumber, b.prevSN)) || b.contains(pkt.SequenceNumber) {
+		// packet expired or duplicated
 		if !pkt.Padding {
 			b.stats.PacketsDropped++
 			if b.onPacketLoss != nil {
@@ -280,6 +280,20 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// contains checks if a packet with a given sequence number is already buffered
+func (b *Buffer) contains(sn uint16) bool {
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+		if !before(sn, c.extPacket.SequenceNumber) && withinRange(sn, c.extPacket.SequenceNumber) {
+			// all the other packets are older
+			return false
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From 4df8e99ff40b0aa0c52dc69d0c4123f262d424ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 07/14] fix: wait for missing packets after a reordering at a
 jitter buffer discontinuity

---
 jitter/buffer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ab8bd3d..33523fe 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -232,6 +232,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	case beforeHead && withinHeadRange:
 		// prepend
 		p.discont = discont && p.start
+		b.head.discont = false // now continues p
 		b.head.prev = p
 		p.next = b.head
 		b.head = p
@@ -251,6 +252,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 				p.discont = discont && p.start
 				p.prev = c
 				p.next = c.next
+				c.next.discont = false // now continues p
 				c.next.prev = p
 				c.next = p
 				return
@@ -263,6 +265,9 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 			discont = !withinRange(pkt.SequenceNumber, c.extPacket.SequenceNumber)
 			if before(pkt.SequenceNumber, c.extPacket.SequenceNumber) || discont {
 				// insert before c
+				if !discont {
+					c.discont = false // now continues p
+				}
 				p.prev = c.prev
 				p.next = c
 				c.prev.next = p
-- 
2.43.0


From fd3ad2ba5c9558e09727d96e379106e42557f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 08/14] fix: allow in-band only DTMF without an event stream

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From a267f9287068639f11b38f43da7ba4a8562e79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:01 +0000
Subject: [PATCH 09/14] fix: drain the resampler completely when closing its
 writer

A single flush call returns at most one buffer of samples. When upsampling small frames (e.g. 20 ms at 8 kHz to 48 kHz)
soxr holds more than that, so the end of the audio was lost.
---
 resample_soxr.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..3626f51 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -97,11 +97,13 @@ func (w *resampleWriter) SampleRate() int {
 func (w *resampleWriter) Close() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
-	// Flush soxr buffer to our buffer.
+	// Flush soxr buffer to our buffer. It may hold more than fits into a single call, thus repeat until it's empty.
 	var err error
-	w.buf, _, err = w.r.Resample(w.buf, nil)
-	if err != nil {
-		return err
+	for n := -1; n != 0; {
+		w.buf, n, err = w.r.Resample(w.buf, nil)
+		if err != nil {
+			return err
+		}
 	}
 	// Close soxr resampler.
 	_ = w.r.Close()
-- 
2.43.0


From 2925e546e253d049c361ed28c25ad07b71a17fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 10/14] fix: do not panic on G.722 frames with an odd number of
 samples

The encoder consumes pairs of samples at 16 kHz and read beyond the end of such a frame.
---
 g722/g722.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/g722/g722.go b/g722/g722.go
index 0030fc7..4ee8ab5 100644
--- a/g722/g722.go
+++ b/g722/g722.go
@@ -152,6 +152,10 @@ func (e *Encoder) Close() error {
 }
 
 func (e *Encoder) WriteSample(in media.PCM16Sample) error {
+	if e.f&g722.FlagSampleRate8000 == 0 && len(in)%2 != 0 {
+		// The encoder consumes pairs of samples, complete the last one.
+		in = append(in[:len(in):len(in)], in[len(in)-1])
+	}
 	sz := encodeSize(e.f, len(in))
 	if cap(e.buf) < sz {
 		e.buf = make(Sample, sz)
-- 
2.43.0


From 515c04d09fbb44cad42c33c620f0455a3f7140c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 11/14] fix: keep container timestamps exact for frame
 durations that are not whole milliseconds

Timestamps advanced by the truncated duration and fell behind with every frame (e.g. 2.5 ms Opus frames).
---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..32835ee 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -57,7 +57,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -79,8 +79,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	return err
 }
 
-- 
2.43.0


From 00b992cb4146ca76487a4c2aeb19b975a7aaf521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 12/14] fix: do not let accepted RTP headers refer to the
 session's read buffer

---
 rtp/session.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..a02c40f 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -168,6 +168,8 @@ type readStream struct {
 }
 
 func (r *readStream) write(p *rtp.Packet) {
+	// Header extensions refer to the read buffer, which is reused for the next packet.
+	p.Header = p.Header.Clone()
 	if enableZeroCopy {
 		r.mu.Lock()
 		h, payload := r.hdr, r.payload
-- 
2.43.0


From 95eefeac6393689743a28b121c038baff3cb7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 13/14] fix: keep packets of an RTP read stream whole and in
 order

---
 rtp/session.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index a02c40f..e0bd401 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -174,6 +174,10 @@ func (r *readStream) write(p *rtp.Packet) {
 		r.mu.Lock()
 		h, payload := r.hdr, r.payload
 		r.hdr, r.payload = nil, nil
+		if h == nil {
+			// Queue it before another reader can register.
+			r.enqueue(p)
+		}
 		r.mu.Unlock()
 		if h != nil {
 			// zero copy
@@ -183,9 +187,13 @@ func (r *readStream) write(p *rtp.Packet) {
 			case <-r.closed:
 			case r.copied <- n:
 			}
-			return
 		}
+		return
 	}
+	r.enqueue(p)
+}
+
+func (r *readStream) enqueue(p *rtp.Packet) {
 	p.Payload = slices.Clone(p.Payload)
 	select {
 	case r.recv <- p:
@@ -197,7 +205,8 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	direct := false
 	if enableZeroCopy {
 		r.mu.Lock()
-		if r.hdr == nil {
+		// Packets that are already in the queue come first.
+		if r.hdr == nil && len(r.recv) == 0 {
 			r.hdr = h
 			r.payload = payload
 			direct = true
@@ -224,10 +233,6 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	select {
 	case n := <-r.copied:
 		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
-		return n, nil
 	case <-r.closed:
 	}
 	return 0, io.EOF
-- 
2.43.0


From f97bce4c09942aea7096af693b324e876d2e9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 14/14] fix: recognise duplicates of buffered packets across
 discontinuities

---
 jitter/buffer.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 33523fe..7a9b6a6 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -291,10 +291,6 @@ func (b *Buffer) contains(sn uint16) bool {
 		if c.extPacket.SequenceNumber == sn {
 			return true
 		}
-		if !before(sn, c.extPacket.SequenceNumber) && withinRange(sn, c.extPacket.SequenceNumber) {
-			// all the other packets are older
-			return false
-		}
 	}
 	return false
 }
-- 
2.43.0

