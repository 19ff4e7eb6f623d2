From 4ef6ff991e8d87288b4d099feb38a652ef582c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 01/34] fix: keep callbacks and SDP offer set on the mediasoup
 WebRTC session

The setters had value receivers, so what they stored was lost with the
copy and every mediasoup start failed in validateInitParams.
---
 internal/webrtc/webrtc.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..38c00f5 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,7 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 328046dca2d464796e367c7dbc7c3b78566dcb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 02/34] fix: track jitter buffer start explicitly and guard it
 against concurrent use

A stream starting at sequence number 0 re-initialised the buffer's start with
the next packet, and the NACK goroutine skips packets while the reader adds them.
---
 internal/webrtc/utils/jitter_buffer.go | 42 +++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..fb112b8 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -3,11 +3,14 @@ package utils
 import (
 	"context"
 	"github.com/pion/rtp"
+	"sync"
 	"time"
 	log "github.com/sirupsen/logrus"
 )
 
 type JitterBuffer struct {
+	m                    sync.Mutex
+	started              bool
 	nextStart            int64
 	end                  int64
 	packets              []*rtp.Packet
@@ -15,6 +18,7 @@ type JitterBuffer struct {
 	missingPacketTimers  map[int64]time.Time
 	packetTimeout        time.Duration
 	lastSkippedSeq       int64
+	hasSkippedSeq        bool
 	ctx                  context.Context
 }
 
@@ -37,6 +41,9 @@ func NewJitterBuffer(
 }
 
 func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if s.end-seq >= s.size {
 		log.WithField("session", s.ctx.Value("session")).
 			Warnf("Jitter buffer overflow: seq=%d, end=%d, size=%d", seq, s.end, s.size)
@@ -49,10 +56,11 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		return false
 	}
 
-	if s.nextStart == 0 {
+	if !s.started {
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("First packet in jitter buffer: seq=%d", seq)
 		s.nextStart = seq
+		s.started = true
 	}
 
 	if seq > s.end {
@@ -87,6 +95,13 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 }
 
 func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.nextPackets()
+}
+
+func (s *JitterBuffer) nextPackets() ([]*rtp.Packet, bool) {
 	skippedPacket := false
 
 	if s.nextStart > s.end {
@@ -113,10 +128,11 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 			Debugf("Skipping missing packet after timeout: seq=%d", s.nextStart)
 		delete(s.missingPacketTimers, s.nextStart)
 		s.lastSkippedSeq = s.nextStart
+		s.hasSkippedSeq = true
 		s.nextStart++
 		skippedPacket = true
 
-		pkts, moreSkips := s.NextPackets()
+		pkts, moreSkips := s.nextPackets()
 
 		if pkts == nil {
 			return nil, skippedPacket
@@ -151,15 +167,26 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 
 // SkipPacket forces the jitter buffer to skip waiting for a specific sequence number
 func (s *JitterBuffer) SkipPacket(seq int64) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if seq == s.nextStart {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
-				s.SetNextPacketsStart(seq + 1)
+				s.hasSkippedSeq = true
+				s.setNextPacketsStart(seq + 1)
 	}
 }
 
 func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	s.setNextPacketsStart(nextPacketsStart)
+}
+
+func (s *JitterBuffer) setNextPacketsStart(nextPacketsStart int64) {
 	if s.nextStart < nextPacketsStart {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Setting next packet start in jitter buffer: old=%d, new=%d", s.nextStart, nextPacketsStart)
@@ -173,16 +200,23 @@ func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
 }
 
 func (s *JitterBuffer) GetNextStart() int64 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	return s.nextStart
 }
 
 func (s *JitterBuffer) GetAndClearLastSkipped() (int64, bool) {
-	if s.lastSkippedSeq == 0 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	if !s.hasSkippedSeq {
 		return 0, false
 	}
 
 	skipped := s.lastSkippedSeq
 	s.lastSkippedSeq = 0
+	s.hasSkippedSeq = false
 
 	return skipped, true
 }
-- 
2.43.0


From 00c1e8a5bbe40914ac214fc0c2df9422622ecdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 03/34] fix: keep the receive log exact for packets outside its
 window and for its full size

A packet older than the log (late, or given up) marked the slot of a newer one,
and a full-size log on the half-range edge reported nothing missing.
---
 internal/webrtc/utils/receive_log.go | 29 +++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..2566a6e 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"errors"
 	"strconv"
+	"sync"
 )
 
 var allowedReceiveLogSizes map[uint16]bool
@@ -19,6 +20,7 @@ func init() {
 }
 
 type ReceiveLog struct {
+	m               sync.Mutex
 	packets         []uint64
 	size            uint16
 	end             uint16
@@ -38,6 +40,9 @@ func NewReceiveLog(size uint16) (*ReceiveLog, error) {
 }
 
 func (s *ReceiveLog) Add(seq uint16) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.started {
 		s.set(seq)
 		s.end = seq
@@ -65,6 +70,11 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// older than the log: its slot belongs to a newer packet by now
+			return
+		}
+
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
@@ -75,6 +85,9 @@ func (s *ReceiveLog) Add(seq uint16) {
 }
 
 func (s *ReceiveLog) Get(seq uint16) bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	diff := s.end - seq
 	if diff >= uint16SizeHalf {
 		return false
@@ -88,8 +101,11 @@ func (s *ReceiveLog) Get(seq uint16) bool {
 }
 
 func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	until := s.end - skipLastN
-	if until-s.lastConsecutive >= uint16SizeHalf {
+	if skipLastN > s.end-s.lastConsecutive {
 		// until < s.lastConsecutive (counting for rollover)
 		return nil
 	}
@@ -105,6 +121,14 @@ func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
 }
 
 func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	// Not in the log: the slot belongs to another packet
+	if !s.started || s.end-seq >= s.size {
+		return
+	}
+
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
 	s.set(seq)
@@ -117,6 +141,9 @@ func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 }
 
 func (s *ReceiveLog) GetLastConsecutive() uint16 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	return s.lastConsecutive
 }
 
-- 
2.43.0


From 1e9501c4fff731b29a285fb36049e5518e198f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 04/34] fix: give up on packets in the jitter buffer's own
 numbering

After the first wrap-around of the RTP sequence number the give-up of a
re-requested packet never matched the packet being waited for.
---
 internal/webrtc/webrtc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 38c00f5..fd24981 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -255,7 +255,9 @@ func (w *WebRTC) Init(
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer numbers packets without wrap-around
+								next := jb.GetNextStart()
+								jb.SkipPacket(next + int64(int16(seq-uint16(next))))
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
-- 
2.43.0


From e3fc39d655df322dd0d9f04da94991bae1fc77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 05/34] fix: flag keyframes that span several packets as
 keyframes in the WebM

The flag was taken from the frame's last packet, which never starts a keyframe.
---
 internal/webrtc/recorder/webm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..197a223 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -851,6 +851,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.packetTimestamp = p.Timestamp
 		r.pts = newPts
 
+		// The key flag is the frame's, not that of its last packet
+		isKeyFrame = r.currentFrame[0]&0x01 == 0
+
 		if isKeyFrame {
 			r.lastKeyFrameTime = time.Now()
 		}
-- 
2.43.0


From cd6f5044839140d9e05468c58c4b42a9340a4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 06/34] fix: never record a VP8 frame with parts missing, nor a
 delta frame after a lost one

A gap in the sequence numbers that was not signalled (or starts at sequence
number 0, or hides an empty packet) joined what was left of the frames around
it.  Later partitions of a frame (S=1, PID>0) started or silently ended a frame.
Picture id gaps went unnoticed right after the id 0 and across the 7 bit wrap.
---
 internal/webrtc/recorder/webm.go | 68 ++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 197a223..d1934e5 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -37,6 +37,7 @@ type VP8FrameInfo struct {
 	packets       []uint16 // seqnums packets making up this frame
 	startTime     time.Time
 	pictureID     uint16
+	hasPictureID  bool
 	isKeyFrame    bool
 	timestamp     uint32
 	size          int
@@ -83,10 +84,12 @@ type WebmRecorder struct {
 
 	// Last PictureID received in any VP8 packet, not necessarily written
 	lastPictureID    uint16
+	hasLastPictureID bool
 	lastSkippedSeq   uint16
 	skipSignaled     bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
+	hasExpectedSeq   bool
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -490,11 +493,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(p.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	if r.hasExpectedSeq && p.SequenceNumber != r.expectedNextSeq {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
@@ -505,28 +508,35 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Processing first packet after skip: seq=%d, last_skipped=%d",
 					p.SequenceNumber, r.lastSkippedSeq)
+		}
 
-			// Force treating this as a new frame start for safety
-			if r.currentFrame != nil {
-				var logMsgPkts = 0
-
-				if r.currentFrameInfo != nil {
-					logMsgPkts = len(r.currentFrameInfo.packets)
-				}
+		// Whatever is missing may belong to the frame in progress, signaled or not
+		if r.currentFrame != nil {
+			var logMsgPkts = 0
 
-				log.WithField("session", r.ctx.Value("session")).
-					Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
-				r.currentFrame = nil
-				r.currentFrameInfo = nil
+			if r.currentFrameInfo != nil {
+				logMsgPkts = len(r.currentFrameInfo.packets)
 			}
+
+			log.WithField("session", r.ctx.Value("session")).
+				Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
+			r.currentFrame = nil
+			r.currentFrameInfo = nil
+			r.hasKeyFrame = false
+			r.RequestKeyframe()
 		}
 
 		r.skipSignaled = false
 	}
 
+	r.hasExpectedSeq = true
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
+	if len(p.Payload) == 0 {
+		return
+	}
+
 	vp8Packet := codecs.VP8Packet{}
 
 	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
@@ -552,15 +562,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
 			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
 	}
 
+	// Only the start of the first partition starts a frame (RFC 7741#4.2)
+	isFrameStart := vp8Packet.S == 1 && vp8Packet.PID == 0
+
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -591,6 +599,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrameInfo = &VP8FrameInfo{
 			startSequence: p.SequenceNumber,
 			pictureID:     pictureID,
+			hasPictureID:  vp8Packet.I == 1,
 			isKeyFrame:    isKeyFrame,
 			timestamp:     p.Timestamp,
 			startTime:     r.frameStartTime,
@@ -598,11 +607,17 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		// Check for PictureID discontinuity
-		if r.lastPictureID > 0 {
-			// Picture ID should ++ and wrap around at 15 bits
-			expectedID := (r.lastPictureID + 1) & 0x7FFF
-			pidDiff := (pictureID - r.lastPictureID) & 0x7FFF
-			if pidDiff > 1 && pidDiff < 0x7000 {
+		if r.hasLastPictureID && vp8Packet.I == 1 {
+			// Picture ID should ++ and wrap around at 15 bits (7 in its short form)
+			pidMask := uint16(0x7F)
+
+			if p.Payload[2]&0x80 != 0 {
+				pidMask = 0x7FFF
+			}
+
+			expectedID := (r.lastPictureID + 1) & pidMask
+			pidDiff := (pictureID - r.lastPictureID) & pidMask
+			if pidDiff > 1 {
 				log.WithField("session", r.ctx.Value("session")).
 					Debugf("VP8 Picture ID gap detected: expected=%d, got=%d (missing %d frames), seq=%d",
 						expectedID, pictureID, pidDiff-1, p.SequenceNumber)
@@ -622,7 +637,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					r.currentFrameInfo = nil
 				}
 
-				if isKeyFrame && vp8Packet.S == 1 {
+				if isKeyFrame {
 					// This is a new keyframe after discontinuity - ACCEPT IT
 					log.WithField("session", r.ctx.Value("session")).
 						Debugf("Accepting keyframe despite PictureID discontinuity: new picID=%d, seq=%d",
@@ -695,7 +710,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
@@ -758,6 +773,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.currentFrameInfo.endSequence = p.SequenceNumber
 			r.currentFrameInfo.size = len(r.currentFrame)
 			r.lastPictureID = r.currentFrameInfo.pictureID
+			r.hasLastPictureID = r.currentFrameInfo.hasPictureID
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame complete: seq=[%d-%d], ts=%d, packets=%d, size=%d, elapsed=%v, keyframe=%v",
-- 
2.43.0


From 02e8f80d4cef33d7dd0d6aadd963c702da2b1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 07/34] fix: do not count a received keyframe as a keyframe
 request

The first loss within a second of it was never followed by a request.
---
 internal/webrtc/recorder/webm.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index d1934e5..32f3d40 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -646,11 +646,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					// Continue processing this keyframe
 					r.hasKeyFrame = true
 					r.lastKeyFrameTime = time.Now()
-
-					// Still update request state to avoid unnecessary PLIs
-					if r.lastKeyframeRequestTime.IsZero() {
-						r.lastKeyframeRequestTime = time.Now()
-					}
 				} else {
 					// For non-keyframes with discontinuity, reject and request keyframe
 					r.hasKeyFrame = false
-- 
2.43.0


From 7bcf87b7f48cd67e9724f9727b90367dd8fdde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 08/34] fix: do not reopen and truncate a running recording for
 every frame

Until the first audio packet was written each video frame opened the file anew,
dropping what was recorded, leaking the previous writers and starting with
whatever frame came next.
---
 internal/webrtc/recorder/webm.go | 54 +++++++++++++++++---------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 32f3d40..4b178de 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -54,10 +54,8 @@ type WebmRecorder struct {
 	useCustomSampler      bool
 	writeIVFCopy          bool
 
-	hasAudio      bool
-	hasVideo      bool
-	hasValidAudio bool
-	hasValidVideo bool
+	hasAudio bool
+	hasVideo bool
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
@@ -123,12 +121,10 @@ func NewWebmRecorder(
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
 		// maxFrameSize = 5MB (basically disabled for now)
-		maxFrameSize:  10 * 1024 * 1024,
-		skipSignaled:  false,
-		hasAudio:      false,
-		hasVideo:      false,
-		hasValidAudio: false,
-		hasValidVideo: false,
+		maxFrameSize: 10 * 1024 * 1024,
+		skipSignaled: false,
+		hasAudio:     false,
+		hasVideo:     false,
 	}
 
 	return r
@@ -236,22 +232,29 @@ func isSequenceInRange(seq, start, end uint16) bool {
 }
 
 // Locked
-func (r *WebmRecorder) close() time.Duration {
-	if r.closed {
-		return r.videoTimestamp
-	}
-	r.closed = true
-
+func (r *WebmRecorder) closeWriters() {
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
 			panic(err)
 		}
+		r.audioWriter = nil
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
 			panic(err)
 		}
+		r.videoWriter = nil
 	}
+}
+
+// Locked
+func (r *WebmRecorder) close() time.Duration {
+	if r.closed {
+		return r.videoTimestamp
+	}
+	r.closed = true
+	r.closeWriters()
+
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
 			Infof("webm writer closed: %s", r.file)
@@ -322,8 +325,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		}
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+			(r.audioWriter == nil && r.hasAudio)) {
 			width, height := GetVP8KFDimension(packet)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
@@ -383,7 +385,6 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Audio frame written: ts=%d, size=%d", int64(r.audioTimestamp/time.Millisecond), len(sample.Data))
-			r.hasValidAudio = true
 		}
 	}
 }
@@ -833,13 +834,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Frame duration: %v, pts=%v, new timestamp: %v, prevPacketTS: %v, newPacketTS: %v",
 			duration, newPts, r.videoTimestamp+duration, r.packetTimestamp, p.Timestamp)
 
-	// Initialize writer if either:
+	// Initialize writer on a keyframe if either:
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
+	if r.currentFrame[0]&0x01 == 0 &&
+		((r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio)) {
 
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
@@ -901,8 +900,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		if r.writeIVFCopy {
 			r.pushToIVFWriter(r.currentFrame, p)
 		}
-
-		r.hasValidVideo = true
 	}
 
 	r.currentFrame = nil
@@ -960,6 +957,11 @@ func (r *WebmRecorder) initWriter(width, height int) {
 		return
 	}
 
+	// A track was announced after the recording had started: finish what was written without it
+	if r.started {
+		r.closeWriters()
+	}
+
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-- 
2.43.0


From 60370707413dc351ef682205c96e8e2464d6e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 09/34] fix: count video time from the first recorded frame

If the first keyframe was discarded, everything recorded later was shifted
against the audio by the time until the next one.
---
 internal/webrtc/recorder/webm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 4b178de..4e399dd 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -826,6 +826,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
+	// Video time starts with the first recorded frame
+	if !r.started {
+		r.packetTimestamp = p.Timestamp
+	}
+
 	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
 	newVideoTs := r.videoTimestamp + duration
 	newPts := int64(newVideoTs / time.Millisecond)
-- 
2.43.0


From ce9db89ce0d753c8f7215dc5ac55eac8b5adcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 10/34] fix: survive storage errors while recording

Failing to open, write or close one recording's file brought the process down
and every other recording with it.
---
 internal/webrtc/recorder/webm.go | 63 +++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 4e399dd..9456440 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -235,13 +235,15 @@ func isSequenceInRange(seq, start, end uint16) bool {
 func (r *WebmRecorder) closeWriters() {
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
 		}
 		r.audioWriter = nil
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
 		}
 		r.videoWriter = nil
 	}
@@ -338,7 +340,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -380,7 +383,8 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		if r.audioWriter != nil {
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -955,6 +959,38 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 	}
 }
 
+// fileWriter stops writing at the first storage error and reports it once: the
+// block writer neither survives errors nor can it be told to stop, and what was
+// written up to there stays playable.
+type fileWriter struct {
+	file   *os.File
+	ctx    context.Context
+	failed bool
+}
+
+func (w *fileWriter) Write(b []byte) (int, error) {
+	if !w.failed {
+		if _, err := w.file.Write(b); err != nil {
+			w.failed = true
+			log.WithField("session", w.ctx.Value("session")).
+				Errorf("Error writing recording: %v", err)
+		}
+	}
+
+	return len(b), nil
+}
+
+func (w *fileWriter) Close() error {
+	err := w.file.Close()
+
+	if err != nil {
+		log.WithField("session", w.ctx.Value("session")).
+			Errorf("Error closing recording: %v", err)
+	}
+
+	return err
+}
+
 func (r *WebmRecorder) initWriter(width, height int) {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
@@ -968,10 +1004,13 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	file, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot open recording file: %v", err)
+		return
 	}
+	w := &fileWriter{file: file, ctx: r.ctx}
 
 	info := &webm.Info{
 		TimecodeScale: 1000000, // 1ms
@@ -1025,8 +1064,10 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot create block sorter: %v", err)
+		w.Close()
+		return
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
@@ -1037,8 +1078,10 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot create webm writer: %v", err)
+		w.Close()
+		return
 	}
 
 	log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From d64b8b0e738f7b46a2237fbcd9472cd65ed4244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 11/34] fix: report the audio time when an audio-only recording
 is closed

---
 internal/webrtc/recorder/webm.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 9456440..246a4c7 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -252,7 +252,7 @@ func (r *WebmRecorder) closeWriters() {
 // Locked
 func (r *WebmRecorder) close() time.Duration {
 	if r.closed {
-		return r.videoTimestamp
+		return r.mediaTimestamp()
 	}
 	r.closed = true
 	r.closeWriters()
@@ -277,7 +277,17 @@ func (r *WebmRecorder) close() time.Duration {
 		r.ivfWriter = nil
 	}
 
-	return r.videoTimestamp
+	return r.mediaTimestamp()
+}
+
+// Time of the last video frame, or of the last audio frame if there is no video
+// Locked
+func (r *WebmRecorder) mediaTimestamp() time.Duration {
+	if r.hasVideo {
+		return r.videoTimestamp
+	}
+
+	return r.audioTimestamp
 }
 
 func (r *WebmRecorder) Close() time.Duration {
-- 
2.43.0


From b2efe5846ca47b1d67acb59e418b46a6ffefe151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 12/34] fix: survive malformed VP8 payloads

---
 internal/webrtc/recorder/webm.go | 54 +++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 246a4c7..6457570 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -2,6 +2,7 @@ package recorder
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"os"
 	"sync"
@@ -116,7 +117,7 @@ func NewWebmRecorder(
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
 		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate),
+		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -464,14 +465,51 @@ func validateVP8Frame(frame []byte, frameInfo *VP8FrameInfo) (bool, string) {
 	return true, ""
 }
 
+// Parses a VP8 RTP payload, of which at least one byte must be VP8 data
+func unmarshalVP8(payload []byte) (codecs.VP8Packet, error) {
+	vp8Packet := codecs.VP8Packet{}
+
+	// The parser does not check for the second byte of a 15 bit picture ID
+	if len(payload) == 3 && payload[0]&0x80 != 0 && payload[1]&0x80 != 0 && payload[2]&0x80 != 0 {
+		return vp8Packet, errors.New("truncated VP8 payload descriptor")
+	}
+
+	if _, err := vp8Packet.Unmarshal(payload); err != nil {
+		return vp8Packet, err
+	}
+
+	if len(vp8Packet.Payload) == 0 {
+		return vp8Packet, errors.New("VP8 packet without data")
+	}
+
+	return vp8Packet, nil
+}
+
+// vp8Depacketizer keeps malformed packets away from the sample builder
+type vp8Depacketizer struct {
+	codecs.VP8Packet
+}
+
+func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
+	vp8Packet, err := unmarshalVP8(payload)
+
+	if err != nil {
+		return nil, err
+	}
+
+	d.VP8Packet = vp8Packet
+
+	return vp8Packet.Payload, nil
+}
+
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	if len(packet.Payload) == 0 {
 		return false
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return false
 	}
 
@@ -483,13 +521,13 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 		return 0, 0
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S != 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -552,9 +590,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		return
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(p.Payload)
 
-	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
+	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
 		r.hasKeyFrame = false
-- 
2.43.0


From 40cf6fa1120b11b1df8a873d0c5d54f3c6313d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 13/34] fix: record whole frames, with their own key flag and
 size, with the built-in sampler

---
 internal/webrtc/recorder/webm.go | 80 ++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 6457570..a265c13 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -69,7 +69,6 @@ type WebmRecorder struct {
 	seenKeyFrame bool
 	// Has a valid keyframe to keep recording
 	hasKeyFrame             bool
-	currKeyFrame            *rtp.Packet
 	lastKeyFrameTime        time.Time
 	keyframeRequester       KeyframeRequester
 	lastKeyframeRequestTime time.Time
@@ -97,6 +96,9 @@ type WebmRecorder struct {
 	maxFrameSize        int
 	vp8Tracker          VP8PartitionTracker
 	ivfWriter           *IVFWriter
+
+	// Whether the last packet the sample builder took ends a frame
+	lastSampleComplete bool
 }
 
 func NewWebmRecorder(
@@ -117,7 +119,6 @@ func NewWebmRecorder(
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
 		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -128,6 +129,11 @@ func NewWebmRecorder(
 		hasVideo:     false,
 	}
 
+	r.videoBuilder = samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate,
+		samplebuilder.WithPacketReleaseHandler(func(p *rtp.Packet) {
+			r.lastSampleComplete = p.Marker
+		}))
+
 	return r
 }
 
@@ -307,14 +313,13 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(packet.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
 	isKeyFrame := IsVP8KeyFrame(packet)
 
 	if isKeyFrame {
-		r.currKeyFrame = packet
 		r.lastKeyFrameTime = time.Now()
 	}
 
@@ -325,30 +330,41 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			0, isKeyFrame, len(packet.Payload), 0)
 
 	for {
+		r.lastSampleComplete = false
 		sample, ts := r.videoBuilder.PopWithTimestamp()
 
 		if sample == nil {
 			return
 		}
 
-		isKf := false
-
-		if r.currKeyFrame != nil {
-			isKf = ts == r.currKeyFrame.Timestamp
+		// Padding, or a frame that the builder has cut short
+		if len(sample.Data) == 0 || !r.lastSampleComplete {
+			continue
 		}
 
-		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
+		isKf := sample.Data[0]&0x01 == 0
+
+		if isKf && len(sample.Data) >= 10 && ((r.videoWriter == nil && r.hasVideo) ||
 			(r.audioWriter == nil && r.hasAudio)) {
-			width, height := GetVP8KFDimension(packet)
+			raw := uint(sample.Data[6]) | uint(sample.Data[7])<<8 | uint(sample.Data[8])<<16 | uint(sample.Data[9])<<24
+			width := int(raw & 0x3FFF)
+			height := int((raw >> 16) & 0x3FFF)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
+
+			// Video time starts with the first recorded frame
+			if !r.started {
+				r.packetTimestamp = ts
+			}
+
 			r.initWriter(width, height)
 		}
 
 		if r.videoWriter != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-			r.videoTimestamp += sample.Duration
+			r.videoTimestamp += time.Duration((float64(ts-r.packetTimestamp) / float64(vp8SampleRate)) * secondToNanoseconds)
+			r.packetTimestamp = ts
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
@@ -485,12 +501,30 @@ func unmarshalVP8(payload []byte) (codecs.VP8Packet, error) {
 	return vp8Packet, nil
 }
 
-// vp8Depacketizer keeps malformed packets away from the sample builder
+// vp8Depacketizer keeps malformed packets away from the sample builder, and
+// makes it take padding (packets without payload) and whole frames only.
 type vp8Depacketizer struct {
 	codecs.VP8Packet
 }
 
+func (d *vp8Depacketizer) IsPartitionHead(payload []byte) bool {
+	if len(payload) == 0 {
+		return true
+	}
+
+	// Only the start of the first partition starts a frame (RFC 7741#4.2)
+	return payload[0]&0x10 != 0 && payload[0]&0x07 == 0
+}
+
+func (d *vp8Depacketizer) IsPartitionTail(marker bool, payload []byte) bool {
+	return marker || len(payload) == 0
+}
+
 func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
+	if len(payload) == 0 {
+		return nil, nil
+	}
+
 	vp8Packet, err := unmarshalVP8(payload)
 
 	if err != nil {
@@ -516,28 +550,6 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	return vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
 }
 
-func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
-	if len(packet.Payload) == 0 {
-		return 0, 0
-	}
-
-	vp8Packet, err := unmarshalVP8(packet.Payload)
-
-	if err != nil {
-		return 0, 0
-	}
-
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
-		return 0, 0
-	}
-
-	raw := uint(vp8Packet.Payload[6]) | uint(vp8Packet.Payload[7])<<8 | uint(vp8Packet.Payload[8])<<16 | uint(vp8Packet.Payload[9])<<24
-	width := int(raw & 0x3FFF)
-	height := int((raw >> 16) & 0x3FFF)
-
-	return width, height
-}
-
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if !r.hasVideo {
 		return
-- 
2.43.0


From 60a3fba3de19c7da55b39124f9a7ffa59e4424f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 14/34] fix: keep the IVF copy in step with the recording and
 as private as it

---
 internal/webrtc/recorder/ivfwriter.go | 11 +++++++----
 internal/webrtc/recorder/recorder.go  |  4 ++++
 internal/webrtc/recorder/webm.go      | 26 +++++++++-----------------
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..26ab83a 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -25,16 +25,19 @@ type RTPPacketWithMeta struct {
 	Marker     bool
 }
 
+func ivfPath(basePath string) string {
+	return basePath[:len(basePath)-len(filepath.Ext(basePath))] + ".ivf"
+}
+
 // VP8 only for now
-func NewIVFWriter(basePath string) (*IVFWriter, error) {
+func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	if basePath == "" {
 		return &IVFWriter{enabled: false}, nil
 	}
 
-	ext := filepath.Ext(basePath)
-	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
+	ivfPath := ivfPath(basePath)
 
-	file, err := os.Create(ivfPath)
+	file, err := os.OpenFile(ivfPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, fileMode)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..0403f4d 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -67,6 +67,10 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		if _, err := os.Stat(file); !os.IsNotExist(err) {
 			return "", 0, fmt.Errorf("file already exists %s", file)
 		}
+
+		if _, err := os.Stat(ivfPath(file)); cfg.WriteIVFCopy && !os.IsNotExist(err) {
+			return "", 0, fmt.Errorf("file already exists %s", ivfPath(file))
+		}
 	} else {
 		file = os.DevNull
 	}
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index a265c13..7ff665c 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -373,10 +373,10 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-		}
 
-		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+			if r.writeIVFCopy {
+				r.pushToIVFWriter(sample.Data, ts, isKf)
+			}
 		}
 	}
 }
@@ -967,7 +967,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
 	}
 
@@ -977,7 +977,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 func (r *WebmRecorder) startIVFWriter() error {
 	if r.ivfWriter == nil {
-		ivf, err := NewIVFWriter(r.file)
+		ivf, err := NewIVFWriter(r.file, r.fileMode)
 
 		if err != nil {
 			return fmt.Errorf("failed to create RTP ivf: %w", err)
@@ -992,16 +992,8 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil {
 		if isKeyFrame && len(frame) >= 10 {
 			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
 			width := uint16(raw & 0x3FFF)
@@ -1010,7 +1002,7 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 			r.ivfWriter.UpdateDimensions(width, height)
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
@@ -1160,7 +1152,7 @@ func (r *WebmRecorder) initWriter(width, height int) {
 
 	r.started = true
 
-	if r.writeIVFCopy && r.hasVideo {
+	if r.writeIVFCopy && r.hasVideo && r.file != os.DevNull {
 		if err := r.startIVFWriter(); err != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Warnf("Error starting RTP ivf: %v", err)
-- 
2.43.0


From e2cd1fbd3a68788e0bb5011934c59391b8777674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 15/34] fix: refuse recordings outside of the recording
 directory and create nothing for refused ones

---
 internal/webrtc/recorder/recorder.go | 53 +++++++++++++++-------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 0403f4d..4995be9 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -40,8 +41,22 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		return "", 0, fmt.Errorf("directory does not exist %s", cfg.Directory)
 	}
 
+	var fileMode os.FileMode
+
+	if parsedFileMode, err := strconv.ParseUint(cfg.FileMode, 0, 32); err != nil {
+		return "", 0, fmt.Errorf("invalid file mode %s", cfg.FileMode)
+	} else {
+		fileMode = os.FileMode(parsedFileMode)
+	}
+
 	if !cfg.WriteToDevNull {
+		name := file
 		file = path.Clean(dir + string(os.PathSeparator) + file)
+
+		if rel, err := filepath.Rel(dir, file); err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
+			return "", 0, fmt.Errorf("file is outside of the recording directory: %s", name)
+		}
+
 		fileDir := path.Dir(file)
 
 		if _, err := os.Stat(fileDir); err != nil {
@@ -75,39 +90,29 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		file = os.DevNull
 	}
 
-	var fileMode os.FileMode
-
-	if parsedFileMode, err := strconv.ParseUint(cfg.FileMode, 0, 32); err != nil {
-		return "", 0, fmt.Errorf("invalid file mode %s", cfg.FileMode)
-	} else {
-		fileMode = os.FileMode(parsedFileMode)
-	}
-
 	return file, fileMode, nil
 }
 
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
-	ext := filepath.Ext(file)
+	if ext := filepath.Ext(file); ext != ".webm" {
+		return nil, fmt.Errorf("unsupported file extension %s", ext)
+	}
+
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
 
 	if err != nil {
 		return nil, err
 	}
 
-	var r Recorder
-	switch ext {
-	case ".webm":
-		r = NewWebmRecorder(
-			file,
-			fileMode,
-			cfg.VideoPacketQueueSize,
-			cfg.AudioPacketQueueSize,
-			cfg.UseCustomSampler,
-			cfg.WriteIVFCopy,
-		)
-		r.WithContext(ctx)
-	default:
-		return nil, fmt.Errorf("unsupported file extension %s", ext)
-	}
+	r := NewWebmRecorder(
+		file,
+		fileMode,
+		cfg.VideoPacketQueueSize,
+		cfg.AudioPacketQueueSize,
+		cfg.UseCustomSampler,
+		cfg.WriteIVFCopy,
+	)
+	r.WithContext(ctx)
+
 	return r, nil
 }
-- 
2.43.0


From ba7adaee1900ee7502b77a6a8daba640bcf9a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 16/34] fix: never record two sessions into one file

---
 internal/webrtc/recorder/recorder.go | 10 ++++++++++
 internal/webrtc/recorder/webm.go     |  8 +++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 4995be9..a7be4c9 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,6 +35,9 @@ type Recorder interface {
 	Close() time.Duration
 }
 
+// Files of the recordings in progress, which may not exist yet
+var activeFiles sync.Map
+
 func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file string) (string, os.FileMode, error) {
 	dir := path.Clean(cfg.Directory)
 
@@ -104,6 +108,12 @@ func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorde
 		return nil, err
 	}
 
+	if !cfg.WriteToDevNull {
+		if _, active := activeFiles.LoadOrStore(file, struct{}{}); active {
+			return nil, fmt.Errorf("file is being recorded %s", file)
+		}
+	}
+
 	r := NewWebmRecorder(
 		file,
 		fileMode,
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 7ff665c..4db6cec 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -263,6 +263,7 @@ func (r *WebmRecorder) close() time.Duration {
 	}
 	r.closed = true
 	r.closeWriters()
+	defer activeFiles.Delete(r.file)
 
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
@@ -1056,7 +1057,12 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	file, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	flags := os.O_WRONLY | os.O_CREATE | os.O_TRUNC
+	// Never overwrite anything but our own recording
+	if !r.started && r.file != os.DevNull {
+		flags |= os.O_EXCL
+	}
+	file, err := os.OpenFile(r.file, flags, r.fileMode)
 	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Errorf("Cannot open recording file: %v", err)
-- 
2.43.0


From e2deb7129843706bbb8f518de5765415fd7f2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 17/34] fix: answer starts truthfully and end every session
 exactly once

---
 internal/server/server.go  |  38 +++---------
 internal/server/session.go | 124 +++++++++++++++++++++++++++----------
 internal/webrtc/webrtc.go  |   4 ++
 3 files changed, 104 insertions(+), 62 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..ce1a0bf 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
@@ -39,13 +38,12 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		e := event.StartRecording()
 
 		if e == nil {
-			s.PublishPubSub(e.Fail(fmt.Errorf("incorrect event")))
+			return
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
 
-		_, ok := s.sessions.Load(e.SessionId)
-		if ok {
+		if sess, ok := s.sessions.Load(e.SessionId); ok && !sess.(*Session).Ended() {
 			err := fmt.Errorf("session %s already exists", e.SessionId)
 			log.Error(err)
 			s.PublishPubSub(e.Fail(err))
@@ -78,16 +76,12 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				e.AdapterOptions.LiveKit.TrackIDs,
 			)
 			sess := NewSession(e.SessionId, s, nil, wrtc, rec)
-			s.sessions.Store(e.SessionId, sess)
 
-			if _, err := sess.StartRecording(e); err != nil {
+			if err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
 				s.PublishPubSub(e.Fail(err))
-				return
 			}
 
-			s.PublishPubSub(e.Success("", rec.GetFilePath()))
-
 		case "mediasoup", "":
 			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
 
@@ -97,22 +91,10 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
-			var sdp string
-			func() {
-				defer func() {
-					if r := recover(); r != nil {
-						err = fmt.Errorf("%v", r)
-					}
-				}()
-
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
-				s.sessions.Store(e.SessionId, sess)
-				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
-			}()
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
 
-			if err != nil {
+			if err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
 				s.PublishPubSub(e.Fail(err))
 			}
@@ -132,9 +114,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			sess.(*Session).StopRecording("stopped")
 		}
 
 	case "getRecorderStatus":
@@ -153,6 +133,6 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+func (s *Server) CloseSession(sess *Session) {
+	s.sessions.CompareAndDelete(sess.id, sess)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..4f27afd 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"fmt"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -10,6 +12,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
 	pwebrtc "github.com/pion/webrtc/v3"
+	log "github.com/sirupsen/logrus"
 )
 
 type Session struct {
@@ -18,7 +21,10 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
-	stopped  bool
+
+	// Events are published under this lock, so that none follows the end of the session
+	m     sync.Mutex
+	ended bool
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -31,31 +37,46 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 	}
 }
 
-func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
+// StartRecording starts the session and publishes that it has started, or
+// leaves nothing of it behind.
+func (s *Session) StartRecording(e *events.StartRecording) error {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	s.server.sessions.Store(s.id, s)
+	sdp, err := s.init(e)
+
+	if err != nil {
+		s.ended = true
+		s.recorder.Close()
+		s.server.CloseSession(s)
+		go s.closeTransport()
+		return err
+	}
+
 	prometheus.Sessions.Inc()
+	s.server.PublishPubSub(e.Success(sdp, s.recorder.GetFilePath()))
+
+	return nil
+}
+
+func (s *Session) init(e *events.StartRecording) (answerSDP string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
 	// Only initialize WebRTC if we're using mediasoup
 	if s.webrtc != nil {
 		offer := pwebrtc.SessionDescription{}
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
-				}
-			}
-		})
-		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
+				s.StopRecording(state.String())
 			}
-			s.server.PublishPubSub(message)
 		})
+		s.webrtc.SetFlowCallback(s.onFlow)
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
 
@@ -68,16 +89,7 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
-		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.livekit.SetFlowCallback(s.onFlow)
 
 		if err := s.livekit.Init(s.recorder); err != nil {
 			return "", err
@@ -87,11 +99,57 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
-	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
+	if closed {
+		s.StopRecording("closed")
+		return
+	}
+
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	if !s.ended {
+		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+	}
+}
+
+// StopRecording ends the session: the first cause of ending is published, all
+// others have no effect.
+func (s *Session) StopRecording(reason string) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	if s.ended {
+		return
+	}
+
+	s.ended = true
+	prometheus.Sessions.Dec()
+	ts := s.recorder.Close() / time.Millisecond
+	s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts))
+	s.server.CloseSession(s)
+	go s.closeTransport()
+}
+
+// Ended waits for the session to have started, or to have been announced as
+// ended, if it is about to.
+func (s *Session) Ended() bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.ended
+}
+
+func (s *Session) closeTransport() {
+	var err error
+
+	if s.webrtc != nil {
+		err = s.webrtc.Close()
+	} else if s.livekit != nil {
+		err = s.livekit.Close()
+	}
+
+	if err != nil {
+		log.WithField("session", s.id).Error(err)
 	}
-	return 0
 }
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index fd24981..9aed238 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -509,6 +509,10 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 }
 
 func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From cddf4e57d4488490cd6b337de4f6e0eb4eb820e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 18/34] fix: take the SDP offer from the mediasoup options when
 no adapter is named

---
 internal/pubsub/events/events.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..cb43fb7 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -108,7 +108,7 @@ func (e *StartRecording) Validate() error {
 		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {
 			return fmt.Errorf("livekit adapter requires at least one track ID")
 		}
-	case AdapterMediasoup:
+	case AdapterMediasoup, "":
 		// TODO remove legacy SDP field later on - prlanzarin
 		if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
 			return nil
-- 
2.43.0


From 6b53183bee1aae784d6a0743afd9f49f81df8350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 19/34] fix: ignore control messages that cannot be decoded

---
 internal/pubsub/events/events.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index cb43fb7..9ef2663 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,10 +44,13 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecording); ok {
 		return ev
 	}
@@ -55,6 +58,9 @@ func (e *Event) StartRecording() *StartRecording {
 }
 
 func (e *Event) StartRecordingResponse() *StartRecordingResponse {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecordingResponse); ok {
 		return ev
 	}
@@ -62,6 +68,9 @@ func (e *Event) StartRecordingResponse() *StartRecordingResponse {
 }
 
 func (e *Event) StopRecording() *StopRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StopRecording); ok {
 		return ev
 	}
@@ -346,6 +355,9 @@ type GetRecorderStatus struct {
 }
 
 func (e *Event) GetRecorderStatus() *GetRecorderStatus {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*GetRecorderStatus); ok {
 		return ev
 	}
-- 
2.43.0


From ef6162fef7e2ec8a6afa681784728f70fb2ac4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 20/34] fix: guard the keyframe request statistics against
 concurrent use

---
 internal/webrtc/webrtc.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 9aed238..437e178 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,6 +35,7 @@ type WebRTC struct {
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
+	m                   sync.Mutex
 	videoTrackSSRCs     []uint32
 	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
@@ -172,8 +174,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -483,7 +487,11 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := w.videoTrackSSRCs
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
@@ -496,6 +504,9 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Error(err)
 	}
 
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if _, exists := w.pliStats[ssrc]; !exists {
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 	}
-- 
2.43.0


From b675e3f3382354f243bb150735cc75f8b16ff7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 21/34] fix: exit with a failure when the control channel is
 lost

---
 internal/pubsub/redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/redis.go b/internal/pubsub/redis.go
index b90fdf4..086c4bb 100644
--- a/internal/pubsub/redis.go
+++ b/internal/pubsub/redis.go
@@ -19,7 +19,7 @@ type Redis struct {
 
 func (r *Redis) Subscribe(channel string, handler PubSubHandler, onStart func() error) {
 	log.Printf("subscribing to pubsub %s on redis %s", channel, r.config.Address)
-	r.pubsub.ListenChannels(r.ctx,
+	err := r.pubsub.ListenChannels(r.ctx,
 		func() error {
 			onStart()
 			return nil
@@ -29,6 +29,11 @@ func (r *Redis) Subscribe(channel string, handler PubSubHandler, onStart func()
 			return nil
 		},
 		channel)
+
+	// Without the channel no request can be received: have the supervisor restart the process
+	if r.ctx.Err() == nil {
+		log.Fatalf("lost pubsub channel %s: %v", channel, err)
+	}
 }
 
 func (r *Redis) Unsubscribe() {
-- 
2.43.0


From cdc14d5993799a91170fc43cd631ca470a58fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 22/34] fix: answer each offer posted to the HTTP gateway with
 its own answer, or an error

---
 internal/server/http.go | 49 ++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..a5cba49 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -3,21 +3,28 @@ package server
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
+	"github.com/AlekSi/pointer"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
+// How long to wait for the response to a start request
+const startTimeout = 30 * time.Second
+
 type HTTPServer struct {
 	cfg       *config.Config
 	port      int
@@ -37,13 +44,14 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	// Start requests waiting for their response
+	var answerChannels sync.Map
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				if answerChan, ok := answerChannels.LoadAndDelete(e.SessionId); ok {
+					answerChan.(chan *events.StartRecordingResponse) <- e
 				}
 			}
 		},
@@ -51,15 +59,15 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
-		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+	go s.serve(func(sdp string) (string, error) {
+		sessId := time.Now().Format("20060102150405") + "-" + uuid.New().String()
+		answerChan := make(chan *events.StartRecordingResponse, 1)
+		answerChannels.Store(sessId, answerChan)
+		defer answerChannels.Delete(sessId)
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s.webm", sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
@@ -69,13 +77,20 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+
+		select {
+		case answer := <-answerChan:
+			if answer.SDP == nil {
+				return "", fmt.Errorf("recording failed: %s", pointer.GetString(answer.Error))
+			}
+			return *answer.SDP, nil
+		case <-time.After(startTimeout):
+			return "", errors.New("recording was not started in time")
+		}
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
@@ -84,8 +99,12 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			fmt.Fprintf(w, "Post SDP offer in body")
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		response, err := handler(string(body))
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusInternalServerError)
+			return
+		}
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From 8ff292c3ee1c07b2fe35a99390010c0afd5e3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 23/34] fix: report flow and end of LiveKit sessions without
 deadlocks or leaks

---
 internal/webrtc/livekit/livekit.go | 183 ++++++++++++++++-------------
 1 file changed, 102 insertions(+), 81 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..5fcdcef 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -2,10 +2,12 @@ package livekit
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"slices"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -33,15 +35,16 @@ const (
 	TrackKindAudio TrackKind = "audio"
 )
 
+// How long joining a room may take overall
+const joinTimeout = 20 * time.Second
+
 type PLITracker struct {
 	count     int
 	timestamp time.Time
 }
 
 type TrackFlowState struct {
-	lastSeqNum    uint16
-	lastTimestamp time.Duration
-	isFlowing     bool
+	isFlowing bool
 }
 
 type LiveKitWebRTC struct {
@@ -58,8 +61,10 @@ type LiveKitWebRTC struct {
 	jitterBuffers      map[string]*jitter.Buffer
 	hasAudio           bool
 	hasVideo           bool
-	flowState          map[string]*TrackFlowState
-	flowCallback       func(bool, time.Duration, bool)
+	// Taken before any other lock, and held while flow changes are reported
+	flowM        sync.Mutex
+	flowState    map[string]*TrackFlowState
+	flowCallback func(bool, time.Duration, bool)
 }
 
 func NewLiveKitWebRTC(
@@ -102,13 +107,7 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 	log.WithField("session", w.ctx.Value("session")).
 		Debugf("Connecting to LiveKit room %s with identity %s", w.roomId, identity)
 
-	roomClient, err := lksdk.ConnectToRoom(w.cfg.Host, lksdk.ConnectInfo{
-		APIKey:              w.cfg.APIKey,
-		APISecret:           w.cfg.APISecret,
-		RoomName:            w.roomId,
-		ParticipantIdentity: identity,
-		ParticipantKind:     lksdk.ParticipantEgress,
-	}, &lksdk.RoomCallback{
+	roomClient := lksdk.NewRoom(&lksdk.RoomCallback{
 		ParticipantCallback: lksdk.ParticipantCallback{
 			OnTrackSubscribed:   w.onTrackSubscribed,
 			OnTrackUnsubscribed: w.onTrackUnsubscribed,
@@ -116,16 +115,37 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 			OnTrackMuted:        w.onTrackMuted,
 		},
 		OnDisconnected: w.onDisconnected,
-	},
-		lksdk.WithAutoSubscribe(false),
-	)
+	})
+
+	w.m.Lock()
+	w.room = roomClient
+	w.m.Unlock()
+
+	joined := make(chan error, 1)
+	go func() {
+		joined <- roomClient.Join(w.cfg.Host, lksdk.ConnectInfo{
+			APIKey:              w.cfg.APIKey,
+			APISecret:           w.cfg.APISecret,
+			RoomName:            w.roomId,
+			ParticipantIdentity: identity,
+			ParticipantKind:     lksdk.ParticipantEgress,
+		},
+			lksdk.WithAutoSubscribe(false),
+		)
+	}()
+
+	var err error
+
+	select {
+	case err = <-joined:
+	case <-time.After(joinTimeout):
+		err = errors.New("timed out")
+	}
 
 	if err != nil {
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
-	w.room = roomClient
-
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Connected to LiveKit room %s", w.roomId)
 
@@ -140,10 +160,11 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 
 func (w *LiveKitWebRTC) Close() error {
 	w.m.Lock()
-	defer w.m.Unlock()
+	room := w.room
+	w.m.Unlock()
 
-	if w.room != nil {
-		w.room.Disconnect()
+	if room != nil {
+		room.Disconnect()
 	}
 
 	return nil
@@ -178,7 +199,9 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
 	return subscribedTracks, nil
 }
 
@@ -211,11 +234,19 @@ func (w *LiveKitWebRTC) RequestKeyframe() {
 		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
 
 	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+		w.requestKeyframeForSSRC(uint32(ssrc))
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	w.requestKeyframeForSSRC(ssrc)
+}
+
+// Locked
+func (w *LiveKitWebRTC) requestKeyframeForSSRC(ssrc uint32) {
 	if w.room == nil {
 		return
 	}
@@ -240,42 +271,32 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	}
 }
 
-func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp time.Duration) {
-	w.m.Lock()
-	defer w.m.Unlock()
+func (w *LiveKitWebRTC) updateFlowState(trackID string, isFlowing bool) {
+	w.flowM.Lock()
+	defer w.flowM.Unlock()
 
 	state, exists := w.flowState[trackID]
 
 	if !exists {
-		state = &TrackFlowState{
-			lastSeqNum:    seqNum,
-			lastTimestamp: timestamp,
-			isFlowing:     false,
-		}
+		state = &TrackFlowState{isFlowing: false}
 		w.flowState[trackID] = state
+	}
 
+	if state.isFlowing == isFlowing {
 		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
-	state.lastSeqNum = seqNum
-	state.lastTimestamp = timestamp
-
-	if state.isFlowing != wasFlowing && w.flowCallback != nil {
-		var latestTimestamp time.Duration
-
-		for _, s := range w.flowState {
-			if s.lastTimestamp > latestTimestamp {
-				latestTimestamp = s.lastTimestamp
-			}
-		}
+	state.isFlowing = isFlowing
+	timestamp := w.mediaTimestamp()
+	w.flowCallback(isFlowing, timestamp, false)
+	log.WithField("session", w.ctx.Value("session")).
+		Tracef("Flow state changed for track %s: flowing=%v timestamp=%s",
+			trackID, isFlowing, timestamp)
+}
 
-		w.flowCallback(state.isFlowing, latestTimestamp, false)
-		log.WithField("session", w.ctx.Value("session")).
-			Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
-				trackID, state.isFlowing, latestTimestamp)
-	}
+// Most recent timestamp of video and audio
+func (w *LiveKitWebRTC) mediaTimestamp() time.Duration {
+	return max(w.handler.VideoTimestamp(), w.handler.AudioTimestamp())
 }
 
 func (w *LiveKitWebRTC) onTrackSubscribed(
@@ -289,6 +310,12 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	clockRate := track.Codec().ClockRate
 	mimeType := MimeType(strings.ToLower(track.Codec().MimeType))
 
+	if !slices.Contains(w.trackIds, trackID) {
+		log.WithField("session", w.ctx.Value("session")).
+			Warnf("Ignoring track %s: not requested", trackID)
+		return
+	}
+
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Subscribed to track %s source=%s kind=%s participant=%s ssrc=%d",
 			trackID, pub.Source(), trackKind, rp.Identity(), track.SSRC())
@@ -318,12 +345,19 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
+	// Closed when the track has ended
+	done := make(chan struct{})
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
 
+	if isVideo {
+		w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+	}
+	w.m.Unlock()
+
 	if isVideo {
 		ssrc := uint32(track.SSRC())
-		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
@@ -333,16 +367,12 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
+			defer ticker.Stop()
 			for {
 				select {
 				case <-done:
-					ticker.Stop()
 					return
 				case <-ticker.C:
 					w.RequestKeyframeForSSRC(ssrc)
@@ -350,48 +380,40 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 		}()
 	}
-	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
+	var released atomic.Uint64
+
 	go func() {
-		ticker := time.NewTicker(time.Millisecond * 100)
-		var lastSeqNum uint16
+		ticker := time.NewTicker(time.Second)
+		defer ticker.Stop()
+		var lastReleased uint64
 		for {
 			select {
-			case <-flowCheckDone:
-				ticker.Stop()
+			case <-done:
 				return
 			case <-ticker.C:
-				w.m.Lock()
-				state, exists := w.flowState[trackID]
+				n := released.Load()
 
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
+				// No new packets received == not flowing
+				if n == lastReleased {
+					w.updateFlowState(trackID, false)
 				}
 
-				if state.isFlowing {
-					ticker.Reset(time.Millisecond * 1000)
-				} else {
-					ticker.Reset(time.Millisecond * 100)
-				}
-
-				lastSeqNum = state.lastSeqNum
-				w.m.Unlock()
+				lastReleased = n
 			}
 		}
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
 			if err != nil {
 				log.WithField("session", w.ctx.Value("session")).
 					Errorf("Error reading from track %s: %v", trackID, err)
+				w.updateFlowState(trackID, false)
 				return
 			}
 
@@ -403,12 +425,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 
 			for _, p := range packets {
-				w.updateFlowState(
-					trackID,
-					p.SequenceNumber,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
-				)
-
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
@@ -416,6 +432,9 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 					w.handler.PushAudio(p)
 				}
 			}
+
+			released.Add(1)
+			w.updateFlowState(trackID, true)
 		}
 	}()
 }
@@ -448,6 +467,8 @@ func (w *LiveKitWebRTC) onTrackMuted(
 func (w *LiveKitWebRTC) onDisconnected() {
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Disconnected from LiveKit room %s", w.roomId)
+
+	go w.flowCallback(false, w.mediaTimestamp(), true)
 }
 
 func (w *LiveKitWebRTC) validateInitParams() error {
-- 
2.43.0


From 0958b1446d754624b6c6437f42d9e5a3a8a51613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 24/34] fix: survive losses that leave the sample builders no
 packet to keep

---
 internal/webrtc/recorder/webm.go | 45 +++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 4db6cec..f42ce67 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -14,6 +14,7 @@ import (
 	"github.com/jech/samplebuilder"
 	"github.com/pion/rtp"
 	"github.com/pion/rtp/codecs"
+	"github.com/pion/webrtc/v3/pkg/media"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -60,6 +61,7 @@ type WebmRecorder struct {
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
+	lastAudioSeq, lastVideoSeq     uint16
 	audioTimestamp, videoTimestamp time.Duration
 
 	started bool
@@ -129,12 +131,28 @@ func NewWebmRecorder(
 		hasVideo:     false,
 	}
 
-	r.videoBuilder = samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate,
+	r.videoBuilder = r.newVideoBuilder()
+
+	return r
+}
+
+func (r *WebmRecorder) newVideoBuilder() *samplebuilder.SampleBuilder {
+	return samplebuilder.New(r.videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate,
 		samplebuilder.WithPacketReleaseHandler(func(p *rtp.Packet) {
 			r.lastSampleComplete = p.Marker
 		}))
+}
 
-	return r
+// Whether a sample builder has to drop packets to make room for seq: it panics
+// if these are all that it holds, so it must be emptied before.
+func needsRoom(builder *samplebuilder.SampleBuilder, queueSize, last, seq uint16) bool {
+	if queueSize < 2 {
+		queueSize = 2
+	}
+
+	gap := seq - last - 1
+
+	return builder.Len() > 0 && gap > 0 && gap < 0x8000 && builder.Len()+int(gap)+1 >= 2*int(queueSize)
 }
 
 func (r *WebmRecorder) GetFilePath() string {
@@ -324,15 +342,25 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		r.lastKeyFrameTime = time.Now()
 	}
 
+	if needsRoom(r.videoBuilder, r.videoPacketQueueSize, r.lastVideoSeq, packet.SequenceNumber) {
+		r.writeVP8Builtin(r.videoBuilder.ForcePopWithTimestamp)
+		r.videoBuilder = r.newVideoBuilder()
+	}
+
+	r.lastVideoSeq = packet.SequenceNumber
 	r.videoBuilder.Push(packet)
 	log.WithField("session", r.ctx.Value("session")).
 		Tracef("BUILTIN: VP8 RTP-DEPAY: seq=%d, ts=%d, marker=%v, S=%v, PictureID=%d, KeyFrame=%v, size=%d, PartID=%d",
 			packet.SequenceNumber, packet.Timestamp, packet.Marker, isKeyFrame,
 			0, isKeyFrame, len(packet.Payload), 0)
+	r.writeVP8Builtin(r.videoBuilder.PopWithTimestamp)
+}
 
+// Locked
+func (r *WebmRecorder) writeVP8Builtin(pop func() (*media.Sample, uint32)) {
 	for {
 		r.lastSampleComplete = false
-		sample, ts := r.videoBuilder.PopWithTimestamp()
+		sample, ts := pop()
 
 		if sample == nil {
 			return
@@ -394,10 +422,19 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		return
 	}
 
+	if needsRoom(r.audioBuilder, r.audioPacketQueueSize, r.lastAudioSeq, p.SequenceNumber) {
+		r.writeOpus(r.audioBuilder.ForcePopWithTimestamp)
+	}
+
+	r.lastAudioSeq = p.SequenceNumber
 	r.audioBuilder.Push(p)
+	r.writeOpus(r.audioBuilder.PopWithTimestamp)
+}
 
+// Locked
+func (r *WebmRecorder) writeOpus(pop func() (*media.Sample, uint32)) {
 	for {
-		sample := r.audioBuilder.Pop()
+		sample, _ := pop()
 		if sample == nil {
 			return
 		}
-- 
2.43.0


From eef951f8461e68cc7d667a52fcf5b89b8ce3e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 25/34] fix: start late audio at the current time of the
 recording

---
 internal/webrtc/recorder/webm.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index f42ce67..3ffb653 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -64,8 +64,12 @@ type WebmRecorder struct {
 	lastAudioSeq, lastVideoSeq     uint16
 	audioTimestamp, videoTimestamp time.Duration
 
-	started bool
-	closed  bool
+	started   bool
+	startedAt time.Time
+	closed    bool
+
+	// Seen at least one audio packet since the recording was started
+	audioStarted bool
 
 	// Seen at least one keyframe
 	seenKeyFrame bool
@@ -446,7 +450,14 @@ func (r *WebmRecorder) writeOpus(pop func() (*media.Sample, uint32)) {
 		}
 
 		if r.audioWriter != nil {
-			r.audioTimestamp += sample.Duration
+			// Audio that sets in later than the recording starts at its current time
+			if r.audioStarted {
+				r.audioTimestamp += sample.Duration
+			} else {
+				r.audioTimestamp = time.Since(r.startedAt)
+				r.audioStarted = true
+			}
+
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
 					Errorf("Error writing audio frame: %v", err)
@@ -1194,6 +1205,8 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	r.started = true
+	r.startedAt = time.Now()
+	r.audioStarted = false
 
 	if r.writeIVFCopy && r.hasVideo && r.file != os.DevNull {
 		if err := r.startIVFWriter(); err != nil {
-- 
2.43.0


From 616aeb0ac29231215fe59f11e6b6e97f4ca7e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 26/34] fix: announce tracks under the recording's lock

A track announced while the writers are being initialised for the other one
ended up in the file without the keyframe that it must begin with.
---
 internal/webrtc/recorder/webm.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 3ffb653..3217825 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -168,18 +168,26 @@ func (r *WebmRecorder) WithContext(ctx context.Context) {
 }
 
 func (r *WebmRecorder) SetHasAudio(hasAudio bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.hasAudio = hasAudio
 }
 
 func (r *WebmRecorder) GetHasAudio() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.hasAudio
 }
 
 func (r *WebmRecorder) SetHasVideo(hasVideo bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.hasVideo = hasVideo
 }
 
 func (r *WebmRecorder) GetHasVideo() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.hasVideo
 }
 
-- 
2.43.0


From fb09413cecc2d07623d6252b86d9ab5588a553d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 27/34] fix: start the time of a restarted recording file at
 zero

When video was announced after audio was already being recorded, the first
video frame was written at its RTP timestamp. When audio was announced late,
video went on at its old time beside audio that began at zero.
---
 internal/webrtc/recorder/webm.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 3217825..e17514e 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -393,10 +393,9 @@ func (r *WebmRecorder) writeVP8Builtin(pop func() (*media.Sample, uint32)) {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 
-			// Video time starts with the first recorded frame
-			if !r.started {
-				r.packetTimestamp = ts
-			}
+			// The time of a file starts with the first frame that is recorded in it
+			r.videoTimestamp = 0
+			r.packetTimestamp = ts
 
 			r.initWriter(width, height)
 		}
@@ -947,8 +946,15 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
-	// Video time starts with the first recorded frame
-	if !r.started {
+	// Initialize writer on a keyframe if either:
+	// 1. We don't have a video writer yet and we have video
+	// 2. We don't have an audio writer yet and we have audio
+	startWriter := r.currentFrame[0]&0x01 == 0 &&
+		((r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio))
+
+	// The time of a file starts with the first frame that is recorded in it
+	if startWriter || !r.started {
+		r.videoTimestamp = 0
 		r.packetTimestamp = p.Timestamp
 	}
 
@@ -960,12 +966,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Frame duration: %v, pts=%v, new timestamp: %v, prevPacketTS: %v, newPacketTS: %v",
 			duration, newPts, r.videoTimestamp+duration, r.packetTimestamp, p.Timestamp)
 
-	// Initialize writer on a keyframe if either:
-	// 1. We don't have a video writer yet and we have video
-	// 2. We don't have an audio writer yet and we have audio
-	if r.currentFrame[0]&0x01 == 0 &&
-		((r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio)) {
-
+	if startWriter {
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
 		height := int((raw >> 16) & 0x3FFF)
-- 
2.43.0


From f9af5276303792dd347eb781e1235c0e33484053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 28/34] fix: keep the other settings of the redis adapter when
 some are given

An address in the file dropped the default network, and a password in the
environment the address in the file.
---
 internal/config/loader.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/config/loader.go b/internal/config/loader.go
index 5b345e0..005c347 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -3,12 +3,15 @@ package config
 import (
 	"fmt"
 	"github.com/crazy-max/gonfig"
+	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"path"
 )
 
 func (cfg *Config) Load(app App, configFile string) {
+	redis := cfg.PubSub.Adapters["redis"]
+
 	// Load from file(s)
 	if configFile == "" {
 		configFile = app.Name + ".yml"
@@ -35,6 +38,8 @@ func (cfg *Config) Load(app App, configFile string) {
 		log.Printf("configuration loaded from file: %s", fileLoader.GetFilename())
 	}
 
+	cfg.PubSub.mergeAdapter("redis", redis)
+
 	// Load from environment variables
 	envPrefix := "BBBRECORDER_"
 	envLoader := gonfig.NewEnvLoader(gonfig.EnvLoaderConfig{
@@ -49,5 +54,19 @@ func (cfg *Config) Load(app App, configFile string) {
 		log.Printf("configuration loaded from %d environment variables", len(envLoader.GetVars()))
 	}
 
+	cfg.PubSub.mergeAdapter("redis", redis)
+
 	cfg.App = app
 }
+
+// mergeAdapter lets the settings that were loaded for an adapter replace only their counterparts in the previous ones
+func (cfg *PubSub) mergeAdapter(adapter string, previous interface{}) {
+	loaded, ok := cfg.Adapters[adapter]
+	if !ok || previous == nil {
+		return
+	}
+	if err := mapstructure.Decode(loaded, previous); err != nil {
+		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode %s pubsub configuration", adapter)))
+	}
+	cfg.Adapters[adapter] = previous
+}
-- 
2.43.0


From a2ebdb2d5579fa45f3b6c83b802dcab1c7b9be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:40 +0000
Subject: [PATCH 29/34] fix: print settings that are false, zero or empty, and
 those of LiveKit by their names

---
 internal/config/config.go | 66 +++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..e3da002 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -17,12 +17,12 @@ type App struct {
 
 type Config struct {
 	App        App        `yaml:"-"`
-	Recorder   Recorder   `yaml:"recorder,omitempty"`
-	PubSub     PubSub     `yaml:"pubsub,omitempty"`
-	WebRTC     WebRTC     `yaml:"webrtc,omitempty"`
-	HTTP       HTTP       `yaml:"http,omitempty"`
-	Prometheus Prometheus `yaml:"prometheus,omitempty"`
-	LiveKit    LiveKit    `yaml:"livekit,omitempty"`
+	Recorder   Recorder   `yaml:"recorder"`
+	PubSub     PubSub     `yaml:"pubsub"`
+	WebRTC     WebRTC     `yaml:"webrtc"`
+	HTTP       HTTP       `yaml:"http"`
+	Prometheus Prometheus `yaml:"prometheus"`
+	LiveKit    LiveKit    `yaml:"livekit"`
 	Log        LogConfig  `yaml:"log"`
 }
 
@@ -79,55 +79,55 @@ func (cfg *Config) SetDefaults() {
 }
 
 type Recorder struct {
-	Directory            string `yaml:"directory,omitempty"`
-	DirFileMode          string `yaml:"dirFileMode,omitempty"`
-	FileMode             string `yaml:"fileMode,omitempty"`
-	WriteToDevNull       bool   `yaml:"writeToDevNull,omitempty"`
-	WriteIVFCopy         bool   `yaml:"writeIVFCopy,omitempty"`
-	VideoPacketQueueSize uint16 `yaml:"videoPacketQueueSize,omitempty"`
-	AudioPacketQueueSize uint16 `yaml:"audioPacketQueueSize,omitempty"`
-	UseCustomSampler     bool   `yaml:"useCustomSampler,omitempty"`
+	Directory            string `yaml:"directory"`
+	DirFileMode          string `yaml:"dirFileMode"`
+	FileMode             string `yaml:"fileMode"`
+	WriteToDevNull       bool   `yaml:"writeToDevNull"`
+	WriteIVFCopy         bool   `yaml:"writeIVFCopy"`
+	VideoPacketQueueSize uint16 `yaml:"videoPacketQueueSize"`
+	AudioPacketQueueSize uint16 `yaml:"audioPacketQueueSize"`
+	UseCustomSampler     bool   `yaml:"useCustomSampler"`
 }
 
 type Redis struct {
-	Address  string `yaml:"address,omitempty"`
-	Network  string `yaml:"network,omitempty"`
-	Password string `yaml:"password,omitempty"`
+	Address  string `yaml:"address"`
+	Network  string `yaml:"network"`
+	Password string `yaml:"password"`
 }
 
 type PubSub struct {
-	Channels Channels `yaml:"channels,omitempty"`
-	Adapter  string   `yaml:"adapter,omitempty"`
+	Channels Channels `yaml:"channels"`
+	Adapter  string   `yaml:"adapter"`
 	Adapters map[string]interface{}
 }
 
 type Channels struct {
-	Subscribe string `yaml:"subscribe,omitempty"`
-	Publish   string `yaml:"publish,omitempty"`
+	Subscribe string `yaml:"subscribe"`
+	Publish   string `yaml:"publish"`
 }
 
 type WebRTC struct {
-	ICEServers             []webrtc.ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16             `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16             `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16             `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []webrtc.ICEServer `yaml:"iceServers"`
+	RTCMinPort             uint16             `yaml:"rtcMinPort"`
+	RTCMaxPort             uint16             `yaml:"rtcMaxPort"`
+	JitterBuffer           uint16             `yaml:"jitterBuffer"`
+	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout"`
 }
 
 type HTTP struct {
-	Enable bool `yaml:"enable,omitempty"`
-	Port   int  `yaml:"port,omitempty"`
+	Enable bool `yaml:"enable"`
+	Port   int  `yaml:"port"`
 }
 
 type Prometheus struct {
-	Enable        bool   `yaml:"enable,omitempty"`
-	ListenAddress string `yaml:"listenAddress,omitempty"`
+	Enable        bool   `yaml:"enable"`
+	ListenAddress string `yaml:"listenAddress"`
 }
 
 type LiveKit struct {
-	Host      string `mapstructure:"host"`
-	APIKey    string `mapstructure:"api_key"`
-	APISecret string `mapstructure:"api_secret"`
+	Host      string `yaml:"host" mapstructure:"host"`
+	APIKey    string `yaml:"apiKey" mapstructure:"api_key"`
+	APISecret string `yaml:"apiSecret" mapstructure:"api_secret"`
 }
 
 type LogConfig struct {
-- 
2.43.0


From 833e5b72036510eb4dc24fe7a4ff137c6db96b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 30/34] fix: keep running with the current config when a reload
 finds a broken one

---
 internal/app/app.go       | 14 +++++++++++---
 internal/app/config.go    |  7 +++++--
 internal/config/loader.go | 22 ++++++++++++++--------
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..e4abecb 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -55,7 +55,9 @@ func init() {
 	if flags.dump != "" {
 		log.SetLevel(log.FatalLevel)
 		cfg = initConfig()
-		loadConfig()
+		if err := loadConfig(); err != nil {
+			log.Fatal(err)
+		}
 		dumpConfig()
 	}
 
@@ -66,7 +68,9 @@ func init() {
 func Init() {
 	cfg = initConfig()
 	log.Infof("Starting %s PID: %d", app.Name, os.Getpid())
-	loadConfig()
+	if err := loadConfig(); err != nil {
+		log.Fatal(err)
+	}
 	configureLog()
 	sigintHandler()
 	sighupHandler()
@@ -96,7 +100,11 @@ func sighupHandler() {
 			select {
 			case <-sighup:
 				log.Debug("reloading config...")
-				loadConfig()
+				// Running sessions must survive a broken file
+				if err := loadConfig(); err != nil {
+					log.Errorf("keeping the current config: %v", err)
+					continue
+				}
 				configureLog()
 			}
 		}
diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..0e2c4fe 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -14,10 +14,13 @@ func initConfig() *config.Config {
 	return (&config.Config{App: app}).GetDefaults()
 }
 
-func loadConfig() {
+func loadConfig() error {
 	newCfg := initConfig()
-	newCfg.Load(app, flags.config)
+	if err := newCfg.Load(app, flags.config); err != nil {
+		return err
+	}
 	*cfg = *newCfg
+	return nil
 }
 
 func dumpConfig() {
diff --git a/internal/config/loader.go b/internal/config/loader.go
index 005c347..feb4076 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -9,7 +9,7 @@ import (
 	"path"
 )
 
-func (cfg *Config) Load(app App, configFile string) {
+func (cfg *Config) Load(app App, configFile string) error {
 	redis := cfg.PubSub.Adapters["redis"]
 
 	// Load from file(s)
@@ -31,14 +31,16 @@ func (cfg *Config) Load(app App, configFile string) {
 		},
 	})
 	if found, err := fileLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
+		return errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename()))
 	} else if !found {
 		log.Debugf("no configuration file found: %s", fileLoader.GetFilename())
 	} else {
 		log.Printf("configuration loaded from file: %s", fileLoader.GetFilename())
 	}
 
-	cfg.PubSub.mergeAdapter("redis", redis)
+	if err := cfg.PubSub.mergeAdapter("redis", redis); err != nil {
+		return err
+	}
 
 	// Load from environment variables
 	envPrefix := "BBBRECORDER_"
@@ -47,26 +49,30 @@ func (cfg *Config) Load(app App, configFile string) {
 	})
 
 	if found, err := envLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
+		return errors.Wrap(err, "failed to decode configuration from environment variables")
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
 	} else {
 		log.Printf("configuration loaded from %d environment variables", len(envLoader.GetVars()))
 	}
 
-	cfg.PubSub.mergeAdapter("redis", redis)
+	if err := cfg.PubSub.mergeAdapter("redis", redis); err != nil {
+		return err
+	}
 
 	cfg.App = app
+	return nil
 }
 
 // mergeAdapter lets the settings that were loaded for an adapter replace only their counterparts in the previous ones
-func (cfg *PubSub) mergeAdapter(adapter string, previous interface{}) {
+func (cfg *PubSub) mergeAdapter(adapter string, previous interface{}) error {
 	loaded, ok := cfg.Adapters[adapter]
 	if !ok || previous == nil {
-		return
+		return nil
 	}
 	if err := mapstructure.Decode(loaded, previous); err != nil {
-		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode %s pubsub configuration", adapter)))
+		return errors.Wrap(err, fmt.Sprintf("failed to decode %s pubsub configuration", adapter))
 	}
 	cfg.Adapters[adapter] = previous
+	return nil
 }
-- 
2.43.0


From 5af3e02eb858f9663589fba15b70b55108727376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 31/34] fix: refuse a file name below a file that is still to
 be created

The file of a recording is created with its first media.  Until then a second
recording could be given a name that treats it as a directory ("a.webm/b.webm"
beside "a.webm"): the directory was created, and the first recording could no
longer create its file and lost everything.
---
 internal/webrtc/recorder/recorder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index a7be4c9..9a56538 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -63,6 +63,13 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 
 		fileDir := path.Dir(file)
 
+		// A recording whose file is yet to be created needs its name
+		for p := fileDir; p != path.Dir(p); p = path.Dir(p) {
+			if _, active := activeFiles.Load(p); active {
+				return "", 0, fmt.Errorf("file is being recorded %s", p)
+			}
+		}
+
 		if _, err := os.Stat(fileDir); err != nil {
 			if !os.IsNotExist(err) {
 				return "", 0, fmt.Errorf("file directory is not accessible %s", fileDir)
-- 
2.43.0


From f81c535ee44b3273d86e71f28eb4e86fe2943455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 32/34] fix: refuse messages that are nested too deeply

The decoder and the encoding that follows recurse into values.  A message of a
few megabytes of opening brackets on the control channel overflowed the stack,
which ends the process and all of its recordings.
---
 internal/pubsub/events/decode.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/pubsub/events/decode.go b/internal/pubsub/events/decode.go
index d8afbd5..0b209a6 100644
--- a/internal/pubsub/events/decode.go
+++ b/internal/pubsub/events/decode.go
@@ -1,12 +1,23 @@
 package events
 
 import (
+	"bytes"
+
 	log "github.com/sirupsen/logrus"
 	"github.com/titanous/json5"
 )
 
+// Values are decoded recursively: more levels than this could exhaust the stack
+const maxNesting = 100000
+
 func Decode(message []byte) *Event {
 	e := &Event{}
+
+	if bytes.Count(message, []byte("{"))+bytes.Count(message, []byte("[")) > maxNesting {
+		log.Error("message is nested too deeply")
+		return nil
+	}
+
 	m := make(map[string]interface{})
 	if err := json5.Unmarshal(message, &m); err != nil {
 		log.Error(err, message)
-- 
2.43.0


From bc73abd8e274d1494e2553b4fb42054f65792b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 33/34] fix: fail for negative list indices when printing a
 setting

--dump webrtc.iceServers.-1 panicked with an index out of range.
---
 internal/app/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/config.go b/internal/app/config.go
index 0e2c4fe..4f218db 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -35,7 +35,7 @@ func dumpConfig() {
 			}
 			switch v.(type) {
 			case []interface{}:
-				if i == nil || len(v.([]interface{})) < *i+1 {
+				if i == nil || *i < 0 || len(v.([]interface{})) < *i+1 {
 					v = nil
 					goto _break
 				}
-- 
2.43.0


From ef3b30d664759d7a5c61cb405fce940bcc874d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 34/34] fix: leave LiveKit rooms that are joined after joining
 was given up

---
 internal/webrtc/livekit/livekit.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 5fcdcef..a96a596 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -140,6 +140,7 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 	case err = <-joined:
 	case <-time.After(joinTimeout):
 		err = errors.New("timed out")
+		go leaveLate(roomClient, joined)
 	}
 
 	if err != nil {
@@ -158,6 +159,25 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 	return nil
 }
 
+// leaveLate leaves a room that is joined after all, though nobody waits for
+// it any more. The room was disconnected before that, which it can be once.
+func leaveLate(room *lksdk.Room, joined <-chan error) {
+	if err := <-joined; err != nil {
+		return
+	}
+
+	room.Disconnect()
+
+	for _, pc := range []*webrtc.PeerConnection{
+		room.LocalParticipant.GetPublisherPeerConnection(),
+		room.LocalParticipant.GetSubscriberPeerConnection(),
+	} {
+		if pc != nil {
+			pc.Close()
+		}
+	}
+}
+
 func (w *LiveKitWebRTC) Close() error {
 	w.m.Lock()
 	room := w.room
-- 
2.43.0

