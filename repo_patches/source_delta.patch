From fce269b0150322b9255fb4195be5115a43b6a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:18 +0000
Subject: [PATCH 01/32] fix: UBufFrom panicked on writes past len() of a slice
 with spare capacity

Capacity() is cap(data), but the bytes between len and cap were not addressable.
---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..aeb2016 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From 21b515027eba26eea315d0c90d5291942c92ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:18 +0000
Subject: [PATCH 02/32] fix: copy-on-write released the shared data before
 copying it

Another snapshot could then modify the bytes in place during the copy.
---
 ubuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index aeb2016..0b5b1ea 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,10 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count, only after the copy is done: the last
+	// referencing UBuf may write the shared data in place from now on
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
-- 
2.43.0


From 263aec81e8c9693dedc9b88fcd7ffa4fa6b05a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:18 +0000
Subject: [PATCH 03/32] fix: writing the head of a copy-on-write snapshot
 panicked

The copy was made while writerIndex pointed below readerIndex.
---
 ubuf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index 0b5b1ea..5f0df11 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -569,6 +569,10 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// must be done before the writerIndex is moved, the copy
+	// needs the real readable region
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From 36340b20fc1819297ccd354e85bfe0e70cf2725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:18 +0000
Subject: [PATCH 04/32] fix: ReadFrom/WriteTo lost track of bytes transferred
 along with an error

ReadFrom dropped data returned together with an error (UBuf.Read itself
returns data and an error on a short read), WriteTo kept bytes that had
already been written.
---
 ubuf.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 5f0df11..b73f44a 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -353,13 +353,11 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
 
+	// the data written is consumed even if there is an error
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
@@ -473,13 +471,11 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 	ub.resolveCopyOnWriteIfNeed()
 
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
 
+	// the data read is valid even if there is an error
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From 16e093417518822015ed504f49aa0d6fa8f26456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 05/32] fix: FrameDecoder sent outgoing references back up

They never reached the transport (and recursed forever below another processor).
---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From bf56ff7ad9f07dd0f781a37050164f6bab148ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 06/32] fix: data without a connection crashed the header
 processors

LowerDeck drops such data, but FrameDecoder, Heartbeat, StatCounter and
LoadBalancer dereferenced the nil connection before.
---
 proc_base.go          | 7 +++++++
 proc_frame_decoder.go | 4 ++--
 proc_heartbeat.go     | 4 ++--
 proc_load_balancer.go | 4 ++--
 proc_stat_counter.go  | 4 ++--
 5 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/proc_base.go b/proc_base.go
index 6c71649..3fb8bab 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -107,6 +107,13 @@ func (base *ProcBase) SetLower(lower DataProcessor) DataProcessor {
 	return base.where
 }
 
+// useReference tells if the data is sent/received by a reference connection,
+// data without connection is not
+func useReference(context Context) bool {
+	connection := context.GetConnection()
+	return connection != nil && connection.UseReference()
+}
+
 // OnUpperData is called when upper layer sending data
 func (base *ProcBase) OnUpperData(context Context) {
 }
diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..f5c00d8 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -35,7 +35,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.lower.OnUpperData(context)
 		return
 	}
@@ -168,7 +168,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 
 // OnLowerData ...
 func (frm *FrameDecoder) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..71c495a 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -93,7 +93,7 @@ func (hb *Heartbeat) GetOverhead() int {
 
 // OnUpperData ...
 func (hb *Heartbeat) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.lower.OnUpperData(context)
 		return
 	}
@@ -110,7 +110,7 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (hb *Heartbeat) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..5d62588 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -37,7 +37,7 @@ func (lb *LoadBalancer) GetOverhead() int {
 
 // OnUpperData ...
 func (lb *LoadBalancer) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.lower.OnUpperData(context)
 		return
 	}
@@ -59,7 +59,7 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (lb *LoadBalancer) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..481192b 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -41,7 +41,7 @@ func (hb *StatCounter) GetOverhead() int {
 
 // OnUpperData ...
 func (sc *StatCounter) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.lower.OnUpperData(context)
 		return
 	}
@@ -107,7 +107,7 @@ func (sc *StatCounter) show(context Context) {
 
 // OnLowerData ...
 func (sc *StatCounter) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.upper.OnLowerData(context)
 		return
 	}
-- 
2.43.0


From fce027f61542a63ebc49df36a934e21267e380b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:12 +0000
Subject: [PATCH 07/32] fix: messages were sent without their header when it
 did not fit

A missing length or tag corrupts the whole byte stream for the peer; drop
the message as SessionResolver does.
---
 proc_frame_decoder.go |  5 ++++-
 proc_heartbeat.go     |  5 ++++-
 proc_load_balancer.go | 10 +++++++---
 proc_stat_counter.go  |  7 +++++--
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index f5c00d8..b8d9162 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -47,7 +47,10 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 		}
 
 		// add frame length in head space
-		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		if err != nil {
+			return
+		}
 	}
 
 	frm.lower.OnUpperData(context)
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 71c495a..3aa24ca 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -103,7 +103,10 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 		return
 	}
 
-	ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	err := ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	if err != nil {
+		return
+	}
 
 	hb.lower.OnUpperData(context)
 }
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index 5d62588..5babcf2 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -47,11 +47,15 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 		return
 	}
 
+	tag := LoadBalancerUplayerMessageTag
 	if lb.enable {
 		fmt.Println("LoadBalancer: OnUpperData: todo")
-		ub.WriteHeadByte(LoadBalancerSelfMessageReqWorkTag)
-	} else {
-		ub.WriteHeadByte(StatCounterUplayerMessageTag)
+		tag = LoadBalancerSelfMessageReqWorkTag
+	}
+
+	err := ub.WriteHeadByte(tag)
+	if err != nil {
+		return
 	}
 
 	lb.lower.OnUpperData(context)
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 481192b..0d43465 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -51,13 +51,16 @@ func (sc *StatCounter) OnUpperData(context Context) {
 		return
 	}
 
+	err := ub.WriteHeadByte(StatCounterUplayerMessageTag)
+	if err != nil {
+		return
+	}
+
 	if sc.enable {
 		sc.txCounter++
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
-	ub.WriteHeadByte(StatCounterUplayerMessageTag)
-
 	sc.lower.OnUpperData(context)
 }
 
-- 
2.43.0


From 9c9b32302bd669b5f4361c7a719b497ae9824543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:43 +0000
Subject: [PATCH 08/32] fix: FrameDecoder lost or corrupted frames split over
 several reads

The length field does not include itself but was compared with the buffered
length including it, so an incomplete frame could be delivered truncated or
be discarded. Cached data was never compacted, the tail of a read that did
not fit the cache was dropped, a frame too large for the cache stalled the
connection for ever and an empty frame panicked. Delivered buffers had no
head space, so an Echo above could not send them back framed.
---
 proc_frame_decoder.go | 133 +++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 87 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index b8d9162..21bef23 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -56,61 +56,38 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
-// handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
-	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
-		return
-	}
-
-	// cache is empty
+// handleFrames passes all the complete frames at the beginning of data
+// to uplayer, an incomplete frame is left there. It returns false if the
+// incomplete frame is too large for the cache, so never can be completed
+func (frm *FrameDecoder) handleFrames(context Context, data *UBuf) bool {
 	// handle as much as possiable with loop
 	for {
-		// very less data, cache the data
-		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
-			return
-		}
-
-		expectedLength, err := ub.PeekU32BE()
+		expectedLength, err := data.PeekU32BE()
 		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
+			// very less data, wait for more data
+			return true
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		frameLength := int64(FrameLengthFieldSizeInByte) + int64(expectedLength)
 
-		// not a complete frame, cache the data
-		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
-			return
-		}
-
-		// just one frame, need not to alloc new UBuf
-		if expectedLength == actuallyLength {
-			// drop size-field-data by dummy reading
-			ub.ReadU32BE()
-
-			context.SetBuffer(ub)
-			frm.upper.OnLowerData(context)
-			return
+		if int64(data.ReadableLength()) < frameLength {
+			// not a complete frame, wait for more data
+			return frameLength <= int64(frm.cacheCapacity)
 		}
 
-		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		// keep the head space in case the data is sent back
+		reserved := frm.ustack.GetOverhead()
+		newUbuf := UBufAllocWithHeadReserved(reserved+int(expectedLength), reserved)
 
 		// drop size-field-data by dummy reading
-		ub.ReadU32BE()
+		data.ReadU32BE()
 
 		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
+		_, err = io.CopyN(newUbuf, data, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
-			return
+			return false
 		}
 
 		context.SetBuffer(newUbuf)
@@ -120,53 +97,34 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	}
 }
 
-// handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
-	// handle as much as possiable with loop
-	for {
-		cachedLength := frm.cache.ReadableLength()
-
-		if cachedLength == 0 {
-			frm.cache.Reset()
-			return
-		}
-
-		if cachedLength < FrameLengthFieldSizeInByte {
-			// wait for more data
-			return
-		}
-
-		expectedLength, err := frm.cache.PeekU32BE()
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		if cachedLength < int(expectedLength) {
-			// wait for more data
-			return
-		}
+// cacheData moves data to the cache as much as possiable
+func (frm *FrameDecoder) cacheData(data *UBuf) bool {
+	// make the room of handled frames available
+	if frm.cache.HeadWritableLength() > 0 {
+		left := make([]byte, frm.cache.ReadableLength())
+		frm.cache.Read(left)
+		frm.cache.Reset()
+		frm.cache.Write(left)
+	}
 
-		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+	n, _ := frm.cache.ReadFrom(data)
+	return n > 0
+}
 
-		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
+// handleData ...
+func (frm *FrameDecoder) handleData(context Context, ub *UBuf) bool {
+	// no frame is in progress, handle the complete frames without cache
+	if frm.cache.ReadableLength() == 0 && !frm.handleFrames(context, ub) {
+		return false
+	}
 
-		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
+	for ub.ReadableLength() > 0 {
+		if !frm.cacheData(ub) || !frm.handleFrames(context, frm.cache) {
+			return false
 		}
-
-		context.SetBuffer(newUbuf)
-
-		// invoke uplayer
-		frm.upper.OnLowerData(context)
 	}
+
+	return true
 }
 
 // OnLowerData ...
@@ -182,11 +140,12 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
-		// handle current received data
-		frm.handleCurrentData(context, ub)
-
-		// handle history cached data
-		frm.handleCachedData(context, ub)
+		if !frm.handleData(context, ub) {
+			// bad stream, can not find the next frame any more
+			fmt.Println("FrameDecoder: bad frame from", context.GetConnection().GetName())
+			frm.cache.Reset()
+			context.GetConnection().Close()
+		}
 	} else {
 		frm.upper.OnLowerData(context)
 	}
-- 
2.43.0


From a05195d44fe64c30789fad3eefb7b593e9a5a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:44 +0000
Subject: [PATCH 09/32] fix: FrameDecoder shared one cache between all
 connections

Partial frames of different connections were mixed up, and the cache was
accessed by the receiving routines of all connections without lock.
---
 proc_frame_decoder.go | 66 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 21bef23..547341d 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf, 16),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -97,29 +99,51 @@ func (frm *FrameDecoder) handleFrames(context Context, data *UBuf) bool {
 	}
 }
 
+// getCache returns the cache of connection, it is only used
+// by the receiving routine of this connection
+func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache, ok := frm.caches[connection]
+	if !ok {
+		cache = UBufAlloc(frm.cacheCapacity)
+		frm.caches[connection] = cache
+	}
+	return cache
+}
+
+// deleteCache ...
+func (frm *FrameDecoder) deleteCache(connection TransportConnection) {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	delete(frm.caches, connection)
+}
+
 // cacheData moves data to the cache as much as possiable
-func (frm *FrameDecoder) cacheData(data *UBuf) bool {
+func (frm *FrameDecoder) cacheData(cache *UBuf, data *UBuf) bool {
 	// make the room of handled frames available
-	if frm.cache.HeadWritableLength() > 0 {
-		left := make([]byte, frm.cache.ReadableLength())
-		frm.cache.Read(left)
-		frm.cache.Reset()
-		frm.cache.Write(left)
+	if cache.HeadWritableLength() > 0 {
+		left := make([]byte, cache.ReadableLength())
+		cache.Read(left)
+		cache.Reset()
+		cache.Write(left)
 	}
 
-	n, _ := frm.cache.ReadFrom(data)
+	n, _ := cache.ReadFrom(data)
 	return n > 0
 }
 
 // handleData ...
-func (frm *FrameDecoder) handleData(context Context, ub *UBuf) bool {
+func (frm *FrameDecoder) handleData(context Context, cache *UBuf, ub *UBuf) bool {
 	// no frame is in progress, handle the complete frames without cache
-	if frm.cache.ReadableLength() == 0 && !frm.handleFrames(context, ub) {
+	if cache.ReadableLength() == 0 && !frm.handleFrames(context, ub) {
 		return false
 	}
 
 	for ub.ReadableLength() > 0 {
-		if !frm.cacheData(ub) || !frm.handleFrames(context, frm.cache) {
+		if !frm.cacheData(cache, ub) || !frm.handleFrames(context, cache) {
 			return false
 		}
 	}
@@ -140,10 +164,12 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
-		if !frm.handleData(context, ub) {
+		cache := frm.getCache(context.GetConnection())
+
+		if !frm.handleData(context, cache, ub) {
 			// bad stream, can not find the next frame any more
 			fmt.Println("FrameDecoder: bad frame from", context.GetConnection().GetName())
-			frm.cache.Reset()
+			cache.Reset()
 			context.GetConnection().Close()
 		}
 	} else {
@@ -151,6 +177,16 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 }
 
+// OnEvent ...
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type == UStackEventConnectionClosed {
+		connection, ok := event.Data.(TransportConnection)
+		if ok {
+			frm.deleteCache(connection)
+		}
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -161,7 +197,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From a0235b2258d9b88a5e422de1c1e17039e71ddc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 10/32] fix: LowerDeck dropped the last data of a connection
 read along with an error

---
 proc_lowerdeck.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..2eea759 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -73,15 +73,17 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 						ub := UBufAlloc(ld.ustack.GetMTU())
 
 						n, err := ub.ReadFrom(connection)
+						if n > 0 {
+							// invoke the uplayer
+							ld.upper.OnLowerData(
+								NewUStackContext().
+									SetConnection(connection).
+									SetBuffer(ub))
+						}
 						if n == 0 || err != nil {
 							ld.closeConnection(connection)
 							return
 						}
-						// invoke the uplayer
-						ld.upper.OnLowerData(
-							NewUStackContext().
-								SetConnection(connection).
-								SetBuffer(ub))
 					}
 				}
 			}()
-- 
2.43.0


From 851cd4d757a5641149319c0e382828d6456ee9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 11/32] fix: ConnectionClosed was published twice after a write
 error

Once by the writer and once by the receiving routine, possibly even before
NewConnection was published to everyone. Only the latter publishes it now.
---
 proc_lowerdeck.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 2eea759..7876bb2 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -117,7 +117,8 @@ func (ld *LowerDeck) OnUpperData(context Context) {
 
 	if err != nil {
 		fmt.Printf("Connection is closed: %s\n", connection.GetName())
-		ld.closeConnection(connection)
+		// the receiving routine of this connection will publish the event
+		connection.Close()
 	}
 }
 
-- 
2.43.0


From bb36e831697a25833e82f3961a31a67aced1455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 12/32] fix: Filter and Forwarder called a nil function for any
 data

The function list started with one nil entry.
---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From 5f8e382493c09affb002c64f54810fac801febc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 13/32] fix: decoding a truncated gob message never returned

UBuf.Read returns no error at the end of data, so io.ReadFull inside the
decoder retried for ever. Let GOBCodec and GenericCodec decoders see io.EOF.
---
 proc_codec_generic.go | 16 +++++++++++++++-
 proc_codec_gob.go     |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..623b60d 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -18,6 +18,20 @@ type EncoderFn func(message interface{}, w io.Writer) error
 // EncoderFn does decode data from io.Reader to message
 type DecoderFn func(r io.Reader) (message interface{}, err error)
 
+// ubufReader reads the data of UBuf for decoding. UBuf.Read does not tell
+// the end of data, decoder shall try forever if the data is truncated
+type ubufReader struct {
+	*UBuf
+}
+
+// Read implements io.Reader interface
+func (r ubufReader) Read(p []byte) (n int, err error) {
+	if len(p) > 0 && r.ReadableLength() == 0 {
+		return 0, io.EOF
+	}
+	return r.UBuf.Read(p)
+}
+
 // GenericCodec ...
 type GenericCodec struct {
 	ProcBase
@@ -83,7 +97,7 @@ func (gc *GenericCodec) OnLowerData(context Context) {
 			return
 		}
 
-		message, err := gc.decoder(ub)
+		message, err := gc.decoder(ubufReader{ub})
 		if err != nil {
 			fmt.Println("GenericCodec: encode error:", err)
 			return
diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..34265a9 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -58,7 +58,7 @@ func (g *GOBCodec) OnLowerData(context Context) {
 		}
 
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		err := gob.NewDecoder(ubufReader{ub}).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
-- 
2.43.0


From b1ebfff0893f12bd09027322ccaaeb15de9f9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 14/32] fix: packet counters lost counts when used by several
 routines

Each endpoint and each connection has its own routine, all of them
incremented the StatCounter/Filter/Forwarder counters without synchronization.
---
 proc_filter.go       | 11 +++++++----
 proc_forwarder.go    | 11 +++++++----
 proc_stat_counter.go | 14 ++++++++------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 486fdcb..72101b3 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -4,14 +4,17 @@
 
 package ustack
 
+import "sync/atomic"
+
 type FilterFn func(context Context, toUpper bool) bool
 
 // Filter ...
 type Filter struct {
-	ProcBase
-	filterFn  []FilterFn
+	// keep the counters first, atomic access needs 64-bit alignment
 	txCounter uint64
 	rxCounter uint64
+	ProcBase
+	filterFn []FilterFn
 }
 
 // NewFilter ...
@@ -42,7 +45,7 @@ func (filter *Filter) doFilter(context Context, toUpper bool) bool {
 func (filter *Filter) OnUpperData(context Context) {
 	if filter.enable {
 		if !filter.doFilter(context, false) {
-			filter.txCounter++
+			atomic.AddUint64(&filter.txCounter, 1)
 			return
 		}
 	}
@@ -54,7 +57,7 @@ func (filter *Filter) OnUpperData(context Context) {
 func (filter *Filter) OnLowerData(context Context) {
 	if filter.enable {
 		if !filter.doFilter(context, true) {
-			filter.rxCounter++
+			atomic.AddUint64(&filter.rxCounter, 1)
 			return
 		}
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index b68ac3d..018635f 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -4,14 +4,17 @@
 
 package ustack
 
+import "sync/atomic"
+
 type ForwardFn func(context Context, toUpper bool) bool
 
 // Forwarder ...
 type Forwarder struct {
-	ProcBase
-	forwardFn []ForwardFn
+	// keep the counters first, atomic access needs 64-bit alignment
 	txCounter uint64
 	rxCounter uint64
+	ProcBase
+	forwardFn []ForwardFn
 }
 
 // NewForwarder ...
@@ -42,7 +45,7 @@ func (fwd *Forwarder) doForward(context Context, toUpper bool) bool {
 func (fwd *Forwarder) OnUpperData(context Context) {
 	if fwd.enable {
 		if fwd.doForward(context, false) {
-			fwd.txCounter++
+			atomic.AddUint64(&fwd.txCounter, 1)
 			return
 		}
 	}
@@ -54,7 +57,7 @@ func (fwd *Forwarder) OnUpperData(context Context) {
 func (fwd *Forwarder) OnLowerData(context Context) {
 	if fwd.enable {
 		if fwd.doForward(context, true) {
-			fwd.rxCounter++
+			atomic.AddUint64(&fwd.rxCounter, 1)
 			return
 		}
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 0d43465..5cae392 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,10 +18,11 @@ const (
 
 // StatCounter ...
 type StatCounter struct {
+	// keep the counters first, atomic access needs 64-bit alignment
+	txCounter uint64
+	rxCounter uint64
 	ProcBase
 	intervalInSecond int
-	txCounter        uint64
-	rxCounter        uint64
 }
 
 // NewStatCounter ...
@@ -57,7 +59,7 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
-		sc.txCounter++
+		atomic.AddUint64(&sc.txCounter, 1)
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -86,8 +88,8 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
-	ub.WriteU64BE(sc.txCounter)
-	ub.WriteU64BE(sc.rxCounter)
+	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))
+	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -137,7 +139,7 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
-			sc.rxCounter++
+			atomic.AddUint64(&sc.rxCounter, 1)
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	}
-- 
2.43.0


From 17ea0a777422d05445a1d659f1aebaf73383c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 15/32] fix: deleting an endpoint raced with its routines

The endpoint routine read the endpoints map without lock (fatal concurrent
map access) and, if busy during the deletion, found no stop channel any more
and went on sending for ever. A connection waiting for room in the receive
channel of a deleted endpoint was blocked for ever. Two endpoints with the
same session could be accepted concurrently.
---
 proc_upperdeck.go | 48 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..64055b6 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -15,10 +15,8 @@ type UpperDeck struct {
 	endpoints map[EndPoint]chan bool
 }
 
+// existsEndpoint is called with lock
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -29,14 +27,15 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
+	ud.Lock()
+	defer ud.Unlock()
+
 	if ud.existsEndpoint(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
-
-	ud.endpoints[ep] = make(chan bool, 1)
+	stop := make(chan bool)
+	ud.endpoints[ep] = stop
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -47,11 +46,16 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	go func() {
 		for {
 			select {
-			case stop := <-ud.endpoints[ep]:
-				if stop {
+			case <-stop:
+				return
+			case epd := <-txchan:
+				// both may be ready
+				select {
+				case <-stop:
 					return
+				default:
 				}
-			case epd := <-txchan:
+
 				destinationSession := session
 				if epd.HasDestinationSession() {
 					destinationSession = epd.GetDestinationSession()
@@ -72,24 +76,24 @@ func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	ch, ok := ud.endpoints[ep]
+	stop, ok := ud.endpoints[ep]
 	if ok {
-		ch <- true
-		close(ch)
+		close(stop)
 		delete(ud.endpoints, ep)
 	}
 }
 
-func (ud *UpperDeck) findEndPoint(session int) EndPoint {
+// findEndPoint returns the endpoint and the channel closed on its deletion
+func (ud *UpperDeck) findEndPoint(session int) (EndPoint, chan bool) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	for ep := range ud.endpoints {
+	for ep, stop := range ud.endpoints {
 		if ep.GetSession() == session {
-			return ep
+			return ep, stop
 		}
 	}
-	return nil
+	return nil, nil
 }
 
 // NewUpperDeck returns a new instance
@@ -111,11 +115,17 @@ func (ud *UpperDeck) OnLowerData(context Context) {
 	// the default is 0 if seesion is not enabled
 	session, _ := OptionParseInt(context.GetOption("session"), 0)
 
-	ep := ud.findEndPoint(session)
+	ep, stop := ud.findEndPoint(session)
 	if ep != nil {
-		ep.GetRxChannel() <- NewEndPointData().
+		epd := NewEndPointData().
 			SetConnection(context.GetConnection()).
 			SetData(message)
+
+		select {
+		case ep.GetRxChannel() <- epd:
+		case <-stop:
+			// deleted while waiting for the endpoint to receive
+		}
 	}
 }
 
-- 
2.43.0


From a7650daf4c3f0b1451ee83bbc0323db8fabdb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:33 +0000
Subject: [PATCH 16/32] fix: endpoints, transports and listeners changed
 without lock while running

They are added and deleted by the application while other routines publish
events. A deletion shifted the elements in place, so an endpoint could be
skipped or notified twice. Deleting or adding from within the corresponding
event recursed for ever, as the list was only changed after the publishing.
---
 ustack_default.go | 120 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 86 insertions(+), 34 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..c06d3d3 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -4,7 +4,10 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 const (
 	defaultMTU int = 2048
@@ -77,9 +80,12 @@ func (c *DefaultUStackContext) GetMessage() interface{} {
 
 // DefaultUStack ...
 type DefaultUStack struct {
-	name       string
-	mtu        int
-	options    map[string]interface{}
+	name    string
+	mtu     int
+	options map[string]interface{}
+	// mutex protects the slices below that may be changed while running,
+	// a slice is replaced on change but never modified
+	mutex      sync.Mutex
 	features   []Feature
 	endpoints  []EndPoint
 	transports []Transport
@@ -172,13 +178,16 @@ func (u *DefaultUStack) GetOption(name string) interface{} {
 
 // AddFeature ...
 func (u *DefaultUStack) AddFeature(feature Feature) UStack {
-	u.features = append(u.features, feature)
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	u.features = append(u.features[:len(u.features):len(u.features)], feature)
 	return u
 }
 
 // GetFeature ...
 func (u *DefaultUStack) GetFeature(name string) Feature {
-	for _, feature := range u.features {
+	for _, feature := range u.GetFeatures() {
 		if feature.GetName() == name {
 			return feature
 		}
@@ -188,52 +197,70 @@ func (u *DefaultUStack) GetFeature(name string) Feature {
 
 // GetFeatures ...
 func (u *DefaultUStack) GetFeatures() []Feature {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.features
 }
 
 // AddEndPoint ...
 func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
-	for _, endpoint := range u.endpoints {
+	u.mutex.Lock()
+
+	endpoints := u.endpoints
+	for _, endpoint := range endpoints {
 		if endpoint == ep {
 			// was added
+			u.mutex.Unlock()
 			return u
 		}
 	}
 
-	u.PublishEvent(Event{
+	u.endpoints = append(endpoints[:len(endpoints):len(endpoints)], ep)
+
+	u.mutex.Unlock()
+
+	// the new one is not notified
+	return u.publishEvent(Event{
 		Type:   UStackEventEndpointAdded,
 		Source: u,
 		Data:   ep,
-	})
-
-	u.endpoints = append(u.endpoints, ep)
-	return u
+	}, endpoints)
 }
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for i, endpoint := range u.endpoints {
+	u.mutex.Lock()
+
+	endpoints := u.endpoints
+	for i, endpoint := range endpoints {
 		if endpoint != ep {
 			continue
 		}
 
-		u.PublishEvent(Event{
+		// delete
+		u.endpoints = append(endpoints[:i:i], endpoints[i+1:]...)
+
+		u.mutex.Unlock()
+
+		// the deleted one is notified
+		return u.publishEvent(Event{
 			Type:   UStackEventEndpointDeleted,
 			Source: u,
 			Data:   ep,
-		})
-
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
-
-		break
+		}, endpoints)
 	}
 
+	u.mutex.Unlock()
+
 	return u
 }
 
 // GetEndPoint ...
 func (u *DefaultUStack) GetEndPoint() []EndPoint {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.endpoints
 }
 
@@ -255,62 +282,87 @@ func (u *DefaultUStack) GetMTU() int {
 
 // AddTransport ...
 func (u *DefaultUStack) AddTransport(tp Transport) UStack {
-	for _, transport := range u.transports {
+	u.mutex.Lock()
+
+	transports := u.transports
+	for _, transport := range transports {
 		if transport == tp {
 			// was added
+			u.mutex.Unlock()
 			return u
 		}
 	}
 
-	u.PublishEvent(Event{
+	u.transports = append(transports[:len(transports):len(transports)], tp)
+
+	u.mutex.Unlock()
+
+	return u.PublishEvent(Event{
 		Type:   UStackEventTransportAdded,
 		Source: u,
 		Data:   tp,
 	})
-
-	u.transports = append(u.transports, tp)
-	return u
 }
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
-	for i, transport := range u.transports {
+	u.mutex.Lock()
+
+	transports := u.transports
+	for i, transport := range transports {
 		if transport != tp {
 			continue
 		}
 
 		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
+		u.transports = append(transports[:i:i], transports[i+1:]...)
 
-		u.PublishEvent(Event{
+		u.mutex.Unlock()
+
+		return u.PublishEvent(Event{
 			Type:   UStackEventTransportDeleted,
 			Source: u,
 			Data:   tp,
 		})
-
-		break
 	}
 
+	u.mutex.Unlock()
+
 	return u
 }
 
 // GetTransport ...
 func (u *DefaultUStack) GetTransport() []Transport {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.transports
 }
 
 // SetEventListener ...
 func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
-	u.listeners = append(u.listeners, listener)
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	u.listeners = append(u.listeners[:len(u.listeners):len(u.listeners)], listener)
 	return u
 }
 
 // PublishEvent ...
 func (u *DefaultUStack) PublishEvent(event Event) UStack {
-	for _, listener := range u.listeners {
+	return u.publishEvent(event, u.GetEndPoint())
+}
+
+// publishEvent publishes to the given endpoints and everyone else
+func (u *DefaultUStack) publishEvent(event Event, endpoints []EndPoint) UStack {
+	u.mutex.Lock()
+	listeners := u.listeners
+	u.mutex.Unlock()
+
+	for _, listener := range listeners {
 		listener(event)
 	}
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range endpoints {
 		endpoint.OnEvent(event)
 	}
 	if u.upperDeck != nil {
@@ -329,7 +381,7 @@ func (u *DefaultUStack) PublishEvent(event Event) UStack {
 func (u *DefaultUStack) Run() UStack {
 	u.build()
 
-	for _, ft := range u.features {
+	for _, ft := range u.GetFeatures() {
 		ft.Run()
 	}
 
-- 
2.43.0


From 6646cd8e37d5ccb4b46dfe48cc85386d161a9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:08 +0000
Subject: [PATCH 17/32] fix: an endpoint or transport deleted by a listener of
 its Added event stayed active

The decks are notified after the listeners, so they saw the events in
reversed order.
---
 proc_lowerdeck.go | 15 +++++++++++++--
 proc_upperdeck.go | 16 ++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 7876bb2..b67e922 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -31,6 +31,16 @@ func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	})
 }
 
+// wasAdded tells if the transport is currently added to the ustack
+func (ld *LowerDeck) wasAdded(tp Transport) bool {
+	for _, transport := range ld.ustack.GetTransport() {
+		if transport == tp {
+			return true
+		}
+	}
+	return false
+}
+
 // acceptTransport ...
 func (ld *LowerDeck) acceptTransport(tp Transport) {
 
@@ -129,9 +139,10 @@ func (ld *LowerDeck) OnEvent(event Event) {
 		return
 	}
 
-	if event.Type == UStackEventTransportAdded {
+	// may be deleted or added again before this event arrived
+	if event.Type == UStackEventTransportAdded && ld.wasAdded(tp) {
 		ld.acceptTransport(tp)
-	} else if event.Type == UStackEventTransportDeleted {
+	} else if event.Type == UStackEventTransportDeleted && !ld.wasAdded(tp) {
 		ld.deleteTransport(tp)
 	}
 }
diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index 64055b6..ce54024 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -25,12 +25,23 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 	return false
 }
 
+// wasAdded tells if the endpoint is currently added to the ustack
+func (ud *UpperDeck) wasAdded(ep EndPoint) bool {
+	for _, endpoint := range ud.ustack.GetEndPoint() {
+		if endpoint == ep {
+			return true
+		}
+	}
+	return false
+}
+
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	if ud.existsEndpoint(ep) {
+	// may be deleted again before this event arrived
+	if !ud.wasAdded(ep) || ud.existsEndpoint(ep) {
 		return
 	}
 
@@ -76,8 +87,9 @@ func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
+	// may be added again before this event arrived
 	stop, ok := ud.endpoints[ep]
-	if ok {
+	if ok && !ud.wasAdded(ep) {
 		close(stop)
 		delete(ud.endpoints, ep)
 	}
-- 
2.43.0


From ba3a34d31d899e752b62912907c990a58640bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:09 +0000
Subject: [PATCH 18/32] fix: setters of NewFeatBase() and NewProcBase()
 returned another object

A chained call like NewFeatBase().SetName("x") lost the setting. There also
was no way to fix it for an embedded FeatBase, add SetWhere like in ProcBase.
---
 feat_base.go | 9 ++++++++-
 proc_base.go | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..0968067 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,7 +26,14 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
-	return &base
+	// NewFeatBaseInstance returns a copy
+	return base.SetWhere(&base)
+}
+
+// SetWhere where the base is embedded in
+func (fb *FeatBase) SetWhere(where Feature) Feature {
+	fb.where = where
+	return fb.where
 }
 
 // SetName set the name
diff --git a/proc_base.go b/proc_base.go
index 3fb8bab..721052b 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -35,7 +35,8 @@ func NewProcBaseInstance(name string) ProcBase {
 // NewProcBase return a new instance that meets for DataProcessor interface
 func NewProcBase() DataProcessor {
 	base := NewProcBaseInstance("ProcBase")
-	return &base
+	// NewProcBaseInstance returns a copy
+	return base.SetWhere(&base)
 }
 
 // SetWhere where the base is embedded in
-- 
2.43.0


From ec8fa790a733cb1c85c3c2a5f9828d4ef5740fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 19/32] fix: features never got their UStack nor any event

---
 ustack_default.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ustack_default.go b/ustack_default.go
index c06d3d3..92ab6a6 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -145,6 +145,10 @@ func (u *DefaultUStack) build() {
 		u.lowerDeck.SetUpper(u.processors[count-1])
 	}
 
+	for _, feature := range u.GetFeatures() {
+		feature.SetUStack(u)
+	}
+
 	for i := 0; i < count; i++ {
 		u.processors[i].SetUStack(u)
 		u.overhead += u.processors[i].GetOverhead()
@@ -371,6 +375,9 @@ func (u *DefaultUStack) publishEvent(event Event, endpoints []EndPoint) UStack {
 	for _, processor := range u.processors {
 		processor.OnEvent(event)
 	}
+	for _, feature := range u.GetFeatures() {
+		feature.OnEvent(event)
+	}
 	if u.lowerDeck != nil {
 		u.lowerDeck.OnEvent(event)
 	}
-- 
2.43.0


From 1f8d02110bae5530274a05c26a9a34010d544a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:59 +0000
Subject: [PATCH 20/32] fix: endpoint lost or reordered data when its data
 listener was changed

After clearing the listener the next data was taken and dropped. Setting a
listener twice could start two receiving routines, as the flag was only set
by the routine itself.
---
 endp_default.go | 64 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..c95248a 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -74,20 +76,44 @@ type DefaultEndPoint struct {
 	txChannel     chan EndPointData
 	rxChannel     chan EndPointData
 	eventListener func(EndPoint, Event)
-	dataListener  func(EndPoint, EndPointData)
-	inAutoReceive bool
+	// mutex protects the fields below
+	mutex        sync.Mutex
+	dataListener func(EndPoint, EndPointData)
+	// stops the auto receive routine, nil if not in auto receive
+	stopReceive chan bool
+	// closed when the last auto receive routine finished
+	receiveDone chan bool
 }
 
 // autoReceive ...
-func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
+func (ep *DefaultEndPoint) autoReceive(previous chan bool, stop chan bool, done chan bool) {
+	defer close(done)
+
+	// a stopped routine may still be handling its last data
+	if previous != nil {
+		<-previous
+	}
+
+	for {
+		select {
+		case <-stop:
+			return
+		default:
+		}
+
+		select {
+		case <-stop:
+			return
+		case epd, ok := <-ep.rxChannel:
+			if !ok {
 				return
 			}
-			ep.dataListener(ep, epd)
+
+			ep.mutex.Lock()
+			listener := ep.dataListener
+			ep.mutex.Unlock()
+
+			listener(ep, epd)
 		}
 	}
 }
@@ -101,7 +127,6 @@ func NewEndPoint(name string, session int) EndPoint {
 		rxChannel:     make(chan EndPointData, 512),
 		eventListener: nil,
 		dataListener:  nil,
-		inAutoReceive: false,
 	}
 }
 
@@ -113,9 +138,24 @@ func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndP
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
+	if listener == nil {
+		// keep the old one for the data being handled
+		if ep.stopReceive != nil {
+			close(ep.stopReceive)
+			ep.stopReceive = nil
+		}
+		return ep
+	}
+
 	ep.dataListener = listener
-	if !ep.inAutoReceive {
-		go ep.autoReceive()
+	if ep.stopReceive == nil {
+		previous := ep.receiveDone
+		ep.stopReceive = make(chan bool)
+		ep.receiveDone = make(chan bool)
+		go ep.autoReceive(previous, ep.stopReceive, ep.receiveDone)
 	}
 	return ep
 }
-- 
2.43.0


From 4bbf8d602c4fa7af2c5b5c2437b4862cf1fff634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:47 +0000
Subject: [PATCH 21/32] fix: closed flag of TCP and unix connections accessed
 without synchronization

It is set and tested by the application, sending and receiving routines.
---
 tran_tcp.go  | 13 +++++++------
 tran_unix.go | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..cff8383 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -18,7 +19,7 @@ import (
 type TCPTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewTCPTransportConnection ...
@@ -26,7 +27,7 @@ func NewTCPTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &TCPTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -37,7 +38,7 @@ func (c *TCPTransportConnection) GetName() string {
 
 // Read ...
 func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -54,7 +55,7 @@ func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *TCPTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -79,13 +80,13 @@ func (c *TCPTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *TCPTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *TCPTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) != 0
 }
 
 // TCPTransport ...
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..83d8269 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -12,6 +12,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,7 +20,7 @@ import (
 type UDSTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewUDSTransportConnection ...
@@ -27,7 +28,7 @@ func NewUDSTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &UDSTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -38,7 +39,7 @@ func (c *UDSTransportConnection) GetName() string {
 
 // Read ...
 func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -55,7 +56,7 @@ func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *UDSTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -80,13 +81,13 @@ func (c *UDSTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *UDSTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *UDSTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) != 0
 }
 
 // UDSTransport ...
-- 
2.43.0


From f79c37bbf7772dae1cb2f7427e4a0606766c5763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:48 +0000
Subject: [PATCH 22/32] fix: stopping a TCP or unix transport while it listens,
 accepts or dials

Stop closed the channel the routines were sending to (panic), reset the
listener they were using (nil dereference), did not stop a transport that
was not listening yet or still dialing, left connections open that were
queued or accepted meanwhile, and routines of a previous run stopped the
transport (or removed its socket file) after it was started again.
---
 tran_tcp.go  | 138 +++++++++++++++++++++++++++++++++++++------------
 tran_unix.go | 141 ++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 211 insertions(+), 68 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index cff8383..b176f6a 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -99,6 +99,8 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	// closed on Stop, each Run has its own one
+	stop chan bool
 	// for server
 	listener net.Listener
 	// for client
@@ -136,19 +138,45 @@ func (t *TCPTransport) parseOptions() {
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
 	t.next = make(chan TransportConnection, 16)
+	t.stop = make(chan bool)
 }
 
-// saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+// stopped tells if the Run that created the stop channel is stopped
+func (t *TCPTransport) stopped(stop chan bool) bool {
+	select {
+	case <-stop:
+		return true
+	default:
+		return false
+	}
+}
+
+// saveConnection closes and refuses the connection if already stopped
+func (t *TCPTransport) saveConnection(tc TransportConnection, stop chan bool) bool {
 	t.Lock()
 	defer t.Unlock()
 
-	for _, c := range t.connections {
-		if c == tc {
-			return
-		}
+	if t.stopped(stop) {
+		tc.Close()
+		return false
 	}
+
 	t.connections = append(t.connections, tc)
+	return true
+}
+
+// pushConnection makes the connection available for NextConnection
+func (t *TCPTransport) pushConnection(tc TransportConnection, next chan TransportConnection, stop chan bool) bool {
+	if !t.saveConnection(tc, stop) {
+		return false
+	}
+
+	select {
+	case next <- tc:
+		return true
+	case <-stop:
+		return false
+	}
 }
 
 // dropConnections ...
@@ -158,8 +186,15 @@ func (t *TCPTransport) dropConnections() {
 	}
 }
 
-// accept ...
-func (t *TCPTransport) accept() {
+// listen ...
+func (t *TCPTransport) listen(stop chan bool) net.Listener {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.stopped(stop) {
+		return nil
+	}
+
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
@@ -167,44 +202,64 @@ func (t *TCPTransport) accept() {
 
 	t.listener = listener
 
+	return listener
+}
+
+// accept ...
+func (t *TCPTransport) accept(next chan TransportConnection, stop chan bool) {
+	listener := t.listen(stop)
+	if listener == nil {
+		return
+	}
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		conn, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		if !t.pushConnection(
+			NewTCPTransportConnection(conn.RemoteAddr().String(), conn),
+			next, stop) {
+			break
+		}
 	}
 
-	t.Stop()
+	t.stopRun(stop)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, stop chan bool, maxRetryCount int, retryIntervalInSecond int) {
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < t.maxRetryCount; i++ {
+	for i := 0; i < maxRetryCount; i++ {
+		if t.stopped(stop) {
+			return
+		}
+
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
-				connection.RemoteAddr().String(),
-				connection)
+			t.pushConnection(
+				NewTCPTransportConnection(connection.RemoteAddr().String(), connection),
+				next, stop)
 			return
 		}
 
 		fmt.Println(err, "retry", i)
 
-		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(retryIntervalInSecond)):
+		case <-stop:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stopRun(stop)
 }
 
 // ForServer ...
@@ -243,11 +298,21 @@ func (t *TCPTransport) GetAddress() string {
 	return t.address
 }
 
-// NextConnection ...
+// NextConnection returns nil if stopped
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	next, stop := t.next, t.stop
+	t.Unlock()
+
+	select {
+	case tc := <-next:
+		if t.stopped(stop) {
+			return nil
+		}
+		return tc
+	case <-stop:
+		return nil
+	}
 }
 
 // Run ...
@@ -265,32 +330,41 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		go t.accept(t.next, t.stop)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.stop, t.maxRetryCount, t.retryIntervalInSecond)
 	}
 	return t
 }
 
 // Stop ...
 func (t *TCPTransport) Stop() Transport {
+	t.Lock()
+	stop := t.stop
+	t.Unlock()
+
+	t.stopRun(stop)
+
+	return t
+}
+
+// stopRun stops the Run that created the stop channel, if not yet stopped
+func (t *TCPTransport) stopRun(stop chan bool) {
 	t.Lock()
 	defer t.Unlock()
 
-	if !t.isRunning {
-		return t
+	if !t.isRunning || t.stop != stop {
+		return
 	}
 
+	close(stop)
+
 	if t.listener != nil {
 		t.listener.Close()
 		t.listener = nil
 	}
 
-	close(t.next)
-
 	t.dropConnections()
 
 	t.isRunning = false
-
-	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index 83d8269..8bf3a45 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -100,6 +100,8 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	// closed on Stop, each Run has its own one
+	stop chan bool
 	// for server
 	listener net.Listener
 	// for client
@@ -137,23 +139,45 @@ func (uds *UDSTransport) parseOptions() {
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
 	uds.next = make(chan TransportConnection, 16)
+	uds.stop = make(chan bool)
 }
 
-// saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
+// stopped tells if the Run that created the stop channel is stopped
+func (uds *UDSTransport) stopped(stop chan bool) bool {
+	select {
+	case <-stop:
+		return true
+	default:
+		return false
 	}
+}
 
+// saveConnection closes and refuses the connection if already stopped
+func (uds *UDSTransport) saveConnection(tc TransportConnection, stop chan bool) bool {
 	uds.Lock()
 	defer uds.Unlock()
 
-	for _, c := range uds.connections {
-		if c == tc {
-			return
-		}
+	if uds.stopped(stop) {
+		tc.Close()
+		return false
 	}
+
 	uds.connections = append(uds.connections, tc)
+	return true
+}
+
+// pushConnection makes the connection available for NextConnection
+func (uds *UDSTransport) pushConnection(tc TransportConnection, next chan TransportConnection, stop chan bool) bool {
+	if !uds.saveConnection(tc, stop) {
+		return false
+	}
+
+	select {
+	case next <- tc:
+		return true
+	case <-stop:
+		return false
+	}
 }
 
 // dropConnections ...
@@ -163,8 +187,15 @@ func (uds *UDSTransport) dropConnections() {
 	}
 }
 
-// accept ...
-func (uds *UDSTransport) accept() {
+// listen ...
+func (uds *UDSTransport) listen(stop chan bool) net.Listener {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.stopped(stop) {
+		return nil
+	}
+
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -172,47 +203,66 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
 	uds.listener = listener
 
+	return listener
+}
+
+// accept ...
+func (uds *UDSTransport) accept(next chan TransportConnection, stop chan bool) {
+	listener := uds.listen(stop)
+	if listener == nil {
+		return
+	}
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		conn, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		if !uds.pushConnection(
+			NewUDSTransportConnection(conn.RemoteAddr().String(), conn),
+			next, stop) {
+			break
+		}
 	}
 
-	uds.Stop()
+	uds.stopRun(stop)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, stop chan bool, maxRetryCount int, retryIntervalInSecond int) {
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < uds.maxRetryCount; i++ {
+	for i := 0; i < maxRetryCount; i++ {
+		if uds.stopped(stop) {
+			return
+		}
+
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
-				connection.RemoteAddr().String(),
-				connection)
+			uds.pushConnection(
+				NewUDSTransportConnection(connection.RemoteAddr().String(), connection),
+				next, stop)
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(retryIntervalInSecond)):
+		case <-stop:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+
+	uds.stopRun(stop)
 }
 
 // ForServer ...
@@ -251,11 +301,21 @@ func (uds *UDSTransport) GetAddress() string {
 	return uds.filename
 }
 
-// NextConnection ...
+// NextConnection returns nil if stopped
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	next, stop := uds.next, uds.stop
+	uds.Unlock()
+
+	select {
+	case tc := <-next:
+		if uds.stopped(stop) {
+			return nil
+		}
+		return tc
+	case <-stop:
+		return nil
+	}
 }
 
 // Run ...
@@ -273,32 +333,41 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		go uds.accept(uds.next, uds.stop)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.stop, uds.maxRetryCount, uds.retryIntervalInSecond)
 	}
 	return uds
 }
 
 // Stop ...
 func (uds *UDSTransport) Stop() Transport {
+	uds.Lock()
+	stop := uds.stop
+	uds.Unlock()
+
+	uds.stopRun(stop)
+
+	return uds
+}
+
+// stopRun stops the Run that created the stop channel, if not yet stopped
+func (uds *UDSTransport) stopRun(stop chan bool) {
 	uds.Lock()
 	defer uds.Unlock()
 
-	if !uds.isRunning {
-		return uds
+	if !uds.isRunning || uds.stop != stop {
+		return
 	}
 
+	close(stop)
+
 	if uds.listener != nil {
 		uds.listener.Close()
 		uds.listener = nil
 	}
 
-	close(uds.next)
-
 	uds.dropConnections()
 
 	uds.isRunning = false
-
-	return uds
 }
-- 
2.43.0


From 735e6313cb02c2f7875dde19e54d3634c1d4ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:21 +0000
Subject: [PATCH 23/32] fix: reference transport could not be stopped nor its
 connections closed

Run never marked the transport as running, so Stop did nothing (and would
have dereferenced a nil connection if none was taken yet) and a second Run
blocked for ever. Close only set an unsynchronized flag, a routine blocked
in GetReference or SetReference never noticed it. Closing the channels of
the pair on the last Stop would have made a concurrent sender panic.
---
 tran_reference.go | 81 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..4edabce 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -48,20 +48,14 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
-	closed    bool
 	channel   *referenceChannel
+	// closed on Close
+	closed    chan bool
+	closeOnce sync.Once
 }
 
 // NewReferenceTransportConnection ...
@@ -73,8 +67,8 @@ func NewReferenceTransportConnection(
 	return &ReferenceTransportConnection{
 		name:      name,
 		forServer: forServer,
-		closed:    false,
 		channel:   channel,
+		closed:    make(chan bool),
 	}
 }
 
@@ -100,25 +94,27 @@ func (c *ReferenceTransportConnection) UseReference() bool {
 
 // GetReference ...
 func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("GetReference failed as connection is closed")
 		return nil, errors.New("SetReference: connection is closed")
 	}
 
-	var data interface{}
-
+	rx := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rx = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data := <-rx:
+		return data, nil
+	case <-c.closed:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
 func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("SetReference failed as connection is closed")
 		return errors.New("SetReference: connection is closed")
 	}
@@ -127,23 +123,32 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	tx := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		tx = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case tx <- p:
+		return nil
+	case <-c.closed:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
-	c.closed = true
+	c.closeOnce.Do(func() { close(c.closed) })
 }
 
 // Closed ...
 func (c *ReferenceTransportConnection) Closed() bool {
-	return c.closed
+	select {
+	case <-c.closed:
+		return true
+	default:
+		return false
+	}
 }
 
 // ReferenceTransport ...
@@ -219,9 +224,12 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	next := sm.next
+	sm.Unlock()
+
+	// nil if stopped
+	return <-next
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,6 +247,8 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
 	mutex.Lock()
@@ -253,7 +263,12 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	if sm.connection != nil {
+		// was stopped
+		sm.next = make(chan TransportConnection, 1)
+	}
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.next <- sm.connection
 
 	mutex.Unlock()
 
@@ -269,6 +284,15 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
+	sm.isRunning = false
+
+	// drop the connection if not yet taken
+	select {
+	case <-sm.next:
+	default:
+	}
+	close(sm.next)
+
 	sm.connection.Close()
 
 	mutex.Lock()
@@ -279,7 +303,6 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 		if ch.refCount == 0 {
 			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
 		}
 	}
 
-- 
2.43.0


From e3563705fa4e80404e2e40750236e54a91dfada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 24/32] fix: listeners of HeartbeatLost ran with the heartbeat
 lock held

A listener that has data received or publishes another connection event
then waits for the same lock for ever.  Collect the lost connections under
the lock and close and publish without it.
---
 proc_heartbeat.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3aa24ca..2446e7f 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -56,24 +56,35 @@ func (hb *Heartbeat) deleteMonitor(connection TransportConnection) {
 	}
 }
 
-// deleteMonitor ...
-func (hb *Heartbeat) check() {
+// takeLostConnections ...
+func (hb *Heartbeat) takeLostConnections() []TransportConnection {
 	hb.mutex.Lock()
 	defer hb.mutex.Unlock()
 
-	if len(hb.monitors) == 0 {
-		return
-	}
+	var connections []TransportConnection
 
 	for connection, lastTime := range hb.monitors {
 		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
 			continue
 		}
 
-		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
-
 		delete(hb.monitors, connection)
 
+		connections = append(connections, connection)
+	}
+
+	return connections
+}
+
+// check ...
+func (hb *Heartbeat) check() {
+	for _, connection := range hb.takeLostConnections() {
+		if connection.Closed() {
+			continue
+		}
+
+		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
+
 		if hb.closeOnLost {
 			connection.Close()
 		}
-- 
2.43.0


From 54771c4e110caec2b3096febe0e05daf7a76f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:17 +0000
Subject: [PATCH 25/32] fix: Heartbeat and StatCounter closed reference
 connections

Their own messages are buffers, sending one on a reference connection fails
with a null reference and the connection is closed for it.
---
 proc_heartbeat.go    | 6 +++++-
 proc_stat_counter.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 2446e7f..ec848d9 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -153,7 +153,11 @@ func (hb *Heartbeat) OnLowerData(context Context) {
 func (hb *Heartbeat) OnEvent(event Event) {
 	if event.Type == UStackEventNewConnection {
 		interval := hb.intervalInSecond
-		connection := event.Data.(TransportConnection)
+		connection, ok := event.Data.(TransportConnection)
+		if !ok || connection.UseReference() {
+			// no heartbeat on reference
+			return
+		}
 
 		hb.updateMonitor(connection)
 
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 5cae392..d97b94d 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -156,7 +156,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 			return
 		}
 
-		connection := event.Data.(TransportConnection)
+		connection, ok := event.Data.(TransportConnection)
+		if !ok || connection.UseReference() {
+			// no collection on reference
+			return
+		}
 
 		go func() {
 			for {
-- 
2.43.0


From be8dd5d03c454af7edeef4b729a8fd7f576b39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:18 +0000
Subject: [PATCH 26/32] fix: Heartbeat reported closed connections as lost

A closed connection stayed monitored until the next heartbeat was due,
which may be after the timeout.
---
 proc_heartbeat.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index ec848d9..089e2d5 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -185,6 +185,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 				time.Sleep(time.Second * time.Duration(interval))
 			}
 		}()
+	} else if event.Type == UStackEventConnectionClosed {
+		connection, ok := event.Data.(TransportConnection)
+		if ok {
+			hb.deleteMonitor(connection)
+		}
 	}
 }
 
-- 
2.43.0


From ce37d667fe4f433d59535f35c68d38d9172007b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 27/32] fix: disabled StatCounter passed collection messages to
 the upper layer

---
 proc_stat_counter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index d97b94d..d208eef 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -127,6 +127,11 @@ func (sc *StatCounter) OnLowerData(context Context) {
 		return
 	}
 
+	if !sc.enable && (tag == StatCounterSelfMessageReqTag || tag == StatCounterSelfMessageResTag) {
+		// not for uplayer
+		return
+	}
+
 	if sc.enable {
 		if tag == StatCounterSelfMessageReqTag {
 			// fmt.Printf("StatCounter: collect request received on connection: %s\n",
-- 
2.43.0


From 8eb5eebbd1063c7c5f78cefd6c927299318980af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:33 +0000
Subject: [PATCH 28/32] fix: data of an endpoint was lost if it was deleted and
 added again

---
 proc_upperdeck.go | 104 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 24 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index ce54024..5febba2 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -8,11 +8,50 @@ import (
 	"sync"
 )
 
+// endpointRoutine is the routine that passes data of an endpoint to lower
+type endpointRoutine struct {
+	// closed on deletion of the endpoint
+	stop chan bool
+	// closed when the routine finished
+	done chan bool
+	// held while waiting for data
+	mutex sync.Mutex
+}
+
+// next returns false if stopped
+func (r *endpointRoutine) next(txchan chan EndPointData) (EndPointData, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
+	// both may be ready below
+	select {
+	case <-r.stop:
+		return nil, false
+	default:
+	}
+
+	select {
+	case <-r.stop:
+		return nil, false
+	case epd := <-txchan:
+		return epd, true
+	}
+}
+
+// cancel makes sure that no more data is taken from the endpoint
+func (r *endpointRoutine) cancel() {
+	close(r.stop)
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+}
+
 // UpperDeck manages endpoints
 type UpperDeck struct {
 	ProcBase
 	sync.Mutex
 	endpoints map[EndPoint]chan bool
+	// latest routine of an endpoint, until it finished
+	routines map[EndPoint]*endpointRoutine
 }
 
 // existsEndpoint is called with lock
@@ -45,8 +84,13 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 		return
 	}
 
-	stop := make(chan bool)
-	ud.endpoints[ep] = stop
+	routine := &endpointRoutine{
+		stop: make(chan bool),
+		done: make(chan bool),
+	}
+	previous := ud.routines[ep]
+	ud.routines[ep] = routine
+	ud.endpoints[ep] = routine.stop
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -55,43 +99,54 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	// create routinue for each endpoint
 	// read data from endpoint and pass it to lower
 	go func() {
+		defer ud.finishRoutine(ep, routine)
+
+		// was deleted but may still be passing its last data
+		if previous != nil {
+			<-previous.done
+		}
+
 		for {
-			select {
-			case <-stop:
+			epd, ok := routine.next(txchan)
+			if !ok {
 				return
-			case epd := <-txchan:
-				// both may be ready
-				select {
-				case <-stop:
-					return
-				default:
-				}
-
-				destinationSession := session
-				if epd.HasDestinationSession() {
-					destinationSession = epd.GetDestinationSession()
-				}
-
-				lower.OnUpperData(
-					NewUStackContext().
-						SetConnection(epd.GetConnection()).
-						SetMessage(epd.GetData()).
-						SetOption("session", destinationSession))
 			}
+
+			destinationSession := session
+			if epd.HasDestinationSession() {
+				destinationSession = epd.GetDestinationSession()
+			}
+
+			lower.OnUpperData(
+				NewUStackContext().
+					SetConnection(epd.GetConnection()).
+					SetMessage(epd.GetData()).
+					SetOption("session", destinationSession))
 		}
 	}()
 }
 
+// finishRoutine ...
+func (ud *UpperDeck) finishRoutine(ep EndPoint, routine *endpointRoutine) {
+	ud.Lock()
+	defer ud.Unlock()
+
+	close(routine.done)
+	if ud.routines[ep] == routine {
+		delete(ud.routines, ep)
+	}
+}
+
 // deleteTransport ...
 func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
 	// may be added again before this event arrived
-	stop, ok := ud.endpoints[ep]
+	_, ok := ud.endpoints[ep]
 	if ok && !ud.wasAdded(ep) {
-		close(stop)
 		delete(ud.endpoints, ep)
+		ud.routines[ep].cancel()
 	}
 }
 
@@ -113,6 +168,7 @@ func NewUpperDeck() DataProcessor {
 	ud := &UpperDeck{
 		ProcBase:  NewProcBaseInstance("UpperDeck"),
 		endpoints: make(map[EndPoint]chan bool, 1),
+		routines:  make(map[EndPoint]*endpointRoutine, 1),
 	}
 	return ud.ProcBase.SetWhere(ud)
 }
-- 
2.43.0


From 24722b38f1a5a6bebb4c041d0d9181834e9896e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:43 +0000
Subject: [PATCH 29/32] fix: decoders that read until the end of data always
 failed

---
 proc_codec_generic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index 623b60d..7cffbec 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -29,6 +29,10 @@ func (r ubufReader) Read(p []byte) (n int, err error) {
 	if len(p) > 0 && r.ReadableLength() == 0 {
 		return 0, io.EOF
 	}
+	// less data than asked is not an error for decoder
+	if len(p) > r.ReadableLength() {
+		p = p[:r.ReadableLength()]
+	}
 	return r.UBuf.Read(p)
 }
 
-- 
2.43.0


From 3ad558a30c6c5ef908250a0099a239f7ec016c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:44 +0000
Subject: [PATCH 30/32] fix: message copied by an encoder from a reader was
 truncated

---
 proc_codec_generic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index 7cffbec..7f20876 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -36,6 +36,17 @@ func (r ubufReader) Read(p []byte) (n int, err error) {
 	return r.UBuf.Read(p)
 }
 
+// ubufWriter writes the encoded data to UBuf. UBuf.ReadFrom reads only once,
+// the data copied by encoder would be truncated
+type ubufWriter struct {
+	*UBuf
+}
+
+// ReadFrom implements io.ReaderFrom interface
+func (w ubufWriter) ReadFrom(r io.Reader) (n int64, err error) {
+	return io.Copy(struct{ io.Writer }{w.UBuf}, r)
+}
+
 // GenericCodec ...
 type GenericCodec struct {
 	ProcBase
@@ -76,7 +87,7 @@ func (gc *GenericCodec) OnUpperData(context Context) {
 			gc.ustack.GetMTU(),
 			gc.ustack.GetOverhead())
 
-		err := gc.encoder(message, ub)
+		err := gc.encoder(message, ubufWriter{ub})
 		if err != nil {
 			fmt.Println("GenericCodec: encode error:")
 			return
-- 
2.43.0


From 481904da566fc9c62906f01b6d44d5efa6c50e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:44 +0000
Subject: [PATCH 31/32] fix: forget closed connections of TCP and unix-socket
 transports

A server transport kept every connection it ever accepted until it was
stopped, so a long running server held the memory of all the ended ones.
---
 tran_tcp.go  | 10 +++++++++-
 tran_unix.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index b176f6a..911989c 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -161,7 +161,15 @@ func (t *TCPTransport) saveConnection(tc TransportConnection, stop chan bool) bo
 		return false
 	}
 
-	t.connections = append(t.connections, tc)
+	// forget the connections closed meanwhile
+	connections := make([]TransportConnection, 0, len(t.connections)+1)
+	for _, c := range t.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	t.connections = append(connections, tc)
 	return true
 }
 
diff --git a/tran_unix.go b/tran_unix.go
index 8bf3a45..1ae2d12 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -162,7 +162,15 @@ func (uds *UDSTransport) saveConnection(tc TransportConnection, stop chan bool)
 		return false
 	}
 
-	uds.connections = append(uds.connections, tc)
+	// forget the connections closed meanwhile
+	connections := make([]TransportConnection, 0, len(uds.connections)+1)
+	for _, c := range uds.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	uds.connections = append(connections, tc)
 	return true
 }
 
-- 
2.43.0


From 99c08febbce86846b88aa990f8b9d93117c75fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:46 +0000
Subject: [PATCH 32/32] fix: keep accepting after a temporary accept failure

TCP and unix server transports stopped themselves, closing all their
connections, when Accept failed for a passing reason such as no file
descriptor being left.
---
 tran_tcp.go  | 8 ++++++++
 tran_unix.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/tran_tcp.go b/tran_tcp.go
index 911989c..31cbe07 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -225,6 +225,14 @@ func (t *TCPTransport) accept(next chan TransportConnection, stop chan bool) {
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
+			// e.g. out of file descriptors, clients can be accepted later
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				select {
+				case <-time.After(time.Millisecond * 100):
+					continue
+				case <-stop:
+				}
+			}
 			break
 		}
 
diff --git a/tran_unix.go b/tran_unix.go
index 1ae2d12..3ded2f1 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -228,6 +228,14 @@ func (uds *UDSTransport) accept(next chan TransportConnection, stop chan bool) {
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
+			// e.g. out of file descriptors, clients can be accepted later
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				select {
+				case <-time.After(time.Millisecond * 100):
+					continue
+				case <-stop:
+				}
+			}
 			break
 		}
 
-- 
2.43.0

