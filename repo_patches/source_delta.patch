From a87af0cc8f85fd1c2c4622df12b79298966a6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 01/26] fix: filter and forwarder called a nil function first

make([]Fn, 1) left a nil function at index 0 that was called for every
message and crashed the process.
---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From bfca02400877b7a4f254adb4d853ee8fc024f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:07 +0000
Subject: [PATCH 02/26] fix: UBuf lost or repeated bytes when a stream moved
 data and failed

ReadFrom dropped bytes that a reader returned together with an error or
end of stream; WriteTo kept bytes a writer had accepted before failing, so
a retry sent them again.
---
 ubuf.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..a82159c 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -351,14 +351,12 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, nil
 	}
 
+	// part of the data may be written even if there is an error
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
 
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
@@ -471,14 +469,12 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 
 	ub.resolveCopyOnWriteIfNeed()
 
+	// the data may come together with an error
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
 
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From 8ab6c10b2f1a3f88de31984f90003c97d05c5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:10 +0000
Subject: [PATCH 03/26] fix: UBufFrom with spare capacity panicked

The capacity counts cap(data) but the bytes beyond len(data) were out of
range for writes.
---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index a82159c..b33fe22 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From 51efeb43c659f35b045d576178dd311a44b34b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:11 +0000
Subject: [PATCH 04/26] fix: copy-on-write snapshots were not isolated

The shared bytes were released before they had been copied, so the last
other holder could modify them during the copy. A head write moved the
writer index before the copy was made, which panicked or lost the
readable data.
---
 ubuf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index b33fe22..3a5f151 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,9 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count, the others may reuse the old data from now on
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
@@ -564,6 +564,9 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// the readable data must be copied before moving the writerIndex
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From 235a3ffd3bfbc02339f061543f464341a54a0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:38 +0000
Subject: [PATCH 05/26] fix: frame decoder lost, merged and corrupted frames

- the length field does not count itself, but was compared with the length
  including it, so the last frame of a read was delivered truncated or the
  rest of the stream was misread
- one cache was shared by all connections
- the cache was never compacted and overflowed
- an empty frame crashed the process, a frame longer than the cache wedged
  the connection
- a frame taken from the cache had no head room, so it could not be echoed
- references sent down were handed back up forever
---
 proc_frame_decoder.go | 139 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 116 insertions(+), 23 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..4bf7b6f 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf, 16),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -36,7 +38,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
@@ -47,17 +49,79 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 		}
 
 		// add frame length in head space
-		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		if err != nil {
+			return
+		}
 	}
 
 	frm.lower.OnUpperData(context)
 }
 
+// getCache returns the cache of the connection
+func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache, ok := frm.caches[connection]
+	if !ok {
+		cache = UBufAlloc(frm.cacheCapacity)
+		frm.caches[connection] = cache
+	}
+	return cache
+}
+
+// deleteCache drops the cache of the connection
+func (frm *FrameDecoder) deleteCache(connection TransportConnection) {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	delete(frm.caches, connection)
+}
+
+// cacheData puts the data into the cache of the connection
+func (frm *FrameDecoder) cacheData(connection TransportConnection, ub *UBuf) {
+	cache := frm.getCache(connection)
+
+	if cache.TailWritableLength() < ub.ReadableLength() {
+		// move the cached data to the front of a cache with enough room
+		capacity := cache.ReadableLength() + ub.ReadableLength()
+		if capacity < frm.cacheCapacity {
+			capacity = frm.cacheCapacity
+		}
+
+		newCache := UBufAlloc(capacity)
+		newCache.ReadFrom(cache)
+		cache = newCache
+
+		frm.mutex.Lock()
+		frm.caches[connection] = cache
+		frm.mutex.Unlock()
+	}
+
+	cache.ReadFrom(ub)
+}
+
+// isBadFrame returns true if the frame is too long to be received
+func (frm *FrameDecoder) isBadFrame(length uint32) bool {
+	return int64(length) > int64(frm.cacheCapacity) &&
+		int64(length) > int64(frm.ustack.GetMTU())
+}
+
+// handleBadFrame gives up the connection, no frame boundary can be found any more
+func (frm *FrameDecoder) handleBadFrame(connection TransportConnection) {
+	fmt.Println("FrameDecoder: bad frame on connection", connection.GetName())
+	frm.deleteCache(connection)
+	connection.Close()
+}
+
 // handleCurrentData ...
 func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
+	connection := context.GetConnection()
+
 	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
+	if frm.getCache(connection).ReadableLength() > 0 {
+		frm.cacheData(connection, ub)
 		return
 	}
 
@@ -66,22 +130,27 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	for {
 		// very less data, cache the data
 		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
+			frm.cacheData(connection, ub)
 			return
 		}
 
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			frm.deleteCache(connection)
 			return
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		if frm.isBadFrame(expectedLength) {
+			frm.handleBadFrame(connection)
+			return
+		}
+
+		actuallyLength := uint32(ub.ReadableLength() - FrameLengthFieldSizeInByte)
 
 		// not a complete frame, cache the data
 		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
+			frm.cacheData(connection, ub)
 			return
 		}
 
@@ -97,7 +166,10 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		// keep the room for size-field-data, the frame may be sent back
+		newUbuf := UBufAllocWithHeadReserved(
+			int(expectedLength)+FrameLengthFieldSizeInByte,
+			FrameLengthFieldSizeInByte)
 
 		// drop size-field-data by dummy reading
 		ub.ReadU32BE()
@@ -106,7 +178,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			frm.deleteCache(connection)
 			return
 		}
 
@@ -119,12 +191,15 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 // handleCachedData ...
 func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
+	connection := context.GetConnection()
+	cache := frm.getCache(connection)
+
 	// handle as much as possiable with loop
 	for {
-		cachedLength := frm.cache.ReadableLength()
+		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -133,29 +208,37 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		expectedLength, err := frm.cache.PeekU32BE()
+		expectedLength, err := cache.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			frm.deleteCache(connection)
+			return
+		}
+
+		if frm.isBadFrame(expectedLength) {
+			frm.handleBadFrame(connection)
 			return
 		}
 
-		if cachedLength < int(expectedLength) {
+		if cachedLength-FrameLengthFieldSizeInByte < int(expectedLength) {
 			// wait for more data
 			return
 		}
 
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		// keep the room for size-field-data, the frame may be sent back
+		newUbuf := UBufAllocWithHeadReserved(
+			int(expectedLength)+FrameLengthFieldSizeInByte,
+			FrameLengthFieldSizeInByte)
 
 		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
+		cache.ReadU32BE()
 
 		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
+		_, err = io.CopyN(newUbuf, cache, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			frm.deleteCache(connection)
 			return
 		}
 
@@ -189,6 +272,18 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 }
 
+// OnEvent ...
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type != UStackEventConnectionClosed {
+		return
+	}
+
+	connection, ok := event.Data.(TransportConnection)
+	if ok {
+		frm.deleteCache(connection)
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -199,7 +294,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From 012f970c261867f2800c26e485568c8fdf6e5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:32 +0000
Subject: [PATCH 06/26] fix: truncated messages made the GOB and generic codecs
 spin forever

UBuf.Read returns (0, nil) at the end of its data, which io.ReadFull and the
gob decoder retry endlessly.
---
 proc_codec_generic.go |  2 +-
 proc_codec_gob.go     | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..c89f99a 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -83,7 +83,7 @@ func (gc *GenericCodec) OnLowerData(context Context) {
 			return
 		}
 
-		message, err := gc.decoder(ub)
+		message, err := gc.decoder(newPayloadReader(ub))
 		if err != nil {
 			fmt.Println("GenericCodec: encode error:", err)
 			return
diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..d933851 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -5,6 +5,7 @@
 package ustack
 
 import (
+	"bytes"
 	"encoding/gob"
 	"fmt"
 	"reflect"
@@ -49,6 +50,14 @@ func (g *GOBCodec) OnUpperData(context Context) {
 	g.lower.OnUpperData(context)
 }
 
+// newPayloadReader returns a reader of the readable data of ub, it reports the
+// end of data as decoders expect while UBuf returns nothing again and again
+func newPayloadReader(ub *UBuf) *bytes.Reader {
+	data := make([]byte, ub.ReadableLength())
+	ub.Read(data)
+	return bytes.NewReader(data)
+}
+
 // OnLowerData ...
 func (g *GOBCodec) OnLowerData(context Context) {
 	if g.enable {
@@ -58,7 +67,7 @@ func (g *GOBCodec) OnLowerData(context Context) {
 		}
 
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		err := gob.NewDecoder(newPayloadReader(ub)).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
-- 
2.43.0


From 644745396a72db226df32f1088d096745360b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 07/26] fix: a message without connection crashed the process

FrameDecoder, Heartbeat, StatCounter and LoadBalancer dereferenced the
connection before LowerDeck could drop the message.
---
 proc_base.go          | 7 +++++++
 proc_frame_decoder.go | 4 ++--
 proc_heartbeat.go     | 4 ++--
 proc_load_balancer.go | 4 ++--
 proc_stat_counter.go  | 4 ++--
 5 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/proc_base.go b/proc_base.go
index 6c71649..d58b7d3 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -123,3 +123,10 @@ func (base *ProcBase) OnEvent(event Event) {
 func (base *ProcBase) Run() DataProcessor {
 	return base.where
 }
+
+// useReference returns true if the context is for a connection that passes
+// references, a context may have no connection
+func useReference(context Context) bool {
+	connection := context.GetConnection()
+	return connection != nil && connection.UseReference()
+}
diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 4bf7b6f..bb91596 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -37,7 +37,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.lower.OnUpperData(context)
 		return
 	}
@@ -251,7 +251,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 
 // OnLowerData ...
 func (frm *FrameDecoder) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..71c495a 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -93,7 +93,7 @@ func (hb *Heartbeat) GetOverhead() int {
 
 // OnUpperData ...
 func (hb *Heartbeat) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.lower.OnUpperData(context)
 		return
 	}
@@ -110,7 +110,7 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (hb *Heartbeat) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..5d62588 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -37,7 +37,7 @@ func (lb *LoadBalancer) GetOverhead() int {
 
 // OnUpperData ...
 func (lb *LoadBalancer) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.lower.OnUpperData(context)
 		return
 	}
@@ -59,7 +59,7 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (lb *LoadBalancer) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..481192b 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -41,7 +41,7 @@ func (hb *StatCounter) GetOverhead() int {
 
 // OnUpperData ...
 func (sc *StatCounter) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.lower.OnUpperData(context)
 		return
 	}
@@ -107,7 +107,7 @@ func (sc *StatCounter) show(context Context) {
 
 // OnLowerData ...
 func (sc *StatCounter) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.upper.OnLowerData(context)
 		return
 	}
-- 
2.43.0


From f11f8ff1aa9fa4bf7d998cbfc6c49021ed13037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 08/26] fix: a nil message closed a reference connection

Like a message without buffer on other connections it has to be dropped.
The self messages of StatCounter and Heartbeat, which have no message for a
reference connection, closed it.
---
 proc_lowerdeck.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..104243e 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -104,7 +104,11 @@ func (ld *LowerDeck) OnUpperData(context Context) {
 	}
 
 	if connection.UseReference() {
-		err = connection.SetReference(context.GetMessage())
+		message := context.GetMessage()
+		if message == nil {
+			return
+		}
+		err = connection.SetReference(message)
 	} else {
 		ub := context.GetBuffer()
 		if ub == nil {
-- 
2.43.0


From a94873828a43d877b58fef9bf71c3d0f69d7504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:57 +0000
Subject: [PATCH 09/26] fix: data that arrived together with the end of a
 stream was dropped

---
 proc_lowerdeck.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 104243e..73cad4c 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -73,15 +73,17 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 						ub := UBufAlloc(ld.ustack.GetMTU())
 
 						n, err := ub.ReadFrom(connection)
+						if n > 0 {
+							// invoke the uplayer
+							ld.upper.OnLowerData(
+								NewUStackContext().
+									SetConnection(connection).
+									SetBuffer(ub))
+						}
 						if n == 0 || err != nil {
 							ld.closeConnection(connection)
 							return
 						}
-						// invoke the uplayer
-						ld.upper.OnLowerData(
-							NewUStackContext().
-								SetConnection(connection).
-								SetBuffer(ub))
 					}
 				}
 			}()
-- 
2.43.0


From 40aff778784396c3b3e49a13094b1daf86306605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:59 +0000
Subject: [PATCH 10/26] fix: the closed event was published several times for
 one connection

Every failed write published it, and the receiving routine once more.
---
 proc_lowerdeck.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 73cad4c..6025f51 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -121,7 +121,9 @@ func (ld *LowerDeck) OnUpperData(context Context) {
 
 	if err != nil {
 		fmt.Printf("Connection is closed: %s\n", connection.GetName())
-		ld.closeConnection(connection)
+		// the routine that receives from the connection ends now and
+		// publishes the event, once
+		connection.Close()
 	}
 }
 
-- 
2.43.0


From ec918c80026ba272efb9a9a5d9c1ea4871b43dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 11/26] fix: concurrent changes of endpoints, transports and
 listeners were lost

The registries were changed without lock and in place while events were
being published from them, so additions and deletions got lost and
endpoints were skipped or called twice.
---
 ustack_default.go | 76 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..f408715 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -4,7 +4,10 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 const (
 	defaultMTU int = 2048
@@ -81,6 +84,7 @@ type DefaultUStack struct {
 	mtu        int
 	options    map[string]interface{}
 	features   []Feature
+	mutex      sync.Mutex // protects endpoints, transports and listeners
 	endpoints  []EndPoint
 	transports []Transport
 	upperDeck  DataProcessor
@@ -193,47 +197,60 @@ func (u *DefaultUStack) GetFeatures() []Feature {
 
 // AddEndPoint ...
 func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
+	u.mutex.Lock()
 	for _, endpoint := range u.endpoints {
 		if endpoint == ep {
 			// was added
+			u.mutex.Unlock()
 			return u
 		}
 	}
 
-	u.PublishEvent(Event{
+	// never change a slice that may be in use, make a new one
+	endpoints := u.endpoints
+	u.endpoints = append(append([]EndPoint(nil), endpoints...), ep)
+	u.mutex.Unlock()
+
+	u.publishEvent(Event{
 		Type:   UStackEventEndpointAdded,
 		Source: u,
 		Data:   ep,
-	})
+	}, endpoints)
 
-	u.endpoints = append(u.endpoints, ep)
 	return u
 }
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for i, endpoint := range u.endpoints {
+	u.mutex.Lock()
+	endpoints := u.endpoints
+	for i, endpoint := range endpoints {
 		if endpoint != ep {
 			continue
 		}
 
-		u.PublishEvent(Event{
+		// delete
+		u.endpoints = append(append([]EndPoint(nil), endpoints[:i]...), endpoints[i+1:]...)
+		u.mutex.Unlock()
+
+		u.publishEvent(Event{
 			Type:   UStackEventEndpointDeleted,
 			Source: u,
 			Data:   ep,
-		})
-
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
+		}, endpoints)
 
-		break
+		return u
 	}
+	u.mutex.Unlock()
 
 	return u
 }
 
 // GetEndPoint ...
 func (u *DefaultUStack) GetEndPoint() []EndPoint {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.endpoints
 }
 
@@ -255,32 +272,39 @@ func (u *DefaultUStack) GetMTU() int {
 
 // AddTransport ...
 func (u *DefaultUStack) AddTransport(tp Transport) UStack {
+	u.mutex.Lock()
 	for _, transport := range u.transports {
 		if transport == tp {
 			// was added
+			u.mutex.Unlock()
 			return u
 		}
 	}
 
+	u.transports = append(append([]Transport(nil), u.transports...), tp)
+	u.mutex.Unlock()
+
 	u.PublishEvent(Event{
 		Type:   UStackEventTransportAdded,
 		Source: u,
 		Data:   tp,
 	})
 
-	u.transports = append(u.transports, tp)
 	return u
 }
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
-	for i, transport := range u.transports {
+	u.mutex.Lock()
+	transports := u.transports
+	for i, transport := range transports {
 		if transport != tp {
 			continue
 		}
 
 		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
+		u.transports = append(append([]Transport(nil), transports[:i]...), transports[i+1:]...)
+		u.mutex.Unlock()
 
 		u.PublishEvent(Event{
 			Type:   UStackEventTransportDeleted,
@@ -288,29 +312,45 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 			Data:   tp,
 		})
 
-		break
+		return u
 	}
+	u.mutex.Unlock()
 
 	return u
 }
 
 // GetTransport ...
 func (u *DefaultUStack) GetTransport() []Transport {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.transports
 }
 
 // SetEventListener ...
 func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
-	u.listeners = append(u.listeners, listener)
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	u.listeners = append(append([]func(Event){}, u.listeners...), listener)
 	return u
 }
 
 // PublishEvent ...
 func (u *DefaultUStack) PublishEvent(event Event) UStack {
-	for _, listener := range u.listeners {
+	return u.publishEvent(event, u.GetEndPoint())
+}
+
+// publishEvent publishes event to the given endpoints and all others
+func (u *DefaultUStack) publishEvent(event Event, endpoints []EndPoint) UStack {
+	u.mutex.Lock()
+	listeners := u.listeners
+	u.mutex.Unlock()
+
+	for _, listener := range listeners {
 		listener(event)
 	}
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range endpoints {
 		endpoint.OnEvent(event)
 	}
 	if u.upperDeck != nil {
-- 
2.43.0


From 1a155e7f4ce94f2aa8abda9b4cb3a4b1ccd4d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:13 +0000
Subject: [PATCH 12/26] fix: deleted endpoints kept sending and could block the
 stack

The routine of an endpoint looked its stop channel up without lock in each
round; once deleted it waited on a nil channel and kept sending, and after
adding the endpoint again two routines sent its messages out of order. A
deleted endpoint that no longer drained its messages blocked the connection
forever. Overlapping additions and deletions left an endpoint in the wrong
state.
---
 proc_upperdeck.go | 86 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..ec1402a 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -12,13 +12,11 @@ import (
 type UpperDeck struct {
 	ProcBase
 	sync.Mutex
-	endpoints map[EndPoint]chan bool
+	endpoints map[EndPoint]chan bool // closed to stop the endpoint
+	routines  map[EndPoint]chan bool // closed when the routine has ended
 }
 
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -27,16 +25,33 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 	return false
 }
 
+// isRegistered returns true if the endpoint belongs to the stack now
+func (ud *UpperDeck) isRegistered(ep EndPoint) bool {
+	for _, endpoint := range ud.ustack.GetEndPoint() {
+		if endpoint == ep {
+			return true
+		}
+	}
+	return false
+}
+
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
-	if ud.existsEndpoint(ep) {
+	ud.Lock()
+	defer ud.Unlock()
+
+	// it may have been deleted in the meantime
+	if ud.existsEndpoint(ep) || !ud.isRegistered(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
+	stop := make(chan bool)
+	ud.endpoints[ep] = stop
 
-	ud.endpoints[ep] = make(chan bool, 1)
+	// the routine of the last time may be still busy
+	previous := ud.routines[ep]
+	ended := make(chan bool)
+	ud.routines[ep] = ended
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -45,12 +60,23 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	// create routinue for each endpoint
 	// read data from endpoint and pass it to lower
 	go func() {
+		defer ud.endRoutine(ep, ended)
+
+		if previous != nil {
+			<-previous
+		}
+
 		for {
+			// stop first even if there is data
 			select {
-			case stop := <-ud.endpoints[ep]:
-				if stop {
-					return
-				}
+			case <-stop:
+				return
+			default:
+			}
+
+			select {
+			case <-stop:
+				return
 			case epd := <-txchan:
 				destinationSession := session
 				if epd.HasDestinationSession() {
@@ -67,29 +93,44 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	}()
 }
 
+// endRoutine ...
+func (ud *UpperDeck) endRoutine(ep EndPoint, ended chan bool) {
+	ud.Lock()
+	defer ud.Unlock()
+
+	close(ended)
+	if ud.routines[ep] == ended {
+		delete(ud.routines, ep)
+	}
+}
+
 // deleteTransport ...
 func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
+	// it may have been added again in the meantime
+	if ud.isRegistered(ep) {
+		return
+	}
+
 	ch, ok := ud.endpoints[ep]
 	if ok {
-		ch <- true
 		close(ch)
 		delete(ud.endpoints, ep)
 	}
 }
 
-func (ud *UpperDeck) findEndPoint(session int) EndPoint {
+func (ud *UpperDeck) findEndPoint(session int) (EndPoint, chan bool) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	for ep := range ud.endpoints {
+	for ep, stop := range ud.endpoints {
 		if ep.GetSession() == session {
-			return ep
+			return ep, stop
 		}
 	}
-	return nil
+	return nil, nil
 }
 
 // NewUpperDeck returns a new instance
@@ -97,6 +138,7 @@ func NewUpperDeck() DataProcessor {
 	ud := &UpperDeck{
 		ProcBase:  NewProcBaseInstance("UpperDeck"),
 		endpoints: make(map[EndPoint]chan bool, 1),
+		routines:  make(map[EndPoint]chan bool, 1),
 	}
 	return ud.ProcBase.SetWhere(ud)
 }
@@ -111,11 +153,15 @@ func (ud *UpperDeck) OnLowerData(context Context) {
 	// the default is 0 if seesion is not enabled
 	session, _ := OptionParseInt(context.GetOption("session"), 0)
 
-	ep := ud.findEndPoint(session)
+	ep, stop := ud.findEndPoint(session)
 	if ep != nil {
-		ep.GetRxChannel() <- NewEndPointData().
+		select {
+		case ep.GetRxChannel() <- NewEndPointData().
 			SetConnection(context.GetConnection()).
-			SetData(message)
+			SetData(message):
+		case <-stop:
+			// nobody may receive from a deleted endpoint
+		}
 	}
 }
 
-- 
2.43.0


From 22161c7bdcf5fb346e29b1035cef8286c934c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:21 +0000
Subject: [PATCH 13/26] fix: stopping a TCP or unix transport crashed, leaked
 or hit a later run

Stopping before the listening socket existed or while a connection was
being queued crashed the process (nil listener, send on closed channel);
connections that were queued or still being dialled were leaked or
announced after the stop; the routines of a stopped run stopped the next
run, and removed its unix socket file.
---
 tran_tcp.go  | 116 ++++++++++++++++++++++++++++++++--------------
 tran_unix.go | 127 ++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 167 insertions(+), 76 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..edcf9a4 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -98,6 +98,7 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan bool // closed when stopped, it identifies the run
 	// for server
 	listener net.Listener
 	// for client
@@ -135,19 +136,37 @@ func (t *TCPTransport) parseOptions() {
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
 	t.next = make(chan TransportConnection, 16)
+	t.done = make(chan bool)
 }
 
-// saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+// saveConnections returns false if the run has been stopped
+func (t *TCPTransport) saveConnection(tc TransportConnection, done chan bool) bool {
 	t.Lock()
 	defer t.Unlock()
 
-	for _, c := range t.connections {
-		if c == tc {
-			return
-		}
+	if !t.isRunning || t.done != done {
+		return false
 	}
+
 	t.connections = append(t.connections, tc)
+	return true
+}
+
+// offerConnection passes the connection to NextConnection, it is closed if
+// the run has been stopped
+func (t *TCPTransport) offerConnection(tc TransportConnection, next chan TransportConnection, done chan bool) bool {
+	if !t.saveConnection(tc, done) {
+		tc.Close()
+		return false
+	}
+
+	select {
+	case next <- tc:
+		return true
+	case <-done:
+		// it was closed by stop
+		return false
+	}
 }
 
 // dropConnections ...
@@ -158,52 +177,51 @@ func (t *TCPTransport) dropConnections() {
 }
 
 // accept ...
-func (t *TCPTransport) accept() {
-	listener, err := net.Listen("tcp", t.address)
-	if err != nil {
-		log.Fatal(err)
-	}
-
-	t.listener = listener
-
+func (t *TCPTransport) accept(listener net.Listener, next chan TransportConnection, done chan bool) {
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		if !t.offerConnection(NewTCPTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done) {
+			return
+		}
 	}
 
-	t.Stop()
+	t.stop(done)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, done chan bool) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < t.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
+			t.offerConnection(NewTCPTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i)
 
-		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(t.retryIntervalInSecond)):
+		case <-done:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stop(done)
 }
 
 // ForServer ...
@@ -244,9 +262,23 @@ func (t *TCPTransport) GetAddress() string {
 
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	next, done := t.next, t.done
+	t.Unlock()
+
+	select {
+	case tc := <-next:
+		t.Lock()
+		defer t.Unlock()
+
+		if !t.isRunning || t.done != done {
+			// it was closed by stop
+			return nil
+		}
+		return tc
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -264,20 +296,38 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		listener, err := net.Listen("tcp", t.address)
+		if err != nil {
+			log.Fatal(err)
+		}
+
+		t.listener = listener
+
+		go t.accept(listener, t.next, t.done)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.done)
 	}
 	return t
 }
 
 // Stop ...
 func (t *TCPTransport) Stop() Transport {
+	t.Lock()
+	done := t.done
+	t.Unlock()
+
+	t.stop(done)
+
+	return t
+}
+
+// stop ends the run that done belongs to, not any later run
+func (t *TCPTransport) stop(done chan bool) {
 	t.Lock()
 	defer t.Unlock()
 
-	if !t.isRunning {
-		return t
+	if !t.isRunning || t.done != done {
+		return
 	}
 
 	if t.listener != nil {
@@ -285,11 +335,9 @@ func (t *TCPTransport) Stop() Transport {
 		t.listener = nil
 	}
 
-	close(t.next)
+	close(t.done)
 
 	t.dropConnections()
 
 	t.isRunning = false
-
-	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..270b1a8 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -99,6 +99,7 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan bool // closed when stopped, it identifies the run
 	// for server
 	listener net.Listener
 	// for client
@@ -136,23 +137,37 @@ func (uds *UDSTransport) parseOptions() {
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
 	uds.next = make(chan TransportConnection, 16)
+	uds.done = make(chan bool)
 }
 
-// saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
-	}
-
+// saveConnections returns false if the run has been stopped
+func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan bool) bool {
 	uds.Lock()
 	defer uds.Unlock()
 
-	for _, c := range uds.connections {
-		if c == tc {
-			return
-		}
+	if !uds.isRunning || uds.done != done {
+		return false
 	}
+
 	uds.connections = append(uds.connections, tc)
+	return true
+}
+
+// offerConnection passes the connection to NextConnection, it is closed if
+// the run has been stopped
+func (uds *UDSTransport) offerConnection(tc TransportConnection, next chan TransportConnection, done chan bool) bool {
+	if !uds.saveConnection(tc, done) {
+		tc.Close()
+		return false
+	}
+
+	select {
+	case next <- tc:
+		return true
+	case <-done:
+		// it was closed by stop
+		return false
+	}
 }
 
 // dropConnections ...
@@ -163,55 +178,50 @@ func (uds *UDSTransport) dropConnections() {
 }
 
 // accept ...
-func (uds *UDSTransport) accept() {
-	os.Remove(uds.filename)
-
-	listener, err := net.Listen("unix", uds.filename)
-	if err != nil {
-		log.Fatal(err)
-	}
-
-	defer os.Remove(uds.filename)
-
-	uds.listener = listener
-
+func (uds *UDSTransport) accept(listener net.Listener, next chan TransportConnection, done chan bool) {
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		if !uds.offerConnection(NewUDSTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done) {
+			return
+		}
 	}
 
-	uds.Stop()
+	uds.stop(done)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, done chan bool) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < uds.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
+			uds.offerConnection(NewUDSTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(uds.retryIntervalInSecond)):
+		case <-done:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+	uds.stop(done)
 }
 
 // ForServer ...
@@ -252,9 +262,23 @@ func (uds *UDSTransport) GetAddress() string {
 
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	next, done := uds.next, uds.done
+	uds.Unlock()
+
+	select {
+	case tc := <-next:
+		uds.Lock()
+		defer uds.Unlock()
+
+		if !uds.isRunning || uds.done != done {
+			// it was closed by stop
+			return nil
+		}
+		return tc
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -272,20 +296,41 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		// remove the file that was left by others
+		os.Remove(uds.filename)
+
+		listener, err := net.Listen("unix", uds.filename)
+		if err != nil {
+			log.Fatal(err)
+		}
+
+		uds.listener = listener
+
+		go uds.accept(listener, uds.next, uds.done)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.done)
 	}
 	return uds
 }
 
 // Stop ...
 func (uds *UDSTransport) Stop() Transport {
+	uds.Lock()
+	done := uds.done
+	uds.Unlock()
+
+	uds.stop(done)
+
+	return uds
+}
+
+// stop ends the run that done belongs to, not any later run
+func (uds *UDSTransport) stop(done chan bool) {
 	uds.Lock()
 	defer uds.Unlock()
 
-	if !uds.isRunning {
-		return uds
+	if !uds.isRunning || uds.done != done {
+		return
 	}
 
 	if uds.listener != nil {
@@ -293,11 +338,9 @@ func (uds *UDSTransport) Stop() Transport {
 		uds.listener = nil
 	}
 
-	close(uds.next)
+	close(uds.done)
 
 	uds.dropConnections()
 
 	uds.isRunning = false
-
-	return uds
 }
-- 
2.43.0


From 6c038ab873d6cae290d2394a41355c0a333c2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 14/26] fix: overlapping additions and deletions left a
 transport in the wrong state

A transport deleted by one routine while another was still publishing its
addition was started although it no longer belonged to the stack.
---
 proc_lowerdeck.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 6025f51..a101983 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -4,17 +4,23 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 // LowerDeck manages transports
 type LowerDeck struct {
 	ProcBase
+	mutex      sync.Mutex
+	transports map[Transport]bool
 }
 
 // NewLowerDeck returns a new instance
 func NewLowerDeck() DataProcessor {
 	ld := &LowerDeck{
-		NewProcBaseInstance("LowerDeck"),
+		ProcBase:   NewProcBaseInstance("LowerDeck"),
+		transports: make(map[Transport]bool, 1),
 	}
 	return ld.ProcBase.SetWhere(ld)
 }
@@ -31,8 +37,27 @@ func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	})
 }
 
+// isRegistered returns true if the transport belongs to the stack now
+func (ld *LowerDeck) isRegistered(tp Transport) bool {
+	for _, transport := range ld.ustack.GetTransport() {
+		if transport == tp {
+			return true
+		}
+	}
+	return false
+}
+
 // acceptTransport ...
 func (ld *LowerDeck) acceptTransport(tp Transport) {
+	ld.mutex.Lock()
+	defer ld.mutex.Unlock()
+
+	// it may have been deleted in the meantime
+	if ld.transports[tp] || !ld.isRegistered(tp) {
+		return
+	}
+
+	ld.transports[tp] = true
 
 	tp.Run()
 
@@ -93,6 +118,16 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 
 // deleteTransport ...
 func (ld *LowerDeck) deleteTransport(tp Transport) {
+	ld.mutex.Lock()
+	defer ld.mutex.Unlock()
+
+	// it may have been added again in the meantime
+	if !ld.transports[tp] || ld.isRegistered(tp) {
+		return
+	}
+
+	delete(ld.transports, tp)
+
 	tp.Stop()
 }
 
-- 
2.43.0


From 22c445455a09dd6a9fa48f282df848e19b6aa201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 15/26] fix: a reference transport could not be stopped

isRunning was never set, so stopping had no effect and running again after
it blocked forever with the global lock held. Closing a connection did not
wake up who waited on it, and stopping the last side closed channels under
their senders.
---
 tran_reference.go | 66 +++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..623bdb8 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -48,19 +48,13 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
 	closed    bool
+	once      sync.Once
+	done      chan bool // closed when the connection is closed
 	channel   *referenceChannel
 }
 
@@ -74,6 +68,7 @@ func NewReferenceTransportConnection(
 		name:      name,
 		forServer: forServer,
 		closed:    false,
+		done:      make(chan bool),
 		channel:   channel,
 	}
 }
@@ -105,15 +100,17 @@ func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error)
 		return nil, errors.New("SetReference: connection is closed")
 	}
 
-	var data interface{}
-
+	rx := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rx = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data := <-rx:
+		return data, nil
+	case <-c.done:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
@@ -127,18 +124,23 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	tx := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		tx = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case tx <- p:
+		return nil
+	case <-c.done:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
 	c.closed = true
+	c.once.Do(func() { close(c.done) })
 }
 
 // Closed ...
@@ -156,6 +158,7 @@ type ReferenceTransport struct {
 	forServer  bool
 	connection TransportConnection
 	next       chan TransportConnection
+	done       chan bool // closed when stopped, it identifies the run
 	queueSize  int
 }
 
@@ -167,7 +170,6 @@ func NewReferenceTransport(name string) Transport {
 		isRunning:  false,
 		forServer:  true,
 		connection: nil,
-		next:       make(chan TransportConnection, 1),
 		queueSize:  512,
 	}
 }
@@ -219,9 +221,16 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	next, done := sm.next, sm.done
+	sm.Unlock()
+
+	select {
+	case tc := <-next:
+		return tc
+	case <-done:
+		return nil
+	}
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,6 +248,8 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
 	mutex.Lock()
@@ -253,10 +264,13 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
-
 	mutex.Unlock()
 
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.next = make(chan TransportConnection, 1)
+	sm.next <- sm.connection
+	sm.done = make(chan bool)
+
 	return sm
 }
 
@@ -269,6 +283,9 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
+	sm.isRunning = false
+
+	close(sm.done)
 	sm.connection.Close()
 
 	mutex.Lock()
@@ -279,7 +296,6 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 		if ch.refCount == 0 {
 			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
 		}
 	}
 
-- 
2.43.0


From a320587164ab6300c90a8a44b7e73855fa2a2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 16/26] fix: setting a data listener again could lose or
 reorder messages

Two receiving routines could run at once, a message that arrived after the
listener had been removed was swallowed, and a listener set while the
routine was ending was never called.
---
 endp_default.go | 83 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..6b2342b 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -74,27 +76,66 @@ type DefaultEndPoint struct {
 	txChannel     chan EndPointData
 	rxChannel     chan EndPointData
 	eventListener func(EndPoint, Event)
+	mutex         sync.Mutex // protects all below
 	dataListener  func(EndPoint, EndPointData)
-	inAutoReceive bool
+	removed       chan bool // closed when the listener is removed
+	inAutoReceive bool      // the routine is running
+	inReceive     bool      // the routine may take data
+	notInReceive  *sync.Cond
 }
 
 // autoReceive ...
 func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
-				return
-			}
-			ep.dataListener(ep, epd)
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
+	for ep.dataListener != nil {
+		epd, listener, taken, closed := ep.receive()
+		if closed {
+			break
+		}
+
+		if taken {
+			ep.mutex.Unlock()
+			listener(ep, epd)
+			ep.mutex.Lock()
 		}
 	}
+
+	ep.inAutoReceive = false
+}
+
+// receive takes one data together with the listener for it
+// nothing is taken if the listener is removed first
+func (ep *DefaultEndPoint) receive() (
+	epd EndPointData, listener func(EndPoint, EndPointData), taken bool, closed bool) {
+
+	listener = ep.dataListener
+	removed := ep.removed
+
+	ep.inReceive = true
+	ep.mutex.Unlock()
+
+	select {
+	case epd, taken = <-ep.rxChannel:
+		closed = !taken
+	case <-removed:
+	}
+
+	ep.mutex.Lock()
+	ep.inReceive = false
+	ep.notInReceive.Broadcast()
+
+	if ep.dataListener != nil {
+		listener = ep.dataListener
+	}
+
+	return epd, listener, taken, closed
 }
 
 // NewEndPoint ...
 func NewEndPoint(name string, session int) EndPoint {
-	return &DefaultEndPoint{
+	ep := &DefaultEndPoint{
 		name:          name,
 		session:       session,
 		txChannel:     make(chan EndPointData, 512),
@@ -103,6 +144,8 @@ func NewEndPoint(name string, session int) EndPoint {
 		dataListener:  nil,
 		inAutoReceive: false,
 	}
+	ep.notInReceive = sync.NewCond(&ep.mutex)
+	return ep
 }
 
 // SetEventListener ...
@@ -113,8 +156,28 @@ func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndP
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
+	if listener == nil {
+		if ep.dataListener != nil {
+			ep.dataListener = nil
+			close(ep.removed)
+		}
+		// no data is taken any more
+		for ep.inReceive && ep.dataListener == nil {
+			ep.notInReceive.Wait()
+		}
+		return ep
+	}
+
+	if ep.dataListener == nil {
+		ep.removed = make(chan bool)
+	}
 	ep.dataListener = listener
+
 	if !ep.inAutoReceive {
+		ep.inAutoReceive = true
 		go ep.autoReceive()
 	}
 	return ep
-- 
2.43.0


From bf37ff7a569177ccc571b6f17fbdfeae1ffc73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:48 +0000
Subject: [PATCH 17/26] fix: heartbeat blocked on its own events and lost
 healthy connections

The lost event was published with the lock held, so a listener that waited
for traffic blocked the connections and the next losses. Connections that
had been closed already, and reference connections, on which no heartbeat
can be received, were reported lost.
---
 proc_heartbeat.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 71c495a..622e50f 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -58,22 +58,14 @@ func (hb *Heartbeat) deleteMonitor(connection TransportConnection) {
 
 // deleteMonitor ...
 func (hb *Heartbeat) check() {
-	hb.mutex.Lock()
-	defer hb.mutex.Unlock()
-
-	if len(hb.monitors) == 0 {
-		return
-	}
-
-	for connection, lastTime := range hb.monitors {
-		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
+	for _, connection := range hb.takeLostConnections() {
+		// closed by someone, it is not lost
+		if connection.Closed() {
 			continue
 		}
 
 		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
 
-		delete(hb.monitors, connection)
-
 		if hb.closeOnLost {
 			connection.Close()
 		}
@@ -86,6 +78,26 @@ func (hb *Heartbeat) check() {
 	}
 }
 
+// takeLostConnections removes the lost connections from monitors
+func (hb *Heartbeat) takeLostConnections() []TransportConnection {
+	hb.mutex.Lock()
+	defer hb.mutex.Unlock()
+
+	var lost []TransportConnection
+
+	for connection, lastTime := range hb.monitors {
+		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
+			continue
+		}
+
+		delete(hb.monitors, connection)
+
+		lost = append(lost, connection)
+	}
+
+	return lost
+}
+
 // GetOverhead returns the overhead
 func (hb *Heartbeat) GetOverhead() int {
 	return 1
@@ -141,6 +153,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// there is no heartbeat on reference connection
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
-- 
2.43.0


From 43d47138cb5e6749b7d014a01e7d8e9090799018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 18/26] fix: statistics counters lost counts under concurrency

Several endpoints and connections pass through one counter at the same
time.
---
 proc_stat_counter.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 481192b..991245a 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,10 +18,11 @@ const (
 
 // StatCounter ...
 type StatCounter struct {
+	// at the beginning for the alignment that atomic operations require
+	txCounter uint64
+	rxCounter uint64
 	ProcBase
 	intervalInSecond int
-	txCounter        uint64
-	rxCounter        uint64
 }
 
 // NewStatCounter ...
@@ -52,7 +54,7 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
-		sc.txCounter++
+		atomic.AddUint64(&sc.txCounter, 1)
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -83,8 +85,8 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
-	ub.WriteU64BE(sc.txCounter)
-	ub.WriteU64BE(sc.rxCounter)
+	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))
+	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -134,7 +136,7 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
-			sc.rxCounter++
+			atomic.AddUint64(&sc.rxCounter, 1)
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	}
-- 
2.43.0


From 6d94a7cac19efd67145218f366f1c96e2d17b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:54 +0000
Subject: [PATCH 19/26] fix: a disabled statistics counter delivered self
 messages to endpoints

---
 proc_stat_counter.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 991245a..e370cd8 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -124,21 +124,26 @@ func (sc *StatCounter) OnLowerData(context Context) {
 		return
 	}
 
-	if sc.enable {
-		if tag == StatCounterSelfMessageReqTag {
-			// fmt.Printf("StatCounter: collect request received on connection: %s\n",
-			// 	context.GetConnection().GetName())
+	// self messages never go up, a disabled counter does not answer
+	if tag == StatCounterSelfMessageReqTag {
+		// fmt.Printf("StatCounter: collect request received on connection: %s\n",
+		// 	context.GetConnection().GetName())
+		if sc.enable {
 			sc.response(context)
-			return
-		} else if tag == StatCounterSelfMessageResTag {
-			// fmt.Printf("StatCounter: collect response received on connection: %s\n",
-			// 	context.GetConnection().GetName())
+		}
+		return
+	} else if tag == StatCounterSelfMessageResTag {
+		// fmt.Printf("StatCounter: collect response received on connection: %s\n",
+		// 	context.GetConnection().GetName())
+		if sc.enable {
 			sc.show(context)
-			return
-		} else {
-			atomic.AddUint64(&sc.rxCounter, 1)
-			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
+		return
+	}
+
+	if sc.enable {
+		atomic.AddUint64(&sc.rxCounter, 1)
+		// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 	}
 
 	sc.upper.OnLowerData(context)
-- 
2.43.0


From b5894fa72a1cfff8744747ca7260d2a521b26c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:02 +0000
Subject: [PATCH 20/26] fix: a message could be handed to a data listener
 replaced long before

---
 endp_default.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 6b2342b..00b8ba2 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -78,9 +78,10 @@ type DefaultEndPoint struct {
 	eventListener func(EndPoint, Event)
 	mutex         sync.Mutex // protects all below
 	dataListener  func(EndPoint, EndPointData)
-	removed       chan bool // closed when the listener is removed
-	inAutoReceive bool      // the routine is running
-	inReceive     bool      // the routine may take data
+	lastListener  func(EndPoint, EndPointData) // even if it is being removed
+	removed       chan bool                    // closed when the listener is removed
+	inAutoReceive bool                         // the routine is running
+	inReceive     bool                         // the routine may take data
 	notInReceive  *sync.Cond
 }
 
@@ -110,7 +111,6 @@ func (ep *DefaultEndPoint) autoReceive() {
 func (ep *DefaultEndPoint) receive() (
 	epd EndPointData, listener func(EndPoint, EndPointData), taken bool, closed bool) {
 
-	listener = ep.dataListener
 	removed := ep.removed
 
 	ep.inReceive = true
@@ -126,11 +126,7 @@ func (ep *DefaultEndPoint) receive() (
 	ep.inReceive = false
 	ep.notInReceive.Broadcast()
 
-	if ep.dataListener != nil {
-		listener = ep.dataListener
-	}
-
-	return epd, listener, taken, closed
+	return epd, ep.lastListener, taken, closed
 }
 
 // NewEndPoint ...
@@ -175,6 +171,7 @@ func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)
 		ep.removed = make(chan bool)
 	}
 	ep.dataListener = listener
+	ep.lastListener = listener
 
 	if !ep.inAutoReceive {
 		ep.inAutoReceive = true
-- 
2.43.0


From a89d99f35ca732760e080065363ec04bad6a3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 21/26] fix: a nil pointer sent through the GOB codec crashed
 the process

---
 proc_codec_gob.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index d933851..792966a 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -34,6 +34,12 @@ func (g *GOBCodec) OnUpperData(context Context) {
 			return
 		}
 
+		// gob panics with a nil pointer
+		value := reflect.ValueOf(message)
+		if value.Kind() == reflect.Ptr && value.IsNil() {
+			return
+		}
+
 		ub := UBufAllocWithHeadReserved(
 			g.ustack.GetMTU(),
 			g.ustack.GetOverhead())
-- 
2.43.0


From 77148e3ce63085130f4b60688a6e6dec8c794c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 22/26] fix: another sender could continue a frame whose write
 had failed

---
 tran_tcp.go  | 18 ++++++++++++++----
 tran_unix.go | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index edcf9a4..6f4e35b 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -16,9 +16,10 @@ import (
 
 // TCPTransportConnection ...
 type TCPTransportConnection struct {
-	name   string
-	conn   net.Conn
-	closed bool
+	name       string
+	conn       net.Conn
+	closed     bool
+	writeMutex sync.Mutex
 }
 
 // NewTCPTransportConnection ...
@@ -54,12 +55,21 @@ func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *TCPTransportConnection) Write(p []byte) (n int, err error) {
+	c.writeMutex.Lock()
+	defer c.writeMutex.Unlock()
+
 	if c.closed {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
 
-	return c.conn.Write(p)
+	n, err = c.conn.Write(p)
+	if err != nil {
+		// part of the data may have been sent, nothing can follow it
+		c.Close()
+	}
+
+	return n, err
 }
 
 // UseReference ...
diff --git a/tran_unix.go b/tran_unix.go
index 270b1a8..f67f709 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -17,9 +17,10 @@ import (
 
 // UDSTransportConnection ...
 type UDSTransportConnection struct {
-	name   string
-	conn   net.Conn
-	closed bool
+	name       string
+	conn       net.Conn
+	closed     bool
+	writeMutex sync.Mutex
 }
 
 // NewUDSTransportConnection ...
@@ -55,12 +56,21 @@ func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *UDSTransportConnection) Write(p []byte) (n int, err error) {
+	c.writeMutex.Lock()
+	defer c.writeMutex.Unlock()
+
 	if c.closed {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
 
-	return c.conn.Write(p)
+	n, err = c.conn.Write(p)
+	if err != nil {
+		// part of the data may have been sent, nothing can follow it
+		c.Close()
+	}
+
+	return n, err
 }
 
 // UseReference ...
-- 
2.43.0


From 9ea767f66723e930b230d09934473316668e2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:47 +0000
Subject: [PATCH 23/26] fix: frames received together shared one context

---
 proc_frame_decoder.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index bb91596..0eacf6a 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -182,10 +182,11 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 			return
 		}
 
-		context.SetBuffer(newUbuf)
-
-		// invoke uplayer
-		frm.upper.OnLowerData(context)
+		// invoke uplayer, each frame has its own context
+		frm.upper.OnLowerData(
+			NewUStackContext().
+				SetConnection(connection).
+				SetBuffer(newUbuf))
 	}
 }
 
@@ -242,10 +243,11 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		context.SetBuffer(newUbuf)
-
-		// invoke uplayer
-		frm.upper.OnLowerData(context)
+		// invoke uplayer, each frame has its own context
+		frm.upper.OnLowerData(
+			NewUStackContext().
+				SetConnection(connection).
+				SetBuffer(newUbuf))
 	}
 }
 
-- 
2.43.0


From a94c489067cd41ee91ac19fc1623c41587308958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:57 +0000
Subject: [PATCH 24/26] fix: a session out of range reached the endpoint of
 another session

---
 proc_session_resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/proc_session_resolver.go b/proc_session_resolver.go
index 334f9f7..8fba003 100644
--- a/proc_session_resolver.go
+++ b/proc_session_resolver.go
@@ -4,6 +4,11 @@
 
 package ustack
 
+import (
+	"fmt"
+	"math"
+)
+
 const SessionFieldSizeInByte int = 4
 
 // SessionResolver ...
@@ -34,6 +39,11 @@ func (sr *SessionResolver) OnUpperData(context Context) {
 		}
 
 		session, _ := OptionParseInt(context.GetOption("session"), 0)
+		if uint64(session) > math.MaxUint32 {
+			// it would reach the endpoint of another session
+			fmt.Println("SessionResolver: session out of range", session)
+			return
+		}
 
 		err := ub.WriteHeadU32BE(uint32(session))
 		if err != nil {
-- 
2.43.0


From ff650f37cc3a3ed76b547ca8afb261b4087abf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 25/26] fix: a server transport forgets the connections that
 have ended

---
 tran_tcp.go  | 10 +++++++++-
 tran_unix.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index 6f4e35b..833712e 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -158,7 +158,15 @@ func (t *TCPTransport) saveConnection(tc TransportConnection, done chan bool) bo
 		return false
 	}
 
-	t.connections = append(t.connections, tc)
+	// forget those that have ended
+	var connections []TransportConnection
+	for _, c := range t.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	t.connections = append(connections, tc)
 	return true
 }
 
diff --git a/tran_unix.go b/tran_unix.go
index f67f709..7952e63 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -159,7 +159,15 @@ func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan bool)
 		return false
 	}
 
-	uds.connections = append(uds.connections, tc)
+	// forget those that have ended
+	var connections []TransportConnection
+	for _, c := range uds.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	uds.connections = append(connections, tc)
 	return true
 }
 
-- 
2.43.0


From 9af9aae40aaffaa24a420d89cae7c571f67162f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:40 +0000
Subject: [PATCH 26/26] fix: a message queued after an endpoint was added again
 uses its session of now

The routine of the time before the deletion may still take one message
when it is between its look at the stop channel and its wait for data.
It sent it to the session the endpoint had before.
---
 proc_upperdeck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index ec1402a..1fa4cb5 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -53,7 +53,6 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	ended := make(chan bool)
 	ud.routines[ep] = ended
 
-	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
 	lower := ud.lower
 
@@ -78,7 +77,8 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 			case <-stop:
 				return
 			case epd := <-txchan:
-				destinationSession := session
+				// the endpoint may have been added again with another session
+				destinationSession := ep.GetSession()
 				if epd.HasDestinationSession() {
 					destinationSession = epd.GetDestinationSession()
 				}
-- 
2.43.0

