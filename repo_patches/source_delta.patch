From 2af1b66f48b790342840f172474851146c38b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 01/42] fix: ToNonStream clears both stream bits

---
 qrpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrpc.go b/qrpc.go
index 67731bf..3d6ecfb 100644
--- a/qrpc.go
+++ b/qrpc.go
@@ -46,7 +46,7 @@ const (
 
 // ToNonStream convert flg to nonstreamed flag
 func (flg FrameFlag) ToNonStream() FrameFlag {
-	return flg & ^(StreamFlag & StreamEndFlag)
+	return flg & ^(StreamFlag | StreamEndFlag)
 }
 
 // ToStream convert flg to streamed flag
-- 
2.43.0


From b0fd7985d1929dd694b9f59745741c0a01f1f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 02/42] fix: StartWrite drops bytes of an abandoned frame

---
 framewriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index 94d7390..6337212 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -48,7 +48,9 @@ func (dfw *defaultFrameWriter) Finalize() {
 }
 
 // StartWrite Write the FrameHeader.
+// it also drops whatever is left by a frame which was never finished
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	binary.BigEndian.PutUint64(dfw.wbuf[4:], requestID)
 	cmdAndFlags := uint32(flags)<<24 + uint32(cmd)&0xffffff
 	binary.BigEndian.PutUint32(dfw.wbuf[12:], cmdAndFlags)
@@ -185,6 +187,7 @@ type defaultStreamWriter defaultFrameWriter
 
 func (dsw *defaultStreamWriter) StartWrite(cmd Cmd) {
 	dfw := (*defaultFrameWriter)(dsw)
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	dfw.SetCmd(cmd)
 }
 
-- 
2.43.0


From 49d73212db31e5b15bac0ed20cb695b56609bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 03/42] fix: ServeMux.Handle detects duplicates by routing
 value

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index bf17653..d80f560 100644
--- a/server.go
+++ b/server.go
@@ -98,7 +98,7 @@ func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFu
 	if mux.m == nil {
 		mux.m = make(map[Cmd]Handler)
 	}
-	if _, exist := mux.m[cmd]; exist {
+	if _, exist := mux.m[cmd.Routing()]; exist {
 		panic("qrpc: multiple registrations for " + string(cmd))
 	}
 
-- 
2.43.0


From 558bd2324832495312a13cb806b26fdee59f8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 04/42] fix: reset of a request before its response ends the
 wait for the response

---
 clientconn.go  | 4 ++++
 framereader.go | 5 +++++
 serveconn.go   | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 184b82d..6193535 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -511,6 +511,10 @@ func (conn *Connection) readFrames() {
 				// just ignore it
 				return
 			}
+			if frame.Flags.IsRst() {
+				// nobody waits for it
+				continue
+			}
 			if conn.conf.Handler != nil {
 				if !frame.FromServer() {
 					l.Error("clientconn get RequestFrame.RequestID not even")
diff --git a/framereader.go b/framereader.go
index 3240649..663adbe 100644
--- a/framereader.go
+++ b/framereader.go
@@ -55,6 +55,11 @@ start:
 		s := cs.GetStream(requestID, flags)
 		if s != nil {
 			s.ResetByPeer()
+			if !s.binded && !flags.IsPush() {
+				// no frame was received for this stream before,
+				// let the caller tell the one waiting for the first frame
+				return f, nil
+			}
 		}
 
 		goto start
diff --git a/serveconn.go b/serveconn.go
index 0a7f6d5..c891a07 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -411,6 +411,11 @@ func (sc *serveconn) readFrames() (err error) {
 			}
 		}
 
+		if req.Flags.IsRst() {
+			// nobody waits for it
+			continue
+		}
+
 		if req.Flags.IsNonBlock() {
 			select {
 			case sc.readFrameCh <- readFrameResult{f: (*RequestFrame)(req)}:
-- 
2.43.0


From c492e2a3af5e4f9fdfc73dd0975b71fab7c85576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 05/42] fix: reset by peer releases a stream whose own half is
 already closed

---
 stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream.go b/stream.go
index 20c3e96..f72d43c 100644
--- a/stream.go
+++ b/stream.go
@@ -202,6 +202,10 @@ func (s *Stream) ResetByPeer() {
 	}
 
 	s.reset()
+
+	if atomic.LoadInt32(&s.closedSelf) != 0 {
+		s.afterDone()
+	}
 }
 
 func (s *Stream) afterDone() {
-- 
2.43.0


From d0751f469df6afcdf0af6d0fcaf293ff8df3876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 06/42] fix: a frame after a reset never closes the frame
 channel twice

---
 stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream.go b/stream.go
index f72d43c..cc978f0 100644
--- a/stream.go
+++ b/stream.go
@@ -150,8 +150,10 @@ func (s *Stream) closePeerIfNeeded(flags FrameFlag) {
 		return
 	}
 
-	atomic.StoreInt32(&s.closedPeer, 1)
-	close(s.frameCh)
+	// already closed if reset by peer before the first frame
+	if atomic.CompareAndSwapInt32(&s.closedPeer, 0, 1) {
+		close(s.frameCh)
+	}
 	if atomic.LoadInt32(&s.closedSelf) != 0 {
 		s.afterDone()
 	}
-- 
2.43.0


From 774216a40d33448441380bbf4c329b1ba3161a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 07/42] fix: a frame for a half closed stream no longer blocks
 the reader

---
 framereader.go | 6 ++----
 stream.go      | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/framereader.go b/framereader.go
index 663adbe..25df61e 100644
--- a/framereader.go
+++ b/framereader.go
@@ -72,10 +72,8 @@ start:
 	if s.TryBind(f) {
 		return f, nil
 	}
-	ok := s.AddInFrame(f)
-	if !ok {
-		<-s.Done()
-	}
+	// a frame which is not accepted is dropped
+	s.AddInFrame(f)
 
 	goto start
 
diff --git a/stream.go b/stream.go
index cc978f0..79fbe3c 100644
--- a/stream.go
+++ b/stream.go
@@ -126,8 +126,7 @@ func (s *Stream) Done() <-chan struct{} {
 // AddInFrame tries to add an inframe to stream
 // framereader will call AddInFrame after TryBind fails
 // return value means whether accepted by stream
-// if not accepted, framereader should wait until stream closed,
-// and call DeleteStream then CreateOrGetStream again
+// if not accepted, framereader should throw away the frame
 func (s *Stream) AddInFrame(frame *Frame) bool {
 	if atomic.LoadInt32(&s.closedPeer) != 0 {
 		return false
-- 
2.43.0


From d5d2b7984840b94effd404c94c27b6e9df5ef8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 08/42] fix: streamed frames which nobody consumes no longer
 block the reader

---
 clientconn.go | 4 ++++
 serveconn.go  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 6193535..e97f4b9 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -495,6 +495,8 @@ func (conn *Connection) readFrames() {
 			// pushed frame
 			if conn.subscriber != nil {
 				conn.subscriber(conn, frame)
+			} else {
+				frame.Stream.Release()
 			}
 
 			continue
@@ -534,6 +536,8 @@ func (conn *Connection) readFrames() {
 			}
 
 			l.Error("dangling resp", zap.Uint64("requestID", frame.RequestID))
+			// nobody will consume the stream
+			frame.Stream.Release()
 
 			continue
 		}
diff --git a/serveconn.go b/serveconn.go
index c891a07..88c5922 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -386,6 +386,8 @@ func (sc *serveconn) readFrames() (err error) {
 			// pushed frame
 			if binding.SubFunc != nil {
 				binding.SubFunc(ci, req)
+			} else {
+				req.Stream.Release()
 			}
 
 			continue
-- 
2.43.0


From 655a54d2449c7de3c83258a866cd4e32a6e7a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 09/42] fix: continuation frames of a request whose handler
 returned no longer block the reader

---
 clientconn.go | 2 ++
 serveconn.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index e97f4b9..4c1157b 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -573,6 +573,8 @@ func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time)
 		}
 		w.Finalize()
 	}
+	// continuation frames are no longer consumed
+	s.reset()
 }
 
 func (conn *Connection) getWriter() *defaultFrameWriter {
diff --git a/serveconn.go b/serveconn.go
index 88c5922..7bc7099 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -274,6 +274,8 @@ func (sc *serveconn) handleRequestPanic(frame *RequestFrame, begin time.Time, in
 			l.Debug("send error frame", zap.String("ip", sc.RemoteAddr()), zap.Any("frame", frame), zap.Error(err))
 		}
 	}
+	// continuation frames are no longer consumed
+	s.reset()
 
 }
 
-- 
2.43.0


From c304dc12fd6ab6b54cfa8feaa1568725fb1efcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 10/42] fix: batched client writes refuse to continue a closed
 stream

---
 clientconn.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 4c1157b..27d7da9 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -686,9 +686,19 @@ firstFrame:
 					break
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
-				s, loaded := conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
-				if !loaded {
-					l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+				var s *Stream
+				if dfw.checkExist {
+					s = conn.cs.GetStream(requestID, flags)
+					if s == nil {
+						res.result <- ErrStreamNotExists
+						break
+					}
+				} else {
+					var loaded bool
+					s, loaded = conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
+					if !loaded {
+						l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+					}
 				}
 				if !s.AddOutFrame(requestID, flags) {
 					res.result <- ErrWriteAfterCloseSelf
-- 
2.43.0


From 5ce2136680369e9cee1fe9b33460ce2eedf5e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 11/42] fix: writes on a connection which is not yet served no
 longer get stuck

---
 serveconn.go | 1 -
 server.go    | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/serveconn.go b/serveconn.go
index 7bc7099..cbbf0e9 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -174,7 +174,6 @@ func (sc *serveconn) serve() {
 	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
-	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
 	})
diff --git a/server.go b/server.go
index d80f560..b2c53a9 100644
--- a/server.go
+++ b/server.go
@@ -429,7 +429,8 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 		writeFrameCh:   make(chan *writeFrameRequest, srv.bindings[idx].WriteFrameChSize),
 		cachedRequests: make([]*writeFrameRequest, 0, srv.bindings[idx].WriteFrameChSize),
 		cachedBuffs:    make(net.Buffers, 0, srv.bindings[idx].WriteFrameChSize),
-		wlockCh:        make(chan struct{}, 1)}
+		wlockCh:        make(chan struct{}, 1),
+		inflight:       1}
 
 	ctx, cancelCtx := context.WithCancel(ctx)
 	ctx = context.WithValue(ctx, ConnectionInfoKey, &ConnectionInfo{serveconn: sc})
-- 
2.43.0


From 09274b91b4aa217c47c57b0b2fb0b2e7da246614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 12/42] fix: frames for a request whose stream is already
 released are refused

---
 clientconn.go | 5 +++--
 serveconn.go  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 27d7da9..966f4cc 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -634,7 +634,8 @@ firstFrame:
 			}
 		} else if !flags.IsPush() { // skip stream logic if PushFlag set
 			var s *Stream
-			if dfw.checkExist {
+			// a stream initiated by peer is never recreated
+			if dfw.checkExist || requestID%2 == 0 {
 				s = conn.cs.GetStream(requestID, flags)
 				if s == nil {
 					res.result <- ErrStreamNotExists
@@ -687,7 +688,7 @@ firstFrame:
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
 				var s *Stream
-				if dfw.checkExist {
+				if dfw.checkExist || requestID%2 == 0 {
 					s = conn.cs.GetStream(requestID, flags)
 					if s == nil {
 						res.result <- ErrStreamNotExists
diff --git a/serveconn.go b/serveconn.go
index cbbf0e9..507b328 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -655,7 +655,8 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
 				var s *Stream
-				if dfw.checkExist {
+				// a stream initiated by peer is never recreated
+				if dfw.checkExist || requestID%2 == 1 {
 					s = sc.cs.GetStream(requestID, flags)
 					if s == nil {
 						res.result <- ErrStreamNotExists
-- 
2.43.0


From e6cd60f901aa5c89107fd15706cd33450b10fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 13/42] fix: an end frame which is no longer consumed still
 ends the stream

---
 stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream.go b/stream.go
index 79fbe3c..787bb42 100644
--- a/stream.go
+++ b/stream.go
@@ -137,6 +137,8 @@ func (s *Stream) AddInFrame(frame *Frame) bool {
 		s.closePeerIfNeeded(frame.Flags)
 		return true
 	case <-s.ctx.Done():
+		// nobody consumes the frame, but it may still end the stream
+		s.closePeerIfNeeded(frame.Flags)
 		return false
 	}
 }
-- 
2.43.0


From 6e933d5b7d867c1a2bc48b05fddf777bb6d0311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 14/42] fix: a stream writer never sends a continuation as
 reset or end by accident

---
 framewriter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index 6337212..8a7fc9d 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -189,6 +189,8 @@ func (dsw *defaultStreamWriter) StartWrite(cmd Cmd) {
 	dfw := (*defaultFrameWriter)(dsw)
 	dfw.wbuf = dfw.wbuf[:headerSize]
 	dfw.SetCmd(cmd)
+	// drop what is left by a previous EndWrite(true) or ResetFrame
+	dfw.SetFlags((dfw.Flags() & ^(StreamEndFlag | StreamRstFlag)).ToStream())
 }
 
 func (dsw *defaultStreamWriter) RequestID() uint64 {
-- 
2.43.0


From 205db2e2d1b78d0d925ecf5e2354fbca9b275730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 15/42] fix: a write given up when the connection ends is never
 sent half way later

---
 clientconn.go | 36 ++++++++++++++----------------------
 serveconn.go  | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 966f4cc..7acfb3c 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -381,6 +381,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 
 	wfr := wfrPool.Get().(*writeFrameRequest)
 	wfr.dfw = dfw
+	wfr.state = wfrPending
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -396,23 +397,13 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 		return loopCtx.Err()
 	}
 
-	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed
-	if conn.reconnect {
-		select {
-		case err := <-wfr.result:
-			wfr.dfw = nil
-			wfrPool.Put(wfr)
-			return err
-		}
-	} else {
-		select {
-		case err := <-wfr.result:
-			wfr.dfw = nil
-			wfrPool.Put(wfr)
-			return err
-		case <-loopCtx.Done():
-			return loopCtx.Err()
-		}
+	select {
+	case err := <-wfr.result:
+		wfr.dfw = nil
+		wfrPool.Put(wfr)
+		return err
+	case <-loopCtx.Done():
+		return wfr.abandon(loopCtx.Err())
 	}
 
 }
@@ -617,6 +608,9 @@ func (conn *Connection) collectWriteFrames(batch int) error {
 firstFrame:
 	select {
 	case res = <-conn.writeFrameCh:
+		if !res.take() {
+			goto firstFrame
+		}
 		dfw = res.dfw
 		flags = dfw.Flags()
 		requestID = dfw.RequestID()
@@ -671,6 +665,9 @@ firstFrame:
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-conn.writeFrameCh:
+			if !res.take() {
+				break
+			}
 			dfw = res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
@@ -723,11 +720,6 @@ firstFrame:
 
 func (conn *Connection) abortRequestsWhenClosed() {
 
-	// if reconnect not enabled,
-	// no need to deal with conn.cachedRequests since they will fall into the same case anyway
-	if !conn.reconnect {
-		return
-	}
 	for _, request := range conn.cachedRequests {
 		request.result <- ErrConnAlreadyClosed
 	}
diff --git a/serveconn.go b/serveconn.go
index 507b328..61b49bf 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -308,6 +308,28 @@ type readFrameResult struct {
 type writeFrameRequest struct {
 	dfw    *defaultFrameWriter
 	result chan error
+	state  int32 // access by atomic
+}
+
+const (
+	wfrPending int32 = iota
+	wfrTaken
+	wfrAbandoned
+)
+
+// take is called before processing the request, which must then be answered.
+// dfw must not be touched if it returns false
+func (wfr *writeFrameRequest) take() bool {
+	return atomic.CompareAndSwapInt32(&wfr.state, wfrPending, wfrTaken)
+}
+
+// abandon ends the request with err unless it's already being processed
+func (wfr *writeFrameRequest) abandon(err error) error {
+	if atomic.CompareAndSwapInt32(&wfr.state, wfrPending, wfrAbandoned) {
+		return err
+	}
+	// dfw is in use until the request is answered
+	return <-wfr.result
 }
 
 // A gate lets two goroutines coordinate their activities.
@@ -460,6 +482,7 @@ var wfrPool = sync.Pool{New: func() interface{} {
 func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 	wfr := wfrPool.Get().(*writeFrameRequest)
 	wfr.dfw = dfw
+	wfr.state = wfrPending
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -542,7 +565,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		wfrPool.Put(wfr)
 		return err
 	case <-sc.ctx.Done():
-		return sc.ctx.Err()
+		return wfr.abandon(sc.ctx.Err())
 	}
 
 }
@@ -638,6 +661,9 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-sc.writeFrameCh:
+			if !res.take() {
+				break
+			}
 			dfw = res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
@@ -679,7 +705,9 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 			sc.cachedBuffs = append(sc.cachedBuffs, dfw.GetWbuf())
 
 		case <-sc.ctx.Done():
-			// no need to deal with sc.cachedRequests since they will fall into the same case anyway
+			for _, request := range sc.cachedRequests {
+				request.result <- sc.ctx.Err()
+			}
 			return sc.ctx.Err()
 		default:
 			return nil
-- 
2.43.0


From 3dcaed6a6cbcfd81118069fcdd34e4cb09d3d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 16/42] fix: a client's handlers are told that their streams
 ended when the connection is lost

---
 clientconn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 7acfb3c..0f10b9e 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -218,11 +218,12 @@ func (conn *Connection) loop() {
 		}
 
 		conn.loopWG = &sync.WaitGroup{}
-		util.GoFunc(conn.loopWG, func() {
+		rwWG := &sync.WaitGroup{}
+		util.GoFunc(rwWG, func() {
 			conn.readFrames()
 		})
 
-		util.GoFunc(conn.loopWG, func() {
+		util.GoFunc(rwWG, func() {
 			conn.writeFrames()
 		})
 
@@ -237,8 +238,10 @@ func (conn *Connection) loop() {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
 
-		conn.loopWG.Wait()
+		rwWG.Wait()
+		// handlers may be waiting for the streams to end
 		conn.endLoop()
+		conn.loopWG.Wait()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
 		if !conn.reconnect {
-- 
2.43.0


From 08825a7da0c7ca8899a095204c75ec787131c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:38 +0000
Subject: [PATCH 17/42] fix: Serve returns when the server was shut down before
 it started

---
 server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index b2c53a9..53ac519 100644
--- a/server.go
+++ b/server.go
@@ -283,7 +283,9 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 	defer ln.Close()
 	var tempDelay time.Duration // how long to sleep on accept failure
 
-	srv.trackListener(ln, idx, true)
+	if !srv.trackListener(ln, idx, true) {
+		return ErrServerClosed
+	}
 	defer srv.trackListener(ln, idx, false)
 
 	acceptCheckFunc := srv.bindings[idx].LifecycleCallbacks.OnAccept
@@ -407,14 +409,19 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 	return
 }
 
-func (srv *Server) trackListener(ln net.Listener, idx int, add bool) {
+// trackListener returns false if server is already shutdown when adding
+func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	srv.mu.Lock()
 	defer srv.mu.Unlock()
 	if add {
+		if srv.done {
+			return false
+		}
 		srv.listeners[idx] = ln
 	} else {
 		srv.listeners[idx] = nil
 	}
+	return true
 }
 
 // Create new connection from rwc.
-- 
2.43.0


From 3c32948cdb81c1cb79822891edb4127149877bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:38 +0000
Subject: [PATCH 18/42] fix: a connection accepted while shutting down does not
 outlive Shutdown

---
 server.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 53ac519..f892b3c 100644
--- a/server.go
+++ b/server.go
@@ -333,10 +333,16 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 			}
 		}
 
-		util.GoFunc(&srv.wg, func() {
+		if !srv.goConn(func() {
 			c := srv.newConn(serveCtx, rw, idx)
 			c.serve()
-		})
+		}) {
+			rw.Close()
+			if closeNotifyFunc != nil {
+				closeNotifyFunc(rw)
+			}
+			return ErrServerClosed
+		}
 	}
 }
 
@@ -424,6 +430,18 @@ func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	return true
 }
 
+// goConn runs f in a goroutine that Shutdown waits for,
+// it returns false if server is already shutdown
+func (srv *Server) goConn(f func()) bool {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+	if srv.done {
+		return false
+	}
+	util.GoFunc(&srv.wg, f)
+	return true
+}
+
 // Create new connection from rwc.
 func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serveconn) {
 	sc = &serveconn{
-- 
2.43.0


From 07984fef440db21b4f793ee3167fb37e3f5ba45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:34 +0000
Subject: [PATCH 19/42] fix: a failing listener does not keep Shutdown from
 ending everything else

---
 server.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/server.go b/server.go
index f892b3c..549292b 100644
--- a/server.go
+++ b/server.go
@@ -540,20 +540,15 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 // Shutdown gracefully shutdown the server
 func (srv *Server) Shutdown() error {
 
+	var lnerr error
+
 	srv.mu.Lock()
 	if srv.done {
 		srv.mu.Unlock()
 		goto done
 	}
 
-	{
-		lnerr := srv.closeListenersLocked()
-		if lnerr != nil {
-			srv.mu.Unlock()
-			return lnerr
-		}
-	}
-
+	lnerr = srv.closeListenersLocked()
 	srv.done = true
 	srv.mu.Unlock()
 
@@ -566,7 +561,7 @@ func (srv *Server) Shutdown() error {
 done:
 	srv.wg.Wait()
 
-	return nil
+	return lnerr
 }
 
 // OnShutdown registers f to be called when shutdown
@@ -624,8 +619,9 @@ func (srv *Server) closeListenersLocked() (err error) {
 		if ln == nil {
 			continue
 		}
-		if err = ln.Close(); err != nil {
-			return
+		// a failing listener doesn't prevent the others from being closed
+		if cerr := ln.Close(); cerr != nil && err == nil {
+			err = cerr
 		}
 		srv.listeners[idx] = nil
 	}
-- 
2.43.0


From 1db839e32b18942787cdafdf7652cefbf6681dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:54 +0000
Subject: [PATCH 20/42] fix: a closed connection never keeps an id, and never
 unbinds it from another

---
 server.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 549292b..2118da2 100644
--- a/server.go
+++ b/server.go
@@ -136,6 +136,7 @@ type Server struct {
 	shutdownFunc []func()
 	done         bool
 
+	idMu             sync.Mutex // held when modifying id2Conn
 	id2Conn          []sync.Map
 	activeConn       []sync.Map // for better iterate when write, map[*serveconn]struct{}
 	throttle         []atomic.Value
@@ -478,7 +479,13 @@ func (srv *Server) bindID(sc *serveconn, id string) (kick bool, ko uint64) {
 	idx := sc.idx
 
 check:
+	if sc.IsClosed() {
+		// a closed connection doesn't own any id
+		return
+	}
+	srv.idMu.Lock()
 	v, loaded := srv.id2Conn[idx].LoadOrStore(id, sc)
+	srv.idMu.Unlock()
 
 	if loaded {
 		vsc := v.(*serveconn)
@@ -507,13 +514,30 @@ check:
 		atomic.AddUint64(&kickOrder, 1)
 		kick = true
 
+		// in case vsc was closed before its id was stored
+		srv.unbindID(vsc, id)
+
 		goto check
 	}
 
+	// in case sc was closed before its id was stored
+	if sc.IsClosed() {
+		srv.unbindID(sc, id)
+	}
+
 	ko = atomic.LoadUint64(&kickOrder)
 	return
 }
 
+// unbindID removes id if it's still bound to sc
+func (srv *Server) unbindID(sc *serveconn, id string) {
+	srv.idMu.Lock()
+	defer srv.idMu.Unlock()
+	if v, ok := srv.id2Conn[sc.idx].Load(id); ok && v.(*serveconn) == sc {
+		srv.id2Conn[sc.idx].Delete(id)
+	}
+}
+
 func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	locked := atomic.CompareAndSwapUint32(&sc.untrack, 0, 1)
@@ -524,7 +548,7 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	id := sc.GetID()
 	if id != "" {
-		srv.id2Conn[idx].Delete(id)
+		srv.unbindID(sc, id)
 	}
 	srv.activeConn[idx].Delete(sc)
 
-- 
2.43.0


From fb4951514be0d33b1d240c8274fd3aaa59b7d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 21/42] fix: a closed reconnecting client does not dial again

---
 clientconn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 0f10b9e..6b8a569 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -267,6 +267,12 @@ func (conn *Connection) connect() error {
 
 	count := 0
 	for {
+		select {
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
+		default:
+		}
+
 		addr := conn.addrs[conn.idx%len(conn.addrs)]
 		conn.idx++
 		count++
@@ -297,12 +303,6 @@ func (conn *Connection) connect() error {
 		if count >= len(conn.addrs) {
 			time.Sleep(reconnectIntervalAfter1stRound)
 		}
-
-		select {
-		case <-conn.ctx.Done():
-			return conn.ctx.Err()
-		default:
-		}
 	}
 
 }
-- 
2.43.0


From aabde44efd13977052a36a968543175afbe7ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 22/42] fix: blocking requests don't lower the count of
 in-flight streams

---
 serveconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 61b49bf..c124c8d 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -198,7 +198,8 @@ func (sc *serveconn) serve() {
 
 			if res.readMore != nil {
 				func() {
-					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
+					// blocking requests are not counted
+					defer sc.handleRequestPanic(res.f, time.Now(), nil)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
 				res.readMore()
-- 
2.43.0


From f96869828fc51b7ed56b1f65e6f000c6dd03d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 23/42] fix: setting and clearing a throttle concurrently
 neither panics nor strands waiters

---
 server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server.go b/server.go
index 2118da2..114238a 100644
--- a/server.go
+++ b/server.go
@@ -139,6 +139,7 @@ type Server struct {
 	idMu             sync.Mutex // held when modifying id2Conn
 	id2Conn          []sync.Map
 	activeConn       []sync.Map // for better iterate when write, map[*serveconn]struct{}
+	throttleMu       sync.Mutex // held when modifying throttle
 	throttle         []atomic.Value
 	closeRateLimiter []ratelimit.Limiter
 
@@ -666,6 +667,9 @@ func (srv *Server) waitThrottle(idx int, doneCh <-chan struct{}) {
 
 // SetThrottle sets throttle on
 func (srv *Server) SetThrottle(idx int) {
+	srv.throttleMu.Lock()
+	defer srv.throttleMu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v != nil {
 		// already on,do nothing
@@ -678,6 +682,9 @@ func (srv *Server) SetThrottle(idx int) {
 
 // ClearThrottle clears throttle onff
 func (srv *Server) ClearThrottle(idx int) {
+	srv.throttleMu.Lock()
+	defer srv.throttleMu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v == nil {
 		return
-- 
2.43.0


From 5e1ec20121ff94fa433e4d9eb86faeb54e576610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 24/42] fix: a connection accepted while throttled waits before
 its first request

---
 serveconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index c124c8d..56e7832 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -384,6 +384,8 @@ func (sc *serveconn) readFrames() (err error) {
 		lastCheckTS int64
 		tsCount     int
 	)
+	// may have been accepted while throttled
+	sc.server.waitThrottle(sc.idx, ctx.Done())
 	for {
 		req, err := sc.reader.ReadFrame(sc.cs)
 		if checkInBoundQPS {
-- 
2.43.0


From ba3e1452e44a81d58c7f0548ecef1a1f6dff01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 25/42] fix: a client whose connect callback waits for a
 response notices the loss of its connection

---
 clientconn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 6b8a569..24c8085 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -227,6 +227,12 @@ func (conn *Connection) loop() {
 			conn.writeFrames()
 		})
 
+		// OnConnect may be waiting for a response
+		util.GoFunc(rwWG, func() {
+			<-(*conn.loopCtx).Done()
+			conn.closeRWC()
+		})
+
 		if conn.conf.LifecycleCallbacks.OnConnect != nil {
 			conn.conf.LifecycleCallbacks.OnConnect(conn)
 		}
-- 
2.43.0


From dfb600396b47015326188f9abb37ec820ecb2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 26/42] fix: a client losing its connection at once does not
 read from a nil connection

---
 clientconn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 24c8085..537a3f9 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -479,10 +479,13 @@ func (conn *Connection) readFrames() {
 	defer conn.loopCancelCtx()
 
 	// in case closeRWC is already called
-	if conn.rwc == nil {
+	conn.mu.Lock()
+	rwc := conn.rwc
+	conn.mu.Unlock()
+	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, conn.rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
-- 
2.43.0


From f5d47bc952a7e04dc65fe3b262ad0ecc704a98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 27/42] fix: a failed-over call tries every active connection
 instead of a single one

---
 api.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/api.go b/api.go
index 93fab82..7a6f976 100644
--- a/api.go
+++ b/api.go
@@ -217,20 +217,26 @@ func (api *defaultAPI) reconnectIdx(idx int) (*Connection, error) {
 
 func (api *defaultAPI) callViaActiveConns(ctx context.Context, cmd Cmd, payload []byte) (result *Frame, err error) {
 	err = ErrNotActiveConn
-	var resp Response
+	conns := make(map[*Connection]int)
 	api.activeConns.Range(func(k, v interface{}) bool {
-		ac := k.(*Connection)
+		conns[k.(*Connection)] = v.(int)
+		return true
+	})
+
+	// an active conn may turn out to be lost, go on with the others
+	for ac, idx := range conns {
+		var resp Response
 		_, resp, err = ac.Request(cmd, NBFlag, payload)
 		if err != nil {
-			idx := v.(int)
 			api.safeCloseDeleteConn(idx, ac)
 			result, err = api.callWithoutConn(ctx, idx, cmd, payload)
 		} else {
 			result, err = resp.GetFrameWithContext(ctx)
 		}
-
-		return false
-	})
+		if err == nil || ctx.Err() != nil {
+			return
+		}
+	}
 
 	return
 }
-- 
2.43.0


From 4430c62f1489af6bc386537e2d40627240eea327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 28/42] fix: the end mark of a client's later channel messages
 is sent

---
 channel/clienttransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dd7d0d0..60de0e9 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -88,7 +88,7 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 
 	s.streamWriter.StartWrite(cmd)
 	s.streamWriter.WriteBytes(bytes)
-	err = s.streamWriter.EndWrite(false)
+	err = s.streamWriter.EndWrite(end)
 
 	return
 }
-- 
2.43.0


From 06d796b9045c074bf12dac779e681014e2412699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 29/42] fix: receiving from a channel without asking for the
 command yields the message

---
 channel/servetransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 89e03fc..310c8b5 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -87,7 +87,7 @@ func (r *serveReceiver) Receive(ctx context.Context, cmd *qrpc.Cmd, msg interfac
 
 	if cmd != nil {
 		*cmd = frame.Cmd
-		err = Unmarshal(frame.Payload, msg)
 	}
+	err = Unmarshal(frame.Payload, msg)
 	return
 }
-- 
2.43.0


From f4b13c06dc4df6ad24c29085db634400b9b9315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 30/42] fix: handlers of a client's first connection find the
 connection in their context

---
 clientconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 537a3f9..ab4397d 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -201,7 +201,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(ctx)
+		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
-- 
2.43.0


From db98c2893a2a885909361b67cd41fd778ed48054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:17 +0000
Subject: [PATCH 31/42] fix: a failed websocket write does not count its bytes
 as written

---
 ws/server/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws/server/conn.go b/ws/server/conn.go
index 2bf4edb..d4bc556 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -64,7 +64,11 @@ func (c *conn) readBuffer(b []byte) (n int, err error) {
 	return
 }
 func (c *conn) Write(b []byte) (n int, err error) {
-	return len(b), c.wc.WriteMessage(websocket.BinaryMessage, b)
+	err = c.wc.WriteMessage(websocket.BinaryMessage, b)
+	if err != nil {
+		return
+	}
+	return len(b), nil
 }
 
 func (c *conn) Close() (err error) {
-- 
2.43.0


From 674bb2f2f7f5046e06cc9673c7803c30e51f14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:44 +0000
Subject: [PATCH 32/42] fix: decoding a call envelope with huge lengths or
 deeply nested groups fails instead of crashing

---
 codegen/pb/rpc.pb.go | 66 +++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/codegen/pb/rpc.pb.go b/codegen/pb/rpc.pb.go
index 42ed930..3bcdaab 100644
--- a/codegen/pb/rpc.pb.go
+++ b/codegen/pb/rpc.pb.go
@@ -221,6 +221,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRpc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -250,6 +253,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRpc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -278,6 +284,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRpc
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -295,6 +304,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRpc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -311,6 +323,7 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 func skipRpc(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -342,10 +355,8 @@ func skipRpc(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -362,55 +373,36 @@ func skipRpc(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthRpc
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowRpc
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipRpc(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupRpc
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthRpc
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthRpc = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowRpc   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthRpc        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowRpc          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupRpc = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("rpc.proto", fileDescriptor_rpc_6a195279eb408770) }
-- 
2.43.0


From 59c2844ecc5ccf2a4e814e5f0a89976a596748a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:22 +0000
Subject: [PATCH 33/42] fix: a reconnecting client dials with its TLS
 configuration

---
 clientconn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index ab4397d..cd7884f 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -164,9 +164,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 		err error
 	)
 	if conf.OverlayNetwork != nil {
-		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	} else {
-		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	}
 	if err != nil {
 		l.Error("initconnect DialTimeout", zap.Error(err))
@@ -288,9 +288,9 @@ func (conn *Connection) connect() error {
 			err error
 		)
 		if conn.conf.OverlayNetwork != nil {
-			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		} else {
-			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		}
 
 		if err != nil {
-- 
2.43.0


From 8fd91507d80a4f47d668de290ecce36a8ea511c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 34/42] fix: a connection's ReaderConfig works as soon as the
 connection can be found

---
 serveconn.go | 9 ---------
 server.go    | 6 ++++++
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/serveconn.go b/serveconn.go
index 56e7832..5acf20a 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -163,15 +163,6 @@ func (sc *serveconn) serve() {
 	}()
 
 	ctx := sc.ctx
-	{
-		var maxFrameSize int
-		if binding.MaxFrameSize > 0 {
-			maxFrameSize = binding.MaxFrameSize
-		} else {
-			maxFrameSize = DefaultMaxFrameSize
-		}
-		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
-	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
 	util.GoFunc(&sc.wg, func() {
diff --git a/server.go b/server.go
index 114238a..53a4498 100644
--- a/server.go
+++ b/server.go
@@ -465,6 +465,12 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 	sc.cancelCtx = cancelCtx
 	sc.ctx = ctx
 	sc.bytesWriter = NewWriterWithTimeout(ctx, rwc, srv.bindings[idx].DefaultWriteTimeout)
+	// must be there before sc can be found, for ReaderConfig
+	maxFrameSize := DefaultMaxFrameSize
+	if srv.bindings[idx].MaxFrameSize > 0 {
+		maxFrameSize = srv.bindings[idx].MaxFrameSize
+	}
+	sc.reader = newFrameReaderWithMFS(ctx, rwc, srv.bindings[idx].DefaultReadTimeout, srv.bindings[idx].Codec, maxFrameSize)
 
 	srv.activeConn[idx].Store(sc, struct{}{})
 
-- 
2.43.0


From dda9d7ef6f8c01f6f7d6fcd43e89ea9c6a6bcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 35/42] fix: a failure to listen on one binding leaves nothing
 listening

---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index 53a4498..eb4528d 100644
--- a/server.go
+++ b/server.go
@@ -206,6 +206,10 @@ func (srv *Server) ListenAll() (err error) {
 			ln, err = net.Listen("tcp", binding.Addr)
 		}
 		if err != nil {
+			// nobody will serve what is already listening
+			for j := 0; j < i; j++ {
+				srv.bindings[j].ln.Close()
+			}
 			return
 		}
 
-- 
2.43.0


From 94f85644741753a4cefbf8eb3e2b8d3ff29ee6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 36/42] fix: an accepted connection which is not supported is
 closed

---
 server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server.go b/server.go
index eb4528d..85e12e2 100644
--- a/server.go
+++ b/server.go
@@ -397,6 +397,7 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 		ok bool
 	)
 	if tc, ok = c.(TCPConn); !ok {
+		c.Close()
 		err = ErrListenerAcceptReturnType
 		return
 	}
-- 
2.43.0


From 0f9a0307f7a9cbedaf4165cea24145d2f6907330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:02 +0000
Subject: [PATCH 37/42] fix: closing a websocket listener closes the clients it
 has not handed over

---
 ws/server/overlay.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 2f391bb..036b60b 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -53,7 +53,12 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 
 		select {
 		case o.acceptCh <- c:
+			if o.ctx.Err() != nil {
+				// nobody may accept it any more
+				o.closePending()
+			}
 		case <-o.ctx.Done():
+			c.Close()
 		}
 
 	})
@@ -90,9 +95,22 @@ func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 
 func (o *qrpcOverWS) Close() error {
 	o.cancelFunc()
+	o.closePending()
 	return o.l.Close()
 }
 
+// closePending closes connections which are not accepted
+func (o *qrpcOverWS) closePending() {
+	for {
+		select {
+		case c := <-o.acceptCh:
+			c.Close()
+		default:
+			return
+		}
+	}
+}
+
 func (o *qrpcOverWS) Addr() (addr net.Addr) {
 	return o.l.Addr()
 }
-- 
2.43.0


From 97d836793803881944b189d2a5c98945a47ea2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:09 +0000
Subject: [PATCH 38/42] fix: a reusable client connection uses the configured
 TLS and buffer sizes

---
 clientconn.go       | 7 ++++++-
 clientconn_reuse.go | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index cd7884f..8c7543c 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -121,6 +121,11 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 		return
 	}
 
+	return setupTCP(rwc, dialConfig)
+}
+
+// setupTCP applies dialConfig to a freshly dialed TCP connection
+func setupTCP(rwc net.Conn, dialConfig DialConfig) (_ net.Conn, err error) {
 	tc := rwc.(*net.TCPConn)
 	if dialConfig.RBufSize > 0 {
 		sockOptErr := tc.SetReadBuffer(dialConfig.RBufSize)
@@ -146,7 +151,7 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 		rwc = tlsConn
 	}
 
-	return
+	return rwc, nil
 }
 
 // NewConnectionWithReconnect constructs a *Connection with reconnect ability
diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 557ab0d..a21f0d6 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -17,6 +17,12 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	rwc, err = setupTCP(rwc, DialConfig{WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
+	if err != nil {
+		l.Error("NewConnection setupTCP", zap.Error(err))
+		return nil, err
+	}
+
 	return newConnection(rwc, []string{addr}, conf, f, false), nil
 }
 
-- 
2.43.0


From 19232116aa923ae8ab36e829ef8f062e99b41a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:54 +0000
Subject: [PATCH 39/42] fix: the read timeout may be changed while the
 connection is read

---
 reader.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0203bfa..6e2d02a 100644
--- a/reader.go
+++ b/reader.go
@@ -7,14 +7,15 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 // Reader read data from socket
 type Reader struct {
+	timeout int64 // accessed atomically
 	conn    net.Conn
 	reader  *bufio.Reader
-	timeout int
 	ctx     context.Context
 }
 
@@ -42,7 +43,7 @@ func NewReaderWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Read
 
 	bufReader := bufPool.Get().(*bufio.Reader)
 	bufReader.Reset(conn)
-	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: timeout}
+	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: int64(timeout)}
 }
 
 // Finalize is called when no longer used
@@ -53,8 +54,9 @@ func (r *Reader) Finalize() {
 }
 
 // SetReadTimeout allows modify timeout for read
+// it's safe to call while reading
 func (r *Reader) SetReadTimeout(timeout int) {
-	r.timeout = timeout
+	atomic.StoreInt64(&r.timeout, int64(timeout))
 }
 
 // ReadUint32 read uint32 from socket
@@ -80,7 +82,7 @@ func (r *Reader) ReadBytesWithMaxTimeout(bytes []byte, maxTimeoutSecond int) (er
 		offset  int
 		n       int
 	)
-	timeout := r.timeout
+	timeout := int(atomic.LoadInt64(&r.timeout))
 	if maxTimeoutSecond > 0 && timeout > maxTimeoutSecond {
 		timeout = maxTimeoutSecond
 	}
-- 
2.43.0


From cdd1a0c64774578b97e0dc9c0aa997d4863d9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:54 +0000
Subject: [PATCH 40/42] fix: a channel's receiver may be used while its sender
 sends

---
 channel/clienttransport.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index 60de0e9..ec44544 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -18,6 +18,7 @@ type (
 		t            *clientTransport
 		r            *clientReceiver
 		streamWriter qrpc.StreamWriter
+		respMu       sync.Mutex // guards resp, which Receive uses while Send may hold the lock
 		resp         qrpc.Response
 		firstFrame   *qrpc.Frame
 		closed       bool
@@ -69,8 +70,8 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		return
 	}
 
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.closed {
 		err = ErrSenderClosed
@@ -82,7 +83,11 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		flag |= qrpc.StreamEndFlag
 	}
 	if s.streamWriter == nil {
-		s.streamWriter, s.resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		var resp qrpc.Response
+		s.streamWriter, resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		s.respMu.Lock()
+		s.resp = resp
+		s.respMu.Unlock()
 		return
 	}
 
@@ -113,13 +118,16 @@ func (s *clientSender) End() (err error) {
 
 func (s *clientSender) getFrame(ctx context.Context) (frame *qrpc.Frame, err error) {
 
-	if s.resp == nil {
+	s.respMu.Lock()
+	resp := s.resp
+	s.respMu.Unlock()
+	if resp == nil {
 		err = ErrNoResp
 		return
 	}
 
 	if s.firstFrame == nil {
-		frame, err = s.resp.GetFrameWithContext(ctx)
+		frame, err = resp.GetFrameWithContext(ctx)
 		s.firstFrame = frame
 	} else {
 		select {
-- 
2.43.0


From 899f5dd4ac6bb89751481d845a0fa916cbe042a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:57 +0000
Subject: [PATCH 41/42] fix: closing a kept request closes only the connection
 it came on

RequestFrame.Close of a reconnecting client closed whatever connection the
client had at that time, even one made after the request's own was lost.
---
 clientconn.go | 26 ++++++++++++++++++++++++--
 frame.go      |  4 +++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 8c7543c..f38e48a 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -184,6 +184,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 // used to store custom information
 var ClientConnectionInfoKey = &contextKey{"qrpc-clientconnection"}
 
+// clientLoopKey is context key for the loopCtx of the net.Conn a frame came from
+var clientLoopKey = &contextKey{"qrpc-clientloop"}
+
 // ClientConnectionInfo for store info on clientconnection
 type ClientConnectionInfo struct {
 	CC *Connection
@@ -272,7 +275,10 @@ func (conn *Connection) atomicLoopCtx() context.Context {
 
 func (conn *Connection) connect() error {
 	// directly return if connection already established
-	if conn.rwc != nil {
+	conn.mu.Lock()
+	established := conn.rwc != nil
+	conn.mu.Unlock()
+	if established {
 		return nil
 	}
 
@@ -435,6 +441,20 @@ func (conn *Connection) closeRWC() {
 	conn.mu.Lock()
 	defer conn.mu.Unlock()
 
+	conn.closeRWCLocked()
+}
+
+// closeRWCOf closes current rwc if it's still the one paired with loopCtx
+func (conn *Connection) closeRWCOf(loopCtx *context.Context) {
+	conn.mu.Lock()
+	defer conn.mu.Unlock()
+
+	if conn.loopCtx == loopCtx {
+		conn.closeRWCLocked()
+	}
+}
+
+func (conn *Connection) closeRWCLocked() {
 	if conn.rwc == nil {
 		return
 	}
@@ -490,7 +510,9 @@ func (conn *Connection) readFrames() {
 	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	// requests remember their connection, for RequestFrame.Close
+	ctx := context.WithValue(*conn.loopCtx, clientLoopKey, conn.loopCtx)
+	reader := newFrameReader(ctx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
diff --git a/frame.go b/frame.go
index 528bc3b..782cc24 100644
--- a/frame.go
+++ b/frame.go
@@ -86,7 +86,9 @@ func (r *RequestFrame) Close() error {
 		ci := r.Stream.ctx.Value(ConnectionInfoKey).(*ConnectionInfo)
 		return ci.serveconn.Close()
 	}
-	cci.CC.closeRWC()
+	// the client may have another connection by now
+	loopCtx, _ := r.Stream.ctx.Value(clientLoopKey).(*context.Context)
+	cci.CC.closeRWCOf(loopCtx)
 	return nil
 
 }
-- 
2.43.0


From 140cebbf0b36fcf5064467fd66841d6cb053675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:57 +0000
Subject: [PATCH 42/42] fix: GetReusedCon reads the connection under its lock

A reconnecting client replaces it concurrently.
---
 clientconn_reuse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index a21f0d6..60860a2 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -28,5 +28,8 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 
 // GetReusedCon returns the underlying reuse-able socket
 func (conn *Connection) GetReusedCon() net.Conn {
+	conn.mu.Lock()
+	defer conn.mu.Unlock()
+
 	return conn.rwc
 }
-- 
2.43.0

