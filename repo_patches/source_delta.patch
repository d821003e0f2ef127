From 27c2e2a4e4e23263e7e80f741893572087a71fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 01/19] fix: end the ping loop when the connection closes

A stopped ticker's channel is never closed, so every connection leaked its
ping goroutine; the ticker field was also set by that goroutine while
CloseWithCode reads it.
---
 conn.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..f1ffbec 100755
--- a/conn.go
+++ b/conn.go
@@ -83,6 +83,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
 	return conn
@@ -142,13 +143,15 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-conn.ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From eded5e7c021c333a6b5016f70ccf0000836265e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 02/19] fix: run close hooks outside the close guard and leave
 the message writer alone

CloseWithCode flushed and closed a writer owned by another goroutine, released
its lock and pooled its buffer while it was in use, deadlocked when called from
a failing flush, and ran the user's hooks inside closeOnce and under onCloseMu,
where a hook that closes the connection blocks forever.
---
 conn.go       | 54 +++++++++++++++++++++++++++++----------------------
 conn_utils.go |  9 +++++++++
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/conn.go b/conn.go
index f1ffbec..5252d2e 100755
--- a/conn.go
+++ b/conn.go
@@ -199,43 +199,51 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
+
 		if conn.ticker != nil {
 			conn.ticker.Stop()
 		}
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	if !first {
+		return
+	}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// put the writer's buffer back to the pool (if exists).
+	// If a message is still being written its writer owns the buffer, so it's left to the GC.
+	// The lock is never released because nothing can be written anymore.
+	if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling && conn.writer.lock.tryLock() {
+		conn.upgrader.writePool.Put(conn.writer.pb)
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	// run hooks.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
+
+	conn.onCloseMu.Lock()
+	onClose := conn.onClose
+	conn.onCloseMu.Unlock()
+	if onClose != nil {
+		onClose()
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..d8252bb 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -56,6 +56,15 @@ func (m *mu) unLock() {
 	<-m.ch
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) tryUnlock() bool {
 	select {
 	case <-m.ch:
-- 
2.43.0


From 12846abd4d7c3e72c3dee7f47e336573fbfc2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 03/19] fix: release the transport before closing after a
 failed write

flush closed the connection while holding the write lock that the close frame
waits for, and wrote the frame header before it could still fail with a
context error, so that a retry had no header space. A frame that was written
partially is no longer followed by other frames.
---
 conn_write.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..a1356db 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -138,23 +138,22 @@ func (w *ConnWriter) flush(FIN bool) error {
 		opcode = OpcodeContinuation
 	}
 
-	err := w.writeHeaders(FIN, opcode)
+	err := w.conn.writeLock.lockCtx(w.ctx)
 	if err != nil {
 		return err
 	}
 
-	err = w.conn.writeLock.lockCtx(w.ctx)
+	err = w.writeHeaders(FIN, opcode)
 	if err != nil {
+		w.conn.writeLock.unLock()
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
-	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err == nil {
+		err = w.conn.sendFrame(w.buf[w.start:w.used])
 	}
-
-	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	// must be released before closing, because closing waits for it to write the close frame.
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
@@ -181,9 +180,13 @@ func (w *ConnWriter) Close() error {
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
-// The fucntion doesnt close the connection on error.
+// The fucntion doesnt run the closing of the connection on error, but it closes the underlying
+// connection, because nothing may follow a frame that was written partially.
 func (conn *Conn) sendFrame(buf []byte) error {
 	_, err := conn.raw.Write(buf)
+	if err != nil {
+		conn.raw.Close()
+	}
 
 	return err
 }
-- 
2.43.0


From 8ba66c744e9796491cfcc80735c5a3c3eac09731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 04/19] fix: close the connection when a broadcast frame can't
 be written

---
 broadcast.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..9f097bf 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -25,16 +25,17 @@ func (m *frame) writeToConn(conn *Conn) error {
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
 
 	// set deadline
-	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
-		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait))
+	if err == nil {
+		// send frame
+		err = conn.sendFrame(m.buf)
 	}
-
-	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	// must be released before closing, because closing waits for it to write the close frame.
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
-- 
2.43.0


From 40ace8f320952f6baecd22bfe6a5a3b503c238eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 05/19] fix: never hand out a lock of a closed connection or
 for a done context

select chose at random between the free lock and the closed connection (or done
context), so a message could be started after closing and a message given up
because of its context could still be completed.
---
 conn_utils.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/conn_utils.go b/conn_utils.go
index d8252bb..99e655c 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -39,7 +39,23 @@ func newMu(c *Conn) *mu {
 	return &mu{conn: c, ch: make(chan struct{}, 1)}
 }
 
+// closedErr returns a fatal error if the connection is closed.
+// It's checked before waiting for the lock because select picks a random case
+// if the connection is closed and the lock is free.
+func (m *mu) closedErr() error {
+	select {
+	case <-m.conn.done:
+		return fatal(ErrConnClosed)
+	default:
+		return nil
+	}
+}
+
 func (m *mu) lock() error {
+	if err := m.closedErr(); err != nil {
+		return err
+	}
+
 	select {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
@@ -78,6 +94,12 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	if ctx == nil || ctx.Done() == nil {
 		return m.lock()
 	}
+	if err := m.closedErr(); err != nil {
+		return err
+	}
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 
 	select {
 	case <-m.conn.done:
@@ -90,6 +112,10 @@ func (m *mu) lockCtx(ctx context.Context) error {
 }
 
 func (m *mu) lockTimer(t *time.Timer) error {
+	if err := m.closedErr(); err != nil {
+		return err
+	}
+
 	select {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
-- 
2.43.0


From d11c211d69550e1eb62e1fdb463bf199e97d616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 06/19] fix: build control frames from their own payload, under
 the transport's own deadline

An empty ping or pong reused the previous frame's length byte, the shared timer
was used by concurrent senders, the payload was awaited from the client with the
control lock held, the deadline was set before the transport was obtained and so
applied to somebody else's frame, and a failing deadline left the socket open.
---
 conn.go       |  1 -
 conn_write.go | 65 ++++++++++++++++++++++++---------------------------
 2 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/conn.go b/conn.go
index 5252d2e..992cac7 100755
--- a/conn.go
+++ b/conn.go
@@ -125,7 +125,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index a1356db..fee7eae 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -297,28 +297,8 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
-
-	err := cw.lock.lockTimer(cw.t)
-	if err != nil {
-		return err
-	}
-	defer cw.lock.unLock()
-
-	// set deadline
-	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
-		return err
-	}
-
-	// write header and payload
-	cw.buf = cw.buf[:2]
-	cw.buf[0] = 0x80 + opcode
-
+	// read the payload before acquiring the locks, because the client may delay sending it.
+	var payload []byte
 	if isMasked {
 		b, err := cw.conn.nRead(4)
 		if err != nil {
@@ -327,21 +307,39 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		copy(cw.maskKey[:], b)
 	}
 	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
+		var err error
+		payload, err = cw.conn.nRead(n)
 		if err != nil {
 			return ErrConnClosed
 		}
-		cw.buf[1] = byte(n)
-
 		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
 	}
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
+
+	err := cw.lock.lockTimer(t)
+	if err != nil {
+		return err
+	}
+	defer cw.lock.unLock()
+
+	// write header and payload
+	cw.buf = cw.buf[:2]
+	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = byte(len(payload))
+	cw.buf = append(cw.buf, payload...)
+
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
 
+	// set deadline
+	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
+		return err
+	}
+
 	return cw.conn.sendFrame(cw.buf)
 }
 
@@ -356,12 +354,6 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	// lock without unlocking because this is the last write.
 	cw.lock.forceLock()
 
-	// set deadline
-	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
-		return
-	}
-
 	cw.buf = cw.buf[:4]
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
@@ -373,6 +365,11 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
-	cw.conn.sendFrame(cw.buf)
+
+	// set deadline
+	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
+	if err == nil {
+		cw.conn.sendFrame(cw.buf)
+	}
 	cw.conn.raw.Close()
 }
-- 
2.43.0


From b86982cf1d48f563eae575527d52f9ada38c3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 07/19] fix: mark a ping as sent before sending it and close
 when it can't be sent

Concurrent callers could send two pings, a pong could arrive before the ping was
marked and be ignored, and a fatal error was returned for an open connection.
---
 conn_write.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index fee7eae..0528561 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -267,16 +267,17 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	// must be set before sending, because the pong may arrive before the function returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From b4924f4b8cecda44ad1eb0646c764ae5b25621eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 08/19] fix: give the writer lock back when a message fails,
 and never complete it

SendMessage and SendJSON kept the writer lock forever after an error, a failed
batch was closed as if it was complete, and a fragmented message given up half
way was followed by the next message on an open connection.
---
 conn_batcher.go |  3 +--
 conn_write.go   | 26 +++++++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..ff3b3a6 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -141,8 +141,7 @@ func (b *messageBatch) sendWrapper(messages [][]byte, encoder batchEncoder) erro
 	err = encoder(w, messages, p, s)
 	if err != nil {
 		fmt.Println(err)
-		w.Close()
-		return err
+		return w.finish(err)
 	}
 
 	return w.Close()
diff --git a/conn_write.go b/conn_write.go
index 0528561..e1a603e 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -168,15 +168,27 @@ func (w *ConnWriter) flush(FIN bool) error {
 
 // Close flushes the final frame and releases the writer lock.
 func (w *ConnWriter) Close() error {
-	if !w.closed {
-		defer w.lock.tryUnlock()
-		defer func() { w.closed = true }()
-		err := w.flush(true)
-		return err
+	if w != nil && !w.closed {
+		return w.finish(w.flush(true))
 	}
 	return nil
 }
 
+// finish ends the current message and releases the writer lock.
+// It receives the error (or nil) that the message ended with and returns it.
+// If the message is given up after a part of it has been sent, the connection gets closed,
+// because the client would take the next message for the rest of this one.
+func (w *ConnWriter) finish(err error) error {
+	if err != nil && !IsFatalErr(err) && w.flushCount > 0 {
+		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		err = fatal(err)
+	}
+	w.closed = true
+	w.lock.tryUnlock()
+
+	return err
+}
+
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
@@ -208,7 +220,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
-		return err
+		return w.finish(err)
 	}
 
 	return w.Close()
@@ -254,7 +266,7 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 
 	err = json.NewEncoder(w).Encode(v)
 	if err != nil {
-		return err
+		return w.finish(err)
 	}
 
 	return w.Close()
-- 
2.43.0


From c94f77d6d32e4a650b8037e417773755193e2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 09/19] fix: don't send broadcast frames in the middle of a
 fragmented message

---
 broadcast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 9f097bf..2755f3e 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -21,6 +21,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// Acquire the writer lock, because a data frame can't be sent in the middle of a fragmented message.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
-- 
2.43.0


From cf90b05e6959741849eb976e68ca62587513e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 10/19] fix: skip the rest of a message that wasn't read to its
 end

The leftover of a message that the application stopped reading (or read as the
wrong type, or partially decoded) was parsed as the next frame.
---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 992cac7..2416f1e 100755
--- a/conn.go
+++ b/conn.go
@@ -75,7 +75,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index da53a27..0feced9 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// skip what is left of the previous message, if it wasn't read to its end.
+	if err := conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index 99e655c..4d32a4d 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -148,6 +148,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		opcode, err := conn.acceptFrame()
@@ -164,6 +165,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From c319fab4bbde3ce7ca489f291291132374179fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 11/19] fix: apply the message limits as documented

MaxMessageSize -1 refused every message instead of none, control frames were
measured against it, and one fragment more than ReaderMaxFragments was accepted.
---
 conn_read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index 0feced9..ba55312 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,7 +92,7 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
+		if !isControl(opcode) && conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
 			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
 			return nilOpcode, ErrTooLargePayload
 		}
@@ -171,7 +171,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
@@ -216,7 +216,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 828fac47247720e884e1469074cb3911cdec4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 12/19] fix: unmask bytes that arrive together with a read
 error

---
 conn_read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index ba55312..ab896f1 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -236,6 +236,9 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 		rn, err := r.conn.readBuf.Read(p[n : n+toRead])
 		n += rn
 		r.remaining -= rn
+		if r.isMasked {
+			r.mask(p[n-rn : n])
+		}
 		if err == io.EOF {
 			// connection got closed
 			r.conn.CloseWithCode(CloseNormalClosure, "")
@@ -246,9 +249,6 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return n, fatal(err)
 		}
 
-		if r.isMasked {
-			r.mask(p[n-rn : n])
-		}
 	}
 }
 
-- 
2.43.0


From a4c3e03b6fe02cdaaaaac86caa30563c1ae88669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 13/19] fix: close the connection when the rate limit hook asks
 to end it

NextReader returned a fatal error but left the connection open, with the
refused message still unread.
---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index ab896f1..97d8f96 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -176,6 +176,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 
 	ok, err := conn.allow()
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return nil, nilOpcode, fatal(err)
 	} else if !ok {
 		if err := conn.skipRestOfMessage(); err != nil {
@@ -248,7 +249,6 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			r.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return n, fatal(err)
 		}
-
 	}
 }
 
-- 
2.43.0


From 663f642f538c1d312bf0e15b2de9bcb224f0d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 14/19] fix: track the managers and rooms of a connection
 independently

A connection had room for one close callback, so joining a second room (or a
manager) made it stay in the first one after closing. A replaced manager
connection unregistered its replacement, a connection that closed before it was
added stayed forever, and removing a non-member or adding a member ran the hooks.
Shutdown of a manager deadlocked on its own lock.
---
 conn.go          | 53 ++++++++++++++++++++++++++++++-------------
 manager.go       | 58 +++++++++++++++++++++++++++++++++---------------
 rooms_manager.go | 27 ++++++++++++++++------
 3 files changed, 98 insertions(+), 40 deletions(-)

diff --git a/conn.go b/conn.go
index 2416f1e..106ad7a 100755
--- a/conn.go
+++ b/conn.go
@@ -27,7 +27,8 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// onClose holds a callback for every manager and room that tracks the connection.
+	onClose map[any]func()
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -45,6 +46,7 @@ type Conn struct {
 	readBuf       *bufio.Reader
 
 	broadcastQueue chan message
+	broadcastOnce  sync.Once
 
 	batch *messageBatch
 }
@@ -90,13 +92,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
-
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
@@ -109,11 +109,6 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.onCloseMu.Lock()
-	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
-		m.unregister(key)
-	}
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
@@ -238,11 +233,39 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	}
 
 	conn.onCloseMu.Lock()
-	onClose := conn.onClose
+	callbacks := conn.onClose
+	conn.onClose = nil
 	conn.onCloseMu.Unlock()
-	if onClose != nil {
-		onClose()
+	for _, callback := range callbacks {
+		callback()
+	}
+}
+
+// setOnClose sets the callback that the given owner (a manager or a room) wants to be called when the
+// connection closes. It returns false, without setting it, if the connection is already closed.
+func (conn *Conn) setOnClose(owner any, callback func()) bool {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+
+	select {
+	case <-conn.done:
+		return false
+	default:
+	}
+
+	if conn.onClose == nil {
+		conn.onClose = make(map[any]func())
 	}
+	conn.onClose[owner] = callback
+
+	return true
+}
+
+// removeOnClose removes the callback of the given owner.
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+	delete(conn.onClose, owner)
 }
 
 // This function is called upon receiving a close frame from the client.
diff --git a/manager.go b/manager.go
index b0706a2..8fc671c 100755
--- a/manager.go
+++ b/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"net/http"
 	"slices"
 	"sync"
@@ -70,25 +71,46 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// must be enabled before a broadcast can see the connection.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
-	}
+	replaced, ok := m.conns[key]
 	m.conns[key] = conn
+	open := conn.setOnClose(managerKey[KeyType]{m, key}, func() {
+		m.unregister(key, conn)
+	})
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
+	if ok && replaced.Conn != conn.Conn {
+		go replaced.CloseWithCode(ClosePolicyViolation, "replaced by a new connection")
+		if m.OnUnregister != nil {
+			m.OnUnregister(replaced)
+		}
+	}
+
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+
+	// the connection got closed before it was registered.
+	if !open {
+		m.unregister(key, conn)
+	}
+}
+
+// managerKey identifies a registration of a connection, used as the owner of its onClose callback.
+type managerKey[KeyType comparable] struct {
+	m   *Manager[KeyType]
+	key KeyType
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+// It does nothing if the key is associated with another connection, which has replaced the given one.
+func (m *Manager[KeyType]) unregister(id KeyType, conn *ManagedConn[KeyType]) error {
 	m.mu.Lock()
 
-	conn, ok := m.conns[id]
-	if !ok {
+	if m.conns[id] != conn {
 		m.mu.Unlock()
 		return ErrConnNotFound
 	}
@@ -194,31 +216,31 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
+	// The lock can't be held while closing, because closing a connection unregisters it.
+	m.mu.RLock()
+	conns := maps.Clone(m.conns)
+	m.mu.RUnlock()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
-	ch := make(chan *ManagedConn[KeyType], workers)
+	ch := make(chan KeyType, workers)
 
 	for range workers {
 		wg.Add(1)
 		go func() {
-			for conn := range ch {
-				conn.Close()
+			for key := range ch {
+				conns[key].Close()
+				m.unregister(key, conns[key])
 			}
 			wg.Done()
 		}()
 	}
 
-	conns := m.GetAllConns()
-	for _, conn := range conns {
-		ch <- conn
+	for key := range conns {
+		ch <- key
 	}
 	close(ch)
 	wg.Wait()
-
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..41b8365 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -228,22 +228,30 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// must be enabled before a broadcast can see the connection.
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	r.conns[conn] = true
-	r.mu.Unlock()
-
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
+	open := conn.setOnClose(r, func() {
 		r.Remove(conn, args...)
-	}
-	conn.onCloseMu.Unlock()
+	})
+	r.mu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
 	}
+
+	// the connection got closed before it was added.
+	if !open {
+		r.Remove(conn, args...)
+	}
 }
 
 // Remove removes a connection from the room.
@@ -254,7 +262,12 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
-- 
2.43.0


From af6dc66b8bc221f2a93843863457b2349bbc7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 15/19] fix: shut rooms down without holding their locks

Closing a connection makes it leave its rooms, which needs the locks Shutdown
held while waiting. RemoveAll crashed without a leave hook, and closing a room
deleted whatever room had its key.
---
 rooms_manager.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 41b8365..c74c552 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -171,18 +171,20 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 //
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
+	// The locks can't be held while closing, because a connection leaves its rooms when it closes.
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
 
 	var wg sync.WaitGroup
-	workers := (connsCount / 5) + 2
-	ch := make(chan *Conn, connsCount)
+	workers := (len(conns) / 5) + 2
+	ch := make(chan *Conn, len(conns))
 
 	for range workers {
 		wg.Add(1)
@@ -194,17 +196,16 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
+
+	for _, r := range rooms {
+		r.RemoveAll()
+	}
 }
 
 // Close removes all connections from the room and deletes the room from its manager.
@@ -217,7 +218,10 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	// the key may already belong to a newer room.
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
@@ -284,11 +288,16 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-	for c := range conns {
-		r.OnLeave(r, c)
+	if r.OnLeave != nil {
+		for c := range conns {
+			r.OnLeave(r, c)
+		}
 	}
 }
 
-- 
2.43.0


From 10cdc848eed60a016c87b3e846e17b24624ae008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 16/19] fix: leave nothing behind when the handshake response
 can't be written

The socket, the ping goroutine and the flusher entry leaked, a ping could be
sent before the response, the response was written without a time limit, and a
connection was only rate limited after the connect hook, or forever if the hook
closed it.
---
 conn.go     |  4 ++++
 upgrader.go | 16 +++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index 106ad7a..e2c9264 100755
--- a/conn.go
+++ b/conn.go
@@ -81,6 +81,10 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	if u.Flusher != nil {
 		conn.batch = u.Flusher.newBatch(conn)
 	}
diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..8238108 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -9,6 +9,7 @@ import (
 	"slices"
 	"strings"
 	"sync"
+	"time"
 )
 
 const GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
@@ -105,7 +106,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
 
 	// writing response
 	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
@@ -121,20 +121,22 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 	p = append(p, "\r\n"...)
 
-	_, err = c.Write(p)
+	if err = c.SetWriteDeadline(time.Now().Add(u.WriteWait)); err == nil {
+		_, err = c.Write(p)
+	}
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	// must be created after the response, because it starts sending pings.
+	conn := u.newConn(c, subProtocol, brw.Reader, p[:0])
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
-	return conn, err
+	return conn, nil
 }
 
 func validateConnectionHeader(r *http.Request) error {
-- 
2.43.0


From d6f27cc6337206bd77f87a5da025d32d591f3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 17/19] fix: keep batches in order and within their size, and
 lose none of them

Every flush was sent by its own goroutine, so batches overtook each other, a
batch could grow over the limit between the flush and the append, a message
could be accepted after the final flush, and the flusher could see a connection
before its batch or its custom send function was set.
---
 conn.go         |  2 ++
 conn_batcher.go | 54 ++++++++++++++++++++++++++++++++++++-------------
 flusher.go      |  5 +++--
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index e2c9264..0cfe0eb 100755
--- a/conn.go
+++ b/conn.go
@@ -87,6 +87,8 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 
 	if u.Flusher != nil {
 		conn.batch = u.Flusher.newBatch(conn)
+		// must be added after the batch is set, because the flusher uses it.
+		conn.batch.flusher.add(conn)
 	}
 
 	conn.ticker = time.NewTicker(u.PingEvery)
diff --git a/conn_batcher.go b/conn_batcher.go
index ff3b3a6..2d4f076 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -10,13 +10,15 @@ import (
 type messageBatch struct {
 	messages  [][]byte
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// batches waiting to be sent, in order. Only one goroutine (drain) sends them.
+	pending [][][]byte
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
 	return &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
@@ -41,6 +43,10 @@ func (conn *Conn) Batch(data []byte) error {
 		return ErrBatchingUninitialized
 	}
 
+	// checked with the lock held, because the final flush must include every accepted message.
+	conn.batch.mu.Lock()
+	defer conn.batch.mu.Unlock()
+
 	select {
 	case <-conn.done:
 		return ErrConnClosed
@@ -51,16 +57,12 @@ func (conn *Conn) Batch(data []byte) error {
 	default:
 	}
 
-	conn.batch.mu.Lock()
 	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
-		conn.batch.mu.Unlock()
-		conn.batch.flush()
-		conn.batch.mu.Lock()
+		conn.batch.flushLocked()
 	}
 
 	conn.batch.messages = append(conn.batch.messages, data)
 	conn.batch.totalSize += len(data)
-	conn.batch.mu.Unlock()
 
 	return nil
 }
@@ -85,19 +87,43 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 	return conn.Batch(jData)
 }
 
-// if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
+// if the messages slice isn't empty, it queues it, allocates a new one, and sends it.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.flushLocked()
+}
+
+// the batch's lock must be held.
+func (b *messageBatch) flushLocked() {
 	if len(b.messages) == 0 {
-		b.mu.Unlock()
 		return
 	}
-	c := b.messages
+	b.pending = append(b.pending, b.messages)
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
-	b.mu.Unlock()
 
-	go b.send(c)
+	if !b.sending {
+		b.sending = true
+		go b.drain()
+	}
+}
+
+// sends the pending batches one after the other, until there are none left.
+func (b *messageBatch) drain() {
+	for {
+		b.mu.Lock()
+		if len(b.pending) == 0 {
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		c := b.pending[0]
+		b.pending = b.pending[1:]
+		b.mu.Unlock()
+
+		b.send(c)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
diff --git a/flusher.go b/flusher.go
index 4a36166..f2cabb2 100755
--- a/flusher.go
+++ b/flusher.go
@@ -146,8 +146,9 @@ func (u *Upgrader) EnableBatching(ctx context.Context, flushEvery time.Duration,
 		sendFunc = emptySendFunc
 	}
 
-	u.Flusher = newFlusher(ctx, StrategyCustom, flushEvery)
-	u.Flusher.customSend = sendFunc
+	flusher := newFlusher(ctx, StrategyCustom, flushEvery)
+	flusher.customSend = sendFunc
+	u.Flusher = flusher
 }
 
 // add a conn
-- 
2.43.0


From 08cd92a5e373e822e4b413a434e3affee56c754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 18/19] fix: broadcasts wait only for open connections and copy
 what they queue

The wait policy blocked forever on a connection that closed, a nil context
crashed batch broadcasts, and they queued the caller's slice instead of a copy.
---
 broadcast.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/broadcast.go b/broadcast.go
index 2755f3e..e680aa0 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -1,6 +1,7 @@
 package snapws
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"time"
@@ -121,6 +122,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 				select {
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done:
 				case conn.broadcastQueue <- m:
 					n++
 				}
@@ -148,8 +150,12 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	if u.Flusher == nil {
 		return 0, ErrBatchingUninitialized
 	}
+	if ctx == nil {
+		ctx = context.Background()
+	}
 
-	m := &batchMessage{buf: data}
+	// the data is copied because it is used after the function returns.
+	m := &batchMessage{buf: bytes.Clone(data)}
 
 	for _, conn := range conns {
 		select {
@@ -176,6 +182,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 					return n, u.Flusher.ctx.Err()
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done:
 				case conn.broadcastQueue <- m:
 					n++
 				}
-- 
2.43.0


From d7ea80bcbcbd3734dfe6329e6710c276d6ca7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 19/19] fix: accept every option value

Negative durations and sizes, an unknown backpressure strategy, and write or
read buffers smaller than a header or a control frame crashed the library, made
Write loop forever, or refused every ping.
---
 conn.go    |  9 ++++-----
 flusher.go |  2 +-
 options.go | 18 ++++++++++++------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index 0cfe0eb..4804fb2 100755
--- a/conn.go
+++ b/conn.go
@@ -63,13 +63,12 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writeLock = newMu(conn)
 
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	// the payload of a control frame must fit in the buffer.
+	if br != nil && br.Size() >= MaxControlFramePayload && (size == 0 || size == br.Size()) {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
-		}
-		if br.Buffered() > 0 && br != nil {
+		size = max(size, MaxControlFramePayload)
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
diff --git a/flusher.go b/flusher.go
index f2cabb2..2be0003 100755
--- a/flusher.go
+++ b/flusher.go
@@ -66,7 +66,7 @@ func newFlusher(ctx context.Context, strategy BatchStrategy, flushEvery time.Dur
 		ctx = context.Background()
 	}
 
-	if flushEvery == 0 {
+	if flushEvery <= 0 {
 		flushEvery = time.Millisecond * 50
 	}
 
diff --git a/options.go b/options.go
index 8c3f0bc..c759c94 100755
--- a/options.go
+++ b/options.go
@@ -102,26 +102,32 @@ type Options struct {
 }
 
 func (opt *Options) WithDefault() {
-	if opt.WriteWait == 0 {
+	if opt.WriteWait <= 0 {
 		opt.WriteWait = defaultWriteWait
 	}
-	if opt.ReadWait == 0 {
+	if opt.ReadWait <= 0 {
 		opt.ReadWait = defaultReadWait
 	}
-	if opt.PingEvery == 0 {
+	if opt.PingEvery <= 0 {
 		opt.PingEvery = defaultPingEvery
 	}
 	if opt.MaxMessageSize == 0 {
 		opt.MaxMessageSize = DefaultMaxMessageSize
 	}
-	if opt.WriteBufferSize == 0 {
+	if opt.WriteBufferSize <= 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
+	} else if opt.WriteBufferSize <= MaxHeaderSize {
+		// there must be space for the payload after the header.
+		opt.WriteBufferSize += MaxHeaderSize
 	}
-	if opt.BroadcastChannelsSize == 0 {
+	if opt.BroadcastBackpressure < BackpressureDrop || opt.BroadcastBackpressure > BackpressureWait {
+		opt.BroadcastBackpressure = BackpressureDrop
+	}
+	if opt.BroadcastChannelsSize <= 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
 	}
 
-	if opt.MaxBatchSize == 0 {
+	if opt.MaxBatchSize <= 0 {
 		opt.MaxBatchSize = DefaultMaxMessageSize
 	}
 }
-- 
2.43.0

