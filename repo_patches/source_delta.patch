From 86974bc33ba850253221f70da9df1fd4de788ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 01/14] fix: report an error when the input ends before a
 control sequence

A failed Scan() was treated like a found delimiter, so a set operation
succeeded when the connection returned EOF or a read error instead of an ACK.
---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..6a5b627 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -35,10 +35,19 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	found, err := WaitTimeout(done, timer)
+	if err != nil {
 		return out, err
 	}
 
+	// The input ended or failed before a delimiter appeared
+	if !found {
+		if err := scanner.Err(); err != nil {
+			return out, err
+		}
+		return out, io.ErrUnexpectedEOF
+	}
+
 	// Return all characters found on the way to the delimiter
 	out = scanner.Bytes()
 
-- 
2.43.0


From 6b9b858af28e873b7df2876752664c12002ca295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 02/14] fix: only accept the expected control sequence at each
 point of a reply

An end or start sequence was taken for an ACK (and vice versa), so a set
operation succeeded on any control sequence and a read on a reply without one.
---
 libcomfo/conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 6a5b627..53b2eb4 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -60,6 +60,9 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
+	// Control character of the sequence that was found last
+	var ctrl byte
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -71,6 +74,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					char := data[i+1]
 					switch char {
 					case ack, start, end:
+						ctrl = char
 						// Advance the pointer past the 2nd command character
 						return i + 2, data[:i], nil
 					default:
@@ -89,8 +93,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes before ACK
-	if len(pr) != 0 {
+	// Found bytes before ACK, or another sequence
+	if len(pr) != 0 || ctrl != ack {
 		return out, errScanInput
 	}
 
@@ -105,8 +109,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes between ACK and packet start
-	if len(pr) != 0 {
+	// Found bytes between ACK and packet start, or another sequence
+	if len(pr) != 0 || ctrl != start {
 		return out, errScanInput
 	}
 
@@ -116,6 +120,11 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
+	// Packet was cut off by another sequence
+	if ctrl != end {
+		return out, errScanInput
+	}
+
 	// Abort on invalid input
 	if len(pr) > 0 && len(pr) < 4 {
 		return out, errTooShort
-- 
2.43.0


From daef2a2144f9b829aff3431213d72803ef8e1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 03/14] fix: skip the contents of a frame when looking for its
 end sequence

---
 libcomfo/conn.go | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 53b2eb4..2da0a0f 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -66,7 +66,16 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		for i := 0; i < len(data); i++ {
+		// Behind a start sequence, length, payload and checksum may look like
+		// control sequences. Skip them before looking for the end sequence.
+		skip := 0
+		if ctrl == start {
+			var ok bool
+			if skip, ok = skipFrame(data); !ok && !atEOF {
+				return // more data needed
+			}
+		}
+		for i := skip; i < len(data); i++ {
 			// Look for escape characters
 			if data[i] == esc {
 				// Look for the given byte following the escape character within bounds
@@ -141,6 +150,41 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	return
 }
 
+// skipFrame returns the offset in data from where to look for the sequence that
+// ends a frame: behind its checksum, or at the first control sequence in its
+// payload. It returns false if data does not reach that far.
+func skipFrame(data []byte) (offset int, ok bool) {
+
+	if len(data) < dataOffset {
+		return 0, false
+	}
+
+	i := dataOffset
+	for n := int(data[lenOffset]); n > 0; n-- {
+		// Any 0x07 in the payload is followed by another byte
+		if i+1 >= len(data) {
+			return 0, false
+		}
+
+		if data[i] == esc {
+			switch data[i+1] {
+			case ack, start, end:
+				// Frame is cut short
+				return i, true
+			case esc:
+				i++
+			default:
+				// Stray escape character, not a byte of payload
+				n++
+			}
+		}
+		i++
+	}
+
+	// Checksum
+	return i + 1, i+1 <= len(data)
+}
+
 // WritePacket serializes a Packet into wire representation, wrapped
 // in start and end sequences, and writes to the given connection.
 func WritePacket(in Packet, conn io.Writer) (out bool, err error) {
-- 
2.43.0


From b13f609c6c943e29f405b4a3e43e6b5a45d77e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 04/14] fix: keep a timed out or failed query from taking bytes
 of the next answer

---
 libcomfo/conn.go |   9 ++-
 libcomfo/line.go | 158 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 165 insertions(+), 2 deletions(-)
 create mode 100644 libcomfo/line.go

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 2da0a0f..b9e2324 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -29,7 +29,8 @@ func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error
 // All output found on the way is returned.
 func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err error) {
 
-	done := make(chan bool)
+	// Buffered, nobody is waiting for the result after a timeout
+	done := make(chan bool, 1)
 
 	// Advance the scanner past one delimiter
 	go func() { done <- scanner.Scan() }()
@@ -235,6 +236,10 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	pm.Lock()
 	defer pm.Unlock()
 
+	// Anything received from here on belongs to this query
+	ex := newExchange(conn)
+	defer func() { ex.close(err != nil) }()
+
 	// Write the Packet to the connection
 	if _, err := WritePacket(in, conn); err != nil {
 		return out, err
@@ -244,7 +249,7 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	timer := time.NewTimer(time.Second)
 
 	// Read packet from the remote
-	out, err = ReadPacket(conn, timer, in.Expect)
+	out, err = ReadPacket(ex, timer, in.Expect)
 	if err != nil {
 		return out, err
 	}
diff --git a/libcomfo/line.go b/libcomfo/line.go
new file mode 100644
index 0000000..0eeebe1
--- /dev/null
+++ b/libcomfo/line.go
@@ -0,0 +1,158 @@
+package libcomfo
+
+import (
+	"io"
+	"reflect"
+	"sync"
+)
+
+var (
+	// Lines with a Read in progress, by connection.
+	lines   = make(map[io.Reader]*line)
+	linesMu sync.Mutex
+)
+
+// line reads from a connection on behalf of one exchange at a time.
+//
+// A Read on a connection can't be cancelled. When an exchange gives up on its
+// answer, its Read remains in progress, and would take bytes away from the answer
+// to the next request. Instead, line discards whatever still arrives after an
+// exchange failed, and hands the Read in progress over to the next exchange.
+type line struct {
+	conn   io.Reader
+	shared bool // between exchanges, using lines
+
+	// Protected by linesMu
+	reading bool      // a Read is in progress
+	to      *exchange // receives the outcome of the Read, discarded if nil
+}
+
+// exchange is the input of a single request/response exchange.
+type exchange struct {
+	line *line
+
+	in   chan chunk
+	done chan struct{}
+
+	// Remainder of the last chunk
+	rest chunk
+}
+
+// chunk is the outcome of a Read.
+type chunk struct {
+	data []byte
+	err  error
+}
+
+// newExchange starts an exchange on the given connection. Everything that arrives
+// on the connection from here on is considered part of the exchange. There can
+// only be one exchange on a connection at any given time.
+func newExchange(conn io.Reader) *exchange {
+
+	linesMu.Lock()
+	defer linesMu.Unlock()
+
+	// Not every conn can be looked up
+	l := &line{conn: conn, shared: reflect.ValueOf(conn).Comparable()}
+	if l.shared && lines[conn] != nil {
+		l = lines[conn]
+	}
+
+	l.to = &exchange{
+		line: l,
+		in:   make(chan chunk, 1),
+		done: make(chan struct{}),
+	}
+
+	return l.to
+}
+
+// Read reads from the connection until the exchange is closed.
+func (e *exchange) Read(p []byte) (n int, err error) {
+
+	if len(e.rest.data) == 0 && e.rest.err == nil {
+		e.line.fetch(e)
+
+		select {
+		case e.rest = <-e.in:
+		case <-e.done:
+			return 0, errTimeout
+		}
+	}
+
+	n = copy(p, e.rest.data)
+	e.rest.data = e.rest.data[n:]
+	if len(e.rest.data) == 0 {
+		err = e.rest.err
+	}
+
+	return
+}
+
+// close ends the exchange. If the exchange failed, the remainder of its answer
+// is discarded as it arrives.
+func (e *exchange) close(failed bool) {
+
+	linesMu.Lock()
+	defer linesMu.Unlock()
+
+	e.line.to = nil
+	close(e.done)
+
+	if failed {
+		e.line.start()
+	}
+}
+
+// fetch makes sure a Read is in progress or finished for the given exchange.
+func (l *line) fetch(e *exchange) {
+
+	linesMu.Lock()
+	defer linesMu.Unlock()
+
+	if l.to == e && len(e.in) == 0 {
+		l.start()
+	}
+}
+
+// start starts reading from the connection in the background, linesMu is held.
+func (l *line) start() {
+
+	if l.reading {
+		return
+	}
+	l.reading = true
+
+	if l.shared {
+		lines[l.conn] = l
+	}
+
+	go l.read()
+}
+
+// read reads from the connection until there is an exchange to receive the outcome.
+func (l *line) read() {
+
+	for {
+		buf := make([]byte, 4096)
+		n, err := l.conn.Read(buf)
+
+		linesMu.Lock()
+
+		if l.to != nil {
+			l.to.in <- chunk{data: buf[:n], err: err}
+		}
+
+		// Keep discarding input if there is nobody to receive it
+		if l.to != nil || n == 0 || err != nil {
+			l.reading = false
+			if l.shared {
+				delete(lines, l.conn)
+			}
+			linesMu.Unlock()
+			return
+		}
+
+		linesMu.Unlock()
+	}
+}
-- 
2.43.0


From 0fedc57579b8d890777b7ab13d20f3b6271fc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 05/14] fix: do not lose a bulk profile update to a concurrent
 single-profile update

---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..58ec4b0 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Don't write in between the read and write of SetFanProfile
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From 7a44f3f21f0e46a9837db5c81a6c58a855f60084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 06/14] fix: refuse fan speeds and profiles out of range before
 truncating them

---
 comfoserver/helpers.go | 4 ++++
 comfoserver/server.go  | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..70ccecb 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -24,6 +24,10 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 
 	// Determine Abs/Rel speed and target speed
 	if target.Abs != 0 {
+		// Detect truncation
+		if target.Abs > uint32(upperBound) {
+			return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+		}
 		tgtSpeed = uint8(target.Abs)
 	} else if target.Rel {
 		tgtSpeed = baseSpeed + 1
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..405cffd 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -168,7 +168,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
 	// Make sure speed mode is valid (1-4).
-	if mode < 1 || mode > 4 {
+	if fpt.GetMode() < 1 || fpt.GetMode() > 4 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
 	}
 
@@ -182,7 +182,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	// Make sure the target speed is within range (percent).
 	// The unit allows values as low as 0 to be set, but will never ramp the fan as low.
 	// In order to avoid discrepancies, require speeds to range between 15 and 100.
-	if tgtSpeed < 15 || tgtSpeed > 100 {
+	if fpt.GetTargetSpeed() < 15 || fpt.GetTargetSpeed() > 100 {
 		return nil, twirp.InvalidArgumentError("TargetSpeed", "out of range, expected 15-100 (percentage)")
 	}
 
-- 
2.43.0


From 882ec87fb00cd2a6ad365bbca31d27704d5823b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 07/14] fix: compare the comfort temperature under lock and
 without wrapping negative values

---
 comfoserver/server.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 405cffd..6ac5fdd 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,7 +72,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
-	origTemp := tempCache.Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -80,11 +79,16 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
-	if uint8(origTemp) != targetTemp {
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
+
+	tempCache.CacheLock.Lock()
+	origTemp := tempCache.Comfort
+	tempCache.CacheLock.Unlock()
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
+	// The original temperature can be negative
+	if float32(origTemp) != float32(targetTemp) {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
-- 
2.43.0


From f3ff852c5ab2df5e8f17618628a72fb51bfe2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 08/14] fix: report a cache flush as failed if the unit could
 not be read

---
 comfoserver/caches.go | 80 ++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..6a6742c 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -67,14 +68,17 @@ type ErrorsCache struct {
 
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
-// refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+// refreshed continuously (eg. BootInfo). All caches are updated, regardless of
+// whether one of them fails.
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -82,23 +86,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -107,7 +105,7 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -119,7 +117,7 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -128,13 +126,16 @@ func (bc *BootInfoCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,7 +147,7 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -155,13 +156,16 @@ func (bc *BypassCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -173,7 +177,7 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -182,13 +186,16 @@ func (tc *TempCache) Update(force bool) {
 		tc.LastUpdated = now
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -200,7 +207,7 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -209,7 +216,10 @@ func (fc *FanCache) Update(force bool) {
 		fc.LastUpdated = now
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // UpdatePoll updates the cache for a maximum amount of `count` tries
@@ -247,7 +257,7 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -259,7 +269,7 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -268,13 +278,16 @@ func (fpc *FanProfilesCache) Update(force bool) {
 		fpc.LastUpdated = now
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -286,7 +299,7 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -295,7 +308,10 @@ func (ec *ErrorsCache) Update(force bool) {
 		ec.LastUpdated = now
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // isStale applies fuzzy logic to determine if a timestamp is within a certain
-- 
2.43.0


From 911b8e3f6d1e0110648ae41b1c714c38be65257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 09/14] fix: guard the readings used by setters, and poll fans
 by what the unit reports

---
 comfoserver/caches.go | 13 ++++++++-----
 comfoserver/server.go | 14 ++++++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 6a6742c..fcd3c98 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -230,19 +230,22 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		fanCache.Update(true)
+		err := fanCache.Update(true)
+
+		fanCache.CacheLock.Lock()
+		curIn, curOut := fanCache.InPercent, fanCache.OutPercent
+		fanCache.CacheLock.Unlock()
 
-		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		// Return when the unit reports the target fan profile to be in desired state
+		if err == nil && curIn == inPct && curOut == outPct {
 			return nil
 		}
 
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 6ac5fdd..845cb58 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -124,7 +124,9 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	defer fanLock.Unlock()
 
 	// Initialize speed values
+	fanProfilesCache.CacheLock.RLock()
 	origSpeed := fanProfilesCache.CurrentMode
+	fanProfilesCache.CacheLock.RUnlock()
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -198,15 +200,19 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	defer fanLock.Unlock()
 
 	// Get original fan speed of selected mode into origSpeed
+	fanProfilesCache.CacheLock.RLock()
+	profiles := fanProfilesCache.FanProfiles
+	fanProfilesCache.CacheLock.RUnlock()
+
 	switch mode {
 	case 0:
-		origSpeed = fanProfilesCache.InAway
+		origSpeed = profiles.InAway
 	case 1:
-		origSpeed = fanProfilesCache.InLow
+		origSpeed = profiles.InLow
 	case 2:
-		origSpeed = fanProfilesCache.InMid
+		origSpeed = profiles.InMid
 	case 3:
-		origSpeed = fanProfilesCache.InHigh
+		origSpeed = profiles.InHigh
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
-- 
2.43.0


From ddecbf0b819f7057be06339f20e6f915ab412ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 10/14] fix: use the event loop given to the Python client

---
 python/comfo/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..753deff 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -24,6 +24,7 @@ class Comfo:
         self.host = host
         self.twirp = ComfoClient(f"http://{host}:3094")
 
+        self.loop = loop
         if loop is None:
             try:
                 self.loop = asyncio.get_running_loop()
-- 
2.43.0


From afcee147a37de3afb70023a38197ac0d9321fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:46 +0000
Subject: [PATCH 11/14] fix: do not wrap fan speeds that exceed 16 bits

A raw value below 29 stands for more than 65535 revolutions per minute.
---
 libcomfo/response_types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libcomfo/response_types.go b/libcomfo/response_types.go
index 5734a01..7537f8c 100644
--- a/libcomfo/response_types.go
+++ b/libcomfo/response_types.go
@@ -152,8 +152,8 @@ func (h *Hours) UnmarshalBinary(in []byte) error {
 type Fans struct {
 	InPercent  uint8  `json:"in_percent"`
 	OutPercent uint8  `json:"out_percent"`
-	InSpeed    uint16 `json:"in_speed"`
-	OutSpeed   uint16 `json:"out_speed"`
+	InSpeed    uint32 `json:"in_speed"`
+	OutSpeed   uint32 `json:"out_speed"`
 }
 
 // New returns a new instance of Fans.
@@ -178,8 +178,8 @@ func (v *Fans) UnmarshalBinary(in []byte) error {
 	v.InPercent = uint8(in[0])
 	v.OutPercent = uint8(in[1])
 
-	v.InSpeed = uint16(1875000 / uint32(inSpeed))
-	v.OutSpeed = uint16(1875000 / uint32(outSpeed))
+	v.InSpeed = 1875000 / uint32(inSpeed)
+	v.OutSpeed = 1875000 / uint32(outSpeed)
 
 	return nil
 }
-- 
2.43.0


From 0e2357345d33434f8161990201e1e8832e1502a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:46 +0000
Subject: [PATCH 12/14] fix: serve the boot info of units whose device name is
 no valid UTF-8

---
 comfoserver/protobuf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comfoserver/protobuf.go b/comfoserver/protobuf.go
index c51355b..7ea7fdd 100644
--- a/comfoserver/protobuf.go
+++ b/comfoserver/protobuf.go
@@ -1,6 +1,8 @@
 package comfoserver
 
 import (
+	"strings"
+
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 )
 
@@ -26,7 +28,8 @@ func (b *BootInfoCache) Protobuf() *rpc.BootInfo {
 		BetaVersion:  uint32(b.BetaVersion),
 		MajorVersion: uint32(b.MajorVersion),
 		MinorVersion: uint32(b.MinorVersion),
-		DeviceName:   b.DeviceName,
+		// Units can report any bytes, but protobuf strings must be valid UTF-8
+		DeviceName: strings.ToValidUTF8(b.DeviceName, "\uFFFD"),
 	}
 }
 
-- 
2.43.0


From 4da870b270ff35468a01820efefb711524982f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 13/14] fix: reply to calls that take longer than five seconds

The connection was cut before SetFanSpeed reported that the fans did not adjust,
and before FlushCache reported that the unit did not answer.
---
 comfo.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/comfo.go b/comfo.go
index b3dfc40..09cb434 100644
--- a/comfo.go
+++ b/comfo.go
@@ -60,10 +60,13 @@ func main() {
 	router := NewRouter()
 
 	srv := &http.Server{
-		Handler:      router,
-		Addr:         viper.GetString(configListen),
-		WriteTimeout: 5 * time.Second,
-		ReadTimeout:  5 * time.Second,
+		Handler:     router,
+		Addr:        viper.GetString(configListen),
+		ReadTimeout: 5 * time.Second,
+
+		// Calls can take a while if the unit is slow to respond or to
+		// adjust its fans, but always need to receive a reply.
+		WriteTimeout: time.Minute,
 	}
 
 	slog.Info("API listening", "address", viper.GetString(configListen))
-- 
2.43.0


From 2468014439c49fbee5a23677e1bce272b3a14f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 14/14] fix: FanCache.UpdatePoll polls its own cache

UpdatePoll updated and inspected the package's fan cache instead of the one
it was called on, so that polling another FanCache left it without a reading.
---
 comfoserver/caches.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index fcd3c98..74ef0af 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -238,11 +238,11 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		err := fanCache.Update(true)
+		err := fc.Update(true)
 
-		fanCache.CacheLock.Lock()
-		curIn, curOut := fanCache.InPercent, fanCache.OutPercent
-		fanCache.CacheLock.Unlock()
+		fc.CacheLock.Lock()
+		curIn, curOut := fc.InPercent, fc.OutPercent
+		fc.CacheLock.Unlock()
 
 		// Return when the unit reports the target fan profile to be in desired state
 		if err == nil && curIn == inPct && curOut == outPct {
-- 
2.43.0

