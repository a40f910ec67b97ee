From 6e8cdf7b75d15cfd79838393180eb54fc271d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 01/17] fix: flush_all no longer panics on a reply line shorter
 than two bytes

---
 memcache/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..8f8059b 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -425,6 +425,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 4 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From 8b3ef2f585b8db7fd4794791dfdbb09ba2fa54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 02/17] fix: a CAS flag without a number is a malformed reply
 instead of an endless loop

---
 memcache/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index 8f8059b..c758bb4 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -181,6 +181,9 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 			continue
 		}
 		if p.data[i] == 'c' {
+			if !isDigit(p.data[i+1]) {
+				return 0, ErrInvalidMGet
+			}
 			cas, nextIndex := findNumber(p.data, i+1)
 			resp.CAS = cas
 			i = nextIndex - 1
-- 
2.43.0


From f7bc5a35742b0818b63bb320156292f77e8ed1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 03/17] fix: refuse value lengths above memcached's item limit
 instead of panicking or exhausting memory

---
 memcache/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..9b54f62 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,11 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+var errValueTooLarge = ErrBrokenPipe{reason: "value length after VA is too large"}
+
+// maxValueLen is the biggest item size memcached can be configured to store (1 GiB)
+const maxValueLen = 1 << 30
+
 func (r *responseReader) writeResponse(data []byte) {
 	r.currentCmd.responseData = append(r.currentCmd.responseData, data...)
 }
@@ -162,6 +167,9 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+			if r.dataLen > maxValueLen {
+				return r.setErrorAndReturn(errValueTooLarge)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From 781dc28fdf0e539b2de131e82505e3b88a5222cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 04/17] fix: an error reply without a message no longer
 swallows the next reply

---
 memcache/parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index c758bb4..6a1ab30 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -249,20 +249,23 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
-	crlfIndex := p.findCRLF(index + 1)
+	crlfIndex := p.findCRLF(index)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
 	}
 
-	data := make([]byte, crlfIndex-2-index-1)
-	copy(data, p.data[index+1:])
+	msg := p.data[index : crlfIndex-2]
+	if len(msg) > 0 { // the separator between prefix and message
+		msg = msg[1:]
+	}
+	data := string(msg)
 
 	p.skipData(crlfIndex)
 
 	if errType == errorTypeServer {
-		return NewServerError(string(data))
+		return NewServerError(data)
 	}
-	return NewClientError(string(data))
+	return NewClientError(data)
 }
 
 func isBytesEqual(data []byte, err []byte) bool {
-- 
2.43.0


From dc6ea9e9f1a9a4437c1bb3cf2c9c7a38c4bdbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 05/17] fix: bytes left over from a failed connection no longer
 answer commands of the next one

---
 memcache/core.go   | 10 ++++++++--
 memcache/reader.go |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..ba7314c 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -15,8 +15,9 @@ type coreConnection struct {
 	wg sync.WaitGroup
 
 	// job data
-	msgData []byte
-	cmdList *cmdListReader
+	msgData  []byte
+	cmdList  *cmdListReader
+	readConn *senderConnection // connection the buffered response data came from
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -78,6 +79,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	if current.conn != c.readConn {
+		// data left over from another connection must not answer this command
+		c.responseReader.reset()
+		c.readConn = current.conn
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
diff --git a/memcache/reader.go b/memcache/reader.go
index 9b54f62..e87e956 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -307,7 +307,8 @@ func (r *responseReader) hasError() error {
 }
 
 func (r *responseReader) reset() {
-	r.tmpData = r.tmpData[:]
+	r.tmpData = r.tmpData[:0]
 	r.state = readerStateInit
 	r.lastErr = nil
+	r.remainingData = nil
 }
-- 
2.43.0


From 4a358e632ffbd6780766d407d23d919e37f29536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 06/17] fix: commands after an unparsable reply of the same
 batch fail instead of taking out-of-step replies

---
 memcache/pipeline.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..984b624 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,7 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
-	for _, cmd := range pipelineCommands {
+	for i, cmd := range pipelineCommands {
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +137,15 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			_, outOfStep := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+			if outOfStep {
+				// the replies that follow can not be trusted any more
+				for _, remaining := range pipelineCommands[i+1:] {
+					remaining.err = cmd.err
+				}
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 358d1fa75d63407b8993575dd9981532c154285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 07/17] fix: a value line without a space before its length is
 decoded in step

---
 memcache/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 6a1ab30..ddc7970 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -216,7 +216,7 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 }
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
-	_, index := findNumber(p.data, 3)
+	_, index := findNumber(p.data, 2) // right after VA
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From 10d8c0d7c73922f16d35c3b363c4d4c9d1215a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 08/17] fix: every batch of a pipeline flushed after Close is
 completed, not only the first

---
 memcache/sender.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..1204b22 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -262,8 +262,14 @@ func (s *sender) sendToWriter() (closed bool) {
 
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
-	if closed {
-		cmd.setCompleted(ErrConnClosed)
+	if !closed {
+		return
+	}
+	// every batch of the pipeline is waited for, not only the first one
+	for current := cmd; current != nil; {
+		next := current.sibling
+		current.setCompleted(ErrConnClosed)
+		current = next
 	}
 }
 
-- 
2.43.0


From 351f4e47772b2ab04c7880cebdfc713d9a75fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 09/17] fix: the sender no longer waits for the receiver while
 holding the connection lock

---
 memcache/sender.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 1204b22..750a1d9 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,21 +221,21 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
@@ -244,15 +244,21 @@ func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
 	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// connMut must not be held while waiting for a free place in the receiving buffer:
+	// the receiver needs it for failing the commands that occupy the buffer
 	s.recv.push(s.tmpBuf)
 
+	s.connMut.Lock()
+
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 85cf3baffb0d9bd7c354dd28a1d6d44e59149898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 10/17] fix: closing no longer opens a new connection

---
 memcache/sender.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 750a1d9..8d207d5 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -299,12 +299,12 @@ func (s *sender) readSentCommands(cmdList []*commandListData) int {
 
 func (s *sender) waitForError() (closed bool) {
 	s.connMut.Lock()
-	result := s.closed
 	for !s.closed && s.conn.getLastErrorInternal() == nil {
 		s.ncErrorCond.Wait()
 	}
+	closed = s.closed
 	s.connMut.Unlock()
-	return result
+	return closed
 }
 
 func (s *sender) resetNetConn(nc netconn.NetConn) {
-- 
2.43.0


From a5fb568d02324aa7c421af88e3d6b564725d71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 11/17] fix: closing during the retry sleep no longer dials
 again

---
 memcache/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memcache/conn.go b/memcache/conn.go
index 8ddb26d..7f527f7 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -67,7 +67,10 @@ func newConn(
 			if err != nil {
 				opts.dialErrorLogger(err)
 
-				sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				closed = sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				if closed {
+					return
+				}
 				continue
 			}
 
-- 
2.43.0


From b4eb3d0e4c76d41397db345e1ca5ac607f1fc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 12/17] fix: a CLIENT_ERROR is reported with its own message

---
 memcache/pipeline.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 984b624..3276e10 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -138,8 +138,9 @@ func parseCommandsForSingleCommandData(
 				continue
 			}
 			_, outOfStep := cmd.err.(ErrBrokenPipe)
-			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+			lastErr := currentCmd.conn.setLastErrorAndClose(cmd.err)
 			if outOfStep {
+				cmd.err = lastErr
 				// the replies that follow can not be trusted any more
 				for _, remaining := range pipelineCommands[i+1:] {
 					remaining.err = cmd.err
-- 
2.43.0


From 1f173644392e4d4c5af432442a5f7a6190311c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 13/17] fix: close the socket when setting up its keep-alive
 fails

---
 memcache/netconn/netconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcache/netconn/netconn.go b/memcache/netconn/netconn.go
index 2a456a3..26a1a60 100644
--- a/memcache/netconn/netconn.go
+++ b/memcache/netconn/netconn.go
@@ -109,9 +109,11 @@ func DialNewConn(addr string, options ...Option) (NetConn, error) {
 	tcpNetConn, ok := nc.(*net.TCPConn)
 	if ok {
 		if err := tcpNetConn.SetKeepAlive(true); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 		if err := tcpNetConn.SetKeepAlivePeriod(conf.tcpKeepAliveDuration); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 	}
-- 
2.43.0


From 34b2441b01ea9865582c0cb0846f743bbb0f2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 14/17] fix: a server that stalls during authentication no
 longer blocks the dial forever

---
 memcache/netconn/auth.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..00364af 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -48,6 +48,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, err
 		}
 
+		if timeout > 0 {
+			// a server that stalls during the authentication must not block the caller forever
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
@@ -68,6 +76,13 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Time{}); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From 006a4a997273dacb571abca1110f4d72340080e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 15/17] fix: a key dump cut off before its end returns an error

---
 memcache/stats/stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..5cb0771 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -498,7 +499,10 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.EOF // without having seen the end of the dump
 }
 
 type statItem struct {
-- 
2.43.0


From 1a131488394e96d2a7c6db4326182bb10235b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 16/17] fix: the rest of a reply that can not be parsed is not
 taken for the next reply

---
 memcache/stats/parser.go | 29 +++++++++++++++++++++++++++++
 memcache/stats/stats.go  | 12 ++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..6e9f6a2 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -52,6 +52,7 @@ func (p *statsParser) next() bool {
 
 	fields := strings.Fields(line)
 	if len(fields) == 0 {
+		skipReply(p.scanner, line)
 		p.lastErr = NewError("empty line")
 		return false
 	}
@@ -62,11 +63,13 @@ func (p *statsParser) next() bool {
 	}
 
 	if fields[0] != "STAT" {
+		skipReply(p.scanner, line)
 		p.lastErr = NewError("line not begin with STAT")
 		return false
 	}
 
 	if len(fields) < 3 {
+		skipReply(p.scanner, line)
 		p.lastErr = NewError("missing stat fields")
 		return false
 	}
@@ -79,6 +82,32 @@ func (p *statsParser) next() bool {
 	return true
 }
 
+// isEndOfReply returns whether *line* is the last line of a reply
+func isEndOfReply(line string) bool {
+	fields := strings.Fields(line)
+	if len(fields) == 0 {
+		return false
+	}
+	switch fields[0] {
+	case "END", "ERROR", "CLIENT_ERROR", "SERVER_ERROR", "BUSY", "BADCLASS":
+		return true
+	default:
+		return false
+	}
+}
+
+// skipReply discards the remaining lines of a reply that could not be understood,
+// otherwise they would be taken for the reply of the next command.
+// The *line* is the last line that had been read.
+func skipReply(scanner *bufio.Scanner, line string) {
+	for !isEndOfReply(line) {
+		if !scanner.Scan() {
+			return
+		}
+		line = scanner.Text()
+	}
+}
+
 func (p *statsParser) getError() error {
 	return p.lastErr
 }
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index 5cb0771..53d4fae 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -85,6 +85,11 @@ func (c *Client) writeCommand(cmd string) error {
 	return c.nc.Writer.Flush()
 }
 
+// skipReply discards the rest of the reply that is being read
+func (c *Client) skipReply() {
+	skipReply(c.scanner, c.scanner.Text())
+}
+
 // GetGeneralStats ...
 func (c *Client) GetGeneralStats() (GeneralStats, error) {
 	if err := c.writeCommand("stats\r\n"); err != nil {
@@ -99,6 +104,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.skipReply()
 				return GeneralStats{}, err
 			}
 			result.PID = pid
@@ -106,6 +112,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.skipReply()
 				return GeneralStats{}, err
 			}
 			result.Uptime = uptime
@@ -213,6 +220,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
+				c.skipReply()
 				return SlabsStats{}, err
 			}
 			result.ActiveSlabs = uint32(active)
@@ -220,6 +228,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.skipReply()
 				return SlabsStats{}, err
 			}
 			result.TotalMalloced = totalMalloced
@@ -227,6 +236,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
+				c.skipReply()
 				return SlabsStats{}, err
 			}
 		}
@@ -395,6 +405,7 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
+			c.skipReply()
 			return SlabItemsStats{}, err
 		}
 	}
@@ -495,6 +506,7 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
+			c.skipReply()
 			return err
 		}
 		scanFunc(key)
-- 
2.43.0


From 6b7d8f1590c862afb8fb942eea1714fc5d01e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 17/17] fix: a line cut off by a failing connection is not
 parsed

---
 memcache/stats/stats.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index 53d4fae..167e357 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"bytes"
 	"io"
 	"log"
 	"net/url"
@@ -43,6 +44,15 @@ func WithNetConnOptions(options ...netconn.Option) Option {
 	}
 }
 
+// scanCompleteLines is bufio.ScanLines without the final line that is not terminated,
+// such a line was cut off when the connection failed.
+func scanCompleteLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if bytes.IndexByte(data, '\n') < 0 {
+		return 0, nil, nil
+	}
+	return bufio.ScanLines(data, atEOF)
+}
+
 // New ...
 func New(addr string, options ...Option) *Client {
 	conf := &dialConfig{
@@ -62,6 +72,7 @@ func New(addr string, options ...Option) *Client {
 	}
 
 	scanner := bufio.NewScanner(nc.Reader)
+	scanner.Split(scanCompleteLines)
 
 	return &Client{
 		nc:      nc,
-- 
2.43.0

