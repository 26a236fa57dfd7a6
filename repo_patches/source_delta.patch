From ef7382b74b1e6c278b67a057de6b5890e8fed188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 01/15] fix: advance the resume position only after the handler
 accepted the transaction

A transaction whose handler call failed was skipped by the next Stream
call, because the position was moved past it before the call.
---
 streamer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..b7666f8 100755
--- a/streamer.go
+++ b/streamer.go
@@ -122,12 +122,14 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 
 	commit := func(ev replication.BinlogEvent) error {
 		now := pos
-		pos.Offset = ev.NextPosition()
 		next := pos
+		next.Offset = ev.NextPosition()
 		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		//只有在事务被成功处理后才能推进位置，否则下次Stream会丢失该事务
+		pos = next
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From d30f34473a718f7e25fd918206fd0cec29b90a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 02/15] fix: keep the resume position when a mapper table has a
 different column count

---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index b7666f8..4c8d545 100755
--- a/streamer.go
+++ b/streamer.go
@@ -280,7 +280,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
+				return pos,
 					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
 						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
 						len(info.Columns())))
-- 
2.43.0


From 29c583844f0966ab33e27abb4dccb291f915a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 03/15] fix: stop the reader and close the connection before
 Stream returns, and keep the reason the stream ended

Cancelling or failing left a reader goroutine blocked in ReadPacket or
racing with Close, and Error() blocked for ever when the attempt failed
before a connection existed or forgot the reason once it had been read.
---
 slave_connection.go | 24 ++++++++++++++++++++++++
 streamer.go         | 27 +++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..1515697 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -16,6 +16,30 @@ type dumpConn interface {
 	HandleErrorPacket([]byte) error
 }
 
+// cancelableConn 在ctx取消时会被关闭的dump连接
+type cancelableConn struct {
+	*mysql.DumpConn
+	ctx context.Context
+}
+
+func newCancelableConn(ctx context.Context, dsn string) (dumpConn, error) {
+	c, err := mysql.NewDumpConn(dsn, ctx)
+	if err != nil {
+		return nil, err
+	}
+	return &cancelableConn{
+		DumpConn: c,
+		ctx:      ctx,
+	}, nil
+}
+
+// Exec 用QueryContext执行语句，由于不关闭返回的结果，驱动在此之后会一直监视ctx，
+// 一旦ctx取消就关闭连接，从而中断阻塞的读写
+func (c *cancelableConn) Exec(query string) error {
+	_, err := c.QueryContext(c.ctx, query, nil)
+	return err
+}
+
 // slaveConnection 从github.com/youtube/vitess/go/vt/mysqlctl/slave_connection.go的基础上移植过来
 // slaveConn通过StartDumpFromBinlogPosition和mysql库进行binlog dump，将自己伪装成slave，
 // 先执行SET @master_binlog_checksum=@@global.binlog_checksum，然后发送 binlog dump包，
diff --git a/streamer.go b/streamer.go
index 4c8d545..e10efda 100755
--- a/streamer.go
+++ b/streamer.go
@@ -6,7 +6,6 @@ import (
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
-	"github.com/Breeze0806/mysql"
 )
 
 //MysqlTableMapper 用于获取表信息的接口
@@ -24,6 +23,8 @@ type Streamer struct {
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
 	ctx             context.Context
+	ended           bool  //最近一次Stream已经结束
+	endErr          error //最近一次Stream结束的原因
 }
 
 //SendTransactionFunc 处理事务信息函数，你可以将一个chan注册到这个函数中如
@@ -61,8 +62,11 @@ func (s *Streamer) binlogPosition() Position {
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
+	s.ended, s.endErr = true, nil
+	runCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		return newCancelableConn(runCtx, s.dsn)
 	})
 	if err != nil {
 		return err.msgf("newMysqlConn fail.")
@@ -71,21 +75,36 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.sendTransaction = sendTransaction
 	var events <-chan replication.BinlogEvent
 	var pos Position
-	events, err = conn.startDumpFromBinlogPosition(ctx, s.serverID, s.binlogPosition())
+	events, err = conn.startDumpFromBinlogPosition(runCtx, s.serverID, s.binlogPosition())
 	if err != nil {
 		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
 	}
 	s.errChan = conn.errChan
+	s.ended = false
 	pos, err = s.parseEvents(ctx, events)
+	//中断阻塞的读取，并等待读取binlog的goroutine退出
+	cancel()
+	for range events {
+	}
 	s.SetBinlogPosition(pos)
+	s.endErr = s.streamError()
+	s.ended = true
 	if err != nil {
 		return err.msgf("parseEvents fail in pos: %+v", err)
 	}
 	return nil
 }
 
-//Error 每次使用Stream后需要检测Error
+//Error 每次使用Stream后需要检测Error，可以重复调用
 func (s *Streamer) Error() error {
+	if s.ended || s.errChan == nil {
+		return s.endErr
+	}
+	return s.streamError()
+}
+
+//streamError 从errChan中获取读取binlog结束的原因
+func (s *Streamer) streamError() error {
 	select {
 	case err, ok := <-s.errChan:
 		if ok {
-- 
2.43.0


From 94e262f2e055e3cd53c91d826e1c1b2d4149866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 04/15] fix: an undecodable binlog event ends the stream with
 an error instead of a panic

Events whose body contradicts their header (or carry JSON offsets that
point backwards, or rows without data) made the decoder panic, recurse or
loop for ever. The stripped event also no longer exposes the checksum
bytes behind it.
---
 replication/binlog_event_json.go    |  6 ++++++
 replication/binlog_event_mariadb.go |  5 ++++-
 replication/binlog_event_mysql56.go |  5 ++++-
 replication/binlog_event_rbr.go     |  5 +++++
 streamer.go                         | 25 ++++++++++++++++++++++---
 5 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..2c88696 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -91,6 +91,9 @@ func printJSONObject(data []byte, large bool, result *bytes.Buffer) error {
 	if size > len(data) {
 		return fmt.Errorf("not enough data for object, have %v bytes need %v", len(data), size)
 	}
+	if elementCount > len(data) {
+		return fmt.Errorf("not enough data for object, have %v bytes for %v elements", len(data), elementCount)
+	}
 
 	// Build an array for each key.
 	keys := make([][]byte, elementCount)
@@ -193,6 +196,9 @@ func printJSONValueEntry(data []byte, pos int, large bool, result *bytes.Buffer)
 		// value is not inlined, we have its offset here.
 		// Note we don't have its length, so we just go to the end.
 		offset, _ := readOffsetOrSize(data, pos, large)
+		if offset <= pos {
+			return fmt.Errorf("value offset %v is not after its entry at %v", offset, pos)
+		}
 		if err := printJSONValue(typ, data[offset:], false /* toplevel */, result); err != nil {
 			return err
 		}
diff --git a/replication/binlog_event_mariadb.go b/replication/binlog_event_mariadb.go
index dec802e..678a0d7 100755
--- a/replication/binlog_event_mariadb.go
+++ b/replication/binlog_event_mariadb.go
@@ -57,8 +57,11 @@ func (ev mariadbBinlogEvent) StripChecksum(f BinlogFormat) (BinlogEvent, []byte,
 		// Checksum is the last 4 bytes of the event buffer.
 		data := ev.Bytes()
 		length := len(data)
+		if length < int(f.HeaderLength)+4 {
+			return ev, nil, fmt.Errorf("event is too short for a checksum: %v", data)
+		}
 		checksum := data[length-4:]
-		data = data[:length-4]
+		data = data[: length-4 : length-4]
 		return mariadbBinlogEvent{binlogEvent: binlogEvent(data)}, checksum, nil
 	}
 }
diff --git a/replication/binlog_event_mysql56.go b/replication/binlog_event_mysql56.go
index 820fc20..bf25563 100755
--- a/replication/binlog_event_mysql56.go
+++ b/replication/binlog_event_mysql56.go
@@ -57,8 +57,11 @@ func (ev mysql56BinlogEvent) StripChecksum(f BinlogFormat) (BinlogEvent, []byte,
 		// Checksum is the last 4 bytes of the event buffer.
 		data := ev.Bytes()
 		length := len(data)
+		if length < int(f.HeaderLength)+4 {
+			return ev, nil, fmt.Errorf("event is too short for a checksum: %v", data)
+		}
 		checksum := data[length-4:]
-		data = data[:length-4]
+		data = data[: length-4 : length-4]
 		return mysql56BinlogEvent{binlogEvent: binlogEvent(data)}, checksum, nil
 	default:
 		// MySQL 5.6 does not guarantee that future checksum algorithms will be
diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..cb169e4 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -939,6 +939,7 @@ func (ev binlogEvent) Rows(f BinlogFormat, tm *TableMap) (Rows, error) {
 	// One row at a time.
 	for pos < len(data) {
 		row := Row{}
+		rowPos := pos
 
 		if hasIdentify {
 			// Bitmap of identify columns that are null (amongst the ones that are present).
@@ -1000,6 +1001,10 @@ func (ev binlogEvent) Rows(f BinlogFormat, tm *TableMap) (Rows, error) {
 			row.Data = data[startPos:pos]
 		}
 
+		if pos == rowPos {
+			return result, fmt.Errorf("rows event has rows without any data, data: %v pos: %v", data, pos)
+		}
+
 		result.Rows = append(result.Rows, row)
 	}
 
diff --git a/streamer.go b/streamer.go
index e10efda..68a38f0 100755
--- a/streamer.go
+++ b/streamer.go
@@ -122,11 +122,24 @@ func (s *Streamer) streamError() error {
 	}
 }
 
-func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (Position, *Error) {
+func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (end Position, streamErr *Error) {
 	var tranEvents []*StreamEvent
 	var format replication.BinlogFormat
 	var err error
 	pos := s.binlogPosition()
+	//binlog event的内容可能与其头部声明的不一致，解析时越界的panic需要转化为错误，
+	//但是不能掩盖用户代码的panic
+	inUserCode := false
+	defer func() {
+		if inUserCode {
+			return
+		}
+		if r := recover(); r != nil {
+			end = pos
+			streamErr = newError(fmt.Errorf("%v", r)).
+				msgf("parseEvents can't decode binlog event.")
+		}
+	}()
 	tablesMaps := make(map[uint64]*tableCache)
 	autocommit := true
 
@@ -144,7 +157,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 		next := pos
 		next.Offset = ev.NextPosition()
 		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
-		if err = s.sendTransaction(tran); err != nil {
+		inUserCode = true
+		err = s.sendTransaction(tran)
+		inUserCode = false
+		if err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
 		//只有在事务被成功处理后才能推进位置，否则下次Stream会丢失该事务
@@ -294,7 +310,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			name := NewMysqlTableName(tm.Database, tm.Name)
 
 			var info MysqlTable
-			if info, err = s.tableMapper.MysqlTable(name); err != nil {
+			inUserCode = true
+			info, err = s.tableMapper.MysqlTable(name)
+			inUserCode = false
+			if err != nil {
 				return pos, newError(err).msgf("parseEvents MysqlTable fail. table: %v", err)
 			}
 
-- 
2.43.0


From 34f971153a02f32d65535c7cda6e4b6905367c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 05/15] fix: report a truncated error packet instead of
 panicking in the driver

---
 slave_connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slave_connection.go b/slave_connection.go
index 1515697..35a6de8 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -2,6 +2,7 @@ package gobinlog
 
 import (
 	"context"
+	"fmt"
 	"sync"
 
 	"github.com/Breeze0806/gobinlog/replication"
@@ -139,6 +140,10 @@ func (s *slaveConnection) readBinlogEvent() (replication.BinlogEvent, *Error) {
 	case mysql.PacketEOF:
 		return nil, newError(errStreamEOF).msgf("readBinlogEvent reach end")
 	case mysql.PacketERR:
+		//驱动在解析错误包时不检查长度
+		if len(buf) < 4 || (buf[3] == '#' && len(buf) < 9) {
+			return nil, newError(fmt.Errorf("malformed error packet: %q", buf)).msgf("fetch error packet")
+		}
 		return nil, newError(s.dc.HandleErrorPacket(buf)).msgf("fetch error packet")
 	default:
 	}
-- 
2.43.0


From 8a52b05ef4a848bd562bc1c74a70509da13a4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 06/15] fix: do not hand out the shared zero timestamp, a
 caller may overwrite it

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index cb169e4..fd07b52 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,8 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		// Copy it, the caller hands the bytes out.
+		return bytes.NewBuffer(append([]byte(nil), ZeroTimestamp...))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From f5d6d17a363a5141adc970833f6287102cd9d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 07/15] fix: DECIMAL text without padding, and 0 for a zero
 without fraction digits

---
 replication/binlog_event_rbr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index fd07b52..bda7d26 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -678,22 +678,22 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				txt.Write(strconv.AppendUint(nil, uint64(val), 10))
 				flag = true
 			}
 			pos += 4
 		}
 
+		//当txt无正整数，此时需要加上0，表示生成的数整数部分没有值。
+		if !flag {
+			txt.WriteByte('0')
+		}
+
 		// now see if we have a fraction
 		if scale == 0 {
 			return txt.Bytes(), l, nil
 		}
 
-		//当txt无正整数，此时需要在小数点前加上0，表示生成的数整数部分没有值。
-		if !flag {
-			txt.WriteByte('0')
-		}
-
 		txt.WriteByte('.')
 
 		// now the full fractional digits
-- 
2.43.0


From 93bacaafd959f79a60b2b2c389e6ee0bb3a29c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 08/15] fix: keep the sign of negative TIME values in the old
 encoding and in JSON

---
 replication/binlog_event_json.go | 6 +++++-
 replication/binlog_event_rbr.go  | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 2c88696..86c77a6 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -387,6 +387,10 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 	raw := binary.LittleEndian.Uint64(data[:8])
+	negative := int64(raw) < 0
+	if negative {
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -397,7 +401,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index bda7d26..23de234 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -407,13 +407,15 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 
 	case TypeTime:
 		var hour, minute, second int32
+		sign := ""
 		if data[pos+2]&128 > 0 {
 			// Negative number, have to extend the sign.
 			val := int32(uint32(data[pos]) +
 				uint32(data[pos+1])<<8 +
 				uint32(data[pos+2])<<16 +
 				uint32(255)<<24)
-			hour = val / 10000
+			sign = "-"
+			hour = -(val / 10000)
 			minute = -((val % 10000) / 100)
 			second = -(val % 100)
 		} else {
@@ -424,7 +426,7 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			minute = (val % 10000) / 100
 			second = val % 100
 		}
-		return []byte(fmt.Sprintf("%02d:%02d:%02d", hour, minute, second)), 3, nil
+		return []byte(fmt.Sprintf("%v%02d:%02d:%02d", sign, hour, minute, second)), 3, nil
 
 	case TypeDateTime:
 		val := binary.LittleEndian.Uint64(data[pos : pos+8])
-- 
2.43.0


From a2c8ffa15feebe57554c783b50275b8737587291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 09/15] fix: recognise the statement kind after comments and
 before any separator

Only a blank ended the keyword, so that a statement followed by a tab or
newline, or preceded by a comment, was dropped as unknown.
---
 mysql_types.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..7f0cf9d 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -2,6 +2,7 @@ package gobinlog
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/Breeze0806/gobinlog/replication"
 )
@@ -78,7 +79,8 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	sql = skipLeadingComments(sql)
+	if i := strings.IndexFunc(sql, isNotWord); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
@@ -87,6 +89,34 @@ func GetStatementCategory(sql string) StatementType {
 	return StatementUnknown
 }
 
+func isNotWord(r rune) bool {
+	return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+}
+
+//skipLeadingComments 去除sql前的空白和注释，/*!版本号 中的内容会被执行，不是注释
+func skipLeadingComments(sql string) string {
+	for {
+		sql = strings.TrimLeftFunc(sql, unicode.IsSpace)
+		end := ""
+		switch {
+		case strings.HasPrefix(sql, "/*!"):
+			sql = strings.TrimLeft(sql[len("/*!"):], "0123456789")
+			continue
+		case strings.HasPrefix(sql, "/*"):
+			sql, end = sql[len("/*"):], "*/"
+		case strings.HasPrefix(sql, "#"), strings.HasPrefix(sql, "--"):
+			end = "\n"
+		default:
+			return sql
+		}
+		i := strings.Index(sql, end)
+		if i < 0 {
+			return ""
+		}
+		sql = sql[i+len(end):]
+	}
+}
+
 //列数据类型
 const (
 	columnTypeDecimal    ColumnType = replication.TypeDecimal    //精确实数
-- 
2.43.0


From 93913d1f033c02ac8236ba99a588c5fc86c82223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 10/15] fix: adding to a MariaDB GTID set does not alter the
 original set

---
 replication/mariadb_gtid.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..3663d28 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -189,12 +189,15 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	for i, gtid := range gtidSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				newSet := append(MariadbGTIDSet{}, gtidSet...)
+				newSet[i] = mdbOther
+				return newSet
 			}
 			return gtidSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	// The full slice expression makes append copy the set.
+	return append(gtidSet[:len(gtidSet):len(gtidSet)], mdbOther)
 }
 
 func init() {
-- 
2.43.0


From e52648c4aafbf0c0a80312a2517d544baf6faf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 11/15] fix: reject a MariaDB GTID set with two positions for
 one domain

---
 replication/mariadb_gtid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 3663d28..aa0186f 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -67,6 +67,11 @@ func parseMariadbGTIDSet(s string) (GTIDSet, error) {
 			return nil, err
 		}
 		gtidSet[i] = gtid.(MariadbGTID)
+		for _, prev := range gtidSet[:i] {
+			if prev.Domain == gtidSet[i].Domain {
+				return nil, fmt.Errorf("invalid MariaDB GTID set (%q): duplicate domain %v", s, prev.Domain)
+			}
+		}
 	}
 	return gtidSet, nil
 }
-- 
2.43.0


From a2a7819b790cf8107199945d5f2a6144c4e983a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 12/15] fix: look the table up again when its table id
 announces another table

A reused table id kept the columns and the name of the first table.
---
 streamer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 68a38f0..0ec83ae 100755
--- a/streamer.go
+++ b/streamer.go
@@ -201,6 +201,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 			_log.Debugf("parseEvents pos: %+v binlog event is a format description event:%+v",
 				ev.NextPosition(), format)
+			//每个binlog文件的表ID各自独立，主库重启后表ID会被其他表重复使用
+			tablesMaps = make(map[uint64]*tableCache)
 			continue
 		}
 
@@ -298,7 +300,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
+			if old, ok := tablesMaps[tableID]; ok && old.tableMap.Database == tm.Database &&
+				old.tableMap.Name == tm.Name && len(old.tableMap.Types) == len(tm.Types) {
 				tablesMaps[tableID].tableMap = tm
 				continue
 			}
-- 
2.43.0


From f434c9913823a451ec53bbc4ebbca521576ed653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:04 +0000
Subject: [PATCH 13/15] fix: drop the events of a torn transaction at the next
 binlog file

---
 streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer.go b/streamer.go
index 0ec83ae..8ed5bea 100755
--- a/streamer.go
+++ b/streamer.go
@@ -203,6 +203,9 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 				ev.NextPosition(), format)
 			//每个binlog文件的表ID各自独立，主库重启后表ID会被其他表重复使用
 			tablesMaps = make(map[uint64]*tableCache)
+			//事务不会跨binlog文件，主库崩溃时未提交的事务不会再被提交，不能影响后续的事务
+			tranEvents = nil
+			autocommit = true
 			continue
 		}
 
-- 
2.43.0


From 6fc2383138252b8b7262f06f5c56469175507f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:15 +0000
Subject: [PATCH 14/15] fix: a ROLLBACK TO SAVEPOINT undoes the changes since
 the savepoint and does not end the transaction

---
 mysql_types.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 streamer.go    | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 81 insertions(+)

diff --git a/mysql_types.go b/mysql_types.go
index 7f0cf9d..1b69d30 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -117,6 +117,54 @@ func skipLeadingComments(sql string) string {
 	}
 }
 
+//parseSavepoint 解析SAVEPOINT name和ROLLBACK [WORK] TO [SAVEPOINT] name，返回不区分大小写的保存点名字以及
+//是否是回滚到该保存点，ok为false代表sql不是这两种语句
+func parseSavepoint(sql string) (name string, rollback, ok bool) {
+	next := func() (word string) {
+		sql = skipLeadingComments(sql)
+		if strings.HasPrefix(sql, "`") {
+			i := 1
+			for ; i < len(sql); i++ {
+				if sql[i] == '`' {
+					if i+1 == len(sql) || sql[i+1] != '`' {
+						break
+					}
+					i++
+				}
+				word += string(sql[i])
+			}
+			sql = strings.TrimPrefix(sql[i:], "`")
+			return strings.ToLower(word)
+		}
+		i := strings.IndexFunc(sql, func(r rune) bool { return r != '$' && isNotWord(r) })
+		if i < 0 {
+			i = len(sql)
+		}
+		word, sql = sql[:i], sql[i:]
+		return strings.ToLower(word)
+	}
+	switch next() {
+	case "savepoint":
+		name = next()
+	case "rollback":
+		rollback = true
+		word := next()
+		if word == "work" {
+			word = next()
+		}
+		if word != "to" {
+			return "", false, false
+		}
+		quoted := strings.HasPrefix(skipLeadingComments(sql), "`")
+		if name = next(); name == "savepoint" && !quoted {
+			if word = next(); word != "" {
+				name = word
+			}
+		}
+	}
+	return name, rollback, name != ""
+}
+
 //列数据类型
 const (
 	columnTypeDecimal    ColumnType = replication.TypeDecimal    //精确实数
diff --git a/streamer.go b/streamer.go
index 8ed5bea..3defde3 100755
--- a/streamer.go
+++ b/streamer.go
@@ -142,6 +142,12 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	}()
 	tablesMaps := make(map[uint64]*tableCache)
 	autocommit := true
+	//事务中的保存点
+	type savepoint struct {
+		name   string
+		events int
+	}
+	var savepoints []savepoint
 
 	begin := func() {
 		if tranEvents != nil {
@@ -149,6 +155,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Errorf("parseEvents BEGIN in binlog stream while still in another transaction; dropping %d transactionEvents: %+v", len(tranEvents), tranEvents)
 		}
 		tranEvents = make([]*StreamEvent, 0, 10)
+		savepoints = nil
 		autocommit = false
 	}
 
@@ -253,6 +260,32 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 			typ := GetStatementCategory(q.SQL)
 
+			//ROLLBACK TO SAVEPOINT只回滚保存点之后的更改，不会结束事务
+			if name, rollback, ok := parseSavepoint(q.SQL); ok {
+				if autocommit {
+					continue
+				}
+				i := len(savepoints)
+				for i > 0 && savepoints[i-1].name != name {
+					i--
+				}
+				switch {
+				case !rollback:
+					if i > 0 {
+						savepoints = append(savepoints[:i-1], savepoints[i:]...)
+					}
+					savepoints = append(savepoints, savepoint{name: name, events: len(tranEvents)})
+				case i > 0:
+					savepoints = savepoints[:i]
+					tranEvents = tranEvents[:savepoints[i-1].events]
+				default:
+					//在事务的第一个更改之前设置的保存点不会记录在binlog中
+					savepoints = nil
+					tranEvents = tranEvents[:0]
+				}
+				continue
+			}
+
 			_log.Debugf("parseEvents pos: %+v binlog event is a query event: %+v query: %v", pos, ev, q.SQL)
 
 			switch typ {
-- 
2.43.0


From 13341fbdafc9c6c71ee9e62e4677998152237e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 15/15] fix: never decode an event beyond the end of its buffer

---
 replication/binlog_event_mariadb.go | 2 +-
 replication/binlog_event_mysql56.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/replication/binlog_event_mariadb.go b/replication/binlog_event_mariadb.go
index 678a0d7..3d8df4f 100755
--- a/replication/binlog_event_mariadb.go
+++ b/replication/binlog_event_mariadb.go
@@ -14,7 +14,7 @@ type mariadbBinlogEvent struct {
 
 // NewMariadbBinlogEvent creates a BinlogEvent instance from given byte array
 func NewMariadbBinlogEvent(buf []byte) BinlogEvent {
-	return mariadbBinlogEvent{binlogEvent: binlogEvent(buf)}
+	return mariadbBinlogEvent{binlogEvent: binlogEvent(buf[:len(buf):len(buf)])}
 }
 
 // IsGTID implements BinlogEvent.IsGTID().
diff --git a/replication/binlog_event_mysql56.go b/replication/binlog_event_mysql56.go
index bf25563..8493801 100755
--- a/replication/binlog_event_mysql56.go
+++ b/replication/binlog_event_mysql56.go
@@ -14,7 +14,8 @@ type mysql56BinlogEvent struct {
 
 // NewMysql56BinlogEvent creates a BinlogEvent from given byte array
 func NewMysql56BinlogEvent(buf []byte) BinlogEvent {
-	return mysql56BinlogEvent{binlogEvent: binlogEvent(buf)}
+	// Without spare capacity nothing can be decoded from beyond the end of the event.
+	return mysql56BinlogEvent{binlogEvent: binlogEvent(buf[:len(buf):len(buf)])}
 }
 
 // IsGTID implements BinlogEvent.IsGTID().
-- 
2.43.0

