From 58af9209b2c280d8b1f68d6d0e99e8dd2c324633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 01/48] fix: reject negative bulk string lengths instead of
 panicking

---
 pkg/protocol/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..7529c35 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < 0 {
+			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
-- 
2.43.0


From e7cd2df1e807ab63a0577eefc999320f391d919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 02/48] fix: limit the nesting depth of arrays read from a
 client

---
 pkg/protocol/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 7529c35..d9d29d7 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -10,6 +10,9 @@ import (
 
 const (
 	delimiter byte = '\n'
+
+	// maxDepth limits how deep arrays can be nested, since they are read recursively
+	maxDepth = 512
 )
 
 // RESPReader interface allow reuse a io.Reader objects to avoid
@@ -21,6 +24,7 @@ type RESPReader interface {
 type respReader struct {
 	reader *bufio.Reader
 	token  string
+	depth  int
 }
 
 func (r *respReader) readToken() error {
@@ -135,6 +139,13 @@ func (r *respReader) readArray() (RedisArray, error) {
 		return NewNullRedisArray(), nil
 	}
 
+	if r.depth >= maxDepth {
+		return nil, fmt.Errorf("array nested too deep. depth=%d", r.depth)
+	}
+
+	r.depth++
+	defer func() { r.depth-- }()
+
 	var objects []RedisObject
 	for i := 0; i < int(aLen); i++ {
 		obj, err := r.readObject()
-- 
2.43.0


From 30a984597e4c7ded902b3a7bbd47a3ccad107242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 03/48] fix: never match the sentinels of a list in LREM and
 LINSERT

---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From a800188997df4ac6b7cf638afd6c4409c9e914cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 04/48] fix: resolve the right end of a list range only once

---
 pkg/container/list.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..9d8bd8b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -159,12 +159,6 @@ func (l *linkedList) extract(index int) *listNode {
 
 // Avoid traverse twice
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
-	right = util.NewIndex(right).ResolveRaw(l.size)
-
-	if right >= l.size {
-		right = l.size - 1
-	}
-
 	normLeft, normRight := util.NewSlice(left, right).Resolve(l.size)
 
 	if normLeft != -1 && normRight != -1 {
-- 
2.43.0


From e2ffb14bb44cbb796b487c60e3dc73e91da25a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 05/48] fix: answer HSET, SADD and SREM on the empty key with
 an error instead of a panic

---
 pkg/command/hash.go |  5 +++++
 pkg/command/set.go  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..50a550f 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -467,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From d2a57e3516c4acc0cd35cfa6d6a3d9820641f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 06/48] fix: SPOP and SRANDMEMBER on an emptied set answer null
 instead of panicking

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 50a550f..a953594 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -601,7 +601,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -723,7 +723,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From 0f2dd015e1c445ed06e506aeec8c175ee983368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 07/48] fix: reject counter updates that overflow 64 bits

---
 pkg/container/string.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..c6e4b18 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -129,6 +129,10 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 // The string will be updated too.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		// the sum wraps around iff it is not on the increment's side of the value
+		if (s.intVar.Get()+increment > s.intVar.Get()) != (increment > 0) {
+			return 0, ErrNotAInt
+		}
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -141,6 +145,10 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 // The string will be updated too.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		// the difference wraps around iff it is not on the decrement's side of the value
+		if (s.intVar.Get()-decrement < s.intVar.Get()) != (decrement > 0) {
+			return 0, ErrNotAInt
+		}
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From 71d191f14d5c08b12f3d63458a16c24eea4d8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 08/48] fix: LTRIM modifies the list, so it has to be logged

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From 77a49ec267f8f9aad3d69dd076d32bc897211153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 09/48] fix: let HGET, HEXISTS, HSTRLEN and SISMEMBER find the
 empty string

---
 pkg/command/hash.go | 15 ---------------
 pkg/command/set.go  |  5 -----
 2 files changed, 20 deletions(-)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index 50ebed8..bb2e340 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -230,11 +230,6 @@ func (h *hgetCommand) Execute() {
 		return
 	}
 
-	if h.field == "" {
-		h.err = ErrArgumentInvalid
-		return
-	}
-
 	ret := h.accessObject.(container.HashContainer).Get([]*container.StringContainer{container.NewString(h.field)})
 
 	if len(ret) != 1 || ret[0] == nil {
@@ -440,11 +435,6 @@ func (h *hexistsCommand) Execute() {
 		return
 	}
 
-	if h.field == "" {
-		h.err = ErrArgumentInvalid
-		return
-	}
-
 	if h.accessObject.(container.HashContainer).Exists(container.NewString(h.field)) {
 		h.result = protocol.NewRedisInteger(1)
 	} else {
@@ -867,11 +857,6 @@ func (h *hstrlenCommand) Execute() {
 		return
 	}
 
-	if h.field == "" {
-		h.err = ErrArgumentInvalid
-		return
-	}
-
 	ret := h.accessObject.(container.HashContainer).Get([]*container.StringContainer{container.NewString(h.field)})
 
 	if len(ret) != 1 || ret[0] == nil {
diff --git a/pkg/command/set.go b/pkg/command/set.go
index a953594..971dd10 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -385,11 +385,6 @@ func (s *sismemberCommand) Execute() {
 		return
 	}
 
-	if s.value == "" {
-		s.err = ErrArgumentInvalid
-		return
-	}
-
 	if s.accessObject.(container.SetContainer).IsMember(container.NewString(s.value)) {
 		s.result = protocol.NewRedisInteger(1)
 	} else {
-- 
2.43.0


From 03fbfc0196853a74a63655ab3179a09e44858975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 10/48] fix: the empty string compares less than, not equal to,
 any other

---
 pkg/util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..d6a1eeb 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -69,6 +69,10 @@ func LexicalCompare(lhs, rhs string) int {
 
 	if lhsLen == rhsLen {
 		return 0
+	} else if lhsLen == 0 {
+		return -1
+	} else if rhsLen == 0 {
+		return 1
 	} else if lhsLen < rhsLen {
 		return -lhsLen
 	}
-- 
2.43.0


From afa885b521c31818ec2582e9cee79e707247d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 11/48] fix: log arguments as bytes, so that commands with
 binary values are persisted

---
 pkg/db/engine.go  |  6 +++---
 pkg/log/log.go    | 13 +++++++++----
 pkg/log/log.pb.go | 14 +++++++-------
 pkg/log/log.proto |  4 ++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..9eb3898 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -1,12 +1,12 @@
 package db
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"net"
 	"os"
 	"reflect"
-	"strings"
 	"sync"
 
 	"github.com/lxdlam/vertex/pkg/replication"
@@ -253,11 +253,11 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Infof("rebuild database by log end, success=%d", success)
 }
 
-func convertArguments(s []string) []protocol.RedisObject {
+func convertArguments(s [][]byte) []protocol.RedisObject {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
-		obj, err := protocol.Parse(strings.NewReader(item))
+		obj, err := protocol.Parse(bytes.NewReader(item))
 		if err != nil {
 			continue
 		}
diff --git a/pkg/log/log.go b/pkg/log/log.go
index 20ddf23..a8b902b 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -35,19 +35,24 @@ func NewLog(name string, index int, objects []protocol.RedisObject) *VertexLog {
 	vl.Name = name
 	vl.Index = int32(index)
 
-	var arguments []string
+	var arguments [][]byte
 	for _, item := range objects[1:] {
-		arguments = append(arguments, item.String())
+		arguments = append(arguments, item.Byte())
 	}
 
 	vl.Arguments = arguments
-	vl.RawRequest = protocol.NewRedisArray(objects).String()
+	vl.RawRequest = protocol.NewRedisArray(objects).Byte()
 
 	return vl
 }
 
 func FormatLog(vl *VertexLog) string {
-	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(vl.Arguments, ","), strconv.Quote(vl.RawRequest))
+	var arguments []string
+	for _, item := range vl.Arguments {
+		arguments = append(arguments, string(item))
+	}
+
+	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(arguments, ","), strconv.Quote(string(vl.RawRequest)))
 }
 
 // PackLog will package a log into the below form:
diff --git a/pkg/log/log.pb.go b/pkg/log/log.pb.go
index 7f63dc0..1e6c19e 100644
--- a/pkg/log/log.pb.go
+++ b/pkg/log/log.pb.go
@@ -36,8 +36,8 @@ type VertexLog struct {
 	Host       string   `protobuf:"bytes,3,opt,name=host,proto3" json:"host,omitempty"`
 	Name       string   `protobuf:"bytes,4,opt,name=name,proto3" json:"name,omitempty"`
 	Index      int32    `protobuf:"varint,5,opt,name=index,proto3" json:"index,omitempty"`
-	Arguments  []string `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
-	RawRequest string   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
+	Arguments  [][]byte `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
+	RawRequest []byte   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
 }
 
 func (x *VertexLog) Reset() {
@@ -107,18 +107,18 @@ func (x *VertexLog) GetIndex() int32 {
 	return 0
 }
 
-func (x *VertexLog) GetArguments() []string {
+func (x *VertexLog) GetArguments() [][]byte {
 	if x != nil {
 		return x.Arguments
 	}
 	return nil
 }
 
-func (x *VertexLog) GetRawRequest() string {
+func (x *VertexLog) GetRawRequest() []byte {
 	if x != nil {
 		return x.RawRequest
 	}
-	return ""
+	return nil
 }
 
 var File_log_proto protoreflect.FileDescriptor
@@ -133,9 +133,9 @@ var file_log_proto_rawDesc = []byte{
 	0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x14, 0x0a,
 	0x05, 0x69, 0x6e, 0x64, 0x65, 0x78, 0x18, 0x05, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x69, 0x6e,
 	0x64, 0x65, 0x78, 0x12, 0x1c, 0x0a, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x73,
-	0x18, 0x06, 0x20, 0x03, 0x28, 0x09, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
+	0x18, 0x06, 0x20, 0x03, 0x28, 0x0c, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
 	0x73, 0x12, 0x20, 0x0a, 0x0b, 0x72, 0x61, 0x77, 0x5f, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74,
-	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
+	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
 	0x65, 0x73, 0x74, 0x42, 0x22, 0x5a, 0x20, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63, 0x6f,
 	0x6d, 0x2f, 0x6c, 0x78, 0x64, 0x6c, 0x61, 0x6d, 0x2f, 0x76, 0x65, 0x72, 0x74, 0x65, 0x78, 0x2f,
 	0x70, 0x6b, 0x67, 0x2f, 0x6c, 0x6f, 0x67, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
diff --git a/pkg/log/log.proto b/pkg/log/log.proto
index 1e3bf6d..bd76c0b 100644
--- a/pkg/log/log.proto
+++ b/pkg/log/log.proto
@@ -9,7 +9,7 @@ message VertexLog {
     string host = 3;
     string name = 4;
     int32 index = 5;
-    repeated string arguments = 6; // The arguments are RESP string represent
+    repeated bytes arguments = 6; // The arguments are RESP string represent
 
-    string raw_request = 255;
+    bytes raw_request = 255;
 }
\ No newline at end of file
-- 
2.43.0


From 25f542c6a25fa7f54aca17ba6256bbd022d6ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 12/48] fix: write the log in execution order and before the
 command is acknowledged

---
 pkg/db/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 9eb3898..46f04c7 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -122,7 +122,7 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	}
 
 	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
+		e.writeLog(name, 1, objects)
 	}
 
 	db := e.getOrCreateDB(1)
-- 
2.43.0


From 7c56936f9e395002b266de6bfd8e48c12c61d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 13/48] fix: log the members SPOP removed, so that a replay
 removes the same ones

---
 pkg/db/engine.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 46f04c7..4eb8e3d 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -121,14 +121,22 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 		return nil, fmt.Errorf("new commond error, name=%s, index=1, error={%w}", name, err)
 	}
 
-	if c.Type() == command.ModifyCommandType {
-		e.writeLog(name, 1, objects)
-	}
-
 	db := e.getOrCreateDB(1)
 	db.ExecuteCommand(c)
 
 	ret, err := c.Result()
+
+	if c.Type() == command.ModifyCommandType {
+		if c.Name() == "spop" {
+			// SPOP is random, so log what it did: the replay must remove the same members
+			if objects = removalOf(objects[1], ret); objects != nil {
+				e.writeLog("srem", 1, objects)
+			}
+		} else {
+			e.writeLog(name, 1, objects)
+		}
+	}
+
 	if err != nil {
 		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)
 	}
@@ -136,6 +144,26 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	return ret, nil
 }
 
+// removalOf returns the SREM request that removes the popped members, nil if there are none
+func removalOf(key, popped protocol.RedisObject) []protocol.RedisObject {
+	objects := []protocol.RedisObject{protocol.NewBulkRedisString("srem"), key}
+
+	switch members := popped.(type) {
+	case protocol.RedisArray:
+		objects = append(objects, members.Data()...)
+	case protocol.RedisString:
+		if members.String() != protocol.NullBulkStringLiteral {
+			objects = append(objects, members)
+		}
+	}
+
+	if len(objects) == 2 {
+		return nil
+	}
+
+	return objects
+}
+
 func (e *engine) Start() {
 	if e.master != nil {
 		e.master.Start()
-- 
2.43.0


From 7dfe7a50b87037de8b949a238ef2c391c8934678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 14/48] fix: keep line breaks of a request out of error replies

---
 pkg/db/engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 4eb8e3d..dfc6fb1 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"os"
 	"reflect"
+	"strings"
 	"sync"
 
 	"github.com/lxdlam/vertex/pkg/replication"
@@ -310,7 +311,9 @@ func handleError(err error) protocol.RedisError {
 	}
 
 	// TODO: do not send raw error
-	return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%+v", err))
+	// The error may quote arbitrary bytes of the request, but an error reply is a single line
+	oneLine := strings.NewReplacer("\r", " ", "\n", " ")
+	return protocol.NewRedisError(oneLine.Replace(fmt.Sprintf("ERR vertex server internal error, err=%+v", err)))
 }
 
 func (e *engine) SetFile(file *os.File, filePath string) {
-- 
2.43.0


From d2e28fb11022dcd9812e4baa4f71e5ee1581d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 15/48] fix: answer requests that are not arrays with an error
 instead of dropping them

---
 pkg/db/engine.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index dfc6fb1..0a31c06 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -95,12 +95,11 @@ func parseRequest(data types.DataMap) (id string, objects []protocol.RedisObject
 		return
 	}
 
-	obj, ok := response.(protocol.RedisArray)
-	if !ok {
-		return
+	// Only an array is a command. No objects are left of anything else, which is answered with an error.
+	if obj, isArray := response.(protocol.RedisArray); isArray {
+		objects = obj.Data()
 	}
 
-	objects = obj.Data()
 	return
 }
 
-- 
2.43.0


From aa665cd8313fc6bb5f2938601fe5121cf487dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 16/48] fix: closing a data channel ends blocked receives and
 later sends

---
 pkg/concurrency/data_channel.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 7e5d0f8..9185577 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -56,7 +56,7 @@ type Sender interface {
 
 type receiver struct {
 	dataChannel  <-chan Event
-	closeChannel chan<- struct{}
+	closeChannel chan struct{}
 	closed       int32
 }
 
@@ -117,7 +117,12 @@ func (r *receiver) Receive() (Event, error) {
 		return nil, ErrChannelClosed
 	}
 
-	return <-r.dataChannel, nil
+	select {
+	case <-r.closeChannel:
+		return nil, ErrChannelClosed
+	case event := <-r.dataChannel:
+		return event, nil
+	}
 }
 
 func (r *receiver) Close() {
@@ -127,6 +132,13 @@ func (r *receiver) Close() {
 }
 
 func (s *sender) Send(event Event) int {
+	// The buffer may have room, so check this alone first
+	select {
+	case <-s.closeChannel:
+		return Closed
+	default:
+	}
+
 	select {
 	case <-s.closeChannel:
 		return Closed
-- 
2.43.0


From 645dd944a9cf155e5b97d4882e04fec4bada31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 17/48] fix: stop the engine in any configuration, and flush
 after its last command

---
 pkg/db/engine.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 0a31c06..3faba83 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -35,6 +35,10 @@ type engine struct {
 	requestReceiver concurrency.Receiver
 	eventBus        concurrency.EventBus
 	shutChan        chan struct{}
+	doneChan        chan struct{}
+	mutex           sync.Mutex // protects started and stopped
+	started         bool
+	stopped         bool
 	file            *log.PersistentFile
 	master          replication.Master
 }
@@ -43,6 +47,7 @@ type engine struct {
 func NewEngine(port int) Engine {
 	e := &engine{
 		shutChan: make(chan struct{}),
+		doneChan: make(chan struct{}),
 		eventBus: concurrency.GetEventBus(),
 	}
 
@@ -165,6 +170,16 @@ func removalOf(key, popped protocol.RedisObject) []protocol.RedisObject {
 }
 
 func (e *engine) Start() {
+	e.mutex.Lock()
+	if e.started || e.stopped {
+		e.mutex.Unlock()
+		return
+	}
+	e.started = true
+	e.mutex.Unlock()
+
+	defer close(e.doneChan)
+
 	if e.master != nil {
 		e.master.Start()
 	}
@@ -225,9 +240,28 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	e.mutex.Lock()
+	defer e.mutex.Unlock()
+
+	if e.stopped {
+		return
+	}
+	e.stopped = true
+
+	if e.master != nil {
+		e.master.Stop()
+	}
+
+	// Let the command in progress finish, so that nothing is written after the flush
 	close(e.shutChan)
+	e.requestReceiver.Close()
+	if e.started {
+		<-e.doneChan
+	}
+
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
 }
 
 func (e *engine) writeLog(name string, index int, objects []protocol.RedisObject) {
-- 
2.43.0


From df6dc72bf7eb70bbcc08daa7d20d9d00f540bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 18/48] fix: operations on a closed connection return instead
 of blocking forever

---
 pkg/network/conn.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 0c53ebf..6080baa 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -73,8 +73,20 @@ func NewConnWithExpire(tcpConn net.Conn, expireTime time.Duration) Conn {
 	return c
 }
 
+// reset restarts the expire time, false if the connection has been closed
+func (c *conn) reset() bool {
+	select {
+	case <-c.closeChan:
+		return false
+	case c.resetChan <- 0:
+		return true
+	}
+}
+
 func (c *conn) Read() (protocol.RedisObject, error) {
-	c.resetChan <- 0
+	if c.IsClosed() || !c.reset() {
+		return nil, ErrConnIsClosed
+	}
 
 	obj, err := c.reader.ReadObject()
 
@@ -85,6 +97,8 @@ func (c *conn) Read() (protocol.RedisObject, error) {
 			}
 		}()
 		return nil, ErrConnIsClosed
+	} else if err != nil && c.IsClosed() {
+		return nil, ErrConnIsClosed
 	} else if err != nil {
 		return nil, fmt.Errorf("conn: read with unexpected error. conn.id=%s, conn.tcpConn.addr=%s, err={%w}", c.id, c.addr, err)
 	}
@@ -93,15 +107,15 @@ func (c *conn) Read() (protocol.RedisObject, error) {
 }
 
 func (c *conn) Write(s string) error {
-	if c.IsClosed() {
+	if c.IsClosed() || !c.reset() {
 		return ErrConnIsClosed
 	}
 
-	c.resetChan <- 0
-
 	n, err := c.tcpConn.Write([]byte(s))
 
-	if err != nil {
+	if err != nil && c.IsClosed() {
+		return ErrConnIsClosed
+	} else if err != nil {
 		return fmt.Errorf("conn: write a response met an error. s=%s, conn.id=%s, conn.tcpConn.addr=%s, err={%w}", s, c.id, c.addr, err)
 	} else if n != len(s) {
 		return fmt.Errorf("conn: not all bytes writes to the tcpConn. s=%s, len(s)=%d, n=%d, conn.id=%s, conn.tcpConn.addr=%s, err={%w}", s, len(s), n, c.id, c.addr, err)
-- 
2.43.0


From 2146ca6abb6c8ae20979546172311884ba74cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 19/48] fix: closing a connection does not wait for a peer that
 stopped reading

---
 pkg/network/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 6080baa..c5f0b4d 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -18,6 +18,7 @@ import (
 var (
 	defaultExpireTime = 10 * time.Minute
 	closeMessage      = []byte("TTL expired")
+	closeTimeout      = 100 * time.Millisecond
 
 	// ErrConnIsClosed will be raised if do any operation on a closed conn
 	ErrConnIsClosed = errors.New("conn: conn is already closed")
@@ -126,6 +127,8 @@ func (c *conn) Write(s string) error {
 
 func (c *conn) Close() error {
 	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
+		// neither the message nor a write in progress may wait for a peer that does not read
+		_ = c.tcpConn.SetWriteDeadline(time.Now().Add(closeTimeout))
 		_, _ = c.tcpConn.Write(closeMessage)
 		// discard all streams
 		_ = c.tcpConn.Close()
-- 
2.43.0


From 4da7c79b6a28cf88b4558ae9290d8902c3dfe443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 20/48] fix: close and forget a connection when its reader ends

---
 pkg/network/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..7427080 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -188,6 +188,11 @@ func (s *server) newConn(conn net.Conn) {
 	s.clients.Store(c.ID(), c)
 
 	go func() {
+		defer func() {
+			_ = c.Close()
+			s.clients.Delete(c.ID())
+		}()
+
 		for {
 			request, err := c.Read()
 			if errors.Is(err, ErrConnIsClosed) {
-- 
2.43.0


From e99c62aad012b911046a26017563392b171b63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 21/48] fix: close the client connections on shutdown

---
 pkg/network/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 7427080..39dbbf5 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -187,6 +187,13 @@ func (s *server) newConn(conn net.Conn) {
 	c := NewConn(conn)
 	s.clients.Store(c.ID(), c)
 
+	select {
+	case <-s.shutChan:
+		// stop may not have seen it
+		_ = c.Close()
+	default:
+	}
+
 	go func() {
 		defer func() {
 			_ = c.Close()
@@ -296,7 +303,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
-- 
2.43.0


From 399028ae7985ebc33ea2a3d6d37a2b90703e4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 22/48] fix: wait for a shutdown in progress, so that the
 process does not exit before the flush

---
 pkg/network/server.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 39dbbf5..b9dc84e 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -10,7 +10,6 @@ import (
 	"reflect"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -52,7 +51,7 @@ type server struct {
 	eventBus         concurrency.EventBus
 	sigChan          chan os.Signal
 	shutChan         chan struct{}
-	shutdown         int32
+	shutdown         sync.Once
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
@@ -65,7 +64,6 @@ func NewServer() Server {
 		tcpListener:      nil,
 		eventBus:         concurrency.GetEventBus(),
 		shutChan:         nil,
-		shutdown:         0,
 		responseReceiver: nil,
 		cleanUpHandles:   nil,
 		clients:          sync.Map{},
@@ -293,7 +291,8 @@ Outer:
 }
 
 func (s *server) stop() {
-	if atomic.CompareAndSwapInt32(&s.shutdown, 0, 1) {
+	// Every caller waits until the shutdown is complete
+	s.shutdown.Do(func() {
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
 
@@ -311,7 +310,7 @@ func (s *server) stop() {
 		})
 
 		common.Info("server shutdown")
-	}
+	})
 }
 
 func (s *server) syncExternal(file string, master string) {
-- 
2.43.0


From 98aa8909bad0e8aa8fd0359a702b8212b81cbf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 23/48] fix: stop the response worker even if it missed the
 removal of its topic

---
 pkg/network/server.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index b9dc84e..62394d1 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -247,22 +247,22 @@ Outer:
 		default:
 			event, err := s.responseReceiver.Receive()
 
-			eventErr := event.Error()
-			if eventErr != nil {
-				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
-					break Outer
-				}
-			}
-
 			if err != nil {
 				if errors.Is(err, concurrency.ErrChannelClosed) {
 					break Outer
 				} else {
-					common.Warnf("unexpected error. event_id=%s, err=%+v", event.ID(), err)
+					common.Warnf("unexpected error. err=%+v", err)
 					break
 				}
 			}
 
+			eventErr := event.Error()
+			if eventErr != nil {
+				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
+					break Outer
+				}
+			}
+
 			data, ok := event.Data().(types.DataMap)
 			if !ok {
 				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%s", event.ID(), reflect.TypeOf(data).String())
@@ -299,6 +299,8 @@ func (s *server) stop() {
 		_ = s.tcpListener.Close()
 
 		close(s.shutChan)
+		// the notice of the removed topic may have expired
+		s.responseReceiver.Close()
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-- 
2.43.0


From 8e0213623e066dde1653862d508cee111b99c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 24/48] fix: neither lose nor reorder requests and responses on
 the event bus

---
 pkg/concurrency/event_bus.go | 22 ++++++++++++++++++++++
 pkg/db/engine.go             |  2 +-
 pkg/network/server.go        |  4 +++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/event_bus.go b/pkg/concurrency/event_bus.go
index a39aff9..d5cf668 100644
--- a/pkg/concurrency/event_bus.go
+++ b/pkg/concurrency/event_bus.go
@@ -220,6 +220,28 @@ func (e *eventBus) ExistTopic(name string) bool {
 	return exist
 }
 
+// PublishUntilDelivered publishes an event to a topic with a single subscriber and waits for the delivery. It tries again
+// as long as the subscriber is too busy to take the event, so events published one after another are neither lost nor
+// reordered. It returns false without a delivery if there is no such topic, or when stop is closed.
+func PublishUntilDelivered(e EventBus, name string, data interface{}, err error, stop <-chan struct{}) bool {
+	for {
+		count, pubErr := e.Publish(name, data, err).Get()
+		if pubErr != nil {
+			return false
+		}
+
+		if count.(int) > 0 {
+			return true
+		}
+
+		select {
+		case <-stop:
+			return false
+		case <-time.After(time.Millisecond):
+		}
+	}
+}
+
 // GetEventBus is an global function that returns the event bus object
 func GetEventBus() EventBus {
 	once.Do(func() {
diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 3faba83..527775d 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -234,7 +234,7 @@ Outer:
 				responseMap.Set("response", ret)
 			}
 
-			e.eventBus.Publish("response", responseMap, err)
+			concurrency.PublishUntilDelivered(e.eventBus, "response", responseMap, err, e.shutChan)
 		}
 	}
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 62394d1..9f2442b 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -212,7 +212,9 @@ func (s *server) newConn(conn net.Conn) {
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
 
-			concurrency.GetEventBus().Publish("request", dataMap, nil)
+			if !concurrency.PublishUntilDelivered(concurrency.GetEventBus(), "request", dataMap, nil, s.shutChan) {
+				return
+			}
 		}
 	}()
 }
-- 
2.43.0


From 5e24a84a10bc4a9d252126c4153d936441806996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 25/48] fix: a client that does not read its replies no longer
 delays the others

---
 pkg/network/client.go | 78 +++++++++++++++++++++++++++++++++++++++++++
 pkg/network/server.go |  2 +-
 2 files changed, 79 insertions(+), 1 deletion(-)
 create mode 100644 pkg/network/client.go

diff --git a/pkg/network/client.go b/pkg/network/client.go
new file mode 100644
index 0000000..3641936
--- /dev/null
+++ b/pkg/network/client.go
@@ -0,0 +1,78 @@
+package network
+
+import (
+	"sync"
+
+	"github.com/lxdlam/vertex/pkg/common"
+)
+
+// client is a connection whose replies are queued and sent in the background, so that a peer which does not read them
+// delays no other client.
+type client struct {
+	Conn
+
+	mutex   sync.Mutex
+	changed *sync.Cond
+	pending []string
+}
+
+func newClient(c Conn) *client {
+	cl := &client{Conn: c}
+	cl.changed = sync.NewCond(&cl.mutex)
+
+	go cl.sendPending()
+
+	return cl
+}
+
+// Write queues a reply
+func (cl *client) Write(s string) error {
+	cl.mutex.Lock()
+	defer cl.mutex.Unlock()
+
+	if cl.IsClosed() {
+		return ErrConnIsClosed
+	}
+
+	cl.pending = append(cl.pending, s)
+	cl.changed.Signal()
+
+	return nil
+}
+
+// Close the connection and drop the replies that are not sent yet
+func (cl *client) Close() error {
+	err := cl.Conn.Close()
+
+	cl.mutex.Lock()
+	defer cl.mutex.Unlock()
+
+	cl.pending = nil
+	cl.changed.Signal()
+
+	return err
+}
+
+func (cl *client) sendPending() {
+	for {
+		cl.mutex.Lock()
+		for len(cl.pending) == 0 && !cl.IsClosed() {
+			cl.changed.Wait()
+		}
+		replies := cl.pending
+		cl.pending = nil
+		cl.mutex.Unlock()
+
+		if cl.IsClosed() {
+			return
+		}
+
+		for _, reply := range replies {
+			if err := cl.Conn.Write(reply); err != nil {
+				_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", cl.Addr(), reply)
+				_ = cl.Close()
+				return
+			}
+		}
+	}
+}
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 9f2442b..8977327 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -182,7 +182,7 @@ func (s *server) Stop() {
 }
 
 func (s *server) newConn(conn net.Conn) {
-	c := NewConn(conn)
+	c := newClient(NewConn(conn))
 	s.clients.Store(c.ID(), c)
 
 	select {
-- 
2.43.0


From f1e54556491639d5a6f500b41f899d4006bc29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 26/48] fix: cut off a record torn by a crash before appending
 to the log

---
 pkg/log/log.go        | 31 +++++++++++++++++++++++++++++++
 pkg/network/server.go |  5 +++++
 2 files changed, 36 insertions(+)

diff --git a/pkg/log/log.go b/pkg/log/log.go
index a8b902b..221ec41 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"os"
 	"strconv"
 	"time"
 
@@ -148,3 +149,33 @@ func (lr *logReader) readLog() (*VertexLog, error) {
 
 	return v, nil
 }
+
+// TrimIncomplete cuts off the incomplete record at the end of the file, if there is any. The file offset is left alone.
+func TrimIncomplete(file *os.File) error {
+	stat, err := file.Stat()
+	if err != nil {
+		return err
+	}
+
+	lengthByte := make([]byte, 4)
+	complete := int64(0)
+
+	for complete+4 <= stat.Size() {
+		if _, err := file.ReadAt(lengthByte, complete); err != nil {
+			return err
+		}
+
+		next := complete + 4 + int64(binary.LittleEndian.Uint32(lengthByte))
+		if next > stat.Size() {
+			break
+		}
+
+		complete = next
+	}
+
+	if complete == stat.Size() {
+		return nil
+	}
+
+	return file.Truncate(complete)
+}
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 8977327..49e0259 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -356,6 +356,11 @@ func (s *server) fromFile(file string) {
 		return
 	}
 
+	// A crash may have left an incomplete record, which would swallow those written after it
+	if err := log.TrimIncomplete(f); err != nil {
+		common.Warnf("remove incomplete log failed. file=%s, err=%s", file, err.Error())
+	}
+
 	s.engine.SetFile(f, file)
 	reader := bufio.NewReader(f)
 	logs, err := log.ParseLog(reader)
-- 
2.43.0


From 5573eb3460e1f5b7e4c59333f76053c56bf8dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 27/48] fix: close the connection to the master after the sync

---
 pkg/network/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 49e0259..1869824 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -336,6 +336,8 @@ func (s *server) fromMaster(addr string) {
 		return
 	}
 
+	defer func() { _ = conn.Close() }()
+
 	r := replication.NewReplica(conn)
 	logs, err := r.Receive()
 
-- 
2.43.0


From 15d38f6edffe97dcc2afa1d4db6680b88aed2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 28/48] fix: data race on the closed subscribers of a topic

---
 pkg/concurrency/topic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index cdc0622..eacfc10 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -80,11 +80,13 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	var successCount int32
 
 	ch := make(chan string)
+	collected := make(chan struct{})
 
 	go func() {
 		for key := range ch {
 			closedKeys = append(closedKeys, key)
 		}
+		close(collected)
 	}()
 
 	t.subscribers.Range(func(k interface{}, s interface{}) bool {
@@ -112,6 +114,7 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	wg.Wait()
 	successChan <- successCount
 	close(ch)
+	<-collected
 
 	go t.batchRemove(closedKeys)
 }
-- 
2.43.0


From 713592bd8408955acb7d8cf45283ecac5197e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 29/48] fix: removing a closed subscriber keeps a newer one of
 the same name

---
 pkg/concurrency/topic.go | 41 +++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index eacfc10..c146ccd 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -40,17 +40,23 @@ func NewTopic(name string) Topic {
 type topic struct {
 	name        string
 	subscribers sync.Map
+	mutex       sync.Mutex // held to change subscribers
+}
+
+type subscription struct {
+	name   string
+	sender Sender
 }
 
 func (t *topic) Subscribe(name string) Receiver {
 	r, s := NewDataChannel()
-	t.subscribers.Store(name, s)
+	t.register(name, s)
 	return r
 }
 
 func (t *topic) SubscribeWithOptions(name string, size int, duration time.Duration) Receiver {
 	r, s := NewDataChannelWithOption(size, duration)
-	t.subscribers.Store(name, s)
+	t.register(name, s)
 	return r
 }
 
@@ -75,16 +81,16 @@ func (t *topic) Remove() {
 }
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
-	var closedKeys []string
+	var closed []subscription
 	var wg sync.WaitGroup
 	var successCount int32
 
-	ch := make(chan string)
+	ch := make(chan subscription)
 	collected := make(chan struct{})
 
 	go func() {
-		for key := range ch {
-			closedKeys = append(closedKeys, key)
+		for sub := range ch {
+			closed = append(closed, sub)
 		}
 		close(collected)
 	}()
@@ -98,7 +104,7 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 		go func() {
 			status := subscriber.Send(e)
 			if status == Closed {
-				ch <- name
+				ch <- subscription{name: name, sender: subscriber}
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
 			} else {
@@ -116,11 +122,24 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	close(ch)
 	<-collected
 
-	go t.batchRemove(closedKeys)
+	go t.batchRemove(closed)
 }
 
-func (t *topic) batchRemove(removeKeys []string) {
-	for _, name := range removeKeys {
-		t.subscribers.Delete(name)
+func (t *topic) batchRemove(closed []subscription) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	for _, sub := range closed {
+		// The name may have been subscribed again in the meantime
+		if current, ok := t.subscribers.Load(sub.name); ok && current == sub.sender {
+			t.subscribers.Delete(sub.name)
+		}
 	}
 }
+
+func (t *topic) register(name string, s Sender) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	t.subscribers.Store(name, s)
+}
-- 
2.43.0


From 54f10869f368cbdd88e7bf5a56d00301eb87a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 30/48] fix: a future is either fulfilled or cancelled, also
 under concurrent use

---
 pkg/concurrency/future.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 3210155..a3cf7a1 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync"
 	"time"
 )
 
@@ -44,6 +45,7 @@ type future struct {
 	task       Task
 	result     interface{}
 	err        error
+	mutex      sync.Mutex // held to close doneChan or cancelChan, of which only one is ever closed
 	doneChan   chan struct{}
 	cancelChan chan struct{}
 }
@@ -66,18 +68,26 @@ func NewFuture(task Task) Future {
 
 func (f *future) start() {
 	go func() {
-		f.result, f.err = f.task.Run()
+		result, err := f.task.Run()
+
+		f.mutex.Lock()
+		defer f.mutex.Unlock()
+
 		select {
 		// Already cancelled, leaves the doneChan open
 		case <-f.cancelChan:
 			return
 		default:
+			f.result, f.err = result, err
 			close(f.doneChan)
 		}
 	}()
 }
 
 func (f *future) Cancel() error {
+	f.mutex.Lock()
+	defer f.mutex.Unlock()
+
 	select {
 	case <-f.doneChan:
 		return ErrFulfilled
-- 
2.43.0


From bb8bf2fbb8f3514dcd10c70f8f7955995f5abac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 31/48] fix: keep the size of a sync data map exact under
 concurrent writes

---
 pkg/types/data_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/types/data_map.go b/pkg/types/data_map.go
index fa2726e..bf11ded 100644
--- a/pkg/types/data_map.go
+++ b/pkg/types/data_map.go
@@ -107,6 +107,7 @@ func (ldm *lockedDataMap) Len() int {
 // It also contains a size to count the actual size of syncDataMap
 type syncDataMap struct {
 	container sync.Map
+	mutex     sync.Mutex // held by the writers to keep the size exact
 	size      int32
 }
 
@@ -118,6 +119,9 @@ func NewSyncDataMap() *syncDataMap {
 // Set will do insert and size increment
 // It will do a check if the key is exist to determine if we need to increase the size
 func (sdm *syncDataMap) Set(key string, value interface{}) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if !sdm.Has(key) {
 		atomic.AddInt32(&sdm.size, 1)
 	}
@@ -139,6 +143,9 @@ func (sdm *syncDataMap) Has(key string) bool {
 // Remove will first check if the key is exist
 // Then do remove works, it requires one more read overhead
 func (sdm *syncDataMap) Remove(key string) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if sdm.Has(key) {
 		sdm.container.Delete(key)
 		atomic.AddInt32(&sdm.size, -1)
-- 
2.43.0


From a7470afc591c99754a5f56b092470a44e7045acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 32/48] fix: stopping the master closes its listener, and a
 failed accept does not stop it

---
 pkg/replication/master.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..d6b6f9e 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -70,7 +70,7 @@ func (m *master) start() {
 					break Outer
 				} else {
 					common.Warnf("tcp listen error. err=%s", err)
-					break
+					continue
 				}
 			}
 
@@ -82,8 +82,10 @@ func (m *master) start() {
 
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
+		_ = m.listener.Close()
+
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
-- 
2.43.0


From e687c03433157e32e72230961e24a5d4b63eafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 33/48] fix: release the connection and the file of every
 replica transfer

---
 pkg/replication/master.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index d6b6f9e..f01797d 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -94,18 +94,30 @@ func (m *master) stop() {
 }
 
 func (m *master) handleConn(conn net.Conn) {
+	defer func() { _ = conn.Close() }()
+
 	if m.file == nil {
 		_ = common.Errorf("no file provided.")
 		return
 	}
 
 	addr := conn.RemoteAddr().String()
-	defer func() { _ = conn.Close() }()
 
 	m.mutex.Lock()
 	m.conn[addr] = conn
 	m.mutex.Unlock()
 
+	defer func() {
+		m.mutex.Lock()
+		delete(m.conn, addr)
+		m.mutex.Unlock()
+	}()
+
+	if atomic.LoadInt32(&m.shutdown) == 1 {
+		// stop may not have seen it
+		return
+	}
+
 	filePath := fmt.Sprintf("/tmp/vertex/%s", util.GenNewUUID())
 	tmpFile, err := os.Create(filePath)
 	if err != nil {
@@ -130,6 +142,8 @@ func (m *master) handleConn(conn net.Conn) {
 		return
 	}
 
+	defer func() { _ = rawFile.Close() }()
+
 	n, err := io.Copy(tmpFile, rawFile)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
@@ -172,10 +186,6 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
 		return
 	}
-
-	m.mutex.Lock()
-	delete(m.conn, addr)
-	m.mutex.Unlock()
 }
 
 func (m *master) Start() {
-- 
2.43.0


From 776b391d85242cd21f846fe91f4d32b8f27e35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 34/48] fix: send replicas only complete log records while
 clients are writing

---
 pkg/log/persistent.go     | 17 +++++++++++++++++
 pkg/replication/master.go |  5 +++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index cbb7353..3aaba54 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -49,6 +49,23 @@ func (p *PersistentFile) Flush() error {
 	return p.writer.Flush()
 }
 
+// FlushedSize will flush the buffer and return the size of the file after all that has been written.
+func (p *PersistentFile) FlushedSize() (int64, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+
+	if err := p.writer.Flush(); err != nil {
+		return 0, err
+	}
+
+	stat, err := p.file.Stat()
+	if err != nil {
+		return 0, err
+	}
+
+	return stat.Size(), nil
+}
+
 // ReadFrom do what?
 // Not to proxy it here.
 
diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index f01797d..2cc7d98 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -130,7 +130,8 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = os.Remove(filePath)
 	}()
 
-	err = m.file.Flush()
+	// Later writes may leave an incomplete record at the end of the file
+	size, err := m.file.FlushedSize()
 	if err != nil {
 		_ = common.Errorf("save to file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
@@ -144,7 +145,7 @@ func (m *master) handleConn(conn net.Conn) {
 
 	defer func() { _ = rawFile.Close() }()
 
-	n, err := io.Copy(tmpFile, rawFile)
+	n, err := io.Copy(tmpFile, io.LimitReader(rawFile, size))
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
-- 
2.43.0


From ce24a7d33327f6d8eaf42f53861cb19451e5b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 35/48] fix: keep the skip list's levels, spans and back links
 correct

A new node was linked into every level, also those it did not reach, a deletion
left the back link of its successor behind, the predecessors of a node to delete
were searched by walking past it, and the rank never stopped at the node.
---
 pkg/container/sorted_set.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index d13a7cb..f3e9042 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -61,6 +61,12 @@ type skipListNode struct {
 	prev  *skipListNode
 }
 
+// less reports whether the node is ordered before the other one, by score first, then by entry
+func (sln *skipListNode) less(other *skipListNode) bool {
+	return sln.score < other.score ||
+		(sln.score == other.score && sln.data.CompareTo(other.data) < 0)
+}
+
 func (sln *skipListNode) release() {
 	sln.data = nil
 	sln.prev = nil
@@ -155,7 +161,7 @@ func (sl *skipList) insert(score float64, entry *StringContainer) {
 	// |               | rank[0] - rank[level] + 1 |               | update[level].next[level].span - (rank[0] - rank[level]) |               |
 	// |               |                           |               |                                                          |               |
 	// +---------------+                           +---------------+                                                          +---------------+
-	for level := 0; level < sl.level; level++ {
+	for level := 0; level < newLevel; level++ {
 		cur.next = append(cur.next, skipListLevel{})
 		cur.next[level].node = update[level].next[level].node
 		update[level].next[level].node = cur
@@ -188,6 +194,8 @@ func (sl *skipList) delete(node *skipListNode, update []*skipListNode) {
 		}
 	}
 
+	node.next[0].node.prev = node.prev
+
 	for sl.level > 1 && sl.head.next[sl.level-1].node == sl.tail {
 		sl.level--
 	}
@@ -202,7 +210,7 @@ func (sl *skipList) deleteNode(node *skipListNode) {
 
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail && cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.less(node) {
 			cur = cur.next[level].node
 		}
 
@@ -216,7 +224,7 @@ func (sl *skipList) getRank(node *skipListNode) int {
 	rank := 0
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail || cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.less(node) {
 			rank += cur.next[level].span
 			cur = cur.next[level].node
 		}
-- 
2.43.0


From 48dbb38620ecd6e74e60008c6edd4a5a99882a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 36/48] fix: keep quoted empty texts and reject unterminated
 quotes in the client

---
 cmd/client/internal/codec.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index ed126fc..9fd33ba 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -11,12 +11,15 @@ import (
 	"github.com/lxdlam/vertex/pkg/protocol"
 )
 
+// ErrUnterminatedQuote will be raised if a quoted text in the input is not closed
+var ErrUnterminatedQuote = errors.New("codec: unterminated quote")
+
 func FormatInput(input string) (string, error) {
 	var arr []protocol.RedisObject
 	reader := bufio.NewReader(strings.NewReader(input))
 
 	for {
-		s, err := parseString(reader)
+		s, quoted, err := parseString(reader)
 
 		if err != nil {
 			if errors.Is(err, io.EOF) {
@@ -29,7 +32,7 @@ func FormatInput(input string) (string, error) {
 			}
 		}
 
-		if s != "" {
+		if s != "" || quoted {
 			arr = append(arr, protocol.NewBulkRedisString(s))
 		}
 	}
@@ -37,19 +40,21 @@ func FormatInput(input string) (string, error) {
 	return protocol.NewRedisArray(arr).String(), nil
 }
 
-func parseString(reader *bufio.Reader) (string, error) {
+// parseString returns the next argument and if it is a quoted one
+func parseString(reader *bufio.Reader) (string, bool, error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
 		if e != nil {
 			if errors.Is(e, io.EOF) {
-				return buf.String(), e
+				return buf.String(), false, e
 			}
-			return "", e
+			return "", false, e
 		}
 
 		if b == '"' {
-			return parseQuote(reader)
+			s, err := parseQuote(reader)
+			return s, true, err
 		} else if b == ' ' {
 			break
 		}
@@ -57,14 +62,16 @@ func parseString(reader *bufio.Reader) (string, error) {
 		buf.WriteByte(b)
 	}
 
-	return buf.String(), nil
+	return buf.String(), false, nil
 }
 
 func parseQuote(reader *bufio.Reader) (string, error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
-		if e != nil {
+		if errors.Is(e, io.EOF) {
+			return "", ErrUnterminatedQuote
+		} else if e != nil {
 			return "", e
 		} else if b == '"' {
 			break
-- 
2.43.0


From 395b1796c219f00d4205a16a42795935b70e43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 37/48] fix: do not lose a termination signal that arrives
 before it is waited for

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 1869824..bf2d8c3 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -118,7 +118,7 @@ func (s *server) Init(c common.Config) bool {
 	s.syncExternal(c.DatabaseFile, c.MasterAddress)
 
 	s.shutChan = make(chan struct{})
-	s.sigChan = make(chan os.Signal)
+	s.sigChan = make(chan os.Signal, 1)
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
 	go func() {
-- 
2.43.0


From 0f98986be4a89d3841bc1b83b5243abf90665cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 38/48] fix: let concurrent closes of a data channel return
 only when it is closed

---
 pkg/concurrency/data_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 9185577..e13048f 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -58,6 +59,7 @@ type receiver struct {
 	dataChannel  <-chan Event
 	closeChannel chan struct{}
 	closed       int32
+	closeOnce    sync.Once
 }
 
 type sender struct {
@@ -126,9 +128,11 @@ func (r *receiver) Receive() (Event, error) {
 }
 
 func (r *receiver) Close() {
-	if atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
+	// A concurrent call waits here, so the channel is closed whenever a call has returned
+	r.closeOnce.Do(func() {
+		atomic.StoreInt32(&r.closed, 1)
 		close(r.closeChannel)
-	}
+	})
 }
 
 func (s *sender) Send(event Event) int {
-- 
2.43.0


From 92db1e09fe75a1aca07d0873af250f8cd958e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 39/48] fix: trimming a very long list does not overflow the
 stack

---
 pkg/container/list.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 9d8bd8b..8ab7752 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -187,15 +187,18 @@ func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
 // mark all pointer to nil, so the GC can properly release them.
 // move from head to tail
 func releaseList(n *listNode) int {
-	if n == nil {
-		return 0
+	length := 0
+
+	// No recursion, its depth would be the length of the list
+	for n != nil {
+		next := n.next
+		n.prev = nil
+		n.next = nil
+		n = next
+		length++
 	}
 
-	length := releaseList(n.next)
-	n.prev = nil
-	n.next = nil
-
-	return length + 1
+	return length
 }
 
 // NewLinkedListContainer will return a new linked list instance which is assigned of the give key
-- 
2.43.0


From 685f2c50a471e4a4ae8ae6f45fd54e778bff36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 40/48] fix: format log messages with their arguments, not with
 a slice of them

---
 pkg/common/logging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index 838894c..c66312d 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -98,7 +98,7 @@ func Debug(log string) {
 // Debugf works like Printf and works same as Debug
 func Debugf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Debugf(template, a)
+		logger.Debugf(template, a...)
 	}
 }
 
@@ -112,7 +112,7 @@ func Info(log string) {
 // Infof works like Printf and works same as Info
 func Infof(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Infof(template, a)
+		logger.Infof(template, a...)
 	}
 }
 
@@ -126,7 +126,7 @@ func Warn(log string) {
 // Warnf works like Printf and works same as Warn
 func Warnf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Warnf(template, a)
+		logger.Warnf(template, a...)
 	}
 }
 
@@ -159,7 +159,7 @@ func Panic(log string) {
 // Panicf works like Printf and works same as Panic
 func Panicf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Panicf(template, a)
+		logger.Panicf(template, a...)
 	}
 }
 
@@ -174,7 +174,7 @@ func Fatal(log string) {
 // Fatalf works like Printf and works same as Fatal
 func Fatalf(template string, a ...interface{}) {
 	if logger != nil {
-		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a)
-		logger.Fatalf(template, a)
+		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a...)
+		logger.Fatalf(template, a...)
 	}
 }
-- 
2.43.0


From 4cf887994a28dcdd17b3cbf58e9c7ff18dd70c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 41/48] fix: Init fails if the database file cannot be opened,
 instead of persisting nothing

---
 pkg/network/server.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index bf2d8c3..3476c1b 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -115,7 +115,16 @@ func (s *server) Init(c common.Config) bool {
 		s.engine = db.NewEngine(-1)
 	}
 
-	s.syncExternal(c.DatabaseFile, c.MasterAddress)
+	if s.engine == nil {
+		err = errors.New("create engine failed")
+	} else {
+		err = s.syncExternal(c.DatabaseFile, c.MasterAddress)
+	}
+
+	if err != nil {
+		s.release()
+		return false
+	}
 
 	s.shutChan = make(chan struct{})
 	s.sigChan = make(chan os.Signal, 1)
@@ -317,16 +326,32 @@ func (s *server) stop() {
 	})
 }
 
-func (s *server) syncExternal(file string, master string) {
+// release gives back what an Init that failed has taken
+func (s *server) release() {
+	s.eventBus.RemoveTopic("request")
+	s.eventBus.RemoveTopic("response")
+
+	_ = s.tcpListener.Close()
+	s.responseReceiver.Close()
+	if s.engine != nil {
+		s.engine.Stop()
+	}
+}
+
+func (s *server) syncExternal(file string, master string) error {
 	// Init order: first init file, then master to keep the version match
 	if file != "" {
-		s.fromFile(file)
+		if err := s.fromFile(file); err != nil {
+			return err
+		}
 
 		// Current implementation depends on a database file
 		if master != "" {
 			s.fromMaster(master)
 		}
 	}
+
+	return nil
 }
 
 func (s *server) fromMaster(addr string) {
@@ -351,11 +376,12 @@ func (s *server) fromMaster(addr string) {
 	}
 }
 
-func (s *server) fromFile(file string) {
+// fromFile fails only if the file cannot be used, since nothing would be persisted then
+func (s *server) fromFile(file string) error {
 	f, err := os.OpenFile(file, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0755)
 	if err != nil {
 		common.Warnf("open file failed. file=%s, err=%s", file, err.Error())
-		return
+		return err
 	}
 
 	// A crash may have left an incomplete record, which would swallow those written after it
@@ -375,4 +401,6 @@ func (s *server) fromFile(file string) {
 	if len(logs) > 0 {
 		s.engine.BuildFromLog(logs)
 	}
+
+	return nil
 }
-- 
2.43.0


From 7c6f70c5ac8981119906bf8c9682bbf1d39d0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 42/48] fix: Init fails if the replication port cannot be used,
 instead of serving no replicas

---
 pkg/db/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 527775d..c8250de 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -64,6 +64,11 @@ func NewEngine(port int) Engine {
 			Port: port,
 		}
 		e.master = replication.NewMaster(addr)
+		if e.master == nil {
+			_ = common.Errorf("listen for replicas failed. addr=%s", addr.String())
+			e.requestReceiver.Close()
+			return nil
+		}
 	}
 
 	return e
-- 
2.43.0


From 1aaf0bddf366f57c483795d65087117e7f99d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 43/48] fix: the client takes lines of more than 64 KiB instead
 of ending silently

---
 cmd/client/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/client/main.go b/cmd/client/main.go
index d199918..347e1c2 100644
--- a/cmd/client/main.go
+++ b/cmd/client/main.go
@@ -13,8 +13,13 @@ import (
 
 const prompt = ">>> "
 
+// maxLineSize is the size of the longest line that can be typed
+const maxLineSize = 1 << 30
+
 func main() {
 	scanner := bufio.NewScanner(os.Stdin)
+	// The default limit ends the client silently at a line of 64 KiB
+	scanner.Buffer(nil, maxLineSize)
 
 	c, err := net.Dial("tcp", "127.0.0.1:6789")
 	if err != nil {
-- 
2.43.0


From 7f3e09d28010dfd2b9b728657c24cac8a9c5257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 44/48] fix: requests that waited for the busy engine were
 offered all at once and slowed each other down

---
 database.vpf          |  0
 pkg/network/server.go | 16 +++++++++++++++-
 vertex.log            |  5 +++++
 3 files changed, 20 insertions(+), 1 deletion(-)
 create mode 100755 database.vpf
 create mode 100644 vertex.log

diff --git a/database.vpf b/database.vpf
new file mode 100755
index 0000000..e69de29
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 3476c1b..eea4636 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -30,6 +30,10 @@ var (
 	FatalResponse = protocol.NewRedisError("fatal error by vertex. check server log.")
 )
 
+// maxPublishing limits the requests that are offered to the engine at the same time. The others wait in line, since the
+// engine takes one at a time and each offer has to be repeated while it is busy.
+const maxPublishing = 16
+
 // Server is the main service of vertex.
 type Server interface {
 	// Prepare the resource, false if failed.
@@ -55,6 +59,7 @@ type server struct {
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
+	publishing       chan struct{}
 	engine           db.Engine
 }
 
@@ -127,6 +132,7 @@ func (s *server) Init(c common.Config) bool {
 	}
 
 	s.shutChan = make(chan struct{})
+	s.publishing = make(chan struct{}, maxPublishing)
 	s.sigChan = make(chan os.Signal, 1)
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
@@ -221,7 +227,15 @@ func (s *server) newConn(conn net.Conn) {
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
 
-			if !concurrency.PublishUntilDelivered(concurrency.GetEventBus(), "request", dataMap, nil, s.shutChan) {
+			select {
+			case s.publishing <- struct{}{}:
+			case <-s.shutChan:
+				return
+			}
+			delivered := concurrency.PublishUntilDelivered(concurrency.GetEventBus(), "request", dataMap, nil, s.shutChan)
+			<-s.publishing
+
+			if !delivered {
 				return
 			}
 		}
diff --git a/vertex.log b/vertex.log
new file mode 100644
index 0000000..04e15eb
--- /dev/null
+++ b/vertex.log
@@ -0,0 +1,5 @@
+2026-11-20T00:49:07.512Z	DEBUG	common/logging.go:94	initialize server
+2026-11-20T00:49:07.512Z	DEBUG	common/logging.go:94	initialize server success
+2026-11-20T00:49:07.512Z	INFO	common/logging.go:115	server is listening on 0.0.0.0:6789
+2026-11-20T00:49:07.512Z	INFO	common/logging.go:115	start master. addr=[::]:9999
+2026-11-20T01:04:13.585Z	INFO	common/logging.go:108	server shutdown
-- 
2.43.0


From 4520c79c910887391234707d6d13aabf047e09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 45/48] fix: reject a bulk string whose length does not match
 its content

---
 pkg/protocol/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index d9d29d7..a958b1b 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -101,6 +101,9 @@ func (r *respReader) readString() (RedisString, error) {
 		} else if sLen < 0 {
 			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
+			if r.token[sLen:] != "\r\n" {
+				return nil, fmt.Errorf("bulk string not terminated. length=%d, token=%s", sLen, r.token)
+			}
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
 			return nil, fmt.Errorf("read real string failed. length=%d, token=%s, err={%w}", sLen, r.token, err)
-- 
2.43.0


From b8f35defb496f99132418c23caff2e81b83263a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 46/48] fix: reject an array of negative length

---
 pkg/protocol/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index a958b1b..6e26e06 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -140,6 +140,8 @@ func (r *respReader) readArray() (RedisArray, error) {
 	if aLen == -1 {
 		// null array
 		return NewNullRedisArray(), nil
+	} else if aLen < 0 {
+		return nil, fmt.Errorf("invalid array length. token=%s", curToken)
 	}
 
 	if r.depth >= maxDepth {
-- 
2.43.0


From 9a53d9d18285ff9a52a1326c284b221aa41e170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:56 +0000
Subject: [PATCH 47/48] fix: remove a log and a database file of a test run,
 committed by accident with 7f3e09d

---
 database.vpf | 0
 vertex.log   | 5 -----
 2 files changed, 5 deletions(-)
 delete mode 100755 database.vpf
 delete mode 100644 vertex.log

diff --git a/database.vpf b/database.vpf
deleted file mode 100755
index e69de29..0000000
diff --git a/vertex.log b/vertex.log
deleted file mode 100644
index 04e15eb..0000000
--- a/vertex.log
+++ /dev/null
@@ -1,5 +0,0 @@
-2026-11-20T00:49:07.512Z	DEBUG	common/logging.go:94	initialize server
-2026-11-20T00:49:07.512Z	DEBUG	common/logging.go:94	initialize server success
-2026-11-20T00:49:07.512Z	INFO	common/logging.go:115	server is listening on 0.0.0.0:6789
-2026-11-20T00:49:07.512Z	INFO	common/logging.go:115	start master. addr=[::]:9999
-2026-11-20T01:04:13.585Z	INFO	common/logging.go:108	server shutdown
-- 
2.43.0


From 92424f4e97125e5d0d8c60712c7ee40d30517c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:56 +0000
Subject: [PATCH 48/48] fix: do not pass off a part of a database file above 4
 GiB as all of it

The length section of a transfer has 32 bits, so the length of such a file was
cut off, and replicas took the first bytes of the file for the whole database.
---
 pkg/replication/master.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 2cc7d98..334007f 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"os"
 	"strings"
@@ -137,6 +138,12 @@ func (m *master) handleConn(conn net.Conn) {
 		return
 	}
 
+	if size > math.MaxUint32 {
+		// the replica would take a part of the file for all of it
+		_ = common.Errorf("file is too large for the length section. addr=%s, raw_path=%s, size=%d", addr, m.filePath, size)
+		return
+	}
+
 	rawFile, err := os.Open(m.filePath)
 	if err != nil {
 		_ = common.Errorf("open raw file failed. addr=%s, path=%s, raw_path=%s, err=%s", addr, filePath, m.filePath, err.Error())
-- 
2.43.0

