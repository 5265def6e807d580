From a6169d81b0bfc2a3a8373a95c66b714b5b1cea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 01/28] fix: read elements of object arrays in dumps with
 4-byte identifiers

---
 internal/java/heap.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..1c49266 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -229,8 +229,13 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		var id core.Identifier
+		if h.parsedAccessor.IdentifierSize == 4 {
+			id = core.Identifier(binary.BigEndian.Uint32(e))
+		} else {
+			id = core.Identifier(binary.BigEndian.Uint64(e))
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From 48db4237a1dcac7b23b8865bd8dcf7f3b8e65776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 02/28] fix: decode java.lang.String according to its coder

---
 internal/java/heap.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 1c49266..e696fe7 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -14,6 +14,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"unicode/utf16"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -73,7 +74,7 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 					if err != nil {
 						return "", fmt.Errorf("error reading `value` array for string %v: %w", str, err)
 					}
-					return string(byteArr), nil
+					return decodeString(javaString, byteArr), nil
 				}
 				return "", fmt.Errorf("malformed java string, `value` is not a reference to array (%T)", value.Value.Value)
 			}
@@ -84,6 +85,29 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 	return "", fmt.Errorf("passed value (%v) is not reference to object", str)
 }
 
+// decodeString decodes payload of the `value` array of java.lang.String
+// according to its `coder` field: 0 is for LATIN1 and 1 is for UTF16.
+// HotSpot keeps UTF16 strings in native byte order of the platform that is
+// little-endian for all the mainstream ones.
+func decodeString(javaString NormalObject, payload []byte) string {
+	coder, err := javaString.GetFieldValueByName("coder")
+	if err != nil {
+		return string(payload)
+	}
+	if coder.Value.Value == int8(1) {
+		units := make([]uint16, len(payload)/2)
+		for i := range units {
+			units[i] = binary.LittleEndian.Uint16(payload[2*i:])
+		}
+		return string(utf16.Decode(units))
+	}
+	runes := make([]rune, len(payload))
+	for i, b := range payload {
+		runes[i] = rune(b)
+	}
+	return string(runes)
+}
+
 func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error) {
 	header, err := h.parsedAccessor.GetHprofGcPrimArray(arrayObjectId)
 	if err != nil {
-- 
2.43.0


From 03298ffa0948896bf64199072c9a69d3a68ed061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 03/28] fix: report failure to write the last batch of index

---
 internal/dump/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..1ffd1b8 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,11 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	defer func() {
+		if closeErr := parser.bigRecordsWriteStorage.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("error closing index: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From 6611520b57108663a3df05cf4f22828b0cb541cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 04/28] fix: parse the rest of standard GC root sub-records,
 refuse unknown ones instead of skipping their first byte

---
 internal/core/base_parsers.go | 21 +++++++++++++++++++++
 internal/core/records.go      |  9 +++++++++
 internal/core/sizes.go        |  5 +++++
 internal/core/tags.go         |  8 ++++++++
 internal/dump/parser.go       | 10 ++++++++++
 internal/storage/small.go     |  9 +++++++++
 internal/summary/summary.go   |  2 +-
 7 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..62935e4 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -264,6 +264,27 @@ func (parser *RecordParser) ParseHprofGcRootStickyClass() (HprofGcRootStickyClas
 	return HprofGcRootStickyClass{ObjectId: objectId}, nil
 }
 
+// ParseHprofGcRootOther reads the sub-record of one of the types
+// represented by HprofGcRootOther.
+func (parser *RecordParser) ParseHprofGcRootOther(ty SubRecordType) (HprofGcRootOther, error) {
+	objectId, err := parser.primitiveParser.ParseIdentifier()
+	if err != nil {
+		return HprofGcRootOther{}, fmt.Errorf("error in ParseHprofGcRootOther: %w", err)
+	}
+	var threadSerialNumber uint32
+	if ty == HprofGcRootNativeStackType || ty == HprofGcRootThreadBlockType {
+		threadSerialNumber, err = parser.primitiveParser.ParseUint32()
+		if err != nil {
+			return HprofGcRootOther{}, fmt.Errorf("error in ParseHprofGcRootOther: %w", err)
+		}
+	}
+	return HprofGcRootOther{
+		Type:               ty,
+		ObjectId:           objectId,
+		ThreadSerialNumber: threadSerialNumber,
+	}, nil
+}
+
 // ParseHprofGcClassDump reads HPROF_GC_CLASS_DUMP sub-record.
 func (parser *RecordParser) ParseHprofGcClassDump() (HprofGcClassDump, error) {
 	classObjectId, err := parser.primitiveParser.ParseIdentifier()
diff --git a/internal/core/records.go b/internal/core/records.go
index 92a28c3..67969ce 100644
--- a/internal/core/records.go
+++ b/internal/core/records.go
@@ -84,6 +84,15 @@ type HprofGcRootStickyClass struct {
 	ObjectId Identifier
 }
 
+// HprofGcRootOther is any of HPROF_GC_ROOT_UNKNOWN, HPROF_GC_ROOT_NATIVE_STACK,
+// HPROF_GC_ROOT_THREAD_BLOCK and HPROF_GC_ROOT_MONITOR_USED. ThreadSerialNumber
+// is present in HPROF_GC_ROOT_NATIVE_STACK and HPROF_GC_ROOT_THREAD_BLOCK only.
+type HprofGcRootOther struct {
+	Type               SubRecordType
+	ObjectId           Identifier
+	ThreadSerialNumber uint32
+}
+
 type HprofGcClassDump struct {
 	ClassObjectId            Identifier
 	StackTraceSerialNumber   uint32
diff --git a/internal/core/sizes.go b/internal/core/sizes.go
index 93342fd..20dfa5a 100644
--- a/internal/core/sizes.go
+++ b/internal/core/sizes.go
@@ -22,6 +22,11 @@ func (s SizeInfo) Of(record any) int {
 		return s.idSize
 	case HprofGcRootThreadObj:
 		return s.idSize + 2*4
+	case HprofGcRootOther:
+		if v.Type == HprofGcRootNativeStackType || v.Type == HprofGcRootThreadBlockType {
+			return s.idSize + 4
+		}
+		return s.idSize
 	case HprofGcClassDump:
 		fieldsSize := 7*s.idSize + 2*4 + 3*2
 		var constantPoolSize int
diff --git a/internal/core/tags.go b/internal/core/tags.go
index f94332f..0de2200 100644
--- a/internal/core/tags.go
+++ b/internal/core/tags.go
@@ -36,12 +36,16 @@ const (
 	HprofGcRootJniGlobalType   SubRecordType = 0x01
 	HprofGcRootJniLocalType    SubRecordType = 0x02
 	HprofGcRootJavaFrameType   SubRecordType = 0x03
+	HprofGcRootNativeStackType SubRecordType = 0x04
 	HprofGcRootStickyClassType SubRecordType = 0x05
+	HprofGcRootThreadBlockType SubRecordType = 0x06
+	HprofGcRootMonitorUsedType SubRecordType = 0x07
 	HprofGcRootThreadObjType   SubRecordType = 0x08
 	HprofGcClassDumpType       SubRecordType = 0x20
 	HprofGcInstanceDumpType    SubRecordType = 0x21
 	HprofGcObjArrayDumpType    SubRecordType = 0x22
 	HprofGcPrimArrayDumpType   SubRecordType = 0x23
+	HprofGcRootUnknownType     SubRecordType = 0xff
 )
 
 // these duplicated tags from Tags to be able to exit parse subrecords loop.
@@ -54,12 +58,16 @@ var subRecordTypeMap = map[SubRecordType]string{
 	HprofGcRootJniGlobalType:   "HPROF_GC_ROOT_JNI_GLOBAL",
 	HprofGcRootJniLocalType:    "HPROF_GC_ROOT_JNI_LOCAL",
 	HprofGcRootJavaFrameType:   "HPROF_GC_ROOT_JAVA_FRAME",
+	HprofGcRootNativeStackType: "HPROF_GC_ROOT_NATIVE_STACK",
 	HprofGcRootStickyClassType: "HPROF_GC_ROOT_STICKY_CLASS",
+	HprofGcRootThreadBlockType: "HPROF_GC_ROOT_THREAD_BLOCK",
+	HprofGcRootMonitorUsedType: "HPROF_GC_ROOT_MONITOR_USED",
 	HprofGcRootThreadObjType:   "HPROF_GC_ROOT_THREAD_OBJ",
 	HprofGcClassDumpType:       "HPROF_GC_CLASS_DUMP",
 	HprofGcInstanceDumpType:    "HPROF_GC_INSTANCE_DUMP",
 	HprofGcObjArrayDumpType:    "HPROF_GC_OBJ_ARRAY_DUMP",
 	HprofGcPrimArrayDumpType:   "HPROF_GC_PRIM_ARRAY_DUMP",
+	HprofGcRootUnknownType:     "HPROF_GC_ROOT_UNKNOWN",
 }
 
 func (s SubRecordType) String() string {
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 1ffd1b8..946dd5a 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -163,6 +163,14 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					}
 					parser.smallRecordsWriteStorage.PutHprofGcRootThreadObj(record)
 					parser.pos += size.Of(record)
+				case core.HprofGcRootUnknownType, core.HprofGcRootNativeStackType,
+					core.HprofGcRootThreadBlockType, core.HprofGcRootMonitorUsedType:
+					record, err := recordParser.ParseHprofGcRootOther(subRecordHeader.SubRecordType)
+					if err != nil {
+						return fmt.Errorf("error parsing HprofGcRootOther: %w", err)
+					}
+					parser.smallRecordsWriteStorage.PutHprofGcRootOther(record)
+					parser.pos += size.Of(record)
 				case core.HprofGcClassDumpType:
 					record, err := recordParser.ParseHprofGcClassDump()
 					if err != nil {
@@ -224,6 +232,8 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
diff --git a/internal/storage/small.go b/internal/storage/small.go
index 06fd701..fe4b0dc 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -25,6 +25,7 @@ type underlyingStorage struct {
 	HprofGcRootJavaFrame   []core.HprofGcRootJavaFrame
 	HprofGcRootStickyClass []core.HprofGcRootStickyClass
 	HprofGcRootThreadObj   []core.HprofGcRootThreadObj
+	HprofGcRootOther       []core.HprofGcRootOther
 	HprofGcClassDump       map[core.Identifier]core.HprofGcClassDump
 }
 
@@ -112,6 +113,10 @@ func (s *SmallRecordsWriteStorage) PutHprofGcRootThreadObj(record core.HprofGcRo
 	s.HprofGcRootThreadObj = append(s.HprofGcRootThreadObj, record)
 }
 
+func (s *SmallRecordsWriteStorage) PutHprofGcRootOther(record core.HprofGcRootOther) {
+	s.HprofGcRootOther = append(s.HprofGcRootOther, record)
+}
+
 func (s *SmallRecordsWriteStorage) PutHprofGcClassDump(record core.HprofGcClassDump) {
 	s.HprofGcClassDump[record.ClassObjectId] = record
 }
@@ -182,6 +187,10 @@ func (s *SmallRecordsReadStorage) ListHprofGcRootThreadObj() []core.HprofGcRootT
 	return s.HprofGcRootThreadObj
 }
 
+func (s *SmallRecordsReadStorage) ListHprofGcRootOther() []core.HprofGcRootOther {
+	return s.HprofGcRootOther
+}
+
 func (s *SmallRecordsReadStorage) GetHprofGcClassDump(classObjectId core.Identifier) (core.HprofGcClassDump, error) {
 	res, ok := s.HprofGcClassDump[classObjectId]
 	if !ok {
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..579648c 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -182,7 +182,7 @@ func getHeap(parsedAccessor *dump.ParsedAccessor) (HeapProperties, error) {
 	classes := parsedAccessor.ListHprofLoadClass()
 	gcRootsCount := len(parsedAccessor.HprofGcRootJavaFrame) + len(parsedAccessor.HprofGcRootJniGlobal) +
 		len(parsedAccessor.HprofGcRootJniLocal) + len(parsedAccessor.ListHprofGcRootStickyClass()) +
-		len(parsedAccessor.ListHprofGcRootThreadObj())
+		len(parsedAccessor.ListHprofGcRootThreadObj()) + len(parsedAccessor.ListHprofGcRootOther())
 	classSet := make(map[core.Identifier]any)
 	var void any
 	for _, c := range classes {
-- 
2.43.0


From 2a42ac78cbfc37a5a4a5db7097a146718a67211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 05/28] fix: respect the length of heap dump segment

---
 internal/dump/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 946dd5a..6c1a053 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -120,8 +120,11 @@ func (parser *Parser) ParseHeapDump() (err error) {
 			parser.smallRecordsWriteStorage.PutHprofTrace(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofHeapDumpSegmentTag:
+			// length of the segment is zero when it is not known, then
+			// the segment lasts till the next segment or the end of the dump
+			segmentEnd := parser.pos + int(header.Remaining)
 		loop:
-			for {
+			for header.Remaining == 0 || parser.pos < segmentEnd {
 				subRecordHeader, err := recordParser.ParseSubRecordHeader()
 				if err != nil {
 					return fmt.Errorf("error parsing sub-record type: %w", err)
-- 
2.43.0


From bb10fa6abedc18a0f605b46cc7a8c14eacb6a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 06/28] fix: refuse malformed records instead of crashing on
 them

---
 internal/core/base_parsers.go |  6 ++++++
 internal/core/types.go        |  6 ++++++
 internal/dump/parser.go       |  3 +++
 internal/java/heap.go         | 10 +++++++++-
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 62935e4..726310d 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,6 +45,9 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record is too short: %v", remaining)
+	}
 	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
 	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
 	if err != nil {
@@ -449,6 +452,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.IsValid() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..1b35a9a 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,12 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+// IsValid reports whether j is one of the known Java types.
+func (j JavaType) IsValid() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 6c1a053..fd61113 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -214,6 +214,9 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					if err != nil {
 						return fmt.Errorf("error parsing HprofGcPrimArrayDump: %w", err)
 					}
+					if !record.ElementType.IsValid() || record.ElementType == core.Object {
+						return fmt.Errorf("error parsing HprofGcPrimArrayDump: unexpected element type: %v", byte(record.ElementType))
+					}
 					if err := parser.bigRecordsWriteStorage.HprofGcPrimArrayDumpPutOffset(record.ArrayObjectId, parser.pos); err != nil {
 						return fmt.Errorf("indexing error: HprofGcPrimArrayDumpPutOffset: %w", err)
 					}
diff --git a/internal/java/heap.go b/internal/java/heap.go
index e696fe7..94a1638 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -126,6 +126,14 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifier]bool) (Class, error) {
+	if subclasses[classId] {
+		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+	}
+	subclasses[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -170,7 +178,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, subclasses)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From 7113caca092a3a08481c65c5bcd1921e72104751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 07/28] fix: do not crash when the dump is empty or shorter
 than its records claim

---
 internal/cmd/interactive_print.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..66708fb 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -37,7 +37,10 @@ func clearLine() {
 
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
+		progress := 100.0
+		if position := positionFn(); position < max {
+			progress = 100 * float64(position) / float64(max)
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
-- 
2.43.0


From 0acea6dab6e51eb36a21bbbb635136d32778f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 08/28] fix: do not crash when all the objects have zero size

---
 internal/output/objects.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..5954e6a 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -113,8 +113,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -123,6 +123,13 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From be30d1f3135ce391468d2aa1b4ccd925585b13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 09/28] fix: make the order of classes with the same name
 stable

---
 internal/output/objects.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 5954e6a..106bfb2 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -95,6 +95,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].InstancesCount > o.Items[j].InstancesCount
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
@@ -105,6 +108,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].TotalSize > o.Items[j].TotalSize
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
-- 
2.43.0


From 47cfd437991a9016c83ee159813d080f81935fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 10/28] fix: print local variables which are classes of arrays

---
 internal/output/threads.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..7b55deb 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -55,6 +55,10 @@ func createPrettyFrame(frame threads.StackFrame) string {
 
 func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	signature := localFrame.ObjectTypeSignature
+	if arrayClass := strings.TrimPrefix(signature, "class "); arrayClass != signature && strings.HasPrefix(arrayClass, "[") {
+		arg, _ := format.Signature(arrayClass)
+		return "class " + arg
+	}
 	if !strings.HasPrefix(signature, "[") { // it's object
 		signature = "L" + signature + ";"
 	}
-- 
2.43.0


From 427ea6748671a5bc443e0940685b3f7055b4d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 11/28] fix: keep parentheses that are part of class name

---
 internal/format/format.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 8f1dba7..b443575 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -36,10 +36,14 @@ func Signature(signature string) (string, string) {
 	for _, s := range signature {
 		switch s {
 		case '(':
-			continue
+			if !inClassName {
+				continue
+			}
 		case ')':
-			activeLen = new(int)
-			continue
+			if !inClassName {
+				activeLen = new(int)
+				continue
+			}
 		case '[':
 			dimCount++
 			continue
-- 
2.43.0


From a3ddd1a70caad3401b8d794b5481fa4d9b3fdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 12/28] fix: thread without status bits is NEW

---
 internal/threads/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/threads/models.go b/internal/threads/models.go
index 7e3f3a1..4043050 100644
--- a/internal/threads/models.go
+++ b/internal/threads/models.go
@@ -61,6 +61,6 @@ func (ts ThreadStatus) String() string {
 	} else if ts&ThreadStateAlive != 0 {
 		return "NEW"
 	} else {
-		return "RUNNABLE"
+		return "NEW"
 	}
 }
-- 
2.43.0


From 65a4ab450e93fe4c1a15afd1cd45698a5ec7bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 13/28] fix: read thread attributes from the fields of
 java.lang.Thread, not from the fields hiding them in subclasses

---
 internal/java/heap.go       | 24 ++++++++++++++++++++++++
 internal/threads/threads.go | 14 +++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 94a1638..a9e3752 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -195,6 +195,17 @@ func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifie
 // GetFieldValueByName extracts instance field value by name of the field as
 // well as name of the class that actually defines requested field.
 func (o *NormalObject) GetFieldValueByName(name string) (FieldValue, error) {
+	return o.getFieldValue(name, func(class *Class) bool { return true })
+}
+
+// GetFieldValueOfClass is the same as GetFieldValueByName but extracts the
+// field declared by the given class, even if it's hidden by the field with
+// the same name of some subclass.
+func (o *NormalObject) GetFieldValueOfClass(className, name string) (FieldValue, error) {
+	return o.getFieldValue(name, func(class *Class) bool { return class.Name == className })
+}
+
+func (o *NormalObject) getFieldValue(name string, declaredBy func(class *Class) bool) (FieldValue, error) {
 	reader := bytes.NewReader(o.Bytes)
 	primitiveParser := core.NewPrimitiveParser(reader, o.identifierSize)
 	var ty core.JavaType
@@ -205,6 +216,10 @@ func (o *NormalObject) GetFieldValueByName(name string) (FieldValue, error) {
 	for class != nil {
 		origin = class.Name
 		found, typ, length := findField(name, class.InstanceFields, o.identifierSize)
+		if found && !declaredBy(class) {
+			found = false
+			length = sizeOfFields(class.InstanceFields, o.identifierSize)
+		}
 		offset += length
 		if found {
 			nameFound = true
@@ -248,6 +263,15 @@ func findField(name string, fields []InstanceField, idSize uint32) (found bool,
 	return
 }
 
+func sizeOfFields(fields []InstanceField, idSize uint32) int {
+	var size = core.NewSizeInfo(idSize)
+	var total int
+	for _, field := range fields {
+		total += size.OfType(field.Type)
+	}
+	return total
+}
+
 // ParseObjectArrayFull reads the whole object array and
 // returns slice with ObjectArray structs
 func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray, error) {
diff --git a/internal/threads/threads.go b/internal/threads/threads.go
index 0cd6656..270d648 100644
--- a/internal/threads/threads.go
+++ b/internal/threads/threads.go
@@ -25,6 +25,10 @@ import (
 	"github.com/danielleontiev/neojhat/internal/java"
 )
 
+const (
+	javaLangThreadClassName = "java/lang/Thread"
+)
+
 var (
 	UnknownString = "<unknown string>"
 )
@@ -111,7 +115,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadName, err := threadInstance.GetFieldValueByName("name")
+		threadName, err := threadInstance.GetFieldValueOfClass(javaLangThreadClassName, "name")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -119,7 +123,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		daemon, err := threadInstance.GetFieldValueByName("daemon")
+		daemon, err := threadInstance.GetFieldValueOfClass(javaLangThreadClassName, "daemon")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -127,7 +131,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		priority, err := threadInstance.GetFieldValueByName("priority")
+		priority, err := threadInstance.GetFieldValueOfClass(javaLangThreadClassName, "priority")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -135,7 +139,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadId, err := threadInstance.GetFieldValueByName("tid")
+		threadId, err := threadInstance.GetFieldValueOfClass(javaLangThreadClassName, "tid")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -143,7 +147,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadStatus, err := threadInstance.GetFieldValueByName("threadStatus")
+		threadStatus, err := threadInstance.GetFieldValueOfClass(javaLangThreadClassName, "threadStatus")
 		if err != nil {
 			return ThreadDump{}, err
 		}
-- 
2.43.0


From ad222c0fb58fee42337fc99bdc2cae7bc8d5f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 14/28] fix: collect all system properties, not only the heads
 of hash table bins

---
 internal/summary/summary.go | 109 +++++++++++++++++++++++++++++-------
 1 file changed, 89 insertions(+), 20 deletions(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index 579648c..a29b21d 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -16,6 +16,11 @@ import (
 const (
 	javaLangSystemClassName          = "java/lang/System"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
+	javaUtilPropertiesClassName      = "java/util/Properties"
+	javaLangStringClassName          = "java/lang/String"
+	treeBinClassName                 = "java/util/concurrent/ConcurrentHashMap$TreeBin"
+	forwardingNodeClassName          = "java/util/concurrent/ConcurrentHashMap$ForwardingNode"
+	reservationNodeClassName         = "java/util/concurrent/ConcurrentHashMap$ReservationNode"
 )
 
 type Properties = map[string]string
@@ -111,7 +116,7 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	if err != nil {
 		return nil, err
 	}
-	propsMapField, err := props.GetFieldValueByName("map")
+	propsMapField, err := props.GetFieldValueOfClass(javaUtilPropertiesClassName, "map")
 	if err != nil {
 		return nil, err
 	}
@@ -131,37 +136,101 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	if err != nil {
 		return nil, err
 	}
+	resultProps := make(map[string]string)
+	if err := collectProps(heap, tableId, resultProps, make(map[core.Identifier]bool)); err != nil {
+		return nil, err
+	}
+	return Properties(resultProps), nil
+}
+
+// collectProps puts to the result all the pairs of strings stored in the table
+// of ConcurrentHashMap. Elements of the table are the heads of linked lists of
+// nodes. The list could be wrapped into TreeBin or moved to another table when
+// the map is being resized.
+func collectProps(heap *java.Heap, tableId core.Identifier, result map[string]string, visited map[core.Identifier]bool) error {
+	if tableId == 0 || visited[tableId] {
+		return nil
+	}
+	visited[tableId] = true
 	table, err := heap.ParseObjectArrayFull(tableId)
 	if err != nil {
-		return nil, err
+		return err
 	}
-	resultProps := make(map[string]string)
 	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+		for nodeObjectId != 0 && !visited[nodeObjectId] {
+			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
-				return nil, err
-			}
-			key, err := node.GetFieldValueByName("key")
-			if err != nil {
-				return nil, err
-			}
-			val, err := node.GetFieldValueByName("val")
-			if err != nil {
-				return nil, err
+				return err
 			}
-			keyString, err := heap.ParseJavaString(key.Value)
-			if err != nil {
-				return nil, err
+			nextField := "next"
+			switch node.Class.Name {
+			case treeBinClassName:
+				nextField = "first"
+			case forwardingNodeClassName:
+				nextTableId, err := getReference(node, "nextTable")
+				if err != nil {
+					return err
+				}
+				if err := collectProps(heap, nextTableId, result, visited); err != nil {
+					return err
+				}
+			case reservationNodeClassName:
+			default:
+				if err := collectProp(heap, node, result); err != nil {
+					return err
+				}
 			}
-			valString, err := heap.ParseJavaString(val.Value)
+			nodeObjectId, err = getReference(node, nextField)
 			if err != nil {
-				return nil, err
+				return err
 			}
-			resultProps[keyString] = valString
 		}
 	}
-	return Properties(resultProps), nil
+	return nil
+}
+
+// collectProp puts key and value of the node to the result. Similarly to
+// java.util.Properties.stringPropertyNames(), non-string ones are omitted.
+func collectProp(heap *java.Heap, node java.NormalObject, result map[string]string) error {
+	key, err := node.GetFieldValueByName("key")
+	if err != nil {
+		return err
+	}
+	val, err := node.GetFieldValueByName("val")
+	if err != nil {
+		return err
+	}
+	if !isString(heap, key.Value) || !isString(heap, val.Value) {
+		return nil
+	}
+	keyString, err := heap.ParseJavaString(key.Value)
+	if err != nil {
+		return err
+	}
+	valString, err := heap.ParseJavaString(val.Value)
+	if err != nil {
+		return err
+	}
+	result[keyString] = valString
+	return nil
+}
+
+func isString(heap *java.Heap, value core.JavaValue) bool {
+	id, err := value.ToObject()
+	if err != nil {
+		return false
+	}
+	object, err := heap.ParseNormalObject(id)
+	return err == nil && object.Class.Name == javaLangStringClassName
+}
+
+func getReference(object java.NormalObject, field string) (core.Identifier, error) {
+	value, err := object.GetFieldValueByName(field)
+	if err != nil {
+		return 0, err
+	}
+	return value.Value.ToObject()
 }
 
 func getEnv(props Properties) EnvProperties {
-- 
2.43.0


From 2fcc612a882065d17f71101274127001a7c4c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 15/28] fix: report the summary of JVM whose management classes
 are not loaded

---
 internal/summary/summary.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index a29b21d..749ad75 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -4,6 +4,7 @@
 package summary
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 	"time"
@@ -23,6 +24,15 @@ const (
 	reservationNodeClassName         = "java/util/concurrent/ConcurrentHashMap$ReservationNode"
 )
 
+// unknownUptime is reported when the dump does not contain the time of JVM
+// startup, i.e. JMX management of the JVM was not used before taking the dump.
+const unknownUptime = "unknown"
+
+var (
+	errClassNotFound        = errors.New("class not found")
+	errStartTimeNotRecorded = errors.New("startup time of JVM is not recorded")
+)
+
 type Properties = map[string]string
 type Kv struct {
 	Key string
@@ -293,6 +303,9 @@ func getHeap(parsedAccessor *dump.ParsedAccessor) (HeapProperties, error) {
 
 func getSystem(parsedAccessor *dump.ParsedAccessor) (SystemProperties, error) {
 	jvmStartupTime, err := getJvmStartTime(parsedAccessor)
+	if errors.Is(err, errStartTimeNotRecorded) {
+		return SystemProperties{JvmUptime: unknownUptime}, nil
+	}
 	if err != nil {
 		return SystemProperties{}, err
 	}
@@ -304,6 +317,9 @@ func getSystem(parsedAccessor *dump.ParsedAccessor) (SystemProperties, error) {
 
 func getJvmStartTime(parsedAccessor *dump.ParsedAccessor) (time.Time, error) {
 	jmxFactoryHelper, err := getClassByName(parsedAccessor, managementFactoryHelperClassName)
+	if errors.Is(err, errClassNotFound) {
+		return time.Time{}, errStartTimeNotRecorded
+	}
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -318,6 +334,9 @@ func getJvmStartTime(parsedAccessor *dump.ParsedAccessor) (time.Time, error) {
 			break
 		}
 	}
+	if runtimeMBean == 0 {
+		return time.Time{}, errStartTimeNotRecorded
+	}
 	heap := java.NewHeap(parsedAccessor)
 	instance, err := heap.ParseNormalObject(runtimeMBean)
 	if err != nil {
@@ -348,6 +367,9 @@ func getClassByName(parsedAccessor *dump.ParsedAccessor, className string) (java
 			break
 		}
 	}
+	if _, err := parsedAccessor.GetHprofGcClassDump(targetLoadClass.ClassObjectId); err != nil {
+		return java.Class{}, fmt.Errorf("%w: %v", errClassNotFound, className)
+	}
 	class, err := heap.ParseClass(targetLoadClass.ClassObjectId)
 	return class, err
 }
-- 
2.43.0


From 152feb3956c5e104d4890ce0a412102e29331131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 16/28] fix: make index creation atomic and bound to the
 version of the dump it was created for

---
 internal/cmd/subcommands.go | 82 ++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..52fd528 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -23,6 +24,7 @@ const (
 	primArrayDumpIndexFileName = "prim-array-dump.idx.bin"
 	smallRecordsFileName       = "small-records.bin"
 	metaFileName               = "meta.bin"
+	sourceFileName             = "source.txt"
 )
 
 func GetThreads(hprofFileName string, noColor, localVars bool, outputType OutputType) error {
@@ -182,28 +184,39 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
-		return fmt.Errorf("can't create index: %w", err)
-	}
-
 	stat, err := hprof.Stat()
 	if err != nil {
 		return fmt.Errorf("can't get file stats: %w", err)
 	}
 
+	// The index is reused only if it was completed for exactly this version of
+	// the dump. To guarantee that, files of the index are created aside and then
+	// moved to their places, the file describing the dump is the last one.
+	storageDir := hprofFileName + storageDirSuffix
+	source := fmt.Sprintf("%d %d\n", stat.Size(), stat.ModTime().UnixNano())
+	if indexed, err := os.ReadFile(storageDir + sourceFileName); err == nil && string(indexed) == source {
+		return nil
+	}
+	if err := os.MkdirAll(storageDir, os.ModePerm); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	stageDir, err := os.MkdirTemp(storageDir, "incomplete-")
+	if err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	defer os.RemoveAll(stageDir)
+	stageDir += "/"
+
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := createFile(stageDir + instanceDumpIndexFileName)
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	objArrayDumpIndexFile, err := createFile(stageDir + objArrayDumpIndexFileName)
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	primArrayDumpIndexFile, err := createFile(stageDir + primArrayDumpIndexFileName)
 	if err != nil {
 		return err
 	}
@@ -216,23 +229,52 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	cancel()
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
-	if err != nil {
+	if err := writeFile(stageDir+smallRecordsFileName, smallWriter.SerializeTo); err != nil {
+		return fmt.Errorf("can't close small writer: %w", err)
+	}
+	if err := writeFile(stageDir+metaFileName, metaWriter.SerializeTo); err != nil {
+		return fmt.Errorf("can't close meta writer: %w", err)
+	}
+	writeSource := func(destination io.Writer) error {
+		_, err := io.WriteString(destination, source)
 		return err
 	}
-	defer smallRecordsFile.Close()
-	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
-		return fmt.Errorf("can't close small writer: %w", err)
+	if err := writeFile(stageDir+sourceFileName, writeSource); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+
+	if err := os.Remove(storageDir + sourceFileName); err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("can't replace index: %w", err)
+	}
+	for _, fileName := range []string{
+		instanceDumpIndexFileName,
+		objArrayDumpIndexFileName,
+		primArrayDumpIndexFileName,
+		smallRecordsFileName,
+		metaFileName,
+		sourceFileName,
+	} {
+		if err := os.Rename(stageDir+fileName, storageDir+fileName); err != nil {
+			return fmt.Errorf("can't create index: %w", err)
+		}
+	}
+	return nil
+}
+
+func createFile(fileName string) (*os.File, error) {
+	return os.OpenFile(fileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+}
+
+func writeFile(fileName string, write func(destination io.Writer) error) error {
+	file, err := createFile(fileName)
 	if err != nil {
 		return err
 	}
-	defer metaFile.Close()
-	if err := metaWriter.SerializeTo(metaFile); err != nil {
-		return fmt.Errorf("can't close meta writer: %w", err)
+	if err := write(file); err != nil {
+		file.Close()
+		return err
 	}
-	return nil
+	return file.Close()
 }
 
 func createBigReader(hprofFileName string) (*storage.BigRecordsReadStorage, error) {
-- 
2.43.0


From 2a56cb0108a36781dee4b8e0915e4a39665221ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 17/28] fix: a failed read must not drop a system property from
 summary

---
 internal/storage/index.go   |  6 +++++-
 internal/summary/summary.go | 21 ++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/internal/storage/index.go b/internal/storage/index.go
index 97ac808..06b33eb 100644
--- a/internal/storage/index.go
+++ b/internal/storage/index.go
@@ -31,6 +31,7 @@ package storage
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 )
@@ -41,6 +42,9 @@ const (
 	DefaultBatchSize BatchSize = 1_000_000 // Means the size of 1 batch by default if 16 Mb
 )
 
+// ErrNotFound is returned when there is no requested key in the index.
+var ErrNotFound = errors.New("not found")
+
 type IndexRecordsWriteCloser interface {
 	io.WriteCloser
 }
@@ -176,7 +180,7 @@ func (r *IndexRecordsReadStorage) Get(key uint64) (uint64, error) {
 			right = mid - 1
 		}
 	}
-	return 0, fmt.Errorf("key %v not found", key)
+	return 0, fmt.Errorf("key %v: %w", key, ErrNotFound)
 }
 
 // Close closes the underlying file.
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index 749ad75..188b7ab 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -12,6 +12,7 @@ import (
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/java"
+	"github.com/danielleontiev/neojhat/internal/storage"
 )
 
 const (
@@ -211,8 +212,10 @@ func collectProp(heap *java.Heap, node java.NormalObject, result map[string]stri
 	if err != nil {
 		return err
 	}
-	if !isString(heap, key.Value) || !isString(heap, val.Value) {
-		return nil
+	for _, value := range []core.JavaValue{key.Value, val.Value} {
+		if ok, err := isString(heap, value); err != nil || !ok {
+			return err
+		}
 	}
 	keyString, err := heap.ParseJavaString(key.Value)
 	if err != nil {
@@ -226,13 +229,21 @@ func collectProp(heap *java.Heap, node java.NormalObject, result map[string]stri
 	return nil
 }
 
-func isString(heap *java.Heap, value core.JavaValue) bool {
+// isString tells whether the value is a reference to java.lang.String. Arrays
+// and classes are not stored among instances so they are not strings.
+func isString(heap *java.Heap, value core.JavaValue) (bool, error) {
 	id, err := value.ToObject()
 	if err != nil {
-		return false
+		return false, err
 	}
 	object, err := heap.ParseNormalObject(id)
-	return err == nil && object.Class.Name == javaLangStringClassName
+	if errors.Is(err, storage.ErrNotFound) {
+		return false, nil
+	}
+	if err != nil {
+		return false, err
+	}
+	return object.Class.Name == javaLangStringClassName, nil
 }
 
 func getReference(object java.NormalObject, field string) (core.Identifier, error) {
-- 
2.43.0


From 4188a3e956e998752c799bc8a4034e6d88acdbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 18/28] fix: a length in damaged dump must not make the tool
 allocate more memory than the dump has data

---
 internal/core/base_parsers.go      |  3 +--
 internal/core/primitive_parsers.go | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 726310d..76423f6 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -48,8 +48,7 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if remaining < parser.primitiveParser.identifierSize {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record is too short: %v", remaining)
 	}
-	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
-	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
+	buf, err := parser.primitiveParser.ParseByteSeq(int(remaining - parser.primitiveParser.identifierSize))
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
diff --git a/internal/core/primitive_parsers.go b/internal/core/primitive_parsers.go
index 502613b..ba349d1 100644
--- a/internal/core/primitive_parsers.go
+++ b/internal/core/primitive_parsers.go
@@ -168,10 +168,22 @@ func (parser *PrimitiveParser) ParseJavaValue(ty JavaType) (JavaValue, error) {
 	return JavaValue{}, fmt.Errorf("unexpected Java type: %v", byte(ty))
 }
 
-// ParseByteSeq reads n bytes from underlying reader
+// byteSeqChunk limits the memory ParseByteSeq allocates ahead of the data it has read
+const byteSeqChunk = 1 << 20
+
+// ParseByteSeq reads n bytes from underlying reader. The result grows along with the data
+// because n might come from damaged file and exceed the amount of data (and memory) available.
 func (parser *PrimitiveParser) ParseByteSeq(n int) ([]byte, error) {
-	buf := make([]byte, n)
+	buf := make([]byte, min(n, byteSeqChunk))
 	_, err := io.ReadFull(parser.heapDump, buf)
+	for err == nil && len(buf) < n {
+		read := len(buf)
+		buf = append(buf, make([]byte, min(n-read, byteSeqChunk))...)
+		_, err = io.ReadFull(parser.heapDump, buf[read:])
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}
 	if err != nil {
 		return nil, fmt.Errorf("error in ParseByteSeq: %w", err)
 	}
-- 
2.43.0


From cd339b95867d297e32b10fb26eca8d46b4d6d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 19/28] fix: report failures of writing the report

---
 internal/cmd/subcommands.go | 18 ++++++------------
 internal/output/objects.go  | 12 ++++++++----
 internal/output/output.go   | 18 ++++++++++++++++++
 internal/output/summary.go  | 12 ++++++++----
 internal/output/threads.go  | 18 ++++++++++++------
 5 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 52fd528..150e875 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -65,11 +65,9 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ThreadsPlain(threadDump, localVars, os.Stdout)
-			return nil
+			return output.ThreadsPlain(threadDump, localVars, os.Stdout)
 		}
-		output.ThreadsPlainColor(threadDump, localVars)
-		return nil
+		return output.ThreadsPlainColor(threadDump, localVars)
 	}
 	if outputType == Html {
 		return output.ThreadsHtml(threadDump, localVars, os.Stdout)
@@ -115,11 +113,9 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	}
 	if outputType == Plain {
 		if noColor {
-			output.SummaryPlain(s, os.Stdout)
-			return nil
+			return output.SummaryPlain(s, os.Stdout)
 		}
-		output.SummaryPlainColor(s)
-		return nil
+		return output.SummaryPlainColor(s)
 	}
 	if outputType == Html {
 		return output.SummaryHtml(s, os.Stdout)
@@ -165,11 +161,9 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ObjectsPlain(obj, os.Stdout)
-			return nil
+			return output.ObjectsPlain(obj, os.Stdout)
 		}
-		output.ObjectsPlainColor(obj)
-		return nil
+		return output.ObjectsPlainColor(obj)
 	}
 	if outputType == Html {
 		return output.ObjectsHtml(obj, os.Stdout)
diff --git a/internal/output/objects.go b/internal/output/objects.go
index 106bfb2..b723304 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -32,15 +32,19 @@ type printItem struct {
 
 // ObjectsPlain print the result of objects command
 // without colors
-func ObjectsPlain(o objects.Objects, destination io.Writer) {
+func ObjectsPlain(o objects.Objects, destination io.Writer) error {
 	id := func(s string) string { return s }
-	print(o, id, id, id, id, destination)
+	out := &checkedWriter{destination: destination}
+	print(o, id, id, id, id, out)
+	return out.err
 }
 
 // ObjectsPlainColor is the same as ObjectsPlain but
 // with colorful output
-func ObjectsPlainColor(o objects.Objects) {
-	print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
+func ObjectsPlainColor(o objects.Objects) error {
+	out := &checkedWriter{destination: os.Stdout}
+	print(o, Bold, Cyan, Yellow, Blue, out)
+	return out.err
 }
 
 func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) {
diff --git a/internal/output/output.go b/internal/output/output.go
index 0036b26..3132109 100644
--- a/internal/output/output.go
+++ b/internal/output/output.go
@@ -1,3 +1,21 @@
 // output package contains routines to generate nice
 // plain-text and HTML output for all supported commands in neojhat
 package output
+
+import "io"
+
+// checkedWriter remembers the first failure of writing
+// to the destination
+type checkedWriter struct {
+	destination io.Writer
+	err         error
+}
+
+func (w *checkedWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.destination.Write(p)
+	w.err = err
+	return n, err
+}
diff --git a/internal/output/summary.go b/internal/output/summary.go
index 90eb8e3..c813cc5 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -16,15 +16,19 @@ import (
 
 // SummaryPlain prints given Properties
 // in beautiful manner
-func SummaryPlain(s summary.Summary, destination io.Writer) {
+func SummaryPlain(s summary.Summary, destination io.Writer) error {
 	identity := func(s string) string { return s }
-	printSummary(s, identity, identity, identity, destination)
+	out := &checkedWriter{destination: destination}
+	printSummary(s, identity, identity, identity, out)
+	return out.err
 }
 
 // SummaryPlainColor prints given Properties
 // in beautiful manner with colors
-func SummaryPlainColor(s summary.Summary) {
-	printSummary(s, Blue, Bold, Cyan, os.Stdout)
+func SummaryPlainColor(s summary.Summary) error {
+	out := &checkedWriter{destination: os.Stdout}
+	printSummary(s, Blue, Bold, Cyan, out)
+	return out.err
 }
 
 func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index 7b55deb..e9e3e10 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"html/template"
 	"io"
+	"os"
 	"sort"
 	"strings"
 
@@ -16,7 +17,9 @@ import (
 
 // ThreadsPlain prints given thread dump
 // in beautiful manner
-func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) {
+func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) error {
+	out := &checkedWriter{destination: destination}
+	destination = out
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
 		fmt.Fprintln(destination, createPrettyThread(stackTrace))
@@ -30,6 +33,7 @@ func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.
 		}
 		fmt.Fprintln(destination)
 	}
+	return out.err
 }
 
 func createPrettyThread(stackTrace threads.StackTrace) string {
@@ -89,21 +93,23 @@ func getSortedStackTraces(threadDump threads.ThreadDump) []threads.StackTrace {
 
 // ThreadsPlainColor prints given thread dump
 // in beautiful manner with ANSI colors
-func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
+func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) error {
+	out := &checkedWriter{destination: os.Stdout}
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Println(Bold(createPrettyThread(stackTrace)))
+		fmt.Fprintln(out, Bold(createPrettyThread(stackTrace)))
 		for _, frame := range stackTrace.Frames {
-			fmt.Printf("	%s\n", createPrettyColorfulFrame(frame))
+			fmt.Fprintf(out, "	%s\n", createPrettyColorfulFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
 					localString := createPrettyStackVariable(local)
-					fmt.Printf("		local %s\n", Blue(localString))
+					fmt.Fprintf(out, "		local %s\n", Blue(localString))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
 	}
+	return out.err
 }
 
 func createPrettyColorfulFrame(frame threads.StackFrame) string {
-- 
2.43.0


From 28d0de1216c14926ee804d382973ddc631685ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 20/28] fix: refuse a damaged index instead of crashing on
 types it has

---
 internal/storage/meta.go  | 10 ++++++++++
 internal/storage/small.go | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/internal/storage/meta.go b/internal/storage/meta.go
index 87cd9a8..34303ee 100644
--- a/internal/storage/meta.go
+++ b/internal/storage/meta.go
@@ -65,6 +65,16 @@ func (s *MetaReadStorage) RestoreFrom(source io.Reader) error {
 	if err := decoder.Decode(&underlyingMetaStorage); err != nil {
 		return fmt.Errorf("cannot deserialize: %w", err)
 	}
+	for elementType := range underlyingMetaStorage.Counters.PrimArraysCount {
+		if err := checkType(elementType); err != nil {
+			return fmt.Errorf("cannot deserialize: %w", err)
+		}
+	}
+	for elementType := range underlyingMetaStorage.Counters.PrimArrayElementsCount {
+		if err := checkType(elementType); err != nil {
+			return fmt.Errorf("cannot deserialize: %w", err)
+		}
+	}
 	s.MetaStorage = underlyingMetaStorage
 	return nil
 }
diff --git a/internal/storage/small.go b/internal/storage/small.go
index fe4b0dc..ef95e4f 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -57,10 +57,25 @@ func (s *SmallRecordsReadStorage) RestoreFrom(source io.Reader) error {
 	if err := decoder.Decode(&underlyingStorage); err != nil {
 		return fmt.Errorf("cannot deserialize: %w", err)
 	}
+	for _, class := range underlyingStorage.HprofGcClassDump {
+		for _, field := range class.InstanceFieldRecords {
+			if err := checkType(field.Ty); err != nil {
+				return fmt.Errorf("cannot deserialize: %w", err)
+			}
+		}
+	}
 	s.underlyingStorage = underlyingStorage
 	return nil
 }
 
+// checkType is for restored types, their sizes are needed later.
+func checkType(javaType core.JavaType) error {
+	if !javaType.IsValid() {
+		return fmt.Errorf("unknown type: %d", javaType)
+	}
+	return nil
+}
+
 type SmallRecordsReadStorage struct {
 	underlyingStorage
 }
-- 
2.43.0


From f5f4b204d43aa5b495e9a398d24d6b6ce5949e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 21/28] fix: build class names of a descriptor without
 quadratic copying

---
 internal/format/format.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index b443575..171e43e 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -28,7 +28,7 @@ func Size(bytes int) string {
 func Signature(signature string) (string, string) {
 	var inClassName bool
 	var dimCount int
-	var classNameBuffer string
+	var classNameBuffer strings.Builder
 	var result []string
 
 	var argLen int
@@ -54,17 +54,17 @@ func Signature(signature string) (string, string) {
 			}
 		case ';':
 			inClassName = false
-			result = append(result, classNameBuffer+strings.Repeat("[]", dimCount))
+			result = append(result, classNameBuffer.String()+strings.Repeat("[]", dimCount))
 			*activeLen++
-			classNameBuffer = ""
+			classNameBuffer.Reset()
 			dimCount = 0
 			continue
 		}
 		if inClassName {
 			if s == '/' {
-				classNameBuffer += "."
+				classNameBuffer.WriteByte('.')
 			} else {
-				classNameBuffer += string(s)
+				classNameBuffer.WriteRune(s)
 			}
 
 		} else {
-- 
2.43.0


From 429d63656dd713947336cc119477909248ef4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 22/28] fix: align values of the summary when keys are not
 ASCII

---
 internal/output/summary.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/output/summary.go b/internal/output/summary.go
index c813cc5..a2d7615 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/danielleontiev/neojhat/internal/format"
 	"github.com/danielleontiev/neojhat/internal/summary"
@@ -79,7 +80,7 @@ func printProperties(properties []summary.Kv, maxKeyLen int, keyColor, valColor
 	const spaceCount = 10
 	for _, kv := range properties {
 		v := strings.TrimSpace(kv.Val)
-		spaceSize := maxKeyLen + spaceCount - len(kv.Key)
+		spaceSize := maxKeyLen + spaceCount - utf8.RuneCountInString(kv.Key)
 		s := keyColor(kv.Key) + ":" + strings.Repeat(" ", spaceSize) + valColor(v) + "\n"
 		fmt.Fprint(destination, s)
 	}
@@ -94,7 +95,7 @@ func maxKeyLength(props []Properties) int {
 	}
 	var maxKeyLen int
 	for _, kv := range properties {
-		l := len(kv.Key)
+		l := utf8.RuneCountInString(kv.Key)
 		if l > maxKeyLen {
 			maxKeyLen = l
 		}
-- 
2.43.0


From 73be88852d96403e2c051673c5b83bfbcfea1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 23/28] fix: look up loaded classes without scanning all of
 them

---
 internal/storage/small.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/storage/small.go b/internal/storage/small.go
index ef95e4f..41a3f19 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -65,6 +65,14 @@ func (s *SmallRecordsReadStorage) RestoreFrom(source io.Reader) error {
 		}
 	}
 	s.underlyingStorage = underlyingStorage
+	s.loadClassById = make(map[core.Identifier]core.HprofLoadClass)
+	s.loadClassBySerial = make(map[uint32]core.HprofLoadClass)
+	// the first of the records with the same key wins
+	for i := len(s.HprofLoadClass) - 1; i >= 0; i-- {
+		record := s.HprofLoadClass[i]
+		s.loadClassById[record.ClassObjectId] = record
+		s.loadClassBySerial[record.ClassSerialNumber] = record
+	}
 	return nil
 }
 
@@ -78,6 +86,8 @@ func checkType(javaType core.JavaType) error {
 
 type SmallRecordsReadStorage struct {
 	underlyingStorage
+	loadClassById     map[core.Identifier]core.HprofLoadClass
+	loadClassBySerial map[uint32]core.HprofLoadClass
 }
 
 func NewSmallRecordsReadStorage() *SmallRecordsReadStorage {
@@ -145,21 +155,19 @@ func (s *SmallRecordsReadStorage) GetHprofUtf8(nameId core.Identifier) (core.Hpr
 }
 
 func (s *SmallRecordsReadStorage) GetHprofLoadClassByClassObjectId(classObjectId core.Identifier) (core.HprofLoadClass, error) {
-	for _, rec := range s.HprofLoadClass {
-		if rec.ClassObjectId == classObjectId {
-			return rec, nil
-		}
+	res, ok := s.loadClassById[classObjectId]
+	if !ok {
+		return core.HprofLoadClass{}, fmt.Errorf("Cannot find HprofLoadClass record with classObjectId = %v", classObjectId)
 	}
-	return core.HprofLoadClass{}, fmt.Errorf("Cannot find HprofLoadClass record with classObjectId = %v", classObjectId)
+	return res, nil
 }
 
 func (s *SmallRecordsReadStorage) GetHprofLoadClassByClassSerialNumer(classSerialNumber uint32) (core.HprofLoadClass, error) {
-	for _, rec := range s.HprofLoadClass {
-		if rec.ClassSerialNumber == classSerialNumber {
-			return rec, nil
-		}
+	res, ok := s.loadClassBySerial[classSerialNumber]
+	if !ok {
+		return core.HprofLoadClass{}, fmt.Errorf("Cannot find HprofLoadClass record with classSerialNumber = %v", classSerialNumber)
 	}
-	return core.HprofLoadClass{}, fmt.Errorf("Cannot find HprofLoadClass record with classSerialNumber = %v", classSerialNumber)
+	return res, nil
 }
 
 func (s *SmallRecordsReadStorage) ListHprofLoadClass() []core.HprofLoadClass {
-- 
2.43.0


From f73160ffa591bcc5c5091a5ec5eed622df58c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 24/28] fix: parse superclasses without recursion

---
 internal/java/heap.go | 52 ++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index a9e3752..361d4db 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -126,31 +126,46 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
-	return h.parseClass(classId, make(map[core.Identifier]bool))
+	result, superclassId, err := h.parseClass(classId)
+	if err != nil {
+		return Class{}, err
+	}
+	subclasses := map[core.Identifier]bool{classId: true}
+	// java.lang.Object has superclass id = 0
+	for class := &result; superclassId != 0; class = class.Superclass {
+		if subclasses[superclassId] {
+			return Class{}, fmt.Errorf("class with id %v is its own superclass", superclassId)
+		}
+		subclasses[superclassId] = true
+		var superclass Class
+		superclass, superclassId, err = h.parseClass(superclassId)
+		if err != nil {
+			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
+		}
+		class.Superclass = &superclass
+	}
+	return result, nil
 }
 
-func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifier]bool) (Class, error) {
-	if subclasses[classId] {
-		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
-	}
-	subclasses[classId] = true
+// parseClass parses the class alone and returns identifier of its superclass.
+func (h *Heap) parseClass(classId core.Identifier) (Class, core.Identifier, error) {
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading class with id %v", classId)
+		return Class{}, 0, fmt.Errorf("error reading class with id %v", classId)
 	}
 	loadClass, err := h.parsedAccessor.GetHprofLoadClassByClassObjectId(class.ClassObjectId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading HprofLoadClass by id %v: %w", class.ClassObjectId, err)
+		return Class{}, 0, fmt.Errorf("error reading HprofLoadClass by id %v: %w", class.ClassObjectId, err)
 	}
 	className, err := h.parsedAccessor.GetHprofUtf8(loadClass.ClassNameId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading class name: %w", err)
+		return Class{}, 0, fmt.Errorf("error reading class name: %w", err)
 	}
 	var staticFields []StaticField
 	for _, sf := range class.StaticFieldRecords {
 		staticFieldName, err := h.parsedAccessor.GetHprofUtf8(sf.StaticFieldName)
 		if err != nil {
-			return Class{}, fmt.Errorf("error reading field name with id %v: %w", sf.StaticFieldName, err)
+			return Class{}, 0, fmt.Errorf("error reading field name with id %v: %w", sf.StaticFieldName, err)
 		}
 		staticField := StaticField{
 			Name:  staticFieldName.Characters,
@@ -163,7 +178,7 @@ func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifie
 	for _, ins := range class.InstanceFieldRecords {
 		instanceFieldName, err := h.parsedAccessor.GetHprofUtf8(ins.InstanceFieldName)
 		if err != nil {
-			return Class{}, fmt.Errorf("error reading field name with id %v: %w", ins.InstanceFieldName, err)
+			return Class{}, 0, fmt.Errorf("error reading field name with id %v: %w", ins.InstanceFieldName, err)
 		}
 		instanceField := InstanceField{
 			Name: instanceFieldName.Characters,
@@ -172,24 +187,11 @@ func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifie
 		instanceFields = append(instanceFields, instanceField)
 	}
 
-	var superClass *Class
-	// java.lang.Object has superclass id = 0
-	if class.SuperclassObjectId == 0 {
-		superClass = nil
-	} else {
-		// TODO not stack safe, fix
-		sc, err := h.parseClass(class.SuperclassObjectId, subclasses)
-		if err != nil {
-			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
-		}
-		superClass = &sc
-	}
 	return Class{
 		Name:           className.Characters,
-		Superclass:     superClass,
 		StaticFields:   staticFields,
 		InstanceFields: instanceFields,
-	}, nil
+	}, class.SuperclassObjectId, nil
 }
 
 // GetFieldValueByName extracts instance field value by name of the field as
-- 
2.43.0


From 8b0c35f8ff67b7da1b6532466d5a58587be45ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 25/28] fix: read moved tables of properties without recursion

---
 internal/summary/summary.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index 188b7ab..b4ed1d1 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -148,8 +148,13 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 		return nil, err
 	}
 	resultProps := make(map[string]string)
-	if err := collectProps(heap, tableId, resultProps, make(map[core.Identifier]bool)); err != nil {
-		return nil, err
+	visited := make(map[core.Identifier]bool)
+	for tables := []core.Identifier{tableId}; len(tables) > 0; tables = tables[1:] {
+		moved, err := collectProps(heap, tables[0], resultProps, visited)
+		if err != nil {
+			return nil, err
+		}
+		tables = append(tables, moved...)
 	}
 	return Properties(resultProps), nil
 }
@@ -157,22 +162,23 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 // collectProps puts to the result all the pairs of strings stored in the table
 // of ConcurrentHashMap. Elements of the table are the heads of linked lists of
 // nodes. The list could be wrapped into TreeBin or moved to another table when
-// the map is being resized.
-func collectProps(heap *java.Heap, tableId core.Identifier, result map[string]string, visited map[core.Identifier]bool) error {
+// the map is being resized, such tables are returned.
+func collectProps(heap *java.Heap, tableId core.Identifier, result map[string]string, visited map[core.Identifier]bool) ([]core.Identifier, error) {
 	if tableId == 0 || visited[tableId] {
-		return nil
+		return nil, nil
 	}
 	visited[tableId] = true
 	table, err := heap.ParseObjectArrayFull(tableId)
 	if err != nil {
-		return err
+		return nil, err
 	}
+	var moved []core.Identifier
 	for _, nodeObjectId := range table.Elements {
 		for nodeObjectId != 0 && !visited[nodeObjectId] {
 			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
-				return err
+				return nil, err
 			}
 			nextField := "next"
 			switch node.Class.Name {
@@ -181,24 +187,22 @@ func collectProps(heap *java.Heap, tableId core.Identifier, result map[string]st
 			case forwardingNodeClassName:
 				nextTableId, err := getReference(node, "nextTable")
 				if err != nil {
-					return err
-				}
-				if err := collectProps(heap, nextTableId, result, visited); err != nil {
-					return err
+					return nil, err
 				}
+				moved = append(moved, nextTableId)
 			case reservationNodeClassName:
 			default:
 				if err := collectProp(heap, node, result); err != nil {
-					return err
+					return nil, err
 				}
 			}
 			nodeObjectId, err = getReference(node, nextField)
 			if err != nil {
-				return err
+				return nil, err
 			}
 		}
 	}
-	return nil
+	return moved, nil
 }
 
 // collectProp puts key and value of the node to the result. Similarly to
-- 
2.43.0


From 5cc61bd40f85e77f79d324fd0d3dd0385687295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 26/28] fix: make the index again when its files were cut or
 replaced by ones of other sizes

---
 internal/cmd/subcommands.go | 48 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 150e875..114b6a2 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -184,12 +184,14 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 
 	// The index is reused only if it was completed for exactly this version of
-	// the dump. To guarantee that, files of the index are created aside and then
-	// moved to their places, the file describing the dump is the last one.
+	// the dump and all its files are still whole. To guarantee that, files of the
+	// index are created aside and then moved to their places, the file describing
+	// the dump and sizes of the other ones is the last one.
 	storageDir := hprofFileName + storageDirSuffix
-	source := fmt.Sprintf("%d %d\n", stat.Size(), stat.ModTime().UnixNano())
-	if indexed, err := os.ReadFile(storageDir + sourceFileName); err == nil && string(indexed) == source {
-		return nil
+	if indexed, err := os.ReadFile(storageDir + sourceFileName); err == nil {
+		if source, err := describeIndex(stat, storageDir); err == nil && string(indexed) == source {
+			return nil
+		}
 	}
 	if err := os.MkdirAll(storageDir, os.ModePerm); err != nil {
 		return fmt.Errorf("can't create index: %w", err)
@@ -229,6 +231,10 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := writeFile(stageDir+metaFileName, metaWriter.SerializeTo); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	source, err := describeIndex(stat, stageDir)
+	if err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
 	writeSource := func(destination io.Writer) error {
 		_, err := io.WriteString(destination, source)
 		return err
@@ -240,14 +246,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := os.Remove(storageDir + sourceFileName); err != nil && !os.IsNotExist(err) {
 		return fmt.Errorf("can't replace index: %w", err)
 	}
-	for _, fileName := range []string{
-		instanceDumpIndexFileName,
-		objArrayDumpIndexFileName,
-		primArrayDumpIndexFileName,
-		smallRecordsFileName,
-		metaFileName,
-		sourceFileName,
-	} {
+	for _, fileName := range append(indexFileNames, sourceFileName) {
 		if err := os.Rename(stageDir+fileName, storageDir+fileName); err != nil {
 			return fmt.Errorf("can't create index: %w", err)
 		}
@@ -255,6 +254,29 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	return nil
 }
 
+// indexFileNames are the files of the index, except the one that describes it.
+var indexFileNames = []string{
+	instanceDumpIndexFileName,
+	objArrayDumpIndexFileName,
+	primArrayDumpIndexFileName,
+	smallRecordsFileName,
+	metaFileName,
+}
+
+// describeIndex tells the version of the dump and the sizes of the files of the
+// index in the given directory.
+func describeIndex(stat os.FileInfo, dir string) (string, error) {
+	description := fmt.Sprintf("%d %d\n", stat.Size(), stat.ModTime().UnixNano())
+	for _, fileName := range indexFileNames {
+		file, err := os.Stat(dir + fileName)
+		if err != nil {
+			return "", err
+		}
+		description += fmt.Sprintf("%s %d\n", fileName, file.Size())
+	}
+	return description, nil
+}
+
 func createFile(fileName string) (*os.File, error) {
 	return os.OpenFile(fileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 }
-- 
2.43.0


From d5e9cb7f3c0ff0e7582e87d0e424e27cea784d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 27/28] fix: do not read what is not a file of the index to the
 end

---
 internal/cmd/subcommands.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 114b6a2..44c9eed 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -188,10 +188,8 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	// index are created aside and then moved to their places, the file describing
 	// the dump and sizes of the other ones is the last one.
 	storageDir := hprofFileName + storageDirSuffix
-	if indexed, err := os.ReadFile(storageDir + sourceFileName); err == nil {
-		if source, err := describeIndex(stat, storageDir); err == nil && string(indexed) == source {
-			return nil
-		}
+	if source, err := describeIndex(stat, storageDir); err == nil && isDescribed(storageDir, source) {
+		return nil
 	}
 	if err := os.MkdirAll(storageDir, os.ModePerm); err != nil {
 		return fmt.Errorf("can't create index: %w", err)
@@ -272,11 +270,25 @@ func describeIndex(stat os.FileInfo, dir string) (string, error) {
 		if err != nil {
 			return "", err
 		}
+		if !file.Mode().IsRegular() {
+			return "", fmt.Errorf("%s is not a file", fileName)
+		}
 		description += fmt.Sprintf("%s %d\n", fileName, file.Size())
 	}
 	return description, nil
 }
 
+// isDescribed tells whether the index in the given directory has the given
+// description. Anything could be left there, so only the right one is read.
+func isDescribed(dir, source string) bool {
+	file, err := os.Stat(dir + sourceFileName)
+	if err != nil || !file.Mode().IsRegular() || file.Size() != int64(len(source)) {
+		return false
+	}
+	indexed, err := os.ReadFile(dir + sourceFileName)
+	return err == nil && string(indexed) == source
+}
+
 func createFile(fileName string) (*os.File, error) {
 	return os.OpenFile(fileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 }
-- 
2.43.0


From 7fe13b52ad462aa4da4707616662f9c8594ec7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 28/28] fix: decode names from modified UTF-8, as JVM writes
 them

---
 internal/core/base_parsers.go | 50 ++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 76423f6..1aae1e0 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -3,6 +3,8 @@ package core
 import (
 	"fmt"
 	"io"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 func NewRecordParser(heapDump io.Reader, idSize uint32) *RecordParser {
@@ -54,10 +56,56 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	}
 	return HprofUtf8{
 		Identifier: identifier,
-		Characters: string(buf),
+		Characters: decodeName(buf),
 	}, nil
 }
 
+// decodeName reads the name as JVM writes it: in modified UTF-8, where
+// the characters above U+FFFF are written as two surrogates of three bytes
+// each and the zero as two bytes. What is not a character is replaced
+// by U+FFFD.
+func decodeName(buf []byte) string {
+	if utf8.Valid(buf) {
+		return string(buf)
+	}
+	name := make([]rune, 0, len(buf))
+	for len(buf) > 0 {
+		char, size := utf8.DecodeRune(buf)
+		if char == utf8.RuneError && size == 1 {
+			char, size = decodeModified(buf)
+		}
+		name = append(name, char)
+		buf = buf[size:]
+	}
+	return string(name)
+}
+
+// decodeModified reads the character in the beginning of buf that modified
+// UTF-8 writes in other way than UTF-8.
+func decodeModified(buf []byte) (rune, int) {
+	if len(buf) >= 2 && buf[0] == 0xC0 && buf[1] == 0x80 {
+		return 0, 2
+	}
+	high, ok := decodeSurrogate(buf)
+	if !ok {
+		return utf8.RuneError, 1
+	}
+	if low, ok := decodeSurrogate(buf[3:]); ok {
+		if char := utf16.DecodeRune(high, low); char != utf8.RuneError {
+			return char, 6
+		}
+	}
+	return utf8.RuneError, 3
+}
+
+// decodeSurrogate reads the surrogate of three bytes.
+func decodeSurrogate(buf []byte) (rune, bool) {
+	if len(buf) < 3 || buf[0] != 0xED || buf[1]&0xE0 != 0xA0 || buf[2]&0xC0 != 0x80 {
+		return 0, false
+	}
+	return 0xD000 | rune(buf[1]&0x3F)<<6 | rune(buf[2]&0x3F), true
+}
+
 // ParseHprofLoadClass reads HPROF_LOAD_CLASS record.
 func (parser *RecordParser) ParseHprofLoadClass() (HprofLoadClass, error) {
 	classSerialNumber, err := parser.primitiveParser.ParseUint32()
-- 
2.43.0

