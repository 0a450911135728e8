From 2d95ebd47718f142cb4f0cb524b0a734ca405ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 01/70] fix: compact protocol writes BINARY fields and elements
 instead of panicking

Generated code uses thrift.BINARY as the type of binary fields; the table of
compact types ended at UTF16.
---
 lib/go/src/thrift/tcompact_protocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..b57e173 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -58,7 +58,7 @@ var (
 
 func init() {
 	_TSTOP = NewTField("", STOP, 0)
-	_TTypeToCompactType = make([]TCompactType, int(UTF16)+1)
+	_TTypeToCompactType = make([]TCompactType, int(BINARY)+1)
 	_TTypeToCompactType[int(STOP)] = STOP
 	_TTypeToCompactType[int(BOOL)] = COMPACT_BOOLEAN_TRUE
 	_TTypeToCompactType[int(BYTE)] = COMPACT_BYTE
@@ -67,6 +67,7 @@ func init() {
 	_TTypeToCompactType[int(I64)] = COMPACT_I64
 	_TTypeToCompactType[int(DOUBLE)] = COMPACT_DOUBLE
 	_TTypeToCompactType[int(STRING)] = COMPACT_BINARY
+	_TTypeToCompactType[int(BINARY)] = COMPACT_BINARY
 	_TTypeToCompactType[int(LIST)] = COMPACT_LIST
 	_TTypeToCompactType[int(SET)] = COMPACT_SET
 	_TTypeToCompactType[int(MAP)] = COMPACT_MAP
-- 
2.43.0


From 521fcc0fbfdf6a43eb947f2454756d6b5179cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 02/70] fix: compact protocol reads boolean fields that are
 false

Go switch cases do not fall through, so the FALSE type code ended in the
"don't know what type" error.
---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index b57e173..274adf3 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -814,8 +814,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From 9472ca6b116c0d470652c433ff2de33bd78e9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 03/70] fix: compact protocol pops the field stack when a
 struct has been read

Without it the ids of fields after a second nested struct were computed from
the wrong enclosing field.
---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 274adf3..cc29025 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -395,6 +395,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 9f2cee3daec4e81c8c4456b93e2a88438051434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 04/70] fix: compact protocol reads the message type of oneway
 messages

The type takes three bits; ONEWAY (4) was read as 0.
---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index cc29025..0f6ad08 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -358,7 +358,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From c02b65e0f9527cc44c990673a457e482644d53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 05/70] fix: Skip reports errors met inside the skipped value

Errors of nested fields, elements, keys and values were dropped, so skipping a
truncated or damaged value succeeded. Map values now also count towards the
depth like everything else.
---
 lib/go/src/thrift/tprotocol.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..1e6d263 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -149,12 +149,19 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				if err = Skip(self, typeId, maxDepth-1); err != nil {
+					return err
+				}
+				if err = self.ReadFieldEnd(); err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -166,8 +173,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				if err = Skip(self, keyType, maxDepth-1); err != nil {
+					return err
+				}
+				if err = Skip(self, valueType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -179,7 +190,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -191,7 +204,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
-- 
2.43.0


From 67b5b721d691057509d6441a1f9ca65d6e11f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 06/70] fix: Skip reports unknown types instead of pretending
 to skip them

Nothing was consumed, so everything read afterwards was garbage (and a
collection of 2^31-1 elements of an unknown type kept the loop busy).
---
 lib/go/src/thrift/tprotocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 1e6d263..3f6d2ec 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 const (
 	VERSION_MASK = 0xffff0000
 	VERSION_1    = 0x80010000
@@ -211,5 +215,5 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			return self.ReadListEnd()
 		}
 	}
-	return nil
+	return NewTProtocolException(INVALID_DATA, "Cannot skip a value of unknown type "+strconv.Itoa(int(fieldType)))
 }
-- 
2.43.0


From 19668a583c143803c3ee1e634c76c1cf5e2d2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 07/70] fix: Skip enforces the maximum depth

The documented limit was passed down but never checked.
---
 lib/go/src/thrift/tprotocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 3f6d2ec..02e14d2 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -122,6 +122,9 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
 	switch fieldType {
 	case STOP:
 		return
-- 
2.43.0


From cd6bc960a9b996e99022f452afd66f1407db9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 08/70] fix: compact protocol reports a string or binary cut
 short

The error was dropped and the missing bytes came out as zeros.
---
 lib/go/src/thrift/tcompact_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0f6ad08..6a3809c 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -604,8 +604,8 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	}
 
 	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	_, e = p.trans.ReadAll(buf)
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
-- 
2.43.0


From f42805f82d76e01484ffce4cedb8687cbb07aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 09/70] fix: compact protocol rejects negative lengths and
 sizes

A negative string length panicked in make; negative collection sizes were
returned as if they were valid.
---
 lib/go/src/thrift/tcompact_protocol.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 6a3809c..e09a137 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -457,6 +457,10 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative map size")
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -490,6 +494,10 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 			return
 		}
 		size = int(size2)
+		if size < 0 {
+			err = NewTProtocolException(NEGATIVE_SIZE, "Negative collection size")
+			return
+		}
 	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
@@ -599,6 +607,9 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	if e != nil {
 		return []byte{}, NewTProtocolExceptionFromOsError(e)
 	}
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative length in ReadBinary")
+	}
 	if length == 0 {
 		return []byte{}, nil
 	}
-- 
2.43.0


From be3f4a6a4e52f8af1fec37ef41d37553a02673e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 10/70] fix: compact protocol reports unknown key and value
 types of maps

Unknown type codes were silently read as STOP.
---
 lib/go/src/thrift/tcompact_protocol.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index e09a137..2c82ca3 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -468,8 +468,16 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
 	return
 }
 
-- 
2.43.0


From cab7e7596e34dc59d3872a6af584a27cb1c10f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 11/70] fix: compact protocol rejects varints longer than ten
 bytes

They were read without limit, the excess bits being dropped.
---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 2c82ca3..0e93f07 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -776,6 +776,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 			break
 		}
 		shift += 7
+		if shift >= 70 {
+			return 0, NewTProtocolException(INVALID_DATA, "Varint longer than 10 bytes")
+		}
 	}
 	return result, nil
 }
-- 
2.43.0


From 2c120b2ea4c0869373624bcfec7c6db152fc8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 12/70] fix: binary protocol rejects negative string and binary
 lengths

A negative string length was read as an empty string, a negative binary length
panicked in make.
---
 lib/go/src/thrift/tbinary_protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..ff04fb6 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -432,6 +432,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if isize < 0 {
+		return nil, NewTProtocolException(NEGATIVE_SIZE, "Negative binary length")
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
@@ -479,7 +482,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
 	if size < 0 {
-		return "", nil
+		return "", NewTProtocolException(NEGATIVE_SIZE, "Negative string length")
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
-- 
2.43.0


From 5be5ecb7b498429ea96dea2b41b7910ec41a4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 13/70] fix: binary protocol rejects negative collection sizes

They were returned as valid sizes, so a damaged collection read as an empty one.
---
 lib/go/src/thrift/tbinary_protocol.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index ff04fb6..660f7a8 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -328,6 +328,10 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative map size")
+		return
+	}
 	return kType, vType, size, nil
 }
 
@@ -348,6 +352,10 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative collection size")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -368,6 +376,10 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative collection size")
+		return
+	}
 	return elemType, size, nil
 }
 
-- 
2.43.0


From 9261c10b81ddb03f1827bef28589a2f2296761f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 14/70] fix: ReadAllTransport succeeds exactly when all bytes
 were read

---
 lib/go/src/thrift/ttransport.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..0851e50 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -20,6 +20,7 @@
 package thrift
 
 import (
+	"io"
 	"log"
 	"os"
 	"strconv"
@@ -158,21 +159,30 @@ func (p* TTransportBase) Flush() error {
  * @return TTransportException if there was an error reading data
  */
 func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
-	ret := 0
 	size := len(buf)
+	empty := 0
 	for n < size {
-		ret, err = p.Read(buf[n:])
-		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
+		ret, err := p.Read(buf[n:])
+		if ret > 0 {
+			n += ret
+			empty = 0
+		} else if err == nil {
+			// nothing happened; try again, but do not spin forever
+			empty++
+			if empty >= maxEmptyReads {
+				err = io.ErrNoProgress
 			}
-			return ret, err
 		}
-		n += ret
+		if err != nil && n < size {
+			typeId := NewTTransportExceptionFromOsError(err).TypeId()
+			return n, NewTTransportException(typeId, "Cannot read. Tried to read "+strconv.Itoa(size)+" bytes, but only got "+strconv.Itoa(n)+" bytes: "+err.Error())
+		}
 	}
-	return n, err
+	return n, nil
 }
 
+const maxEmptyReads = 100
+
 var (
 	LOGGER *log.Logger
 )
-- 
2.43.0


From cc6c98aef499fb373588e7233116456f70c7e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 15/70] fix: compact protocol reports the end of the stream as
 such, not as a bad version

---
 lib/go/src/thrift/tcompact_protocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0e93f07..91aa283 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -352,16 +352,19 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
 	}
 	versionAndType, err := p.ReadByte()
-	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
+	version := versionAndType & COMPACT_VERSION_MASK
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if version != COMPACT_VERSION {
 		s := fmt.Sprintf("Expected version %02x but got %02x", COMPACT_VERSION, version)
 		err = NewTProtocolException(BAD_VERSION, s)
-- 
2.43.0


From 20a90ebce7642a0f01712dbb78c76cade5959fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 16/70] fix: framed transport reports errors met while reading
 a frame and passes over empty frames

---
 lib/go/src/thrift/tframed_transport.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..ad6f978 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -72,8 +72,16 @@ func (p *TFramedTransport) Read(buf []byte) (int, error) {
 		}
 	}
 
-	// Read another frame of data
-	p.readFrame()
+	if len(buf) == 0 {
+		return 0, nil
+	}
+
+	// Read another frame of data, passing over empty ones
+	for p.readBuffer.Len() == 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
+		}
+	}
 
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 864bcb94237cb269c983b414fc18436f62668eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 17/70] fix: framed transport rejects negative frame sizes

---
 lib/go/src/thrift/tframed_transport.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index ad6f978..26acfea 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"encoding/binary"
+	"strconv"
 )
 
 type TFramedTransport struct {
@@ -121,10 +122,10 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	size := int(binary.BigEndian.Uint32(buf))
+	size := int(int32(binary.BigEndian.Uint32(buf)))
 	if size < 0 {
 		// TODO(pomack) log error
-		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
+		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+strconv.Itoa(size)+")")
 	}
 	if size == 0 {
 		return 0, nil
-- 
2.43.0


From aa64bf3ab63a85d1ed00f3ee5b3aba5effd051ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 18/70] fix: stream transport write of zero bytes does not
 panic

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 88c5fc1a621e2ac486ddd82e5e5ff9a06515a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 19/70] fix: closed stream transport cannot be written to

---
 lib/go/src/thrift/tiostream_transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 475633f..071ec58 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -167,9 +167,9 @@ func (p *TIOStreamTransport) Close() error {
 		}
 		p.Reader = nil
 	}
-	if p.Writer != nil && (!closedReader || !p.IsReadWriter) {
+	if p.Writer != nil {
 		c, ok := p.Writer.(io.Closer)
-		if ok {
+		if ok && (!closedReader || !p.IsReadWriter) {
 			e := c.Close()
 			if e != nil {
 				LOGGER.Print("Error closing output stream.", e)
-- 
2.43.0


From 279524838405cc53eca0d4bf0c5465a8d558ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 20/70] fix: closed socket drops its unflushed data and can be
 opened again

---
 lib/go/src/thrift/tsocket.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..aebec34 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -172,12 +172,15 @@ func (p *TSocket) Open() error {
 func (p *TSocket) Close() error {
 	// Close the socket
 	if p.conn != nil {
-		err := p.conn.Close()
+		conn := p.conn
+		p.conn = nil
+		// unflushed data belongs to this connection, not to the next one
+		p.writeBuffer.Reset()
+		err := conn.Close()
 		if err != nil {
 			LOGGER.Print("Could not close socket. ", err.Error())
 			return err
 		}
-		p.conn = nil
 	}
 	return nil
 }
-- 
2.43.0


From 4c254b50d573f87e0f6fe95115748b9bca83b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 21/70] fix: interrupted socket is not open any more

---
 lib/go/src/thrift/tsocket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index aebec34..fa39cd0 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -224,5 +224,5 @@ func (p *TSocket) Interrupt() error {
 		return nil
 	}
 	// TODO(pomack) fix Interrupt as this is probably wrong
-	return p.conn.Close()
+	return p.Close()
 }
-- 
2.43.0


From d66d656e427661f1c935495bb2e394c9a408c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 22/70] fix: socket write timeout starts with the flush that
 sends the data

---
 lib/go/src/thrift/tsocket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index fa39cd0..d715343 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -202,7 +202,6 @@ func (p *TSocket) Write(buf []byte) (int, error) {
 	if !p.IsOpen() {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(false, true)
 	p.writeBuffer.Write(buf)
 	return len(buf), nil
 }
@@ -215,6 +214,7 @@ func (p *TSocket) Flush() error {
 	if !p.IsOpen() {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
+	p.pushDeadline(false, true)
 	_, err := p.writeBuffer.WriteTo(p.conn)
 	return NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From 724999d45d2ee5933e592005052ac52a739fc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 23/70] fix: memory buffer reports the end of its data as an
 end-of-file transport exception

---
 lib/go/src/thrift/tmemory_buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmemory_buffer.go b/lib/go/src/thrift/tmemory_buffer.go
index 5d36203..8dbc5f7 100644
--- a/lib/go/src/thrift/tmemory_buffer.go
+++ b/lib/go/src/thrift/tmemory_buffer.go
@@ -78,7 +78,8 @@ func (p *TMemoryBuffer) Close() error {
 }
 
 func (p *TMemoryBuffer) Read(buf []byte) (int, error) {
-	return p.buf.Read(buf)
+	n, err := p.buf.Read(buf)
+	return n, NewTTransportExceptionFromOsError(err)
 }
 
 func (p *TMemoryBuffer) ReadAll(buf []byte) (int, error) {
-- 
2.43.0


From 2ff5d0125d241ddfe1576ba78ce030489bbb3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 24/70] fix: HTTP client life cycle: closed clients report
 not-open, one request per flush, no stale or leaked responses

---
 lib/go/src/thrift/thttp_client.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..86a966f 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -102,15 +102,19 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
-	if p.response != nil && p.response.Body != nil {
-		err := p.response.Body.Close()
-		p.response = nil
-		return err
-	}
 	if p.requestBuffer != nil {
 		p.requestBuffer.Reset()
 		p.requestBuffer = nil
 	}
+	return p.closeResponse()
+}
+
+func (p *THttpClient) closeResponse() error {
+	response := p.response
+	p.response = nil
+	if response != nil && response.Body != nil {
+		return response.Body.Close()
+	}
 	return nil
 }
 
@@ -127,16 +131,27 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "Request buffer is nil, connection may have been closed.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "Request buffer is nil, connection may have been closed.")
+	}
+	// the previous response is over, whatever becomes of this request
+	p.closeResponse()
+	body := append([]byte(nil), p.requestBuffer.Bytes()...)
+	p.requestBuffer.Reset()
+	response, err := http.Post(p.url.String(), "application/x-thrift", bytes.NewReader(body))
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if response.StatusCode != http.StatusOK {
+		response.Body.Close()
 		// TODO(pomack) log bad response
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
-- 
2.43.0


From b6da0ac9f93e6a0fb75552a473e1d402ecc6d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 25/70] fix: JSON protocols read a number that ends with the
 stream on any transport

---
 lib/go/src/thrift/tsimple_json_protocol.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..86f2d5f 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1148,6 +1148,15 @@ func (p *TSimpleJSONProtocol) readQuoteIfNext() {
 	}
 }
 
+// isEndOfFile tells whether err is the end of the stream, whichever way the
+// transport reports it.
+func isEndOfFile(err error) bool {
+	if t, ok := err.(TTransportException); ok {
+		return t.TypeId() == END_OF_FILE
+	}
+	return err == io.EOF
+}
+
 func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	isNull, err := p.readIfNull()
 	if isNull || err != nil {
@@ -1163,7 +1172,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	for continueFor {
 		c, err := p.reader.ReadByte()
 		if err != nil {
-			if err == io.EOF {
+			if isEndOfFile(err) {
 				break
 			}
 			return NUMERIC_NULL, NewTProtocolExceptionFromOsError(err)
-- 
2.43.0


From 821c046cac1c4095e27bd113c2aef8adbd80a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 26/70] fix: JSON protocol writes and reads the type names of
 i16 and binary

---
 lib/go/src/thrift/tjson_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..8f9abe7 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -477,7 +477,7 @@ func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 		return "i32"
 	case I64:
 		return "i64"
-	case STRING:
+	case STRING, BINARY:
 		return "str"
 	case STRUCT:
 		return "rec"
@@ -509,7 +509,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From 2f3f31352bf28433aeaebca97a5c42f17ac060ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 27/70] fix: JSON protocol reports unknown type names

---
 lib/go/src/thrift/tjson_protocol.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 8f9abe7..0f59d05 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -255,8 +255,7 @@ func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolExcepti
 	if _, err = p.ParseObjectStart(); err != nil {
 		return "", STOP, fieldId, err
 	}
-	sType, err := p.ReadString()
-	fType := p.StringToTypeId(sType)
+	fType, err := p.readTypeId()
 	return "", fType, fieldId, err
 }
 
@@ -270,15 +269,13 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 	}
 
 	// read keyType
-	sKeyType, e := p.ReadString()
-	keyType = p.StringToTypeId(sKeyType)
+	keyType, e = p.readTypeId()
 	if e != nil {
 		return keyType, valueType, size, e
 	}
 
 	// read valueType
-	sValueType, e := p.ReadString()
-	valueType = p.StringToTypeId(sValueType)
+	valueType, e = p.readTypeId()
 	if e != nil {
 		return keyType, valueType, size, e
 	}
@@ -436,8 +433,7 @@ func (p *TJSONProtocol) readElemListBegin() (elemType TType, size int, e TProtoc
 	if isNull, e := p.ParseListBegin(); isNull || e != nil {
 		return VOID, 0, e
 	}
-	sElemType, err := p.ReadString()
-	elemType = p.StringToTypeId(sElemType)
+	elemType, err := p.readTypeId()
 	if err != nil {
 		return elemType, size, err
 	}
@@ -459,6 +455,19 @@ func (p *TJSONProtocol) writeElemListBegin(elemType TType, size int) TProtocolEx
 	return nil
 }
 
+// readTypeId reads the name of a type.
+func (p *TJSONProtocol) readTypeId() (TType, TProtocolException) {
+	s, err := p.ReadString()
+	if err != nil {
+		return STOP, err
+	}
+	t := p.StringToTypeId(s)
+	if t == STOP && s != p.TypeIdToString(STOP) {
+		return STOP, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unknown type name %q", s))
+	}
+	return t, nil
+}
+
 func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 	switch byte(fieldType) {
 	case STOP:
-- 
2.43.0


From fbd4d5d18b4b6a0eb14a3e92c72c8d6f4dedf359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 28/70] fix: JSON protocol reports failures to write a binary
 value

---
 lib/go/src/thrift/tjson_protocol.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 0f59d05..869db54 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -20,7 +20,6 @@
 package thrift
 
 import (
-	"encoding/base64"
 	"fmt"
 )
 
@@ -180,21 +179,7 @@ func (p *TJSONProtocol) WriteString(v string) TProtocolException {
 }
 
 func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
-	// JSON library only takes in a string,
-	// not an arbitrary byte array, to ensure bytes are transmitted
-	// efficiently we must convert this into a valid JSON string
-	// therefore we use base64 encoding to avoid excessive escaping/quoting
-	if e := p.OutputPreValue(); e != nil {
-		return e
-	}
-	p.writer.Write(JSON_QUOTE_BYTES)
-	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
-	if _, e := writer.Write(v); e != nil {
-		return NewTProtocolExceptionFromOsError(e)
-	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
-	return p.OutputPostValue()
+	return p.TSimpleJSONProtocol.WriteBinary(v)
 }
 
 /**
-- 
2.43.0


From 6a5678d72b822029764016733c533aa0c1215e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 29/70] fix: JSON protocols read the same whatever part of the
 input is buffered

Whether a value, an end or whitespace follows was decided by what happened to
be buffered, so results depended on the sizes of the transport's reads, the
end of the stream read as false or as an empty struct, and short input made
ReadBool panic.
---
 lib/go/src/thrift/tjson_protocol.go        |  96 +-------
 lib/go/src/thrift/tsimple_json_protocol.go | 264 ++++++++++-----------
 2 files changed, 136 insertions(+), 224 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 869db54..4bfac29 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -187,8 +187,10 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
  */
 
 func (p *TJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
-	if isNull, err := p.ParseListBegin(); isNull || err != nil {
+	if isNull, err := p.ParseListBegin(); err != nil {
 		return name, typeId, seqId, err
+	} else if isNull {
+		return name, typeId, seqId, NewTProtocolException(INVALID_DATA, "Expected a message, but found null")
 	}
 	version, err := p.ReadI32()
 	if err != nil {
@@ -226,19 +228,17 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
-	}
-	b, _ := p.reader.Peek(1)
-	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
-		return "", STOP, -1, nil
+	if last, err := p.parseFieldsEnd(); last || err != nil {
+		return "", STOP, -1, err
 	}
 	fieldId, err := p.ReadI16()
 	if err != nil {
 		return "", STOP, fieldId, err
 	}
-	if _, err = p.ParseObjectStart(); err != nil {
+	if isNull, err := p.ParseObjectStart(); err != nil {
 		return "", STOP, fieldId, err
+	} else if isNull {
+		return "", STOP, fieldId, NewTProtocolException(INVALID_DATA, "Expected a field, but found null")
 	}
 	fType, err := p.readTypeId()
 	return "", fType, fieldId, err
@@ -292,41 +292,7 @@ func (p *TJSONProtocol) ReadSetEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
-	var value bool
-	if err := p.ParsePreValue(); err != nil {
-		return value, err
-	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
-	if len(b) > 0 {
-		switch b[0] {
-		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
-				p.reader.Read(b[0:len(JSON_TRUE)])
-				value = true
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"true\" but found: "+string(b))
-			}
-			break
-		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
-				p.reader.Read(b[0:len(JSON_FALSE)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"false\" but found: "+string(b))
-			}
-			break
-		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-				p.reader.Read(b[0:len(JSON_NULL)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"null\" but found: "+string(b))
-			}
-		default:
-			return value, NewTProtocolException(INVALID_DATA, "Expected \"true\", \"false\", or \"null\" but found: "+string(b))
-		}
-	}
-	return value, p.ParsePostValue()
+	return p.TSimpleJSONProtocol.ReadBool()
 }
 
 func (p *TJSONProtocol) ReadByte() (byte, TProtocolException) {
@@ -355,51 +321,11 @@ func (p *TJSONProtocol) ReadDouble() (float64, TProtocolException) {
 }
 
 func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
-	var v string
-	if err := p.ParsePreValue(); err != nil {
-		return v, err
-	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
-		value, err := p.ParseStringBody()
-		v = value
-		if err != nil {
-			return v, err
-		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
-		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
-	}
-	return v, p.ParsePostValue()
+	return p.TSimpleJSONProtocol.ReadString()
 }
 
 func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
-	var v []byte
-	if err := p.ParsePreValue(); err != nil {
-		return nil, err
-	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
-		value, err := p.ParseBase64EncodedBody()
-		v = value
-		if err != nil {
-			return v, err
-		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
-		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
-	}
-	return v, p.ParsePostValue()
+	return p.TSimpleJSONProtocol.ReadBinary()
 }
 
 func (p *TJSONProtocol) Flush() (err TProtocolException) {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 86f2d5f..425aa3a 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -40,6 +40,7 @@ const (
 	_CONTEXT_IN_OBJECT_FIRST      _ParseContext = 4
 	_CONTEXT_IN_OBJECT_NEXT_KEY   _ParseContext = 5
 	_CONTEXT_IN_OBJECT_NEXT_VALUE _ParseContext = 6
+	_CONTEXT_IN_NULL              _ParseContext = 7 // null in place of a list or object
 )
 
 func (p _ParseContext) String() string {
@@ -56,6 +57,8 @@ func (p _ParseContext) String() string {
 		return "OBJECT-NEXT-KEY"
 	case _CONTEXT_IN_OBJECT_NEXT_VALUE:
 		return "OBJECT-NEXT-VALUE"
+	case _CONTEXT_IN_NULL:
+		return "NULL"
 	}
 	return "UNKNOWN-PARSE-CONTEXT"
 }
@@ -303,8 +306,10 @@ func (p *TSimpleJSONProtocol) WriteBinary(v []byte) TProtocolException {
  */
 
 func (p *TSimpleJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
-	if isNull, err := p.ParseListBegin(); isNull || err != nil {
+	if isNull, err := p.ParseListBegin(); err != nil {
 		return name, typeId, seqId, err
+	} else if isNull {
+		return name, typeId, seqId, NewTProtocolException(INVALID_DATA, "Expected a message, but found null")
 	}
 	if name, err = p.ReadString(); err != nil {
 		return name, typeId, seqId, err
@@ -334,17 +339,15 @@ func (p *TSimpleJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if err := p.ParsePreValue(); err != nil {
+	if last, err := p.parseFieldsEnd(); last || err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
+	if err := p.ParsePreValue(); err != nil {
+		return "", STOP, 0, err
 	}
-	b, _ := p.reader.Peek(1)
+	b, e := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
-		case JSON_RBRACE[0]:
-			return "", STOP, 0, nil
 		case JSON_QUOTE:
 			p.reader.ReadByte()
 			name, err := p.ParseStringBody()
@@ -370,7 +373,7 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 		}
 		return "", STOP, 0, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected \"}\" or '\"', but found: '", string(b), "'"))
 	}
-	return "", STOP, 0, NewTProtocolExceptionFromOsError(io.EOF)
+	return "", STOP, 0, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TSimpleJSONProtocol) ReadFieldEnd() TProtocolException {
@@ -428,35 +431,26 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
-	if len(b) > 0 {
-		switch b[0] {
-		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
-				p.reader.Read(b[0:len(JSON_TRUE)])
-				value = true
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"true\" but found: "+string(b))
-			}
-			break
-		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
-				p.reader.Read(b[0:len(JSON_FALSE)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"false\" but found: "+string(b))
-			}
-			break
-		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-				p.reader.Read(b[0:len(JSON_NULL)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"null\" but found: "+string(b))
-			}
-		default:
-			return value, NewTProtocolException(INVALID_DATA, "Expected \"true\", \"false\", or \"null\" but found: "+string(b))
+	b, e := p.reader.Peek(1)
+	if len(b) < 1 {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
+	switch b[0] {
+	case JSON_TRUE[0]:
+		if err := p.readLiteral(JSON_TRUE); err != nil {
+			return value, err
 		}
+		value = true
+	case JSON_FALSE[0]:
+		if err := p.readLiteral(JSON_FALSE); err != nil {
+			return value, err
+		}
+	case JSON_NULL[0]:
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return value, err
+		}
+	default:
+		return value, NewTProtocolException(INVALID_DATA, "Expected \"true\", \"false\", or \"null\" but found: "+string(b))
 	}
 	return value, p.ParsePostValue()
 }
@@ -491,18 +485,20 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
+	b, e := p.reader.Peek(1)
+	if len(b) < 1 {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
+	if b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
 		v = value
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
+	} else if b[0] == JSON_NULL[0] {
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return v, err
 		}
 	} else {
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
@@ -515,18 +511,20 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
+	b, e := p.reader.Peek(1)
+	if len(b) < 1 {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
+	if b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
 		v = value
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
+	} else if b[0] == JSON_NULL[0] {
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return v, err
 		}
 	} else {
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
@@ -735,9 +733,6 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
-	}
 	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
@@ -790,10 +785,9 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 	return nil
 }
 
+// ParsePostValue notes the end of a value.  It does not look at what follows,
+// which may not have been sent yet.
 func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
-	if e := p.readNonSignificantWhitespace(); e != nil {
-		return NewTProtocolExceptionFromOsError(e)
-	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
 	switch cxt {
 	case _CONTEXT_IN_LIST_FIRST:
@@ -812,22 +806,46 @@ func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
 	return nil
 }
 
+// readNonSignificantWhitespace passes over whitespace, up to a byte that has
+// to follow.
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
-	for p.reader.Buffered() > 0 {
-		b, _ := p.reader.Peek(1)
+	for {
+		b, e := p.reader.Peek(1)
 		if len(b) < 1 {
-			return nil
+			return e
 		}
 		switch b[0] {
 		case ' ', '\r', '\n', '\t':
 			p.reader.ReadByte()
-			continue
 		default:
-			break
+			return nil
 		}
-		break
 	}
-	return nil
+}
+
+// readLiteral consumes the given literal.
+func (p *TSimpleJSONProtocol) readLiteral(literal []byte) TProtocolException {
+	buf := make([]byte, len(literal))
+	n, e := io.ReadFull(p.reader, buf)
+	if !bytes.Equal(buf[:n], literal[:n]) {
+		return NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected \"%s\" but found: %s", literal, buf[:n]))
+	}
+	return NewTProtocolExceptionFromOsError(e)
+}
+
+// parseFieldsEnd tells whether the struct being read has no further field.
+func (p *TSimpleJSONProtocol) parseFieldsEnd() (bool, TProtocolException) {
+	if e := p.readNonSignificantWhitespace(); e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
+	switch _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) {
+	case _CONTEXT_IN_NULL:
+		return true, nil
+	case _CONTEXT_IN_OBJECT_FIRST, _CONTEXT_IN_OBJECT_NEXT_KEY:
+		b, _ := p.reader.Peek(1)
+		return len(b) > 0 && b[0] == JSON_RBRACE[0], nil
+	}
+	return false, NewTProtocolException(INVALID_DATA, "Expected to be in the Object Context, but not in Object Context")
 }
 
 func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
@@ -904,9 +922,11 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 	}
 	var value int64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
+	b, _ := p.reader.Peek(1)
+	if len(b) > 0 && b[0] == JSON_NULL[0] {
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return value, false, err
+		}
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
@@ -927,9 +947,11 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 	}
 	var value float64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
+	b, _ := p.reader.Peek(1)
+	if len(b) > 0 && b[0] == JSON_NULL[0] {
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return value, false, err
+		}
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
@@ -948,35 +970,47 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
 		return false, nil
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		return true, nil
+	} else if len(b) > 0 && b[0] == JSON_NULL[0] {
+		return p.parseNull()
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected '{' or null, but found '", string(b), "'"))
 }
 
 func (p *TSimpleJSONProtocol) ParseObjectEnd() TProtocolException {
-	if isNull, err := p.readIfNull(); isNull || err != nil {
-		return err
-	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if cxt != _CONTEXT_IN_OBJECT_FIRST && cxt != _CONTEXT_IN_OBJECT_NEXT_KEY {
+	if cxt != _CONTEXT_IN_OBJECT_FIRST && cxt != _CONTEXT_IN_OBJECT_NEXT_KEY && cxt != _CONTEXT_IN_NULL {
 		return NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected to be in the Object Context, but not in Object Context"))
 	}
-	line, err := p.reader.ReadString(JSON_RBRACE[0])
-	if err != nil {
-		return NewTProtocolExceptionFromOsError(err)
+	return p.parseEnd(JSON_RBRACE[0])
+}
+
+// parseNull consumes a null that stands for a list or object; the matching
+// end has nothing to consume.
+func (p *TSimpleJSONProtocol) parseNull() (bool, TProtocolException) {
+	if e := p.readLiteral(JSON_NULL); e != nil {
+		return false, e
 	}
-	for _, char := range line {
-		switch char {
-		default:
-			return NewTProtocolException(INVALID_DATA, fmt.Sprint("Expecting end of object \"}\", but found: \"", line, "\""))
-		case ' ', '\n', '\r', '\t', '}':
-			break
+	p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_NULL))
+	return true, nil
+}
+
+// parseEnd consumes the end of a list or object and leaves its context.
+func (p *TSimpleJSONProtocol) parseEnd(end byte) TProtocolException {
+	if _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) != _CONTEXT_IN_NULL {
+		if e := p.readNonSignificantWhitespace(); e != nil {
+			return NewTProtocolExceptionFromOsError(e)
+		}
+		c, e := p.reader.ReadByte()
+		if e != nil {
+			return NewTProtocolExceptionFromOsError(e)
+		}
+		if c != end {
+			return NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expecting end of list or object \"%c\", but found: \"%c\"", end, c))
 		}
 	}
 	p.parseContextStack = p.parseContextStack[:len(p.parseContextStack)-1]
@@ -987,15 +1021,15 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
-	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
+	b, _ := p.reader.Peek(1)
+	if len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
 		return false, nil
-	} else if e == nil && len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		return true, nil
+	} else if len(b) >= 1 && b[0] == JSON_NULL[0] {
+		return p.parseNull()
 	}
-	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '{', received '%q'", b))
+	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '[', received '%q'", b))
 }
 
 func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e TProtocolException) {
@@ -1013,26 +1047,11 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 }
 
 func (p *TSimpleJSONProtocol) ParseListEnd() TProtocolException {
-	if isNull, err := p.readIfNull(); isNull || err != nil {
-		return err
-	}
-	if _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) != _CONTEXT_IN_LIST {
+	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
+	if cxt != _CONTEXT_IN_LIST && cxt != _CONTEXT_IN_NULL {
 		return NewTProtocolException(INVALID_DATA, "Expected to be in the List Context, but not in List Context")
 	}
-	line, err := p.reader.ReadString(JSON_RBRACKET[0])
-	if err != nil {
-		return NewTProtocolExceptionFromOsError(err)
-	}
-	for _, char := range line {
-		switch char {
-		default:
-			return NewTProtocolException(INVALID_DATA, fmt.Sprint("Expecting end of list \"]\", but found: \"", line, "\""))
-		case ' ', '\n', '\r', '\t', rune(JSON_RBRACKET[0]):
-			break
-		}
-	}
-	p.parseContextStack = p.parseContextStack[:len(p.parseContextStack)-1]
-	return p.ParsePostValue()
+	return p.parseEnd(JSON_RBRACKET[0])
 }
 
 func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolException) {
@@ -1109,35 +1128,6 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 
 }
 
-func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
-	cont := true
-	for p.reader.Buffered() > 0 && cont {
-		b, _ := p.reader.Peek(1)
-		if len(b) < 1 {
-			return false, nil
-		}
-		switch b[0] {
-		default:
-			return false, nil
-		case JSON_NULL[0]:
-			cont = false
-			break
-		case ' ', '\n', '\r', '\t':
-			p.reader.ReadByte()
-			break
-		}
-	}
-	if p.reader.Buffered() == 0 {
-		return false, nil
-	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
-		return true, nil
-	}
-	return false, nil
-}
-
 func (p *TSimpleJSONProtocol) readQuoteIfNext() {
 	if p.reader.Buffered() < 1 {
 		return
@@ -1158,10 +1148,6 @@ func isEndOfFile(err error) bool {
 }
 
 func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
-	isNull, err := p.readIfNull()
-	if isNull || err != nil {
-		return NUMERIC_NULL, err
-	}
 	hasDecimalPoint := false
 	nextCanBeSign := true
 	hasE := false
-- 
2.43.0


From b599860efcabb012332f63766bdd250625f0ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 30/70] fix: JSON protocols report malformed strings

---
 lib/go/src/thrift/tsimple_json_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 425aa3a..06147b8 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -864,7 +864,7 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	if i&0x01 == 1 {
 		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
 		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+			return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+string(JSON_QUOTE)+line)
 		}
 		return v, nil
 	}
-- 
2.43.0


From 0d4dd34c44befbc3e709cd62a65b6388d498d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:20 +0000
Subject: [PATCH 31/70] fix: JSON protocols report malformed, cut short and
 out-of-range numbers

Numbers out of the range of the type read, fractions read as integers,
negative sizes and garbage such as 1-2 came back as some other number; a
quoted number could end anywhere, and NaN and Infinity depended on the sizes
of the transport's reads.
---
 lib/go/src/thrift/tjson_protocol.go        | 11 +--
 lib/go/src/thrift/tsimple_json_protocol.go | 97 ++++++++++------------
 2 files changed, 49 insertions(+), 59 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 4bfac29..3d28537 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"fmt"
+	"math"
 )
 
 const (
@@ -266,7 +267,7 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 	}
 
 	// read size
-	iSize, err := p.ReadI64()
+	iSize, err := p.readInt(0, math.MaxInt32)
 	size = int(iSize)
 	return keyType, valueType, size, err
 }
@@ -296,17 +297,17 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 }
 
 func (p *TJSONProtocol) ReadByte() (byte, TProtocolException) {
-	v, err := p.ReadI64()
+	v, err := p.readInt(math.MinInt8, math.MaxUint8)
 	return byte(v), err
 }
 
 func (p *TJSONProtocol) ReadI16() (int16, TProtocolException) {
-	v, err := p.ReadI64()
+	v, err := p.readInt(math.MinInt16, math.MaxInt16)
 	return int16(v), err
 }
 
 func (p *TJSONProtocol) ReadI32() (int32, TProtocolException) {
-	v, err := p.ReadI64()
+	v, err := p.readInt(math.MinInt32, math.MaxInt32)
 	return int32(v), err
 }
 
@@ -348,7 +349,7 @@ func (p *TJSONProtocol) readElemListBegin() (elemType TType, size int, e TProtoc
 	if err != nil {
 		return elemType, size, err
 	}
-	nSize, err2 := p.ReadI64()
+	nSize, err2 := p.readInt(0, math.MaxInt32)
 	size = int(nSize)
 	return elemType, size, err2
 }
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 06147b8..2051208 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -401,7 +401,7 @@ func (p *TSimpleJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, si
 	}
 
 	// read size
-	iSize, err := p.ReadI64()
+	iSize, err := p.readInt(0, math.MaxInt32)
 	size = int(iSize)
 	return keyType, valueType, size, err
 }
@@ -456,17 +456,17 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) ReadByte() (byte, TProtocolException) {
-	v, err := p.ReadI64()
+	v, err := p.readInt(math.MinInt8, math.MaxUint8)
 	return byte(v), err
 }
 
 func (p *TSimpleJSONProtocol) ReadI16() (int16, TProtocolException) {
-	v, err := p.ReadI64()
+	v, err := p.readInt(math.MinInt16, math.MaxInt16)
 	return int16(v), err
 }
 
 func (p *TSimpleJSONProtocol) ReadI32() (int32, TProtocolException) {
-	v, err := p.ReadI64()
+	v, err := p.readInt(math.MinInt32, math.MaxInt32)
 	return int32(v), err
 }
 
@@ -475,6 +475,15 @@ func (p *TSimpleJSONProtocol) ReadI64() (int64, TProtocolException) {
 	return v, err
 }
 
+// readInt reads an integer between min and max.
+func (p *TSimpleJSONProtocol) readInt(min int64, max int64) (int64, TProtocolException) {
+	v, _, err := p.ParseI64()
+	if err == nil && (v < min || v > max) {
+		return 0, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected an integer between %d and %d, but found %d", min, max, v))
+	}
+	return v, err
+}
+
 func (p *TSimpleJSONProtocol) ReadDouble() (float64, TProtocolException) {
 	v, _, err := p.ParseF64()
 	return v, err
@@ -930,13 +939,14 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
-		isnull = (num == nil)
-		if !isnull {
-			value = num.Int64()
-		}
 		if err != nil {
 			return value, isnull, err
 		}
+		v, e := strconv.ParseInt(num.String(), 10, 64)
+		if e != nil {
+			return value, isnull, NewTProtocolException(INVALID_DATA, "Expected an integer, but found "+num.String())
+		}
+		value = v
 	}
 	return value, isnull, p.ParsePostValue()
 }
@@ -955,13 +965,10 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
-		isnull = (num == nil)
-		if !isnull {
-			value = num.Float64()
-		}
 		if err != nil {
 			return value, isnull, err
 		}
+		value = num.Float64()
 	}
 	return value, isnull, p.ParsePostValue()
 }
@@ -1041,7 +1048,7 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 	if err != nil {
 		return elemType, size, err
 	}
-	nSize, err2 := p.ReadI64()
+	nSize, err2 := p.readInt(0, math.MaxInt32)
 	size = int(nSize)
 	return elemType, size, err2
 }
@@ -1128,16 +1135,6 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 
 }
 
-func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
-	}
-	b, _ := p.reader.Peek(1)
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
-	}
-}
-
 // isEndOfFile tells whether err is the end of the stream, whichever way the
 // transport reports it.
 func isEndOfFile(err error) bool {
@@ -1193,18 +1190,13 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			continueFor = false
 		case JSON_NAN[0]:
 			if buf.Len() == 0 {
-				buffer := make([]byte, len(JSON_NAN))
-				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
-				if e != nil {
-					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
-				}
-				if JSON_NAN != string(buffer) {
-					e := NewTProtocolException(INVALID_DATA, "Expected '"+JSON_NAN+"' but found '"+string(buffer)+"' while parsing JSON.")
+				if e := p.readLiteral(JSON_NAN_BYTES[1:]); e != nil {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readLiteral(JSON_QUOTE_BYTES); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NAN, nil
 			} else {
@@ -1212,44 +1204,35 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			}
 		case JSON_INFINITY[0]:
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
-				buffer := make([]byte, len(JSON_INFINITY))
-				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
-				if e != nil {
-					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
-				}
-				if JSON_INFINITY != string(buffer) {
-					e := NewTProtocolException(INVALID_DATA, "Expected '"+JSON_INFINITY+"' but found '"+string(buffer)+"' while parsing JSON.")
+				if e := p.readLiteral(JSON_INFINITY_BYTES[1:]); e != nil {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readLiteral(JSON_QUOTE_BYTES); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return INFINITY, nil
 			} else if buf.Len() == 1 && buf.Bytes()[0] == JSON_NEGATIVE_INFINITY[0] {
-				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
-				buffer[0] = JSON_NEGATIVE_INFINITY[0]
-				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
-				if e != nil {
-					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
-				}
-				if JSON_NEGATIVE_INFINITY != string(buffer) {
-					e := NewTProtocolException(INVALID_DATA, "Expected '"+JSON_NEGATIVE_INFINITY+"' but found '"+string(buffer)+"' while parsing JSON.")
+				if e := p.readLiteral(JSON_INFINITY_BYTES[1:]); e != nil {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readLiteral(JSON_QUOTE_BYTES); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NEGATIVE_INFINITY, nil
 			} else {
 				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c' due to existing buffer %s", c, buf.String()))
 			}
 		case JSON_QUOTE:
-			if !inQuotes {
-				inQuotes = true
+			if inQuotes {
+				inQuotes, continueFor = false, false
+			} else if buf.Len() > 0 {
+				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Quote within number '%s'", buf.String()))
 			} else {
-				break
+				inQuotes = true
 			}
 		default:
 			return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c'", c))
@@ -1258,5 +1241,11 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	if buf.Len() == 0 {
 		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprint("Unable to parse number from empty string ''"))
 	}
+	if inQuotes || !json.Valid(buf.Bytes()) {
+		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number '%s'", buf.String()))
+	}
+	if _, e := strconv.ParseFloat(buf.String(), 64); e != nil {
+		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Number '%s' out of range", buf.String()))
+	}
 	return NewNumericFromJSONString(buf.String(), false), nil
 }
-- 
2.43.0


From 5c54d03222ffb58f10dcf28ca47562f4569198a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:02 +0000
Subject: [PATCH 32/70] fix: JSON protocols report a number inside a list or
 struct cut short by the end of the stream

---
 lib/go/src/thrift/tsimple_json_protocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 2051208..12dfe70 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1155,7 +1155,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	for continueFor {
 		c, err := p.reader.ReadByte()
 		if err != nil {
-			if isEndOfFile(err) {
+			// only a number on its own can end with the stream
+			if isEndOfFile(err) && _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) == _CONTEXT_IN_TOPLEVEL {
 				break
 			}
 			return NUMERIC_NULL, NewTProtocolExceptionFromOsError(err)
-- 
2.43.0


From 9e2700a5ecd87f5742c280b66debfd68a929f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:48 +0000
Subject: [PATCH 33/70] fix: Skip passes over the binary elements of JSON
 collections

---
 lib/go/src/thrift/tprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 02e14d2..43b128d 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -146,7 +146,7 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 	case DOUBLE:
 		_, err = self.ReadDouble()
 		return
-	case STRING:
+	case STRING, BINARY:
 		_, err = self.ReadString()
 		return
 	case STRUCT:
-- 
2.43.0


From 59833954dc8e8968fa6d5344bb04420f6688cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 34/70] fix: server socket may be closed or interrupted while
 another goroutine accepts

---
 lib/go/src/thrift/tserver_socket.go | 70 ++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..a9b3311 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 type TServerSocket struct {
@@ -33,6 +34,17 @@ type TServerSocket struct {
 	 */
 	listener net.Listener
 
+	/**
+	 * Guards conn, listener and interrupted, which Interrupt and Close may
+	 * change while another goroutine is in Accept
+	 */
+	mutex sync.Mutex
+
+	/**
+	 * Interrupted since it last started to listen
+	 */
+	interrupted bool
+
 	/**
 	 * Address to listen on
 	 */
@@ -84,24 +96,47 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 }
 
 func (p *TServerSocket) Listen() (err error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.listen()
+}
+
+func (p *TServerSocket) listen() error {
 	if p.listener == nil {
-		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
+		l, err := net.Listen("tcp", p.addr.String())
+		if err != nil {
 			return err
 		}
+		p.listener = l
 	}
+	p.interrupted = false
 	return nil
 }
 
-func (p *TServerSocket) Accept() (TTransport, error) {
+/**
+ * The listener to accept from: starts to listen if need be, unless the socket
+ * was interrupted.
+ */
+func (p *TServerSocket) acceptListener() (net.Listener, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	if p.listener == nil {
-		if err := p.Listen(); err != nil {
-			return nil, NewTTransportExceptionFromOsError(err)
+		if p.interrupted {
+			return nil, NewTTransportException(NOT_OPEN, "Server socket interrupted")
 		}
-		if p.listener == nil {
-			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
+		if err := p.listen(); err != nil {
+			return nil, NewTTransportExceptionFromOsError(err)
 		}
 	}
-	conn, err := p.listener.Accept()
+	return p.listener, nil
+}
+
+func (p *TServerSocket) Accept() (TTransport, error) {
+	listener, err := p.acceptListener()
+	if err != nil {
+		return nil, err
+	}
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -112,6 +147,8 @@ func (p *TServerSocket) Accept() (TTransport, error) {
  * Checks whether the socket is connected.
  */
 func (p *TServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -119,12 +156,15 @@ func (p *TServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
 		}
 		p.listener = l
+		p.interrupted = false
 		return nil
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
@@ -167,7 +207,13 @@ func (p *TServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.close()
+}
+
+func (p *TServerSocket) close() error {
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
@@ -185,6 +231,8 @@ func (p *TServerSocket) Close() (err error) {
 }
 
 func (p *TServerSocket) Interrupt() error {
-	// TODO(pomack) fix Interrupt as it is probably not right
-	return NewTTransportExceptionFromOsError(p.Close())
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.interrupted = true
+	return NewTTransportExceptionFromOsError(p.close())
 }
-- 
2.43.0


From 9a22981d78ad83725a20b7b2221a7a1b0ee04b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 35/70] fix: nonblocking server socket may be closed or
 interrupted while another goroutine accepts

---
 .../src/thrift/tnonblocking_server_socket.go  | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..c67a5f7 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 /**
@@ -28,7 +29,12 @@ import (
  */
 type TNonblockingServerSocket struct {
 	listener net.Listener
-	addr     net.Addr
+	/**
+	 * Guards listener, which Interrupt and Close may change while another
+	 * goroutine is in Accept
+	 */
+	mutex sync.Mutex
+	addr  net.Addr
 	/**
 	 * Socket timeout
 	 */
@@ -88,6 +94,8 @@ func (p *TNonblockingServerSocket) SetTimeout(nsecTimeout int64) error {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -95,7 +103,9 @@ func (p *TNonblockingServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TNonblockingServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
@@ -136,10 +146,13 @@ func (p *TNonblockingServerSocket) Addr() net.Addr {
 }
 
 func (p *TNonblockingServerSocket) Accept() (TTransport, error) {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
 		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -154,7 +167,9 @@ func (p *TNonblockingServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 8608aa2c56c02f3b47bc2f1348b6ea6c5841bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 36/70] fix: TSimpleServer: a stop always ends the serve loop,
 releases the port and ends the connection being served

---
 lib/go/src/thrift/tsimple_server.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..b0b68b7 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -19,12 +19,16 @@
 
 package thrift
 
+import (
+	"sync/atomic"
+)
+
 /**
  * Simple singlethreaded server for testing.
  *
  */
 type TSimpleServer struct {
-	stopped bool
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -111,12 +115,12 @@ func (p *TSimpleServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TSimpleServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for !p.isStopped() {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -125,15 +129,21 @@ func (p *TSimpleServer) Serve() error {
 			p.processRequest(client)
 		}
 	}
+	// the stop may have come before the transport started to listen
+	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TSimpleServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
+func (p *TSimpleServer) isStopped() bool {
+	return atomic.LoadInt32(&p.stopped) != 0
+}
+
 func (p *TSimpleServer) processRequest(client TTransport) {
 	processor := p.processorFactory.GetProcessor(client)
 	inputTransport := p.inputTransportFactory.GetTransport(client)
@@ -149,12 +159,10 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
-		if !ok {
+		if !ok || p.isStopped() {
 			break
 		}
 	}
-- 
2.43.0


From b9b005804a19db0c87763112540f8cd00d89a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 37/70] fix: TNonblockingServer: a stop always ends the serve
 loop and releases the port

---
 lib/go/src/thrift/tnonblocking_server.go | 26 +++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..2a9ec02 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -19,7 +19,9 @@
 
 package thrift
 
-import ()
+import (
+	"sync/atomic"
+)
 
 /**
  * A nonblocking TServer implementation. This allows for fairness amongst all
@@ -34,7 +36,7 @@ import ()
  */
 type TNonblockingServer struct {
 	/** Flag for stopping the server */
-	stopped bool
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -121,12 +123,12 @@ func (p *TNonblockingServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TNonblockingServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for !p.isStopped() {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -135,17 +137,23 @@ func (p *TNonblockingServer) Serve() error {
 			go p.processRequest(client)
 		}
 	}
+	// the stop may have come before the transport started to listen
+	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) IsStopped() bool {
-	return p.stopped
+	return p.isStopped()
+}
+
+func (p *TNonblockingServer) isStopped() bool {
+	return atomic.LoadInt32(&p.stopped) != 0
 }
 
 func (p *TNonblockingServer) processRequest(client TTransport) {
@@ -163,10 +171,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From f9520aada0c669acbbe8d91a2d2da8c473115979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 38/70] fix: binary protocol reports a failed write of a string
 even if all of its bytes were taken

---
 lib/go/src/thrift/tbinary_protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 660f7a8..6d1dad2 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -233,7 +233,11 @@ func (p *TBinaryProtocol) WriteBinaryFromReader(reader io.Reader, size int) TPro
 	if e != nil {
 		return e
 	}
-	_, err := io.CopyN(p.trans, reader, int64(size))
+	// io.CopyN would hide an error of the write that completes the copy
+	n, err := io.Copy(p.trans, io.LimitReader(reader, int64(size)))
+	if err == nil && n < int64(size) {
+		err = io.EOF
+	}
 	return NewTProtocolExceptionFromOsError(err)
 }
 
-- 
2.43.0


From 7568f98ac3d2b9f44657eee883a9b1eccab29301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 39/70] fix: JSON protocols report a failed write of a value
 even if all of its bytes were taken

---
 lib/go/src/thrift/tsimple_json_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 12dfe70..081425a 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -28,7 +28,6 @@ import (
 	"io"
 	"math"
 	"strconv"
-	"strings"
 )
 
 type _ParseContext int
@@ -676,7 +675,7 @@ func (p *TSimpleJSONProtocol) OutputString(s string) TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) OutputStringData(s string) TProtocolException {
-	_, e := io.CopyN(p.writer, strings.NewReader(s), int64(len(s)))
+	_, e := io.WriteString(p.writer, s)
 	return NewTProtocolExceptionFromOsError(e)
 }
 
-- 
2.43.0


From b1fa192aad064f35c9b23dae80c6f483b9270cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 40/70] fix: application exceptions can be read from protocols
 that name their fields

---
 lib/go/src/thrift/tapplication_exception.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..e75c870 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -86,13 +86,22 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 	type_ := int32(UNKNOWN_APPLICATION_EXCEPTION)
 
 	for {
-		_, ttype, id, er := iprot.ReadFieldBegin()
+		name, ttype, id, er := iprot.ReadFieldBegin()
 		if er != nil {
 			return nil, er
 		}
 		if ttype == STOP {
 			break
 		}
+		if ttype == GENERIC && id < 0 {
+			// the protocol gives names only, as the simple JSON protocol does
+			switch name {
+			case "message":
+				id, ttype = 1, STRING
+			case "type":
+				id, ttype = 2, I32
+			}
+		}
 		switch id {
 		case 1:
 			if ttype == STRING {
-- 
2.43.0


From ae9f1e30c7bb1fbe01b89398c9609c58e3a6a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 41/70] fix: application exception reports a failed start of
 its struct

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index e75c870..bb5f6c2 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -148,6 +148,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From 798c3cf4dd31cd619540219b49d70d2bdf6737b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 42/70] fix: HTTP client reports the end of a response only
 after its data

---
 lib/go/src/thrift/thttp_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 86a966f..f35fb56 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -123,6 +123,12 @@ func (p *THttpClient) Read(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Response buffer is empty, no request.")
 	}
 	n, err := p.response.Body.Read(buf)
+	if n > 0 {
+		// the end of the response, if this was it, is reported when there is
+		// nothing left: a buffering reader would take it for the end of the
+		// next response
+		err = nil
+	}
 	return n, NewTTransportExceptionFromOsError(err)
 }
 
-- 
2.43.0


From 4fbd87d624cddc17d84e2afbbec1e1f5074cbbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 43/70] fix: less-than queries are true exactly when the first
 value comes before the second

---
 lib/go/src/thrift/tlist.go | 3 +--
 lib/go/src/thrift/tmap.go  | 2 +-
 lib/go/src/thrift/tset.go  | 2 +-
 lib/go/src/thrift/ttype.go | 2 +-
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..e5f1ef0 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -119,8 +119,7 @@ func (p *tList) Contains(data interface{}) bool {
 }
 
 func (p *tList) Less(i, j int) bool {
-	_, less := p.elemType.Compare(p.l[i], p.l[j])
-	return less
+	return p.elemType.Less(p.l[i], p.l[j])
 }
 
 func (p *tList) Iter() <-chan interface{} {
diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..f2307e7 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -735,7 +735,7 @@ func (p *tMap) ValueIter() <-chan interface{} {
 
 func (p *tMap) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tMap) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..3c393de 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -103,7 +103,7 @@ func (p *tSet) Remove(data interface{}) {
 
 func (p *tSet) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tSet) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..8dfb57c 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -254,7 +254,7 @@ func (p TType) LessType(other interface{}) bool {
 
 func (p TType) Less(i, j interface{}) bool {
 	cmp, ok := p.Compare(i, j)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-- 
2.43.0


From ea1b51492020345c6713e627a09fc3af89c676ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 44/70] fix: byte slices compare as strings, and CompareInt64
 compares int64 values

---
 lib/go/src/thrift/tcompare.go | 2 +-
 lib/go/src/thrift/ttype.go    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..80d6897 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 8dfb57c..0303a3d 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -258,7 +258,8 @@ func (p TType) Less(i, j interface{}) bool {
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-	if p != BINARY {
+	if _, ok := i.([]byte); !ok {
+		// byte slices cannot be compared with ==
 		if i == j {
 			return 0, true
 		}
-- 
2.43.0


From a25cb7b2d981388791390709fdd7ab9954df1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 45/70] fix: list sets at its end append, and inserted values
 take the element type

---
 lib/go/src/thrift/tlist.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index e5f1ef0..38fa401 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -74,7 +74,7 @@ func (p *tList) Set(i int, data interface{}) {
 		p.elemType = TypeFromValue(data)
 	}
 	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+		if i < len(p.l) {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
@@ -105,9 +105,14 @@ func (p *tList) Swap(i, j int) {
 }
 
 func (p *tList) Insert(i int, data interface{}) {
-	newl := make([]interface{}, 1)
-	newl[0] = data
-	p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(data)
+	}
+	if data, ok := p.elemType.CoerceData(data); ok {
+		newl := make([]interface{}, 1)
+		newl[0] = data
+		p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
+	}
 }
 
 func (p *tList) Delete(i int) {
-- 
2.43.0


From 70465f9653353e8c12ec91b49063be83dc7509e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 46/70] fix: set keeps elements that come after all others,
 takes the type of its first element and counts what it holds

---
 lib/go/src/thrift/tset.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 3c393de..4e33713 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -67,10 +67,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
@@ -78,19 +75,19 @@ func (p *tSet) Contains(data interface{}) bool {
 }
 
 func (p *tSet) Add(other interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(other)
+	}
 	if data, ok := p.elemType.CoerceData(other); ok {
-		if p.l.Front() == nil {
-			p.l.PushFront(data)
-		} else {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
-					if cmp > 0 {
-						p.l.InsertBefore(data, elem)
-					}
-					return
+		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
+				if cmp > 0 {
+					p.l.InsertBefore(data, elem)
 				}
+				return
 			}
 		}
+		p.l.PushBack(data)
 	}
 }
 
-- 
2.43.0


From 816675806e36fae09bce272c3b4588bd9360ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 47/70] fix: map reports missing keys as missing, keeps values
 in its value type, iterates over map keys and counts what it holds

---
 lib/go/src/thrift/tmap.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index f2307e7..fc13098 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -99,9 +99,6 @@ func (p *tMap) ValueType() TType {
 }
 
 func (p *tMap) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
 	switch p.KeyType() {
 	case STOP, VOID:
 		return 0
@@ -119,10 +116,8 @@ func (p *tMap) Len() int {
 		return len(p.f64)
 	case STRING, UTF8, UTF16:
 		return len(p.s)
-	default:
-		return p.size
 	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
@@ -156,7 +151,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
@@ -355,43 +350,43 @@ func (p *tMap) Set(key, value interface{}) {
 			p.b = make(map[bool]interface{})
 		}
 		b := coercedKey.(bool)
-		p.b[b] = value
+		p.b[b] = coercedValue
 	case BYTE:
 		if p.i08 == nil {
 			p.i08 = make(map[byte]interface{})
 		}
 		b := coercedKey.(byte)
-		p.i08[b] = value
+		p.i08[b] = coercedValue
 	case DOUBLE:
 		if p.f64 == nil {
 			p.f64 = make(map[float64]interface{})
 		}
 		b := coercedKey.(float64)
-		p.f64[b] = value
+		p.f64[b] = coercedValue
 	case I16:
 		if p.i16 == nil {
 			p.i16 = make(map[int16]interface{})
 		}
 		b := coercedKey.(int16)
-		p.i16[b] = value
+		p.i16[b] = coercedValue
 	case I32:
 		if p.i32 == nil {
 			p.i32 = make(map[int32]interface{})
 		}
 		b := coercedKey.(int32)
-		p.i32[b] = value
+		p.i32[b] = coercedValue
 	case I64:
 		if p.i64 == nil {
 			p.i64 = make(map[int64]interface{})
 		}
 		b := coercedKey.(int64)
-		p.i64[b] = value
+		p.i64[b] = coercedValue
 	case STRING, UTF8, UTF16:
 		if p.s == nil {
 			p.s = make(map[string]interface{})
 		}
 		b := coercedKey.(string)
-		p.s[b] = value
+		p.s[b] = coercedValue
 	case BINARY, STRUCT, MAP, SET, LIST:
 		panic("Should never be here because type is " + p.KeyType().String())
 	default:
@@ -604,7 +599,7 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
@@ -661,7 +656,7 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
@@ -717,7 +712,7 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
-- 
2.43.0


From 3d2601352797c028c617d32d90ba259418cfc8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 48/70] fix: maps compare by their pairs, whatever order they
 are kept in

---
 lib/go/src/thrift/ttype.go | 42 +++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 0303a3d..f94844b 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"sort"
 	"strconv"
 )
 
@@ -438,10 +439,19 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if size := mi.Len(); size != mj.Len() {
 			return CompareInt(size, mj.Len()), true
 		}
-		if c, cok := ki.CompareValueArrays(mi.Keys(), mj.Keys()); c != 0 || !cok {
-			return c, cok
+		// maps give their pairs in any order: compare them in the order of the keys
+		pi, pj := sortedMapElems(mi), sortedMapElems(mj)
+		for k := range pi {
+			if c, cok := ki.Compare(pi[k].Key(), pj[k].Key()); c != 0 || !cok {
+				return c, cok
+			}
 		}
-		return vi.CompareValueArrays(mi.Values(), mj.Values())
+		for k := range pi {
+			if c, cok := vi.Compare(pi[k].Value(), pj[k].Value()); c != 0 || !cok {
+				return c, cok
+			}
+		}
+		return 0, true
 	case LIST:
 		li, iok := ci.(TList)
 		lj, jok := cj.(TList)
@@ -488,6 +498,32 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+type tMapElemArray struct {
+	keyType TType
+	elems   []TMapElem
+}
+
+func (p tMapElemArray) Len() int {
+	return len(p.elems)
+}
+
+func (p tMapElemArray) Less(i, j int) bool {
+	return p.keyType.Less(p.elems[i].Key(), p.elems[j].Key())
+}
+
+func (p tMapElemArray) Swap(i, j int) {
+	p.elems[i], p.elems[j] = p.elems[j], p.elems[i]
+}
+
+func sortedMapElems(m TMap) []TMapElem {
+	elems := make([]TMapElem, 0, m.Len())
+	for elem := range m.Iter() {
+		elems = append(elems, elem)
+	}
+	sort.Sort(tMapElemArray{keyType: m.KeyType(), elems: elems})
+	return elems
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From dc25b644a63c5dc0d77eacf8bbc2a9c2ba649c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 49/70] fix: struct descriptions compare field by field in the
 order of the fields

---
 lib/go/src/thrift/tfield.go | 23 ++++++++++++++++-------
 lib/go/src/thrift/ttype.go  |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 72aaf50..ae01e59 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -116,7 +116,8 @@ func (p tFieldArray) Len() int {
 }
 
 func (p tFieldArray) Less(i, j int) bool {
-	return p[i].Id() < p[j].Id()
+	cmp, ok := p[i].CompareTo(p[j])
+	return ok && cmp < 0
 }
 
 func (p tFieldArray) Swap(i, j int) {
@@ -140,17 +141,14 @@ type tFieldContainer struct {
 }
 
 func NewTFieldContainer(fields []TField) TFieldContainer {
-	sortedFields := make([]TField, len(fields))
 	nameToFieldMap := make(map[string]TField)
 	idToFieldMap := make(map[int]TField)
-	for i, field := range fields {
-		sortedFields[i] = field
+	for _, field := range fields {
 		idToFieldMap[field.Id()] = field
 		if field.Name() != "" {
 			nameToFieldMap[field.Name()] = field
 		}
 	}
-	sort.Sort(tFieldArray(sortedFields))
 	return &tFieldContainer{
 		fields:         fields,
 		nameToFieldMap: nameToFieldMap,
@@ -158,6 +156,16 @@ func NewTFieldContainer(fields []TField) TFieldContainer {
 	}
 }
 
+// sortedFields gives the fields of a container in their order
+func sortedFields(container TFieldContainer) []TField {
+	fields := make([]TField, 0, container.Len())
+	for field := range container.Iter() {
+		fields = append(fields, field)
+	}
+	sort.Sort(tFieldArray(fields))
+	return fields
+}
+
 func (p *tFieldContainer) FieldNameFromFieldId(id int) string {
 	if field, ok := p.idToFieldMap[id]; ok {
 		return field.Name()
@@ -253,8 +261,9 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 		if cmp := CompareInt(p.Len(), data.Len()); cmp != 0 {
 			return cmp, true
 		}
-		for _, field := range p.fields {
-			if cmp, ok3 := field.CompareTo(data.At(field.Id())); !ok3 || cmp != 0 {
+		others := sortedFields(data)
+		for i, field := range sortedFields(p) {
+			if cmp, ok3 := field.CompareTo(others[i]); !ok3 || cmp != 0 {
 				return cmp, ok3
 			}
 		}
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index f94844b..dddfd67 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -414,7 +414,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if cmp, ok := si.TStructFields().CompareTo(sj.TStructFields()); !ok || cmp != 0 {
 			return cmp, ok
 		}
-		for field := range si.TStructFields().Iter() {
+		for _, field := range sortedFields(si.TStructFields()) {
 			a := si.AttributeFromFieldId(field.Id())
 			b := sj.AttributeFromFieldId(field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
-- 
2.43.0


From 7a3dd7149ea96244a800f953c6ccdba923fb253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 50/70] fix: fields and messages print their numbers in decimal

---
 lib/go/src/thrift/tfield.go   | 3 ++-
 lib/go/src/thrift/tmessage.go | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index ae01e59..4c9fc2f 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"sort"
+	"strconv"
 )
 
 /**
@@ -75,7 +76,7 @@ func (p *tField) String() string {
 	if p == nil {
 		return "<nil>"
 	}
-	return "<TField name:'" + p.name + "' type:" + string(p.typeId) + " field-id:" + string(p.id) + ">"
+	return "<TField name:'" + p.name + "' type:" + strconv.Itoa(int(p.typeId)) + " field-id:" + strconv.Itoa(p.id) + ">"
 }
 
 func (p *tField) CompareTo(other interface{}) (int, bool) {
diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index caca516..02c3337 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 /**
  * Helper class that encapsulates struct metadata.
  *
@@ -56,7 +60,7 @@ func (p *tMessage) SeqId() int {
 }
 
 func (p *tMessage) String() string {
-	return "<TMessage name:'" + p.name + "' type: " + string(p.typeId) + " seqid:" + string(p.seqid) + ">"
+	return "<TMessage name:'" + p.name + "' type: " + strconv.Itoa(int(p.typeId)) + " seqid:" + strconv.Itoa(p.seqid) + ">"
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
-- 
2.43.0


From eadadd99981f9aeb9a00c89ad34e9522e4c6c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 51/70] fix: a value that is no struct does not count as an
 empty one

---
 lib/go/src/thrift/ttype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index dddfd67..c52c4f5 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -1111,7 +1111,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(TStruct); ok {
 			return b, true
 		}
-		return NewTStructEmpty(""), true
+		return NewTStructEmpty(""), false
 	case MAP:
 		if b, ok := data.(TMap); ok {
 			return b, true
-- 
2.43.0


From 1884680b3ee28f75e77c2addeff41cb4b2939b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 52/70] fix: errors of fields name the field's number in
 decimal

---
 lib/go/src/thrift/tprotocol_exception.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index d023fb7..6c46385 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/base64"
+	"strconv"
 )
 
 /**
@@ -79,7 +80,7 @@ func NewTProtocolExceptionReadField(fieldId int, fieldName string, structName st
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to read field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to read field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName string, e TProtocolException) TProtocolException {
@@ -87,7 +88,7 @@ func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName s
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to write field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to write field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionReadStruct(structName string, e TProtocolException) TProtocolException {
-- 
2.43.0


From 1ee415bb9fa745b081a2914d224a4f2f9819fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 53/70] fix: a JSON message of another protocol version is a
 bad version

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 3d28537..49a4f9b 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -198,7 +198,7 @@ func (p *TJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, se
 		return name, typeId, seqId, err
 	}
 	if version != THRIFT_JSON_PROTOCOL_VERSION {
-		return name, typeId, seqId, NewTProtocolException(INVALID_DATA, fmt.Sprint("Unknown Protocol version ", version, ", expected version ", THRIFT_JSON_PROTOCOL_VERSION, "\n"))
+		return name, typeId, seqId, NewTProtocolException(BAD_VERSION, fmt.Sprint("Unknown Protocol version ", version, ", expected version ", THRIFT_JSON_PROTOCOL_VERSION, "\n"))
 	}
 	if name, err = p.ReadString(); err != nil {
 		return name, typeId, seqId, err
-- 
2.43.0


From 583ad041ce50afaa7db3a9ee01736876b7ecc201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:00 +0000
Subject: [PATCH 54/70] fix: a stream factory makes a closed transport from a
 closed one

---
 lib/go/src/thrift/tiostream_transport.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 071ec58..f671ff9 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -48,7 +48,9 @@ func (p *TIOStreamTransportFactory) GetTransport(trans TTransport) TTransport {
 		t, ok := trans.(*TIOStreamTransport)
 		if ok {
 			if t.IsReadWriter {
-				return NewTIOStreamTransportRW(t.Reader.(io.ReadWriter))
+				// a transport that was closed has let go of its stream
+				rw, _ := t.Reader.(io.ReadWriter)
+				return NewTIOStreamTransportRW(rw)
 			}
 			if t.Reader != nil && t.Writer != nil {
 				return NewTIOStreamTransportRAndW(t.Reader, t.Writer)
@@ -63,7 +65,8 @@ func (p *TIOStreamTransportFactory) GetTransport(trans TTransport) TTransport {
 		}
 	}
 	if p.IsReadWriter {
-		return NewTIOStreamTransportRW(p.Reader.(io.ReadWriter))
+		rw, _ := p.Reader.(io.ReadWriter)
+		return NewTIOStreamTransportRW(rw)
 	}
 	if p.Reader != nil && p.Writer != nil {
 		return NewTIOStreamTransportRAndW(p.Reader, p.Writer)
-- 
2.43.0


From 4ae6676b21321f998dab966f1e5fc6432b71c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 55/70] fix: text that is a number coerces to it, and other
 text does not

---
 lib/go/src/thrift/ttype.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index c52c4f5..ae1c951 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -736,7 +736,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return byte(int(i1)), true
 			}
 		}
@@ -801,7 +801,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			d1, err := strconv.ParseFloat(b, 64)
-			if err != nil {
+			if err == nil {
 				return d1, true
 			}
 		}
@@ -860,7 +860,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int16(i1), true
 			}
 		}
@@ -919,7 +919,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int32(i1), true
 			}
 		}
@@ -978,7 +978,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.ParseInt(b, 10, 64)
-			if err != nil {
+			if err == nil {
 				return i1, true
 			}
 		}
-- 
2.43.0


From 798539ea2e080de3161ea3b9ce622bb5c25add4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 56/70] fix: a Numeric coerces to its number and not to a
 boolean

---
 lib/go/src/thrift/ttype.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index ae1c951..2da2195 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -749,7 +749,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Float64() != 0.0), true
+			return b.Float64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return float64(b), true
@@ -814,7 +814,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int16(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int16() != 0), true
+			return b.Int16(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int16(b), true
@@ -873,7 +873,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int32(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int32() != 0), true
+			return b.Int32(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int32(b), true
@@ -935,7 +935,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int64(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int64() != 0), true
+			return b.Int64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int64(b), true
-- 
2.43.0


From 4aa83cb805d989c8b3b2e0cc26d1fc03486d89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 57/70] fix: the text of a number is its decimal form

---
 lib/go/src/thrift/tnumeric.go |  6 ++---
 lib/go/src/thrift/ttype.go    | 48 +++++++++++++++++------------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index aa8daa9..5a2797c 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -62,21 +62,21 @@ func NewNumericFromDouble(dValue float64) Numeric {
 		return NAN
 	}
 	iValue := int64(dValue)
-	sValue := strconv.FormatFloat(dValue, 'g', 10, 64)
+	sValue := strconv.FormatFloat(dValue, 'g', -1, 64)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI64(iValue int64) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(iValue, 10)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI32(iValue int32) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: int64(iValue), dValue: dValue, sValue: sValue, isNil: isNil}
 }
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 2da2195..cf86e43 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -989,7 +989,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return string(i1), true
+				return strconv.Itoa(i1), true
 			}
 			return b.String(), true
 		}
@@ -1000,10 +1000,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(int); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(byte); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1012,31 +1012,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return "false", true
 		}
 		if b, ok := data.(int8); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int16); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int32); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int64); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(uint); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint8); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint16); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint32); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint64); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(float32); ok {
 			return strconv.FormatFloat(float64(b), 'g', -1, 32), true
@@ -1051,7 +1051,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return []byte(string(i1)), true
+				return []byte(strconv.Itoa(i1)), true
 			}
 			return []byte(b.String()), true
 		}
@@ -1062,10 +1062,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte(b), true
 		}
 		if b, ok := data.(int); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(byte); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1074,31 +1074,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte("false"), true
 		}
 		if b, ok := data.(int8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(uint); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(float32); ok {
 			return []byte(strconv.FormatFloat(float64(b), 'g', -1, 32)), true
-- 
2.43.0


From 739e49bb95328a29c673deaf44e89b398efea2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 58/70] fix: an enum value coerces to its number

---
 lib/go/src/thrift/ttype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index cf86e43..f8a5307 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -625,6 +625,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			panic("Invalid thrift type to coerce")
 		}
 	}
+	if b, ok := data.(Enumer); ok && (p.IsInt() || p == BOOL || p == DOUBLE) {
+		data = b.Value()
+	}
 	switch p {
 	case STOP:
 		return nil, true
-- 
2.43.0


From 3e9bb531b31b05f2db90ce2b6e68f17c335b330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 59/70] fix: struct fields with a container or struct default
 get that default

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index eafbb71..b94bdc9 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -953,7 +953,7 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const bool type_is_enum = type->is_enum();
 
         if (has_default_value) {
-            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, base_field_name) << endl;
+            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, full_field_name) << endl;
         } else if (type_is_enum) {
             out << indent() << full_field_name << " = math.MinInt32 - 1" << endl;
         }
-- 
2.43.0


From 7b66e475bc314286653ecfc9be462dabf8895200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 60/70] fix: generated double constants keep all their digits

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index b94bdc9..78a8e2f 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -705,6 +705,8 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             if (value->get_type() == t_const_value::CV_INTEGER) {
                 out << value->get_integer();
             } else {
+                // the shortest form loses digits, 17 digits give the value back
+                out.precision(17);
                 out << value->get_double();
             }
 
@@ -1062,7 +1064,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
             indent_up();
             string s_check_value;
             int64_t i_check_value;
-            double d_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1097,9 +1098,9 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                     break;
 
                 case t_base_type::TYPE_DOUBLE:
-                    d_check_value = (field_default_value == NULL) ? 0.0 : field_default_value->get_double();
+                    s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-                        indent() << "return p." << field_name << " != " << d_check_value << endl;
+                        indent() << "return p." << field_name << " != " << s_check_value << endl;
                     break;
 
                 default:
-- 
2.43.0


From 754db26b1a47548064e1be0a622a03f7ddd34cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 61/70] fix: generated containers hold and expect elements of
 the declared types

---
 compiler/cpp/src/generate/t_go_generator.cc | 47 ++++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 78a8e2f..e92c90a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -213,6 +213,7 @@ public:
     std::string argument_list(t_struct* tstruct);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
+    std::string type_to_element_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
 
     static std::string get_real_go_module(const t_program* program) {
@@ -2544,11 +2545,8 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
             "\", " << structName << ", " << err2 << "); }" << endl;
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
-            if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
-            } else {
-                indent(out) << name << " := " << v << endl;
-            }
+            // an element of a container, see type_to_element_type
+            indent(out) << name << " := " << v << endl;
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
                 indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
@@ -2596,13 +2594,6 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
         string err)
 {
     string size = tmp("_size");
-    string ktype = tmp("_ktype");
-    string vtype = tmp("_vtype");
-    string etype = tmp("_etype");
-    t_field fsize(g_type_i32, size);
-    t_field fktype(g_type_byte, ktype);
-    t_field fvtype(g_type_byte, vtype);
-    t_field fetype(g_type_byte, etype);
     string eq(" = ");
 
     if (declare) {
@@ -2612,34 +2603,34 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
     // Declare variables, read header
     if (ttype->is_map()) {
         out <<
-            indent() << ktype << ", " << vtype << ", " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
+            indent() << "_, _, " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTMap(" << ktype << ", " << vtype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTMap(" << type_to_enum(((t_map*)ttype)->get_key_type()) << ", " << type_to_enum(((t_map*)ttype)->get_val_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_set()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTSet(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTSet(" << type_to_enum(((t_set*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_list()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTList(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTList(" << type_to_enum(((t_list*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else {
         throw "INVALID TYPE IN generate_deserialize_container '" + ttype->get_name() + "' for prefix '" + prefix + "'";
     }
@@ -2894,7 +2885,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         t_map* tmap = (t_map*)ttype;
         out <<
             indent() << "for " << miter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_type(tmap->get_val_type()) << ")" << endl;
+            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_element_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_element_type(tmap->get_val_type()) << ")" << endl;
         indent_up();
         generate_serialize_map_element(out, tmap, kiter, viter);
         indent_down();
@@ -2905,7 +2896,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := " << prefix << ".Front(); " << iter << " != nil; " << iter << " = " << iter << ".Next() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_type(tset->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_element_type(tset->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_set_element(out, tset, iter2);
         indent_down();
@@ -2916,7 +2907,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_type(tlist->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_element_type(tlist->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_list_element(out, tlist, iter2);
         indent_down();
@@ -3317,6 +3308,20 @@ string t_go_generator::type_to_go_type(t_type* type)
     throw "INVALID TYPE IN type_to_go_type: " + type->get_name();
 }
 
+/**
+ * Gives the go type that the containers of the library hold for elements of
+ * a type: they know neither enums nor typedefs.
+ */
+string t_go_generator::type_to_element_type(t_type* type)
+{
+    type = get_true_type(type);
+
+    if (type->is_enum()) {
+        return "int32";
+    }
+
+    return type_to_go_type(type);
+}
 
 /**
  * Converts the parse type to a go tyoe
-- 
2.43.0


From 1e090bb3ff8f405918aaffa7a3d7aa3a8168eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 62/70] fix: a field of a typedef'd enum is written only when
 it is set

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index e92c90a..b1beb00 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1349,7 +1349,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent_up();
         }
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             out <<
                 indent() << "if p.IsSet" << publicize(variable_name_to_go_name(field_name)) << "() {" << endl;
             indent_up();
@@ -1374,7 +1374,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name << "\", " <<
             "p.ThriftName(), err); }" << endl;
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             indent_down();
             out <<
                 indent() << "}" << endl;
-- 
2.43.0


From 6b55e6ff206b43f259f07f033090bdb2663b07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 63/70] fix: a typedef of a struct is used as the struct

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index b1beb00..5f2d44f 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -3302,6 +3302,13 @@ string t_go_generator::type_to_go_type(t_type* type)
         //string elemType = type_to_go_type(t->get_elem_type());
         //return string("[]") + elemType;
     } else if (type->is_typedef()) {
+        t_type* true_type = get_true_type(type);
+
+        if (true_type->is_struct() || true_type->is_xception()) {
+            // a defined pointer type has none of the methods of the struct
+            return type_to_go_type(true_type);
+        }
+
         return publicize(((t_typedef*)type)->get_symbolic());
     }
 
-- 
2.43.0


From 29ea87d779b96d1448371f1635545cb9fc5124f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 64/70] fix: struct constants with fields named like keywords
 or of typedef'd types compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 5f2d44f..7af7df1 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -741,15 +741,15 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
                 throw "type error: " + type->get_name() + " has no field " + v_iter->first->get_string();
             }
 
-            if (field_type->is_base_type() || field_type->is_enum()) {
+            if (get_true_type(field_type)->is_base_type() || get_true_type(field_type)->is_enum()) {
                 out <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
             } else {
                 string k(tmp("k"));
                 string v(tmp("v"));
                 out <<
                     indent() << v << " := " << render_const_value(field_type, v_iter->second, v) << endl <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << v << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << v << endl;
             }
         }
 
-- 
2.43.0


From 6d0e0143d04527ffa3d2788456c0f5eb783cc070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 65/70] fix: constants of container types are exported

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 7af7df1..aa16846 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -655,7 +655,12 @@ void t_go_generator::generate_enum(t_enum* tenum)
 void t_go_generator::generate_const(t_const* tconst)
 {
     t_type* type = tconst->get_type();
-    string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
+    string name = publicize(tconst->get_name());
+
+    if (!type->get_name().empty()) {
+        name = publicize(type->get_name()) + "_" + name;
+    }
+
     t_const_value* value = tconst->get_value();
 
     if (type->is_base_type() || type->is_enum()) {
-- 
2.43.0


From 16c2dc4e76e952d5af88c361f59395ff3c90760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 66/70] fix: comparing generated structs compares the values of
 their fields

---
 lib/go/src/thrift/ttype.go | 46 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index f8a5307..e542aba 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"reflect"
 	"sort"
 	"strconv"
 )
@@ -415,8 +416,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 			return cmp, ok
 		}
 		for _, field := range sortedFields(si.TStructFields()) {
-			a := si.AttributeFromFieldId(field.Id())
-			b := sj.AttributeFromFieldId(field.Id())
+			a, b := structAttributes(si, sj, field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
 				return cmp, ok
 			}
@@ -524,6 +524,48 @@ func sortedMapElems(m TMap) []TMapElem {
 	return elems
 }
 
+// structAttributes gives the values of a field of two structs. Generated structs
+// have AttributeByFieldId; the AttributeFromFieldId that they inherit knows none
+// of their fields.
+func structAttributes(si, sj TStruct, fieldId int) (interface{}, interface{}) {
+	type generated interface {
+		AttributeByFieldId(id int) interface{}
+	}
+	if gi, ok := si.(generated); ok {
+		if gj, ok := sj.(generated); ok {
+			return plainValue(gi.AttributeByFieldId(fieldId)), plainValue(gj.AttributeByFieldId(fieldId))
+		}
+	}
+	return si.AttributeFromFieldId(fieldId), sj.AttributeFromFieldId(fieldId)
+}
+
+// plainValue gives a value as one of a predeclared type where its own type is
+// defined in terms of one, and nil for a nil pointer.
+func plainValue(value interface{}) interface{} {
+	v := reflect.ValueOf(value)
+	switch v.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			return nil
+		}
+	case reflect.Bool:
+		return v.Bool()
+	case reflect.Uint8:
+		return byte(v.Uint())
+	case reflect.Int16, reflect.Int32, reflect.Int64:
+		return v.Int()
+	case reflect.Float64:
+		return v.Float()
+	case reflect.String:
+		return v.String()
+	case reflect.Slice:
+		if v.Type().Elem().Kind() == reflect.Uint8 && v.Type().Name() != "" {
+			return v.Bytes()
+		}
+	}
+	return value
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 8f6e32946087a1310e29b079f55ec6f65b3d948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 67/70] fix: a oneway call is not answered

---
 compiler/cpp/src/generate/t_go_generator.cc | 40 ++++++++++++++++-----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index aa16846..ff0e01e 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2328,16 +2328,28 @@ void t_go_generator::generate_process_function(t_service* tservice,
     f_service_ <<
                indent() << "args := New" << argsname << "()" << endl <<
                indent() << "if err = args.Read(iprot); err != nil {" << endl <<
-               indent() << "  iprot.ReadMessageEnd()" << endl <<
-               indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
-               indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-               indent() << "  x.Write(oprot)" << endl <<
-               indent() << "  oprot.WriteMessageEnd()" << endl <<
-               indent() << "  oprot.Transport().Flush()" << endl <<
+               indent() << "  iprot.ReadMessageEnd()" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
+                   indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
+                   indent() << "  x.Write(oprot)" << endl <<
+                   indent() << "  oprot.WriteMessageEnd()" << endl <<
+                   indent() << "  oprot.Transport().Flush()" << endl;
+    }
+
+    f_service_ <<
                indent() << "  return" << endl <<
                indent() << "}" << endl <<
-               indent() << "iprot.ReadMessageEnd()" << endl <<
-               indent() << "result := New" << resultname << "()" << endl <<
+               indent() << "iprot.ReadMessageEnd()" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "result := New" << resultname << "()" << endl;
+    }
+
+    f_service_ <<
                indent() << "if ";
 
     if (!tfunction->is_oneway()) {
@@ -2372,6 +2384,18 @@ void t_go_generator::generate_process_function(t_service* tservice,
         f_service_ << "args." << publicize(variable_name_to_go_name((*f_iter)->get_name()));
     }
 
+    if (tfunction->is_oneway()) {
+        // nobody waits for a reply
+        f_service_ << "); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "return true, err" << endl;
+        indent_down();
+        f_service_ <<
+                   indent() << "}" << endl << endl;
+        return;
+    }
+
     f_service_ << "); err != nil {" << endl <<
                indent() << "  x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, \"Internal error processing " << escape_string(tfunction->get_name()) << ": \" + err.Error())" << endl <<
                indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-- 
2.43.0


From 6582a607f33157605d458545c456df297cf12d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 68/70] fix: exceptions of a method may be named like Go
 keywords

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index ff0e01e..26f24dc 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1776,8 +1776,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
-                           indent() << "if " << result << "." << publicize((*x_iter)->get_name()) << " != nil {" << endl <<
-                           indent() << "  " << (*x_iter)->get_name() << " = " << result << "." << publicize((*x_iter)->get_name()) << endl <<
+                           indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
+                           indent() << "  " << variable_name_to_go_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
-- 
2.43.0


From 64a098e9629c745bf59f2d21eac3e91adf4998f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 69/70] fix: a service can extend another service

---
 compiler/cpp/src/generate/t_go_generator.cc | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 26f24dc..f4abac2 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1410,16 +1410,19 @@ void t_go_generator::generate_service(t_service* tservice)
 {
     string f_service_name = package_dir_ + "/" + service_name_ + ".go";
     f_service_.open(f_service_name.c_str());
+    // The imports come first in a file, and a package does not import itself
+    string extends_import = "";
+
+    if (tservice->get_extends() != NULL && tservice->get_extends()->get_program() != program_) {
+        extends_import = "import \"" + get_real_go_module(tservice->get_extends()->get_program()) + "\"\n";
+    }
+
     f_service_ <<
                go_autogen_comment() <<
                go_package() <<
+               extends_import <<
                go_imports();
 
-    if (tservice->get_extends() != NULL) {
-        f_service_ <<
-                   "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
-    }
-
     f_service_ <<
                //             "import (" << endl <<
                // indent() << "        \"os\"" << endl <<
@@ -1538,6 +1541,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
     string extends = "";
     string extends_client = "";
     string extends_client_new = "";
+    string extends_client_field = ""; // an embedded field goes by the name without the package
     string serviceName(publicize(tservice->get_name()));
 
     if (tservice->get_extends() != NULL) {
@@ -1551,6 +1555,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
             extends_client = publicize(extends) + "Client";
             extends_client_new = "New" + extends_client;
         }
+
+        extends_client_field = publicize(index != string::npos ? extends.substr(index + 1) : extends) + "Client";
     }
 
     generate_go_docstring(f_service_, tservice);
@@ -1583,7 +1589,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Factory(t, f)}";
+                   "{" << extends_client_field << ": " << extends_client_new << "Factory(t, f)}";
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -1609,7 +1615,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
+                   "{" << extends_client_field << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -3207,7 +3213,7 @@ string t_go_generator::type_name(t_type* ttype)
 {
     t_program* program = ttype->get_program();
 
-    if (ttype->is_service()) {
+    if (ttype->is_service() && program != program_) {
         return get_real_go_module(program) + "." + ttype->get_name();
     }
 
-- 
2.43.0


From cfda23e5fdc909f015c756d887ae90edbdbe4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:34 +0000
Subject: [PATCH 70/70] fix: programs without structs and services without
 methods compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index f4abac2..dfb3ba2 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -478,6 +478,13 @@ void t_go_generator::init_generator()
              go_imports() <<
              render_includes() <<
              render_fastbinary_includes() << endl << endl;
+
+    // Structs use all imports, a program without them may use none
+    if (program_->get_structs().empty() && program_->get_xceptions().empty()) {
+        f_types_ <<
+                 "var _ = fmt.Sprint" << endl <<
+                 "var _ thrift.TType" << endl << endl;
+    }
 }
 
 /**
@@ -1429,6 +1436,12 @@ void t_go_generator::generate_service(t_service* tservice)
                // indent() << ")" << endl << endl <<
                render_fastbinary_includes();
     f_service_ << endl;
+
+    // Methods use all imports, a service without them may not
+    if (tservice->get_functions().empty()) {
+        f_service_ << "var _ = fmt.Sprint" << endl << endl;
+    }
+
     generate_service_interface(tservice);
     generate_service_client(tservice);
     generate_service_server(tservice);
-- 
2.43.0

