From da3459f7697e5c8e051bdbcf829b87a30d636ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 01/67] fix: amf: read the full length of byte and string
 fields

A field was read with a single Read call, so a reader that returns short
reads made a valid message fail, and an empty trailing string hit EOF.
Memory for a field is now bounded by the data that is really there instead
of by the length the peer claims.
---
 amf/helper.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..04c4447 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -1,6 +1,7 @@
 package amf
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 )
@@ -60,19 +61,25 @@ func readByte(r io.Reader) (byte, error) {
 	return bytes[0], nil
 }
 
-// 读多字节
+// 单次预分配的最大字节数, 超出部分随实际读取的数据增长(长度字段来自对端, 不可信)
+const maxPrealloc = 64 * 1024
+
+// 读多字节(读满n个字节, 否则返回错误)
 func readBytes(r io.Reader, n int) ([]byte, error) {
-	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
-	if err != nil {
+	if n <= maxPrealloc {
+		bytes := make([]byte, n)
+		_, err := io.ReadFull(r, bytes)
+
 		return bytes, err
 	}
 
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(n))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
 
-	return bytes, nil
+	return buf.Bytes(), err
 }
 
 // 下一个字节一定是target, 否则返回错误
-- 
2.43.0


From 1a2ab8e615467f20d798ce3d788f5074601d7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 02/67] fix: amf: report a value that is cut off instead of a
 clean end

A message that ended inside a value returned io.EOF, which DecodeBatch takes
for the regular end of input, so a truncated message was accepted.
---
 amf/amf0.go   | 12 +++++++++---
 amf/amf3.go   |  9 ++++++++-
 amf/helper.go |  9 +++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..610928d 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,12 +49,19 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	val, err := ed.decodeValue(r, marker)
+
+	return val, unexpectedEOF(err)
+}
+
+// 解析marker之后的数据
+func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error) {
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
 		// format: 8 byte big endian float64
 		var f64 float64
-		err = binary.Read(r, binary.BigEndian, &f64)
+		err := binary.Read(r, binary.BigEndian, &f64)
 		if err != nil {
 			return f64, err
 		}
@@ -63,8 +70,7 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
 		// format: 1 byte, 0x00 = false, 0x01 = true
-		var flag byte
-		flag, err = readByte(r)
+		flag, err := readByte(r)
 		if err != nil {
 			return nil, err
 		}
diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..ea3eb46 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,13 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	val, err := ed.decodeValue(r, marker)
+
+	return val, unexpectedEOF(err)
+}
+
+// 解析marker之后的数据
+func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error) {
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
@@ -87,7 +94,7 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return ed.readUint29(r)
 	case doubleMarkerOnAMF3:
 		var f64 float64
-		err = binary.Read(r, binary.BigEndian, &f64)
+		err := binary.Read(r, binary.BigEndian, &f64)
 		if err != nil {
 			return f64, err
 		}
diff --git a/amf/helper.go b/amf/helper.go
index 04c4447..461dfe2 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -96,3 +96,12 @@ func nextByteMustBe(r io.Reader, target byte) error {
 
 	return nil
 }
+
+// 一个值解析到一半时遇到的EOF说明数据被截断, 与正常结束(io.EOF)区分开
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
-- 
2.43.0


From bdd77abc992e77c4bf6ab913ce7d980b10c40d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 03/67] fix: amf: bound the nesting depth while decoding

A few megabytes of nested arrays overflowed the goroutine stack, which ends
the process and cannot be recovered.
---
 amf/amf0.go   | 8 ++++++++
 amf/amf3.go   | 8 ++++++++
 amf/helper.go | 3 +++
 3 files changed, 19 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 610928d..222792a 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -2,6 +2,7 @@ package amf
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -49,6 +50,13 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// 嵌套深度由对端决定, 需要限制, 否则会耗尽调用栈
+	if ed.depth >= maxDecodeDepth {
+		return nil, errors.New("decode amf0: nested too deep")
+	}
+	ed.depth++
+	defer func() { ed.depth-- }()
+
 	val, err := ed.decodeValue(r, marker)
 
 	return val, unexpectedEOF(err)
diff --git a/amf/amf3.go b/amf/amf3.go
index ea3eb46..569d987 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -55,6 +55,7 @@ type EnDecAMF3 struct {
 	deObjTable       []interface{}
 	traitTable       []TraitAMF3
 	externalHandlers map[string]ExternalHandler
+	depth            int // 当前嵌套深度
 }
 
 // NewEnDecAMF3 AMF3协议解析器
@@ -76,6 +77,13 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// 嵌套深度由对端决定, 需要限制, 否则会耗尽调用栈
+	if ed.depth >= maxDecodeDepth {
+		return nil, errors.New("decode amf3: nested too deep")
+	}
+	ed.depth++
+	defer func() { ed.depth-- }()
+
 	val, err := ed.decodeValue(r, marker)
 
 	return val, unexpectedEOF(err)
diff --git a/amf/helper.go b/amf/helper.go
index 461dfe2..b242287 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -64,6 +64,9 @@ func readByte(r io.Reader) (byte, error) {
 // 单次预分配的最大字节数, 超出部分随实际读取的数据增长(长度字段来自对端, 不可信)
 const maxPrealloc = 64 * 1024
 
+// 解码时允许的最大嵌套深度
+const maxDecodeDepth = 10000
+
 // 读多字节(读满n个字节, 否则返回错误)
 func readBytes(r io.Reader, n int) ([]byte, error) {
 	if n <= maxPrealloc {
-- 
2.43.0


From b6cb36a3f51053e0e3227227555ca040a6514234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 04/67] fix: amf0: reject a reference one past the reference
 table

The bound check was off by one, so the first invalid index panicked.
---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 222792a..c23a38b 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -196,7 +196,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From 2c29bde2f1f5b75e305d98905bdd44ae5e2b6f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 05/67] fix: amf0: encode a date without an inner number marker

The date body is a bare double. The extra marker byte shifted everything
that follows, so an encoded date could not be decoded.
---
 amf/amf0.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index c23a38b..3077889 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -619,12 +619,11 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From 166836e27a5b096fadde890adb2ea12e68138b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 06/67] fix: amf0: resolve references to strict arrays and
 typed objects

The table kept the empty value stored before the elements were read, and a
typed object took two table entries, which shifted every later reference.
---
 amf/amf0.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 3077889..1eb227c 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -229,8 +229,9 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 		return nil, err
 	}
 
-	// 初始化数组
+	// 初始化数组, 先占据引用表中的位置
 	var result Array
+	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -242,6 +243,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 		result = append(result, val)
 	}
+	ed.deRefCache[index] = result
 
 	return result, nil
 }
@@ -281,7 +283,6 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	// 数组化类型数组
 	var result TypedObject
-	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 读取类型
 	typeVal, err := ed.decodeString(r)
@@ -289,7 +290,8 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 		return result, err
 	}
 
-	// 读取对象
+	// 读取对象(由decodeObject占据引用表中的位置)
+	index := len(ed.deRefCache)
 	objectVal, err := ed.decodeObject(r)
 	if err != nil {
 		return result, err
@@ -300,6 +302,7 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 		Type:   typeVal,
 		Object: objectVal,
 	}
+	ed.deRefCache[index] = result
 
 	return result, nil
 }
-- 
2.43.0


From 931c06ff45681882733e7f7c9a2f53f242af65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 07/67] fix: amf: allow external handlers on an AMF0 codec

NewEnDecAMF0 leaves the embedded handler map nil, so registering a handler
panicked.
---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 569d987..7271bf4 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -67,6 +67,10 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
+
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From 66699138b334a04fc114cf4adb176e5861aa1ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 08/67] fix: amf0: report a failed marker write

EncodeWithAMF3 and EncodeXmlDocument returned success when the writer failed
on the first byte.
---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 1eb227c..cde2a8e 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -374,7 +374,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -389,7 +389,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From 1e11ba8ec31524e87f038db5aaa381bab1e1e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 09/67] fix: amf0: refuse keys that the format cannot hold

A key or type name over 65535 bytes wrote a wrapped length, and an empty key
reads as the end of the object; both silently corrupted the message.
---
 amf/amf0.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index cde2a8e..d458744 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -508,6 +508,11 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 	var n int
 	var err error
 
+	// 长度字段只有16位
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("encode amf0: string is too long(%d)", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, stringMarkerOnAMF0)
 		if err != nil {
@@ -546,6 +551,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空key是结束符的一部分, 无法表示
+		if k == "" {
+			return 0, errors.New("encode amf0: empty object key")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From 5e533d4c37d2ee57db0aa775896710c8e296ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 10/67] fix: amf3: encode and decode integers as signed 29 bit
 values

Negative integers failed to encode (out of range), and values from 2^28 up
were written as integers that any AMF3 peer reads as negative numbers.
---
 amf/amf3.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 7271bf4..4871e82 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -32,6 +32,12 @@ const (
 	dictionaryMarkerOnAMF3   = 0x11
 )
 
+// AMF3的integer是29位有符号整数, 超出范围的整数使用double
+const (
+	minInt29 = -(1 << 28)
+	maxInt29 = 1<<28 - 1
+)
+
 // TraitAMF3 AMF3特性表
 type TraitAMF3 struct {
 	Type           string
@@ -103,7 +109,7 @@ func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error)
 	case trueMarkerOnAMF3:
 		return true, nil
 	case integerMarkerOnAMF3:
-		return ed.readUint29(r)
+		return ed.decodeInteger(r)
 	case doubleMarkerOnAMF3:
 		var f64 float64
 		err := binary.Read(r, binary.BigEndian, &f64)
@@ -153,6 +159,20 @@ func (ed *EnDecAMF3) DecodeBatch(r io.Reader) ([]interface{}, error) {
 
 // ======================================================================
 
+// 29位有符号整数, 非负数为uint32类型, 负数为int32类型
+func (ed *EnDecAMF3) decodeInteger(r io.Reader) (interface{}, error) {
+	u29, err := ed.readUint29(r)
+	if err != nil {
+		return nil, err
+	}
+
+	if u29 > maxInt29 {
+		return int32(u29) - 1<<29, nil
+	}
+
+	return u29, nil
+}
+
 func (ed *EnDecAMF3) decodeString(r io.Reader) (string, error) {
 	isRef, refVal, err := ed.decodeUint29(r)
 	if err != nil {
@@ -586,13 +606,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
-			return ed.encodeInteger(w, uint32(v.Int()))
+		if v.Int() >= minInt29 && v.Int() <= maxInt29 {
+			return ed.encodeInteger(w, uint32(v.Int())&0x1FFFFFFF)
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() <= maxInt29 {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From 1e250be17c01b007dd4965bedf78547b17efa0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 11/67] fix: amf3: recognise dynamic and externalizable objects

The trait bits and the external field bits other than bit 0 were compared
with 1, so they were never seen and the rest of the message was misread.
---
 amf/amf3.go          | 4 ++--
 amf/amf3_external.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 4871e82..be72c01 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -338,10 +338,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From cb36f2e5c53253a0f0a8c9a5800c076095cdc0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 12/67] fix: amf3: resolve references to arrays and objects

The object table kept the empty value stored before the members were read,
and an ArrayCollection took one entry too many.
---
 amf/amf3.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index be72c01..c71d0f7 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -274,8 +274,9 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 		return EcmaArrayAMF3{}, err
 	}
 
-	// 初始化数组
+	// 初始化数组, 先占据引用表中的位置
 	var result EcmaArrayAMF3
+	tableIndex := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
 	result.dense = make(Array, refVal)
@@ -302,6 +303,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 			return EcmaArrayAMF3{}, err
 		}
 	}
+	ed.deObjTable[tableIndex] = result
 
 	return result, nil
 }
@@ -362,7 +364,9 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		ed.traitTable = append(ed.traitTable, trait)
 	}
 
+	// 先占据引用表中的位置
 	var result interface{}
+	tableIndex := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -387,9 +391,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			if err != nil {
 				return nil, err
 			}
-
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -404,11 +405,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		}
 
 		// 外部函数调用完即可结束
+		ed.deObjTable[tableIndex] = result
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[tableIndex] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
-- 
2.43.0


From 65122cfb7618687e78cb905fb4210336ef69ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 13/67] fix: amf3: read xml and byte arrays completely

Both were read with a single Read call and kept zero bytes for what was
missing, and empty ones were left out of the object table.
---
 amf/amf3.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index c71d0f7..14a154c 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -473,14 +473,8 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -514,14 +508,8 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2e7bf8a466deedae31565bbeb1894aae08f7730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 14/67] fix: amf3: do not allocate for a claimed element count

A five byte message made the decoder allocate gigabytes for array elements
or trait properties that were never sent.
---
 amf/amf3.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 14a154c..237b5a0 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -279,7 +279,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 	tableIndex := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
+	result.dense = make(Array, 0)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -298,10 +298,12 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		val, err := ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+
+		result.dense = append(result.dense, val)
 	}
 	ed.deObjTable[tableIndex] = result
 
@@ -353,12 +355,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			property, err := ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+
+			trait.Properties = append(trait.Properties, property)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
-- 
2.43.0


From ef8619b2673569360a4040334ae1beb71171b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 15/67] fix: amf: strip exactly the decoded @setDataFrame
 header

The AMF0 length of the header was removed even when the header came in
another encoding, which cut into the metadata or panicked.
---
 amf/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..5abfd16 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,7 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From bd72bc1627976a3fd875770d4312f81b87b2d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 16/67] fix: flv: leave the metadata packet unchanged when
 muxing

Mux cut the @setDataFrame header off the caller's packet, so the other
receivers of a shared packet no longer saw it.
---
 container/flv/muxer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..cb94c39 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -96,6 +96,7 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 // Mux 将数据转换为FLV格式
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
+	data := p.Data
 
 	// 数据预处理
 	switch p.Type {
@@ -108,18 +109,17 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		typeID = packet.TagScriptDataAMF0
 
 		// 从[SetDataFrame, data]数据中提取出data(SetDataFrame是RTMP信令, 在rtmp场景外, 应该剔除在外, 只保留数据)
-		data, err := amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
+		var err error
+		data, err = amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
 		if err != nil {
 			return err
 		}
-
-		p.Data = data
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// Flv data length
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(data))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -138,7 +138,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f6aa0d8dcab6a7938bb7a1fd5fe13dcf91be78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 17/67] fix: flv: refuse tag data that does not fit the 24 bit
 size

The size was masked, so every tag after an oversized one was unreadable.
---
 container/flv/muxer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index cb94c39..d474eaf 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -12,7 +12,10 @@ import (
 	"github.com/moggle-mog/goav/amf"
 )
 
-const tagHdrLen = 11
+const (
+	tagHdrLen  = 11
+	maxDataLen = 0xffffff
+)
 
 // Muxer FLV复用器
 type muxer struct {
@@ -118,6 +121,11 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
+	// DataSize字段只有24位
+	if len(data) > maxDataLen {
+		return fmt.Errorf("tag data is too long(%d)", len(data))
+	}
+
 	// Flv data length
 	dataLen := uint32(len(data))
 
-- 
2.43.0


From 893d72124a72eb25f42e2b82c1a207f03c2f6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 18/67] fix: flv: read the composition time as a signed 24 bit
 value

Negative offsets came out as large positive ones, and parsing with a used
Tag mixed the old value in.
---
 container/flv/tag.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..80b013b 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -131,9 +131,7 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		tag.media.avcType = b[1]
 
 		// [3:5] 时间戳
-		for i := 2; i < 5; i++ {
-			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
-		}
+		tag.media.compositionTime = int32(int8(b[2]))<<16 | int32(b[3])<<8 | int32(b[4])
 		n += 4
 	}
 
-- 
2.43.0


From e67b0aa108c5dc5da4fb8ae6ce1fdf28e956d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 19/67] fix: h264: replace the parameter sets when a new
 sequence header arrives

They were appended, so every key frame after a reconfiguration carried the
stale SPS/PPS too, and the header grew with each repetition.
---
 parser/h264/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..1493dba 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -87,8 +87,8 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	pps = append(pps, startCode...)
 	pps = append(pps, tmpBuf[3:]...)
 
-	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
+	// 向specificInfo填充SPS和PPS(替换旧的序列头)
+	p.specificInfo = append([]byte(nil), sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
 
 	return nil
-- 
2.43.0


From 20d7cebc196bc990c8d16f3569b3c488e4a07dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 20/67] fix: h264: honour the parameter set counts of the
 sequence header

Only one SPS and one PPS were read and everything behind the first PPS, other
sets or the High profile extension, was emitted as part of it.
---
 parser/h264/parser.go | 51 ++++++++++++++++++++++++++++---------------
 parser/h264/type.go   |  2 --
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 1493dba..9aa1feb 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -51,9 +51,6 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete data, len(src)<9")
 	}
 
-	var sps []byte
-	var pps []byte
-
 	var seq sequenceHeader
 
 	// 填充 AVCDecoderConfigurationRecord
@@ -66,26 +63,21 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	seq.reserved2 = src[5] >> 5
 
 	// 提取SPS
-	seq.spsNum = src[5] & 0x1f                /* [3:7]SPS数量, 一般为1 */
-	seq.spsLen = int(src[6])<<8 | int(src[7]) /* [0:15]SPS长度 */
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return errors.New("incomplete sps data")
+	seq.spsNum = src[5] & 0x1f /* [3:7]SPS数量, 一般为1 */
+	sps, tmpBuf, err := p.parameterSets(src[6:], int(seq.spsNum))
+	if err != nil {
+		return fmt.Errorf("incomplete sps data: %s", err)
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
 	// 提取PPS
-	tmpBuf := src[(8 + seq.spsLen):]
-	if len(tmpBuf) < 4 {
+	if len(tmpBuf) < 1 {
 		return errors.New("incomplete pps header")
 	}
-	seq.ppsNum = tmpBuf[0]                          /* PPS数量 */
-	seq.ppsLen = int(tmpBuf[1])<<8 | int(tmpBuf[2]) /* [0:15]PPS长度 */
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return errors.New("incomplete pps data")
+	seq.ppsNum = tmpBuf[0] /* PPS数量 */
+	pps, _, err := p.parameterSets(tmpBuf[1:], int(seq.ppsNum))
+	if err != nil {
+		return fmt.Errorf("incomplete pps data: %s", err)
 	}
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
 
 	// 向specificInfo填充SPS和PPS(替换旧的序列头)
 	p.specificInfo = append([]byte(nil), sps...)
@@ -94,6 +86,31 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	return nil
 }
 
+// [AVCC格式]提取num个参数集(2字节长度+数据), 返回带start code的参数集和剩余的数据
+func (p *Parser) parameterSets(src []byte, num int) (sets, rest []byte, err error) {
+	if num <= 0 {
+		return nil, nil, errors.New("no parameter set")
+	}
+
+	for i := 0; i < num; i++ {
+		if len(src) < 2 {
+			return nil, nil, errors.New("incomplete length")
+		}
+
+		size := int(src[0])<<8 | int(src[1]) /* [0:15]参数集长度 */
+		src = src[2:]
+		if len(src) < size || size <= 0 {
+			return nil, nil, errors.New("incomplete data")
+		}
+
+		sets = append(sets, startCode...)
+		sets = append(sets, src[:size]...)
+		src = src[size:]
+	}
+
+	return sets, src, nil
+}
+
 // 判断数据是否是以NALU头开始, Annex-b格式以NALU头开始
 func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 	if len(src) < naluBytesLen {
diff --git a/parser/h264/type.go b/parser/h264/type.go
index c784d35..f68f212 100644
--- a/parser/h264/type.go
+++ b/parser/h264/type.go
@@ -43,6 +43,4 @@ type sequenceHeader struct {
 	reserved2            byte // 3bits
 	spsNum               byte // 5bits
 	ppsNum               byte // 8bits
-	spsLen               int
-	ppsLen               int
 }
-- 
2.43.0


From c345a7edc31b82fff7f67a053e26b660ca7dcbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 21/67] fix: h264: use the NAL unit length size the sequence
 header declares

Lengths were always read as four bytes, so streams with one, two or three
byte lengths were rejected or cut at the wrong places.
---
 parser/h264/parser.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 9aa1feb..f7c15e6 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -11,12 +11,14 @@ import (
 type Parser struct {
 	specificInfo []byte        /* {0: sps, 1: pps}, 均包含start code */
 	spsPps       *bytes.Buffer /* sps和pps共用, 均包含start code */
+	naluLen      int           /* nalu长度字段的字节数, 由序列头给出 */
 }
 
 // NewParser 初始化h264解析器(pps/sps)
 func NewParser() *Parser {
 	return &Parser{
-		spsPps: bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		spsPps:  bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		naluLen: naluBytesLen,
 	}
 }
 
@@ -80,6 +82,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	}
 
 	// 向specificInfo填充SPS和PPS(替换旧的序列头)
+	p.naluLen = int(seq.naluLen)
 	p.specificInfo = append([]byte(nil), sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
 
@@ -122,12 +125,12 @@ func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 
 // [AVCC格式] 提取NALU的长度
 func (p *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < p.naluLen {
 		return 0, errors.New("[hvcc]incomplete nalu data")
 	}
 
-	// [0:31] nalu单元的长度，不包括长度字段
-	buf := src[:naluBytesLen]
+	// nalu单元的长度，不包括长度字段
+	buf := src[:p.naluLen]
 	l := len(buf)
 
 	var size = 0
@@ -142,7 +145,7 @@ func (p *Parser) naluSize(src []byte) (int, error) {
 func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 	dataSize := len(src)
 
-	if dataSize == 0 || dataSize < naluBytesLen {
+	if dataSize == 0 || dataSize < p.naluLen {
 		return errors.New("incomplete h264 header")
 	}
 
@@ -171,10 +174,10 @@ func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 			return errors.New("invalid nalu body size")
 		}
 
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += p.naluLen
+		dataSize -= p.naluLen
 
-		// 紧跟着 Nalu size 后面的是 NALU 数据，没有四个字节 start code，直接从 h264 头开始
+		// 紧跟着 Nalu size 后面的是 NALU 数据，没有 start code，直接从 h264 头开始
 		if dataSize < nalLen {
 			return errors.New("invalid nalu body")
 		}
-- 
2.43.0


From 64f34c35f5bf70497e91e4d67de6d1c8bac777eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 22/67] fix: aac: keep the last good configuration when a
 header is rejected

A rejected sequence header had already replaced the configuration, so the
following frames were written with an invalid sampling frequency index.
---
 parser/aac/parser.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..6a783b6 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,18 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
-	// 填充数据
-	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
-
 	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
+	sampleRateIndex := ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
+	if sampleRateIndex == 0xf {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// 填充数据
+	p.gotSpecific = true
+	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.sampleRateIndex = sampleRateIndex
+	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
 	return nil
 }
 
-- 
2.43.0


From 712fe10cd59cf5dfba3e781db828c97e575a26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 23/67] fix: aac: refuse a frame that does not fit the ADTS
 length field

The 13 bit length wrapped around, and a reader lost the frame boundaries.
---
 parser/aac/parser.go | 5 +++++
 parser/aac/type.go   | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 6a783b6..15ab580 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -80,6 +80,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// adts的帧长字段只有13位
+	if len(src) > maxAdtsFrameLen-adtsHeaderLen {
+		return fmt.Errorf("audio frame is too long(%d)", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
diff --git a/parser/aac/type.go b/parser/aac/type.go
index 99bdee1..2a029aa 100644
--- a/parser/aac/type.go
+++ b/parser/aac/type.go
@@ -1,6 +1,9 @@
 package aac
 
-const adtsHeaderLen = 7
+const (
+	adtsHeaderLen   = 7
+	maxAdtsFrameLen = 0x1fff
+)
 
 // AAC type
 const (
-- 
2.43.0


From 08c39df84e4916008165c9af763ca0884787f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 24/67] fix: ts: size the stuffing by the room left in the
 packet

The first packet of a key frame has eight bytes less room than assumed, so a
PES packet of 176 to 183 bytes made the stuffing length wrap and panicked.
---
 container/ts/muxer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..b0211d9 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -11,8 +11,7 @@ import (
 )
 
 const (
-	tsDefaultDataLen = 184
-	tsPacketLen      = 188
+	tsPacketLen = 188
 )
 
 const (
@@ -121,7 +120,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From 690919889302ffb38fae0e7b3a0aa964e40e0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 25/67] fix: ts: wrap time stamps modulo 2^33

Time stamps past the wrap were off by one tick, and off by more after the
second wrap.
---
 container/ts/table/pes.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..37cd13f 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -65,9 +65,7 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
-- 
2.43.0


From 3fef6492d6f49868b24b0c5de84d90fb3f47a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 26/67] fix: ts: convert milliseconds to the 90 kHz clock
 without overflow

The product was computed in 32 bits, so time jumped back to zero after about
13 hours, and a negative composition offset became a large positive one.
---
 container/ts/mixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..a1d2b7b 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,11 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From e6c365d815c42d93b26113fea88680dcde5f8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 27/67] fix: ts: write the prescribed prefixes when a PES has
 both PTS and DTS

The fields carried 0010 and 0011 where ISO 13818-1 asks for 0011 and 0001.
---
 container/ts/table/pes.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 37cd13f..c85eb01 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,18 +37,20 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
-	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
+	// pts和dts同时存在时, 前缀分别为'0011'和'0001', 只有pts时前缀为'0010'
 	if mt == packet.PktVideo && pts != dts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
 
 		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
+	// pts
+	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
+
 	// pes数据包的长度
 	pesDataLen := int(pe.PesHeader[8])
 	size := 3 + pesDataLen + mediaDataLen
-- 
2.43.0


From 120723069da5c017a73998ebba0e35f3c7a95f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 28/67] fix: ts: start a PES header from scratch each time

Generating a second header with the same object kept the DTS flag and added
to the header length.
---
 container/ts/table/pes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index c85eb01..de6c57d 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,10 +37,14 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
+	// 复位可选头, 以便重复使用
+	pe.PesHeader[7] = 0x80
+	pe.PesHeader[8] = 0x05
+
 	// pts和dts同时存在时, 前缀分别为'0011'和'0001', 只有pts时前缀为'0010'
 	if mt == packet.PktVideo && pts != dts {
-		pe.PesHeader[7] |= 0x40
-		pe.PesHeader[8] += 0x05
+		pe.PesHeader[7] = 0xc0
+		pe.PesHeader[8] = 0x0a
 
 		// dts
 		dtsB5 := pe.encodeTs(0x40, dts)
-- 
2.43.0


From b6a40d672952aca2c2a0df87e1ee6ed51b210614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 29/67] fix: ts: advance the continuity counter of the SDT

Every SDT packet carried counter zero, so receivers drop each repetition as
a duplicate or report a discontinuity.
---
 container/ts/muxer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index b0211d9..f47b5c9 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -25,6 +25,7 @@ type Muxer struct {
 	audioCc  byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
 	pat      [tsPacketLen]byte
 	pmt      [tsPacketLen]byte
@@ -188,6 +189,13 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	if muxer.sdtCc > 0xf {
+		muxer.sdtCc = 0
+	}
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 10e75ccc027eff08499effddebf791353ebd5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 30/67] fix: ts: keep cached sequence headers out of the
 stream's counters

Saving a sequence header advanced the continuity counter although nothing
was sent, so a new header in mid stream looked like packet loss.
---
 container/ts/mixer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index a1d2b7b..8f5636c 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -112,7 +112,8 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 	}
 
 	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+	// 缓存不属于输出流, 不能占用输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
@@ -125,7 +126,8 @@ func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
 	}
 
 	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+	// 缓存不属于输出流, 不能占用输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From aab0cc54cfd422d68ac009129553e089bf65cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 31/67] fix: ts: leave the caller's packet unchanged when
 muxing

Mux replaced the packet's media with a slice of an internal buffer, so a
packet shared with another mixer was corrupted.
---
 container/ts/mixer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 8f5636c..bf45de3 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -71,12 +71,14 @@ func (m *Mixer) parse(p *packet.Packet, cache *bytes.Buffer) error {
 
 // Mux 转换为ts格式（需要使用p.Media）
 func (m *Mixer) Mux(p *packet.Packet) error {
-	err := m.parse(p, m.cache.media)
+	// 在副本上替换媒体数据, 数据包可能还有其他使用者
+	pkt := *p
+	err := m.parse(&pkt, m.cache.media)
 	if err != nil {
 		return err
 	}
 
-	return m.muxer.Mux(p, m.dts, m.pts, m.ts)
+	return m.muxer.Mux(&pkt, m.dts, m.pts, m.ts)
 }
 
 // SaveMetadata 保存元数据
-- 
2.43.0


From f2866f235f4ff5230532cc93028f639c98ba9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 32/67] fix: ts: refuse service names that do not fit the SDT
 packet

Long names wrapped the 8 bit descriptor lengths or ran past the packet and
panicked in SetTsHeader.
---
 container/ts/mixer.go            |  6 ++++++
 container/ts/muxer.go            |  3 ++-
 container/ts/table/descriptor.go | 13 +++++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index bf45de3..2ca8d63 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/moggle-mog/goav/container/ts/table"
@@ -100,6 +101,11 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 		return err
 	}
 
+	// SDT表只占用一个ts包
+	if desc.GetBuffer().Len() > maxSdtDescLen {
+		return errors.New("provider and service are too long")
+	}
+
 	m.cache.metadata = desc.GetBuffer()
 	return nil
 }
diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index f47b5c9..a601650 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -11,7 +11,8 @@ import (
 )
 
 const (
-	tsPacketLen = 188
+	tsPacketLen   = 188
+	maxSdtDescLen = tsPacketLen - 5 - 16 - 4 // 除去TS头, SDT头和CRC32
 )
 
 const (
diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..c36a3e4 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,8 +3,12 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
+// 描述符内容的最大长度
+const maxDescriptorLen = 255
+
 // Descriptor 描述表
 type Descriptor struct {
 	data *bytes.Buffer
@@ -24,6 +28,11 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	// 描述符的长度字段只有8位
+	if len(serviceProviderName)+len(serviceName)+3 > maxDescriptorLen {
+		return errors.New("service descriptor is too long")
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
@@ -60,6 +69,10 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+	if nameLen > maxDescriptorLen {
+		return errors.New("network name descriptor is too long")
+	}
+
 	descriptorLen := byte(nameLen)
 
 	_, err := d.data.Write([]byte{0x40, descriptorLen})
-- 
2.43.0


From a18212b697041dd1ba086ec0081b9c19b0ac8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 33/67] fix: gop: hold at most the documented number of packets
 per group

The limit check let one packet more than maxGop in.
---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 0630574fe188324a404b48e7d0d036286b36e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 34/67] fix: sips: accept empty argument values

An argument such as 'tag=' or 'tag="' panicked, so one malformed header
from a peer ended the process.
---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..74f9beb 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From 9c6fa6faafd9b885f236402b0d411cdbc015eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 35/67] fix: sips: ignore a continuation line without a header
 before it

Such a line indexed an empty list and panicked.
---
 sips/sips.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..17e8bc3 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -200,6 +200,11 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// 没有可以续写的头部
+		if len(s.Headers[s.lastHeaderParsed]) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
 		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
 		return
-- 
2.43.0


From 94e0b1c7a9c237cc8d9cdfa8a9e5291d5524a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 36/67] fix: sips: read exactly Content-Length bytes of body

The length of the blank line was taken off, which lost the end of the body,
and whole 4 KB blocks were read, which swallowed the next message.
---
 sips/sips.go | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 17e8bc3..203c7c9 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strings"
 )
 
@@ -65,42 +66,16 @@ func (s *SIP) fillHeader() {
 	s.Via = s.Headers.GetSIPVia()
 }
 
-func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
-
-	var body []byte
+func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 
 	size, err := s.Headers.GetContentLength()
 	if err != nil {
 		return nil, err
 	}
-	size -= supplement
-
-	for size > 0 {
-
-		// read one block
-		buf := make([]byte, 4*1024)
-
-		n, err := r.Read(buf)
-		if err != nil {
-			if err != io.EOF {
-				return nil, err
-			}
-
-			if n == 0 {
-				break
-			}
-
-			// save remain byte
-			size -= n
-			body = append(body, buf[:n]...)
-			break
-		}
-
-		size -= n
-		body = append(body, buf[:n]...)
-	}
 
-	return body, nil
+	// a stream may already hold the next message, so read no further
+	// than the end of this one
+	return ioutil.ReadAll(io.LimitReader(r, int64(size)))
 }
 
 // Parse parses the slices from reader into the SIP struct.
@@ -160,7 +135,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	// header fields and body.  Any Content-Length greater than or equal to
 	// zero is a valid value.  If no body is present in a message, then the
 	// Content-Length header field value MUST be set to zero.
-	body, err := s.fillBody(r, len(buffer)-offset)
+	body, err := s.fillBody(r)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a83e590c81e13176622802e7c6bfc643ce1ff5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 37/67] fix: sips: find headers sent in compact form

The compact name was only tried when the full name was present with no
value, so a message with compact headers had no Via, From, To, or
Content-Length. Setting a header now replaces its compact form.
---
 sips/header.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..74c6cf0 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -49,28 +49,22 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 // the specified name.
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
-	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
-	return h
+	return make([]string, 0)
 }
 
 // GetFirstHeader will return the first header with
 // the specified name. If the current SIP packet has multiple
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
-	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	h := s.GetHeader(headerName)
+	if len(h) > 0 {
+		return h[0]
 	}
 	return ""
 }
@@ -78,6 +72,9 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 // SetFirstHeader sets header with only one value
 func (s SIPHeader) SetFirstHeader(headerName, header string) {
 	headerName = strings.ToLower(headerName)
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		delete(s, compact)
+	}
 	s[headerName] = []string{header}
 }
 
-- 
2.43.0


From 734615abf4c465f32faafe70ed6337fa18dfae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 38/67] fix: sips: leave out a header that has no value

Its name was written without a line end, which ruined the next header.
---
 sips/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index 74c6cf0..71bf8bb 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -91,6 +91,11 @@ func (s SIPHeader) Bytes() []byte {
 
 	for k, v := range s {
 
+		// no value, no header line
+		if len(v) == 0 {
+			continue
+		}
+
 		buf.WriteString(k)
 		buf.WriteString(":")
 		for _, v1 := range v {
-- 
2.43.0


From 9dc01563abac421906ecaf09743c5f4877781b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 39/67] fix: sips: trim tabs around header names and values

RFC 3261 allows tabs as well as spaces around the colon; with a tab in front
of the colon the header was not found.
---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 203c7c9..be8cc73 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -189,8 +189,8 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
-		headerValue := string(bytes.Trim(header[index+1:], " "))
+		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
+		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
-- 
2.43.0


From 8aa90770ffd6a905dc311cb2f50886663b991c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 40/67] fix: sips: keep argument bytes that are not valid UTF-8

They were replaced by U+FFFD, which garbled values in GB2312 and the like.
---
 sips/header_args.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 74f9beb..143610f 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -58,10 +58,12 @@ func (a Args) ParseList(value string) []string {
 	var list []string
 	var escape, quote bool
 	b := new(bytes.Buffer)
-	for _, r := range value {
+	// every delimiter is ASCII, work on bytes to keep other encodings intact
+	for i := 0; i < len(value); i++ {
+		r := value[i]
 		switch {
 		case escape:
-			b.WriteRune(r)
+			b.WriteByte(r)
 			escape = false
 		case quote:
 			if r == '\\' {
@@ -70,16 +72,16 @@ func (a Args) ParseList(value string) []string {
 				if r == '"' {
 					quote = false
 				}
-				b.WriteRune(r)
+				b.WriteByte(r)
 			}
 		case r == ',' || r == ';' || r == '\n':
 			list = append(list, strings.TrimSpace(b.String()))
 			b.Reset()
 		case r == '"':
 			quote = true
-			b.WriteRune(r)
+			b.WriteByte(r)
 		default:
-			b.WriteRune(r)
+			b.WriteByte(r)
 		}
 	}
 	// Append last part.
-- 
2.43.0


From 8716c4f12c505c89fc343403d167a065b91e0167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 41/67] fix: sips: parse the display name of an address

The name was never read, so From, To and Contact lost it (two tests show
this), and a quoted name that holds ';' or '<' broke the rest of the line.
---
 sips/base.go |  1 -
 sips/user.go | 66 ++++++++++++++++++++++++++++++++++------------------
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 57e9156..48606fe 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -4,7 +4,6 @@ package sips
 // field token
 const (
 	_FieldBase = iota
-	_FieldName
 	_FieldUser
 	_FieldHost
 	_FieldPort
diff --git a/sips/user.go b/sips/user.go
index 131d5c5..139242f 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -6,7 +6,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -48,13 +47,14 @@ func NewSIPUser(uri string) *SIPUser {
 		Args:    make(Args),
 		Src:     uri,
 	}
+	name, uri := splitDisplayName(uri)
 	pos, state := 0, _FieldBase
 
-	var name, user, host, port []byte
+	var user, host, port []byte
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
+		if uri[pos] == '>' || uri[pos] == ' ' {
 			state = _FieldBase
 			pos++
 			continue
@@ -78,19 +78,6 @@ func NewSIPUser(uri string) *SIPUser {
 				pos = pos + 5
 				continue
 			}
-
-			if uri[pos] == '"' || su.URIType == "" {
-				state = _FieldName
-				continue
-			}
-		case _FieldName:
-
-			if uri[pos] == '"' || uri[pos] == '<' {
-				state = _FieldBase
-				pos++
-				continue
-			}
-			name = append(name, uri[pos])
 		case _FieldUser:
 
 			if uri[pos] == '@' {
@@ -115,15 +102,11 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
-	su.Name = string(name)
+	su.Name = name
 	su.User = string(user)
 	su.Host = string(host)
 	su.Port = string(port)
 
-	if len(su.Name) > 0 {
-		su.Name = strings.TrimSpace(su.Name)
-	}
-
 	if pos < len(uri) {
 		su.Args = ParseArgs(uri[pos:])
 	}
@@ -131,6 +114,45 @@ func NewSIPUser(uri string) *SIPUser {
 	return su
 }
 
+// splitDisplayName splits the display name, a quoted string or plain words in
+// front of '<', from the rest of the line
+func splitDisplayName(line string) (name, rest string) {
+
+	line = strings.TrimSpace(line)
+
+	if strings.HasPrefix(line, `"`) {
+
+		var quoted []byte
+		for i := 1; i < len(line); i++ {
+
+			switch {
+			case line[i] == '"':
+				return string(quoted), line[i+1:]
+			case line[i] == '\\' && i+1 < len(line):
+				i++
+			}
+			quoted = append(quoted, line[i])
+		}
+
+		// unterminated, not a display name
+		return "", line
+	}
+
+	// a semicolon ends the address, a later '<' belongs to something else
+	index := strings.IndexAny(line, "<;")
+	if index > 0 && line[index] == '<' {
+		return strings.TrimSpace(line[:index]), line[index:]
+	}
+
+	return "", line
+}
+
+// quoteString writes a quoted-string, RFC 3261 25.1: only '"' and '\' are escaped
+func quoteString(s string) string {
+
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
+}
+
 // Bytes package SIPUser struct into slice
 func (s *SIPUser) Bytes() []byte {
 
@@ -141,7 +163,7 @@ func (s *SIPUser) Bytes() []byte {
 		if s.Name == "Anonymous" {
 			buf.WriteString(s.Name)
 		} else {
-			buf.WriteString(strconv.Quote(s.Name))
+			buf.WriteString(quoteString(s.Name))
 		}
 
 		buf.WriteString(" ")
-- 
2.43.0


From eeb2ee9d8a02a7e56485e4ac645e14db5acec739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 42/67] fix: sips: handle addresses without a user part

The host of 'sip:registrar.example.com:5060', the normal form in a REGISTER,
ended up as the user, and writing it back, or a tel number, added an '@'.
---
 sips/base.go    | 13 +++++++++++++
 sips/request.go | 12 +++++++++++-
 sips/user.go    | 12 +++++++++++-
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 48606fe..82b07bd 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,6 +1,8 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
+import "strings"
+
 // field token
 const (
 	_FieldBase = iota
@@ -52,3 +54,14 @@ func Substring(v string, from, to int) string {
 
 	return v[from:to]
 }
+
+// splitHostPort splits host[:port]
+func splitHostPort(v string) (host, port string) {
+
+	index := strings.Index(v, ":")
+	if index < 0 {
+		return v, ""
+	}
+
+	return v[:index], v[index+1:]
+}
diff --git a/sips/request.go b/sips/request.go
index ee83d33..b792870 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -48,6 +48,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 	pos, state := 0, _FieldBase
 
 	var user, host, port []byte
+	var hasUser bool
 
 	for pos < len(uri) && uri[pos] != ';' {
 
@@ -72,6 +73,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 		case _FieldUser:
 
 			if uri[pos] == '@' {
+				hasUser = true
 				state = _FieldHost
 				pos++
 				continue
@@ -97,6 +99,12 @@ func NewSIPRequest(uri string) *SIPRequest {
 	sr.Host = string(host)
 	sr.Port = string(port)
 
+	// without '@' there is no user, except for the number of a tel URI
+	if !hasUser && sr.URIType != "tel" {
+		sr.User = ""
+		sr.Host, sr.Port = splitHostPort(string(user))
+	}
+
 	if pos < len(uri) {
 		sr.Args = ParseArgs(uri[pos:])
 	}
@@ -115,7 +123,9 @@ func (s *SIPRequest) Bytes() []byte {
 
 	// user@host
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
diff --git a/sips/user.go b/sips/user.go
index 139242f..06ba148 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -51,6 +51,7 @@ func NewSIPUser(uri string) *SIPUser {
 	pos, state := 0, _FieldBase
 
 	var user, host, port []byte
+	var hasUser bool
 
 	for pos < len(uri) && uri[pos] != ';' {
 
@@ -81,6 +82,7 @@ func NewSIPUser(uri string) *SIPUser {
 		case _FieldUser:
 
 			if uri[pos] == '@' {
+				hasUser = true
 				state = _FieldHost
 				pos++
 				continue
@@ -107,6 +109,12 @@ func NewSIPUser(uri string) *SIPUser {
 	su.Host = string(host)
 	su.Port = string(port)
 
+	// without '@' there is no user, except for the number of a tel URI
+	if !hasUser && su.URIType != "tel" {
+		su.User = ""
+		su.Host, su.Port = splitHostPort(string(user))
+	}
+
 	if pos < len(uri) {
 		su.Args = ParseArgs(uri[pos:])
 	}
@@ -173,7 +181,9 @@ func (s *SIPUser) Bytes() []byte {
 	buf.WriteString(s.URIType)
 	buf.WriteString(":")
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
-- 
2.43.0


From 851889262c2061702b3812727764dc89d42b4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 43/67] fix: sips: keep the colons of an IPv6 host out of the
 port

The host of '[2001:db8::1]:5060' was '[2001' and the rest became the port.
---
 sips/base.go    | 19 +++++++++++++------
 sips/request.go |  2 +-
 sips/user.go    |  2 +-
 sips/via.go     |  2 +-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 82b07bd..3d50fb3 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,8 +1,6 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
-import "strings"
-
 // field token
 const (
 	_FieldBase = iota
@@ -58,10 +56,19 @@ func Substring(v string, from, to int) string {
 // splitHostPort splits host[:port]
 func splitHostPort(v string) (host, port string) {
 
-	index := strings.Index(v, ":")
-	if index < 0 {
-		return v, ""
+	for index := 0; index < len(v); index++ {
+
+		if v[index] == ':' && !openBracket([]byte(v[:index])) {
+			return v[:index], v[index+1:]
+		}
 	}
 
-	return v[:index], v[index+1:]
+	return v, ""
+}
+
+// openBracket reports whether host is an IPv6 reference that is not closed
+// yet, the colons inside do not start the port
+func openBracket(host []byte) bool {
+
+	return len(host) > 0 && host[0] == '[' && host[len(host)-1] != ']'
 }
diff --git a/sips/request.go b/sips/request.go
index b792870..4deee31 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -81,7 +81,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !openBracket(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/user.go b/sips/user.go
index 06ba148..4af857f 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -90,7 +90,7 @@ func NewSIPUser(uri string) *SIPUser {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !openBracket(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/via.go b/sips/via.go
index 18c90de..0cc029b 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -75,7 +75,7 @@ func NewSIPVia(uri string) *SIPVia {
 			}
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !openBracket(host) {
 				state = _FieldPort
 				pos++
 				continue
-- 
2.43.0


From ed3a77bd79b5066c14a424bdf106ce31b0fe1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 44/67] fix: sips: quote comma separated arguments the way SIP
 unquotes them

strconv.Quote writes escapes such as \x and \u that no SIP parser, this
one included, turns back into the original value.
---
 sips/header_args.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 143610f..af06a50 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -4,7 +4,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -131,7 +130,7 @@ func (a Args) CommaString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + strconv.Quote(value) + ", "
+		result += key + "=" + quoteString(value) + ", "
 	}
 	return result[:len(result)-2]
 }
-- 
2.43.0


From 80e32968620ebc4121d2cc0b2370666478c2f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 45/67] fix: amf0: read every non-zero boolean as true

The specification only fixes zero as false; other encoders' true values were
read as false.
---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index d458744..f5432f9 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -77,13 +77,13 @@ func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error)
 		return f64, nil
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
-		// format: 1 byte, 0x00 = false, 0x01 = true
+		// format: 1 byte, 0x00 = false, others = true
 		flag, err := readByte(r)
 		if err != nil {
 			return nil, err
 		}
 
-		return flag == 1, nil
+		return flag != 0, nil
 	case stringMarkerOnAMF0:
 		return ed.decodeString(r)
 	case objectMarkerOnAMF0:
-- 
2.43.0


From 1c43204462b68143aacf21721d1a9d4db67370a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 46/67] fix: reset the media header when a FLV tag object is
 reused

---
 container/flv/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index 80b013b..cb340a8 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -233,6 +233,9 @@ func (tag *Tag) CompositionTime() int32 {
 
 // ParseMediaTagHeader [音视频]解析视频, 音频中的头部数据, 将数据填充到 Tag.mediat; b是Tag Data
 func (tag *Tag) ParseMediaTagHeader(b []byte, mediaType int) (int, error) {
+	// 复位媒体头, 重复使用时不能残留上一个Tag的数据
+	tag.media = mediaTag{}
+
 	// 根据媒体类型做不同解析，这里是解析器封装，错误直接透传
 	switch mediaType {
 	case packet.PktVideo:
-- 
2.43.0


From c228421298ffd3475a11038f5da8797bf0c2270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 47/67] fix: sips: splitting an IPv6 host from its port takes
 linear memory

---
 sips/base.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sips/base.go b/sips/base.go
index 3d50fb3..9335424 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -58,7 +58,8 @@ func splitHostPort(v string) (host, port string) {
 
 	for index := 0; index < len(v); index++ {
 
-		if v[index] == ':' && !openBracket([]byte(v[:index])) {
+		// the colons of an IPv6 reference do not start the port
+		if v[index] == ':' && (v[0] != '[' || v[index-1] == ']') {
 			return v[:index], v[index+1:]
 		}
 	}
-- 
2.43.0


From 34479ca24ad158c86e9511520c30cf241e91813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 48/67] fix: sips: lines longer than the reader's buffer are no
 error

---
 sips/sips.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index be8cc73..129acc7 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -88,14 +88,14 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 
 	for {
 
-		// Read next line
-		line, err := r.ReadSlice(byte('\n'))
+		// Read next line, however long it is
+		line, err := r.ReadBytes(byte('\n'))
 		if err != nil {
 			if err != io.EOF {
 				return err
 			}
 
-			// ReadSlice返回EOF时line可能不为空，因此仍需收尾
+			// ReadBytes返回EOF时line可能不为空，因此仍需收尾
 			if len(line) == 0 {
 				break
 			}
-- 
2.43.0


From 57f8e090ad3421e96640dcb9b518d4f3bf00b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 49/67] fix: sips: unfolding header lines takes linear memory,
 and a value may start on a continuation line

---
 sips/sips.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index 129acc7..3d15eee 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -85,6 +85,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	var countLines int
 	var offset int
 	var buffer []byte
+	var pending []byte // header line with its continuation lines
 
 	for {
 
@@ -122,13 +123,22 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 				return err
 			}
 
+		} else if len(pending) > 0 && (line[0] == '\t' || line[0] == ' ') {
+
+			// unfold before parsing, appending to the parsed value again and
+			// again takes quadratic memory
+			pending = append(bytes.TrimRight(pending, " \t"), ' ')
+			pending = append(pending, bytes.TrimSpace(line)...)
+
 		} else {
-			s.ParseHeader(line)
+			s.ParseHeader(pending)
+			pending = append(pending[:0], line...)
 		}
 
 		countLines++
 	}
 
+	s.ParseHeader(pending)
 	s.fillHeader()
 
 	// The size of the message-body does not include the CRLF separating
-- 
2.43.0


From 264af468cefbaae9096ebcc12d8bcab4aa9aa5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 50/67] fix: sips: ParseHeader puts no blank in front of a
 value that starts on a continuation line

---
 sips/sips.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 3d15eee..d4664e2 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -4,7 +4,6 @@ package sips
 import (
 	"bufio"
 	"bytes"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -191,7 +190,12 @@ func (s *SIP) ParseHeader(header []byte) {
 		}
 
 		header = bytes.TrimSpace(header)
-		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
+		values := s.Headers[s.lastHeaderParsed]
+		// the first line may have no value of its own
+		if len(values[len(values)-1]) > 0 {
+			values[len(values)-1] += " "
+		}
+		values[len(values)-1] += string(header)
 		return
 	}
 
-- 
2.43.0


From 15b76ab5cb8ac33a2b749b766ddedf54f7865023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 51/67] fix: sips: headers put into the map under any letter
 case are found and replaced

---
 sips/header.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index 71bf8bb..ded1b51 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -49,15 +49,31 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 // the specified name.
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
-	if len(s[headerName]) > 0 {
-		return s[headerName]
+	if h := s.lookup(headerName); len(h) > 0 {
+		return h
 	}
-	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
-		return s[compact]
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		if h := s.lookup(compact); len(h) > 0 {
+			return h
+		}
 	}
 	return make([]string, 0)
 }
 
+// lookup finds the values of a lower case name, names put into
+// the map directly may be in any case.
+func (s SIPHeader) lookup(lowerName string) []string {
+	if len(s[lowerName]) > 0 {
+		return s[lowerName]
+	}
+	for k, v := range s {
+		if len(v) > 0 && strings.ToLower(k) == lowerName {
+			return v
+		}
+	}
+	return nil
+}
+
 // GetFirstHeader will return the first header with
 // the specified name. If the current SIP packet has multiple
 // headers with the same name, it returns the first.
@@ -72,8 +88,11 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 // SetFirstHeader sets header with only one value
 func (s SIPHeader) SetFirstHeader(headerName, header string) {
 	headerName = strings.ToLower(headerName)
-	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
-		delete(s, compact)
+	compact := compactSipHeadersCorrespondence[headerName]
+	for k := range s {
+		if lower := strings.ToLower(k); lower == headerName || (lower == compact && compact != "") {
+			delete(s, k)
+		}
 	}
 	s[headerName] = []string{header}
 }
-- 
2.43.0


From bcba2aaeb517e66b554469ab5147719b626c3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 52/67] fix: sips: a semicolon in the user part does not end
 the address

---
 sips/base.go    | 16 ++++++++++++++++
 sips/request.go |  5 ++++-
 sips/user.go    |  5 ++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 9335424..ff9e039 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,6 +1,8 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
+import "strings"
+
 // field token
 const (
 	_FieldBase = iota
@@ -67,6 +69,20 @@ func splitHostPort(v string) (host, port string) {
 	return v, ""
 }
 
+// userInfoEnd returns the position of the '@' behind the user of an address, 0
+// if there is none
+func userInfoEnd(uri string) int {
+
+	start := len(uri) - len(strings.TrimLeft(uri, " \t<"))
+
+	end := strings.IndexAny(uri[start:], "@<> \t\"")
+	if end < 0 || uri[start+end] != '@' {
+		return 0
+	}
+
+	return start + end
+}
+
 // openBracket reports whether host is an IPv6 reference that is not closed
 // yet, the colons inside do not start the port
 func openBracket(host []byte) bool {
diff --git a/sips/request.go b/sips/request.go
index 4deee31..3adcefc 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -50,7 +50,10 @@ func NewSIPRequest(uri string) *SIPRequest {
 	var user, host, port []byte
 	var hasUser bool
 
-	for pos < len(uri) && uri[pos] != ';' {
+	// a semicolon in front of '@' belongs to the user
+	userEnd := userInfoEnd(uri)
+
+	for pos < len(uri) && (uri[pos] != ';' || pos < userEnd) {
 
 		switch state {
 		case _FieldBase:
diff --git a/sips/user.go b/sips/user.go
index 4af857f..43f3bb7 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -53,7 +53,10 @@ func NewSIPUser(uri string) *SIPUser {
 	var user, host, port []byte
 	var hasUser bool
 
-	for pos < len(uri) && uri[pos] != ';' {
+	// a semicolon in front of '@' belongs to the user
+	userEnd := userInfoEnd(uri)
+
+	for pos < len(uri) && (uri[pos] != ';' || pos < userEnd) {
 
 		if uri[pos] == '>' || uri[pos] == ' ' {
 			state = _FieldBase
-- 
2.43.0


From ecc3eb736b691876898ef37d73837c562d574508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 53/67] fix: sips: the '>' behind the parameters of a URI
 belongs to none of them

---
 sips/user.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sips/user.go b/sips/user.go
index 43f3bb7..8cd7077 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -119,7 +119,12 @@ func NewSIPUser(uri string) *SIPUser {
 	}
 
 	if pos < len(uri) {
-		su.Args = ParseArgs(uri[pos:])
+		args := uri[pos:]
+		// parameters of the URI stand in front of its '>'
+		if strings.Contains(uri[:pos], "<") && !strings.Contains(uri[:pos], ">") {
+			args = strings.Replace(args, ">", "", 1)
+		}
+		su.Args = ParseArgs(args)
 	}
 
 	return su
-- 
2.43.0


From e6ddfe5241b8e4e7c5af0c0fe6f0cd4177f37621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 54/67] fix: sips: blanks around '=' belong neither to the key
 nor to the value

---
 sips/header_args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index af06a50..6b717d2 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -27,11 +27,11 @@ func ParseArgsPairs(value string) Args {
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-			v := pair[i+1:]
+			v := strings.TrimSpace(pair[i+1:])
 			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
-			m[pair[:i]] = v
+			m[strings.TrimSpace(pair[:i])] = v
 		}
 	}
 	return m
-- 
2.43.0


From e484ea5a74132e2f74d4b7816e31e588e4c4f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 55/67] fix: sips: the version of a status line may be in any
 letter case

---
 sips/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/request.go b/sips/request.go
index 3adcefc..6f46317 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -184,7 +184,7 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 	}
 
 	// Determine the SIP packet type
-	if strings.HasPrefix(splits[0], "SIP") {
+	if strings.HasPrefix(strings.ToUpper(splits[0]), "SIP") {
 
 		// --> Response
 		s.IsResponse = true
-- 
2.43.0


From 2cca7dd60c3594962fa62b616d4ef52936ff8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 56/67] fix: separators in a row make no argument without a
 name

---
 sips/header_args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sips/header_args.go b/sips/header_args.go
index 6b717d2..757fe9b 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -24,6 +24,10 @@ func NewArgs() Args {
 func ParseArgsPairs(value string) Args {
 	m := make(Args)
 	for _, pair := range m.ParseList(strings.TrimSpace(value)) {
+		if pair == "" {
+			// two separators in a row, as at the end of a folded line
+			continue
+		}
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-- 
2.43.0


From 76a94f2fcb5d5f9ea00163238d08f0019f4c8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 57/67] fix: 480 is Temporarily Unavailable (RFC 3261 21.4.18)

---
 sips/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/status.go b/sips/status.go
index 241bc11..974116a 100644
--- a/sips/status.go
+++ b/sips/status.go
@@ -99,7 +99,7 @@ var statusTexts = map[SIPStatus]string{
 	StatusBadExtension:                "Bad Extension",
 	StatusExtensionRequired:           "Extension Required",
 	StatusIntervalTooBrief:            "Interval Too Brief",
-	StatusNoResponse:                  "No Response",
+	StatusNoResponse:                  "Temporarily Unavailable",
 	StatusCallTransactionDoesNotExist: "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                "Loop Detected",
 	StatusTooManyHops:                 "Too Many Hops",
-- 
2.43.0


From 3f711d5b48cd8096f72ca2e0895fa136d30b9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 58/67] fix: tabs and several blanks separate the parts of
 addresses, Via and CSeq

---
 sips/cseq.go | 7 ++++++-
 sips/user.go | 2 +-
 sips/via.go  | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sips/cseq.go b/sips/cseq.go
index 9e3fbde..3111dcd 100644
--- a/sips/cseq.go
+++ b/sips/cseq.go
@@ -34,7 +34,7 @@ func NewSIPCseq(uri string) *SIPCseq {
 		switch state {
 		case _FieldID:
 
-			if uri[pos] == ' ' {
+			if uri[pos] == ' ' || uri[pos] == '\t' {
 				state = _FieldMethod
 				pos++
 				continue
@@ -42,6 +42,11 @@ func NewSIPCseq(uri string) *SIPCseq {
 			id = append(id, uri[pos])
 		case _FieldMethod:
 
+			// any number of blanks stands in front of the method
+			if len(method) == 0 && (uri[pos] == ' ' || uri[pos] == '\t') {
+				pos++
+				continue
+			}
 			method = append(method, uri[pos])
 		}
 
diff --git a/sips/user.go b/sips/user.go
index 8cd7077..b851b30 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -58,7 +58,7 @@ func NewSIPUser(uri string) *SIPUser {
 
 	for pos < len(uri) && (uri[pos] != ';' || pos < userEnd) {
 
-		if uri[pos] == '>' || uri[pos] == ' ' {
+		if uri[pos] == '>' || uri[pos] == ' ' || uri[pos] == '\t' {
 			state = _FieldBase
 			pos++
 			continue
diff --git a/sips/via.go b/sips/via.go
index 0cc029b..7d0f4e7 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -39,7 +39,7 @@ func NewSIPVia(uri string) *SIPVia {
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == ' ' {
+		if uri[pos] == ' ' || uri[pos] == '\t' {
 			pos++
 			continue
 		}
-- 
2.43.0


From 2f071150367763f96359b016605fc88d55e9514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 59/67] fix: non-ASCII letters whose upper case is an ASCII
 letter spell no method or version

---
 sips/base.go    | 12 ++++++++++++
 sips/method.go  |  3 +--
 sips/version.go |  3 +--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index ff9e039..c23e8fb 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -55,6 +55,18 @@ func Substring(v string, from, to int) string {
 	return v[from:to]
 }
 
+// upperASCII returns v with its ASCII letters in upper case, SIP names have no
+// other letters
+func upperASCII(v string) string {
+
+	return strings.Map(func(r rune) rune {
+		if 'a' <= r && r <= 'z' {
+			r -= 'a' - 'A'
+		}
+		return r
+	}, v)
+}
+
 // splitHostPort splits host[:port]
 func splitHostPort(v string) (host, port string) {
 
diff --git a/sips/method.go b/sips/method.go
index 438cd6b..56abcd9 100644
--- a/sips/method.go
+++ b/sips/method.go
@@ -3,7 +3,6 @@ package sips
 
 import (
 	"fmt"
-	"strings"
 )
 
 // SIPMethod defines the different methods of the SIP Protocol
@@ -70,7 +69,7 @@ func (sm SIPMethod) String() string {
 // GetSIPMethod returns the constant of a SIP method
 // from its string
 func GetSIPMethod(method string) (SIPMethod, error) {
-	switch strings.ToUpper(method) {
+	switch upperASCII(method) {
 	case "INVITE":
 		return SIPMethodInvite, nil
 	case "ACK":
diff --git a/sips/version.go b/sips/version.go
index 03d236d..2866681 100644
--- a/sips/version.go
+++ b/sips/version.go
@@ -3,7 +3,6 @@ package sips
 
 import (
 	"fmt"
-	"strings"
 )
 
 // SIPVersion defines the different versions of the SIP Protocol
@@ -29,7 +28,7 @@ func (sv SIPVersion) String() string {
 
 // GetSIPVersion is used to get SIP version constant
 func GetSIPVersion(version string) (SIPVersion, error) {
-	switch strings.ToUpper(version) {
+	switch upperASCII(version) {
 	case "SIP/1.0":
 		return SIPVersion1, nil
 	case "SIP/2.0":
-- 
2.43.0


From 7841c792472ec3900f2244b294c9cf3f3a395fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 60/67] fix: flv: a refused save leaves the saved metadata,
 headers and types

---
 container/flv/mixer.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..3cce400 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,14 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	// 封装成功后才替换缓存
+	m.cache.metadata.Reset()
+
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +66,36 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
+	header := bytes.NewBuffer(make([]byte, 0, 512))
+
+	// 序列头pts为0, 作为视频的开端
+	err := m.muxer.mux(p, 0, header)
+	if err != nil {
+		return err
+	}
+
+	// 封装成功后才替换缓存
 	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	m.cache.avcSeqHdr = header
 
-	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
+	header := bytes.NewBuffer(make([]byte, 0, 512))
+
+	// 序列头pts为0, 作为音频的开端
+	err := m.muxer.mux(p, 0, header)
+	if err != nil {
+		return err
+	}
+
+	// 封装成功后才替换缓存
 	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	m.cache.aacSeqHdr = header
 
-	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From 130c7d4471a31a65e38fcae83c2dd66715d7dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 61/67] fix: gop: a packet without the header of its kind is
 refused

---
 gop/cache.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gop/cache.go b/gop/cache.go
index 77f6453..771ff62 100755
--- a/gop/cache.go
+++ b/gop/cache.go
@@ -1,6 +1,8 @@
 package gop
 
 import (
+	"errors"
+
 	"github.com/moggle-mog/goav/packet"
 )
 
@@ -25,7 +27,11 @@ func NewCache(gop int) *Cache {
 // WriteVideo write video packet
 func (c *Cache) WriteVideo(p *packet.Packet) error {
 	// 缓存视频序列头
-	vh := p.Header.(packet.VideoPacketHeader)
+	vh, ok := p.Header.(packet.VideoPacketHeader)
+	if !ok {
+		return errors.New("video packet without video header")
+	}
+
 	if vh.IsSeqHdr() {
 		c.VideoSeqHdr.Write(p)
 		return nil
@@ -42,7 +48,10 @@ func (c *Cache) WriteVideo(p *packet.Packet) error {
 // WriteAudio write audio packet
 func (c *Cache) WriteAudio(p *packet.Packet) error {
 	// 缓存音频序列头
-	ah := p.Header.(packet.AudioPacketHeader)
+	ah, ok := p.Header.(packet.AudioPacketHeader)
+	if !ok {
+		return errors.New("audio packet without audio header")
+	}
 
 	// aac
 	if ah.IsSoundAAC() && ah.IsAACSeqHdr() {
-- 
2.43.0


From 63ad4b5ce09832a2db82619d3a8c690c6c1cc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 62/67] fix: parser: a packet without the header of its kind is
 refused

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c6885e..793ae78 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -33,7 +33,10 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 	switch p.Type {
 	case packet.PktVideo:
 		// 根据视频编码器做不同的处理
-		vh := p.Header.(packet.VideoPacketHeader)
+		vh, ok := p.Header.(packet.VideoPacketHeader)
+		if !ok {
+			return errors.New("video packet without video header")
+		}
 		if vh.IsCodecAvc() {
 			// 初始化一个h264解析器
 			if c.h264 == nil {
@@ -48,7 +51,10 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 		return fmt.Errorf("unexpected video codec number: %d", vh.CodecID())
 	case packet.PktAudio:
 		// 根据音频编码器做不同处理
-		ah := p.Header.(packet.AudioPacketHeader)
+		ah, ok := p.Header.(packet.AudioPacketHeader)
+		if !ok {
+			return errors.New("audio packet without audio header")
+		}
 		if ah.IsSoundAAC() {
 			if c.aac == nil {
 				c.aac = aac.NewParser()
-- 
2.43.0


From ed37c962824c830f841ae565d0411a6bea3f2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 63/67] fix: ts: a video packet without a video header is
 refused

---
 container/ts/muxer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index a601650..d57a5e5 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 
@@ -49,7 +50,11 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 	case packet.PktVideo:
 		pid = videoPID
 
-		vh := header.(packet.VideoPacketHeader)
+		vh, ok := header.(packet.VideoPacketHeader)
+		if !ok {
+			return errors.New("video packet without video header")
+		}
+
 		isKeyFrame = vh.IsKeyFrame()
 	case packet.PktAudio:
 		pid = audioPID
-- 
2.43.0


From 4829afa706cde13d6fbf0a6fa2c39a9f50bd90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 64/67] fix: ts: a refused sequence header announces no stream

---
 container/ts/mixer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 2ca8d63..f151918 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -112,13 +112,13 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头（flv->avc sequence header）
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-
 	err := m.parse(p, m.cache.avcSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	// 解析成功后才声明媒体类型
+	m.cache.types.IsVideo()
 	m.cache.avcSeqHdr.Reset()
 	// 缓存不属于输出流, 不能占用输出流的包递增计数器
 	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
@@ -126,13 +126,13 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-
 	err := m.parse(p, m.cache.aacSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	// 解析成功后才声明媒体类型
+	m.cache.types.IsAudio()
 	m.cache.aacSeqHdr.Reset()
 	// 缓存不属于输出流, 不能占用输出流的包递增计数器
 	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
-- 
2.43.0


From 095d30528f9ea41b7bde0cc0ca75784a9e07e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 65/67] fix: amf: a value that contains itself is refused
 instead of exhausting the stack

---
 amf/amf0.go   |  9 ++++++++-
 amf/amf3.go   | 12 ++++++++++--
 amf/helper.go |  4 ++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index f5432f9..8f9a5ae 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -51,7 +51,7 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 	}
 
 	// 嵌套深度由对端决定, 需要限制, 否则会耗尽调用栈
-	if ed.depth >= maxDecodeDepth {
+	if ed.depth >= maxDepth {
 		return nil, errors.New("decode amf0: nested too deep")
 	}
 	ed.depth++
@@ -313,6 +313,13 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 // 支持"Object", "TypedObject", "time", "nil", "float", "bool", "string", "int", "uint", "array", "slice"
 // 其他类型请直接调用对应的编码器
 func (ed *EnDecAMF0) Encode(w io.Writer, val interface{}) (int, error) {
+	// 包含自身的对象会无限嵌套, 需要限制, 否则会耗尽调用栈
+	if ed.enDepth >= maxDepth {
+		return 0, errors.New("encode amf0: nested too deep")
+	}
+	ed.enDepth++
+	defer func() { ed.enDepth-- }()
+
 	// 取得变量信息
 	v := reflect.ValueOf(val)
 
diff --git a/amf/amf3.go b/amf/amf3.go
index 237b5a0..e3e2bda 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -61,7 +61,8 @@ type EnDecAMF3 struct {
 	deObjTable       []interface{}
 	traitTable       []TraitAMF3
 	externalHandlers map[string]ExternalHandler
-	depth            int // 当前嵌套深度
+	depth            int // 解码时的当前嵌套深度
+	enDepth          int // 编码时的当前嵌套深度
 }
 
 // NewEnDecAMF3 AMF3协议解析器
@@ -88,7 +89,7 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 	}
 
 	// 嵌套深度由对端决定, 需要限制, 否则会耗尽调用栈
-	if ed.depth >= maxDecodeDepth {
+	if ed.depth >= maxDepth {
 		return nil, errors.New("decode amf3: nested too deep")
 	}
 	ed.depth++
@@ -572,6 +573,13 @@ func (ed *EnDecAMF3) readUint29(r io.Reader) (uint32, error) {
 
 // Encode AMF3封装器入口
 func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
+	// 包含自身的对象会无限嵌套, 需要限制, 否则会耗尽调用栈
+	if ed.enDepth >= maxDepth {
+		return 0, errors.New("encode amf3: nested too deep")
+	}
+	ed.enDepth++
+	defer func() { ed.enDepth-- }()
+
 	v := reflect.ValueOf(val)
 
 	// 复杂类型
diff --git a/amf/helper.go b/amf/helper.go
index b242287..6663dd8 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -64,8 +64,8 @@ func readByte(r io.Reader) (byte, error) {
 // 单次预分配的最大字节数, 超出部分随实际读取的数据增长(长度字段来自对端, 不可信)
 const maxPrealloc = 64 * 1024
 
-// 解码时允许的最大嵌套深度
-const maxDecodeDepth = 10000
+// 编码和解码时允许的最大嵌套深度
+const maxDepth = 10000
 
 // 读多字节(读满n个字节, 否则返回错误)
 func readBytes(r io.Reader, n int) ([]byte, error) {
-- 
2.43.0


From b461c9bf1d99e9af31eb705a7f6a3c4c347d4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 66/67] fix: sips: appending to the header section of a message
 does not overwrite its payload

---
 sips/sips.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index d4664e2..f0706b9 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -150,7 +150,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	}
 	buffer = append(buffer, body...)
 
-	s.BaseLayer = BaseLayer{Contents: buffer[:offset], Payload: buffer[offset:]}
+	s.BaseLayer = BaseLayer{Contents: buffer[:offset:offset], Payload: buffer[offset:]}
 	return nil
 }
 
-- 
2.43.0


From 8d7e17185960de605d51f4428cec57860e7d9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 67/67] fix: sips: a body that is complete is no failure,
 though the stream fails right behind it

---
 sips/sips.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index f0706b9..310a151 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -74,7 +74,13 @@ func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 
 	// a stream may already hold the next message, so read no further
 	// than the end of this one
-	return ioutil.ReadAll(io.LimitReader(r, int64(size)))
+	body, err := ioutil.ReadAll(io.LimitReader(r, int64(size)))
+	if err != nil && len(body) == size {
+		// the error came with the last byte, it belongs to what follows
+		err = nil
+	}
+
+	return body, err
 }
 
 // Parse parses the slices from reader into the SIP struct.
-- 
2.43.0

