From d1e04ead0199906bbbee557d9a7c0b04e1a32fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 01/82] fix: size of a 255 byte array

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From fd9195c4f52baa775efeb54965b1c89cc1066c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/82] fix: WriteAny wrote nil twice

---
 msgpack/encoder.go | 3 ---
 msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..391570a 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,9 +315,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..e7c3b0a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -279,9 +279,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From a37555b7ba0bff55f2a7a41e5c39ac5bfac8b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 03/82] fix: WriteAny of timestamps wrote nothing

---
 msgpack/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 391570a..3fe6925 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -348,8 +348,16 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []interface{}:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 517ff03f91e014799575e682add889abdb770ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 04/82] fix: ReadAny could not read timestamps

---
 msgpack/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..9d4f892 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -393,6 +393,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTime(prefix)
+}
+
+func (d *Decoder) readTime(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -823,6 +827,9 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTime(prefix)
 	}
 
 	return nil, ReadError{"bad value for bool"}
-- 
2.43.0


From e70dc7a39946962a57997dde804d971f95be0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/82] fix: read extension lengths as raw integers

---
 msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 9d4f892..843eae2 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -896,13 +896,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 528ddaf6bcee661214817bdcebc6a8b72e9ba698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 06/82] fix: range check wrapped around for lengths near 4 GiB

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 96b437a98754dda3199d0aac100c55dc8c3a257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/82] fix: Skip recursed on nested input and wrapped large
 map sizes

---
 msgpack/decoder.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 843eae2..4c5cb20 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -597,27 +597,26 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
+	// Containers add their elements to the number of objects still to discard,
+	// so the nesting of the input does not become the depth of the stack.
+	numberOfObjectsToDiscard := uint64(1)
 	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
+		numberOfObjectsToDiscard += nested
 		numberOfObjectsToDiscard--
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -625,9 +624,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -685,25 +684,25 @@ func (d *Decoder) getSize() (uint32, error) {
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
-- 
2.43.0


From 47fc8ccb16a5738c5ae8b9160bb793436b2e7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 08/82] fix: Skip ignored values that are cut short

---
 msgpack/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 4c5cb20..f76f2c3 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -708,7 +708,7 @@ func (d *Decoder) getSize() (uint64, error) {
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From 5c7720f7cb9b94b7d247608b2d80d398ac507482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/82] fix: Skip of extension values

---
 msgpack/decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index f76f2c3..e754fd4 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -670,7 +670,7 @@ func (d *Decoder) getSize() (uint64, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -679,6 +679,12 @@ func (d *Decoder) getSize() (uint64, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			_, length, err := d.extHeader(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(length)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
-- 
2.43.0


From 1484bf8b810a4f1727fcda0514ba95506664c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 10/82] fix: ReadAny allocated whatever size the input declared

---
 msgpack/decoder.go | 48 ++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index e754fd4..b85a16a 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -733,17 +733,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	switch prefix {
@@ -787,33 +781,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -840,30 +826,34 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+// The length of an array or map comes from the input, so nothing is allocated
+// for elements that may not be there.
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	array := []any{}
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	m := map[any]any{}
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
-- 
2.43.0


From 015df1922489c431fd53f868c1feb252aeeb3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 11/82] fix: ReadAny panicked on maps with unhashable keys

---
 msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index b85a16a..cb5d355 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -847,6 +847,10 @@ func (d *Decoder) readMap(length uint32) (map[any]any, error) {
 		if err != nil {
 			return nil, err
 		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return nil, ReadError{"unsupported map key"}
+		}
 		value, err := d.ReadAny()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a99c552c8ea3aa27acb21bdc87d938b085a8c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 12/82] fix: ReadAny overflowed the stack on deeply nested
 input

---
 msgpack/decoder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index cb5d355..caedd7e 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -7,8 +7,13 @@ import (
 	"time"
 )
 
+// maxDepth limits the nesting of dynamic values, so that hostile input cannot
+// exhaust the stack.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 // Ensure `*Decoder` implements `Reader`.
@@ -718,6 +723,12 @@ func (d *Decoder) getSize() (uint64, error) {
 }
 
 func (d *Decoder) ReadAny() (any, error) {
+	if d.depth >= maxDepth {
+		return nil, ReadError{"value is nested too deeply"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
+
 	prefix, err := d.reader.GetUint8()
 	if err != nil {
 		return false, err
-- 
2.43.0


From 754b9dfbef7d4a4b160666e23fc1d57cf0c3523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 13/82] fix: ReadSlice and ReadMap allocated whatever size the
 input declared

---
 msgpack/utils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..74640ac 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -4,6 +4,15 @@ import (
 	"golang.org/x/exp/constraints"
 )
 
+const maxPrealloc = 1024
+
+func min(a, b uint32) uint32 {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 func WriteSlice[T any](encoder Writer, values []T, valF func(Writer, T)) error {
 	encoder.WriteArraySize(uint32(len(values)))
 	for _, item := range values {
@@ -18,7 +27,8 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	// The size comes from the input, so it is only trusted up to a point.
+	request := make([]T, 0, min(listSize, maxPrealloc))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +60,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, min(mapSize, maxPrealloc))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
-- 
2.43.0


From c157f66dd5909e4fb78d3406c102c30db24b8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 14/82] fix: signed reads rejected integers in the unsigned
 formats

---
 msgpack/decoder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index caedd7e..2875760 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -165,6 +165,25 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if v > math.MaxInt64 {
+			return 0, ReadError{
+				"interger overflow: value = " +
+					strconv.FormatUint(v, 10) +
+					"; bits = 64",
+			}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
-- 
2.43.0


From 19ae8c0a9762867835f75330344dd54a6793022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 15/82] fix: nillable conversions crashed on absent values

---
 msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..9a26284 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From b139013188c3dd22ac823d61daf539321d6823dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:39 +0000
Subject: [PATCH 16/82] fix: request frames lost the follows flag

---
 internal/frames/request_payload.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..848f788 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -76,6 +76,10 @@ func (f *RequestPayload) Encode(buf []byte) {
 		flags |= FlagComplete
 	}
 
+	if f.Follows {
+		flags |= FlagFollow
+	}
+
 	if metadataLen > 0 {
 		flags |= FlagMetadata
 	}
-- 
2.43.0


From 002d3f5af2beb27c5f1ec41d8b8500d399a6d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 17/82] fix: setup frame size counted the token twice

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..7afef06 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -142,7 +142,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From 21b13b31621eedba2cbe644f199de7fa2a68f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 18/82] fix: setup frame durations over 4.2 seconds wrapped
 around

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 7afef06..b22955b 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -103,8 +103,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From 6e2ea858365f2d2ca2df3ad982e00b31c53154c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 19/82] fix: setup frames with the longest mime types or tokens
 did not decode

---
 internal/frames/setup.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index b22955b..ab0a487 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -44,16 +44,16 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
+		tokenLength := int(binary.BigEndian.Uint16(data))
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
+	metadataMimeLength := int(data[0])
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
-	dataMimeLength := data[0]
+	dataMimeLength := int(data[0])
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
-- 
2.43.0


From 02be04d486c72f0c314de9b193206066a0791442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 20/82] fix: truncated frames crashed the decoder

---
 internal/frames/error.go           |  3 +++
 internal/frames/payload.go         |  6 ++++++
 internal/frames/request_n.go       |  3 +++
 internal/frames/request_payload.go |  9 +++++++++
 internal/frames/setup.go           | 27 +++++++++++++++++++++++++++
 internal/frames/util.go            |  4 ++++
 6 files changed, 52 insertions(+)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..07271e1 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..1a14645 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..dedc01b 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 848f788..a3fd582 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTruncated
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index ab0a487..e2fd5ae 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -35,6 +35,9 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return ErrTruncated
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,25 +47,49 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
+		if len(data) < 2 {
+			return ErrTruncated
+		}
 		tokenLength := int(binary.BigEndian.Uint16(data))
+		if len(data) < 2+tokenLength {
+			return ErrTruncated
+		}
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
+	if len(data) < 1 {
+		return ErrTruncated
+	}
 	metadataMimeLength := int(data[0])
+	if len(data) < 1+metadataMimeLength {
+		return ErrTruncated
+	}
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
+	if len(data) < 1 {
+		return ErrTruncated
+	}
 	dataMimeLength := int(data[0])
+	if len(data) < 1+dataMimeLength {
+		return ErrTruncated
+	}
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
 
 	if hasMetadata {
+		if len(data) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], data[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		data = data[3:]
+		if uint32(len(data)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = data[:mdLength]
 		payload = data[mdLength:]
 	}
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..1d17c28 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,10 +2,14 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 var emptyBuffer = []byte{}
 
+// ErrTruncated is returned when a frame is shorter than its fields demand.
+var ErrTruncated = errors.New("truncated frame")
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From f50a0bd326bcdf9d4cc04e171edb99a9af8ec4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 21/82] fix: server stream ids wrapped around to zero

---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 550518cd6aeaa93b0fdf29a4cb0321c20b6948d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 22/82] fix: fragmented requests repeated their metadata

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index a3fd582..6448a59 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -171,6 +171,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil // Fully sent in the first fragment
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 7a58f63011bc0cc38e31a6be3632f97a6753b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 23/82] fix: malformed operation tables crashed the parser

---
 operations/operatons.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..4f0b272 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -62,12 +62,16 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("truncated operation table")
 
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if !bytes.HasPrefix(buf, Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
+	if len(buf) < 6 {
+		return nil, ErrTruncated
+	}
 
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
@@ -76,18 +80,31 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	// Each operation has at least 12 bytes.
+	if uint64(numOps)*12 > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
+		nsLen := int(binary.BigEndian.Uint16(buf[6:8]))
 		buf = buf[8:]
+		if len(buf) < nsLen+2 {
+			return nil, ErrTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
+		opLen := int(binary.BigEndian.Uint16(buf[0:2]))
 		buf = buf[2:]
+		if len(buf) < opLen+2 {
+			return nil, ErrTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -97,7 +114,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Namespace: ns,
 			Operation: op,
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
+		reservedLen := int(binary.BigEndian.Uint16(buf))
+		if len(buf) < 2+reservedLen {
+			return nil, ErrTruncated
+		}
 		buf = buf[2+reservedLen:] // Reserved
 	}
 
-- 
2.43.0


From 9074719ffcb6be6e634c34d38641cab7afec5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 24/82] fix: port messages confused their next and complete
 flags

---
 invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 2f0b474ad5349935c0f1f8467ea5d20e65fbbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 25/82] fix: truncated port messages crashed the decoder

---
 invoke/portio.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 44e7e80..fc34ba6 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,9 +2,13 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+// ErrPortIOTruncated is returned when a port message is shorter than it states.
+var ErrPortIOTruncated = errors.New("truncated port message")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +17,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return ErrPortIOTruncated
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
-	portLength := binary.BigEndian.Uint16(data)
+	portLength := int(binary.BigEndian.Uint16(data))
 	data = data[2:]
+	if len(data) < portLength {
+		return ErrPortIOTruncated
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 46389bd8d17146df3e5b0a6f55b7cb47ecd9f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 26/82] fix: received frames were overwritten by later ones

---
 transport/rsocket/tcp_conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..9449bdd 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -47,7 +47,8 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 	}
 
 	header := frames.ParseFrameHeader(raw)
-	buffer := raw[frames.FrameHeaderLen:]
+	// The decoder reuses its buffer while decoded frames refer to theirs.
+	buffer := append([]byte(nil), raw[frames.FrameHeaderLen:]...)
 
 	switch header.Type() {
 	case frames.FrameTypeSetup:
-- 
2.43.0


From 6462be96bee5ebfca7a6c023e88fdff510844eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 27/82] fix: concurrent writers corrupted the connection

---
 transport/rsocket/tcp_conn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index 9449bdd..dc387d2 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -14,12 +15,13 @@ import (
 // TCPConn is RSocket connection for TCP transport.
 type TCPConn struct {
 	conn    net.Conn
+	writeMu sync.Mutex // guards writer
 	writer  *bufio.Writer
 	decoder *LengthBasedFrameDecoder
 	// counter *core.TrafficCounter
 }
 
-func (p TCPConn) Addr() string {
+func (p *TCPConn) Addr() string {
 	addr := p.conn.RemoteAddr()
 	return addr.String()
 }
@@ -101,6 +103,9 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 
 // Write writes a frame.
 func (p *TCPConn) Write(frame frames.Frame) (err error) {
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
+
 	size := frame.Size()
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
@@ -126,6 +131,9 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 
 // Flush flush data.
 func (p *TCPConn) Flush() (err error) {
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
+
 	err = p.writer.Flush()
 	if err != nil {
 		err = fmt.Errorf("flush failed: %w", err)
-- 
2.43.0


From 37c00f7bdab3801e83a0ff43337bb038e0b4d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 28/82] fix: the first stream of the registry could not be
 removed

---
 proxy/lookup.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..e297e02 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -76,10 +76,14 @@ func (l *Lookup) Remove(id uint32) {
 	nextNode := nodeToDelete.next
 
 	if prevNode != nil {
-		prevNode.next = nodeToDelete.next
+		prevNode.next = nextNode
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
-		nextNode.prev = nodeToDelete.prev
+		nextNode.prev = prevNode
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 336c89ba2744f2239daff4849af9461ac6852fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 29/82] fix: stream lookups raced with additions and removals

---
 proxy/lookup.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index e297e02..431365e 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
-- 
2.43.0


From 685b59c3f20df8ce0805fc9c45ab15c64621e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 30/82] fix: handles of removed objects resolved to later ones

---
 invoke/instances.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..9db7f57 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -13,21 +12,21 @@ type Ptr[T any] struct {
 var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
-	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	mu         sync.RWMutex
+	lastHandle uint64
+	instances  map[uint64]*Ptr[T]
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
@@ -36,20 +35,21 @@ func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
 	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	// Handles are never used again, unlike addresses.
+	t.lastHandle++
+	t.instances[t.lastHandle] = ptr
+	return t.lastHandle
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	var ptr *Ptr[T]
+	if ptr, ok = t.instances[id]; ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 0daeec030b14073974ef93a99586cfa715d10e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 31/82] fix: an empty custom section at the end of a module was
 an error

---
 transport/wasmrs/customsections/customsections.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..d26910a 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -123,7 +123,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	if _, err = io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 0683df36461bbae94017250b1bdf45a6002e930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 32/82] fix: custom sections allocated whatever size the module
 declared

---
 transport/wasmrs/customsections/customsections.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index d26910a..1372803 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,6 +125,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return nil, err
-- 
2.43.0


From 33d730713f522885b63023aeaff18c79f09db3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 33/82] fix: Parse accepted any characters in place of the
 braces

---
 types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/uuid/uuid.go b/types/uuid/uuid.go
index 61a3725..3132d75 100644
--- a/types/uuid/uuid.go
+++ b/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid bracketed UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid bracketed UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From cb3f08f14bedb8c0192f5ffe99343a7d54a829c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 34/82] fix: immediate monos never ran the final callback

---
 rx/mono/mono.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 196c39cb8234f229a94e658244ae717b006a2c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 35/82] fix: a failed mono transform ended with the complete
 signal

---
 rx/mono/mono.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 047ccc6..ab476e6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -215,10 +215,14 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	finally := sub.Finally
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				if sub.Finally != nil {
+					finally = func(rx.SignalType) { sub.Finally(rx.SignalError) }
+				}
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +234,11 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if finally != nil {
+				finally(signal)
+			}
+		},
 	})
 	return b
 }
-- 
2.43.0


From 587979849696fc7d22326dc4caf44c174fb230a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 36/82] fix: a later signal replaced the first one of an
 unsubscribed processor

---
 rx/mono/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..1d02282 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -29,7 +29,7 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 func (p *ProcessorImpl[T]) Success(value T) {
 	if p.sink != nil {
 		p.sink.Success(value)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.success = &value
 	}
 }
@@ -37,7 +37,7 @@ func (p *ProcessorImpl[T]) Success(value T) {
 func (p *ProcessorImpl[T]) Error(err error) {
 	if p.sink != nil {
 		p.sink.Error(err)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.err = err
 	}
 }
-- 
2.43.0


From 74a43168c01dd9f965f4e90ab35ef4d5e46f70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 37/82] fix: awaiting a mono nobody subscribed to never
 finished

---
 rx/mono/mono.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index ab476e6..96f3a7c 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -124,14 +124,14 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 }
 
 func (m *mono[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	if m.subscriber == nil {
+		m.Subscribe(Subscribe[T]{})
+	}
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-	// if m.subscriber == nil {
-	// 	wrapper := subscriber[T]{}
-	// 	m.subscriber = &wrapper
-	// 	m.source(&wrapper)
-	// }
 	if m.subscriber != nil && m.subscriber.closed {
 		fn(m.subscriber.signal)
 		return
-- 
2.43.0


From 23856a0fe6fba66e1bd5e7e103ead4c5b3b8ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 38/82] fix: blocking on a subscribed mono ran its source again

---
 proxy/mono_host.go   | 24 ++++++------------------
 rx/mono/mono_host.go | 43 ++++++++++++++-----------------------------
 2 files changed, 20 insertions(+), 47 deletions(-)

diff --git a/proxy/mono_host.go b/proxy/mono_host.go
index 927c78b..2a4eed9 100644
--- a/proxy/mono_host.go
+++ b/proxy/mono_host.go
@@ -5,28 +5,16 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
-	"github.com/nanobus/iota/go/rx/mono"
+	"github.com/nanobus/iota/go/rx"
 )
 
 func (s *streamMono) Block() (ret payload.Payload, err error) {
-	// if s.subscriber != nil && s.subscriber.closed {
-	// 	return s.subscriber.value, s.subscriber.err
-	// }
-
+	s.Async()
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(mono.Subscribe[payload.Payload]{
-			OnSuccess: func(value payload.Payload) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
+	s.Notify(func(rx.SignalType) {
+		close(done)
+	})
 
 	<-done
-	return ret, err
+	return s.Get()
 }
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 72e0c0d..7c643ba 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -3,6 +3,10 @@
 
 package mono
 
+import (
+	"github.com/nanobus/iota/go/rx"
+)
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
@@ -12,39 +16,20 @@ func (s *mono[T]) Block() (ret T, err error) {
 		return s.subscriber.value, s.subscriber.err
 	}
 
+	s.Async()
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(Subscribe[T]{
-			OnSuccess: func(value T) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
+	s.Notify(func(rx.SignalType) {
+		close(done)
+	})
 
 	<-done
-	return ret, err
+	return s.Get()
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	value, err := b.mono.Block()
+	if err != nil {
+		return ret, err
+	}
+	return b.tx(value)
 }
-- 
2.43.0


From 305e6c943f97526b91d46e3eb4233969a637923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 39/82] fix: mono signals raced with waiters and with each
 other

---
 rx/mono/mono.go      | 72 ++++++++++++++++++++++++++++++++------------
 rx/mono/mono_host.go |  7 +++--
 rx/mono/processor.go | 36 ++++++++++++++++------
 3 files changed, 84 insertions(+), 31 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 96f3a7c..39a7c87 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -106,6 +108,7 @@ func Create[T any](source Source[T]) Mono[T] {
 
 type mono[T any] struct {
 	source     Source[T]
+	mu         sync.Mutex // guards what follows and the subscriber's state
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -118,7 +121,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -126,21 +131,34 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 func (m *mono[T]) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if m.subscriber == nil {
-		m.Subscribe(Subscribe[T]{})
+	wrapper := subscriber[T]{m: m}
+	m.mu.Lock()
+	subscribed := m.subscriber != nil
+	if !subscribed {
+		m.subscriber = &wrapper
+	}
+	m.mu.Unlock()
+	if !subscribed {
+		m.source(&wrapper)
 	}
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.mu.Lock()
+	if m.subscriber != nil && m.subscriber.finished {
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
@@ -148,11 +166,12 @@ func (m *mono[T]) Get() (ret T, err error) {
 }
 
 type subscriber[T any] struct {
-	closed bool
-	value  T
-	err    error
-	signal rx.SignalType
-	m      *mono[T]
+	closed   bool // got its signal
+	finished bool // ran its callbacks
+	value    T
+	err      error
+	signal   rx.SignalType
+	m        *mono[T]
 
 	doOnSuccess   rx.FnOnNext[T]
 	doOnError     rx.FnOnError
@@ -161,11 +180,9 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	if !s.close(value, nil) {
 		return
 	}
-	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -173,32 +190,49 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var empty T
+	if !s.close(empty, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
+// close stores the outcome unless there is one already.
+func (s *subscriber[T]) close(value T, err error) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.value = value
+	s.err = err
+	s.closed = true
+	return true
+}
+
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	s.signal = signal
+	s.finished = true
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var empty T
+	if !s.close(empty, nil) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 7c643ba..6a08036 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -12,8 +12,11 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+	s.mu.Lock()
+	closed := s.subscriber != nil && s.subscriber.closed
+	s.mu.Unlock()
+	if closed {
+		return s.Get()
 	}
 
 	s.Async()
diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index 1d02282..39482b9 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -1,5 +1,9 @@
 package mono
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,6 +11,7 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      sync.Mutex // guards what follows
 	sink    Sink[T]
 	success *T
 	err     error
@@ -15,11 +20,14 @@ type ProcessorImpl[T any] struct {
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, err := p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if err != nil {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +35,25 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else if p.success == nil && p.err == nil {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.success == nil && p.err == nil {
 		p.success = &value
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Success(value)
+	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else if p.success == nil && p.err == nil {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.success == nil && p.err == nil {
 		p.err = err
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From 3ae3fda82c55ed08617292f9d7c7457d20045564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 40/82] fix: the error flux never ran the final callback

---
 rx/flux/flux.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..5d36834 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -56,14 +59,21 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return ended{}
 }
 
+// ended is the subscription of a flux that has already ended.
+type ended struct{}
+
+func (ended) Request(int) {}
+func (ended) Cancel()     {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
-- 
2.43.0


From 04259b3b8dbe79c8cacb379b2be5dd57f7622a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 41/82] fix: blocking on a flux that is not subscribed crashed

---
 rx/flux/flux_host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..fca9dd0 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -26,7 +26,7 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.closed {
 		return f.subscriber.err
 	}
 
-- 
2.43.0


From 3cb767eb69cf196e9a4fae3d0321e328ebbebee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 42/82] fix: cancelling a flux repeated its end and skipped its
 waiters

---
 rx/flux/flux.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 5d36834..7582bf4 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -118,6 +118,7 @@ func (f *flux[T]) Notify(fn rx.FnFinally) {
 
 type subscriber[T any] struct {
 	closed    bool
+	cancelled bool
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -183,6 +184,9 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 	if s.closed {
+		if s.cancelled && sub.Cancel != nil {
+			sub.Cancel()
+		}
 		return
 	}
 	s.sub = sub
@@ -210,13 +214,15 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
 	s.closed = true
+	s.cancelled = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From 1b8cd2c4ac7af942b4a0ef3620cfb8406ac9c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 43/82] fix: a failed flux transform did not stop the source

---
 rx/flux/flux.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 7582bf4..ddce761 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -225,10 +225,6 @@ func (s *subscriber[T]) Cancel() {
 	s.finally(rx.SignalCancel)
 }
 
-func (s *subscriber[T]) Close() {
-	s.closed = true
-}
-
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 	return mapper[S, D]{
 		f:  f,
@@ -241,23 +237,16 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	failed := false
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
-				}
+				m.f.Subscription().Cancel()
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
 			}
@@ -265,8 +254,15 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 		OnComplete: sub.OnComplete,
 		OnError:    sub.OnError,
 		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
-- 
2.43.0


From daac986f3261cc7333289e84f1bb41c346721bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 44/82] fix: an ended flux still asked for items

---
 rx/flux/flux.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index ddce761..18adcf3 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -144,7 +144,7 @@ func (s *subscriber[T]) Next(value T) {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	if s.n == 0 && !s.closed {
 		s.handleOnSubscribe()
 	}
 }
@@ -196,7 +196,7 @@ func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	if s.noRequest || s.closed {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -207,6 +207,9 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	if s.closed {
+		return
+	}
 	s.n += n
 	if s.sub.Request != nil {
 		s.doRequest(n)
-- 
2.43.0


From 820118fee2ca60dd8c6ea4892c2133d298aa98c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 45/82] fix: awaiting a flux nobody subscribed to never
 finished

---
 rx/flux/flux.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 18adcf3..032cffb 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -106,7 +106,13 @@ func (f *flux[T]) Subscription() rx.Subscription {
 	return f.subscriber
 }
 
-func (f *flux[T]) Async() {}
+func (f *flux[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	if f.subscriber == nil {
+		f.Subscribe(Subscribe[T]{})
+	}
+}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
 	if f.subscriber != nil && f.subscriber.closed {
-- 
2.43.0


From 26c0d417d352853124ffe2dcf37cd04c16d610a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 46/82] fix: flux signals and requests raced with each other
 and with waiters

---
 rx/flux/flux.go      | 96 ++++++++++++++++++++++++++++++++++----------
 rx/flux/flux_host.go | 15 +++++--
 rx/flux/processor.go | 40 ++++++++++++------
 3 files changed, 115 insertions(+), 36 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 032cffb..a53dd8b 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -82,6 +84,7 @@ func Create[T any](source Source[T]) Flux[T] {
 
 type flux[T any] struct {
 	source     Source[T]
+	mu         sync.Mutex // guards what follows and the subscriber's state
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -96,35 +99,47 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if f.subscriber == nil {
+	f.mu.Lock()
+	subscribed := f.subscriber != nil
+	f.mu.Unlock()
+	if !subscribed {
 		f.Subscribe(Subscribe[T]{})
 	}
 }
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.finished {
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
-	closed    bool
+	closed    bool // got its end, or was cancelled
 	cancelled bool
+	finished  bool // ran its callbacks
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -142,24 +157,29 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 && !s.closed {
+	s.f.mu.Lock()
+	drained := s.n == 0
+	s.f.mu.Unlock()
+	if drained {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.close(nil) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -167,42 +187,65 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close(err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
+// close marks the end unless there was one already.
+func (s *subscriber[T]) close(err error) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.err = err
+	s.closed = true
+	return true
+}
+
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	s.signal = signal
+	s.finished = true
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
-	if s.closed {
-		if s.cancelled && sub.Cancel != nil {
+	s.f.mu.Lock()
+	closed, cancelled, n := s.closed, s.cancelled, s.n
+	if !closed {
+		s.sub = sub
+	}
+	s.f.mu.Unlock()
+	if closed {
+		if cancelled && sub.Cancel != nil {
 			sub.Cancel()
 		}
 		return
 	}
-	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	if n > 0 {
+		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest || s.closed {
+	s.f.mu.Lock()
+	skip := s.noRequest || s.closed
+	s.f.mu.Unlock()
+	if skip {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -213,23 +256,31 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n += n
-	if s.sub.Request != nil {
+	request := s.sub.Request
+	s.f.mu.Unlock()
+	if request != nil {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.closed = true
 	s.cancelled = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	cancel := s.sub.Cancel
+	s.f.mu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
 	s.finally(rx.SignalCancel)
 }
@@ -250,6 +301,9 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 	failed := false
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if failed {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
 				failed = true
 				if sub.OnError != nil {
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index fca9dd0..24f729b 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -21,13 +21,22 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		s.f.mu.Lock()
+		closed, request := s.closed, s.sub.Request
+		s.f.mu.Unlock()
+		if !closed && request != nil {
+			request(n)
+		}
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber != nil && f.subscriber.closed {
-		return f.subscriber.err
+	f.mu.Lock()
+	s := f.subscriber
+	ended := s != nil && s.closed
+	f.mu.Unlock()
+	if ended {
+		return s.err
 	}
 
 	return Block(Flux[T](f), sub)
diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 10770a6..9183723 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -1,5 +1,7 @@
 package flux
 
+import "sync"
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,6 +9,7 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
+	mu   sync.Mutex // guards what follows
 	sink Sink[T]
 	sub  *OnSubscribe
 }
@@ -14,10 +17,13 @@ type processor[T any] struct {
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub := p.sub
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
 		}
 	})
 
@@ -25,27 +31,37 @@ func NewProcessor[T any]() Processor[T] {
 }
 
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.current(); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.current(); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.current(); sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
+}
+
+func (p *processor[T]) current() Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.sink
 }
-- 
2.43.0


From b46cf7d77848f48790d1814c92b0f4bfa14b7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 47/82] fix: flow steps ran again when their awaitables had
 already finished

---
 rx/flow/flow.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..c2017ba 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -91,6 +91,7 @@ func (f *Flow[T]) next() {
 
 	f.completed = 0
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -110,8 +111,6 @@ func (f *Flow[T]) next() {
 		a.Async() // Ensure task is running.
 		a.Notify(f.check)
 	}
-
-	f.steps = f.steps[1:]
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-- 
2.43.0


From f94a462665fc40e25d2292737d46937746008f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 48/82] fix: flow steps were confused by awaitables finishing
 concurrently

---
 rx/flow/flow.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index c2017ba..c9581a5 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -89,7 +89,6 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.completed = 0
 	step := f.steps[0]
 	f.steps = f.steps[1:]
 	awaitables, err := step()
@@ -106,16 +105,14 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+	var completed atomic.Int32 // awaitables of this step
+	check := func(rx.SignalType) {
+		if completed.Add(1) == int32(len(awaitables)) {
+			f.next()
+		}
 	}
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+	for _, a := range awaitables {
+		a.Async() // Ensure task is running.
+		a.Notify(check)
 	}
 }
-- 
2.43.0


From 637af4641c83f909dc254976d9e184334bf691d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 49/82] fix: requesting and cancelling raced with the start of
 remote streams

Items requested while the request was being sent, or by the responder before
the channel input was subscribed, were lost or crashed; a cancelled, finished
or failed stream was never forgotten by its requester.
---
 handler/caller.go                |   6 +-
 proxy/flux.go                    | 223 ++++++++++++++++++++++++-------
 proxy/mono.go                    |  25 +++-
 proxy/stream.go                  |  10 ++
 transport/wasmrs/guest/caller.go |   6 +-
 transport/wasmrs/host/caller.go  |   6 +-
 6 files changed, 214 insertions(+), 62 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 7a2eb92..3b7a128 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -71,7 +71,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -92,7 +92,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -102,7 +102,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..363b30f 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,7 +19,8 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
-		first:     true,
+		remove:    remove,
+		inEnded:   in == nil,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
@@ -31,13 +33,24 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	in        flux.Flux[payload.Payload]
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(streamID uint32)
+
+	mu         sync.Mutex // guards what follows
 	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
-	first      bool
-	complete   bool
+	started    bool // the request is being sent
+	sent       bool // the request has been sent
+	n          int  // requested while the request was being sent
+	complete   bool // the response has ended
+	cancelled  bool
+
+	inSub       rx.Subscription
+	inN         int  // requested before there was a subscription
+	inEnded     bool // the items of the channel have ended
+	inCancelled bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,18 +66,65 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
+	s.end(false)
 	s.Processor.Complete()
-	s.complete = true
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.end(true)
 	s.Processor.Error(err)
 }
 
+// end marks the end of the response. An error ends both directions.
+func (s *streamFlux) end(failed bool) {
+	s.mu.Lock()
+	s.complete = true
+	done := failed || s.inEnded
+	s.mu.Unlock()
+	if done {
+		s.remove(s.request.StreamID)
+	}
+	if failed {
+		s.cancelIn()
+	}
+}
+
+// OnCancel stops the items of the channel, which nobody reads any more.
+func (s *streamFlux) OnCancel() {
+	s.cancelIn()
+	s.endIn()
+}
+
+func (s *streamFlux) cancelIn() {
+	s.mu.Lock()
+	s.inCancelled = true
+	sub := s.inSub
+	ended := s.inEnded
+	s.mu.Unlock()
+	if sub != nil && !ended {
+		sub.Cancel()
+	}
+}
+
+// endIn marks the end of the items of the channel.
+func (s *streamFlux) endIn() {
+	s.mu.Lock()
+	s.inEnded = true
+	done := s.complete
+	s.mu.Unlock()
+	if done {
+		s.remove(s.request.StreamID)
+	}
+}
+
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -74,60 +134,129 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
-	if s.complete {
+	s.mu.Lock()
+	if s.complete || s.cancelled {
+		s.mu.Unlock()
+		return
+	}
+	first := !s.started
+	s.started = true
+	wait := !first && !s.sent
+	if wait {
+		s.n = addRequests(s.n, n)
+	}
+	s.mu.Unlock()
+
+	switch {
+	case first:
+		s.start(n)
+	case !wait:
+		s.requestN(n)
+	}
+}
+
+func (s *streamFlux) start(n int) {
+	s.request.InitialN = uint32(addRequests(0, n))
+	s.sendFrame(&s.request)
+
+	s.mu.Lock()
+	s.sent = true
+	n = s.n
+	cancelled := s.cancelled
+	s.mu.Unlock()
+	if cancelled {
+		s.sendCancel()
 		return
 	}
-	if s.first {
-		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
+	if n > 0 {
+		s.requestN(n)
+	}
+	if s.in != nil {
+		s.subscribeIn()
+	}
+}
+
+func (s *streamFlux) subscribeIn() {
+	s.in.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+		},
+		OnComplete: func() {
+			s.endIn()
+			s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Complete: true,
+			})
+		},
+		OnError: func(err error) {
+			s.endIn()
+			s.sendFrame(&frames.Error{
+				StreamID: s.request.StreamID,
+				Data:     err.Error(),
 			})
-		}
-	} else {
-		s.sendFrame(&frames.RequestN{
-			StreamID: s.request.StreamID,
-			N:        uint32(n),
-		})
+		},
+		NoRequest: true,
+	})
+	sub := s.in.Subscription()
+
+	s.mu.Lock()
+	s.inSub = sub
+	n := s.inN
+	cancelled := s.inCancelled
+	s.mu.Unlock()
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
 	}
 }
 
+func (s *streamFlux) requestN(n int) {
+	s.sendFrame(&frames.RequestN{
+		StreamID: s.request.StreamID,
+		N:        uint32(addRequests(0, n)),
+	})
+}
+
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	s.cancelled = true
+	sent := s.sent
+	s.mu.Unlock()
+	s.remove(s.request.StreamID)
+	if sent {
+		s.sendCancel()
+	}
+	s.cancelIn()
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	sub := s.inSub
+	if sub == nil {
+		s.inN = addRequests(s.inN, n)
+	}
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
+	s.mu.Unlock()
 	s.register(s)
 	s.Processor.Subscribe(sub)
 	return s
diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..df97513 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +18,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -25,10 +27,13 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(streamID uint32)
+
+	mu         sync.Mutex // guards what follows
 	subscribed bool
-	request    frames.RequestPayload
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,21 +45,27 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.remove(s.request.StreamID)
 	s.Processor.Success(p)
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	s.remove(s.request.StreamID)
 }
 
 func (s *streamMono) OnError(err error) {
+	s.remove(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(mono.Subscribe[payload.Payload]{})
 	}
 }
@@ -64,7 +75,9 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
+	s.mu.Unlock()
 	s.register(s)
 	s.Processor.Subscribe(sub)
 	s.sendFrame(&s.request)
diff --git a/proxy/stream.go b/proxy/stream.go
index 941be46..d9f601b 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -4,6 +4,7 @@ import (
 	"context"
 
 	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
 )
 
 type Stream interface {
@@ -14,6 +15,15 @@ type Stream interface {
 	OnError(err error)
 }
 
+// addRequests adds up requested items. More than RequestMax are as good as
+// unlimited, and do not fit into a frame.
+func addRequests(a, b int) int {
+	if a > rx.RequestMax-b {
+		return rx.RequestMax
+	}
+	return a + b
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
-- 
2.43.0


From 423849246d5fa6f9f768968045efae66e977bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 50/82] fix: peers could crash a connection, or lose their
 streams, by early or late frames

A stream is known from the moment its request arrives, a cancel stops the
response, the two directions of a channel end separately, finished streams are
forgotten, and frames of unknown streams no longer end the connection.
---
 handler/handler.go | 196 ++++++++++----------------------------
 proxy/incoming.go  | 230 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 281 insertions(+), 145 deletions(-)
 create mode 100644 proxy/incoming.go

diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..9fa276c 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -12,8 +11,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -21,6 +18,7 @@ type FrameSender func(f frames.Frame) error
 
 type Handler struct {
 	ctx          context.Context
+	mode         Mode
 	sendFrame    FrameSender
 	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
@@ -60,7 +58,8 @@ const (
 
 func New(ctx context.Context, mode Mode) *Handler {
 	h := Handler{
-		ctx: ctx,
+		ctx:  ctx,
+		mode: mode,
 	}
 	switch mode {
 	case ClientMode:
@@ -103,6 +102,19 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// acceptable reports whether the peer may open a stream with the ID.
+func (i *Handler) acceptable(streamID uint32) bool {
+	peer := uint32(1) // of a client
+	if i.mode == ClientMode {
+		peer = 0
+	}
+	if streamID == 0 || streamID&1 != peer {
+		return false
+	}
+	_, inUse := i.getStream(streamID)
+	return !inUse
+}
+
 func (i *Handler) SendFrame(f frames.Frame) error {
 	return i.sendFrame(f)
 }
@@ -115,10 +127,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream may have ended while the frame was on its way.
 			return
 		}
 	}
@@ -134,6 +143,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.RequestPayload:
+		if !i.acceptable(streamID) {
+			return
+		}
+
 		switch frameType {
 		case frames.FrameTypeRequestResponse:
 			// if i.checkFollows(&rr) {
@@ -156,7 +169,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Need to register for the frames that follow
+			s := proxy.NewIncoming(i.ctx, streamID, false, i.sendFrame, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -164,16 +180,21 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Need to register for the frames that follow
+			s := proxy.NewIncoming(i.ctx, streamID, true, i.sendFrame, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(OnCancel); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -227,13 +248,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -255,8 +273,8 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewIncoming(ctx, streamID, false, i.sendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			i.sendFrame(&frames.Payload{
@@ -292,121 +310,43 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewIncoming(ctx, streamID, false, i.sendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Incoming, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p), initialN, nil)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Incoming, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p, s.In()), initialN, nil)
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -686,40 +626,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
diff --git a/proxy/incoming.go b/proxy/incoming.go
new file mode 100644
index 0000000..c9d9508
--- /dev/null
+++ b/proxy/incoming.go
@@ -0,0 +1,230 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Incoming is the responding side of a stream or channel request.
+type Incoming struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	remove    func(streamID uint32)
+
+	mu        sync.Mutex // guards what follows
+	sub       rx.Subscription
+	n         int  // requested before there was a subscription
+	cancelled bool // by the requester
+	ended     bool // the response has ended
+	inEnded   bool // the requester's items have ended
+	inErr     error
+	inSink    flux.Sink[payload.Payload]
+}
+
+var _ = (Stream)((*Incoming)(nil))
+
+// NewIncoming creates the responding side of a request. The requester of a
+// channel sends items of its own. The stream is removed once both directions
+// have ended.
+func NewIncoming(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, remove func(streamID uint32)) *Incoming {
+	return &Incoming{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		remove:    remove,
+		inEnded:   !channel,
+	}
+}
+
+func (s *Incoming) Context() context.Context {
+	return s.ctx
+}
+
+func (s *Incoming) StreamID() uint32 {
+	return s.streamID
+}
+
+// In returns the items of the requester.
+func (s *Incoming) In() flux.Flux[payload.Payload] {
+	return flux.Create(func(sink flux.Sink[payload.Payload]) {
+		s.mu.Lock()
+		s.inSink = sink
+		ended, err := s.inEnded, s.inErr
+		s.mu.Unlock()
+		sink.OnSubscribe(flux.OnSubscribe{
+			Request: s.requestIn,
+			Cancel:  s.cancelIn,
+		})
+		if ended {
+			endIn(sink, err)
+		}
+	})
+}
+
+func (s *Incoming) requestIn(n int) {
+	s.mu.Lock()
+	ended := s.inEnded
+	s.mu.Unlock()
+	if !ended {
+		s.sendFrame(&frames.RequestN{
+			StreamID: s.streamID,
+			N:        uint32(addRequests(0, n)),
+		})
+	}
+}
+
+func (s *Incoming) cancelIn() {
+	s.mu.Lock()
+	ended := s.inEnded
+	s.inEnded = true
+	done := s.ended
+	s.mu.Unlock()
+	if ended {
+		return
+	}
+	s.sendFrame(&frames.Cancel{
+		StreamID: s.streamID,
+	})
+	if done {
+		s.remove(s.streamID)
+	}
+}
+
+// Respond sends what the response publishes to the requester.
+// The optional finally is called when the response has ended.
+func (s *Incoming) Respond(response flux.Flux[payload.Payload], initialN uint32, finally rx.FnFinally) {
+	response.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			s.sendFrame(&frames.Payload{
+				StreamID: s.streamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+		},
+		OnComplete: func() {
+			s.end(false)
+			s.sendFrame(&frames.Payload{
+				StreamID: s.streamID,
+				Complete: true,
+			})
+		},
+		OnError: func(err error) {
+			s.Reject(err.Error())
+		},
+		Finally:   finally,
+		NoRequest: true,
+	})
+	sub := response.Subscription()
+	s.mu.Lock()
+	s.sub = sub
+	n := addRequests(s.n, int(initialN))
+	cancelled := s.cancelled
+	s.mu.Unlock()
+	if cancelled {
+		sub.Cancel()
+	} else {
+		sub.Request(n)
+	}
+}
+
+// Reject ends the stream with an error.
+func (s *Incoming) Reject(reason string) {
+	s.end(true)
+	s.sendFrame(&frames.Error{
+		StreamID: s.streamID,
+		Data:     reason,
+	})
+}
+
+// end marks the end of the response. An error ends both directions.
+func (s *Incoming) end(failed bool) {
+	s.mu.Lock()
+	s.ended = true
+	done := failed || s.inEnded
+	if failed {
+		s.inEnded = true
+	}
+	s.mu.Unlock()
+	if done {
+		s.remove(s.streamID)
+	}
+}
+
+// DoRequest asks the response for n more items.
+func (s *Incoming) DoRequest(n int) {
+	s.mu.Lock()
+	sub := s.sub
+	if sub == nil {
+		s.n = addRequests(s.n, n)
+	}
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// OnCancel stops the response because the requester is gone.
+func (s *Incoming) OnCancel() {
+	s.mu.Lock()
+	s.cancelled = true
+	sub := s.sub
+	s.mu.Unlock()
+	s.remove(s.streamID)
+	if sub != nil {
+		sub.Cancel()
+	}
+	s.endIn(nil)
+}
+
+func (s *Incoming) OnNext(p payload.Payload) {
+	s.mu.Lock()
+	sink := s.inSink
+	ended := s.inEnded
+	s.mu.Unlock()
+	if sink != nil && !ended {
+		sink.Next(p)
+	}
+}
+
+func (s *Incoming) OnComplete() {
+	s.endIn(nil)
+}
+
+func (s *Incoming) OnError(err error) {
+	s.endIn(err)
+}
+
+// endIn marks the end of the requester's items.
+func (s *Incoming) endIn(err error) {
+	s.mu.Lock()
+	ended := s.inEnded
+	s.inEnded = true
+	s.inErr = err
+	sink := s.inSink
+	done := s.ended
+	s.mu.Unlock()
+	if ended {
+		return
+	}
+	if done {
+		s.remove(s.streamID)
+	}
+	if sink != nil {
+		endIn(sink, err)
+	}
+}
+
+func endIn(sink flux.Sink[payload.Payload], err error) {
+	if err != nil {
+		sink.Error(err)
+	} else {
+		sink.Complete()
+	}
+}
-- 
2.43.0


From ccee2b0ed53737549c09f7bb79952d39f824dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 51/82] fix: blocking on a remote stream never finished

---
 proxy/flux_host.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)
 create mode 100644 proxy/flux_host.go

diff --git a/proxy/flux_host.go b/proxy/flux_host.go
new file mode 100644
index 0000000..e3c1628
--- /dev/null
+++ b/proxy/flux_host.go
@@ -0,0 +1,19 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if subscribed {
+		return s.Processor.Block(sub)
+	}
+	return flux.Block[payload.Payload](s, sub)
+}
-- 
2.43.0


From 3ffe1d64c48d994ed91c84b9a5583ab753fd41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 52/82] fix: rejected and finished connections were kept by the
 server for ever

---
 transport/rsocket/tcp_transport.go |  9 +++++++--
 transport/rsocket/transport.go     | 20 ++++++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..ab7ab95 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -97,9 +97,14 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
 			go func() {
-				tp.WaitUntilReady()
+				defer t.removeTransport(tp)
+				_ = tp.Start(ctx)
+			}()
+			go func() {
+				if !tp.WaitUntilReady() {
+					return
+				}
 				t.acceptor(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..b6f715a 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -55,6 +55,7 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+	stopped     chan struct{}
 }
 
 // NewTransport creates new transport.
@@ -65,6 +66,7 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		handler:     handler,
 		isServer:    isServer,
 		ready:       make(chan struct{}),
+		stopped:     make(chan struct{}),
 	}
 	handler.SetFrameSender(t.handler.HandleFrame)
 	return &t
@@ -176,6 +178,7 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 
 // Start start transport.
 func (p *Transport) Start(ctx context.Context) error {
+	defer close(p.stopped)
 	defer func() {
 		_ = p.Close()
 	}()
@@ -231,6 +234,19 @@ func (p *Transport) Start(ctx context.Context) error {
 	}
 }
 
-func (p *Transport) WaitUntilReady() {
-	<-p.ready
+// WaitUntilReady waits until frames are read from the peer.
+// It reports false if that is not going to happen because
+// the transport has stopped before.
+func (p *Transport) WaitUntilReady() bool {
+	select {
+	case <-p.ready:
+		return true
+	case <-p.stopped:
+	}
+	select {
+	case <-p.ready:
+		return true
+	default:
+		return false
+	}
 }
-- 
2.43.0


From 7c2de3ae57cd9a9f3812e99191113d879eb401d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 53/82] fix: listeners and connections could survive closing
 the server, and Listen needed a notifier

---
 transport/rsocket/tcp_transport.go | 39 ++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index ab7ab95..8de3159 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -39,10 +39,9 @@ func (t *tcpServerTransport) Close() (err error) {
 		break
 	default:
 		close(t.done)
-		if t.l == nil {
-			break
+		if t.l != nil {
+			err = t.l.Close()
 		}
-		err = t.l.Close()
 		for k := range t.m {
 			_ = k.Close()
 		}
@@ -52,18 +51,24 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
-		notifier <- false
+		notify(notifier, false)
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
 
+	if !t.putListener(l) {
+		_ = l.Close()
+		notify(notifier, false)
+		return errTransportClosed
+	}
+
 	defer func() {
 		_ = t.Close()
 	}()
 
-	notifier <- true
+	notify(notifier, true)
 
 	// daemon: close if ctx is done.
 	go func() {
@@ -79,7 +84,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -110,12 +115,32 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 				})
 			}()
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+func notify(notifier chan<- bool, listening bool) {
+	if notifier != nil {
+		notifier <- listening
+	}
+}
+
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		// already closed
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From df66712e88777e3f2cdcc60d7a7c040af1f38457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:03 +0000
Subject: [PATCH 54/82] fix: the host lost requests for items, cancels and
 channel items of guest streams

---
 transport/wasmrs/host/instance.go | 191 +++++++++---------------------
 1 file changed, 57 insertions(+), 134 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..6b26e31 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -17,7 +17,6 @@ import (
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
 	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -148,6 +147,15 @@ func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// acceptable reports whether the guest may open a stream with the ID.
+func (i *Instance) acceptable(streamID uint32) bool {
+	if streamID&1 != 1 {
+		return false
+	}
+	_, inUse := i.getStream(streamID)
+	return !inUse
+}
+
 func (i *Instance) SendFrame(f frames.Frame) error {
 	// if frag, ok := f.(frames.Fragmentable); ok {
 	// 	if frames := frag.Fragment(i.maxFrameSize); frames != nil {
@@ -240,6 +248,10 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeSetup:
 
 	case frames.FrameTypeRequestResponse:
+		if !i.acceptable(header.StreamID()) {
+			return
+		}
+
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
@@ -257,6 +269,10 @@ func (i *Instance) recvOne(data []byte) {
 		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
+		if !i.acceptable(header.StreamID()) {
+			return
+		}
+
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
@@ -273,6 +289,10 @@ func (i *Instance) recvOne(data []byte) {
 		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestStream:
+		if !i.acceptable(header.StreamID()) {
+			return
+		}
+
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
@@ -286,10 +306,17 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
+		// Need to register for the frames that follow
+		s := proxy.NewIncoming(ctx, rs.StreamID, false, i.SendFrame, i.removeStream)
+		i.registerStream(s)
 		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
+		if !i.acceptable(header.StreamID()) {
+			return
+		}
+
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
@@ -303,8 +330,11 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
+		// Need to register for the frames that follow
+		s := proxy.NewIncoming(ctx, rc.StreamID, true, i.SendFrame, i.removeStream)
+		i.registerStream(s)
 		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -316,12 +346,14 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(OnCancel); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -380,7 +412,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -389,13 +420,12 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
 func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -461,8 +491,10 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Incoming, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -475,48 +507,21 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
+		i.reduceActiveRequests()
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
+	s.Respond(handlerRS(ctx, p), initialN, func(rx.SignalType) {
+		i.reduceActiveRequests()
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Incoming, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -529,63 +534,15 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		i.reduceActiveRequests()
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-				i.reduceActiveRequests()
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
+	s.Respond(handlerRC(ctx, p, s.In()), initialN, func(rx.SignalType) {
+		i.reduceActiveRequests()
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -674,40 +631,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
-- 
2.43.0


From 73ef4c86bf985173758bb4b994ceb45a48530766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:34 +0000
Subject: [PATCH 55/82] fix: the guest lost early requests and cancels, and
 forgot streams that were still open

---
 transport/wasmrs/guest/guest.go | 168 ++++++++------------------------
 1 file changed, 43 insertions(+), 125 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..818375b 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -12,8 +12,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -103,6 +101,10 @@ func GuestSend(endPos uint32) {
 		// 	// Not implemented
 
 		case frames.FrameTypeRequestResponse:
+			if !acceptable(header.StreamID()) {
+				continue
+			}
+
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
@@ -119,6 +121,10 @@ func GuestSend(endPos uint32) {
 			handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 		case frames.FrameTypeRequestFNF:
+			if !acceptable(header.StreamID()) {
+				continue
+			}
+
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
@@ -135,6 +141,10 @@ func GuestSend(endPos uint32) {
 			handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 		case frames.FrameTypeRequestStream:
+			if !acceptable(header.StreamID()) {
+				continue
+			}
+
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
@@ -151,6 +161,10 @@ func GuestSend(endPos uint32) {
 			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
+			if !acceptable(header.StreamID()) {
+				continue
+			}
+
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
@@ -176,12 +190,14 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(OnCancel); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -243,7 +259,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -252,8 +267,6 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -274,8 +287,8 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewIncoming(ctx, streamID, false, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			sendFrame(&frames.Payload{
@@ -311,9 +324,8 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewIncoming(ctx, streamID, false, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
@@ -333,36 +345,9 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s := proxy.NewIncoming(ctx, streamID, false, sendFrame, removeStream)
+	registerStream(s) // Need to register for the frames that follow
+	s.Respond(handler(ctx, p), initialN, nil)
 }
 
 func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -381,51 +366,9 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s := proxy.NewIncoming(ctx, streamID, true, sendFrame, removeStream)
+	registerStream(s) // Need to register for the frames that follow
+	s.Respond(handler(ctx, p, s.In()), initialN, nil)
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -478,6 +421,15 @@ func getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// acceptable reports whether the host may open a stream with the ID.
+func acceptable(streamID uint32) bool {
+	if streamID == 0 || streamID&1 != 0 {
+		return false
+	}
+	_, inUse := getStream(streamID)
+	return !inUse
+}
+
 // //go:inline
 // func getStream(streamID uint32) (proxy.Stream, bool) {
 // 	stream, ok := streams[streamID]
@@ -536,42 +488,8 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
 
 //go:inline
-- 
2.43.0


From 67e1c88f69fd1d8deadf58ab6fca9df9a9eab5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 56/82] fix: closing an instance could hang or crash, and busy
 streams blocked host and guest on each other

---
 transport/wasmrs/host/instance.go | 35 +++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 6b26e31..c8a5123 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
@@ -23,8 +24,8 @@ import (
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
-	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	sendQueue *buffer.Unbounded[frames.Frame]
+	recvQueue *buffer.Unbounded[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -42,6 +43,7 @@ type Instance struct {
 	activeRequests atomic.Int64
 	closing        atomic.Bool
 	closed         chan struct{}
+	closedOnce     sync.Once
 	once           sync.Once
 
 	maxFrameSize       uint32
@@ -63,6 +65,8 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var errClosed = errors.New("the instance is closed")
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -75,8 +79,8 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	i := &Instance{
 		ctx:                ctx,
 		m:                  m,
-		sendCh:             make(chan frames.Frame, 100),
-		recvCh:             make(chan []byte, 100),
+		sendQueue:          buffer.NewUnbounded[frames.Frame](),
+		recvQueue:          buffer.NewUnbounded[[]byte](),
 		sendFn:             send,
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
@@ -110,8 +114,8 @@ func (i *Instance) Close() error {
 			<-i.closed
 		}
 
-		close(i.sendCh)
-		close(i.recvCh)
+		i.sendQueue.Dispose()
+		i.recvQueue.Dispose()
 	})
 
 	return nil
@@ -119,7 +123,7 @@ func (i *Instance) Close() error {
 
 func (i *Instance) reduceActiveRequests() {
 	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+		i.closedOnce.Do(func() { close(i.closed) })
 	}
 }
 
@@ -168,7 +172,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
+	if !i.sendQueue.Put(f) {
+		return errClosed
+	}
 	return nil
 }
 
@@ -181,7 +187,8 @@ func (i *Instance) sendLoop() {
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
+	for f := range i.sendQueue.Get() {
+		i.sendQueue.Load()
 		mem := i.m.Memory()
 		buf, _ := mem.Read(i.sendPtr, i.sendSize)
 		byteCount := f.Size()
@@ -215,14 +222,20 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		frameLength := binary.BigEndian.Uint32(length[0:4])
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvCh <- buf
+		// Close waits until the frame has been received.
+		i.activeRequests.Add(1)
+		if !i.recvQueue.Put(buf) {
+			i.reduceActiveRequests()
+		}
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
+	for buf := range i.recvQueue.Get() {
+		i.recvQueue.Load()
 		i.recvOne(buf)
+		i.reduceActiveRequests()
 	}
 }
 
-- 
2.43.0


From 3660fbd1b5339a406db49cf2a739b0775bdecab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 57/82] fix: a module without an operation list crashed the
 host

---
 transport/wasmrs/host/instance.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index c8a5123..437f629 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -76,6 +76,10 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	if send == nil {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
+	opList := m.ExportedFunction("__wasmrs_op_list_request")
+	if opList == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	i := &Instance{
 		ctx:                ctx,
 		m:                  m,
@@ -94,8 +98,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		return nil, err
 	}
 
-	f := m.ExportedFunction("__wasmrs_op_list_request")
-	_, err = f.Call(ctx)
+	_, err = opList.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1b00701405fd6f92a60e1b5f857afdf584447fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 58/82] fix: malformed frames crashed the host, or made the
 guest drop the frames after them

---
 transport/wasmrs/guest/guest.go   | 25 +++++++++++++++++--------
 transport/wasmrs/host/instance.go | 18 ++++++++++++------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 818375b..3edad42 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -71,14 +71,23 @@ func GuestSend(endPos uint32) {
 	curPos := uint32(0)
 	buf := guestBuffer
 
-	for curPos < endPos {
+	if endPos > uint32(len(buf)) {
+		endPos = uint32(len(buf))
+	}
+	for curPos+3 <= endPos {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen > endPos-curPos-3 {
+			return // incomplete
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
 		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
@@ -108,7 +117,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -128,7 +137,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -148,7 +157,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -168,10 +177,10 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -184,10 +193,10 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 437f629..3a225c0 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -218,11 +218,14 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
+		if frameLength > uint32(len(buffer)) {
+			return // incomplete
+		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
 		// Close waits until the frame has been received.
@@ -244,6 +247,9 @@ func (i *Instance) recvLoop() {
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
@@ -271,7 +277,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -292,7 +298,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -312,7 +318,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -336,7 +342,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -356,7 +362,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From 30f945a4b7579839677b02fc21ed02b07e7bad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 59/82] fix: importers kept calling the previous instance of a
 reloaded module

---
 transport/wasmrs/mesh/mesh.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..9259d89 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -244,17 +244,25 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination changes when its module is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
-- 
2.43.0


From 5568ea8e1b9c116f6c8c2807f141a10d1cdce06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 60/82] fix: the mesh confused operations of different types
 with the same name

---
 transport/wasmrs/mesh/mesh.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 9259d89..ee455e4 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,16 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[exportKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// Operations of different types may have the same name.
+	exportKey struct {
+		opType    operations.RequestType
+		operation string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +54,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[exportKey]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -65,7 +71,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestResponse, operation}]
 	if !ok {
 		return nil
 	}
@@ -80,7 +86,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.FireAndForget, operation}]
 	if !ok {
 		return
 	}
@@ -95,7 +101,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestStream, operation}]
 	if !ok {
 		return nil
 	}
@@ -110,7 +116,7 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestChannel, operation}]
 	if !ok {
 		return nil
 	}
@@ -193,13 +199,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[exportKey]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := exportKey{op.Type, op.Operation}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -240,7 +247,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[exportKey{op.Type, op.Operation}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From eb6e2d73e520853006faea0595c6a455307bbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 61/82] fix: mesh requests with the same metadata overwrote
 each other's destination

---
 transport/wasmrs/mesh/mesh.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index ee455e4..4dce548 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -275,34 +275,30 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+// address puts the operation's index into the metadata. The caller's is kept
+// as it is, because requests are sent only when they are subscribed to.
+func (d *destination) address(p payload.Payload) payload.Payload {
 	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+	if len(md) < 4 {
+		return p
 	}
-	return d.instance.RequestResponse(ctx, p)
+	md = append([]byte(nil), md...)
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	return d.instance.RequestResponse(ctx, d.address(p))
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+	d.instance.FireAndForget(ctx, d.address(p))
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+	return d.instance.RequestStream(ctx, d.address(p))
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+	return d.instance.RequestChannel(ctx, d.address(p), in)
 }
-- 
2.43.0


From 2132fba63a791e89da8c5416287e80cd1dda5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 62/82] fix: modules could not be loaded into a mesh that is in
 use

---
 transport/wasmrs/host/instance.go | 25 +++++++++++++
 transport/wasmrs/mesh/mesh.go     | 60 +++++++++++++++----------------
 2 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 3a225c0..899dcb5 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -50,6 +50,7 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
+	importedMu   sync.RWMutex // guards what follows
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
@@ -568,6 +569,9 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Incoming,
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -575,6 +579,9 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
+
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -582,6 +589,9 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -589,6 +599,9 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
+
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -596,6 +609,9 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -603,6 +619,9 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
+
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -610,6 +629,9 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -617,6 +639,9 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
+
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 4dce548..72e9f64 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,6 +22,7 @@ import (
 type (
 	Mesh struct {
 		verbose     bool
+		mu          sync.RWMutex // guards what follows
 		instances   map[string]*host.Instance
 		exports     map[string]map[exportKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
@@ -66,67 +68,62 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.destination(namespace, exportKey{operations.RequestResponse, operation})
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[exportKey{operations.RequestResponse, operation}]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.destination(namespace, exportKey{operations.FireAndForget, operation})
+	if dest == nil {
 		return
 	}
 
-	ptr, ok := ns[exportKey{operations.FireAndForget, operation}]
-	if !ok {
-		return
-	}
-	dest := ptr.Load()
-
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.destination(namespace, exportKey{operations.RequestStream, operation})
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[exportKey{operations.RequestStream, operation}]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.destination(namespace, exportKey{operations.RequestChannel, operation})
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[exportKey{operations.RequestChannel, operation}]
+	return dest.RequestChannel(ctx, p, in)
+}
+
+// destination returns what currently exports the operation, or nil.
+func (m *Mesh) destination(namespace string, key exportKey) *destination {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	ptr, ok := m.exports[namespace][key]
 	if !ok {
 		return nil
 	}
-	dest := ptr.Load()
-
-	return dest.RequestChannel(ctx, p, in)
+	return ptr.Load()
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	instances := make([]*host.Instance, 0, len(m.instances))
 	for _, inst := range m.instances {
+		instances = append(instances, inst)
+	}
+	m.mu.RUnlock()
+
+	for _, inst := range instances {
 		inst.Close()
 	}
 }
@@ -160,6 +157,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
-- 
2.43.0


From 72c7684571cf9cf2ae54ec6e24e48915076f1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 63/82] verif: stand-ins for the guest's imports (build tag
 verif)

---
 transport/wasmrs/guest/imports.go       |  4 ++--
 transport/wasmrs/guest/imports_verif.go | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)
 create mode 100644 transport/wasmrs/guest/imports_verif.go

diff --git a/transport/wasmrs/guest/imports.go b/transport/wasmrs/guest/imports.go
index 6ebac30..a9c9ca9 100644
--- a/transport/wasmrs/guest/imports.go
+++ b/transport/wasmrs/guest/imports.go
@@ -1,5 +1,5 @@
-//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
-// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && !verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,!verif
 
 package guest
 
diff --git a/transport/wasmrs/guest/imports_verif.go b/transport/wasmrs/guest/imports_verif.go
new file mode 100644
index 0000000..db361ea
--- /dev/null
+++ b/transport/wasmrs/guest/imports_verif.go
@@ -0,0 +1,23 @@
+//go:build verif
+// +build verif
+
+package guest
+
+// VerifHost stands in for the host, which a native guest does not have.
+var VerifHost struct {
+	InitBuffers func(guestBufferPtr uintptr, hostBufferPtr uintptr)
+	OpList      func(opPtr uintptr, opSize uint32)
+	Send        func(nextSendPos uint32)
+}
+
+func initBuffers(guestBufferPtr uintptr, hostBufferPtr uintptr) {
+	VerifHost.InitBuffers(guestBufferPtr, hostBufferPtr)
+}
+
+func opList(opPtr uintptr, opSize uint32) {
+	VerifHost.OpList(opPtr, opSize)
+}
+
+func hostSend(nextSendPos uint32) {
+	VerifHost.Send(nextSendPos)
+}
-- 
2.43.0


From b51fb8c732b88684d550e072367c82c209db3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 64/82] verif: requests of a native guest run where they are
 made (build tag verif)

---
 rx/flux/flux_host.go    | 4 ++++
 rx/flux/inline.go       | 7 +++++++
 rx/flux/inline_verif.go | 9 +++++++++
 3 files changed, 20 insertions(+)
 create mode 100644 rx/flux/inline.go
 create mode 100644 rx/flux/inline_verif.go

diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index 24f729b..1932598 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -18,6 +18,10 @@ type mutex struct {
 }
 
 func (s *subscriber[T]) doRequest(n int) {
+	if inline() {
+		s.sub.Request(n)
+		return
+	}
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
diff --git a/rx/flux/inline.go b/rx/flux/inline.go
new file mode 100644
index 0000000..92d1a7d
--- /dev/null
+++ b/rx/flux/inline.go
@@ -0,0 +1,7 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && !verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,!verif
+
+package flux
+
+// inline tells whether requests run where they are made, as in WebAssembly.
+func inline() bool { return false }
diff --git a/rx/flux/inline_verif.go b/rx/flux/inline_verif.go
new file mode 100644
index 0000000..3ec3f21
--- /dev/null
+++ b/rx/flux/inline_verif.go
@@ -0,0 +1,9 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,verif
+
+package flux
+
+// VerifInline tells whether requests run where they are made, as in WebAssembly.
+var VerifInline = func() bool { return false }
+
+func inline() bool { return VerifInline() }
-- 
2.43.0


From 6559955b33ae7580df9a01d48f2e3baffd3edec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 65/82] fix: the late end of a cancelled stream removed another
 stream with its ID

---
 proxy/incoming.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/incoming.go b/proxy/incoming.go
index c9d9508..e62cece 100644
--- a/proxy/incoming.go
+++ b/proxy/incoming.go
@@ -83,7 +83,7 @@ func (s *Incoming) cancelIn() {
 	s.mu.Lock()
 	ended := s.inEnded
 	s.inEnded = true
-	done := s.ended
+	done := s.ended && !s.cancelled
 	s.mu.Unlock()
 	if ended {
 		return
@@ -147,7 +147,7 @@ func (s *Incoming) Reject(reason string) {
 func (s *Incoming) end(failed bool) {
 	s.mu.Lock()
 	s.ended = true
-	done := failed || s.inEnded
+	done := (failed || s.inEnded) && !s.cancelled // or it is removed already
 	if failed {
 		s.inEnded = true
 	}
@@ -208,7 +208,7 @@ func (s *Incoming) endIn(err error) {
 	s.inEnded = true
 	s.inErr = err
 	sink := s.inSink
-	done := s.ended
+	done := s.ended && !s.cancelled
 	s.mu.Unlock()
 	if ended {
 		return
-- 
2.43.0


From 6cce945d7b1bd0a2f4b01f961c65f7cb4d9becab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:02 +0000
Subject: [PATCH 66/82] fix: messages too large to be sent crashed the process,
 and requests that could not be sent hung

---
 handler/handler.go                | 13 ++-----------
 proxy/flux.go                     | 24 +++++++++++++++---------
 proxy/incoming.go                 | 11 ++++++-----
 proxy/mono.go                     |  4 +++-
 proxy/stream.go                   | 31 +++++++++++++++++++++++++++++++
 transport/rsocket/tcp_conn.go     |  6 +++++-
 transport/wasmrs/guest/guest.go   | 18 +++++++-----------
 transport/wasmrs/host/instance.go | 21 +++++++++------------
 8 files changed, 78 insertions(+), 50 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 9fa276c..c524cf6 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -277,19 +277,10 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-				Complete: true,
-			})
+			proxy.SendResponse(i.sendFrame, streamID, p)
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			proxy.SendError(i.sendFrame, streamID, err.Error())
 		},
 	})
 }
diff --git a/proxy/flux.go b/proxy/flux.go
index 363b30f..2afaee8 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -157,7 +157,10 @@ func (s *streamFlux) Request(n int) {
 
 func (s *streamFlux) start(n int) {
 	s.request.InitialN = uint32(addRequests(0, n))
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+		return
+	}
 
 	s.mu.Lock()
 	s.sent = true
@@ -179,12 +182,16 @@ func (s *streamFlux) start(n int) {
 func (s *streamFlux) subscribeIn() {
 	s.in.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			s.sendFrame(&frames.Payload{
+			err := s.sendFrame(&frames.Payload{
 				StreamID: s.request.StreamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.in.Subscription().Cancel()
+				s.failIn(err)
+			}
 		},
 		OnComplete: func() {
 			s.endIn()
@@ -193,13 +200,7 @@ func (s *streamFlux) subscribeIn() {
 				Complete: true,
 			})
 		},
-		OnError: func(err error) {
-			s.endIn()
-			s.sendFrame(&frames.Error{
-				StreamID: s.request.StreamID,
-				Data:     err.Error(),
-			})
-		},
+		OnError:   s.failIn,
 		NoRequest: true,
 	})
 	sub := s.in.Subscription()
@@ -216,6 +217,11 @@ func (s *streamFlux) subscribeIn() {
 	}
 }
 
+func (s *streamFlux) failIn(err error) {
+	s.endIn()
+	SendError(s.sendFrame, s.request.StreamID, err.Error())
+}
+
 func (s *streamFlux) requestN(n int) {
 	s.sendFrame(&frames.RequestN{
 		StreamID: s.request.StreamID,
diff --git a/proxy/incoming.go b/proxy/incoming.go
index e62cece..a989973 100644
--- a/proxy/incoming.go
+++ b/proxy/incoming.go
@@ -101,12 +101,16 @@ func (s *Incoming) cancelIn() {
 func (s *Incoming) Respond(response flux.Flux[payload.Payload], initialN uint32, finally rx.FnFinally) {
 	response.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			s.sendFrame(&frames.Payload{
+			err := s.sendFrame(&frames.Payload{
 				StreamID: s.streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				response.Subscription().Cancel()
+				s.Reject(err.Error())
+			}
 		},
 		OnComplete: func() {
 			s.end(false)
@@ -137,10 +141,7 @@ func (s *Incoming) Respond(response flux.Flux[payload.Payload], initialN uint32,
 // Reject ends the stream with an error.
 func (s *Incoming) Reject(reason string) {
 	s.end(true)
-	s.sendFrame(&frames.Error{
-		StreamID: s.streamID,
-		Data:     reason,
-	})
+	SendError(s.sendFrame, s.streamID, reason)
 }
 
 // end marks the end of the response. An error ends both directions.
diff --git a/proxy/mono.go b/proxy/mono.go
index df97513..d6f85dc 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -80,6 +80,8 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.mu.Unlock()
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/proxy/stream.go b/proxy/stream.go
index d9f601b..7c5d25c 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -3,6 +3,7 @@ package proxy
 import (
 	"context"
 
+	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/rx"
 )
@@ -24,6 +25,36 @@ func addRequests(a, b int) int {
 	return a + b
 }
 
+// SendError sends an error frame. If the reason cannot be sent, for example
+// because it is too large, the requester is told why instead.
+func SendError(sendFrame func(frames.Frame) error, streamID uint32, reason string) {
+	err := sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     reason,
+	})
+	if err != nil {
+		sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
+// SendResponse sends the response to a request/response, or the reason why
+// that is not possible.
+func SendResponse(sendFrame func(frames.Frame) error, streamID uint32, p payload.Payload) {
+	err := sendFrame(&frames.Payload{
+		StreamID: streamID,
+		Metadata: p.Metadata(),
+		Data:     p.Data(),
+		Next:     true,
+		Complete: true,
+	})
+	if err != nil {
+		SendError(sendFrame, streamID, err.Error())
+	}
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index dc387d2..de679c3 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -110,7 +110,11 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		return fmt.Errorf("frame is too large: %w", err)
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 3edad42..0e99d0b 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -32,6 +32,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errTooLarge = errors.New("the message is too large")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -300,19 +302,10 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-				Complete: true,
-			})
+			proxy.SendResponse(sendFrame, streamID, p)
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			proxy.SendError(sendFrame, streamID, err.Error())
 		},
 	})
 }
@@ -480,6 +473,9 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
+	if 3+f.Size() > uint32(len(hostBuffer)) {
+		return errTooLarge
+	}
 	doSendFrame(f)
 	return nil
 }
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 899dcb5..d1ff123 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -66,7 +66,10 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
-var errClosed = errors.New("the instance is closed")
+var (
+	errClosed   = errors.New("the instance is closed")
+	errTooLarge = errors.New("the message is too large")
+)
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
@@ -176,6 +179,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if 3+f.Size() > i.sendSize {
+		return errTooLarge
+	}
 	if !i.sendQueue.Put(f) {
 		return errClosed
 	}
@@ -471,20 +477,11 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-				Complete: true,
-			})
+			proxy.SendResponse(i.SendFrame, streamID, p)
 			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			proxy.SendError(i.SendFrame, streamID, err.Error())
 			i.reduceActiveRequests()
 		},
 	})
-- 
2.43.0


From db389d5d49207bedbc187818dba42c6389df5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 67/82] fix: requests hung when their connection was lost or
 their instance was closed

---
 handler/handler.go                |  5 +++++
 proxy/flux.go                     | 11 +++++++++++
 proxy/lookup.go                   | 15 +++++++++++++++
 transport/rsocket/transport.go    |  3 +++
 transport/wasmrs/host/instance.go |  2 ++
 5 files changed, 36 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index c524cf6..fd7f11e 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -14,6 +14,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errConnectionClosed = errors.New("the connection is closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
@@ -74,7 +76,10 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends all streams because the connection is gone.
 func (i *Handler) Close() error {
+	i.guestStreams.Fail(errConnectionClosed)
+	i.hostStreams.Fail(errConnectionClosed)
 	return nil
 }
 
diff --git a/proxy/flux.go b/proxy/flux.go
index 2afaee8..1b6c19c 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -45,6 +45,7 @@ type streamFlux struct {
 	sent       bool // the request has been sent
 	n          int  // requested while the request was being sent
 	complete   bool // the response has ended
+	err        error
 	cancelled  bool
 
 	inSub       rx.Subscription
@@ -71,6 +72,9 @@ func (s *streamFlux) OnComplete() {
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.mu.Lock()
+	s.err = err
+	s.mu.Unlock()
 	s.end(true)
 	s.Processor.Error(err)
 }
@@ -265,5 +269,12 @@ func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[pa
 	s.mu.Unlock()
 	s.register(s)
 	s.Processor.Subscribe(sub)
+	s.mu.Lock()
+	err := s.err
+	s.mu.Unlock()
+	if err != nil {
+		// It may have failed before there was a subscriber.
+		s.Processor.Error(err)
+	}
 	return s
 }
diff --git a/proxy/lookup.go b/proxy/lookup.go
index 431365e..09c1b48 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -90,6 +90,21 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Fail ends all streams with an error because the peer is gone.
+func (l *Lookup) Fail(err error) {
+	l.mu.Lock()
+	n := l.head
+	l.head, l.tail, l.count = nil, nil, 0
+	l.mu.Unlock()
+
+	for ; n != nil; n = n.next {
+		n.stream.OnError(err)
+		if s, ok := n.stream.(*Incoming); ok {
+			s.OnCancel()
+		}
+	}
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index b6f715a..4303fa6 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -181,6 +181,9 @@ func (p *Transport) Start(ctx context.Context) error {
 	defer close(p.stopped)
 	defer func() {
 		_ = p.Close()
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
 	}()
 
 	done := make(chan struct{}, 1)
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index d1ff123..3bd1626 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -123,6 +123,8 @@ func (i *Instance) Close() error {
 
 		i.sendQueue.Dispose()
 		i.recvQueue.Dispose()
+		i.guestStreams.Fail(errClosed)
+		i.hostStreams.Fail(errClosed)
 	})
 
 	return nil
-- 
2.43.0


From a3dadfc380444a1efaac0f2dca30e167bb67737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 68/82] fix: requests hung when the guest trapped, and a
 module's wrong buffer crashed the host

---
 transport/wasmrs/host/instance.go | 36 +++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 3bd1626..7a06985 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -69,6 +69,7 @@ type instanceKey struct{}
 var (
 	errClosed   = errors.New("the instance is closed")
 	errTooLarge = errors.New("the message is too large")
+	errNoBuffer = errors.New("the module's buffer is outside its memory")
 )
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
@@ -196,24 +197,37 @@ func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 }
 
 func (i *Instance) sendLoop() {
-	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
 	for f := range i.sendQueue.Get() {
 		i.sendQueue.Load()
-		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
-		byteCount := f.Size()
-
-		// Encode length and frame data.
-		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
-		copy(buf[0:], lengthBytes[1:4])
-		f.Encode(buf[3:])
+		if err := i.sendOne(ctx, f); err != nil {
+			// The guest has not handled the frame.
+			if s, ok := i.hostStreams.Get(f.GetStreamID()); ok {
+				s.OnError(err)
+			}
+		}
+	}
+}
 
-		// Send frame data to guest.
-		i.sendFn.Call(ctx, uint64(3+byteCount))
+func (i *Instance) sendOne(ctx context.Context, f frames.Frame) error {
+	var lengthBytes [4]byte
+	buf, ok := i.m.Memory().Read(i.sendPtr, i.sendSize)
+	if !ok {
+		return errNoBuffer
 	}
+	byteCount := f.Size()
+
+	// Encode length and frame data.
+	binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
+	copy(buf[0:], lengthBytes[1:4])
+	f.Encode(buf[3:])
+
+	// Send frame data to guest.
+	_, err := i.sendFn.Call(ctx, uint64(3+byteCount))
+	return err
 }
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
-- 
2.43.0


From aeaba6ebd3a698730e648967ddd7438b644bb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:02 +0000
Subject: [PATCH 69/82] fix: a channel's handler waited for items forever when
 its response could not be sent

---
 proxy/incoming.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/proxy/incoming.go b/proxy/incoming.go
index a989973..5bbbb1b 100644
--- a/proxy/incoming.go
+++ b/proxy/incoming.go
@@ -109,6 +109,7 @@ func (s *Incoming) Respond(response flux.Flux[payload.Payload], initialN uint32,
 			})
 			if err != nil {
 				response.Subscription().Cancel()
+				s.endIn(err)
 				s.Reject(err.Error())
 			}
 		},
@@ -205,15 +206,15 @@ func (s *Incoming) OnError(err error) {
 // endIn marks the end of the requester's items.
 func (s *Incoming) endIn(err error) {
 	s.mu.Lock()
-	ended := s.inEnded
+	if s.inEnded {
+		s.mu.Unlock()
+		return
+	}
 	s.inEnded = true
 	s.inErr = err
 	sink := s.inSink
 	done := s.ended && !s.cancelled
 	s.mu.Unlock()
-	if ended {
-		return
-	}
 	if done {
 		s.remove(s.streamID)
 	}
-- 
2.43.0


From 8f87196ab85467022bc69d023496e8ce8be72c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:58 +0000
Subject: [PATCH 70/82] fix: errors of codecs were ignored, leaving truncated
 messages

---
 msgpack/codec.go       |  6 ++++++
 msgpack/encoder.go     |  9 ++++++++-
 msgpack/sizer.go       | 12 ++++++++++--
 transform/transform.go |  9 ++++-----
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/msgpack/codec.go b/msgpack/codec.go
index 245a220..a9656cd 100644
--- a/msgpack/codec.go
+++ b/msgpack/codec.go
@@ -19,11 +19,17 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 3fe6925..f87411b 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -319,7 +319,7 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		e.fail(v.Encode(e))
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -573,6 +573,13 @@ func (e *Encoder) write4(code byte, n uint32) error {
 	return e.reader.SetBytes(buf[:])
 }
 
+// fail remembers the first error.
+func (e *Encoder) fail(err error) {
+	if e.reader.err == nil {
+		e.reader.err = err
+	}
+}
+
 func (e *Encoder) Err() error {
 	return e.reader.Err()
 }
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index e7c3b0a..7839fe1 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -283,7 +284,7 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		s.fail(v.Encode(s))
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -490,6 +491,13 @@ func (s *Sizer) WriteAny(value any) {
 	}
 }
 
+// fail remembers the first error.
+func (s *Sizer) fail(err error) {
+	if s.err == nil {
+		s.err = err
+	}
+}
+
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
diff --git a/transform/transform.go b/transform/transform.go
index 886125c..9b18f98 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -324,11 +324,10 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 }
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
-	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
-	buf := make([]byte, sizer.Len())
-	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	buf, err := msgpack.ToBytes(value)
+	if err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From d3d51fa8b81079c53a4340dbb139be072f4f6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:28 +0000
Subject: [PATCH 71/82] fix: dynamic values of unsupported types were dropped
 without an error

---
 msgpack/encoder.go | 3 +++
 msgpack/sizer.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index f87411b..2df342b 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -2,6 +2,7 @@ package msgpack
 
 import (
 	"encoding/binary"
+	"fmt"
 	"math"
 	"time"
 )
@@ -523,6 +524,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.fail(fmt.Errorf("unsupported type %T", value))
 	}
 }
 
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 7839fe1..a90c539 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -1,6 +1,7 @@
 package msgpack
 
 import (
+	"fmt"
 	"math"
 	"time"
 )
@@ -488,6 +489,8 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.fail(fmt.Errorf("unsupported type %T", value))
 	}
 }
 
-- 
2.43.0


From 226652983ecf80ad5e2083294c8fce182c179aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 72/82] fix: stream ids panicked on 32-bit platforms: unaligned
 64-bit atomic operation

---
 handler/handler.go                | 4 +++-
 transport/wasmrs/host/instance.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index fd7f11e..53df153 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -19,10 +19,12 @@ var errConnectionClosed = errors.New("the connection is closed")
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
+	// First, so that its atomic access is aligned on 32-bit platforms.
+	streamIDs uint64
+
 	ctx          context.Context
 	mode         Mode
 	sendFrame    FrameSender
-	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
 
 	// Stream IDs on the guest MUST start at 1 and
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 7a06985..52d3edd 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -22,6 +22,9 @@ import (
 )
 
 type Instance struct {
+	// First, so that its atomic access is aligned on 32-bit platforms.
+	streamIDs socket.ServerStreamIDs
+
 	ctx       context.Context
 	m         api.Module
 	sendQueue *buffer.Unbounded[frames.Frame]
@@ -30,7 +33,6 @@ type Instance struct {
 	sendPtr   uint32
 	sendSize  uint32
 	recvPtr   uint32
-	streamIDs socket.ServerStreamIDs
 
 	// Stream IDs on the guest MUST start at 1 and
 	// increment by 2 sequentially, such as 1, 3, 5, 7, etc.
-- 
2.43.0


From 72d2be29afbe8ee6751bf3a253f8e5b4b85e5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 73/82] fix: integers out of int's range were truncated on
 32-bit platforms

---
 transform/transform.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 9b18f98..9d370d3 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"strconv"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -37,6 +38,10 @@ var String = Transform[string]{
 var Int = Transform[int]{
 	Decode: func(raw payload.Payload) (int, error) {
 		decoder := msgpack.NewDecoder(raw.Data())
+		if strconv.IntSize == 32 {
+			val, err := decoder.ReadInt32()
+			return int(val), err
+		}
 		val, err := decoder.ReadInt64()
 		return int(val), err
 	},
@@ -117,6 +122,10 @@ var Int8 = Transform[int8]{
 var Uint = Transform[uint]{
 	Decode: func(raw payload.Payload) (uint, error) {
 		decoder := msgpack.NewDecoder(raw.Data())
+		if strconv.IntSize == 32 {
+			val, err := decoder.ReadUint32()
+			return uint(val), err
+		}
 		val, err := decoder.ReadUint64()
 		return uint(val), err
 	},
-- 
2.43.0


From 37a30a65cf25c8d9b2b7359e372aa1f82dfc6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:20 +0000
Subject: [PATCH 74/82] fix: demands added up before a source was ready
 overflowed on 32-bit platforms

---
 rx/flux/flux.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index a53dd8b..7336860 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -1,6 +1,7 @@
 package flux
 
 import (
+	"math"
 	"sync"
 
 	"github.com/nanobus/iota/go/rx"
@@ -261,7 +262,11 @@ func (s *subscriber[T]) Request(n int) {
 		s.f.mu.Unlock()
 		return
 	}
-	s.n += n
+	if s.n > 0 && n > math.MaxInt-s.n {
+		s.n = math.MaxInt
+	} else {
+		s.n += n
+	}
 	request := s.sub.Request
 	s.f.mu.Unlock()
 	if request != nil {
-- 
2.43.0


From 8dbc1ab8fda253c2147140fc74f40c7b5e713e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 75/82] fix: a slice's response repeated items for guests whose
 subscribers requested more on delivery

---
 rx/flux/response.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rx/flux/response.go b/rx/flux/response.go
index 739f81f..2bac6f4 100644
--- a/rx/flux/response.go
+++ b/rx/flux/response.go
@@ -2,14 +2,12 @@ package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
+		for ; n > 0 && len(slice) > 0; n-- {
+			// Before the item is handed over, which can request more.
+			next := slice[0]
+			slice = slice[1:]
+			sink.Next(next)
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
-		}
-		slice = slice[num:]
 		if len(slice) == 0 {
 			sink.Complete()
 		}
-- 
2.43.0


From b37b35ccee2baf625ca525905c0ff4e78a744f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 76/82] fix: a guest's flux panicked when a source that takes
 no requests got ready late

---
 rx/flux/flux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 7336860..d7335d4 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -237,7 +237,7 @@ func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 		}
 		return
 	}
-	if n > 0 {
+	if n > 0 && sub.Request != nil {
 		s.doRequest(n)
 	}
 }
-- 
2.43.0


From 0666087c5a6c5972eb755f3e31d19cecdc5a547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:26 +0000
Subject: [PATCH 77/82] fix: requests made while handling a stream or channel
 did not name it as their parent

---
 transport/wasmrs/guest/guest.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 0e99d0b..d6d5f62 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -349,6 +349,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	p := payload.New(data, metadata)
 	s := proxy.NewIncoming(ctx, streamID, false, sendFrame, removeStream)
 	registerStream(s) // Need to register for the frames that follow
+	ctx = proxy.WithContext(ctx, s)
 	s.Respond(handler(ctx, p), initialN, nil)
 }
 
@@ -370,6 +371,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	p := payload.New(data, metadata)
 	s := proxy.NewIncoming(ctx, streamID, true, sendFrame, removeStream)
 	registerStream(s) // Need to register for the frames that follow
+	ctx = proxy.WithContext(ctx, s)
 	s.Respond(handler(ctx, p, s.In()), initialN, nil)
 }
 
-- 
2.43.0


From f5deef87c4ed0f2b329ec3775fa9c6bdc3e3fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:26 +0000
Subject: [PATCH 78/82] fix: calls of operations that the other end does not
 export reached its first one

---
 handler/caller.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 3b7a128..4457e80 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -2,6 +2,7 @@ package handler
 
 import (
 	"context"
+	"math"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/invoke"
@@ -15,6 +16,10 @@ import (
 
 var _ = (invoke.Caller)((*Handler)(nil))
 
+// notExported is the index of operations that the other end does not export,
+// which no operation has.
+const notExported = math.MaxUint32
+
 func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
 	for _, op := range i.opTable {
 		if op.Direction == operations.Export &&
@@ -24,7 +29,7 @@ func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return notExported
 }
 
 func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
@@ -36,7 +41,7 @@ func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return notExported
 }
 
 func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
@@ -48,7 +53,7 @@ func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return notExported
 }
 
 func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
@@ -60,7 +65,7 @@ func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return notExported
 }
 
 func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-- 
2.43.0


From 6c90963e936ca71b12ac23365f7a388b80b5acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:26 +0000
Subject: [PATCH 79/82] fix: a host's calls used the indexes of its own
 imports, not of the guest's exports

---
 transport/wasmrs/host/caller.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 63a7238..4cd6f17 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -2,9 +2,10 @@ package host
 
 import (
 	"context"
+	"math"
 
 	"github.com/nanobus/iota/go/internal/frames"
-	"github.com/nanobus/iota/go/invoke"
+	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
 	"github.com/nanobus/iota/go/rx"
@@ -13,19 +14,33 @@ import (
 )
 
 func (i *Instance) ImportRequestResponse(namespace, operation string) uint32 {
-	return invoke.ImportRequestResponse(namespace, operation)
+	return i.exported(operations.RequestResponse, namespace, operation)
 }
 
 func (i *Instance) ImportFireAndForget(namespace, operation string) uint32 {
-	return invoke.ImportFireAndForget(namespace, operation)
+	return i.exported(operations.FireAndForget, namespace, operation)
 }
 
 func (i *Instance) ImportRequestStream(namespace, operation string) uint32 {
-	return invoke.ImportRequestStream(namespace, operation)
+	return i.exported(operations.RequestStream, namespace, operation)
 }
 
 func (i *Instance) ImportRequestChannel(namespace, operation string) uint32 {
-	return invoke.ImportRequestChannel(namespace, operation)
+	return i.exported(operations.RequestChannel, namespace, operation)
+}
+
+// exported returns the index of an operation that the guest exports, or one
+// that no operation has.
+func (i *Instance) exported(opType operations.RequestType, namespace, operation string) uint32 {
+	for _, op := range i.operations {
+		if op.Direction == operations.Export &&
+			op.Type == opType &&
+			op.Namespace == namespace &&
+			op.Operation == operation {
+			return op.Index
+		}
+	}
+	return math.MaxUint32
 }
 
 func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-- 
2.43.0


From f1003d06b15fd1daaab4cd70c10c8c3475ff2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:48 +0000
Subject: [PATCH 80/82] fix: wasmrs invoke crashed on an operation that no
 module exports

---
 transport/wasmrs/cmd/wasmrs/commands/invoke.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/cmd/wasmrs/commands/invoke.go b/transport/wasmrs/cmd/wasmrs/commands/invoke.go
index 78eb822..f723d28 100644
--- a/transport/wasmrs/cmd/wasmrs/commands/invoke.go
+++ b/transport/wasmrs/cmd/wasmrs/commands/invoke.go
@@ -55,7 +55,11 @@ func (c *InvokeCmd) Run() error {
 	var metadata [8]byte
 	p := payload.New(input, metadata[:])
 
-	result, err := m.RequestResponse(ctx, c.Namespace, c.Operation, p).Block()
+	response := m.RequestResponse(ctx, c.Namespace, c.Operation, p)
+	if response == nil {
+		return fmt.Errorf("no module exports %s of %s", c.Operation, c.Namespace)
+	}
+	result, err := response.Block()
 	if err != nil {
 		log.Panic(err)
 	}
-- 
2.43.0


From 29b32389c1c16539fd598984bcd75ce0986cbe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:25 +0000
Subject: [PATCH 81/82] fix: a host could instantiate a module only once

Every instance got the name "test", and the runtime refuses a second module
of the same name, so a host could hold a single instance of a single module.
---
 transport/wasmrs/host/host.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transport/wasmrs/host/host.go b/transport/wasmrs/host/host.go
index 9c7632a..5b9dcbe 100644
--- a/transport/wasmrs/host/host.go
+++ b/transport/wasmrs/host/host.go
@@ -2,7 +2,9 @@ package host
 
 import (
 	"context"
+	"fmt"
 	"os"
+	"sync/atomic"
 
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/api"
@@ -18,8 +20,9 @@ const (
 )
 
 type Host struct {
-	runtime wazero.Runtime
-	config  wazero.ModuleConfig
+	runtime   wazero.Runtime
+	config    wazero.ModuleConfig
+	instances atomic.Uint64
 }
 
 type Module struct {
@@ -74,7 +77,9 @@ func (h *Host) Compile(ctx context.Context, source []byte) (*Module, error) {
 }
 
 func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
-	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName("test"))
+	// The runtime refuses a second module of the same name.
+	name := fmt.Sprintf("guest-%d", m.h.instances.Add(1))
+	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName(name))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9a1d790499ccd8020ab33a8e75446423f3dd1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 82/82] fix: frames that arrived together with the end of the
 connection were lost

---
 transport/rsocket/decoder.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..05c7731 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -41,10 +41,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 	return
 }
 
-func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
+// At the end, there may still be frames that arrived together with it.
+func doSplit(data []byte, _ bool) (advance int, token []byte, err error) {
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0

