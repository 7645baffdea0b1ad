From c16e38f138b560e8a3abfbde6aad3e2972fa7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:21 +0000
Subject: [PATCH 01/38] fix: refuse 20-digit integers that wrap around uint64

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..8eea18f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -853,7 +853,7 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 	if le > len(uintMaxStr) {
 		return nil, it.numErrorf(start, "value too large")
 	} else if le == len(uintMaxStr) {
-		if integer < uintMaxDigits {
+		if integer < uintMaxDigits || it[start] > '1' { // wrapped around
 			return nil, it.numErrorf(start, "value too large")
 		}
 	}
-- 
2.43.0


From de4648be543e051105e9128f520090d688022c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 02/38] fix: a number must start with a digit, empty text is no
 number

---
 unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8eea18f..95b08a4 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -763,6 +763,15 @@ func (it iter) parseNumber(
 		idx--
 	}
 
+	first := offset
+	if negative {
+		first++
+	}
+	if first >= idx || it[first] < '0' || it[first] > '9' {
+		err = it.numErrorf(offset, "invalid number format")
+		return
+	}
+
 	if floated {
 		if dotGot && !intAfterDotGot {
 			err = it.numErrorf(offset, "integer after dot missing")
-- 
2.43.0


From b9e115405a986fd4c7d262ab55d68ec8b3739c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 03/38] fix: refuse leading zeros in negative and floating
 point numbers

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 95b08a4..1be947c 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -771,6 +771,10 @@ func (it iter) parseNumber(
 		err = it.numErrorf(offset, "invalid number format")
 		return
 	}
+	if it[first] == '0' && first+1 < idx && it[first+1] >= '0' && it[first+1] <= '9' {
+		err = it.numErrorf(offset, "number should not have leading zeros")
+		return
+	}
 
 	if floated {
 		if dotGot && !intAfterDotGot {
-- 
2.43.0


From 85f03780c1b1ffb9fb694eba39315b2e839472b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 04/38] fix: refuse a UTF-16 low surrogate without its high
 surrogate

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 1be947c..2c0ce9a 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -492,6 +492,10 @@ func (it iter) handleEscapeUnicodeStartWithEnd(i *int, end int, sectEnd *int) (e
 		return nil
 	}
 
+	if r >= 0xDC00 {
+		return fmt.Errorf("%w, unexpected UTF-16 low surrogate 0x%04X at position %d", ErrIllegalString, r, *i)
+	}
+
 	// reference: [JSON 序列化中的转义和 Unicode 编码](https://cloud.tencent.com/developer/article/1625557/)
 	// should get another unicode-escaped character
 	if end-*i <= 11 {
-- 
2.43.0


From 149af20751cb06e6003fbc5dd0aba3645ae5380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:35 +0000
Subject: [PATCH 05/38] fix: Unmarshal of empty input returns a NotExist value
 instead of nil

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From 34e4196b706bb0061d4c2ac9592515600e9cde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:55 +0000
Subject: [PATCH 06/38] fix: keep the comma after an omitted null member

---
 marshal.go | 4 +++-
 sort.go    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..bf6d46b 100644
--- a/marshal.go
+++ b/marshal.go
@@ -252,7 +252,9 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt) {
+			firstWritten = true
+		}
 	}
 }
 
diff --git a/sort.go b/sort.go
index 0ebfc8e..7de00d2 100644
--- a/sort.go
+++ b/sort.go
@@ -195,7 +195,9 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if writeObjectChildren(par, buf, !firstWritten, key, child, opt) {
+			firstWritten = true
+		}
 	}
 }
 
@@ -243,7 +245,9 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if writeObjectChildren(nil, buf, !firstWritten, key, child, opt) {
+			firstWritten = true
+		}
 	}
 }
 
-- 
2.43.0


From 49e1ecf2b6056afc831923b8291e969167345551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:58 +0000
Subject: [PATCH 07/38] fix: escape the vertical tab (0x0B) when marshaling

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 163bff1..6c11402 100644
--- a/option.go
+++ b/option.go
@@ -579,6 +579,7 @@ func (o *Opt) parseEscapingFuncs() {
 	// ASCII control bytes should always escaped
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
+	iterate(0x0B, 0x0B, escAsciiControlChar)
 	iterate(0x0E, 0x1F, escAsciiControlChar)
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
-- 
2.43.0


From 95e18c473092479b8690e4a1191a3a74200f41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 08/38] fix: return the error of a nested value from Marshal

---
 marshal.go | 51 ++++++++++++++++++++++++++++++++-------------------
 sort.go    | 18 ++++++++++++++----
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index bf6d46b..7d061bd 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,22 +250,28 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) error {
 	firstWritten := false
 	for k, child := range v.children.object {
-		if writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt) {
+		written, err := writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
+		if written {
 			firstWritten = true
 		}
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return false, nil
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -282,8 +291,8 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	err = marshalToBuffer(child, parentInfo, buf, opt)
+	return true, err
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -293,10 +302,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -311,12 +320,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -324,4 +336,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 7de00d2..5eeadaf 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sov)
 
@@ -195,10 +195,15 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		if writeObjectChildren(par, buf, !firstWritten, key, child, opt) {
+		written, err := writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		if written {
 			firstWritten = true
 		}
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -237,7 +242,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sssv)
 
@@ -245,10 +250,15 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		if writeObjectChildren(nil, buf, !firstWritten, key, child, opt) {
+		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		if written {
 			firstWritten = true
 		}
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 783baca7aa6299b7b2d881e65dde720c2fe8df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:48 +0000
Subject: [PATCH 09/38] fix: compare infinities and NaN by value

---
 compare.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..4f23c4e 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -48,6 +49,10 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNonFinite(left) || isNonFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -57,6 +62,10 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNonFinite(left) || isNonFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l >= r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -94,7 +103,16 @@ func (v *V) Equal(another *V) bool {
 	}
 }
 
+// isNonFinite tells whether the number is an infinity or NaN, which do not have any text
+func isNonFinite(v *V) bool {
+	return len(v.srcByte) == 0
+}
+
 func numberEqual(left, right *V) bool {
+	if isNonFinite(left) || isNonFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l == r || (math.IsNaN(l) && math.IsNaN(r))
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From 7f061af5011d1f9182c0fcb94a5d0e74c7a4e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 10/38] fix: Append reports the error of importing its value

---
 insert_append_delete.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..e3dfd10 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -428,6 +428,9 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
@@ -478,6 +481,9 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if v.valueType == NotExist {
-- 
2.43.0


From ee3af452740a8774d3b749a018071a509cc7ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 11/38] fix: refuse to append or insert an uninitialized value

---
 insert_append_delete.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index e3dfd10..4757296 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -189,6 +189,9 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	if v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
@@ -238,6 +241,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
@@ -433,6 +439,9 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 	}
 	v := apd.v
 	c := apd.c
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
@@ -486,6 +495,9 @@ func (apd *appender) InTheEnd(params ...any) (*V, error) {
 	}
 	v := apd.v
 	c := apd.c
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	if v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
-- 
2.43.0


From fd02131ad864135094f4cd8b55bff08bd68e570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 12/38] fix: import nil marshalers as null instead of a nil
 value

---
 import_export.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/import_export.go b/import_export.go
index 724754e..317e611 100644
--- a/import_export.go
+++ b/import_export.go
@@ -192,7 +192,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -200,11 +200,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -246,7 +246,7 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-- 
2.43.0


From 3ded6634152244bd24b4a434732dcb9d224bac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 13/38] fix: omitempty and string of a field do not apply to
 the elements of its map or array

---
 import_export.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 317e611..8c8c26d 100644
--- a/import_export.go
+++ b/import_export.go
@@ -54,6 +54,12 @@ type ext struct {
 	ignoreOmitempty bool
 }
 
+// elemExt returns the properties for an element inside a value, "omitempty" and "string" refer to the
+// value itself but not to its elements.
+func (e ext) elemExt() ext {
+	return ext{ignoreOmitempty: e.ignoreOmitempty}
+}
+
 func (e ext) shouldOmitEmpty() bool {
 	if e.ignoreOmitempty {
 		return false
@@ -328,7 +334,7 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
-	ex.omitempty = false
+	ex = ex.elemExt()
 	res := NewArray()
 	le := v.Len()
 
@@ -362,6 +368,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 	}
 
 	res := NewObject()
+	ex = ex.elemExt()
 
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
-- 
2.43.0


From fc849b25666b4fbbfd13d58697aff6cf65e9751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:36 +0000
Subject: [PATCH 14/38] fix: omitempty does not drop a pointer to a zero value

---
 import_export.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import_export.go b/import_export.go
index 8c8c26d..15cea27 100644
--- a/import_export.go
+++ b/import_export.go
@@ -409,6 +409,7 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 
+	ex.omitempty = false // a pointer which is not nil is not empty
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 252c2f4f48b9d1da67be301ea5af5e9d2d8e742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 15/38] fix: omitempty and string of an interface field do not
 apply to its content

---
 import_export.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 15cea27..f8985ce 100644
--- a/import_export.go
+++ b/import_export.go
@@ -110,7 +110,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parseArrayValue
 
 	case reflect.Interface:
-		return validateValAndReturnParser(v.Elem(), ex)
+		fu = parseInterfaceValue
 
 	case reflect.Map:
 		switch v.Type().Key().Kind() {
@@ -418,6 +418,20 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 	return fu(v, ex)
 }
 
+func parseInterfaceValue(v reflect.Value, ex ext) (*V, error) {
+	if v.IsNil() {
+		return parseNullValue(v, ex)
+	}
+
+	ex = ex.elemExt() // the interface is not empty, and "string" does not refer to its content
+	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
+	if err != nil {
+		return nil, err
+	}
+
+	return fu(v, ex)
+}
+
 func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() || v.Len() == 0 {
 		if ex.shouldOmitEmpty() {
-- 
2.43.0


From d1ab455213f7716acff374ddab85d08df16ad36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:26 +0000
Subject: [PATCH 16/38] fix: a huge unsigned index is out of range instead of
 negative

---
 conv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conv.go b/conv.go
index 0c9f90c..8f26636 100644
--- a/conv.go
+++ b/conv.go
@@ -142,7 +142,12 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return int(value.Uint()), nil
+		const maxInt = ^uint(0) >> 1
+		u := value.Uint()
+		if u > uint64(maxInt) {
+			u = uint64(maxInt) // never wrap to a negative index
+		}
+		return int(u), nil
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
 	}
-- 
2.43.0


From c471f020b3059c8a7e902cccaced709627dc4b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 17/38] fix: KeyPath.String panics with the initial default
 options

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 5eeadaf..4cec9d9 100644
--- a/sort.go
+++ b/sort.go
@@ -142,7 +142,7 @@ func (p KeyPath) String() (s string) {
 			buff.WriteString(s)
 		} else {
 			buff.WriteRune('"')
-			escapeStringToBuff(k.String(), &buff, getDefaultOptions())
+			escapeStringToBuff(k.String(), &buff, combineOptions(nil))
 			buff.WriteRune('"')
 		}
 	}
-- 
2.43.0


From cf3b202777a4203aea30d5f517c02aa8e35f6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:34 +0000
Subject: [PATCH 18/38] fix: StoB writes behind the string header

---
 internal/unsafe/unsafe.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/unsafe/unsafe.go b/internal/unsafe/unsafe.go
index 53f95ec..784d9de 100644
--- a/internal/unsafe/unsafe.go
+++ b/internal/unsafe/unsafe.go
@@ -11,8 +11,11 @@ func BtoS(b []byte) string {
 }
 
 // StoB string to []byte
-func StoB(s string) []byte {
-	sh := (*reflect.SliceHeader)(unsafe.Pointer(&s))
-	sh.Cap = sh.Len
-	return *(*[]byte)(unsafe.Pointer(sh))
+func StoB(s string) (b []byte) {
+	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
+	bh.Data = sh.Data
+	bh.Len = sh.Len
+	bh.Cap = sh.Len
+	return b
 }
-- 
2.43.0


From 0d21e4940301499fd0f007bb32e63459f5cee86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 19/38] fix: IsFloat and IsInteger of numbers created from a
 float

---
 new.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/new.go b/new.go
index e2cb548..3ae614f 100644
--- a/new.go
+++ b/new.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 // New generate a new jsonvalue type via given type. If given type is not supported,
@@ -258,6 +259,9 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	if isValidFloat(f) {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
+		v.num.floated = strings.ContainsAny(s, ".eE")
+	} else {
+		v.num.floated = true
 	}
 
 	return v
-- 
2.43.0


From 1b1f166a9321b6151dbe94d9934114ea2feb4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:10 +0000
Subject: [PATCH 20/38] fix: zero floats are written as 0 like encoding/json
 does

---
 new.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/new.go b/new.go
index 3ae614f..b796e42 100644
--- a/new.go
+++ b/new.go
@@ -182,7 +182,7 @@ func NewArray() *V {
 func NewFloat64(f float64) *V {
 	abs := math.Abs(f)
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if f != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
@@ -209,7 +209,7 @@ func NewFloat32(f float32) *V {
 	f64 := float64(f)
 	abs := math.Abs(f64)
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if f != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
-- 
2.43.0


From 473194436d8cf436610e44a9425a9e4f997c6c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 21/38] fix: an out-of-range intermediate index of Set().At()
 is an error

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..6ff47bc 100644
--- a/set.go
+++ b/set.go
@@ -284,6 +284,9 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 	child, ok := childAtIndex(v, pos)
 	isNewChild := false
 	if !ok {
+		if pos != len(v.children.arr) {
+			return &V{}, ErrOutOfRange
+		}
 		isNewChild = true
 		if _, err := anyToString(otherParams[0]); err == nil {
 			child = NewObject()
-- 
2.43.0


From 696fd603f60e872ce86203753f625114d8c578cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:34 +0000
Subject: [PATCH 22/38] fix: beta.Contains panics when sub is a nil *V

---
 beta/contain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beta/contain.go b/beta/contain.go
index ae3b374..6daa184 100644
--- a/beta/contain.go
+++ b/beta/contain.go
@@ -23,6 +23,9 @@ func Contains(v *jsonvalue.V, sub any, inPath ...any) bool {
 			return false
 		}
 	}
+	if subV == nil {
+		return false
+	}
 	if len(inPath) > 0 {
 		v, err = v.Get(inPath[0], inPath[1:]...)
 		if err != nil {
-- 
2.43.0


From 570b74fcad153f3400d9eaca7853a91e422a1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 23/38] fix: Import flattens embedded structs with a json name
 and embedded maps

---
 import_export.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index f8985ce..95577d2 100644
--- a/import_export.go
+++ b/import_export.go
@@ -535,8 +535,9 @@ func parseStructAnonymousFieldValue(
 	if fieldName == "-" {
 		return nil, nil, nil
 	}
+	promoted := isPromotedStruct(ft)
 	if fv.Kind() == reflect.Ptr && fv.IsNil() {
-		if ex.shouldOmitEmpty() {
+		if promoted || ex.shouldOmitEmpty() {
 			return nil, nil, nil
 		}
 		return []string{fieldName}, []*V{NewNull()}, nil
@@ -568,6 +569,12 @@ func parseStructAnonymousFieldValue(
 		return []string{fieldName}, []*V{child}, nil
 
 	case Object:
+		if !promoted {
+			if ex.private {
+				return nil, nil, nil
+			}
+			return []string{fieldName}, []*V{child}, nil
+		}
 		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
 			keys = append(keys, k)
 			children = append(children, c)
@@ -577,6 +584,19 @@ func parseStructAnonymousFieldValue(
 	}
 }
 
+// isPromotedStruct tells whether the fields of an embedded field belong to the outer struct: only those of structs
+// without a name in the json tag do.
+func isPromotedStruct(ft reflect.StructField) bool {
+	t := ft.Type
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	if t.Kind() != reflect.Struct {
+		return false
+	}
+	return strings.TrimSpace(strings.Split(ft.Tag.Get("json"), ",")[0]) == ""
+}
+
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
 	tg := ft.Tag.Get(name)
 
-- 
2.43.0


From d22dcdad5c92777d577e9b56c86b756360a5693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 24/38] fix: a field of an embedded struct overwrites the outer
 field with the same key in Import

---
 import_export.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/import_export.go b/import_export.go
index 95577d2..0135d9f 100644
--- a/import_export.go
+++ b/import_export.go
@@ -466,6 +466,7 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	numField := t.NumField()
 
 	res := NewObject()
+	own := structOwnNames(t)
 
 	for i := 0; i < numField; i++ {
 		vv := v.Field(i)
@@ -476,7 +477,11 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 			return nil, err
 		}
 
+		promoted := tt.Anonymous && isPromotedStruct(tt)
 		for i, k := range keys {
+			if promoted && own[k] {
+				continue // hidden by a field of the outer struct
+			}
 			v := children[i]
 			res.MustSet(v).At(k)
 		}
@@ -485,6 +490,21 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	return res, nil
 }
 
+// structOwnNames returns the keys of the fields which a struct declares itself, they hide those of embedded structs.
+func structOwnNames(t reflect.Type) map[string]bool {
+	res := map[string]bool{}
+	for i := 0; i < t.NumField(); i++ {
+		ft := t.Field(i)
+		if ft.PkgPath != "" || (ft.Anonymous && isPromotedStruct(ft)) {
+			continue
+		}
+		if name, _ := readFieldTag(ft, "json", ext{}); name != "-" {
+			res[name] = true
+		}
+	}
+	return res
+}
+
 func parseNullValue(_ reflect.Value, ex ext) (*V, error) {
 	if ex.shouldOmitEmpty() {
 		return nil, nil
-- 
2.43.0


From e17e1c02107f442fdc80227b356ef34786257809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 25/38] fix: Import keeps an empty array with omitempty

---
 import_export.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 0135d9f..63c9e98 100644
--- a/import_export.go
+++ b/import_export.go
@@ -334,9 +334,12 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
+	le := v.Len()
+	if le == 0 && ex.shouldOmitEmpty() {
+		return nil, nil
+	}
 	ex = ex.elemExt()
 	res := NewArray()
-	le := v.Len()
 
 	for i := 0; i < le; i++ {
 		vv := v.Index(i)
-- 
2.43.0


From 45c0a3eb3a0803a5bdb536c32cceea7cde32c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 26/38] fix: Import converts named byte slices to arrays of
 numbers

---
 import_export.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 63c9e98..7e67cb5 100644
--- a/import_export.go
+++ b/import_export.go
@@ -128,7 +128,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parsePtrValue
 
 	case reflect.Slice:
-		if v.Type() == reflect.TypeOf([]byte{}) {
+		if isBytesType(v.Type()) {
 			fu = parseBytesValue
 		} else {
 			fu = parseSliceValue
@@ -144,6 +144,15 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 	return
 }
 
+// isBytesType tells whether a slice is a base64 string for encoding/json.
+func isBytesType(t reflect.Type) bool {
+	if t.Elem().Kind() != reflect.Uint8 {
+		return false
+	}
+	p := reflect.PtrTo(t.Elem())
+	return !p.Implements(internal.types.JSONMarshaler) && !p.Implements(internal.types.TextMarshaler)
+}
+
 // Hit marshaler if fu is not nil.
 func checkAndParseMarshaler(v reflect.Value) (out reflect.Value, fu parserFunc) {
 	out = v
@@ -447,7 +456,7 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseBytesValue(v reflect.Value, ex ext) (*V, error) {
-	b := v.Interface().([]byte)
+	b := v.Bytes()
 	if len(b) == 0 && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
-- 
2.43.0


From 7a83e844c454e50cda22424567bd0213c0dfbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 27/38] fix: Import ignores the string option of string fields

---
 import_export.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/import_export.go b/import_export.go
index 7e67cb5..02d77cd 100644
--- a/import_export.go
+++ b/import_export.go
@@ -469,6 +469,13 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	if str == "" && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
+	if ex.toString {
+		b, err := json.Marshal(str)
+		if err != nil {
+			return &V{}, err
+		}
+		str = string(b)
+	}
 
 	return NewString(str), nil
 }
-- 
2.43.0


From ad3cf4f4ecdef69e0115fcf6870337ce82f627c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 28/38] fix: Import converts json.Number to a string

---
 import_export.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/import_export.go b/import_export.go
index 02d77cd..ff20f0a 100644
--- a/import_export.go
+++ b/import_export.go
@@ -469,6 +469,9 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	if str == "" && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
+	if v.Type() == reflect.TypeOf(json.Number("")) {
+		return parseJSONNumber(str, ex)
+	}
 	if ex.toString {
 		b, err := json.Marshal(str)
 		if err != nil {
@@ -480,6 +483,21 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	return NewString(str), nil
 }
 
+// parseJSONNumber converts a json.Number, which stands for 0 if it is empty.
+func parseJSONNumber(num string, ex ext) (*V, error) {
+	if num == "" {
+		num = "0"
+	}
+	v, err := UnmarshalString(num)
+	if err != nil || v.ValueType() != Number || strings.TrimSpace(num) != num {
+		return &V{}, fmt.Errorf("jsonvalue: invalid number literal %q", num)
+	}
+	if ex.toString {
+		return NewString(num), nil
+	}
+	return v, nil
+}
+
 func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	t := v.Type()
 	numField := t.NumField()
-- 
2.43.0


From acfdfc8d71bffa800a1775f463a131b1db8d12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 29/38] fix: Import ignores fields with the json tag "-,"

---
 import_export.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/import_export.go b/import_export.go
index ff20f0a..6627bc0 100644
--- a/import_export.go
+++ b/import_export.go
@@ -46,6 +46,7 @@ type ext struct {
 	// standard encoding/json tag
 	omitempty bool
 	toString  bool
+	ignored   bool // with tag "-", but "-," stands for the key "-"
 
 	// revert of isExported
 	private bool
@@ -535,7 +536,7 @@ func structOwnNames(t reflect.Type) map[string]bool {
 		if ft.PkgPath != "" || (ft.Anonymous && isPromotedStruct(ft)) {
 			continue
 		}
-		if name, _ := readFieldTag(ft, "json", ext{}); name != "-" {
+		if name, ex := readFieldTag(ft, "json", ext{}); !ex.ignored {
 			res[name] = true
 		}
 	}
@@ -562,7 +563,7 @@ func parseStructFieldValue(
 	}
 
 	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if ex.ignored {
 		return
 	}
 
@@ -589,7 +590,7 @@ func parseStructAnonymousFieldValue(
 ) (keys []string, children []*V, err error) {
 
 	fieldName, ex := readAnonymousFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if ex.ignored {
 		return nil, nil, nil
 	}
 	promoted := isPromotedStruct(ft)
@@ -676,6 +677,7 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	}
 
 	field = parts[0]
+	ex.ignored = field == "-" && len(parts) == 1
 	if field == "" {
 		field = ft.Name
 	}
-- 
2.43.0


From 882e0441664194db9d5345eb6c98b09465fc7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 30/38] fix: Import of embedded structs of unexported types
 loses or invents members, or panics

---
 import_export.go | 60 ++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/import_export.go b/import_export.go
index 6627bc0..4a0ea35 100644
--- a/import_export.go
+++ b/import_export.go
@@ -157,7 +157,7 @@ func isBytesType(t reflect.Type) bool {
 // Hit marshaler if fu is not nil.
 func checkAndParseMarshaler(v reflect.Value) (out reflect.Value, fu parserFunc) {
 	out = v
-	if !v.IsValid() {
+	if !v.IsValid() || !v.CanInterface() {
 		return
 	}
 
@@ -593,13 +593,13 @@ func parseStructAnonymousFieldValue(
 	if ex.ignored {
 		return nil, nil, nil
 	}
-	promoted := isPromotedStruct(ft)
-	if fv.Kind() == reflect.Ptr && fv.IsNil() {
-		if promoted || ex.shouldOmitEmpty() {
-			return nil, nil, nil
-		}
-		return []string{fieldName}, []*V{NewNull()}, nil
+	if isPromotedStruct(ft) {
+		return parsePromotedStruct(fv, ex)
 	}
+	if ex.private && !isStructOrPointer(ft.Type) {
+		return nil, nil, nil
+	}
+	ex.private = false
 
 	fv, fu, err := validateValAndReturnParser(fv, ex)
 	if err != nil {
@@ -615,44 +615,40 @@ func parseStructAnonymousFieldValue(
 	if child == nil {
 		return nil, nil, nil
 	}
+	return []string{fieldName}, []*V{child}, nil
+}
 
-	switch child.ValueType() {
-	default: // invalid
-		return nil, nil, nil
-
-	case String, Number, Boolean, Null, Array:
-		if ex.private {
+func parsePromotedStruct(fv reflect.Value, ex ext) (keys []string, children []*V, err error) {
+	if fv.Kind() == reflect.Ptr {
+		if fv.IsNil() {
 			return nil, nil, nil
 		}
-		return []string{fieldName}, []*V{child}, nil
-
-	case Object:
-		if !promoted {
-			if ex.private {
-				return nil, nil, nil
-			}
-			return []string{fieldName}, []*V{child}, nil
-		}
-		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
-			keys = append(keys, k)
-			children = append(children, c)
-			return true
-		})
+		fv = fv.Elem()
+	}
+	child, err := parseStructValue(fv, ex)
+	if err != nil {
+		err = fmt.Errorf("parsing anonymous field error: %w", err)
 		return
 	}
+	child.RangeObjectsBySetSequence(func(k string, c *V) bool {
+		keys = append(keys, k)
+		children = append(children, c)
+		return true
+	})
+	return
 }
 
 // isPromotedStruct tells whether the fields of an embedded field belong to the outer struct: only those of structs
 // without a name in the json tag do.
 func isPromotedStruct(ft reflect.StructField) bool {
-	t := ft.Type
+	return isStructOrPointer(ft.Type) && strings.TrimSpace(strings.Split(ft.Tag.Get("json"), ",")[0]) == ""
+}
+
+func isStructOrPointer(t reflect.Type) bool {
 	if t.Kind() == reflect.Ptr {
 		t = t.Elem()
 	}
-	if t.Kind() != reflect.Struct {
-		return false
-	}
-	return strings.TrimSpace(strings.Split(ft.Tag.Get("json"), ",")[0]) == ""
+	return t.Kind() == reflect.Struct
 }
 
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
-- 
2.43.0


From 3e0c71f60428fefd8749fba1309c6244a8cc4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 31/38] fix: Import panics for a struct with an embedded *V

---
 import_export.go | 4 ++--
 jsonvalue.go     | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/import_export.go b/import_export.go
index 4a0ea35..b5a2c94 100644
--- a/import_export.go
+++ b/import_export.go
@@ -75,7 +75,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 	// json.Marshaler and encoding.TextMarshaler
 	if o, f := checkAndParseMarshaler(v); f != nil {
 		// jsonvalue itself
-		if _, ok := v.Interface().(deepCopier); ok {
+		if _, ok := v.Interface().(*V); ok {
 			return out, parseJSONValueDeepCopier, nil
 		}
 		return o, f, nil
@@ -210,7 +210,7 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
 		return parseNullValue(v, ex)
 	}
-	j, _ := v.Interface().(deepCopier)
+	j, _ := v.Interface().(*V)
 	return j.deepCopy(), nil
 }
 
diff --git a/jsonvalue.go b/jsonvalue.go
index eb3faf7..272388c 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -525,10 +525,6 @@ func (v *V) deepCopy() *V {
 	}
 }
 
-type deepCopier interface {
-	deepCopy() *V
-}
-
 // String returns represented string value or the description for the jsonvalue.V
 // instance if it is not a string.
 //
-- 
2.43.0


From a4599e387f563f4884ddc3d908a95154db306a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 32/38] fix: Import accepts a json.Number within backspaces

---
 import_export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index b5a2c94..ab55529 100644
--- a/import_export.go
+++ b/import_export.go
@@ -490,7 +490,7 @@ func parseJSONNumber(num string, ex ext) (*V, error) {
 		num = "0"
 	}
 	v, err := UnmarshalString(num)
-	if err != nil || v.ValueType() != Number || strings.TrimSpace(num) != num {
+	if err != nil || v.ValueType() != Number || num[0] <= ' ' || num[len(num)-1] <= ' ' {
 		return &V{}, fmt.Errorf("jsonvalue: invalid number literal %q", num)
 	}
 	if ex.toString {
-- 
2.43.0


From 5aa3321b603f2a0db772e767e085978c4d086703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 33/38] fix: a KeyPath element for an empty object key claims
 to be array index 0

---
 sort.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sort.go b/sort.go
index 4cec9d9..093bf55 100644
--- a/sort.go
+++ b/sort.go
@@ -70,12 +70,13 @@ func (v *sortArrayV) Swap(i, j int) {
 //
 // Key 是 KeyPath 类型的成员
 type Key struct {
-	s string
-	i int
+	s     string
+	i     int
+	isInt bool
 }
 
 func intKey(i int) Key {
-	return Key{i: i}
+	return Key{i: i, isInt: true}
 }
 
 func stringKey(s string) Key {
@@ -86,24 +87,24 @@ func stringKey(s string) Key {
 //
 // String 返回当前键值对的键的描述
 func (k *Key) String() string {
-	if k.s != "" {
-		return k.s
+	if k.isInt {
+		return strconv.Itoa(k.i)
 	}
-	return strconv.Itoa(k.i)
+	return k.s
 }
 
 // IsString tells if current key is a string, which indicates a child of an object.
 //
 // IsString 判断当前的键是不是一个 string 类型，如果是的话，那么它是一个 object JSON 的子成员。
 func (k *Key) IsString() bool {
-	return k.s != ""
+	return !k.isInt
 }
 
 // Int returns int value of a key.
 //
 // Int 返回当前键值对的 int 值。
 func (k *Key) Int() int {
-	if k.s == "" {
+	if k.isInt {
 		return k.i
 	}
 	return 0
@@ -113,7 +114,7 @@ func (k *Key) Int() int {
 //
 // IsInt 判断当前的键是不是一个整型类型，如果是的话，那么它是一个 array JSON 的子成员。
 func (k *Key) IsInt() bool {
-	return k.s == ""
+	return k.isInt
 }
 
 // KeyPath identifies a full path of keys of object in jsonvalue.
-- 
2.43.0


From dac29e3269648c12db8920552b08611df137a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 34/38] fix: KeyPaths of sibling values share memory, a kept
 path changes later

---
 sort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 093bf55..b222da5 100644
--- a/sort.go
+++ b/sort.go
@@ -167,9 +167,11 @@ func newParentInfo(v *V, nilableParentInfo *ParentInfo, key Key) *ParentInfo {
 		}
 	}
 
+	// a path may be kept by the less function, siblings must not share its memory
+	parent := nilableParentInfo.KeyPath
 	return &ParentInfo{
 		Parent:  v,
-		KeyPath: append(nilableParentInfo.KeyPath, &key),
+		KeyPath: append(parent[:len(parent):len(parent)], &key),
 	}
 }
 
-- 
2.43.0


From 9926d579d8fb628fc2ed9e12d400723abbe60961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 35/38] fix: SetDefaultMarshalOptions races with marshaling in
 other goroutines

---
 jsonvalue_internal.go | 11 ++++++-----
 option.go             |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..a155e72 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -9,15 +9,16 @@ import (
 )
 
 var internal = struct {
-	b64 *base64.Encoding
-
-	defaultMarshalOption *Opt
-
+	// predict is the first field so that it is 64-bit aligned on 32-bit platforms
 	predict struct {
 		bytesPerValue uint64
 		calcStorage   uint64 // upper 32 bits - size; lower 32 bits - value count
 	}
 
+	b64 *base64.Encoding
+
+	defaultMarshalOption atomic.Value // *Opt
+
 	types struct {
 		JSONMarshaler reflect.Type
 		TextMarshaler reflect.Type
@@ -26,7 +27,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index 6c11402..e1617fa 100644
--- a/option.go
+++ b/option.go
@@ -210,14 +210,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -225,7 +225,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From 297a59f534483081b15c548887b5dfd05870ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 36/38] fix: omitempty of a nil encoding.TextMarshaler
 interface left a null member

---
 import_export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index ab55529..eb3a350 100644
--- a/import_export.go
+++ b/import_export.go
@@ -266,7 +266,7 @@ func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-		return NewNull(), nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalText()
 	if err != nil {
-- 
2.43.0


From 46959ca244d1226bd9c07ce88e6ed2832c40fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:57 +0000
Subject: [PATCH 37/38] fix: appending to the end of, or inserting before in, a
 nil value panicked

---
 insert_append_delete.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 4757296..a365d56 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -192,7 +192,7 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
@@ -498,7 +498,7 @@ func (apd *appender) InTheEnd(params ...any) (*V, error) {
 	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
-- 
2.43.0


From 2154e6c19baf80904d3596470b86d8b37c148c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:59 +0000
Subject: [PATCH 38/38] fix: fields of embedded structs did not hide deeper
 ones of the same name

A field of one embedded struct is hidden by a less deep one of another, and by an
unexported embedded struct that has a name of its own, as in encoding/json.
---
 import_export.go | 57 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/import_export.go b/import_export.go
index eb3a350..84cc0b6 100644
--- a/import_export.go
+++ b/import_export.go
@@ -504,7 +504,7 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	numField := t.NumField()
 
 	res := NewObject()
-	own := structOwnNames(t)
+	depths := structKeyDepths(t)
 
 	for i := 0; i < numField; i++ {
 		vv := v.Field(i)
@@ -515,10 +515,13 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 			return nil, err
 		}
 
-		promoted := tt.Anonymous && isPromotedStruct(tt)
+		var inner map[string]int
+		if tt.Anonymous && isPromotedStruct(tt) {
+			inner = structKeyDepths(elemOfPointer(tt.Type))
+		}
 		for i, k := range keys {
-			if promoted && own[k] {
-				continue // hidden by a field of the outer struct
+			if inner != nil && inner[k]+1 > depths[k] {
+				continue // hidden by a field of the outer struct or of another embedded one
 			}
 			v := children[i]
 			res.MustSet(v).At(k)
@@ -528,21 +531,47 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	return res, nil
 }
 
-// structOwnNames returns the keys of the fields which a struct declares itself, they hide those of embedded structs.
-func structOwnNames(t reflect.Type) map[string]bool {
-	res := map[string]bool{}
-	for i := 0; i < t.NumField(); i++ {
-		ft := t.Field(i)
-		if ft.PkgPath != "" || (ft.Anonymous && isPromotedStruct(ft)) {
-			continue
-		}
-		if name, ex := readFieldTag(ft, "json", ext{}); !ex.ignored {
-			res[name] = true
+// structKeyDepths returns how many embedded structs deep each key of a struct is declared. The fields with the lowest
+// depth hide the others, wherever they stand.
+func structKeyDepths(t reflect.Type) map[string]int {
+	res := map[string]int{}
+	visited := map[reflect.Type]bool{}
+
+	level := []reflect.Type{t}
+	for depth := 0; len(level) > 0; depth++ {
+		var next []reflect.Type
+		for _, t := range level {
+			if visited[t] {
+				continue
+			}
+			visited[t] = true
+			for i := 0; i < t.NumField(); i++ {
+				ft := t.Field(i)
+				if ft.Anonymous && isPromotedStruct(ft) {
+					next = append(next, elemOfPointer(ft.Type))
+					continue
+				}
+				if ft.PkgPath != "" && !(ft.Anonymous && isStructOrPointer(ft.Type)) {
+					continue // unexported, but embedded structs count even then
+				}
+				name, ex := readFieldTag(ft, "json", ext{})
+				if _, exist := res[name]; !exist && !ex.ignored {
+					res[name] = depth
+				}
+			}
 		}
+		level = next
 	}
 	return res
 }
 
+func elemOfPointer(t reflect.Type) reflect.Type {
+	if t.Kind() == reflect.Ptr {
+		return t.Elem()
+	}
+	return t
+}
+
 func parseNullValue(_ reflect.Value, ex ext) (*V, error) {
 	if ex.shouldOmitEmpty() {
 		return nil, nil
-- 
2.43.0

