From 712f3c8b3bcbe53c8861b253461a36cd8a56dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:43 +0000
Subject: [PATCH 01/29] fix: keep slice data visible to the garbage collector
 while decoding and encoding

---
 eface.go                    | 8 +++-----
 link_reflect.go             | 4 ++--
 val_decoder_native_slice.go | 2 +-
 val_encoder_native_slice.go | 9 ++++-----
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/eface.go b/eface.go
index 14ec593..c66cf9b 100644
--- a/eface.go
+++ b/eface.go
@@ -25,10 +25,9 @@ func rtypeOfType(typ reflect.Type) rtype {
 	return rtype(ef.data)
 }
 
-type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
-
-/*
+// The data fields must be real pointers (instead of the uintptr used by
+// reflect.StringHeader and reflect.SliceHeader), otherwise the garbage
+// collector will not see the memory they point to
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
@@ -39,4 +38,3 @@ type sliceHeader struct {
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..b9c9e40 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..fad7aa6 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,13 +50,12 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		curPtr := add(sh.Data, uintptr(i)*enc.elemSize, "i < len")
+		enc.elemEncoder.Encode(curPtr, s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0


From f67fe7b3dcbd6c7c8fe40d1bca814a4852340bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 02/29] fix: reject null as an object key when decoding maps

---
 val_decoder_native_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index 03eb9b9..e42924c 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -90,6 +90,13 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
 	for {
+		c, err = it.nextToken()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		key := unsafe_New(dec.keyRType)
 		opt := DecOpts{
 			MapKey: true,
-- 
2.43.0


From ebe7c3c12939eb0fcbc0dd142c8a45592b8f77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:08 +0000
Subject: [PATCH 03/29] fix: fold the key the same way for one-field structs as
 for other structs

---
 val_decoder_native_struct_one_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 0f75482..26bf30e 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -64,7 +64,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		if err != nil {
 			return err
 		}
-		if dec.equalFold(field, dec.nameBytes) {
+		if dec.equalFold(dec.nameBytes, field) {
 			curPtr := add(ptr, dec.offsets[0].val, "struct field")
 			for _, offset := range dec.offsets[1:] {
 				subPtr := *(*unsafe.Pointer)(curPtr)
-- 
2.43.0


From 3eb1298cd2acc1ba2dc5474972240ef8ac5fe1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:59 +0000
Subject: [PATCH 04/29] fix: unescape the string before decoding base64 into a
 byte slice

---
 val_decoder_native_slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index b9c9e40..2604462 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,14 +56,10 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
-		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		buf, err := it.readStringAsSlice()
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
-		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
 			return err
-- 
2.43.0


From 4bc2227edfd51558a4c529178b477827cef98ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:32 +0000
Subject: [PATCH 05/29] fix: do not panic on omitempty fields whose marshaler
 type is of string or any other unlisted kind

---
 is_empty.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/is_empty.go b/is_empty.go
index d630cbc..67838ba 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -40,6 +40,15 @@ func init() {
 	isEmptyFunctions[reflect.Map] = (*directMapEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Slice] = (*sliceEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Struct] = (*structEncoder)(nil).IsEmpty
-	// Interface
-	// Ptr
+	isEmptyFunctions[reflect.String] = (*stringEncoder)(nil).IsEmpty
+	// the other kinds are never empty
+	for i, f := range isEmptyFunctions {
+		if f == nil {
+			isEmptyFunctions[i] = neverEmpty
+		}
+	}
+}
+
+func neverEmpty(unsafe.Pointer) bool {
+	return false
 }
-- 
2.43.0


From 805c214608ee923b970242907cf490ce6cc14890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:38 +0000
Subject: [PATCH 06/29] fix: encode interface types embedding a marshaler
 interface by the value they hold

---
 encoder_config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 71a32ef..c474ba5 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -148,7 +148,8 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		kind := typ.Kind()
 
 		// check json.Marshaler interface
-		if typ.Implements(jsonMarshalerType) {
+		// (an interface is encoded by the value it holds)
+		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
@@ -183,7 +184,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		}
 
 		// check encoding.TextMarshaler interface
-		if typ.Implements(textMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
-- 
2.43.0


From 9388a8600228fe363388ef0be57686be4f31374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:44 +0000
Subject: [PATCH 07/29] fix: encode a nil pointer to encoding.TextMarshaler as
 null

---
 val_encoder_text_marshaler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 606de08..4af878b 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -103,6 +103,10 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	if s.Error != nil {
 		return
 	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
 	marshaler := *(*encoding.TextMarshaler)(ptr)
 	if marshaler == nil {
 		s.Null()
-- 
2.43.0


From feffef73d6210543fd7558f5d72f45ed6b4a5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 08/29] fix: encode a nil json.RawMessage as null

---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From 631746018a2ace83f31ae409aa3796310b62ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:59 +0000
Subject: [PATCH 09/29] fix: never omit an empty struct with omitempty, as for
 any other struct

---
 val_encoder_native_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_encoder_native_struct.go b/val_encoder_native_struct.go
index f222a0e..856fe26 100644
--- a/val_encoder_native_struct.go
+++ b/val_encoder_native_struct.go
@@ -112,7 +112,7 @@ OuterLoop:
 type emptyStructEncoder struct{}
 
 func (*emptyStructEncoder) IsEmpty(ptr unsafe.Pointer) bool {
-	return true
+	return false
 }
 
 func (*emptyStructEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
-- 
2.43.0


From 2138cb19b493e1777d4e3f415966264a55436b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:11 +0000
Subject: [PATCH 10/29] fix: honour the string tag option for float fields

---
 iterator_float32.go         | 20 ++++++++------
 streamer_float.go           | 24 +++++++++++++++++
 val_decoder_native_float.go | 52 ++++++++++++++++++++++++++++++++++---
 val_encoder_native_float.go | 12 +++++++--
 4 files changed, 94 insertions(+), 14 deletions(-)

diff --git a/iterator_float32.go b/iterator_float32.go
index b38ac2a..22f0c05 100644
--- a/iterator_float32.go
+++ b/iterator_float32.go
@@ -5,15 +5,9 @@ import (
 	"strconv"
 )
 
-// ReadFloat32 reads a float32 value
-func (it *Iterator) ReadFloat32() (float32, error) {
-	c, err := it.nextToken()
-	if err != nil {
-		return 0, err
-	}
-	it.head++
+func (it *Iterator) readFloat32(c byte) (float32, error) {
 	if c == '-' {
-		c, err = it.nextByte()
+		c, err := it.nextByte()
 		if err != nil {
 			return 0, err
 		}
@@ -27,6 +21,16 @@ func (it *Iterator) ReadFloat32() (float32, error) {
 	return f, err
 }
 
+// ReadFloat32 reads a float32 value
+func (it *Iterator) ReadFloat32() (float32, error) {
+	c, err := it.nextToken()
+	if err != nil {
+		return 0, err
+	}
+	it.head++
+	return it.readFloat32(c)
+}
+
 func (it *Iterator) parseFloat32(buf []byte) (ret float32, err error) {
 	f, err := strconv.ParseFloat(localByteToString(buf), 32)
 	return float32(f), err
diff --git a/streamer_float.go b/streamer_float.go
index fcecf45..0e25d0c 100644
--- a/streamer_float.go
+++ b/streamer_float.go
@@ -85,3 +85,27 @@ func (s *Streamer) Float64(f float64) *Streamer {
 	}
 	return s
 }
+
+func (s *Streamer) quotedFloat32(f float32) *Streamer {
+	if s.Error != nil {
+		return s
+	}
+	s.onVal()
+	s.buffer = append(s.buffer, '"')
+	s.poped = false
+	s.Float32(f)
+	s.buffer = append(s.buffer, '"')
+	return s
+}
+
+func (s *Streamer) quotedFloat64(f float64) *Streamer {
+	if s.Error != nil {
+		return s
+	}
+	s.onVal()
+	s.buffer = append(s.buffer, '"')
+	s.poped = false
+	s.Float64(f)
+	s.buffer = append(s.buffer, '"')
+	return s
+}
diff --git a/val_decoder_native_float.go b/val_decoder_native_float.go
index 3cb4035..1a7fd64 100644
--- a/val_decoder_native_float.go
+++ b/val_decoder_native_float.go
@@ -8,7 +8,7 @@ import (
 type float32Decoder struct {
 }
 
-func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -17,10 +17,32 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
-	f, err := it.ReadFloat32()
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+	}
+	it.head++
+	f, err := it.readFloat32(c)
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float32)(ptr) = f
 	return nil
 }
@@ -29,7 +51,7 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 type float64Decoder struct {
 }
 
-func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -38,10 +60,32 @@ func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
-	f, err := it.ReadFloat64()
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+	}
+	it.head++
+	f, err := it.readFloat64(c)
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float64)(ptr) = f
 	return nil
 }
diff --git a/val_encoder_native_float.go b/val_encoder_native_float.go
index 11d8cb6..6736a08 100644
--- a/val_encoder_native_float.go
+++ b/val_encoder_native_float.go
@@ -16,7 +16,11 @@ func (*float32Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float32(*(*float32)(ptr))
+	if opts == nil || !opts.Quoted {
+		s.Float32(*(*float32)(ptr))
+	} else {
+		s.quotedFloat32(*(*float32)(ptr))
+	}
 }
 
 // float64 encoder
@@ -31,5 +35,9 @@ func (*float64Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float64(*(*float64)(ptr))
+	if opts == nil || !opts.Quoted {
+		s.Float64(*(*float64)(ptr))
+	} else {
+		s.quotedFloat64(*(*float64)(ptr))
+	}
 }
-- 
2.43.0


From 76590d6b78a41c8e3fc8fe6cfacc2bd1f8059878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:18 +0000
Subject: [PATCH 11/29] fix: honour the string tag option for json.Number
 fields

---
 val_decoder_json_number.go | 5 ++++-
 val_encoder_json_number.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/val_decoder_json_number.go b/val_decoder_json_number.go
index 94016ec..632cd62 100644
--- a/val_decoder_json_number.go
+++ b/val_decoder_json_number.go
@@ -6,7 +6,7 @@ import (
 
 type jsonNumberDecoder struct{}
 
-func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -42,6 +42,9 @@ func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) e
 		it.head++
 		return it.expectBytes("ull")
 	case NumberValue:
+		if opts != nil && opts.Quoted {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		it.head++
 		s, err = it.readNumberAsString(c)
 		if err != nil {
diff --git a/val_encoder_json_number.go b/val_encoder_json_number.go
index 3e8d2e4..300216e 100644
--- a/val_encoder_json_number.go
+++ b/val_encoder_json_number.go
@@ -21,5 +21,9 @@ func (*jsonNumberEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts)
 		str = "0"
 	}
 	// TODO: the standard library will check the validity in future
-	s.RawString(str)
+	if opts == nil || !opts.Quoted {
+		s.RawString(str)
+	} else {
+		s.RawString(`"` + str + `"`)
+	}
 }
-- 
2.43.0


From b94f996a0c06c5c986332395a2911fb53682635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 12/29] fix: report an overflow for 8 bit integers of more than
 three digits

---
 iterator_int8.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..efbb919 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -63,6 +63,17 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
+	if it.head == it.tail {
+		if err = it.readMore(); err != nil {
+			if err == io.EOF {
+				err = nil
+			}
+			return
+		}
+	}
+	if intDigits[it.buffer[it.head]] != invalidDigit { // more digits
+		err = IntOverflowError{}
+	}
 	return
 }
 
-- 
2.43.0


From f1f0b21cb6097483305b66231d73b3aac67cb981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 13/29] fix: detect interface loops which do not contain the
 first interface

---
 iterator.go                     |  4 ++++
 val_decoder_native_interface.go | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..f043d48 100644
--- a/iterator.go
+++ b/iterator.go
@@ -23,6 +23,10 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	// number of efaces met since the checkpoint, and the number
+	// after which the checkpoint is renewed
+	efaceSteps     uint
+	efaceStepLimit uint
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..489f4d9 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,24 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceSteps = 0
+		it.efaceStepLimit = 1
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
+	// the iterator didn't move, check the pointer we have recorded
 	// at this location
-	return uptr != it.lastEfacePtr
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the loop may not contain the pointer we have recorded, so we need
+	// to renew it (see Brent's cycle detection algorithm)
+	it.efaceSteps++
+	if it.efaceSteps == it.efaceStepLimit {
+		it.lastEfacePtr = uptr
+		it.efaceSteps = 0
+		it.efaceStepLimit <<= 1
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From 82c444431991667b9b163fe297b3163bdb1d1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:37 +0000
Subject: [PATCH 14/29] fix: require exactly a quoted boolean for bool fields
 with the string tag option

---
 val_decoder_native.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/val_decoder_native.go b/val_decoder_native.go
index b2f15b0..978c85a 100644
--- a/val_decoder_native.go
+++ b/val_decoder_native.go
@@ -13,6 +13,10 @@ func (*boolDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 	if err != nil {
 		return err
 	}
+	quoted := (opts != nil) && opts.Quoted
+	if quoted && c != '"' && c != 'n' {
+		return UnexpectedByteError{got: c, exp: '"', exp2: 'n'}
+	}
 	switch c {
 	case 'n':
 		it.head++
@@ -32,12 +36,11 @@ func (*boolDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 		*(*bool)(ptr) = false
 		return nil
 	case '"':
-		quoted := (opts != nil) && opts.Quoted
 		if !quoted {
 			return UnexpectedByteError{got: c}
 		}
 		it.head++
-		c, err := it.nextToken()
+		c, err := it.nextByte()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From dc79c903c1ac0ada446fd2c30a7af46e0fffaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 15/29] fix: honour omitempty for fields encoded by a marshaler
 with pointer receiver

---
 encoder_config.go     | 9 +++++++++
 val_encoder_direct.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/encoder_config.go b/encoder_config.go
index c474ba5..9373743 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -36,6 +36,15 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 	if pe, ok := ptrEncoder.(*pointerEncoder); ok {
 		return pe.encoder
 	}
+	switch ptrEncoder.(type) {
+	case pointerJSONMarshalerEncoder, pointerTextMarshalerEncoder:
+		// the element is encoded by its address, but it's the element
+		// itself which may be empty
+		return &addrMarshalerEncoder{
+			directEncoder: directEncoder{ptrEncoder},
+			isEmpty:       isEmptyFunctions[typ.Kind()],
+		}
+	}
 	// the element has a special pointer encoder
 	return &directEncoder{ptrEncoder}
 }
diff --git a/val_encoder_direct.go b/val_encoder_direct.go
index 64fb277..e36c2e9 100644
--- a/val_encoder_direct.go
+++ b/val_encoder_direct.go
@@ -15,3 +15,12 @@ func (enc *directEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 func (enc *directEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	enc.encoder.Encode(unsafe.Pointer(&ptr), s, opts)
 }
+
+type addrMarshalerEncoder struct {
+	directEncoder
+	isEmpty isEmptyFunc
+}
+
+func (enc *addrMarshalerEncoder) IsEmpty(ptr unsafe.Pointer) bool {
+	return enc.isEmpty(ptr)
+}
-- 
2.43.0


From fb53afe4721f348fd681258d3b617fe320ada534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:40 +0000
Subject: [PATCH 16/29] fix: accept semicolons in field names from tags

---
 struct_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct_tag.go b/struct_tag.go
index 92dea79..b4e30d7 100644
--- a/struct_tag.go
+++ b/struct_tag.go
@@ -51,7 +51,7 @@ func isValidTag(s string) bool {
 	}
 	for _, c := range s {
 		switch {
-		case strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c):
+		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
 			// Backslash and quote chars are reserved, but
 			// otherwise any punctuation chars are allowed
 			// in a tag name.
-- 
2.43.0


From e779af97b0645b3b66ce15aaf3085c625b71f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 17/29] fix: use the html escaping of the streamer for quoted
 strings

---
 val_encoder_native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/val_encoder_native.go b/val_encoder_native.go
index ec4ceab..2eaf0ee 100644
--- a/val_encoder_native.go
+++ b/val_encoder_native.go
@@ -47,6 +47,7 @@ func (*stringEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	}
 	subStream := s.cfg.NewStreamer()
 	defer subStream.Release()
+	subStream.EscapeHTML(s.escapeHTML)
 	subStream.String(*(*string)(ptr))
 	if subStream.Error != nil {
 		s.Error = subStream.Error
-- 
2.43.0


From 49d77079bee3db8e2965811f5d459b7de971aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:22 +0000
Subject: [PATCH 18/29] fix: pass a pointer to the value to custom encoders of
 pointer-shaped root values

---
 encoder_config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 9373743..69e3e9d 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -76,7 +76,13 @@ func NewEncoderConfig(opt *EncoderOption) *EncoderConfig {
 	if opt != nil {
 		for typ, valEnc := range opt.ValEncoders {
 			rtype := rtypeOfType(typ)
-			cache[rtype] = valEnc
+			if ifaceIndir(rtype) {
+				cache[rtype] = valEnc
+			} else {
+				// the root value is the data word of the interface,
+				// while the encoder expects a pointer to the value
+				cache[rtype] = &directEncoder{valEnc}
+			}
 			internalCache[rtype] = valEnc
 		}
 		encCfg.escapeHTML = opt.EscapeHTML
-- 
2.43.0


From 3c69e57e4dafa88240f6b765a6ebd87b0ca0e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 19/29] fix: encode pointer-shaped structs without visible
 fields as an object

The root value of such a struct (a single unexported nil map or pointer
field) was taken for a nil pointer and encoded as null.
---
 encoder_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 69e3e9d..19fbe6a 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -301,7 +301,11 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				// no fields to marshal
 				v := (*emptyStructEncoder)(nil)
 				internalCache[rType] = v
-				cache[rType] = v
+				if ifaceIndir(rType) {
+					cache[rType] = v
+				} else {
+					cache[rType] = &directEncoder{v}
+				}
 			} else {
 				for i := range w.fields {
 					fi := &w.fields[i]
-- 
2.43.0


From 0e333a16bb0d0118ac0a040c293b82d79389b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:55 +0000
Subject: [PATCH 20/29] fix: do not restore an interface cleared while decoding
 into the value it points to

---
 val_decoder_native_interface.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 489f4d9..d4c7f70 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -117,11 +117,9 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 	// when we arrive here, we have:
 	//   1. obj is pointer
 	//   2. obj != nil
-	if err := it.ReadVal(obj); err != nil {
-		return err
-	}
-	*pObj = obj
-	return nil
+	// the interface itself may be modified while decoding into the pointer
+	// it holds (when the value refers to the interface), do not restore it
+	return it.ReadVal(obj)
 }
 
 type ifaceDecoder struct {
-- 
2.43.0


From 727cb7c52cd4b712ed33deb090da40c3d8e2185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:07 +0000
Subject: [PATCH 21/29] fix: report too deeply nested documents as an error
 instead of overflowing the stack

---
 errors_decoder.go                      |  3 +++
 iterator.go                            | 22 ++++++++++++++++++++++
 val_decoder_native_array.go            |  4 ++++
 val_decoder_native_map.go              |  4 ++++
 val_decoder_native_slice.go            |  4 ++++
 val_decoder_native_struct.go           |  4 ++++
 val_decoder_native_struct_one_field.go |  4 ++++
 val_decoder_native_struct_small.go     |  4 ++++
 8 files changed, 49 insertions(+)

diff --git a/errors_decoder.go b/errors_decoder.go
index cb44226..d037630 100644
--- a/errors_decoder.go
+++ b/errors_decoder.go
@@ -39,6 +39,9 @@ var ErrNilEmbeddedPointer = errors.New("cannot unmarshal on nil pointer (unexpor
 //   err := DefaultDecoderConfig.Unmarshal([]byte(`1`), o1)
 var ErrEfaceLooping = errors.New("eface looping detected")
 
+// ErrMaxDepth if the arrays and objects to decode are nested too deeply
+var ErrMaxDepth = errors.New("exceeded max depth")
+
 // InvalidStringCharError there is an invalid character when reading string
 type InvalidStringCharError struct {
 	c byte
diff --git a/iterator.go b/iterator.go
index f043d48..e9efb62 100644
--- a/iterator.go
+++ b/iterator.go
@@ -20,6 +20,9 @@ type iteratorEmbedded struct {
 	// the current index position
 	head int
 
+	// the number of arrays and objects being decoded recursively
+	depth int
+
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
@@ -185,6 +188,25 @@ func (it *Iterator) readMore() error {
 	}
 }
 
+// the decoders of arrays and objects are recursive, so the depth must be
+// limited, otherwise the stack may overflow (same limit as encoding/json)
+const maxDepth = 10000
+
+// must be called before decoding the elements of an array or an object
+func (it *Iterator) incDepth() error {
+	it.depth++
+	if it.depth > maxDepth {
+		return ErrMaxDepth
+	}
+	return nil
+}
+
+// must be called after the end of an array or an object
+// (no need to be called when an error occurs)
+func (it *Iterator) decDepth() {
+	it.depth--
+}
+
 // will NOT skip whitespaces
 // will NOT consume the character
 // will report error on EOF
diff --git a/val_decoder_native_array.go b/val_decoder_native_array.go
index 277dd55..3c2b3b1 100644
--- a/val_decoder_native_array.go
+++ b/val_decoder_native_array.go
@@ -60,6 +60,9 @@ func (dec *arrayDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 	if c == ']' {
 		it.head++
 	} else {
+		if err = it.incDepth(); err != nil {
+			return err
+		}
 		for {
 			if count < dec.length {
 				// newer golang version seems to disallow direct
@@ -87,6 +90,7 @@ func (dec *arrayDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 				return UnexpectedByteError{got: c, exp: ']', exp2: ','}
 			}
 		}
+		it.decDepth()
 	}
 	if count < dec.length {
 		// should be safe (?)
diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index e42924c..7d86adf 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -89,6 +89,9 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 	if *(*unsafe.Pointer)(ptr) == nil {
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
+	if err = it.incDepth(); err != nil {
+		return err
+	}
 	for {
 		c, err = it.nextToken()
 		if err != nil {
@@ -124,6 +127,7 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		switch c {
 		case '}':
 			it.head++
+			it.decDepth()
 			return nil
 		case ',':
 			it.head++
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index 2604462..ce675cc 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -79,6 +79,9 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 	if c == ']' {
 		it.head++
 	} else {
+		if err = it.incDepth(); err != nil {
+			return err
+		}
 		for length := 1; ; length++ {
 			newPtr = unsafeGrowSlice(dec.elemRType, newPtr, length)
 			// must get the address every time
@@ -98,6 +101,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 				return UnexpectedByteError{got: c, exp: ']', exp2: ','}
 			}
 		}
+		it.decDepth()
 	}
 	*(*sliceHeader)(ptr) = *(*sliceHeader)(newPtr)
 	return nil
diff --git a/val_decoder_native_struct.go b/val_decoder_native_struct.go
index dee1e61..2075e83 100644
--- a/val_decoder_native_struct.go
+++ b/val_decoder_native_struct.go
@@ -122,6 +122,9 @@ func (dec *structDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) (
 		return UnexpectedByteError{got: c, exp: '}', exp2: '"'}
 	}
 	it.head++
+	if err = it.incDepth(); err != nil {
+		return err
+	}
 	for {
 		field, err := it.readObjectFieldAsSlice()
 		if err != nil {
@@ -163,6 +166,7 @@ func (dec *structDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) (
 		switch c {
 		case '}':
 			it.head++
+			it.decDepth()
 			return nil
 		case ',':
 			it.head++
diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 26bf30e..cc1104c 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -59,6 +59,9 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		return UnexpectedByteError{got: c, exp: '}', exp2: '"'}
 	}
 	it.head++
+	if err = it.incDepth(); err != nil {
+		return err
+	}
 	for {
 		field, err := it.readObjectFieldAsSlice()
 		if err != nil {
@@ -98,6 +101,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		switch c {
 		case '}':
 			it.head++
+			it.decDepth()
 			return nil
 		case ',':
 			it.head++
diff --git a/val_decoder_native_struct_small.go b/val_decoder_native_struct_small.go
index b1d71f1..f07bc10 100644
--- a/val_decoder_native_struct_small.go
+++ b/val_decoder_native_struct_small.go
@@ -78,6 +78,9 @@ func (dec *smallStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOp
 		return UnexpectedByteError{got: c, exp: '}', exp2: '"'}
 	}
 	it.head++
+	if err = it.incDepth(); err != nil {
+		return err
+	}
 	for {
 		field, err := it.readObjectFieldAsSlice()
 		if err != nil {
@@ -118,6 +121,7 @@ func (dec *smallStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOp
 		switch c {
 		case '}':
 			it.head++
+			it.decDepth()
 			return nil
 		case ',':
 			it.head++
-- 
2.43.0


From f5c39455522ac83b2ffad61ff106226dde72a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:40 +0000
Subject: [PATCH 22/29] fix: report cyclic values as an error instead of
 overflowing the stack

---
 errors_encoder.go                     |  3 ++
 streamer.go                           | 45 +++++++++++++++++++++++++++
 streamer_val.go                       |  5 ++-
 val_encoder_native_map_above_go118.go |  5 +++
 val_encoder_native_map_below_go118.go |  5 +++
 val_encoder_native_ptr.go             |  7 ++++-
 val_encoder_native_slice.go           |  5 +++
 7 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/errors_encoder.go b/errors_encoder.go
index ecb6ce1..1f8cd83 100644
--- a/errors_encoder.go
+++ b/errors_encoder.go
@@ -7,6 +7,9 @@ import (
 // ErrNoAttachedWriter there is no writer attaching to the streamer
 var ErrNoAttachedWriter = errors.New("no attached writer")
 
+// ErrCyclicValue the value to write contains itself
+var ErrCyclicValue = errors.New("encountered a cycle")
+
 // ErrFloatIsInfinity the float to write is infinity
 var ErrFloatIsInfinity = errors.New("float is infinity")
 
diff --git a/streamer.go b/streamer.go
index ef23b6c..f9a32b2 100644
--- a/streamer.go
+++ b/streamer.go
@@ -2,6 +2,7 @@ package jzon
 
 import (
 	"io"
+	"unsafe"
 )
 
 // Streamer is a chained class for encoding object to json
@@ -14,6 +15,10 @@ type Streamer struct {
 	Error error
 	poped bool
 
+	// cycle detection, see enter
+	depth   int
+	visited map[visit]struct{}
+
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
 	Context interface{} // custom stream context
@@ -40,9 +45,49 @@ func (s *Streamer) reset() {
 	s.Error = nil
 	s.poped = false
 	s.buffer = s.buffer[:0]
+	s.depth = 0
+	s.visited = nil
 	s.Context = nil
 }
 
+// visit is a reference (pointer, map, slice or interface) which is being encoded
+type visit struct {
+	typ uintptr // the type or the encoder of the reference
+	ptr unsafe.Pointer
+	len int
+}
+
+// the references are recorded only when they are nested more than this,
+// same as encoding/json
+const startDetectCyclesAfter = 1000
+
+// enter must be called before encoding what a reference refers to,
+// returns false (and sets the error) if we are already encoding it
+func (s *Streamer) enter(typ uintptr, ptr unsafe.Pointer, len int) bool {
+	s.depth++
+	if s.depth <= startDetectCyclesAfter {
+		return true
+	}
+	v := visit{typ: typ, ptr: ptr, len: len}
+	if _, ok := s.visited[v]; ok {
+		s.Error = ErrCyclicValue
+		return false
+	}
+	if s.visited == nil {
+		s.visited = map[visit]struct{}{}
+	}
+	s.visited[v] = struct{}{}
+	return true
+}
+
+// leave must be called after enter with the same arguments
+func (s *Streamer) leave(typ uintptr, ptr unsafe.Pointer, len int) {
+	if s.depth > startDetectCyclesAfter {
+		delete(s.visited, visit{typ: typ, ptr: ptr, len: len})
+	}
+	s.depth--
+}
+
 // Reset resets the streamer with a new writer
 func (s *Streamer) Reset(w io.Writer) {
 	s.reset()
diff --git a/streamer_val.go b/streamer_val.go
index 5898cb9..f8815af 100644
--- a/streamer_val.go
+++ b/streamer_val.go
@@ -19,7 +19,10 @@ func (s *Streamer) value(obj interface{}, opts *EncOpts) *Streamer {
 		typ := reflect.TypeOf(obj)
 		enc = s.cfg.createEncoder(ef.rtype, typ)
 	}
-	enc.Encode(ef.data, s, opts)
+	if s.enter(ef.rtype, ef.data, 0) {
+		enc.Encode(ef.data, s, opts)
+		s.leave(ef.rtype, ef.data, 0)
+	}
 	return s
 }
 
diff --git a/val_encoder_native_map_above_go118.go b/val_encoder_native_map_above_go118.go
index 7336791..bf09565 100644
--- a/val_encoder_native_map_above_go118.go
+++ b/val_encoder_native_map_above_go118.go
@@ -19,6 +19,10 @@ func (enc *directMapEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts)
 		s.Null()
 		return
 	}
+	typ := uintptr(unsafe.Pointer(enc))
+	if !s.enter(typ, ptr, 0) {
+		return
+	}
 	s.ObjectStart()
 	var iter hiter
 	mapiterinit(enc.mapRType, ptr, &iter)
@@ -34,4 +38,5 @@ func (enc *directMapEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts)
 		mapiternext(&iter)
 	}
 	s.ObjectEnd()
+	s.leave(typ, ptr, 0)
 }
\ No newline at end of file
diff --git a/val_encoder_native_map_below_go118.go b/val_encoder_native_map_below_go118.go
index f44e87b..fc443ce 100644
--- a/val_encoder_native_map_below_go118.go
+++ b/val_encoder_native_map_below_go118.go
@@ -19,6 +19,10 @@ func (enc *directMapEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts)
 		s.Null()
 		return
 	}
+	typ := uintptr(unsafe.Pointer(enc))
+	if !s.enter(typ, ptr, 0) {
+		return
+	}
 	s.ObjectStart()
 	iter := mapiterinit(enc.mapRType, ptr)
 	for i := 0; iter.key != nil; i++ {
@@ -33,4 +37,5 @@ func (enc *directMapEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts)
 		mapiternext(iter)
 	}
 	s.ObjectEnd()
+	s.leave(typ, ptr, 0)
 }
\ No newline at end of file
diff --git a/val_encoder_native_ptr.go b/val_encoder_native_ptr.go
index b34c00f..c753ee1 100644
--- a/val_encoder_native_ptr.go
+++ b/val_encoder_native_ptr.go
@@ -30,5 +30,10 @@ func (enc *pointerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts
 		s.Null()
 		return
 	}
-	enc.encoder.Encode(*(*unsafe.Pointer)(ptr), s, opts)
+	ptr = *(*unsafe.Pointer)(ptr)
+	typ := uintptr(unsafe.Pointer(enc))
+	if s.enter(typ, ptr, 0) {
+		enc.encoder.Encode(ptr, s, opts)
+		s.leave(typ, ptr, 0)
+	}
 }
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index fad7aa6..72f52ef 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -49,6 +49,10 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		s.RawString("[]")
 		return
 	}
+	typ := uintptr(unsafe.Pointer(enc))
+	if !s.enter(typ, sh.Data, sh.Len) {
+		return
+	}
 	s.ArrayStart()
 	for i := 0; i < sh.Len; i++ {
 		curPtr := add(sh.Data, uintptr(i)*enc.elemSize, "i < len")
@@ -58,4 +62,5 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		}
 	}
 	s.ArrayEnd()
+	s.leave(typ, sh.Data, sh.Len)
 }
-- 
2.43.0


From 61f330a80cdfe0723b3abb2679010a763a631e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:41 +0000
Subject: [PATCH 23/29] fix: null clears maps and slices with an UnmarshalText
 method

---
 val_decoder_text_unmarshaler.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/val_decoder_text_unmarshaler.go b/val_decoder_text_unmarshaler.go
index 904614f..c390752 100644
--- a/val_decoder_text_unmarshaler.go
+++ b/val_decoder_text_unmarshaler.go
@@ -29,7 +29,15 @@ func (dec textUnmarshalerDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		return unmarshaler.UnmarshalText(b)
 	case 'n':
 		it.head++
-		return it.expectBytes("ull")
+		if err := it.expectBytes("ull"); err != nil {
+			return err
+		}
+		// the method is not called, so null acts as on any type of this kind
+		switch v := reflect.ValueOf(obj).Elem(); v.Kind() {
+		case reflect.Map, reflect.Slice:
+			v.Set(reflect.Zero(v.Type()))
+		}
+		return nil
 	default:
 		return UnexpectedByteError{got: c, exp: '"', exp2: 'n'}
 	}
-- 
2.43.0


From 34e08759c584d87ebd18bb9228deeb6ba08a312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 24/29] fix: process the data that comes together with a reader
 error before reporting it

---
 iterator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index e9efb62..7c3a38e 100644
--- a/iterator.go
+++ b/iterator.go
@@ -20,6 +20,9 @@ type iteratorEmbedded struct {
 	// the current index position
 	head int
 
+	// the error which came together with the last data of the reader
+	readErr error
+
 	// the number of arrays and objects being decoded recursively
 	depth int
 
@@ -150,6 +153,11 @@ func (it *Iterator) readMore() error {
 	if it.reader == nil {
 		return io.EOF
 	}
+	if err := it.readErr; err != nil {
+		// everything before the error has been consumed
+		it.readErr = nil
+		return err
+	}
 	var (
 		n   int
 		err error
@@ -174,7 +182,12 @@ func (it *Iterator) readMore() error {
 			it.tail = n
 		}
 		if err != nil {
-			if err == io.EOF && n > 0 {
+			if n > 0 {
+				// see comment of io.Reader, the data must be
+				// processed before considering the error
+				if err != io.EOF {
+					it.readErr = err
+				}
 				return nil
 			}
 			return err
-- 
2.43.0


From b6355b81589cd7ddf87dfc3ada2b41597718a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 25/29] fix: drop the consumed bytes when a captured value
 needs more data

The buffer grew with the stream when every refill happened inside of a
captured value (raw messages, numbers, values with UnmarshalJSON).
---
 iterator.go        | 11 +++++++++++
 iterator_number.go |  7 +++++--
 iterator_raw.go    |  7 +++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/iterator.go b/iterator.go
index 7c3a38e..4d925eb 100644
--- a/iterator.go
+++ b/iterator.go
@@ -17,6 +17,9 @@ type iteratorEmbedded struct {
 	capture bool
 	offset  int
 
+	// the index in the buffer from which the bytes are captured
+	captureBegin int
+
 	// the current index position
 	head int
 
@@ -164,6 +167,14 @@ func (it *Iterator) readMore() error {
 	)
 	for {
 		if it.capture {
+			if begin := it.captureBegin; begin > 0 {
+				// the bytes before the captured ones are not needed any more,
+				// otherwise the buffer would grow with the stream
+				it.offset += begin
+				it.head -= begin
+				it.tail = copy(it.buffer, it.buffer[begin:it.tail])
+				it.captureBegin = 0
+			}
 			var buf [bufferSize]byte
 			n, err = it.reader.Read(buf[:])
 			it.buffer = append(it.buffer[:it.tail], buf[:n]...)
diff --git a/iterator_number.go b/iterator_number.go
index 390412b..981b8bf 100644
--- a/iterator_number.go
+++ b/iterator_number.go
@@ -8,10 +8,13 @@ func (it *Iterator) readNumberAsString(c byte) (n string, err error) {
 
 	// save current location
 	// this should be a safe operation because the c is still in the buffer
-	begin := it.head - 1
+	if !oldCapture {
+		it.captureBegin = it.head - 1
+	}
+	begin := it.head - 1 - it.captureBegin
 	err = skipNumber(it, c)
 	if err == nil {
-		n = string(it.buffer[begin:it.head])
+		n = string(it.buffer[it.captureBegin+begin : it.head])
 	}
 	// end capture
 	it.capture = oldCapture
diff --git a/iterator_raw.go b/iterator_raw.go
index b874c8c..50f9edb 100644
--- a/iterator_raw.go
+++ b/iterator_raw.go
@@ -10,14 +10,17 @@ func (it *Iterator) SkipRaw() ([]byte, error) {
 	}
 	oldCapture := it.capture
 	it.capture = true
-	begin := it.head
+	if !oldCapture {
+		it.captureBegin = it.head
+	}
+	begin := it.head - it.captureBegin
 	it.head++
 	err = skipFunctions[c](it, c)
 	it.capture = oldCapture
 	if err != nil {
 		return nil, err
 	}
-	return it.buffer[begin:it.head], nil
+	return it.buffer[it.captureBegin+begin : it.head], nil
 }
 
 // AppendRaw is like SkipRaw but it is a copy version
-- 
2.43.0


From fe72f7d1b090587ad8845f8e5c8febacbed0d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 26/29] fix: use the whole buffer again after a captured value

After a captured value the following reads were limited to the number of
bytes which happened to be in the buffer, as few as 2 at a time.
---
 iterator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterator.go b/iterator.go
index 4d925eb..c0de570 100644
--- a/iterator.go
+++ b/iterator.go
@@ -179,6 +179,8 @@ func (it *Iterator) readMore() error {
 			n, err = it.reader.Read(buf[:])
 			it.buffer = append(it.buffer[:it.tail], buf[:n]...)
 			it.tail += n
+			// the whole buffer is available for the next reads
+			it.buffer = it.buffer[:cap(it.buffer)]
 			// save internal buffer for reuse
 			it.fixbuf = it.buffer
 		} else {
-- 
2.43.0


From 80bc0b90c090e0eaa41eb572846e03abd93e098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 27/29] fix: encode maps whose key is an interface with
 MarshalText

The key was taken for a value of a concrete type, which made the
conversion panic.
---
 val_encoder_native_map.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index b74a0bd..d95a7af 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -22,7 +22,9 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 	case keyKind == reflect.String:
 		keyEncoder = keyEncoders[keyKind]
 	case keyType.Implements(textMarshalerType):
-		if ifaceIndir(keyRType) {
+		if keyKind == reflect.Interface {
+			keyEncoder = ifaceTextMarshalerKeyEncoder(keyType.String())
+		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
 		} else {
 			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
@@ -102,6 +104,28 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	s.poped = false
 }
 
+// the key is an interface which includes encoding.TextMarshaler
+type ifaceTextMarshalerKeyEncoder string
+
+func (enc ifaceTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+	if s.Error != nil {
+		return
+	}
+	marshaler, ok := packIFace(ptr).(encoding.TextMarshaler)
+	if !ok { // the key is nil
+		s.Error = TypeNotSupportedError(enc)
+		return
+	}
+	b, err := marshaler.MarshalText()
+	if err != nil {
+		s.Error = err
+		return
+	}
+	s.String(localByteToString(b))
+	s.buffer = append(s.buffer, ':')
+	s.poped = false
+}
+
 // key encoders
 type stringKeyEncoder struct{}
 
-- 
2.43.0


From 50c39236d87d3f2b3e78af8a449ada00ecb8f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 28/29] fix: call MarshalText of map keys that are nil without
 being pointers

Channels, and structs and arrays that hold a single pointer, were written
as an empty key when they were nil.
---
 val_encoder_native_map.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index d95a7af..891570e 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -27,7 +27,10 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
 		} else {
-			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
+			keyEncoder = &directTextMarshalerKeyEncoder{
+				rtype: keyRType,
+				isPtr: keyKind == reflect.Ptr,
+			}
 		}
 	default:
 		if keyEncoder = keyEncoders[keyKind]; keyEncoder == nil {
@@ -78,20 +81,22 @@ func (enc textMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
 	s.poped = false
 }
 
-type directTextMarshalerKeyEncoder rtype
+type directTextMarshalerKeyEncoder struct {
+	rtype rtype
+	isPtr bool
+}
 
-func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+func (enc *directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
 	if s.Error != nil {
 		return
 	}
-	rtype := rtype(enc)
 	// go1.14 ignore the error silently
 	// check `func (w *reflectWithString) resolve()` in encoding/json
 	ptr = *(*unsafe.Pointer)(ptr)
-	if ptr == nil {
+	if ptr == nil && enc.isPtr {
 		s.String("")
 	} else {
-		obj := packEFace(rtype, ptr)
+		obj := packEFace(enc.rtype, ptr)
 		marshaler := obj.(encoding.TextMarshaler)
 		b, err := marshaler.MarshalText()
 		if err != nil {
-- 
2.43.0


From 3fc0e08e01f309e9eb8148f8d6f7488b070bd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 29/29] fix: a field of a zero-length array type with
 MarshalJSON or MarshalText is empty

---
 encoder_config.go | 10 +++++-----
 is_empty.go       | 10 ++++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 19fbe6a..ad69164 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -42,7 +42,7 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 		// itself which may be empty
 		return &addrMarshalerEncoder{
 			directEncoder: directEncoder{ptrEncoder},
-			isEmpty:       isEmptyFunctions[typ.Kind()],
+			isEmpty:       isEmptyFuncOf(typ),
 		}
 	}
 	// the element has a special pointer encoder
@@ -167,7 +167,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFuncOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -190,7 +190,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directJSONMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFuncOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
@@ -202,7 +202,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFuncOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -225,7 +225,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directTextMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFuncOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
diff --git a/is_empty.go b/is_empty.go
index 67838ba..0573354 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -49,6 +49,16 @@ func init() {
 	}
 }
 
+// isEmptyFuncOf returns how to check whether a value of the type is empty,
+// no matter how it is encoded
+func isEmptyFuncOf(typ reflect.Type) isEmptyFunc {
+	kind := typ.Kind()
+	if kind == reflect.Array && typ.Len() == 0 {
+		return (*emptyArrayEncoder)(nil).IsEmpty
+	}
+	return isEmptyFunctions[kind]
+}
+
 func neverEmpty(unsafe.Pointer) bool {
 	return false
 }
-- 
2.43.0

