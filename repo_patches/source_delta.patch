From bf75cbb376093ce903ec450126da46fcac494d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 01/18] fix: return InvalidUnmarshalError instead of panicking
 on a nil destination

---
 unmarshal.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..38aeb24 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -28,8 +28,7 @@ func Unmarshal(data []byte, v any) error {
 
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
-
-	rt := rv.Type()
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From 24b3553d254f28bfa59cd961de0d58f71c89f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 02/18] fix: decode pointer map keys through the pointer
 instead of panicking

---
 internal/decoder/compile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..b352ad2 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -141,14 +141,14 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
-	for {
-		switch t := dec.(type) {
+	for elemDec := dec; ; {
+		switch t := elemDec.(type) {
 		case *stringDecoder, *interfaceDecoder:
 			return dec, nil
 		case *boolDecoder, *intDecoder, *uintDecoder:
 			return dec, nil
 		case *ptrDecoder:
-			dec = t.dec
+			elemDec = t.dec
 		default:
 			return newInvalidDecoder(typ, structName, fieldName), nil
 		}
-- 
2.43.0


From 4a1e8fc478050529a00f527d40358690450b4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 03/18] fix: reject entry keys that are neither integers nor
 strings

An array or object as the key of a map with interface keys panicked, and
null, floats and booleans were accepted as keys of maps, structs and
skipped values.
---
 internal/decoder/context.go | 14 ++++++++++++++
 internal/decoder/map.go     |  8 ++++++++
 internal/decoder/struct.go  |  3 +++
 3 files changed, 25 insertions(+)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..a880353 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -146,6 +146,9 @@ func skipArray(buf []byte, cursor, depth int64) (int64, error) {
 	}
 	cursor++
 	for range length {
+		if err := validateKey(buf, cursor); err != nil {
+			return cursor, err
+		}
 		cursor, err = skipValue(buf, cursor, depth)
 		if err != nil {
 			return cursor, err
@@ -164,6 +167,17 @@ func skipArray(buf []byte, cursor, depth int64) (int64, error) {
 	return cursor + 1, nil
 }
 
+// the key of an array or object entry is an integer or a string
+func validateKey(buf []byte, cursor int64) error {
+	if !hasByte(buf, cursor) {
+		return errors.ErrUnexpectedEnd("key", cursor)
+	}
+	if buf[cursor] != 's' && buf[cursor] != 'i' {
+		return errors.ErrUnexpected("integer or string as key", cursor, buf[cursor])
+	}
+	return nil
+}
+
 func skipValue(buf []byte, cursor, depth int64) (int64, error) {
 	if !hasByte(buf, cursor) {
 		return cursor, errors.ErrUnexpectedEnd("value", cursor)
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..174692d 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -91,6 +91,11 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
+		if d.keyType.Kind() != reflect.Bool {
+			if err := validateKey(buf, cursor); err != nil {
+				return 0, err
+			}
+		}
 		k := reflect.New(d.keyType)
 		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
 		if err != nil {
@@ -106,6 +111,9 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 			return 0, err
 		}
 
+		if !k.Elem().Comparable() {
+			return 0, errors.ErrSyntax("php-serialize: value can not be used as map key", cursor)
+		}
 		rv.SetMapIndex(k.Elem(), v.Elem())
 		cursor = valueCursor
 		if !hasByte(buf, cursor) {
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 3eecfea..4ca1f1b 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -108,6 +108,9 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("object", cursor)
 		}
+		if err := validateKey(buf, cursor); err != nil {
+			return 0, err
+		}
 		c, field, err := decodeKey(d, buf, cursor)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 9c726fb9023c1ffd3a0df935882adae277374ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 04/18] fix: don't trust declared lengths and indexes when
 allocating slices and maps

A huge declared count panicked in MakeSlice or exhausted memory, an index
near the end of the int range panicked, and decoding n elements into a
slice copied it n times.
---
 internal/decoder/map.go   |  3 ++-
 internal/decoder/slice.go | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 174692d..bfc2ec6 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,8 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		// an entry takes at least 6 bytes, don't trust the declared length
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, int64(len(buf))/6))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..a14919d 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -7,6 +7,10 @@ import (
 	"github.com/trim21/go-phpserialize/internal/errors"
 )
 
+// size in bytes of the biggest slice an array index can ask for, bigger ones are
+// rejected instead of panicking or exhausting the address space.
+const maxSliceSize = 1 << 40
+
 type sliceDecoder struct {
 	stype             reflect.Type // type of slice
 	elemType          reflect.Type // type of element
@@ -88,7 +92,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			return cursor + 4, nil
 		}
 
-		arrLen, end, err := readLengthInt(buf, cursor-1)
+		_, end, err := readLengthInt(buf, cursor-1)
 		if err != nil {
 			return cursor, err
 		}
@@ -102,7 +106,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		slice := reflect.MakeSlice(d.stype, 0, 0)
 
 		for {
 			if !hasByte(buf, cursor) {
@@ -119,9 +123,16 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			}
 
 			if currentIndex >= slice.Len() {
-				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
-				reflect.Copy(newSlice, slice)
-				slice = newSlice
+				if uint64(currentIndex) >= maxSliceSize/uint64(max(d.size, 1)) {
+					return 0, errors.ErrSyntax("php-serialize: array index is too large", cursor)
+				}
+				if currentIndex >= slice.Cap() {
+					newSlice := reflect.MakeSlice(d.stype, currentIndex+1, max(currentIndex+1, 2*slice.Cap()))
+					reflect.Copy(newSlice, slice)
+					slice = newSlice
+				} else {
+					slice = slice.Slice(0, currentIndex+1)
+				}
 			}
 
 			c, err := d.valueDecoder.Decode(ctx, cursor, depth, slice.Index(currentIndex))
-- 
2.43.0


From c6422a99f4aaeda80e0747e8469b1bbb9d143148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 05/18] fix: compile decoders of recursive slice, map, array
 and pointer types

Types like 'type S []S' or 'type M map[string]M' overflowed the stack.
A decoder is now shared by all occurrences of its type.
---
 internal/decoder/compile.go | 45 ++++++++++++++++++++++++++++---------
 internal/decoder/ptr.go     |  2 +-
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index b352ad2..1d1c893 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -156,11 +156,15 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 }
 
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
-	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
+	ptrDec, err := newPtrDecoder(nil, typ.Elem(), structName, fieldName)
 	if err != nil {
 		return nil, err
 	}
-	return newPtrDecoder(dec, typ.Elem(), structName, fieldName)
+	ptrDec.dec, err = compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
+	if err != nil {
+		return nil, err
+	}
+	return ptrDec, nil
 }
 
 func compileInt(typ reflect.Type, structName, fieldName string) (Decoder, error) {
@@ -224,33 +228,54 @@ func compileBytes(typ reflect.Type, structName, fieldName string) (Decoder, erro
 }
 
 func compileSlice(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
-	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
+	dec := newSliceDecoder(nil, elem, elem.Size(), structName, fieldName)
+	structTypeToDecoder[typ] = dec
+
+	var err error
+	dec.valueDecoder, err = compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newSliceDecoder(decoder, elem, elem.Size(), structName, fieldName), nil
+	return dec, nil
 }
 
 func compileArray(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
-	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
+	dec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
+	structTypeToDecoder[typ] = dec
+
+	var err error
+	dec.valueDecoder, err = compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
+	return dec, nil
 }
 
 func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
-	keyDec, err := compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
+	dec := newMapDecoder(typ, typ.Key(), nil, typ.Elem(), nil, structName, fieldName)
+	structTypeToDecoder[typ] = dec
+
+	var err error
+	dec.keyDecoder, err = compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	valueDec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
+	dec.valueDecoder, err = compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), valueDec, structName, fieldName), nil
+	return dec, nil
 }
 
 func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder, error) {
@@ -319,7 +344,5 @@ func compileStruct(rt reflect.Type, structName, fieldName string, structTypeToDe
 		structDec.fieldMap[set.key] = set
 	}
 
-	delete(structTypeToDecoder, rt)
-
 	return structDec, nil
 }
diff --git a/internal/decoder/ptr.go b/internal/decoder/ptr.go
index 91e68d7..7c78b1a 100644
--- a/internal/decoder/ptr.go
+++ b/internal/decoder/ptr.go
@@ -13,7 +13,7 @@ type ptrDecoder struct {
 	fieldName  string
 }
 
-func newPtrDecoder(dec Decoder, typ reflect.Type, structName, fieldName string) (Decoder, error) {
+func newPtrDecoder(dec Decoder, typ reflect.Type, structName, fieldName string) (*ptrDecoder, error) {
 	if typ.Kind() == reflect.Ptr {
 		return nil, &errors.UnsupportedTypeError{
 			Type: reflect.PointerTo(typ),
-- 
2.43.0


From 7e279459ca451d67cb5aaf488c641e026d764a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 06/18] fix: compile encoders of array types that contain
 themselves

Arrays started a new compilation for their elements, so a type like
'type T struct{C [2]*T}' overflowed the stack.
---
 internal/encoder/array.go   | 30 ++++++++++++++----------------
 internal/encoder/compile.go |  2 +-
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..fad7ace 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,28 +4,25 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
-	var enc encoder
-	var err error
 
-	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
+	enc, compileErr := compile(rt.Elem(), seen)
+	if compileErr != nil {
+		return nil, compileErr
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
-		var err error // create a new error value, so shadow compiler's error
+		var err error
 		for i := 0; i < length; i++ {
 			b = appendIntBytes(b, int64(i))
 			b, err = enc(ctx, b, rv.Index(i))
@@ -35,5 +32,6 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
-- 
2.43.0


From de420f80bb727798287e5090244318e68adc0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 07/18] fix: don't reject acyclic values that share addresses
 as recursive

Slices sharing a backing array, a pointer to the first field of a struct and
(below 1000 levels) any concrete slice in an interface were taken for cycles.
---
 internal/encoder/context.go   | 22 ++++++++++++++++++++--
 internal/encoder/interface.go |  5 ++++-
 internal/encoder/ptr.go       |  4 ++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..7bfdb78 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,34 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[visit]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// visit identifies a pointer, map or slice that is being encoded. An address is
+// not enough: a struct and its first field, or slices with a common backing
+// array, share it without being recursive.
+type visit struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+func newVisit(rv reflect.Value) visit {
+	v := visit{typ: rv.Type(), ptr: rv.UnsafePointer()}
+	if rv.Kind() == reflect.Slice {
+		v.len = rv.Len()
+	}
+	return v
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[visit]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..b1d56d3 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -45,6 +45,9 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
@@ -56,7 +59,7 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
+	ptr := newVisit(rv)
 	if _, seen := ctx.Seen[ptr]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..f29a5a8 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -57,7 +57,7 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		ptr := newVisit(rv)
 		if tracked {
 			_, seen := ctx.Seen[ptr]
 			if seen {
@@ -85,7 +85,7 @@ func checkRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		ptr := newVisit(rv)
 		if tracked {
 			_, seen := ctx.Seen[ptr]
 			if seen {
-- 
2.43.0


From 1d9d8f81858eeffc4411aff05ea4ac1febf340ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 08/18] fix: detect cycles through pointers held by interfaces
 and pointers to arrays

'var x any; x = &x' looped forever and a struct holding a pointer to itself in
an interface field, or a pointer to an array containing it, overflowed the stack.
---
 internal/encoder/interface.go | 44 +++++++++++++++++++----------------
 internal/encoder/ptr.go       |  2 +-
 internal/encoder/struct.go    |  9 ++++---
 3 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index b1d56d3..894ea01 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -14,17 +14,19 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
+		}
+		return reflectInterfaceValue(ctx, b, rv.Elem())
+	case reflect.Ptr:
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return reflectRecursiveValue(ctx, b, rv, func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+			return reflectInterfaceValue(ctx, b, rv.Elem())
+		})
 	}
 
 	// simple type
@@ -76,17 +78,19 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
+		}
+		return reflectInterfaceValueAsString(ctx, b, rv.Elem())
+	case reflect.Ptr:
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return reflectRecursiveValue(ctx, b, rv, func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+			return reflectInterfaceValueAsString(ctx, b, rv.Elem())
+		})
 	}
 
 	switch value := rv.Interface().(type) {
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index f29a5a8..a998907 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -36,7 +36,7 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 		return nil, err
 	}
 
-	return deRefNilEncoder(enc), nil
+	return checkStructRecursiveEncoder(enc), nil
 }
 
 func deRefNilEncoder(enc encoder) encoder {
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..23cbc8f 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -143,9 +143,12 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		} else {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
-					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-					isPtrField = false
+				if err == nil {
+					switch field.Type.Elem().Kind() {
+					case reflect.Struct, reflect.Array, reflect.Interface:
+						fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
+						isPtrField = false
+					}
 				}
 			} else {
 				fieldEncoder, err = compile(field.Type, seen)
-- 
2.43.0


From 923d8c06caf59a2d22480870c2dc3fc831d01dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 09/18] fix: use Marshaler for pointer fields and interface
 values, not for nil pointers

A nil pointer or nil interface with MarshalPHP panicked; MarshalPHP was ignored
for pointer fields with pointer receiver and for values held by an interface.
---
 internal/encoder/interface.go   | 11 +++++++++++
 internal/encoder/marshal_php.go |  8 ++++++++
 internal/encoder/struct.go      |  5 ++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 894ea01..ae192f1 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -20,6 +20,17 @@ func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error)
 			return appendNull(b), nil
 		}
 		return reflectInterfaceValue(ctx, b, rv.Elem())
+	}
+
+	if rv.Type().Implements(marshalerType) {
+		enc, err := compileMarshaler(rv.Type())
+		if err != nil {
+			return b, err
+		}
+		return enc(ctx, b, rv)
+	}
+
+	switch rv.Kind() {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			return appendNull(b), nil
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..0cca709 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,7 +11,15 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
+	if rt.Kind() == reflect.Interface {
+		return compileInterface(rt)
+	}
+
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if rv.Kind() == reflect.Ptr && rv.IsNil() {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 23cbc8f..727de70 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -141,7 +141,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
+			if field.Type.Kind() == reflect.Ptr && field.Type.Implements(marshalerType) {
+				fieldEncoder, err = compileMarshaler(field.Type)
+				isPtrField = false
+			} else if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil {
 					switch field.Type.Elem().Kind() {
-- 
2.43.0


From 7ad4f2b8bef0fc4ea8745c0c4a07320eac6553ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 10/18] fix: encode arrays held by an interface

---
 internal/encoder/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index ae192f1..e461fc1 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -64,7 +64,7 @@ func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error)
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
-	case reflect.Struct:
+	case reflect.Struct, reflect.Array:
 		return reflectStruct(ctx, b, rv)
 	}
 
-- 
2.43.0


From 7a613d8aa9a0b7d138f715c48c86f568b4e8e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 11/18] fix: support the string option on strings and on named
 scalars in interfaces

A string field with the option was encoded but could not be decoded, and an
interface with the option failed to encode strings and named scalar types.
---
 internal/decoder/wrapped_string.go |  2 ++
 internal/encoder/interface.go      | 40 ++++++++++--------------------
 2 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..a341475 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -31,6 +31,8 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 		innerDec = newStringUintDecoder(structName, fieldName, v)
 	case *intDecoder:
 		innerDec = newStringIntDecoder(structName, fieldName, v)
+	case *stringDecoder:
+		return dec, nil
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index e461fc1..108ede1 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -104,33 +104,19 @@ func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte
 		})
 	}
 
-	switch value := rv.Interface().(type) {
-	case bool:
-		return appendBoolAsString(b, value)
-	case uint8:
-		return appendUintAsString(b, uint64(value))
-	case uint16:
-		return appendUintAsString(b, uint64(value))
-	case uint32:
-		return appendUintAsString(b, uint64(value))
-	case uint64:
-		return appendUintAsString(b, uint64(value))
-	case uint:
-		return appendUintAsString(b, uint64(value))
-	case int8:
-		return appendIntAsString(b, int64(value))
-	case int16:
-		return appendIntAsString(b, int64(value))
-	case int32:
-		return appendIntAsString(b, int64(value))
-	case int64:
-		return appendIntAsString(b, int64(value))
-	case int:
-		return appendIntAsString(b, int64(value))
-	case float32:
-		return appendFloat32AsString(ctx.smallBuffer[:0], b, value), nil
-	case float64:
-		return appendFloat64AsString(ctx.smallBuffer[:0], b, value), nil
+	switch rv.Kind() {
+	case reflect.Bool:
+		return encodeBoolAsString(ctx, b, rv)
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
+		return encodeUintAsString(ctx, b, rv)
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
+		return encodeIntAsString(ctx, b, rv)
+	case reflect.Float32:
+		return encodeFloat32AsString(ctx, b, rv)
+	case reflect.Float64:
+		return encodeFloat64AsString(ctx, b, rv)
+	case reflect.String:
+		return encodeString(ctx, b, rv)
 	}
 
 	// slice, map and struct as interface are not supported yet.
-- 
2.43.0


From 0b280f37a1d816c79bb8d2864d687d2042f5a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 12/18] fix: encode fields whose tag names them "-" explicitly

Like encoding/json, only the tag '-' drops a field; '-,' names it "-", which
the decoder already did.
---
 internal/encoder/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 727de70..9065f05 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -112,10 +112,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
-		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
+		cfg := runtime.StructTagFromField(field)
 
 		var fieldEncoder encoder
 		var err error
-- 
2.43.0


From 45ef57444b7eea69a7347af827373134a48c2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 13/18] fix: don't hand out decoded bytes with spare capacity

Appending to a decoded []byte, or to the argument of UnmarshalPHP, overwrote
the neighbouring values decoded from the same input.
---
 internal/decoder/context.go       | 2 +-
 internal/decoder/interface.go     | 2 +-
 internal/decoder/unmarshal_php.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index a880353..fa38673 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -298,7 +298,7 @@ func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 
 	cursor++
 
-	return buf[start:end], cursor, nil
+	return buf[start:end:end], cursor, nil
 }
 
 func readIntegerBytes(buf []byte, cursor int64) ([]byte, int64, error) {
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e1cf67a 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,7 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..89850ac 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From f29aade3805ec3483d818d9c2f481b9b78a7ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 14/18] fix: round float32 values once when decoding

Parsing as float64 and converting rounds twice, so some float32 values
(7.038531e-26) did not survive a round trip.
---
 internal/decoder/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index 27a6a12..aeb56e7 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -60,7 +60,7 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 	case "NAN":
 		f64 = math.NaN()
 	default:
-		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
+		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())
 	}
 	if err != nil {
 		return 0, errors.ErrSyntax(err.Error(), cursor)
-- 
2.43.0


From 946a19622e36220722c958c3295792384411085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 15/18] fix: don't count null as a nesting level

---
 internal/decoder/array.go  | 2 +-
 internal/decoder/map.go    | 2 +-
 internal/decoder/slice.go  | 2 +-
 internal/decoder/struct.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index f4047ba..cb6de43 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -35,7 +35,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("array", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index bfc2ec6..f0716be 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -34,7 +34,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		return 0, errors.ErrUnexpectedEnd("map", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index a14919d..8d6a06c 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -58,7 +58,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("slice", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 4ca1f1b..99b57ea 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -52,7 +52,7 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		return 0, errors.ErrUnexpectedEnd("object", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 	switch buf[cursor] {
-- 
2.43.0


From 281f6aff47a3ca532540a512f3fa522c621df435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 16/18] fix: decode null into a byte slice as nil

Like every other slice, instead of keeping the previous content.
---
 internal/decoder/bytes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/decoder/bytes.go b/internal/decoder/bytes.go
index 3aa3b4e..c4fc7ba 100644
--- a/internal/decoder/bytes.go
+++ b/internal/decoder/bytes.go
@@ -41,6 +41,9 @@ func (d *bytesDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, err
 	}
 	if bytes == nil {
+		if ctx.Buf[cursor] == 'N' {
+			rv.SetZero()
+		}
 		return c, nil
 	}
 	cursor = c
-- 
2.43.0


From 0e9e840e8c53dee65319f3ac1e25c0580634a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 17/18] fix: reject skipped floats that are not numbers

---
 internal/decoder/context.go |  3 +--
 internal/decoder/float.go   | 41 ++++++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index fa38673..21ac44c 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -195,8 +195,7 @@ func skipValue(buf []byte, cursor, depth int64) (int64, error) {
 	case 's':
 		return skipString(buf, cursor)
 	case 'd':
-		_, end, err := readFloatBytes(buf, cursor)
-		return end, err
+		return skipFloat(buf, cursor)
 	case 'i':
 		return skipInt(buf, cursor)
 	case 'b':
diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index aeb56e7..289e7d9 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -1,6 +1,7 @@
 package decoder
 
 import (
+	stderrors "errors"
 	"math"
 	"reflect"
 	"strconv"
@@ -50,18 +51,7 @@ func (d *floatDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 }
 
 func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value) (int64, error) {
-	var f64 float64
-	var err error
-	switch unsafeStr(bytes) {
-	case "INF":
-		f64 = math.Inf(1)
-	case "-INF":
-		f64 = math.Inf(-1)
-	case "NAN":
-		f64 = math.NaN()
-	default:
-		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())
-	}
+	f64, err := parseFloat(bytes, rv.Type().Bits())
 	if err != nil {
 		return 0, errors.ErrSyntax(err.Error(), cursor)
 	}
@@ -74,3 +64,30 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 
 	return cursor, nil
 }
+
+func parseFloat(bytes []byte, bits int) (float64, error) {
+	switch unsafeStr(bytes) {
+	case "INF":
+		return math.Inf(1), nil
+	case "-INF":
+		return math.Inf(-1), nil
+	case "NAN":
+		return math.NaN(), nil
+	}
+	return strconv.ParseFloat(unsafeStr(bytes), bits)
+}
+
+// d:{};
+// the cursor should point to the beginning `d`
+// and it will point to the byte after `;`
+func skipFloat(buf []byte, cursor int64) (int64, error) {
+	bytes, end, err := readFloatBytes(buf, cursor)
+	if err != nil {
+		return end, err
+	}
+	// whether the value is in range doesn't matter if it's not stored
+	if _, err := parseFloat(bytes, 64); stderrors.Is(err, strconv.ErrSyntax) {
+		return cursor, errors.ErrSyntax(err.Error(), cursor)
+	}
+	return end, nil
+}
-- 
2.43.0


From 1a7985366f55021abda5af303ebf1795385da1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 18/18] fix: encode nested structs in linear time and memory

Each struct was built in its own buffer and copied into its parent, 50000
nested structs took 17GB.
---
 internal/encoder/buffer.go | 22 ----------------------
 internal/encoder/struct.go | 37 ++++++++++++++++++-------------------
 2 files changed, 18 insertions(+), 41 deletions(-)
 delete mode 100644 internal/encoder/buffer.go

diff --git a/internal/encoder/buffer.go b/internal/encoder/buffer.go
deleted file mode 100644
index d9d8b02..0000000
--- a/internal/encoder/buffer.go
+++ /dev/null
@@ -1,22 +0,0 @@
-package encoder
-
-import "sync"
-
-type buffer struct {
-	b []byte
-}
-
-var bufferPool = sync.Pool{New: func() any {
-	return &buffer{b: make([]byte, 0, 1024)}
-}}
-
-func newBuffer() *buffer {
-	buf := bufferPool.Get().(*buffer)
-	buf.b = buf.b[:0]
-
-	return buf
-}
-
-func freeBuffer(buf *buffer) {
-	bufferPool.Put(buf)
-}
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 9065f05..543a7c2 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -64,45 +64,44 @@ func compileStructFields(rt reflect.Type, seen compileSeenMap) (encoder, error)
 		// shadow compiler's error
 		var err error
 
-		buf := newBuffer()
-		defer freeBuffer(buf)
-		structBuffer := buf.b
-
+		// decide once which fields are written, the count comes before them
 		var writtenField int64
+		omitted := make([]bool, len(fields))
+		for i, field := range fields {
+			if field.omitEmpty && rv.Field(field.index).IsZero() {
+				omitted[i] = true
+				continue
+			}
+			writtenField++
+		}
 
-	FIELD:
-		for _, field := range fields {
-			v := rv.Field(field.index)
+		b = appendArrayBegin(b, writtenField)
 
-			if field.omitEmpty {
-				if v.IsZero() {
-					continue
-				}
+	FIELD:
+		for i, field := range fields {
+			if omitted[i] {
+				continue
 			}
 
-			writtenField++
+			v := rv.Field(field.index)
 
-			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)
+			b = appendPhpStringVariable(ctx, b, field.fieldName)
 
 			if field.ptr {
 				if v.IsNil() {
-					structBuffer = appendNull(structBuffer)
+					b = appendNull(b)
 					continue FIELD
 				}
 
 				v = v.Elem()
 			}
 
-			structBuffer, err = field.encode(ctx, structBuffer, v)
+			b, err = field.encode(ctx, b, v)
 			if err != nil {
 				return b, err
 			}
 		}
 
-		b = appendArrayBegin(b, writtenField)
-		b = append(b, structBuffer...)
-		buf.b = structBuffer
-
 		return append(b, '}'), nil
 	}, nil
 }
-- 
2.43.0

