From 6282bbcc5da590a578f1c9eb1fa7a9de1a1a3172 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 01/47] fix: encode named integer types with their own
 signedness

A negative value of a named int8..int64 type was written as a huge unsigned
VARINT, and any value of a named unsigned type made Marshal fail.
---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..7b67174 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -498,9 +498,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 0d9ccb522e7bcabc94913dc58371c20f46c83b2e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 02/47] fix: encode a pointer to an interface that holds a
 string

getPointer asked for the address of the unaddressable string, so Marshal failed.
---
 Go/sereal/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7b67174..8fdd158 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -696,6 +696,10 @@ func getPointer(rv reflect.Value) uintptr {
 	case reflect.Ptr:
 		rvptr = rv.Pointer()
 	case reflect.String:
+		if !rv.CanAddr() {
+			// a string held by an interface has no address of its own
+			return 0
+		}
 		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
 		rvptr = ps.Data
 	}
-- 
2.43.0


From 024ee83df6ad8f1e052df4ec491cc1d7c7dfba3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 03/47] fix: mark incremental snappy in v1 documents as
 incremental

The body carried the length prefix of the incremental format while the header
announced plain snappy, so the document could not be decoded.
---
 Go/sereal/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 8fdd158..b00de67 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -168,7 +168,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
+			if e.version == 1 && !c.Incremental {
 				doctype = serealSnappy
 			} else {
 				doctype = serealSnappyIncremental
-- 
2.43.0


From caa413ccab3facfc6597c81a9d1e958f203eef19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 04/47] fix: decode non-negative ZIGZAG integers

Every ZIGZAG value was taken to be negative: zigzag 2, the integer 1, decoded
as -2.
---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..5e7bce7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -479,7 +479,7 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 8132c28ee166ea33af1457c066ad1b8005cd7e89 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 05/47] fix: forget the COPY depth of a failed Unmarshal

A type mismatch inside a COPY is reported by panicking, which skipped the
decrement: from then on the Decoder rejected every document with a COPY.
---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5e7bce7..58d10dc 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -185,6 +185,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	// a panic while decoding a COPY may have left it set
+	d.copyDepth = 0
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From 5fae8dcfd77c4bceccda9541cbfb78ae79b672fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 06/47] fix: do not conflate pointers that merely share an
 address

&s and &s.first, &arr and &arr[0], &str and the address of its prefix, and so
on were all written as references to whichever was met first.
---
 Go/sereal/encode.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index b00de67..cb9c3a3 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,16 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[ptrKey]int
+}
+
+// ptrKey identifies what a pointer refers to. The address is not enough: a
+// struct and its first field, or an array and its first element, share theirs,
+// and so do a string or slice and its own prefixes.
+type ptrKey struct {
+	addr uintptr
+	typ  reflect.Type
+	len  int // of the string or slice that starts at addr
 }
 
 type compressor interface {
@@ -110,7 +119,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -131,7 +140,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -634,12 +643,12 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
+	rvptr := ptrKey{addr: rv.Pointer(), typ: rv.Type()}
 	rvptr2 := getPointer(rv.Elem())
 
 	offs, ok := state.ptrTable[rvptr]
 
-	if !ok && rvptr2 != 0 {
+	if !ok && rvptr2.addr != 0 {
 		offs, ok = state.ptrTable[rvptr2]
 		if ok {
 			rvptr = rvptr2
@@ -655,7 +664,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
+		if rvptr.addr != 0 {
 			state.ptrTable[rvptr] = lenbOrig
 		}
 
@@ -665,7 +674,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return nil, err
 		}
 
-		if rvptr2 != 0 {
+		if rvptr2.addr != 0 {
 			// The thing this this points to starts one after the current pointer
 			state.ptrTable[rvptr2] = lenbOrig + 1
 		}
@@ -684,24 +693,26 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
+func getPointer(rv reflect.Value) ptrKey {
+	var rvptr ptrKey
 
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Map:
+		rvptr = ptrKey{addr: rv.Pointer(), typ: rv.Type()}
+	case reflect.Slice:
+		rvptr = ptrKey{addr: rv.Pointer(), typ: rv.Type(), len: rv.Len()}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
 	case reflect.Ptr:
-		rvptr = rv.Pointer()
+		rvptr = ptrKey{addr: rv.Pointer(), typ: rv.Type()}
 	case reflect.String:
 		if !rv.CanAddr() {
 			// a string held by an interface has no address of its own
-			return 0
+			return rvptr
 		}
 		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		rvptr = ptrKey{addr: ps.Data, typ: rv.Type(), len: ps.Len}
 	}
 
 	return rvptr
-- 
2.43.0


From 48488fd249f55213dda0f61259e2fb2d26fb51e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 07/47] fix: make a repeated pointer refer to its target, not
 to itself

The second of two equal pointers was written as a reference to the first
pointer instead of to what that pointer points to: Perl read [\'x', \\'x']
for []*string{p, p}.
---
 Go/sereal/encode.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index cb9c3a3..1261b6b 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -665,7 +665,10 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		by = append(by, typeREFN)
 
 		if rvptr.addr != 0 {
-			state.ptrTable[rvptr] = lenbOrig
+			// The thing this points to starts one after the current pointer,
+			// which is itself the thing that a pointer to it points to
+			state.ptrTable[rvptr] = lenbOrig + 1
+			state.ptrTable[getPointer(rv)] = lenbOrig
 		}
 
 		var err error
@@ -675,7 +678,6 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 
 		if rvptr2.addr != 0 {
-			// The thing this this points to starts one after the current pointer
 			state.ptrTable[rvptr2] = lenbOrig + 1
 		}
 	}
@@ -705,7 +707,8 @@ func getPointer(rv reflect.Value) ptrKey {
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
 	case reflect.Ptr:
-		rvptr = ptrKey{addr: rv.Pointer(), typ: rv.Type()}
+		// rv is what the pointer being encoded points to, not that pointer
+		rvptr = ptrKey{addr: rv.Pointer(), typ: reflect.PtrTo(rv.Type())}
 	case reflect.String:
 		if !rv.CanAddr() {
 			// a string held by an interface has no address of its own
-- 
2.43.0


From d17a05663318881d92f0e3a5e3f3f7d8bbcfa50f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 08/47] fix: refuse to encode map keys that are not strings

They produced documents that cannot be decoded, or, with PerlCompat, keys like
"<int Value>" for every entry. Keys of a string type that is written in some
other way by itself (json.Number) and strings held by interfaces are written
as strings.
---
 Go/sereal/encode.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 1261b6b..017d4eb 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -567,24 +567,19 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	var err error
+	for _, k := range keys {
+		for k.Kind() == reflect.Interface {
+			k = k.Elem()
+		}
+		if k.Kind() != reflect.String {
+			// Sereal hash keys are strings, nothing else can be decoded
+			return nil, fmt.Errorf("no support for map keys other than strings (%s)", m.Type())
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		by = e.encodeString(by, k.String(), true, state.strTable)
+		if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
-- 
2.43.0


From e266e7272c1ea8fcb7cbc5a6739af95ddb6e3380 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 09/47] fix: let concurrent Marshal calls share the struct tag
 cache

The package-level Marshal uses one Encoder for all callers, whose tag cache
was an unguarded map: concurrent calls with struct values raced and could die
with 'fatal error: concurrent map writes'.
---
 Go/sereal/tagscache.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/Go/sereal/tagscache.go b/Go/sereal/tagscache.go
index 907b39f..5998294 100644
--- a/Go/sereal/tagscache.go
+++ b/Go/sereal/tagscache.go
@@ -1,8 +1,12 @@
 package sereal
 
-import "reflect"
+import (
+	"reflect"
+	"sync"
+)
 
 type tagsCache struct {
+	mu   sync.RWMutex // Marshal shares one encoder between all its callers
 	cmap map[reflect.Type]map[string]int
 }
 
@@ -11,16 +15,15 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		return nil
 	}
 
-	if tc.cmap == nil {
-		tc.cmap = make(map[reflect.Type]map[string]int)
-	}
-
 	ptrType := ptr.Type()
-	if m, ok := tc.cmap[ptrType]; ok {
+	tc.mu.RLock()
+	m, ok := tc.cmap[ptrType]
+	tc.mu.RUnlock()
+	if ok {
 		return m
 	}
 
-	m := make(map[string]int)
+	m = make(map[string]int)
 
 	l := ptrType.NumField()
 	for i := 0; i < l; i++ {
@@ -46,6 +49,12 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		m = nil
 	}
 
+	tc.mu.Lock()
+	if tc.cmap == nil {
+		tc.cmap = make(map[reflect.Type]map[string]int)
+	}
 	tc.cmap[ptrType] = m
+	tc.mu.Unlock()
+
 	return m
 }
-- 
2.43.0


From ef0c5fe0a472b4ca93eeeef1cde2c4fe206e212e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 10/47] fix: encode a PerlFreeze as the frozen object it was
 decoded from

It was written as a plain object of class "PerlFreeze".
---
 Go/sereal/encode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 017d4eb..aa91ef1 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -287,6 +287,14 @@ func (e *Encoder) encode(b []byte, v interface{}, isKeyOrClass bool, isRefNext b
 		b = e.encodeBytes(b, value.Pattern, false, state.strTable)
 		b = e.encodeBytes(b, value.Modifiers, false, state.strTable)
 
+	case PerlFreeze:
+		b = append(b, typeOBJECT_FREEZE)
+		b = e.encodeString(b, value.Class, true, state.strTable)
+		b = append(b, typeREFN)
+		b = append(b, typeARRAY)
+		b = varint(b, uint(1))
+		b = e.encodeBytes(b, value.Data, false, state.strTable)
+
 	case PerlWeakRef:
 		b = append(b, typeWEAKEN)
 		b, err = e.encode(b, value.Reference, false, false, state, remainingDepth)
@@ -633,6 +641,8 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		case PerlObject:
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
+		case PerlFreeze:
+			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		case PerlWeakRef:
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		}
-- 
2.43.0


From ab2843a1ac78b0b7dceaaf2e15b1efb2eb5b6dd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 11/47] fix: do not panic on odd header suffix lengths

A length with its top bit set, or an empty suffix whose length is not written
in one byte, made Unmarshal, UnmarshalHeader and Merger.Append panic.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 58d10dc..c98dfa4 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 || ln > math.MaxInt32 {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -204,7 +208,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && header.suffixStart < bodyStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From 4535e193519e2fc0713f3335d31f561aec05f4be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 12/47] fix: do not allocate whatever a zlib document claims to
 need

The claimed length of the uncompressed body was allocated unchecked: a few
bytes of input could panic (makeslice) or exhaust the memory.
---
 Go/sereal/zlib_purego.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Go/sereal/zlib_purego.go b/Go/sereal/zlib_purego.go
index d5f76c4..9ad0899 100644
--- a/Go/sereal/zlib_purego.go
+++ b/Go/sereal/zlib_purego.go
@@ -7,6 +7,9 @@ import (
 	"sync"
 )
 
+// maxZlibRatio is more than deflate can ever compress by
+const maxZlibRatio = 1040
+
 var zlibWriterPools = make(map[int]*sync.Pool)
 
 func init() {
@@ -53,6 +56,11 @@ func zlibDecode(uln int, buf []byte) ([]byte, error) {
 	}
 	defer zr.Close()
 
+	// uln comes from the document: only trust it as far as zlib can deliver
+	if maxLen := len(buf) * maxZlibRatio; uln < 0 || uln > maxLen {
+		uln = maxLen
+	}
+
 	dec := bytes.NewBuffer(make([]byte, 0, uln))
 	_, err = dec.ReadFrom(zr)
 	if err != nil {
-- 
2.43.0


From 5e21dd67f24ee6a3bf8e92edc87a8c53a0b26789 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 13/47] fix: decode frozen objects with PerlCompat

The REFN around their array becomes a pointer in this mode, which was taken
for a corrupt document.
---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c98dfa4..0505bd0 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1151,6 +1151,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	}
 
 	wrapper, ok := iface.([]interface{})
+	if pwrapper, isRef := iface.(*[]interface{}); isRef {
+		wrapper, ok = *pwrapper, true // the REFN, with PerlCompat
+	}
 	if !ok {
 		return 0, ErrCorrupt{errFreezeNotArray}
 	}
-- 
2.43.0


From eec5d8d3dba2a614af446dc40914081d13dc91e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 14/47] fix: decode references to undef and to what is still
 being decoded

Without PerlCompat a tracked undef, which every document with two references
to one undef has, and a cycle through an interface made Unmarshal fail.
---
 Go/sereal/decode.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 0505bd0..18142a5 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -862,7 +862,11 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 			return 0, err
 
 		}
-		ptr.Set(val.Elem())
+		val = val.Elem()
+		if !val.IsValid() || val.Kind() == reflect.Interface && val.IsNil() {
+			val = reflect.Zero(ptr.Type()) // undef
+		}
+		ptr.Set(val)
 
 	case tag == typeWEAKEN:
 		if d.PerlCompat {
@@ -1058,7 +1062,12 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 
 		if isREFP {
 			rvData := rv.Elem().Elem()
-			if d.DisableReferentialIntegrity {
+			if !rvData.IsValid() {
+				// undef, or something that is still being decoded
+				if res = rv; d.DisableReferentialIntegrity {
+					res = rv.Elem()
+				}
+			} else if d.DisableReferentialIntegrity {
 				res = rvData
 			} else {
 				res = reflect.New(rvData.Type())
-- 
2.43.0


From 03b14f95a65e76c93acbe8a0a8150fc1023ab542 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 15/47] fix: decode an object that refers to itself into an
 interface

The interface was only filled once the object was complete, so the reference
found nothing: Unmarshal failed for what Marshal makes of a cyclic struct.
---
 Go/sereal/decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 18142a5..f20690f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -703,6 +703,13 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 
 	// at this point structure of decoding document is uknown, make a shortcut
 	if ptrKind == reflect.Interface && ptr.IsNil() {
+		if ptr.CanAddr() {
+			if p, ok := ptr.Addr().Interface().(*interface{}); ok {
+				// no detour: a reference back to here has to see its value
+				return d.decode(by, idx, p)
+			}
+		}
+
 		var iface interface{}
 		var err error
 		idx, err = d.decode(by, idx, &iface)
-- 
2.43.0


From a59951031c5bf9f96cfd18524caf6c098318fb5f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 16/47] fix: decode a COPY of a value whose keys or class names
 are COPY tags

The specification explicitly allows it.
---
 Go/sereal/decode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index f20690f..90a9563 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -647,7 +647,8 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		// a key or class name of a copied value may be a COPY itself
+		if d.copyDepth > 1 {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -660,9 +661,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
+		d.copyDepth += 2
 		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		d.copyDepth -= 2
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From a565fa1673f3a50fb3968e7a4ff58396eb6ee858 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 17/47] fix: do not panic when decompressing an empty body into
 a buffer

DecompressDocument looked at the last element of a slice without any.
---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 90a9563..9a88edb 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1398,6 +1398,10 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 // hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
+
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From 8851bcbe79115356b678daad11950ae06fdfa41f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 18/47] fix: do not let a decoded PerlRegexp share memory with
 its document

Reusing the input buffer changed the pattern and modifiers, unlike any other
decoded value.
---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 9a88edb..7243a64 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -688,8 +688,8 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	// decodeStringish returns slices of by, which is the caller's to reuse
+	return &PerlRegexp{append([]byte{}, pattern...), append([]byte{}, modifiers...)}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From c5aa2e4d96df0bc4eec64ba9eb7346065e94caa6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 19/47] fix: decode into maps whose keys are of a named string
 type

Marshal accepts such maps, Unmarshal failed on them.
---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 7243a64..b11b9a7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -971,6 +971,9 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			}
 
 			keyValue := reflect.ValueOf(string(key))
+			if keyType := ptr.Type().Key(); keyType.Kind() == reflect.String {
+				keyValue = keyValue.Convert(keyType)
+			}
 			if value := ptr.MapIndex(keyValue); value.IsValid() {
 				// strkey exists in map, replace its content but respect structure
 				idx, err = d.decodeViaReflection(by, idx, value)
-- 
2.43.0


From aa60166fde62646932dfb87c4c54684aa1afd5de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 20/47] fix: decode into maps that already have the key

The present value was decoded into directly, which does not work for values
in a map: Unmarshal into a map[string]int with that key failed, and so did a
document in which a key occurs twice.
---
 Go/sereal/decode.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index b11b9a7..1502f63 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -974,23 +974,18 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			if keyType := ptr.Type().Key(); keyType.Kind() == reflect.String {
 				keyValue = keyValue.Convert(keyType)
 			}
-			if value := ptr.MapIndex(keyValue); value.IsValid() {
+			riface := reflect.New(ptr.Type().Elem())
+			if value := ptr.MapIndex(keyValue); value.IsValid() && value.Kind() != reflect.Interface {
 				// strkey exists in map, replace its content but respect structure
-				idx, err = d.decodeViaReflection(by, idx, value)
-			} else {
-				// there is no strkey in map, crete a new one
-				riface := reflect.New(ptr.Type().Elem())
-				idx, err = d.decodeViaReflection(by, idx, riface.Elem())
-				if err != nil {
-					return 0, err
-				}
-
-				ptr.SetMapIndex(keyValue, riface.Elem())
+				riface.Elem().Set(value)
 			}
 
+			idx, err = d.decodeViaReflection(by, idx, riface.Elem())
 			if err != nil {
 				return 0, err
 			}
+
+			ptr.SetMapIndex(keyValue, riface.Elem())
 		}
 
 	case reflect.Ptr:
-- 
2.43.0


From 5e60433ebd235880a895cdff886fa3bf773eb660 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 21/47] fix: do not allocate whatever a snappy document claims
 to need

Five bytes of body could make the decoder allocate 4 GB.
---
 Go/sereal/snappy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..57b80b6 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -48,6 +48,14 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	// the length comes from the document: only trust it as far as snappy,
+	// whose copy elements are 2 to 5 bytes for at most 64, can deliver
+	if ln, err := snappy.DecodedLen(b); err != nil {
+		return nil, err
+	} else if ln/64 > len(b) {
+		return nil, snappy.ErrCorrupt
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From afd1c7b41cbea3590db5a274c7e27a53915b92be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 22/47] fix: let nested containers share the bytes that are
 left

Each could claim all remaining bytes for its own elements, so that allocations
grew with the square of the document: 100 KB could ask for 40 GB.
---
 Go/sereal/decode.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 1502f63..817d591 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -83,6 +83,7 @@ type Decoder struct {
 	umcache   map[string]reflect.Type
 	tcache    tagsCache
 	copyDepth int
+	pending   int // items that the containers being decoded still have to come
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -189,8 +190,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
-	// a panic while decoding a COPY may have left it set
+	// a panic or an error may have left them set
 	d.copyDepth = 0
+	d.pending = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -415,9 +417,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0
 		d.copyDepth++
 		_, err = d.decode(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		if d.PerlCompat {
@@ -512,7 +517,7 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
+	if idx+2*ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -524,8 +529,12 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 		*ptr = hash
 	}
 
+	d.pending += 2 * ln
+
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending -= 2
+
 		var key []byte
 		key, idx, err = d.decodeStringish(by, idx)
 		if err != nil {
@@ -549,7 +558,7 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
+	if idx+ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -568,8 +577,11 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 		*ptr = slice
 	}
 
+	d.pending += ln
+
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending--
 		idx, err = d.decode(by, idx, &slice[i])
 		if err != nil {
 			return 0, err
@@ -857,9 +869,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0
 		d.copyDepth++
 		_, err = d.decodeViaReflection(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		idx, err = d.decodeViaReflection(by, idx, ptr)
@@ -910,7 +925,7 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
+	if idx+ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -927,10 +942,13 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 		return 0, &reflect.ValueError{Method: "sereal.decodeArrayViaReflection", Kind: ptr.Kind()}
 	}
 
+	d.pending += ln
+
 	var err error
 	ptrLen := ptr.Len()
 
 	for i := 0; i < ln; i++ {
+		d.pending--
 		if i < ptrLen {
 			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
 		} else {
@@ -952,7 +970,7 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
+	if idx+2*ln+d.pending > len(by) {
 		return 0, ErrTruncated
 	}
 
@@ -962,8 +980,12 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			ptr.Set(reflect.MakeMap(ptr.Type()))
 		}
 
+		d.pending += 2 * ln
+
 		var err error
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
+
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
@@ -997,8 +1019,12 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		return d.decodeHashViaReflection(by, idx, ln, ptr.Elem())
 	case reflect.Struct:
 		tags := d.tcache.Get(ptr)
+		d.pending += 2 * ln
+
 		var err error
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
+
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
-- 
2.43.0


From f697ffc177ab0abd5202cf17b8aeb1c0aca5f159 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 23/47] fix: report documents that nest too deep instead of
 crashing

One byte per level is enough to nest, so that a document of a few megabytes
exhausted the stack, which no recover can catch.
---
 Go/sereal/decode.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 817d591..f07c946 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -84,6 +84,7 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 	pending   int // items that the containers being decoded still have to come
+	depth     int // nesting of the item being decoded
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -91,6 +92,10 @@ type Decoder struct {
 	DisableReferentialIntegrity bool
 }
 
+// maxDecodeDepth limits how deep the items of a document can nest: running out
+// of stack is not an error that a Go program could handle
+const maxDecodeDepth = 1 << 18
+
 type decompressor interface {
 	decompress(d, b []byte) ([]byte, error)
 }
@@ -193,6 +198,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 	// a panic or an error may have left them set
 	d.copyDepth = 0
 	d.pending = 0
+	d.depth = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -279,6 +285,10 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		return 0, ErrTruncated
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 
 	// skip over any padding bytes
@@ -474,6 +484,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	}
 
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
+	d.depth--
 	return idx, err
 }
 
@@ -732,6 +743,10 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return idx, err
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 	for tag == typePAD || tag == typePAD|trackFlag {
 		idx++
@@ -917,6 +932,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	d.depth--
 	return idx, err
 }
 
-- 
2.43.0


From 294b1669aeb550ed9dc6c50491e85259232a3fb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 24/47] fix: bound the pointer types made up for chains of Perl
 references

PerlCompat created a new type for each level of a REFN chain: a document of
100 KB took gigabytes, which are never freed, for their names.
---
 Go/sereal/decode.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index f07c946..a567f11 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -96,6 +96,10 @@ type Decoder struct {
 // of stack is not an error that a Go program could handle
 const maxDecodeDepth = 1 << 18
 
+// maxPointerDepth limits the number of stars in the types that are made up for
+// chains of Perl references; beyond that, *interface{} is used
+const maxPointerDepth = 64
+
 type decompressor interface {
 	decompress(d, b []byte) ([]byte, error)
 }
@@ -444,10 +448,14 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 				// otherwise let ptr be pointer to something (i.e. *interface{})
 				riface := reflect.ValueOf(iface)
 
-				// reflect.New create value of type *riface.Type())
-				val := reflect.New(riface.Type())
-				val.Elem().Set(riface)
-				*ptr = val.Interface()
+				// the types are created for good, and the names of *T, **T, ***T
+				// and so on add up to the square of their number
+				if riface.IsValid() && pointerDepth(riface.Type()) < maxPointerDepth {
+					// reflect.New create value of type *riface.Type())
+					val := reflect.New(riface.Type())
+					val.Elem().Set(riface)
+					*ptr = val.Interface()
+				}
 			}
 		} else {
 			idx, err = d.decode(by, idx, ptr)
@@ -488,6 +496,14 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	return idx, err
 }
 
+func pointerDepth(typ reflect.Type) int {
+	n := 0
+	for ; typ.Kind() == reflect.Ptr; typ = typ.Elem() {
+		n++
+	}
+	return n
+}
+
 func (d *Decoder) decodeInt(tag byte) int {
 	if (tag & 0x10) == 0x10 {
 		return int(tag) - 32 // negative number
@@ -1117,6 +1133,8 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 				}
 			} else if d.DisableReferentialIntegrity {
 				res = rvData
+			} else if pointerDepth(rvData.Type()) >= maxPointerDepth {
+				res = rv
 			} else {
 				res = reflect.New(rvData.Type())
 				res.Elem().Set(rvData)
-- 
2.43.0


From 74ba93dac6b92393b4ed1dc74fc4d205429bb5ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 25/47] fix: recognise a map or slice while it is being encoded

Data decoded with PerlCompat refers back to an enclosing container through a
pointer of its own. The container was only known once it was complete, so a
cycle was written unrolled, with an unblessed copy of an object's data.
---
 Go/sereal/encode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index aa91ef1..5beeff1 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -676,15 +676,15 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			state.ptrTable[getPointer(rv)] = lenbOrig
 		}
 
+		if rvptr2.addr != 0 {
+			state.ptrTable[rvptr2] = lenbOrig + 1
+		}
+
 		var err error
 		by, err = e.encode(by, rv.Elem(), false, true, state, remainingDepth)
 		if err != nil {
 			return nil, err
 		}
-
-		if rvptr2.addr != 0 {
-			state.ptrTable[rvptr2] = lenbOrig + 1
-		}
 	}
 
 	return by, nil
-- 
2.43.0


From 4288c3d8bf3c2e8bbf93f52dca7104d3d47d342b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 26/47] fix: merge regexps without modifiers and empty class
 names

An empty SHORT_BINARY was read as a string with a varint length.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..6488163 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -631,7 +631,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From 546b0a663fe4b513125491d52a2c47e37f8f0226 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 27/47] fix: set the track flag on the target when merging

Offsets count from the body, but the flag was set that many bytes into the
document: it corrupted whatever was there, such as the text of a string.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 6488163..84d41ec 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -493,7 +493,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[targetOffset+m.bodyOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From ff0795860372a7d35634576849e7086f50bddf79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 28/47] fix: finish merged documents that compression makes
 longer

The compressed body was cut off at the length of the uncompressed one, or
Finish panicked.
---
 Go/sereal/merge.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 84d41ec..1c562b3 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -217,10 +217,6 @@ func (m *Merger) Finish() ([]byte, error) {
 				return m.buf, err
 			}
 
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
-
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
 			switch comp := m.Compression.(type) {
@@ -241,6 +237,9 @@ func (m *Merger) Finish() ([]byte, error) {
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
 		}
 	}
 
-- 
2.43.0


From 8ed45684e5b4dc09c4fb21f2c44b2a20313c2927 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 29/47] fix: do not merge documents of unsupported versions and
 types

The error was ignored and the compressed body taken for a plain one.
---
 Go/sereal/merge.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 1c562b3..de81922 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,7 +157,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
@@ -170,6 +170,9 @@ func (m *Merger) Append(b []byte) (int, error) {
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From 477c586fc508ab668efccf3209641ac14fcc8133 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 30/47] fix: merge references to the immediately preceding byte

Offsets count from 1, indexes from 0.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index de81922..1606db7 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -320,7 +320,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if offset < 0 || offset+doc.bodyOffset >= idx {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-- 
2.43.0


From 9756cd4d053eb110ed0ce436edd0611c96ca0546 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 31/47] fix: merge version 1 documents that contain offsets

Before version 2, offsets counted from the start of the document.
---
 Go/sereal/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 1606db7..9c26a97 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -169,6 +169,10 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if docHeader.version == 1 {
+		doc.bodyOffset = -(headerSize + docHeader.suffixSize) // offsets count from the header
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From fbb3d695504e085558c189dd3d992cd03c36e0d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 32/47] fix: do not panic on truncated documents when merging

---
 Go/sereal/merge.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 9c26a97..c1ff100 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -162,6 +162,10 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, err
 	}
 
+	if headerSize+docHeader.suffixSize > len(b) {
+		return 0, ErrCorrupt{errBadOffset}
+	}
+
 	doc := mergerDoc{
 		buf:        b[headerSize+docHeader.suffixSize:],
 		version:    int(docHeader.version),
@@ -349,6 +353,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		}
 	}
 
+	if idx > len(buf) {
+		return ErrTruncated
+	}
+
 	for idx := range doc.trackTable {
 		doc.trackIdxs = append(doc.trackIdxs, idx)
 	}
@@ -366,7 +374,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -510,7 +518,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf) {
 				return errors.New("bad array or hash length")
 			}
 
@@ -600,7 +608,7 @@ LOOP:
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
+	if m.KeepFlat && len(b) > 1 {
 		tag0 := b[0] &^ trackFlag
 		tag1 := b[1] &^ trackFlag
 
@@ -629,6 +637,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From 23138011759ddc9ab44fe0c3d5aa1b02cc91f6c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 33/47] fix: do not merge documents that end inside a container

Its missing elements were taken from the documents appended later.
---
 Go/sereal/merge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index c1ff100..b430f46 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -602,6 +602,12 @@ LOOP:
 		}
 	}
 
+	for _, n := range stack {
+		if n&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
-- 
2.43.0


From 53453ac491e57d7ecac6b69fa07b3fd2cebb0887 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 34/47] fix: do not merge text strings into binary ones

Strings were deduplicated by their bytes alone, so that a byte string became a
copy of an equal text string or the other way round.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index b430f46..7903dd9 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -476,7 +476,7 @@ LOOP:
 			}
 
 			if dedupString {
-				val := dbuf[didx+sz+1 : didx+length]
+				val := dbuf[didx : didx+length] // with its tag: text and binary differ
 				if savedOffset, ok := m.strTable[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
-- 
2.43.0


From a2229f8298d0a19df178263cf735593bad58f98d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 35/47] fix: forget the strings of a document that could not be
 merged

Documents appended later referred to strings that had been removed again.
---
 Go/sereal/merge.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 7903dd9..ae2129e 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -206,6 +206,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		m.forgetStrings(lastElementOffset - m.bodyOffset)
 		return 0, err
 	}
 
@@ -613,6 +614,17 @@ LOOP:
 	return nil
 }
 
+// forgetStrings removes what has been remembered about the document from offset on
+func (m *Merger) forgetStrings(offset int) {
+	for _, table := range []map[string]int{m.strTable, m.objTable} {
+		for str, savedOffset := range table {
+			if savedOffset >= offset {
+				delete(table, str)
+			}
+		}
+	}
+}
+
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
 	if m.KeepFlat && len(b) > 1 {
 		tag0 := b[0] &^ trackFlag
-- 
2.43.0


From 46755dcfc574d8e8388303a9f8625f00d4b4cad5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 36/47] fix: merge references to objects and their class names

A reference to an OBJECT tag (as written by Marshal for pointers to structs)
was redirected to the class name, one to a class name (OBJECTV; COPY, for a key
equal to it) was refused, and so was a class name that is a COPY of a key (as
written by Marshal for the second struct of a type).
---
 Go/sereal/merge.go | 51 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index ae2129e..5a8de04 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -396,6 +396,10 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
+		classOffset := 0 // of the class name in the merged document, for objects
+		for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] < docRelativeIdx {
+			doc.trackIdxs = doc.trackIdxs[1:] // inside an item, cannot be referred to
+		}
 		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
@@ -561,12 +565,12 @@ LOOP:
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := readString(dbuf[didx+1:])
+			offset, str, err := doc.readClassName(didx + 1)
 			if err != nil {
 				return err
 			}
 
-			length := offset + len(str) + 1 // respect typeOBJECT tag
+			length := offset + 1 // respect typeOBJECT tag
 			if savedOffset, ok := m.objTable[string(str)]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
@@ -574,12 +578,13 @@ LOOP:
 					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
 				}
 
-				mrgRelativeIdx = savedOffset
+				classOffset = savedOffset
 			} else {
 				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
-				mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				classOffset = mrgRelativeIdx + 1
+				m.objTable[string(str)] = classOffset
+				mbuf = append(mbuf, dbuf[didx])
+				mbuf = append(mbuf, str...)
 			}
 
 			// parse <ITEM-TAG>
@@ -601,6 +606,11 @@ LOOP:
 			doc.trackTable[docRelativeIdx] = mrgRelativeIdx
 			doc.trackIdxs = doc.trackIdxs[1:]
 		}
+
+		if classOffset != 0 && len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx+1 {
+			doc.trackTable[docRelativeIdx+1] = classOffset
+			doc.trackIdxs = doc.trackIdxs[1:]
+		}
 	}
 
 	for _, n := range stack {
@@ -650,6 +660,35 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 	return 1, 0, nil // by default expect only one element
 }
 
+// readClassName reads the class name at idx, which may be a COPY of an earlier
+// string. It returns the number of bytes at idx and the string with its tag.
+func (doc *mergerDoc) readClassName(idx int) (int, []byte, error) {
+	strIdx, size := idx, 0
+
+	if idx < len(doc.buf) && doc.buf[idx]&^trackFlag == typeCOPY {
+		offset, sz, err := varintdecode(doc.buf[idx+1:])
+		if err != nil {
+			return 0, nil, err
+		}
+
+		strIdx, size = offset+doc.bodyOffset, sz+1
+		if strIdx < 0 || strIdx >= idx {
+			return 0, nil, ErrCorrupt{errBadOffset}
+		}
+	}
+
+	offset, str, err := readString(doc.buf[strIdx:])
+	if err != nil {
+		return 0, nil, err
+	}
+
+	if strIdx == idx {
+		size = offset + len(str)
+	}
+
+	return size, doc.buf[strIdx : strIdx+offset+len(str)], nil
+}
+
 func isShallowStringish(tag byte) bool {
 	return tag == typeBINARY || tag == typeSTR_UTF8 || (tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32)
 }
-- 
2.43.0


From cfae0e22b9f1666bba132fdf78870d55c7907a2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 37/47] fix: decode header data that contains offsets

---
 Go/sereal/decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index a567f11..0e7161f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -231,10 +231,11 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			// offsets in the user data are 1-based, too: the flags come first
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(b[header.suffixStart:bodyStart], 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(b[header.suffixStart:bodyStart], 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From a2face10739996cae86c0eaf41e41a883699305a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 38/47] fix: reject class names that lie ahead of their object

---
 Go/sereal/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 0e7161f..6ebbe43 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1167,6 +1167,9 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
@@ -1202,6 +1205,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 		if err != nil {
-- 
2.43.0


From 8b579e5eb0328a4df5b7de52c73ee6bb92c397bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 39/47] fix: let references lead to the original of an item
 that has been copied

---
 Go/sereal/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 6ebbe43..7b97634 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -309,7 +309,9 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	trackme := (tag & trackFlag) == trackFlag
 	if trackme {
 		tag &^= trackFlag
-		d.tracked[idx] = reflect.ValueOf(ptr)
+		if d.copyDepth == 0 { // offsets refer to the original
+			d.tracked[idx] = reflect.ValueOf(ptr)
+		}
 	}
 
 	//fmt.Printf("start decode: tag %d (0x%x) at %d\n", int(tag), int(tag), idx)
@@ -776,7 +778,9 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 
 	if (tag & trackFlag) == trackFlag {
 		tag &^= trackFlag
-		d.tracked[idx] = ptr
+		if d.copyDepth == 0 { // offsets refer to the original
+			d.tracked[idx] = ptr
+		}
 	}
 
 	//fmt.Printf("start decodeViaReflection: tag %d (0x%x) at %d\n", int(tag), int(tag), idx)
-- 
2.43.0


From a6c945c61a7d07fcfc5d27a67a45a978672de87a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 40/47] fix: report the failure of Merger.Finish each time

---
 Go/sereal/merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 5a8de04..c9f1d04 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -220,7 +220,6 @@ func (m *Merger) Finish() ([]byte, error) {
 	}
 
 	if !m.finished {
-		m.finished = true
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
@@ -253,6 +252,8 @@ func (m *Merger) Finish() ([]byte, error) {
 			// TODO think about some optimizations here
 			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
 		}
+
+		m.finished = true
 	}
 
 	return m.buf, nil
-- 
2.43.0


From 1cc62a00165e3c9c35abcd21bd6b14d8b084b23d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 41/47] fix: flatten an empty array reference when merging

---
 Go/sereal/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index c9f1d04..cf32431 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -637,9 +637,8 @@ func (m *Merger) forgetStrings(offset int) {
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat && len(b) > 1 {
+	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -649,7 +648,7 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 			}
 
 		case TopLevelArrayRef:
-			if tag0 == typeREFN && tag1 == typeARRAY {
+			if tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY {
 				ln, sz, err := varintdecode(b[2:])
 				return ln, sz + 2, err
 			} else if tag0 >= typeARRAYREF_0 && tag0 < typeARRAYREF_0+16 {
-- 
2.43.0


From 4a63cba764077a6cc9ad748e835412ef593beab3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 42/47] fix: keep strings that are referred to apart when
 merging

---
 Go/sereal/merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index cf32431..fd5f592 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -481,7 +481,8 @@ LOOP:
 				return fmt.Errorf("truncated document, expect %d bytes", len(dbuf)-didx-length)
 			}
 
-			if dedupString {
+			// a string that is referred to has to stay an item of its own
+			if dedupString && dbuf[didx]&trackFlag == 0 {
 				val := dbuf[didx : didx+length] // with its tag: text and binary differ
 				if savedOffset, ok := m.strTable[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
-- 
2.43.0


From 50a8ec467bdc44ddeb7e01ec50cb4da8f90876ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 43/47] fix: do not panic when a merger expects few bytes

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index fd5f592..22630e8 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -104,7 +104,7 @@ func (m *Merger) initMerger() error {
 	m.strTable = make(map[string]int)
 	m.objTable = make(map[string]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From 6d532fd81ddbc6198e77abe505968701f897500b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 44/47] fix: merge regexps whose strings are copies or are
 copied

---
 Go/sereal/merge.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 22630e8..f499226 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -550,24 +550,27 @@ LOOP:
 			}
 
 		case tag == typeREGEXP:
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
-			}
+			mbuf = append(mbuf, dbuf[didx])
+			didx++
 
-			sizeToCopy := offset + len(str) + 1
-			offset, str, err = readString(dbuf[didx+sizeToCopy:])
-			if err != nil {
-				return err
-			}
+			// pattern and modifiers
+			for i := 0; i < 2; i++ {
+				size, str, err := doc.readStringTag(didx)
+				if err != nil {
+					return err
+				}
 
-			sizeToCopy += offset + len(str)
-			mbuf = append(mbuf, dbuf[didx:didx+sizeToCopy]...)
-			didx += sizeToCopy
+				if _, ok := doc.trackTable[didx-doc.bodyOffset]; ok {
+					doc.trackTable[didx-doc.bodyOffset] = len(mbuf) - m.bodyOffset
+				}
+
+				mbuf = append(mbuf, str...)
+				didx += size
+			}
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := doc.readClassName(didx + 1)
+			offset, str, err := doc.readStringTag(didx + 1)
 			if err != nil {
 				return err
 			}
@@ -661,9 +664,9 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 	return 1, 0, nil // by default expect only one element
 }
 
-// readClassName reads the class name at idx, which may be a COPY of an earlier
-// string. It returns the number of bytes at idx and the string with its tag.
-func (doc *mergerDoc) readClassName(idx int) (int, []byte, error) {
+// readStringTag reads the string at idx, which may be a COPY of an earlier one.
+// It returns the number of bytes at idx and the string with its tag.
+func (doc *mergerDoc) readStringTag(idx int) (int, []byte, error) {
 	strIdx, size := idx, 0
 
 	if idx < len(doc.buf) && doc.buf[idx]&^trackFlag == typeCOPY {
-- 
2.43.0


From 4677479c7ba0095554a26f519c8fdda1479a4ec3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 45/47] fix: do not put copies into what is copied when merging

---
 Go/sereal/merge.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index f499226..0234439 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -67,6 +67,10 @@ type mergerDoc struct {
 	version    int
 	startIdx   int // 0-based
 	bodyOffset int // 1-based
+
+	// copiesItems is set if there are copies of more than strings; the
+	// values of such a document cannot become copies, as COPY does not nest
+	copiesItems bool
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -334,6 +338,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
+			if target := offset + doc.bodyOffset; tag == typeCOPY && target >= 0 && !isShallowStringish(buf[target]&^trackFlag) {
+				doc.copiesItems = true
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -417,7 +425,7 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
-		dedupString := m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		dedupString := (m.DedupeStrings && !doc.copiesItems) || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
-- 
2.43.0


From b02fc28711f0ebf672c0257a681199ec562fc410 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 46/47] fix: let RegisterName take values of types with
 UnmarshalBinary

---
 Go/sereal/decode.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 7b97634..d228a3f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1386,9 +1386,9 @@ func (d *Decoder) RegisterName(name string, value interface{}) {
 		return
 	}
 
-	prv := rv.Addr()
-	if _, ok := prv.Interface().(encoding.BinaryUnmarshaler); ok {
-		d.umcache[name] = prv.Type()
+	ptyp := reflect.PtrTo(rv.Type())
+	if _, ok := reflect.Zero(ptyp).Interface().(encoding.BinaryUnmarshaler); ok {
+		d.umcache[name] = ptyp
 		return
 	}
 
@@ -1409,8 +1409,7 @@ func instantiateZero(typ reflect.Type) reflect.Value {
 		return reflect.New(typ.Elem())
 	}
 
-	v := reflect.New(typ)
-	return v.Addr()
+	return reflect.New(typ)
 }
 
 // DecompressDocument changes the compression type of a Sereal document without performing a full re-serialization
-- 
2.43.0


From e3ce2a6003bf74648235e329c3a84accbfbe8273 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 47/47] fix: zstd: panic on frames that claim to be empty

---
 Go/sereal/zstd_cgo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/zstd_cgo.go b/Go/sereal/zstd_cgo.go
index bc6a245..501909f 100644
--- a/Go/sereal/zstd_cgo.go
+++ b/Go/sereal/zstd_cgo.go
@@ -12,6 +12,12 @@ func zstdEncode(buf []byte, level int) ([]byte, error) {
 }
 
 func zstdDecode(d, buf []byte) ([]byte, error) {
+	if cap(d) == 0 {
+		// the library takes the address of the first byte of its buffer, and
+		// makes one without bytes for a frame that says that it is empty
+		d = make([]byte, 1)
+	}
+
 	dst, err := zstd.Decompress(d, buf)
 	return dst, err
 }
-- 
2.43.0

