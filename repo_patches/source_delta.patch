From 865982928283e8a9e7ce85c89fbff2b80a52b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 01/41] fix: unlock the codec when a type turns out to be
 unsupported

---
 codec.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..845561a 100644
--- a/codec.go
+++ b/codec.go
@@ -382,8 +382,18 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 			return
 		}
 
-		info = cdc.newTypeInfoUnregistered(rt)
-		cdc.setTypeInfoNolock(info)
+		func() {
+			// The type may be unsupported, in which case this panics.
+			// Don't leave the mutex locked.
+			defer func() {
+				if r := recover(); r != nil {
+					cdc.mtx.Unlock()
+					panic(r)
+				}
+			}()
+			info = cdc.newTypeInfoUnregistered(rt)
+			cdc.setTypeInfoNolock(info)
+		}()
 	}
 	cdc.mtx.Unlock()
 	return info, nil
-- 
2.43.0


From 82f88541c4d28e1a9b8a6b3455fc599ade093074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 02/41] fix: a failing RegisterConcrete leaves the codec
 unchanged

---
 codec.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index 845561a..64f2a67 100644
--- a/codec.go
+++ b/codec.go
@@ -237,6 +237,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.checkConflictsWithTypeInfosNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -665,12 +666,26 @@ func (cdc *Codec) checkConflictsInPrioNolock(iinfo *TypeInfo) error {
 	return nil
 }
 
+// Panics if setTypeInfoNolock(cinfo) would, without changing anything.
+func (cdc *Codec) checkConflictsWithTypeInfosNolock(cinfo *TypeInfo) {
+	if _, ok := cdc.typeInfos[cinfo.Type]; ok {
+		panic(fmt.Sprintf("TypeInfo already exists for %v", cinfo.Type))
+	}
+	disfix := cinfo.GetDisfix()
+	if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
+		panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
+	}
+	if existing, ok := cdc.nameToTypeInfo[cinfo.Name]; ok {
+		panic(fmt.Sprintf("name <%s> already registered for %v", cinfo.Name, existing.Type))
+	}
+}
+
 func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
-	for _, iinfo := range cdc.interfaceInfos {
+	for i, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
@@ -685,6 +700,16 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 		if err != nil {
 			// Return to previous state.
 			iinfo.Implementers[cinfo.Prefix] = origImpls
+			for _, iinfo := range cdc.interfaceInfos[:i] {
+				if cinfo.PtrToType.Implements(iinfo.Type) {
+					impls := iinfo.Implementers[cinfo.Prefix]
+					if len(impls) == 1 {
+						delete(iinfo.Implementers, cinfo.Prefix)
+						continue
+					}
+					iinfo.Implementers[cinfo.Prefix] = impls[:len(impls)-1]
+				}
+			}
 			panic(err)
 		}
 	}
-- 
2.43.0


From 11fc36b69744e61c8acbee606a387547128e64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 03/41] fix: check that the codec isn't sealed while holding
 the lock that registers

---
 codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec.go b/codec.go
index 64f2a67..dab2209 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +238,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.checkConflictsWithTypeInfosNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
@@ -331,6 +333,10 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0


From 67cfa04f5f3314890ea5735a8121640ca9981f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 04/41] fix: read the implementers of an interface under the
 codec's lock when encoding

---
 binary-encode.go | 2 +-
 codec.go         | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..494299f 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -245,7 +245,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	needDisamb := false
 	if iinfo.AlwaysDisambiguate {
 		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
+	} else if cdc.hasPrefixConflictRlock(iinfo, cinfo) {
 		needDisamb = true
 	}
 	if needDisamb {
diff --git a/codec.go b/codec.go
index dab2209..1b068e2 100644
--- a/codec.go
+++ b/codec.go
@@ -430,6 +430,15 @@ func (cdc *Codec) getTypeInfoFromPrefixRlock(iinfo *TypeInfo, pb PrefixBytes) (i
 	return
 }
 
+// Whether another implementer of iinfo has the same prefix bytes as cinfo.
+func (cdc *Codec) hasPrefixConflictRlock(iinfo, cinfo *TypeInfo) bool {
+	// NOTE: .Implementers gets mutated upon registration.
+	cdc.mtx.RLock()
+	conflict := len(iinfo.Implementers[cinfo.Prefix]) > 1
+	cdc.mtx.RUnlock()
+	return conflict
+}
+
 func (cdc *Codec) getTypeInfoFromDisfixRlock(df DisfixBytes) (info *TypeInfo, err error) {
 	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
 	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-- 
2.43.0


From 59b75923e5f1582b5c47972426fd6e4dc3d710e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 05/41] fix: error instead of panic when the encoded concrete
 type doesn't implement the interface

---
 binary-decode.go | 4 ++++
 json-decode.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..7793cbd 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -367,6 +367,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().AssignableTo(rv.Type()) {
+		err = fmt.Errorf("%v doesn't implement %v", irvSet.Type(), rv.Type())
+		return
+	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..95d0632 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -217,6 +217,10 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().AssignableTo(rv.Type()) {
+		err = fmt.Errorf("%v doesn't implement %v", irvSet.Type(), rv.Type())
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
-- 
2.43.0


From 8b77fcfb56b9169009e65dc9e16470555f1fa9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 06/41] fix: don't panic when decoding into a non-nil pointer
 to a slice or array

---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 9716ae7..6e0ac69 100644
--- a/amino.go
+++ b/amino.go
@@ -471,8 +471,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From 855de532c5f52ac34e413e9b50323d5e871e8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 07/41] fix: decode the empty encoding of a default value that
 isn't a struct

---
 amino.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amino.go b/amino.go
index 6e0ac69..1ab0207 100644
--- a/amino.go
+++ b/amino.go
@@ -418,6 +418,13 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 
 		slide(&bz, &nWrap, nFnumTyp3)
 		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
+	} else if len(bz) == 0 && isKnownType &&
+		derefType(rt).Kind() != reflect.Interface &&
+		!isStructOrRepeatedStruct(info) {
+		// MarshalBinaryBare wrote neither the key nor the value of a default
+		// value, which is a single 0x00.
+		bz = []byte{0x00}
+		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
 	}
 
 	// Decode contents into rv.
-- 
2.43.0


From e755e98593c07368423b3ae1feb1148fd3f8e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 08/41] fix: encode the elements of multidimensional byte lists

---
 binary-encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binary-encode.go b/binary-encode.go
index 494299f..eebf771 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -84,6 +84,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 					break
 				}
 			}
+			if err == nil {
+				err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
+			}
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -108,6 +111,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 				err = errors.New("multidimensional slices not allowed")
 				break
 			}
+			if err == nil {
+				err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
+			}
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
-- 
2.43.0


From b29da1a8ddeecf9d6029c674bdfabdf67e145770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 09/41] fix: number the elements of a bare list 1 like the
 decoder expects, not 0

---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 1ab0207..52735ca 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From 484c5dc665baa54aaa55f14bf9615e8a69acc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 10/41] fix: decode interface fields and elements with a
 concrete type that isn't a struct

---
 binary-decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 7793cbd..99358c0 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -371,12 +371,14 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		err = fmt.Errorf("%v doesn't implement %v", irvSet.Type(), rv.Type())
 		return
 	}
+	cbare := true
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
+		bare && // otherwise it's a field or an element
 		fopts.BinFieldNum == 1 {
 		var (
 			fnum      uint32
@@ -396,10 +398,17 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
+	} else if bare && len(bz) == 0 && isKnownType && !isStructOrRepeatedStruct(cinfo) {
+		// MarshalBinaryBare only wrote the prefix bytes of a default value.
+		if err = cdc.UnmarshalBinaryBare(cinfo.Prefix.Bytes(), crv.Addr().Interface()); err == nil {
+			rv.Set(irvSet)
+		}
+		return n, err
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From 57053919c8fccd9d6d3a00d37015c291e94ed181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 11/41] fix: count the bytes of a length prefix as read, even
 if longer than necessary

---
 binary-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 99358c0..f3fcaa7 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -341,7 +341,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -501,7 +501,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -679,7 +679,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -797,7 +797,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
-- 
2.43.0


From cdf744b8bdf129e5b4b277947f034c0aa5867400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 12/41] fix: don't read what is left over of a time as the next
 field

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index f3fcaa7..ca59169 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -810,6 +810,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading time")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From 0c65a730bd351886a5e1de25637f1969e24e3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 13/41] fix: don't read what is left over of a nested list as
 the next field

---
 binary-decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index ca59169..bdf3c7a 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -591,7 +591,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			if err != nil {
 				return
 			}
-			if fnum <= fopts.BinFieldNum {
+			if !bare || fnum <= fopts.BinFieldNum {
 				err = fmt.Errorf("unexpected field number %v after repeated field number %v", fnum, fopts.BinFieldNum)
 				return
 			}
@@ -768,6 +768,10 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			srv = reflect.Append(srv, erv)
 		}
 	}
+	if !bare && len(bz) > 0 {
+		err = errors.New("bytes left over after reading slice contents")
+		return
+	}
 	rv.Set(srv)
 	return n, err
 }
-- 
2.43.0


From d4c120cffe5df21c82589ef29e50d86011474237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 14/41] fix: error instead of truncating a varint that
 overflows uint32

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index bdf3c7a..758ad7f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 055a7c4b4774297b85d05d03b68f5e59c61d3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 15/41] fix: skip unknown fields that are repeated

---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 758ad7f..372e294 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -906,7 +906,9 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			// NOTE: an unknown field may be repeated.
+			isRepeated := fnum == lastFieldNum && fnum > uint32(len(info.Fields))
+			if fnum <= lastFieldNum && !isRepeated {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
-- 
2.43.0


From d1c973ab4b042835084413255baf056eb63318d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 16/41] fix: read length-prefixed objects from any valid
 io.Reader and reject bad length prefixes

---
 amino.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/amino.go b/amino.go
index 52735ca..5bb03fc 100644
--- a/amino.go
+++ b/amino.go
@@ -268,7 +268,7 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixed(bz []byte, ptr interface{}) erro
 
 	// Read byte-length prefix.
 	u64, n := binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		return errors.Errorf("Error reading msg byte-length prefix: got code %v", n)
 	}
 	if u64 > uint64(len(bz)-n) {
@@ -297,7 +297,7 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
 			return
 		}
@@ -305,15 +305,17 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, _n := binary.Uvarint(buf[:])
+	if _n <= 0 {
+		err = errors.Errorf("Error reading msg byte-length prefix: got code %v", _n)
 		return
 	}
 	if maxSize > 0 {
@@ -331,21 +333,26 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 	l = int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.Errorf(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: l is not to be trusted, so don't allocate that much up front.
+	var bz bytes.Buffer
+	_, err = io.CopyN(&bz, r, l)
 	if err != nil {
+		if err == io.EOF && bz.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 	n += l
 
 	// Decode.
-	err = cdc.UnmarshalBinaryBare(bz, ptr)
+	err = cdc.UnmarshalBinaryBare(bz.Bytes(), ptr)
 	return n, err
 }
 
-- 
2.43.0


From c140ade830aa62d659ca59f61354e30c664b88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 17/41] fix: error instead of panic on an unterminated JSON
 string for an integer

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 95d0632..9f80f56 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
-- 
2.43.0


From 52cd4d7204eebd77567b4d4734fead5843754a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 18/41] fix: decode JSON objects into maps whose key is a named
 string type

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 9f80f56..a2c3c59 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -471,7 +471,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
-- 
2.43.0


From 6055218481a3dcf826013c2fae80e0f610dec77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 19/41] fix: encode maps as JSON deterministically

---
 json-encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 1d2778c..033d7a9 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/pkg/errors"
@@ -367,7 +368,9 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 	}
 
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	var keys = rv.MapKeys()
+	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	for _, krv := range keys {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From 988e1ca1a002c7265fc7f3f73ee3e52151534728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 20/41] fix: escape the registered name in JSON

---
 amino.go       |  2 +-
 json-encode.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 5bb03fc..4c550ce 100644
--- a/amino.go
+++ b/amino.go
@@ -520,7 +520,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeStr(w, _fmt(`{"type":%s,"value":`, quoteName(info.Name)))
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index 033d7a9..4caebe5 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -1,11 +1,13 @@
 package amino
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
 	"reflect"
 	"sort"
+	"strings"
 	"time"
 
 	"github.com/pkg/errors"
@@ -172,7 +174,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeStr(w, _fmt(`{"type":%s,"value":`, quoteName(cinfo.Name)))
 	if err != nil {
 		return
 	}
@@ -446,6 +448,18 @@ func _fmt(s string, args ...interface{}) string {
 	return fmt.Sprintf(s, args...)
 }
 
+// Quotes the name of a registered concrete type as a JSON string, without
+// escaping HTML.
+func quoteName(name string) string {
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(name); err != nil {
+		panic(err) // should not happen
+	}
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 // For json:",omitempty".
 // Returns true for zero values, but also non-nil zero-length slices and strings.
 func isEmpty(rv reflect.Value, zrv reflect.Value) bool {
-- 
2.43.0


From da82afd8a8165284f389f6cbfe8992ec1da69c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 21/41] fix: don't panic on a nil pointer in a write_empty
 field

---
 binary-encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index eebf771..614686c 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -448,7 +448,7 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			var frv = rv.Field(field.Index)
 			var frvIsPtr = frv.Kind() == reflect.Ptr
 			var dfrv, isDefault = isDefaultValue(frv)
-			if isDefault && !field.WriteEmpty {
+			if isDefault && (!field.WriteEmpty || !dfrv.IsValid()) {
 				// Do not encode default value fields
 				// (except when `amino:"write_empty"` is set).
 				continue
-- 
2.43.0


From aaa74ffade06a1f4b205fd8ce01d4916b993097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 22/41] fix: decode a nil interface that was written because of
 write_empty

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 372e294..b7cffc8 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -347,6 +347,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		// This is a trick for debuggability -- we slide on &n more later.
 		n += _n - len(buf)
 		bz = buf
+		// An empty byteslice denotes nil.
+		if len(bz) == 0 {
+			return
+		}
 	}
 
 	// Consume disambiguation / prefix bytes.
-- 
2.43.0


From b5c961c6048d970cbc36abdf1fde5f221edcd915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 23/41] fix: support lists of a named byte type

---
 binary-decode.go | 4 ++--
 binary-encode.go | 6 ++++--
 json-decode.go   | 2 +-
 json-encode.go   | 6 ++++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index b7cffc8..7e69f81 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -471,7 +471,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -644,7 +644,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index 614686c..b434b5b 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -296,8 +296,10 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 	if rv.CanAddr() {
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
-		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		// Copy to where it's addressable.
+		addr := reflect.New(rv.Type()).Elem()
+		addr.Set(rv) // XXX: looks expensive!
+		byteslice = addr.Slice(0, length).Bytes()
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index a2c3c59..aa8d4c0 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -262,7 +262,7 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index 4caebe5..2d69c6d 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -223,8 +223,10 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 		if rv.CanAddr() {
 			bz = rv.Slice(0, length).Bytes()
 		} else {
-			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+			// Copy to where it's addressable.
+			addr := reflect.New(rv.Type()).Elem()
+			addr.Set(rv) // XXX: looks expensive!
+			bz = addr.Slice(0, length).Bytes()
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
-- 
2.43.0


From 8d6c5077e133e4fdba44a53866c7878d605a83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 24/41] fix: DeepCopy doesn't share slices with the original

---
 deep_copy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..024b190 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
-- 
2.43.0


From e151d27bb958564d7cee34eb30e11a0bedebca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 25/41] fix: DeepCopy doesn't share the values of a map with
 the original

---
 deep_copy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 024b190..f3f738f 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -119,7 +119,9 @@ func _deepCopy(src, dst reflect.Value) {
 		keys := src.MapKeys()
 		for _, key := range keys {
 			val := src.MapIndex(key)
-			cpy.SetMapIndex(key, val)
+			cval := reflect.New(val.Type()).Elem()
+			deepCopy(val, cval)
+			cpy.SetMapIndex(key, cval)
 		}
 		dst.Set(cpy)
 		return
-- 
2.43.0


From 8c0b42b4f9cf5d5c098586544da747d7ddac5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 26/41] fix: DeepCopy doesn't panic on or lose the contents of
 an AminoMarshaler that isn't a pointer

---
 deep_copy.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index f3f738f..2731511 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -195,14 +195,18 @@ func callAminoCopy(src, dst reflect.Value) bool {
 		}
 		src = src.Addr()
 		dst = dst.Addr()
+	case dst.CanAddr():
+		// Copy to where it's addressable.
+		addr := reflect.New(src.Type())
+		addr.Elem().Set(src)
+		src = addr
+		dst = dst.Addr()
 	default:
 		return false
 	}
 	if !canAminoCopy(src) {
 		return false
 	}
-	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
 	ma := src.MethodByName("MarshalAmino")
 	ua := dst.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
-- 
2.43.0


From ababe0f8a0601d1bd86b59d1ba1e1c8456f490f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 27/41] fix: DeepCopy doesn't panic on a pointer to nil and
 honors methods behind pointers to pointers

---
 deep_copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 2731511..735576c 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
-- 
2.43.0


From 05b3498b72dcf3b071c3171bd1aa05fc74154064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 28/41] fix: aminoscan doesn't loop or panic on malformed bytes

---
 cmd/aminoscan/aminoscan.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..6008d14 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", typ)
 	}
 	return
 }
@@ -85,6 +85,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	if len(bz) == 0 {
 		err = fmt.Errorf("EOF while reading (U)Varint")
+		return
 	}
 	// First try Varint.
 	okI64 := true
@@ -96,7 +97,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if _n <= 0 || n != _n {
 		n = 0
 		okU64 = false
 	}
@@ -132,13 +133,13 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
+	if _n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
 	}
 	length := int(l64)
-	if length >= len(bz) {
+	if l64 > uint64(len(bz)-_n) {
 		err = errors.New("while reading 8byte field, EOF was encountered")
 		return
 	}
@@ -175,7 +176,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From 4e9f14e2d48b54ceae2f9ddbd71ee716b3dce545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 29/41] fix: the time in an empty nested struct is 1970, not
 year 1

---
 reflect.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reflect.go b/reflect.go
index ab95603..3d09567 100644
--- a/reflect.go
+++ b/reflect.go
@@ -156,6 +156,18 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 			rv.Set(reflect.ValueOf(zeroTime))
 			return rv
 		}
+		if _, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok {
+			break
+		}
+		// An empty struct that has time fields: those are 1970, too.
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.NumField(); i++ {
+			field := rt.Field(i)
+			if field.Type.Kind() == reflect.Struct && isExported(field) && field.Tag.Get("json") != "-" {
+				rv.Field(i).Set(defaultValue(field.Type))
+			}
+		}
+		return rv
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From a7b048b933120e9b50ae3b5ec6e249c0ff7bfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 30/41] fix: encode the representation of a list type in a
 field, not the list

---
 binary-encode.go |  6 +++++-
 codec.go         | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index b434b5b..cef5980 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -457,7 +457,11 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			}
 			if field.UnpackedList {
 				// Write repeated field entries for each list item.
-				err = cdc.encodeReflectBinaryList(buf, finfo, dfrv, field.FieldOptions, true)
+				if finfo.IsAminoMarshaler {
+					err = cdc.encodeReflectBinary(buf, finfo, dfrv, field.FieldOptions, true)
+				} else {
+					err = cdc.encodeReflectBinaryList(buf, finfo, dfrv, field.FieldOptions, true)
+				}
 				if err != nil {
 					return
 				}
diff --git a/codec.go b/codec.go
index 1b068e2..a6e0c33 100644
--- a/codec.go
+++ b/codec.go
@@ -488,13 +488,22 @@ func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 		if skip {
 			continue // e.g. json:"-"
 		}
-		if ftype.Kind() == reflect.Array || ftype.Kind() == reflect.Slice {
-			if ftype.Elem().Kind() == reflect.Uint8 {
+		// A list may have a representation that isn't one.
+		var ltype = ftype
+		for ltype.Kind() == reflect.Array || ltype.Kind() == reflect.Slice {
+			rm, ok := ltype.MethodByName("MarshalAmino")
+			if !ok {
+				break
+			}
+			ltype = marshalAminoReprType(rm)
+		}
+		if ltype.Kind() == reflect.Array || ltype.Kind() == reflect.Slice {
+			if ltype.Elem().Kind() == reflect.Uint8 {
 				// These get handled by our optimized methods,
 				// encodeReflectBinaryByte[Slice/Array].
 				unpackedList = false
 			} else {
-				etype := ftype.Elem()
+				etype := ltype.Elem()
 				for etype.Kind() == reflect.Ptr {
 					etype = etype.Elem()
 				}
-- 
2.43.0


From fb8dec1dac71658bffce51aace416a9409b44d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 31/41] fix: reject a byte list field whose bytes are missing

---
 binary-decode.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 7e69f81..28b7d13 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -624,12 +624,6 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 	if ert.Kind() != reflect.Uint8 {
 		panic("should not happen")
 	}
-	// If len(bz) == 0 the code below will err
-	if len(bz) == 0 {
-		rv.Set(info.ZeroValue)
-		return 0, nil
-	}
-
 	// Read byte-length prefixed byteslice.
 	var (
 		byteslice []byte
-- 
2.43.0


From 95f652bc76612d75a0c14f0e601b52438f9fcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 32/41] fix: decode JSON fields with their own options, so that
 unsafe floats decode

---
 json-decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index aa8d4c0..d3e4f6e 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -366,7 +366,7 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 }
 
 // CONTRACT: rv.CanAddr() is true.
-func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, fopts FieldOptions) (err error) {
+func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, _ FieldOptions) (err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -417,7 +417,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 9aa292f675337b3c9cbb864e367e1a6aa65842ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 33/41] fix: reject JSON integers like "null" or " 5"

---
 json-decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json-decode.go b/json-decode.go
index d3e4f6e..66f2690 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -125,6 +125,9 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 				return
 			}
 		}
+		if !isDecimal(bz[1 : len(bz)-1]) {
+			return errors.Errorf("amino:JSON int/int64/uint/uint64 must be a quoted decimal number, but got %s", bz)
+		}
 		bz = bz[1 : len(bz)-1]
 		fallthrough
 	case reflect.Int32, reflect.Int16, reflect.Int8,
@@ -518,6 +521,12 @@ func decodeInterfaceJSON(bz []byte) (name string, data []byte, err error) {
 	return
 }
 
+// Whether b, if JSON, is a number rather than null or surrounded by spaces.
+func isDecimal(b []byte) bool {
+	isDigit := func(c byte) bool { return '0' <= c && c <= '9' }
+	return len(b) > 0 && (b[0] == '-' || isDigit(b[0])) && isDigit(b[len(b)-1])
+}
+
 func nullBytes(b []byte) bool {
 	return bytes.Equal(b, []byte(`null`))
 }
-- 
2.43.0


From 9009aaf6a3d100832044359bfe6bd0dcfb7caa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 34/41] fix: ignore white space around a JSON document

---
 amino.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amino.go b/amino.go
index 4c550ce..d215351 100644
--- a/amino.go
+++ b/amino.go
@@ -551,6 +551,8 @@ func (cdc *Codec) MustMarshalJSON(o interface{}) []byte {
 }
 
 func (cdc *Codec) UnmarshalJSON(bz []byte, ptr interface{}) error {
+	// White space around a value has no meaning in JSON.
+	bz = bytes.Trim(bz, " \t\r\n")
 	if len(bz) == 0 {
 		return errors.New("cannot decode empty bytes")
 	}
-- 
2.43.0


From 25542c0b1aee22fa56679b2ffa17a306ea635558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 35/41] fix: DeepCopy list elements of scalar kinds with their
 methods

---
 deep_copy.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 735576c..39c55ae 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -54,7 +54,7 @@ func _deepCopy(src, dst reflect.Value) {
 		return
 
 	case reflect.Array:
-		switch src.Type().Elem().Kind() {
+		switch elemKindWithoutMethods(src.Type()) {
 		case reflect.Int64, reflect.Int32, reflect.Int16,
 			reflect.Int8, reflect.Int, reflect.Uint64,
 			reflect.Uint32, reflect.Uint16, reflect.Uint8,
@@ -73,7 +73,7 @@ func _deepCopy(src, dst reflect.Value) {
 		}
 
 	case reflect.Slice:
-		switch src.Type().Elem().Kind() {
+		switch elemKindWithoutMethods(src.Type()) {
 		case reflect.Int64, reflect.Int32, reflect.Int16,
 			reflect.Int8, reflect.Int, reflect.Uint64,
 			reflect.Uint32, reflect.Uint16, reflect.Uint8,
@@ -149,6 +149,15 @@ func _deepCopy(src, dst reflect.Value) {
 //----------------------------------------
 // misc.
 
+// The kind of the elements of a list, or Invalid if they have methods, which
+// may be .DeepCopy() or .MarshalAmino() and .UnmarshalAmino().
+func elemKindWithoutMethods(rt reflect.Type) reflect.Kind {
+	if reflect.PtrTo(rt.Elem()).NumMethod() > 0 {
+		return reflect.Invalid
+	}
+	return rt.Elem().Kind()
+}
+
 // Call .DeepCopy() method if possible.
 func callDeepCopy(src, dst reflect.Value) bool {
 	dc := src.MethodByName("DeepCopy")
-- 
2.43.0


From 76a28e194798bb1214436e97373f334bffe3c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 36/41] fix: refuse channels in struct fields

A field holding a channel without buffered items was taken for a default
value and left out of the binary encoding.
---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 3d09567..6e35ce6 100644
--- a/reflect.go
+++ b/reflect.go
@@ -116,9 +116,9 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 		return rv, rv.Uint() == 0
 	case reflect.String:
 		return rv, rv.Len() == 0
-	case reflect.Chan, reflect.Map, reflect.Slice:
+	case reflect.Map, reflect.Slice:
 		return rv, rv.IsNil() || rv.Len() == 0
-	case reflect.Func, reflect.Interface:
+	case reflect.Chan, reflect.Func, reflect.Interface:
 		return rv, rv.IsNil()
 	default:
 		return rv, false
-- 
2.43.0


From dfc32f7992b887c54726e42fb2586c1fca782c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 37/41] fix: absent arrays of times are 1970, too

The elements of an array that is absent from the bytes became the zero
time instead of the default of a time.
---
 reflect.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 6e35ce6..87b030f 100644
--- a/reflect.go
+++ b/reflect.go
@@ -163,11 +163,26 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 		rv = reflect.New(rt).Elem()
 		for i := 0; i < rt.NumField(); i++ {
 			field := rt.Field(i)
-			if field.Type.Kind() == reflect.Struct && isExported(field) && field.Tag.Get("json") != "-" {
+			kind := field.Type.Kind()
+			if (kind == reflect.Struct || kind == reflect.Array) && isExported(field) && field.Tag.Get("json") != "-" {
 				rv.Field(i).Set(defaultValue(field.Type))
 			}
 		}
 		return rv
+	case reflect.Array:
+		kind := rt.Elem().Kind()
+		if kind != reflect.Struct && kind != reflect.Array && kind != reflect.Ptr {
+			break
+		}
+		if _, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok {
+			break
+		}
+		// The elements may be times.
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.Len(); i++ {
+			rv.Index(i).Set(defaultValue(rt.Elem()))
+		}
+		return rv
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From 86e5149aec5a143de9a43ba8458ed40d1a8412fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 38/41] fix: JSON map keys are strings even if their type has
 MarshalJSON or MarshalText

---
 json-encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 2d69c6d..2d12d26 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -387,7 +387,7 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 			writeComma = false //nolint:ineffassign
 		}
 		// Write field name.
-		err = invokeStdlibJSONMarshal(w, krv.Interface())
+		err = invokeStdlibJSONMarshal(w, krv.String())
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 74aa3f47bbd0a089c27c042d8c40df9d60d5fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 39/41] fix: UnmarshalJSON of 64 bit integers doesn't call
 UnmarshalText, as MarshalJSON doesn't call MarshalText

---
 json-decode.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 66f2690..996da52 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -129,7 +129,28 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 			return errors.Errorf("amino:JSON int/int64/uint/uint64 must be a quoted decimal number, but got %s", bz)
 		}
 		bz = bz[1 : len(bz)-1]
-		fallthrough
+		// NOTE: The type's MarshalText, if any, wasn't used for the digits, so
+		// its UnmarshalText must not be either.
+		if ikind == reflect.Int64 || ikind == reflect.Int {
+			var i64 int64
+			err = json.Unmarshal(bz, &i64)
+			if err == nil && rv.OverflowInt(i64) {
+				err = ErrOverflowInt
+			}
+			if err == nil {
+				rv.SetInt(i64)
+			}
+		} else {
+			var u64 uint64
+			err = json.Unmarshal(bz, &u64)
+			if err == nil && rv.OverflowUint(u64) {
+				err = ErrOverflowInt
+			}
+			if err == nil {
+				rv.SetUint(u64)
+			}
+		}
+
 	case reflect.Int32, reflect.Int16, reflect.Int8,
 		reflect.Uint32, reflect.Uint16, reflect.Uint8:
 		err = invokeStdlibJSONUnmarshal(bz, rv, fopts)
-- 
2.43.0


From 3aaeb1cec3909e6f32cd9b0f6e7c488365cd2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 40/41] fix: nested messages aren't copied at each level when
 decoding

---
 binary-decode.go |  8 ++++----
 decoder.go       | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 28b7d13..1212013 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -340,7 +340,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -504,7 +504,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -676,7 +676,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -798,7 +798,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	if !bare {
 		// Read byte-length prefixed byteslice.
 		var buf []byte
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceView(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
diff --git a/decoder.go b/decoder.go
index 14f4e7c..451df2d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -278,6 +278,18 @@ func decodeNanos(bz *[]byte, n *int) (int32, error) {
 }
 
 func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
+	var view []byte
+	view, n, err = decodeByteSliceView(bz)
+	if err != nil {
+		return
+	}
+	bz2 = make([]byte, len(view))
+	copy(bz2, view)
+	return
+}
+
+// Like DecodeByteSlice, but the result is a part of bz rather than a copy.
+func decodeByteSliceView(bz []byte) (view []byte, n int, err error) {
 	var count uint64
 	var _n int
 	count, _n, err = DecodeUvarint(bz)
@@ -292,8 +304,7 @@ func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
 		return
 	}
-	bz2 = make([]byte, count)
-	copy(bz2, bz[0:count])
+	view = bz[0:count:count]
 	n += int(count)
 	return
 }
-- 
2.43.0


From c9b9b175a8fa0ef270ac43ecd56961fe32f8f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 41/41] fix: the error message of nested arrays doesn't grow
 with their depth

---
 binary-decode.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 1212013..a08ae3d 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -524,7 +524,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			var _n int
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = wrapArrayContentsError(err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -586,7 +586,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = wrapArrayContentsError(err)
 				return
 			}
 		}
@@ -698,7 +698,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			erv, _n := reflect.New(ert).Elem(), int(0)
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = wrapArrayContentsError(err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -764,7 +764,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = wrapArrayContentsError(err)
 				return
 			}
 			srv = reflect.Append(srv, erv)
@@ -922,6 +922,24 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	return n, err
 }
 
+// An error in the contents of an array or slice.
+type arrayContentsError struct {
+	error
+}
+
+func (e arrayContentsError) Error() string {
+	return "error reading array contents: " + e.error.Error()
+}
+
+// Wraps err once, however deeply arrays are nested, so that the message
+// doesn't grow with the depth.
+func wrapArrayContentsError(err error) error {
+	if _, ok := err.(arrayContentsError); ok {
+		return err
+	}
+	return arrayContentsError{err}
+}
+
 //----------------------------------------
 // consume* for skipping struct fields
 
-- 
2.43.0

