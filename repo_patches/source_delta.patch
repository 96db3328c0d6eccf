From 4d81473a05cdc3f8bb29edf3b28bbae63e649f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 01/73] fix: write straddling bit chunks that end inside a byte
 correctly

A field chunk that takes bits from two source bytes and ends before the end of
the encoded byte was shifted by 8-end%8 instead of the number of bits already
taken, losing the high bits (C, C++, C#, Java, CommonJS, ES module).
---
 generator/target/c/c.go               |  7 +++----
 generator/target/commonjs/commonjs.go | 10 ++++------
 generator/target/cpp/cpp.go           |  7 +++----
 generator/target/csharp/csharp.go     |  7 +++----
 generator/target/esm/esm.go           |  6 ++----
 generator/target/esm/esm_encode.go    |  2 +-
 generator/target/java/java.go         |  7 +++----
 7 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..680a0c4 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2208,8 +2207,8 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..cc0c31d 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -2529,8 +2527,8 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..ace4ea7 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2353,8 +2352,8 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..6fbbb78 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(8 - (begin & 7));
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -2046,8 +2045,8 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..3055aea 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..0abc260 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -667,7 +667,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..0a58a2d 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(8 - (begin & 7));
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -2013,8 +2012,8 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From ee524100a64c8376ebeb779c5c1b60ac33735fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 02/73] fix: make C++ encode_size of fixed-size structs
 linkable

constexpr implies inline, but the definition lives in the .cpp file, so callers
in other translation units could not link.
---
 generator/target/cpp/cpp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index ace4ea7..1449fed 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1488,7 +1488,6 @@ var encoderDeclTemplate = `
 {{- $structName := .StructDef.StructName -}}
         // EncodeSizeDecl: encode_size
         // Returns an estimation of the encoded size in bytes.
-        {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
         uint64_t encode_size() const;
         // EncoderDecl: encode
 {{- if not .GenOptions.CompatibleMode }}
@@ -1601,7 +1600,7 @@ var encoderTemplate = `
 {{- $structName := .StructDef.StructName -}}
     // EncodeSize: {{ $structName }}::encode_size
     // Returns an estimation of the encoded size in bytes.
-    {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
+    {{ if and .GenOptions.SingleFile (not .StructDef.StructDynamic) -}}constexpr {{ end -}}
     uint64_t {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}encode_size() const {
         {{- if .StructDef.StructDynamic }}
         uint64_t size = {{ calc .StructDef.StructBitSize "/" 8 }};
-- 
2.43.0


From 524570a194e9a2b1585a1a96acc82d1fd8b25016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 03/73] fix: convert narrow C# float fields from the full-width
 integer

---
 generator/target/csharp/csharp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 6fbbb78..2fdb06f 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2625,9 +2625,9 @@ var fieldDecoderTemplate = `
 
 {{- define "decodeNormalFieldTempVarAssignFloatCast" -}}
 {{- if .IsFloat32 -}}
-    {{ .FieldName }} = BitConverter.ToSingle(BitConverter.GetBytes({{ .TempName }}), 0);
+    {{ .FieldName }} = BitConverter.ToSingle(BitConverter.GetBytes((uint){{ .TempName }}), 0);
 {{- else -}}
-    {{ .FieldName }} = BitConverter.ToDouble(BitConverter.GetBytes({{ .TempName }}), 0);
+    {{ .FieldName }} = BitConverter.ToDouble(BitConverter.GetBytes((ulong){{ .TempName }}), 0);
 {{- end -}}
 {{- end -}}
 
-- 
2.43.0


From 203a42b6cc3a438f95010563796d6b1feea2651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 04/73] fix: avoid clashing C# temporaries of dynamic and
 following fields

---
 generator/target/csharp/csharp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 2fdb06f..0240530 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1889,7 +1889,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyBytes":    "byte[]",
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -1904,7 +1904,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      7,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3164,7 +3164,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"FieldName":   fieldNameStr,
 			"FromByte":    from / 8,
 			"Dynamic":     structDynamic,
-			"TempName":    g.generateDecodeTempVarName(from),
+			"TempName":    g.generateDecodeTempVarName(from) + "Dynamic",
 			"GenOptions":  g.GenCtx.GenOptions,
 		}
 
@@ -3179,7 +3179,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyInt":      typeMap[definition.TypeID_Int32],
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3195,7 +3195,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      g.generateDec(7),
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
-- 
2.43.0


From 00d7a238f26148ed51bce2a066d76a35f67cca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 05/73] fix: lay out fields of dynamic struct type as
 variable-size fields

A field whose type is a struct with string or bytes fields reported the
struct's fixed part as its own size, so that part was counted twice, the
following fields moved, and decode_size ignored the nested struct.
---
 definition/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..d297678 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,9 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
-- 
2.43.0


From ced10b0da411034e4e6383f04d40b42de17014c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 06/73] fix: use a power-of-two host type for arrays of 17-24
 and 33-56 bit enums

---
 generator/target/c/c.go           | 4 ++--
 generator/target/cpp/cpp.go       | 4 ++--
 generator/target/csharp/csharp.go | 4 ++--
 generator/target/golang/golang.go | 4 ++--
 generator/target/java/java.go     | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 680a0c4..e7bd141 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1817,7 +1817,7 @@ func (g CGenerator) generateEncodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2768,7 +2768,7 @@ func (g CGenerator) generateDecodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 1449fed..bb54155 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1956,7 +1956,7 @@ func (g CppGenerator) generateEncodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -3018,7 +3018,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 0240530..9a44347 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1617,7 +1617,7 @@ func (g CSharpGenerator) generateEncodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2893,7 +2893,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..bb0c16c 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1539,7 +1539,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2437,7 +2437,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 0a58a2d..b903fb6 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1600,7 +1600,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2640,7 +2640,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
-- 
2.43.0


From 4e78da51ce49d97afecebeb83fe50416d883ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 07/73] fix: parenthesise straddling bit groups in Python
 decoders

---
 generator/target/python/python.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..d3958a7 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2413,6 +2413,9 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
 	return decodeStmts
+		if len(parts) > 1 {
+			exprStr = "(" + exprStr + ")"
+		}
 }
 
 // ==================== GenerateExpr ====================
-- 
2.43.0


From b53bd7ecc79f15bbd8aa365fd33d6966fc03de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 08/73] fix: encode over stale buffer contents

Padding bits were never written and a byte that starts with padding or
with a partial array element was only or-ed into, so what the caller's
buffer held before leaked into padding and fields.
---
 generator/target/c/c.go               |  9 +++++++--
 generator/target/commonjs/commonjs.go | 11 ++++++++---
 generator/target/cpp/cpp.go           |  9 +++++++--
 generator/target/csharp/csharp.go     |  9 +++++++--
 generator/target/esm/esm.go           |  4 ++--
 generator/target/esm/esm_encode.go    |  7 ++++++-
 generator/target/golang/golang.go     |  6 +++++-
 generator/target/java/java.go         |  9 +++++++--
 generator/target/python/python.go     | 12 ++++++++----
 9 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index e7bd141..a4fb4f0 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -253,7 +253,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
@@ -1770,7 +1770,12 @@ func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField,
 }
 
 func (g CGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// bytes that start inside the padding are not cleared by any other field
+	from := (startBits + 7) & (^7)
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g CGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index cc0c31d..399bd7f 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -557,7 +557,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -913,7 +913,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -2042,7 +2042,12 @@ func (g CommonJSGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g CommonJSGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// bytes that start inside the padding are not cleared by any other field
+	from := (startBits + 7) & (^7)
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
 
 func (g CommonJSGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index bb54155..01a1dd3 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -254,7 +254,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
@@ -1909,7 +1909,12 @@ func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantFiel
 }
 
 func (g CppGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// bytes that start inside the padding are not cleared by any other field
+	from := (startBits + 7) & (^7)
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g CppGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 9a44347..198b5c1 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -536,7 +536,7 @@ var structTemplate = `
                 }
                 int shiftLeftOuter = (int)(i & 7);
                 part = (part << shiftLeftOuter) & dataMask;
-                if (dataMask == 0xFF) {
+                if ((i & 7) == 0) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
                     data[(int)(i / 8)] |= (byte)part;
@@ -1530,7 +1530,12 @@ func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g CSharpGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// bytes that start inside the padding are not cleared by any other field
+	from := (startBits + 7) & (^7)
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g CSharpGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 3055aea..9ed89d3 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -516,7 +516,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -838,7 +838,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 0abc260..b14a409 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -335,7 +335,12 @@ func (g ESModuleGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g ESModuleGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// bytes that start inside the padding are not cleared by any other field
+	from := (startBits + 7) & (^7)
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
 
 func (g ESModuleGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index bb0c16c..e9079f7 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1492,7 +1492,11 @@ func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField
 }
 
 func (g GoGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	from := startBits
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g GoGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b903fb6..c68b781 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -474,7 +474,7 @@ var structTemplate = `
             }
             int shiftLeftOuter = (int)(i & 7);
             part = (part << shiftLeftOuter) & dataMask;
-            if (dataMask == 0xFF) {
+            if ((i & 7) == 0) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
                 data[(int)(i / 8)] |= (byte)part;
@@ -1513,7 +1513,12 @@ func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantFie
 }
 
 func (g JavaGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// bytes that start inside the padding are not cleared by any other field
+	from := (startBits + 7) & (^7)
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g JavaGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index d3958a7..5cfb158 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1182,7 +1182,11 @@ func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g PythonGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	from := startBits
+	to := startBits + field.GetFieldBitSize()
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string { return g.generateHex(0) }
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g PythonGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
@@ -2409,13 +2413,13 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			consumed += partSize
 		}
 		exprStr := strings.Join(parts, " | ")
+		if len(parts) > 1 {
+			exprStr = "(" + exprStr + ")"
+		}
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
 	return decodeStmts
-		if len(parts) > 1 {
-			exprStr = "(" + exprStr + ")"
-		}
 }
 
 // ==================== GenerateExpr ====================
-- 
2.43.0


From 437e72a4e0bc66f9781fec54d1fe878c322d2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 09/73] fix: honour the start position in Java array loops

---
 generator/target/java/java.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c68b781..add1036 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1687,6 +1687,8 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			// relative to the start position in the caller's buffer
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -1705,7 +1707,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
@@ -2724,6 +2726,8 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			// relative to the start position in the caller's buffer
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -2742,7 +2746,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
-- 
2.43.0


From f89d4fa3c515316471fb474cd719b619c8969e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 10/73] fix: force -memcpy in the Python target as documented

---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 5cfb158..bbb753c 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -92,6 +92,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target does not support zero-copy, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From aabcf088f10d6f50fab32bfdff482a092bbaad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 11/73] fix: do not sign-extend narrow Java floats when
 decoding

---
 generator/target/java/java.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index add1036..04f7fe0 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2572,12 +2572,10 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// same as enum, but with a temp as wide as the float: a narrow signed
+			// temp would be sign-extended by the conversion
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
-- 
2.43.0


From 1504e5bc19f7bd56cd8de90276338b6f35cf32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 12/73] fix: size C++ fields of dynamic struct type without
 crashing

The decode_size template dereferenced ElementType on a struct-typed field.
---
 generator/target/cpp/cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 01a1dd3..b886d00 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2587,7 +2587,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
-- 
2.43.0


From d9f1169ab6ffd8ed544243ebfe02c75bf5ea4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 13/73] fix: do not slice past the end in C# DecodeSize of
 dynamic structs

---
 generator/target/csharp/csharp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 198b5c1..9bff9d8 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2328,7 +2328,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
@@ -2339,7 +2339,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
@@ -2404,7 +2404,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
-- 
2.43.0


From 82d653615f282327aebd4c00c1968fa0e11a8a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 14/73] fix: compare bytes fields by content in C# Equals and
 GetHashCode

---
 generator/target/csharp/csharp.go | 32 +++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 9bff9d8..fa82da6 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -632,13 +632,29 @@ var structTemplate = `
             if (obj == null) return false;
             if (this.GetType() != obj.GetType()) return false;
             {{ $structDef.StructName }} other = ({{ $structDef.StructName }})obj;
+        {{- $memoryCopy := .GenOptions.MemoryCopy }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- if $field.FieldType.GetTypeID.IsBasic }}
             if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+                {{- if $memoryCopy }}
+            if (!this.{{ $fieldName }}.AsSpan().SequenceEqual(other.{{ $fieldName }})) return false;
+                {{- else }}
+            if (!this.{{ $fieldName }}.Span.SequenceEqual(other.{{ $fieldName }}.Span)) return false;
+                {{- end }}
             {{- else if $field.FieldType.GetTypeID.IsArray }}
+                {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            if (this.{{ $fieldName }}.Length != other.{{ $fieldName }}.Length) return false;
+                    {{- if $memoryCopy }}
+            if (!this.{{ $fieldName }}.Zip(other.{{ $fieldName }}, (a, b) => a.AsSpan().SequenceEqual(b)).All(v => v)) return false;
+                    {{- else }}
+            if (!this.{{ $fieldName }}.Zip(other.{{ $fieldName }}, (a, b) => a.Span.SequenceEqual(b.Span)).All(v => v)) return false;
+                    {{- end }}
+                {{- else }}
             if (!Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+                {{- end }}
             {{- else }}
             if (!Object.Equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- end }}
@@ -655,11 +671,19 @@ var structTemplate = `
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- $isBasicOrEnum := or $field.FieldType.GetTypeID.IsBasic $field.FieldType.GetTypeID.IsEnum }}
-            {{- $isMemory := and $field.FieldType.GetTypeID.IsBytes ( not $memoryCopy ) }}
-            {{- if and ( not $isBasicOrEnum ) ( not $isMemory ) }}
-            result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
+            {{- $isArray := $field.FieldType.GetTypeID.IsArray }}
+            {{- $isBytesArray := false }}
+            {{- if $isArray }}
+            {{- $isBytesArray = $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            {{- end }}
+            {{- if $isBytesArray }}
+            foreach (var _bytes in this.{{ $fieldName }}) result = result * 31 + {{ if $memoryCopy }}(_bytes ?? Array.Empty<byte>()){{ else }}_bytes.ToArray(){{ end }}.Aggregate(0, (a, v) => a * 31 + v);
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+            result = result * 31 + {{ if $memoryCopy }}(this.{{ $fieldName }} ?? Array.Empty<byte>()){{ else }}this.{{ $fieldName }}.ToArray(){{ end }}.Aggregate(0, (a, v) => a * 31 + v);
+            {{- else if not $isBasicOrEnum }}
+            result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $isArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
             {{- else }}
-            result = result * 31 + {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }};
+            result = result * 31 + this.{{ $fieldName }}.GetHashCode();
             {{- end }}
         {{- end }}
         {{- end }}
-- 
2.43.0


From de09867a587701b9209a5acd5ff327f4732cd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 15/73] fix: decode full-width uint32 fields as non-negative
 JavaScript numbers

---
 generator/target/commonjs/commonjs.go | 11 +++++++++++
 generator/target/esm/esm_decode.go    |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 399bd7f..b91cafb 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3524,6 +3524,17 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit numbers, make a full-width uint32 non-negative again
+		if ty.GetTypeID() == definition.TypeID_Uint32 && fieldBitSize == 32 {
+			unsignedConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fieldNameStr + " >>> 0",
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, unsignedConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..9fb5c0b 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -769,6 +769,14 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit numbers, make a full-width uint32 non-negative again
+		if ty.GetTypeID() == definition.TypeID_Uint32 && fieldBitSize == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr, "Operator": exprOpToString[definition.ExprOp_ASSIGN], "Expr": fieldNameStr + " >>> 0",
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
-- 
2.43.0


From 9397887d3f8a3d4129afa5c9d9ebb5b89bae89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 16/73] fix: decode 32-bit wide int64 fields in JavaScript
 targets

---
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/esm/esm_decode.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index b91cafb..35adf3d 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3541,8 +3541,8 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				// special case: sign extension for 32-bit integer (BigInt has no `>>>`)
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9fb5c0b..0161b73 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -781,7 +781,7 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 { // BigInt has no `>>>`
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From 41c113e186fddacf1812a7f9e5d7473922fb313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 17/73] fix: emit inline struct classes in the ESModule target

---
 generator/target/esm/esm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 9ed89d3..72990f6 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1278,6 +1278,7 @@ var normalFieldTemplate = `
 {{- define "normalField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- $_ := GenerateType $field.FieldType -}}
     {{- $tyDefValue := GenerateTypeDefaultValue $field.FieldType -}}
     this.{{ $fieldName }} = {{ $tyDefValue }};
 {{- end -}}
-- 
2.43.0


From df756593d88e143108dca641f6e68363006f118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 18/73] fix: Go loops over static structs behind a dynamic
 field compile

---
 generator/target/golang/golang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index e9079f7..3d21e37 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1651,7 +1651,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = "int64(offset)+" + offsetExpr
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2539,7 +2539,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = "int64(offset)+" + offsetExpr
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From bc6c0089e20e70800afea64a89df04ab87174e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 19/73] fix: put the sign of negative hex and binary literals
 before the prefix

---
 generator/gen/gen_dispatcher.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..06dfe85 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -69,11 +69,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 			return fmt.Sprintf("%d", u)
 		}
 	}
+	// the sign goes before the base prefix
+	sign, magnitude := "", uint64(literal.IntValue)
+	if literal.IntValue < 0 {
+		sign, magnitude = "-", -magnitude
+	}
 	switch base {
 	case definition.IntBaseHex:
-		return fmt.Sprintf("0x%X", literal.IntValue)
+		return fmt.Sprintf("%s0x%X", sign, magnitude)
 	case definition.IntBaseBin:
-		return fmt.Sprintf("0b%b", literal.IntValue)
+		return fmt.Sprintf("%s0b%b", sign, magnitude)
 	default:
 		return fmt.Sprintf("%d", literal.IntValue)
 	}
-- 
2.43.0


From 315a72a1b30d97f69b026b1e74896aead512a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 20/73] fix: encode and check constant fields by their raw bits

Big-endian constants narrower than their type sent the wrong bytes, negative
and floating point constants were compared with a mismatching type.
---
 generator/gen/gen_util.go             | 68 +++++++++++++++++++++++++++
 generator/target/c/c.go               | 23 ++-------
 generator/target/commonjs/commonjs.go | 48 +++++++++----------
 generator/target/cpp/cpp.go           | 23 ++-------
 generator/target/csharp/csharp.go     | 27 ++++-------
 generator/target/esm/esm.go           | 22 +++++++--
 generator/target/esm/esm_decode.go    |  9 ++--
 generator/target/esm/esm_encode.go    | 14 +-----
 generator/target/golang/golang.go     | 23 ++-------
 generator/target/java/java.go         | 27 ++++-------
 generator/target/python/python.go     | 27 ++++-------
 11 files changed, 158 insertions(+), 153 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..cf8bf88 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,9 @@
 package gen
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +18,68 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantFieldBits returns the bit pattern that a constant field has on the
+// wire, as an unsigned number of field.GetFieldBitSize() bits.
+func ConstantFieldBits(field *definition.ConstantField) uint64 {
+	bits := uint64(0)
+	switch value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID).(type) {
+	case bool:
+		if value {
+			bits = 1
+		}
+	case uint8:
+		bits = uint64(value)
+	case uint16:
+		bits = uint64(value)
+	case uint32:
+		bits = uint64(value)
+	case uint64:
+		bits = value
+	case int8:
+		bits = uint64(value)
+	case int16:
+		bits = uint64(value)
+	case int32:
+		bits = uint64(value)
+	case int64:
+		bits = uint64(value)
+	case float32:
+		bits = uint64(math.Float32bits(value))
+	case float64:
+		bits = math.Float64bits(value)
+	default:
+		panic(fmt.Sprintf("ConstantFieldBits: unsupported type %T", value))
+	}
+	return bits & (^uint64(0) >> (64 - field.GetFieldBitSize()))
+}
+
+// ConstantFieldByte returns the i-th byte of a constant field in wire order,
+// i.e. the byte that an integer field of the same width and byte order
+// transmits at that place.
+func ConstantFieldByte(field *definition.ConstantField, i int64) uint8 {
+	bits := ConstantFieldBits(field)
+	if MatchOption(field.FieldOptions, "order", "big") {
+		return uint8(bits >> max(0, field.GetFieldBitSize()-8*(i+1)))
+	}
+	return uint8(bits >> (8 * i))
+}
+
+// ConstantFieldCheck returns the unsigned type that holds the raw bits of a
+// constant field and the literal those bits have to be equal to.
+func ConstantFieldCheck(field *definition.ConstantField) (*definition.BasicType, *definition.IntLiteral) {
+	ty := &definition.Uint64
+	switch bitSize := field.GetFieldBitSize(); {
+	case bitSize <= 8:
+		ty = &definition.Uint8
+	case bitSize <= 16:
+		ty = &definition.Uint16
+	case bitSize <= 32:
+		ty = &definition.Uint32
+	}
+	base := definition.IntBaseHex
+	if literal, ok := field.FieldConstant.(*definition.IntLiteral); ok && literal.IntValue >= 0 {
+		base = literal.Base
+	}
+	return ty, MakeIntLit(ConstantFieldBits(field), base)
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index a4fb4f0..cf3b335 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1745,21 +1743,8 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -2676,6 +2661,8 @@ func (g CGenerator) generateDecodeStructFieldName(name string) string {
 func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	fieldBitSize := field.GetFieldBitSize()
 	fieldSize := (fieldBitSize + 7) / 8
@@ -2693,14 +2680,14 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateLiteral(checkLiteral)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 35adf3d..7095738 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1467,17 +1465,19 @@ var constantFieldTemplate = `
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
-    {{- $constValue := GenerateLiteral $field.FieldConstant -}}
+    {{- $constValue := GenerateLiteral $field.FieldConstant $field.FieldType -}}
     this.{{ $fieldName }} = {{ $constValue }};
 {{- end -}}
 `
 
 func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
-	literalGentor := g.literalGen()
+	if field.FieldName == "" {
+		return "", nil
+	}
 
 	funcMap := template.FuncMap{
 		"GenerateType":    g.GenerateType,
-		"GenerateLiteral": literalGentor.GenerateLiteral,
+		"GenerateLiteral": g.generateConstantLiteral,
 	}
 
 	fieldData := map[string]any{
@@ -1488,6 +1488,20 @@ func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField
 	return fieldStr, nil
 }
 
+// generateConstantLiteral renders a literal as a value of type ty: a BigInt
+// for 64-bit integers, otherwise a plain JS value.
+func (g CommonJSGenerator) generateConstantLiteral(literal definition.Literal, ty *definition.BasicType) string {
+	if intLiteral, ok := literal.(*definition.IntLiteral); ok {
+		str := gen.FormatIntLiteral(intLiteral, g.opts())
+		if ty.GetTypeID().IsIntOrUint() && ty.GetTypeBitSize() > 32 {
+			str += "n"
+		}
+		return str
+	}
+	str, _ := g.literalGen().GenerateLiteral(literal)
+	return str
+}
+
 // ==================== GenerateMethod ====================
 
 func (g CommonJSGenerator) GenerateMethod(method definition.Method) (string, error) {
@@ -2017,21 +2031,8 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -3047,6 +3048,8 @@ func (g CommonJSGenerator) generateDecodeStructFieldName(name string) string {
 func (g CommonJSGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -3058,17 +3061,14 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
-	if err != nil {
-		return nil, err
-	}
+	literalValue := g.generateConstantLiteral(checkLiteral, checkType)
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index b886d00..cd89bfc 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1884,21 +1882,8 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -2926,6 +2911,8 @@ func (g CppGenerator) generateDecodeStructFieldName(name string) string {
 func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	fieldBitSize := field.GetFieldBitSize()
 	fieldSize := (fieldBitSize + 7) / 8
@@ -2943,14 +2930,14 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateLiteral(checkLiteral)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fa82da6..afc6006 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -863,6 +861,10 @@ var constantFieldTemplate = `
 `
 
 func (g CSharpGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
+
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
@@ -1529,21 +1531,8 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -2755,6 +2744,8 @@ func (g CSharpGenerator) generateDecodeStructFieldName(name string) string {
 func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	fieldBitSize := field.GetFieldBitSize()
 	fieldSize := (fieldBitSize + 7) / 8
@@ -2772,14 +2763,14 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateLiteral(checkLiteral)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 72990f6..0592dde 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1305,21 +1305,37 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
-    {{- $constValue := GenerateLiteral $field.FieldConstant -}}
+    {{- $constValue := GenerateLiteral $field.FieldConstant $field.FieldType -}}
     this.{{ $fieldName }} = {{ $constValue }};
 {{- end -}}
 `
 
 func (g ESModuleGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
-	literalGentor := g.literalGen()
+	if field.FieldName == "" {
+		return "", nil
+	}
 	funcMap := template.FuncMap{
 		"GenerateType":    g.GenerateType,
-		"GenerateLiteral": literalGentor.GenerateLiteral,
+		"GenerateLiteral": g.generateConstantLiteral,
 	}
 	fieldData := map[string]any{"Field": field}
 	return util.ExecuteTemplate(constantFieldTemplate, "constantField", funcMap, fieldData), nil
 }
 
+// generateConstantLiteral renders a literal as a value of type ty: a BigInt
+// for 64-bit integers, otherwise a plain JS value.
+func (g ESModuleGenerator) generateConstantLiteral(literal definition.Literal, ty *definition.BasicType) string {
+	if intLiteral, ok := literal.(*definition.IntLiteral); ok {
+		str := gen.FormatIntLiteral(intLiteral, g.opts())
+		if ty.GetTypeID().IsIntOrUint() && ty.GetTypeBitSize() > 32 {
+			str += "n"
+		}
+		return str
+	}
+	str, _ := g.literalGen().GenerateLiteral(literal)
+	return str
+}
+
 func (g ESModuleGenerator) GenerateMethod(method definition.Method) (string, error) {
 	return g.AcceptMethod(method)
 }
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 0161b73..ac2983a 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -438,17 +438,16 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
 	if err != nil {
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
-	if err != nil {
-		return nil, err
-	}
+	literalValue := g.generateConstantLiteral(checkLiteral, checkType)
 	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
 	decodeStmts = append(decodeStmts, checkStr)
 	return decodeStmts, nil
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index b14a409..badc6f5 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,17 +318,7 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-	data := buffer.Bytes()
-	fieldData := func(i int64) string { return g.generateHex(data[i]) }
+	fieldData := func(i int64) string { return g.generateHex(gen.ConstantFieldByte(field, i)) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
 
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 3d21e37..a2885b9 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,21 +1465,8 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -2344,6 +2329,8 @@ func (g GoGenerator) generateDecodeStructFieldName(name string) string {
 func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	fieldBitSize := field.GetFieldBitSize()
 	fieldSize := (fieldBitSize + 7) / 8
@@ -2361,14 +2348,14 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateLiteral(checkLiteral)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 04f7fe0..2bff440 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -791,6 +789,10 @@ var constantFieldTemplate = `
 `
 
 func (g JavaGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
+
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
@@ -1488,21 +1490,8 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -2480,6 +2469,8 @@ func (g JavaGenerator) generateDecodeStructFieldName(name string) string {
 func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	fieldBitSize := field.GetFieldBitSize()
 	fieldSize := (fieldBitSize + 7) / 8
@@ -2497,14 +2488,14 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateLiteral(checkLiteral)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index bbb753c..b2c3efe 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -590,6 +588,10 @@ var constantFieldTemplate = `
 `
 
 func (g PythonGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
+
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
@@ -1167,21 +1169,8 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
-	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, i))
 	}
 
 	from := startBits
@@ -1971,20 +1960,22 @@ func (g PythonGenerator) generateDecodeStructFieldName(name string) string {
 func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	// compare the raw bits, so that sign, byte order and floating point do not matter
+	checkType, checkLiteral := gen.ConstantFieldCheck(field)
 
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, checkType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateLiteral(checkLiteral)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8958cd22fc8a5606609559ffbe22bd785235e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 21/73] fix: keep the precision of float literals in generated
 code

---
 generator/gen/gen_dispatcher.go       | 12 ++++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/python/python.go     |  2 +-
 8 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 06dfe85..ae193e0 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -84,6 +86,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	}
 }
 
+// FormatFloatLiteral renders a float literal in plain decimal notation without
+// losing precision.
+func FormatFloatLiteral(literal *definition.FloatLiteral) string {
+	out := strconv.FormatFloat(literal.FloatValue, 'f', -1, 64)
+	if !strings.Contains(out, ".") {
+		out += ".0"
+	}
+	return out
+}
+
 type GenLiteralDispatcher struct {
 	LiteralGeneratorImpl
 }
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index cf3b335..c51b9e6 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3398,7 +3398,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 7095738..241c40f 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3847,7 +3847,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index cd89bfc..2b768b6 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3662,7 +3662,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index afc6006..e5e2f7c 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3600,7 +3600,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index a2885b9..34a7dca 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3020,7 +3020,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 2bff440..3d751c7 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3328,7 +3328,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index b2c3efe..f50f0ee 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2582,7 +2582,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-- 
2.43.0


From 28ed9e9a640b06b0a7a8fdf2e9d7b283f14004d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 22/73] fix: keep all types exported from single ESModule files

---
 generator/target/esm/esm.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 0592dde..3c20181 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -258,6 +258,7 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 	if g.GenCtx.GenOptions.SingleFile {
 		singleData := map[string]any{
 			"GenUnits":   g.GenUnits,
+			"Exports":    g.singleFileExports(),
 			"GenState":   g.GenState,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
@@ -274,6 +275,23 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 	return topErr, g.Warning
 }
 
+// singleFileExports lists the exported names of the single file by package
+// name. Packages that share their last component share one entry.
+func (g *ESModuleGenerator) singleFileExports() *util.OrderedMap[string, []string] {
+	exports := util.NewOrderedMap[string, []string]()
+	for _, genUnit := range g.GenUnits.Values() {
+		pkgName := genUnit.SourceUnit.Package.PackageName
+		names, _ := exports.Get(pkgName)
+		for _, entry := range genUnit.GeneratedTypes.Entries() {
+			if entry.Value.GeneratedDef != "" {
+				names = append(names, entry.Key)
+			}
+		}
+		exports.MustPut(pkgName, names)
+	}
+	return exports
+}
+
 // ==================== GenerateUnit ====================
 
 var fileTemplate = `
@@ -926,12 +944,10 @@ const {{ $entry.Key }} = (function() {
 
 {{ end -}}
 export default {
-{{ range $genUnit := .GenUnits.Values }}
-    {{ $genUnit.SourceUnit.Package.PackageName }}: {
-{{- range $entry := $genUnit.GeneratedTypes.Entries }}
-{{- if $entry.Value.GeneratedDef }}
-        {{ $entry.Key }},
-{{- end }}
+{{ range $export := .Exports.Entries }}
+    {{ $export.Key }}: {
+{{- range $name := $export.Value }}
+        {{ $name }},
 {{- end }}
     },
 {{ end -}}
-- 
2.43.0


From 922b2282cebd0dadc16162dd05a50f2ca9d99895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 23/73] fix: skip arithmetic sign extension of full-width C#
 fields

---
 generator/target/csharp/csharp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index e5e2f7c..9d2f0de 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3308,6 +3308,10 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 				decodeStmts = append(decodeStmts, stmt)
 
 			case gen.SignExtMethodArith:
+				if originFromBitSize >= ty.GetTypeBitSize() {
+					// full-width field, nothing to extend
+					break
+				}
 				signMask := uint64(1) << (originFromBitSize - 1)
 				signMaskStr := g.generateHex(signMask)
 				signExtendData := map[string]any{
-- 
2.43.0


From 1853b96b917ce2595c6b92f0aee10cd075d11da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 24/73] fix: do not double the long suffix in Java array sign
 extension with -decnum

---
 generator/target/java/java.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 3d751c7..cd695d8 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -118,7 +118,8 @@ func (g *JavaGenerator) decodeBasicValueExpr(elemTy *definition.BasicType, elemT
 			signMask := uint64(1) << uint(elemBitSize-1)
 			return util.ExecuteTemplate(fieldDecoderTemplate, "intSignExtArith", nil, map[string]any{
 				"IntType":  typeMap[elemTy.GetTypeID()],
-				"SignMask": g.generateHex(signMask),
+				// the template adds the long suffix
+				"SignMask": strings.TrimSuffix(g.generateHex(signMask), "L"),
 			})
 		default:
 			return util.ExecuteTemplate(fieldDecoderTemplate, "intSignExtShift", nil, map[string]any{
-- 
2.43.0


From 386dbd0abc226ac269f2b00a3232b14aa0569efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 25/73] fix: qualify enum types in C++ array decoding loops

---
 generator/target/cpp/cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 2b768b6..3f8d8cf 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3145,7 +3145,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(%s)_v", elemTyT.EnumName)
+				common["Expr"] = fmt.Sprintf("(enum %s::%s)_v", elemTyT.EnumBelongs.Package.ToPath("::", ""), elemTyT.EnumName)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasicSimple", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From a8f9d854fe4e4b7f0ca2c817e02411254a397f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 26/73] fix: refer to imported types by their cpp_namespace

---
 generator/target/cpp/cpp.go | 42 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 3f8d8cf..30072ca 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -580,6 +580,17 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	return nil
 }
 
+// ==================== Namespace ====================
+
+// namespaceOf returns the C++ namespace the types of the unit are defined in.
+func namespaceOf(unit *definition.CompilationUnit) string {
+	if ns, ok := unit.Options.Get("cpp_namespace"); ok {
+		str := fmt.Sprint(ns.OptionValue)
+		return str[1 : len(str)-1]
+	}
+	return unit.Package.ToPath("::", "")
+}
+
 // ==================== GenerateType ====================
 
 func (g CppGenerator) GenerateType(type_ definition.Type) (string, error) {
@@ -732,7 +743,7 @@ var structTemplate = `
 `
 
 func (g CppGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := fmt.Sprintf("struct %s::%s", structDef.StructBelongs.Package.ToPath("::", ""), structDef.StructName)
+	name := fmt.Sprintf("struct %s::%s", namespaceOf(structDef.StructBelongs), structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -1422,7 +1433,7 @@ func (g CppGenerator) GenerateRawSetter(field definition.Field) (string, error)
 // ==================== GenerateEnum ====================
 
 func (g CppGenerator) GenerateEnum(enumDef *definition.Enum) (string, error) {
-	name := fmt.Sprintf("enum %s::%s", enumDef.EnumBelongs.Package.ToPath("::", ""), enumDef.EnumName)
+	name := fmt.Sprintf("enum %s::%s", namespaceOf(enumDef.EnumBelongs), enumDef.EnumName)
 	// check if this enum is already generated
 	if g.GenTypes.Has(enumDef.EnumName) {
 		return name, nil
@@ -2523,9 +2534,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ Namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ Namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2536,9 +2547,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ Namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ Namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2578,9 +2589,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ Namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ Namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2677,7 +2688,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 			"DecodeStmts": decodeStmts,
 		}
 
-		str := util.ExecuteTemplate(decoderTemplate, "decodeField", nil, decodeFieldData)
+		str := util.ExecuteTemplate(decoderTemplate, "decodeField", template.FuncMap{"Namespace": namespaceOf}, decodeFieldData)
 		decodeStrs = append(decodeStrs, str)
 		return nil
 	}); err != nil {
@@ -2690,7 +2701,11 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 		"Dynamic":    structDef.GetTypeDynamic(),
 	}
 
-	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", nil, fieldData)
+	funcMap := template.FuncMap{
+		"Namespace": namespaceOf,
+	}
+
+	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", funcMap, fieldData)
 	return decoderStr, nil
 }
 
@@ -2752,7 +2767,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeNormalFieldTempVarAssignEnum" -}}
-    {{ .FieldName }} = static_cast<enum {{ .EnumDef.EnumBelongs.Package.ToPath "::" "" }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
+    {{ .FieldName }} = static_cast<enum {{ .Namespace }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
 {{- end -}}
 
 {{- define "decodeNormalFieldNoCast" -}}
@@ -3002,6 +3017,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 		decodeNormalFieldTempVarAssignEnumData := map[string]any{
 			"FieldName": g.generateDecodeStructFieldName(field.FieldName),
 			"EnumDef":   ty,
+			"Namespace": namespaceOf(ty.EnumBelongs),
 			"TempName":  tempName,
 		}
 
@@ -3072,6 +3088,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 				decodeNormalFieldTempVarAssignEnumData := map[string]any{
 					"TempName":  tempName,
 					"EnumDef":   ty.ElementType.(*definition.Enum),
+					"Namespace": namespaceOf(ty.ElementType.(*definition.Enum).EnumBelongs),
 					"FieldName": fmt.Sprintf("((%s)[_i])", name),
 				}
 				assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
@@ -3145,7 +3162,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(enum %s::%s)_v", elemTyT.EnumBelongs.Package.ToPath("::", ""), elemTyT.EnumName)
+				common["Expr"] = fmt.Sprintf("(enum %s::%s)_v", namespaceOf(elemTyT.EnumBelongs), elemTyT.EnumName)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasicSimple", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
@@ -3199,6 +3216,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 					decodeNormalFieldTempVarAssignEnumData := map[string]any{
 						"TempName":  subName,
 						"EnumDef":   elemTy,
+						"Namespace": namespaceOf(elemTy.EnumBelongs),
 						"FieldName": fmt.Sprintf("((%s)[%d])", name, i),
 					}
 					assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-- 
2.43.0


From c14e5e382949a18358a2f751304001ab46fe821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 27/73] fix: do not import packages of types nested in imported
 structs in Go

---
 generator/target/golang/golang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 34a7dca..e0e926a 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -184,7 +184,7 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 				if !ok {
 					continue
 				}
-				if innerStructTy, ok := customTy.(*definition.Struct); ok {
+				if innerStructTy, ok := customTy.(*definition.Struct); ok && innerStructTy.StructBelongs == unit {
 					dfsStructType(innerStructTy)
 				}
 				tyName := customTy.GetTypeName()
-- 
2.43.0


From 5a51141521bad17aa7c85289a5047494474c4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 28/73] fix: do not import packages without types in Java

---
 generator/target/java/java.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index cd695d8..8637dd7 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -214,6 +214,9 @@ package {{ .Unit.Package }};
 
 {{ $curUnit := .Unit -}}
 {{ range $unit := .Unit.LocalImports.Values -}}
+{{ if eq $unit.LocalTypes.Len 0 -}}
+{{ continue -}}
+{{ end -}}
 {{ if $unit.Options.Has "java_package" -}}
 {{ $pkgName := $unit.Options.MustGet "java_package" -}}
 import {{ slice $pkgName.OptionValue 1 -1 }}.*;
-- 
2.43.0


From f09e02f2b9e0f259cf2549efe181aa863d681cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 29/73] fix: give every ES module import a name of its own

---
 generator/target/esm/esm.go        | 4 ++--
 generator/target/esm/esm_decode.go | 4 ++--
 generator/target/esm/esm_encode.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 3c20181..946e048 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -177,7 +177,7 @@ var structPackagePrefixTemplate = `
     {{- if $inPackage -}}
     {{ $structDef.StructName }}
     {{- else -}}
-    ${{ $structDef.StructBelongs.Package.PackageName }}.{{ $structDef.StructName }}
+    ${{ $structDef.StructBelongs.Package.ToPath "$" "" }}.{{ $structDef.StructName }}
     {{- end -}}
 {{- end -}}
 {{- end -}}
@@ -306,7 +306,7 @@ var fileTemplate = `
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
 {{- range $unit := .Unit.LocalImports.Values }}
-import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
+import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
 {{- if .GenState.UseStructArray }}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index ac2983a..ab17b84 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -349,7 +349,7 @@ var fieldDecoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .FieldName }} = {{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- else -}}
-    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
+    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- end -}}
 {{- end -}}
 
@@ -610,7 +610,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
-					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, idxCast)
+					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, idxCast)
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index badc6f5..9b44f91 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -234,7 +234,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -255,7 +255,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -487,7 +487,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
-- 
2.43.0


From 3056a4f941d988eecb139466db2f6d939df17543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 30/73] fix: import the packages of indirectly imported types

---
 generator/target/csharp/csharp.go | 2 +-
 generator/target/esm/esm.go       | 2 +-
 generator/target/java/java.go     | 2 +-
 generator/target/kotlin/kotlin.go | 7 +++++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 9d2f0de..f4eb6cf 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -208,7 +208,7 @@ using System.Collections.Generic;
 using System.Linq;
 using System.Text;
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Unit.GlobalImports.Values -}}
 {{ if $unit.Options.Has "csharp_namespace" -}}
 {{ $namespace0 := $unit.Options.MustGet "csharp_namespace" -}}
 {{ $namespace1 := slice $namespace0.OptionValue 1 -1 -}}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 946e048..1af58e0 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -305,7 +305,7 @@ var fileTemplate = `
 {{- end }}
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
-{{- range $unit := .Unit.LocalImports.Values }}
+{{- range $unit := .Unit.GlobalImports.Values }}
 import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 8637dd7..2a29425 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -213,7 +213,7 @@ package {{ .Unit.Package }};
 {{- end }}
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Unit.GlobalImports.Values -}}
 {{ if eq $unit.LocalTypes.Len 0 -}}
 {{ continue -}}
 {{ end -}}
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..bdfef84 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -75,9 +75,12 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		return nil
 	}
 	pkg := kotlinPackage(unit)
-	imports := make([]string, 0, unit.LocalImports.Len())
+	imports := make([]string, 0, unit.GlobalImports.Len())
 	seen := map[string]bool{}
-	for _, imported := range unit.LocalImports.Values() {
+	for _, imported := range unit.GlobalImports.Values() {
+		if imported.LocalTypes.Len() == 0 {
+			continue
+		}
 		p := kotlinPackage(imported)
 		if p != "" && p != pkg && !seen[p] {
 			imports = append(imports, "import "+p+".*")
-- 
2.43.0


From c76772b2293e093cffebaa319596985a1eae10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 31/73] fix: do not import files left out by omit_empty

---
 generator/gen/gen_util.go             | 37 +++++++++++++++++++++++++++
 generator/target/c/c.go               |  5 ++--
 generator/target/commonjs/commonjs.go |  5 ++--
 generator/target/cpp/cpp.go           |  5 ++--
 generator/target/csharp/csharp.go     |  3 ++-
 generator/target/esm/esm.go           |  3 ++-
 generator/target/python/python.go     |  3 ++-
 7 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index cf8bf88..d7b2530 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -19,6 +19,43 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	return option.OptionValue.GetLiteralValue() == value
 }
 
+// IsOmitted reports whether no file is generated for the unit.
+func IsOmitted(unit *definition.CompilationUnit) bool {
+	return unit.LocalTypes.Len() == 0 && MatchOption(unit.Options, "omit_empty", true)
+}
+
+// DirectImports returns the units the generated file of the unit imports: its
+// direct imports, where an omitted unit is replaced by what it imports itself.
+func DirectImports(unit *definition.CompilationUnit) []*definition.CompilationUnit {
+	imports := util.NewOrderedMap[string, *definition.CompilationUnit]()
+	visited := map[string]bool{}
+	var collect func(unit *definition.CompilationUnit)
+	collect = func(unit *definition.CompilationUnit) {
+		for _, imported := range unit.LocalImports.Values() {
+			if !IsOmitted(imported) {
+				imports.Put(imported.UnitName.Path, imported)
+			} else if !visited[imported.UnitName.Path] {
+				visited[imported.UnitName.Path] = true
+				collect(imported)
+			}
+		}
+	}
+	collect(unit)
+	return imports.Values()
+}
+
+// AllImports returns the units that the unit imports directly or indirectly,
+// without the omitted ones.
+func AllImports(unit *definition.CompilationUnit) []*definition.CompilationUnit {
+	imports := []*definition.CompilationUnit{}
+	for _, imported := range unit.GlobalImports.Values() {
+		if !IsOmitted(imported) {
+			imports = append(imports, imported)
+		}
+	}
+	return imports
+}
+
 // ConstantFieldBits returns the bit pattern that a constant field has on the
 // wire, as an unsigned number of field.GetFieldBitSize() bits.
 func ConstantFieldBits(field *definition.ConstantField) uint64 {
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index c51b9e6..dd24b80 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -334,8 +334,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if .Imports -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
 {{ else -}}
@@ -478,6 +478,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.DirectImports(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenState.UseStdLibH,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 241c40f..be8bb3c 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -294,9 +294,9 @@ var fileTemplate = `
         return mergeDeep(target, ...sources);
     });
 
-    {{- if gt .Unit.LocalImports.Len 0 }}
+    {{- if .Imports }}
     var $root = mergeDeep({},
-        {{- range $unit := .Unit.LocalImports.Values }}
+        {{- range $unit := .Imports }}
         require("{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb" }}"),
         {{- end }}
     );
@@ -1046,6 +1046,7 @@ func (g CommonJSGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.DirectImports(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 30072ca..dd8ca34 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -344,8 +344,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if .Imports -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
 {{ else -}}
@@ -548,6 +548,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.DirectImports(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenState.UseStdLibH,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index f4eb6cf..97c0efc 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -208,7 +208,7 @@ using System.Collections.Generic;
 using System.Linq;
 using System.Text;
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.GlobalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $unit.Options.Has "csharp_namespace" -}}
 {{ $namespace0 := $unit.Options.MustGet "csharp_namespace" -}}
 {{ $namespace1 := slice $namespace0.OptionValue 1 -1 -}}
@@ -328,6 +328,7 @@ func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.AllImports(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 1af58e0..48f4ae2 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -305,7 +305,7 @@ var fileTemplate = `
 {{- end }}
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
-{{- range $unit := .Unit.GlobalImports.Values }}
+{{- range $unit := .Imports }}
 import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
@@ -988,6 +988,7 @@ func (g ESModuleGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.AllImports(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index f50f0ee..2b50a12 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -179,7 +179,7 @@ from enum import Enum
 from typing import List, Tuple, Union, overload
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 from {{ $curUnit.Package.ToPyRelativePath $unit.Package "_bb" }} import *
 {{ else -}}
@@ -255,6 +255,7 @@ func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.DirectImports(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
-- 
2.43.0


From 105d284dea72667801314daeed486d0d9ce64124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 32/73] fix: refer to array enums directly in single ESModule
 files

---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 9b44f91..9c1785e 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -422,6 +422,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 			case *definition.Enum:
 				encodeStmts = append(encodeStmts, util.IndentSpace(util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 					"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[_i]", name), "FieldDef": field,
+					"SingleFile": g.GenCtx.GenOptions.SingleFile,
 				}), 4))
 			}
 
@@ -538,6 +539,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				case *definition.Enum:
 					encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 						"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
+						"SingleFile": g.GenCtx.GenOptions.SingleFile,
 					}))
 				}
 
-- 
2.43.0


From 4d282c06f1bf056303d502928912227e42fa64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 33/73] fix: promoted fields own their custom accessors

Copying a field into an embedding struct shared the accessor objects with the
original, which still pointed at the original field.
---
 definition/field.go  | 12 +++++++++++-
 definition/method.go | 11 +++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/definition/field.go b/definition/field.go
index 318653a..390d72b 100644
--- a/definition/field.go
+++ b/definition/field.go
@@ -130,10 +130,20 @@ func (f NormalField) Copy() Field {
 		FieldName:    f.FieldName,
 		FieldType:    f.FieldType,
 		FieldBitSize: f.FieldBitSize,
-		FieldMethods: f.FieldMethods,
+		FieldMethods: util.NewOrderedMap[string, *util.OrderedMap[MethodKindID, Method]](),
 		FieldOptions: f.FieldOptions,
 		FieldBelongs: f.FieldBelongs,
 	}
+	// the methods of the copy belong to the copy
+	for _, entry := range f.FieldMethods.Entries() {
+		group := util.NewOrderedMap[MethodKindID, Method]()
+		for _, method := range entry.Value.Values() {
+			newMethod := method.Copy()
+			newMethod.SetMethodBelongs(&newField)
+			group.Put(newMethod.GetMethodKind(), newMethod)
+		}
+		newField.FieldMethods.Put(entry.Key, group)
+	}
 	return &newField
 }
 
diff --git a/definition/method.go b/definition/method.go
index 52dcb65..380f697 100644
--- a/definition/method.go
+++ b/definition/method.go
@@ -39,6 +39,7 @@ type Method interface {
 	GetMethodName() string
 	GetMethodBelongs() *NormalField
 	SetMethodBelongs(*NormalField)
+	Copy() Method
 }
 
 var _ Method = (*GetMethod)(nil)
@@ -68,6 +69,11 @@ func (m *GetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m GetMethod) Copy() Method {
+	newMethod := m
+	return &newMethod
+}
+
 type SetMethod struct {
 	BasePosition
 
@@ -93,6 +99,11 @@ func (m *SetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m SetMethod) Copy() Method {
+	newMethod := m
+	return &newMethod
+}
+
 // type Method struct {
 //     BasePosition
 
-- 
2.43.0


From 419080924a82102b337ed33649a5e9da72a8f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 34/73] fix: Python accessors with ! were rendered without a
 space (notvalue)

---
 generator/target/python/python.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 2b50a12..caeafad 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2488,6 +2488,9 @@ func (g PythonExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string
 	if err != nil {
 		return "", err
 	}
+	if expr.Op == definition.ExprOp_NOT {
+		opStr += " "
+	}
 	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
 }
 
-- 
2.43.0


From 2c88777921c0cc7eadeb5238a752a855f061db39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 35/73] fix: JavaScript accessor casts convert to the declared
 type

BigInt(fraction) threw, int casts kept fractions and float32 casts did not round.
---
 generator/gen/gen_util.go             | 43 +++++++++++++++++++++++++++
 generator/target/commonjs/commonjs.go | 11 ++++++-
 generator/target/esm/esm_decode.go    |  3 ++
 generator/target/esm/esm_encode.go    |  6 +++-
 4 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index d7b2530..61a3e0d 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -120,3 +120,46 @@ func ConstantFieldCheck(field *definition.ConstantField) (*definition.BasicType,
 	}
 	return ty, MakeIntLit(ConstantFieldBits(field), base)
 }
+
+// JSCast returns a JavaScript expression converting expr, of type from, to type
+// to: integers are truncated and wrapped to their width, floats are rounded.
+// from is nil when the type of expr is not known.
+func JSCast(to *definition.BasicType, from *definition.BasicType, expr string) string {
+	is64 := func(t *definition.BasicType) bool {
+		return t != nil && (t.TypeTypeID == definition.TypeID_Int64 || t.TypeTypeID == definition.TypeID_Uint64)
+	}
+	switch to.TypeTypeID {
+	case definition.TypeID_Bool:
+		return fmt.Sprintf("Boolean(%s)", expr)
+	case definition.TypeID_Float32:
+		return fmt.Sprintf("Math.fround(Number(%s))", expr)
+	case definition.TypeID_Float64:
+		return fmt.Sprintf("Number(%s)", expr)
+	case definition.TypeID_Int64, definition.TypeID_Uint64:
+		if !is64(from) {
+			expr = fmt.Sprintf("BigInt(Math.trunc(Number(%s)))", expr)
+		}
+		if to.TypeTypeID == definition.TypeID_Int64 {
+			return fmt.Sprintf("BigInt.asIntN(64, %s)", expr)
+		}
+		return fmt.Sprintf("BigInt.asUintN(64, %s)", expr)
+	}
+	if is64(from) {
+		expr = fmt.Sprintf("BigInt.asIntN(32, %s)", expr)
+	}
+	expr = fmt.Sprintf("Number(%s)", expr)
+	switch to.TypeTypeID {
+	case definition.TypeID_Uint8:
+		return fmt.Sprintf("(%s & 0xFF)", expr)
+	case definition.TypeID_Uint16:
+		return fmt.Sprintf("(%s & 0xFFFF)", expr)
+	case definition.TypeID_Uint32:
+		return fmt.Sprintf("(%s >>> 0)", expr)
+	case definition.TypeID_Int8:
+		return fmt.Sprintf("(%s << 24 >> 24)", expr)
+	case definition.TypeID_Int16:
+		return fmt.Sprintf("(%s << 16 >> 16)", expr)
+	default:
+		return fmt.Sprintf("(%s | 0)", expr)
+	}
+}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index be8bb3c..c143631 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2577,11 +2577,17 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		}
 
 		if cast {
+			rawStr, err := g.GenerateExpr(expr, "")
+			if err != nil {
+				panic(fmt.Errorf("internal error: %s", err))
+			}
 			expr = &definition.CastExpr{
 				ToType: &definition.BasicType{
 					TypeTypeID: definition.TypeID_Uint8,
 				},
-				Expr1: expr,
+				Expr1: &definition.RawExpr{
+					Expr: rawStr,
+				},
 			}
 		}
 
@@ -3765,6 +3771,9 @@ func (g CommonJSExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if _, raw := expr.Expr1.(*definition.RawExpr); !raw {
+		return gen.JSCast(expr.ToType, expr.Expr1.GetExprType(), expr1), nil
+	}
 	ty, err := g.GenType(expr.ToType)
 	if err != nil {
 		return "", err
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index ab17b84..36c8d8f 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -930,6 +930,9 @@ func (g ESModuleExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if _, raw := expr.Expr1.(*definition.RawExpr); !raw {
+		return gen.JSCast(expr.ToType, expr.Expr1.GetExprType(), expr1), nil
+	}
 	ty, err := g.GenType(expr.ToType)
 	if err != nil {
 		return "", err
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 9c1785e..afb93e6 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -681,7 +681,11 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 			Expr2: &definition.RawExpr{Expr: generateBin(dataMask)},
 		}
 		if cast {
-			expr = &definition.CastExpr{ToType: &definition.BasicType{TypeTypeID: definition.TypeID_Uint8}, Expr1: expr}
+			rawStr, err := g.GenerateExpr(expr, "")
+			if err != nil {
+				panic(fmt.Errorf("internal error: %s", err))
+			}
+			expr = &definition.CastExpr{ToType: &definition.BasicType{TypeTypeID: definition.TypeID_Uint8}, Expr1: &definition.RawExpr{Expr: rawStr}}
 		}
 		exprStr, err := g.GenerateExpr(expr, "")
 		if err != nil {
-- 
2.43.0


From 3538c9c179f740108bdefbbb3a51df83448b0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 36/73] fix: Java accessor casts widen unsigned values

The type of 'value' in a getter is that of the field, and casts from unsigned
types used the signed representation.
---
 compiler/proto_visitor.go     |  7 ++++++-
 generator/target/java/java.go | 22 ++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..7e4aec9 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -1171,7 +1171,12 @@ func (v *MethodVisitor) VisitFieldMethod(ctx *parser.FieldMethodContext) any {
 		panic("unreachable")
 	}
 
-	exprVisitor := NewExprVisitor(v, type_)
+	// 'value' is the field in a getter, and the parameter in a setter
+	valueType := type_
+	if kind == definition.MethodKindID_Get {
+		valueType = v.FieldType
+	}
+	exprVisitor := NewExprVisitor(v, valueType)
 	var expr definition.Expr
 	exprRet := ctx.Expr().Accept(exprVisitor)
 	switch val := exprRet.(type) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 2a29425..7f18fc9 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3233,6 +3233,28 @@ func (g JavaExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (string,
 	if err != nil {
 		return "", err
 	}
+	to := expr.ToType.GetTypeID()
+	if from := expr.Expr1.GetExprType(); from != nil {
+		// Java has no unsigned types: widen the value, not its signed representation
+		switch from.GetTypeID() {
+		case definition.TypeID_Uint8:
+			expr1 = fmt.Sprintf("Byte.toUnsignedInt((byte)%s)", expr1)
+		case definition.TypeID_Uint16:
+			expr1 = fmt.Sprintf("Short.toUnsignedInt((short)%s)", expr1)
+		case definition.TypeID_Uint32:
+			expr1 = fmt.Sprintf("Integer.toUnsignedLong((int)%s)", expr1)
+		case definition.TypeID_Uint64:
+			if to.IsFloat() {
+				expr1 = fmt.Sprintf("(%[1]s >= 0 ? (%[2]s)%[1]s : (%[2]s)((%[1]s >>> 1) | (%[1]s & 1L)) * 2)", expr1, ty)
+			}
+		}
+	}
+	if to == definition.TypeID_Uint32 {
+		if _, raw := expr.Expr1.(*definition.RawExpr); !raw {
+			// a float beyond the signed range would saturate
+			return fmt.Sprintf("(%s)(long)%s", ty, expr1), nil
+		}
+	}
 	return fmt.Sprintf("(%s)%s", ty, expr1), nil
 }
 
-- 
2.43.0


From 11e2fafba99f8003526a80660906254d42cdccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 37/73] fix: negative literal as base of ** in JavaScript and
 Python accessors

JavaScript rejected -2.0 ** 2.0, Python applied the sign last.
---
 generator/target/commonjs/commonjs.go | 4 ++++
 generator/target/esm/esm_decode.go    | 4 ++++
 generator/target/python/python.go     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index c143631..9c3f630 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3763,6 +3763,10 @@ func (g CommonJSExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (st
 	if err != nil {
 		return "", err
 	}
+	if expr.Op == definition.ExprOp_POW && strings.HasPrefix(expr1, "-") {
+		// the sign of a literal belongs to the base
+		expr1 = "(" + expr1 + ")"
+	}
 	return fmt.Sprintf("(%s %s %s)", expr1, opStr, expr2), nil
 }
 
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 36c8d8f..ef57ece 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -922,6 +922,10 @@ func (g ESModuleExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (st
 	if err != nil {
 		return "", err
 	}
+	if expr.Op == definition.ExprOp_POW && strings.HasPrefix(expr1, "-") {
+		// the sign of a literal belongs to the base
+		expr1 = "(" + expr1 + ")"
+	}
 	return fmt.Sprintf("(%s %s %s)", expr1, opStr, expr2), nil
 }
 
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index caeafad..75a9deb 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2507,6 +2507,10 @@ func (g PythonExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if expr.Op == definition.ExprOp_POW && strings.HasPrefix(expr1, "-") {
+		// the sign of a literal belongs to the base
+		expr1 = "(" + expr1 + ")"
+	}
 	return fmt.Sprintf("(%s %s %s)", expr1, opStr, expr2), nil
 }
 
-- 
2.43.0


From 1272145e1768c8ba6c69d6513a2775133033b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 38/73] fix: C# enum underlying type for members above 32 bits

---
 generator/target/csharp/csharp.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 97c0efc..3b98952 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2,6 +2,7 @@ package csharp
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"text/template"
 
@@ -1122,7 +1123,7 @@ func (g CSharpGenerator) GenerateEnum(enumDef *definition.Enum) (string, error)
 var enumTemplate = `
 {{- define "enumDef" -}}
     // Enum: {{ .EnumDef.ShortString }}
-    public enum {{ .EnumDef.EnumName }}
+    public enum {{ .EnumDef.EnumName }}{{ if .BaseType }} : {{ .BaseType }}{{ end }}
     {
         {{- range .EnumDef.EnumValues.Values }}
         {{ .EnumValueName }} = {{ .EnumValue }},
@@ -1132,8 +1133,20 @@ var enumTemplate = `
 `
 
 func (g CSharpGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// the default underlying type int cannot hold values of 32 bits and more
+	baseType := ""
+	for _, val := range enumDef.EnumValues.Values() {
+		switch {
+		case val.EnumValue > math.MaxUint32:
+			baseType = "long"
+		case val.EnumValue > math.MaxInt32 && baseType == "":
+			baseType = "uint"
+		}
+	}
+
 	enumDefData := map[string]any{
-		"EnumDef": enumDef,
+		"EnumDef":  enumDef,
+		"BaseType": baseType,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
-- 
2.43.0


From 8d212f2e8252e16bf92158cb392f291bdd5e36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 39/73] fix: Java enums whose members share a number or need 32
 bits

---
 generator/target/java/java.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 7f18fc9..e3b76e9 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1118,7 +1118,7 @@ var enumTemplate = `
 // Enum: {{ .EnumDef.ShortString }}
 public enum {{ .EnumDef.EnumName }} {
     {{- range .EnumDef.EnumValues.Values }}
-    {{ .EnumValueName }}({{ .EnumValue }}),
+    {{ .EnumValueName }}({{ intValue .EnumValue }}),
     {{- end }}
     ;
 
@@ -1150,8 +1150,8 @@ public enum {{ .EnumDef.EnumName }} {
 
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
-        {{- range .EnumDef.EnumValues.Values }}
-            case {{ .EnumValue }}: return {{ .EnumValueName }};
+        {{- range .DistinctValues }}
+            case {{ intValue .EnumValue }}: return {{ .EnumValueName }};
         {{- end }}
             default: return null;
         }
@@ -1165,11 +1165,32 @@ public enum {{ .EnumDef.EnumName }} {
 `
 
 func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// members may share a number: the first one stands for it
+	var distinct []*definition.EnumValue
+	seen := map[int64]bool{}
+	for _, val := range enumDef.EnumValues.Values() {
+		if !seen[val.EnumValue] {
+			seen[val.EnumValue] = true
+			distinct = append(distinct, val)
+		}
+	}
+
+	funcMap := template.FuncMap{
+		// numbers of 32 bits are only valid int literals in hexadecimal
+		"intValue": func(value int64) string {
+			if value > math.MaxInt32 && value <= math.MaxUint32 {
+				return fmt.Sprintf("0x%X", value)
+			}
+			return fmt.Sprint(value)
+		},
+	}
+
 	enumDefData := map[string]any{
-		"EnumDef": enumDef,
+		"EnumDef":        enumDef,
+		"DistinctValues": distinct,
 	}
 
-	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
+	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", funcMap, enumDefData)
 
 	code := &GeneratedType{
 		GeneratedDef: enumDefStr,
-- 
2.43.0


From 8b06d6edc4485a760eef2a55da04707135444d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 40/73] fix: width of an array of structs must be the type's

---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 7e4aec9..c077257 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -530,7 +530,11 @@ func (v *ProtoVisitor) VisitFieldNormal(ctx *parser.FieldNormalContext) any {
 				}
 			}
 		}
-		if _, ok := type_.(*definition.Struct); ok && size != type_Size {
+		structTy := type_
+		if arrTy, ok := type_.(*definition.Array); ok {
+			structTy = arrTy.ElementType
+		}
+		if _, ok := structTy.(*definition.Struct); ok && size != type_Size {
 			return &definition.CompileError{
 				Position: pos,
 				Err: &definition.InvalidSizeError{
-- 
2.43.0


From ae4aff2e51fc97521689ad3a0e621e8910bbfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 41/73] fix: reject negative enum values

---
 compiler/proto_visitor.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index c077257..da016cc 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2380,6 +2380,19 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 		case definition.Literal:
 			switch val := val.(type) {
 			case *definition.IntLiteral:
+				if val.IntValue < 0 {
+					return &definition.CompileError{
+						Position: definition.BasePosition{
+							File:   v.Unit.UnitName.Path,
+							Line:   ctx.Constant().GetStart().GetLine(),
+							Column: ctx.Constant().GetStart().GetColumn(),
+						},
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative"),
+						},
+					}
+				}
 				value = val.IntValue
 			default:
 				return &definition.CompileError{
-- 
2.43.0


From 3579fa4fd43b2f0afa0fd056e0b838477c6b47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 42/73] fix: imports in single quotes

---
 compiler/import_visitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/import_visitor.go b/compiler/import_visitor.go
index b79e9ff..6371f58 100644
--- a/compiler/import_visitor.go
+++ b/compiler/import_visitor.go
@@ -1,6 +1,7 @@
 package compiler
 
 import (
+	"fmt"
 	"strconv"
 
 	"github.com/xaxys/bubbler/definition"
@@ -48,6 +49,10 @@ func (v *ImportVisitor) VisitImportStatement(ctx *parser.ImportStatementContext)
 	}
 
 	fileLit := ctx.StrLit().STR_LIT().GetText()
+	// 'abc' -> "abc"
+	if fileLit[0] == '\'' {
+		fileLit = fmt.Sprintf(`"%s"`, fileLit[1:len(fileLit)-1])
+	}
 	file, err := strconv.Unquote(fileLit)
 	if err != nil {
 		return topLevelErrorWrapper(
-- 
2.43.0


From c512d9217a735f09321ee3f8113eb17dd0f7acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 43/73] fix: a failing generation leaves no output

---
 generator/gen/gen_ctx.go | 51 +++++++++++++++++++++++++---------------
 generator/generator.go   |  7 ++++++
 main.go                  |  6 +++++
 3 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..1a25ad2 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -13,6 +13,35 @@ type GenCtx struct {
 	Units      []*definition.CompilationUnit
 	GenOptions *GenOptions
 	OutputPath string
+
+	outputs []generatedOutput
+}
+
+// generatedOutput is a file, or text for standard output, held back until the
+// whole generation is known to have succeeded.
+type generatedOutput struct {
+	path string // empty: standard output
+	text string
+}
+
+// Flush writes everything generated so far.
+func (ctx *GenCtx) Flush() error {
+	for _, output := range ctx.outputs {
+		if output.path == "" {
+			fmt.Print(output.text)
+			continue
+		}
+		id, err := fileio.GetFileIdentifer(output.path)
+		if err != nil {
+			return err
+		}
+		err = fileio.WriteFileContent(id, output.text)
+		if err != nil {
+			return err
+		}
+	}
+	ctx.outputs = nil
+	return nil
 }
 
 func normalizeGeneratedIndent(text string) string {
@@ -43,8 +72,7 @@ func normalizeGeneratedIndent(text string) string {
 func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return ctx.WriteFileAbs("", text)
 	}
 
 	file := pkg.ToFilePath(ext)
@@ -63,8 +91,7 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		}
 	}
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return ctx.WriteFileAbs("", text)
 	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
@@ -72,20 +99,6 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 
 func (ctx *GenCtx) WriteFileAbs(path string, text string) error {
 	text = normalizeGeneratedIndent(text)
-	if path == "" {
-		fmt.Print(text)
-		return nil
-	}
-
-	id, err := fileio.GetFileIdentifer(path)
-	if err != nil {
-		return err
-	}
-
-	err = fileio.WriteFileContent(id, text)
-	if err != nil {
-		return err
-	}
-
+	ctx.outputs = append(ctx.outputs, generatedOutput{path: path, text: text})
 	return nil
 }
diff --git a/generator/generator.go b/generator/generator.go
index 277b57a..43e9146 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -112,6 +112,13 @@ func Generate(target string, output string, options *gen.GenOptions, units ...*d
 	}
 
 	err, warning := generator.Generate(ctx)
+	if err == nil {
+		if writeErr := ctx.Flush(); writeErr != nil {
+			err = &definition.GenerateError{
+				Err: writeErr,
+			}
+		}
+	}
 
 	return err, warning
 }
diff --git a/main.go b/main.go
index 22d4ecd..189f8c8 100644
--- a/main.go
+++ b/main.go
@@ -212,4 +212,10 @@ func main() {
 		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
 	}
+	if err := ctx.Flush(); err != nil {
+		fmt.Fprintln(os.Stderr, &definition.GenerateError{
+			Err: err,
+		})
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From e0abe29d0300cfffb6204672833163073bde6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 44/73] fix: integer operands of ** in Go accessors

---
 generator/target/golang/golang.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index e0e926a..288fbee 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2902,7 +2902,8 @@ func (g GoExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string,
 		if err != nil {
 			return "", err
 		}
-		return fmt.Sprintf("math.Pow(%s, %s)", expr1, expr2), nil
+		// math.Pow takes float64 only
+		return fmt.Sprintf("math.Pow(float64(%s), float64(%s))", expr1, expr2), nil
 	default:
 		opStr, ok := exprOpToString[expr.Op]
 		if !ok {
-- 
2.43.0


From 87abec28a71990a151addc80a5576abf60b90fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 45/73] fix: pow in C++ accessors is std::pow, fields may have
 that name

---
 generator/target/cpp/cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index dd8ca34..59ba834 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3590,7 +3590,7 @@ func (g CppExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string,
 		if g.GenState != nil {
 			g.GenState.UseMathH = true
 		}
-		return fmt.Sprintf("pow(%s, %s)", expr1, expr2), nil
+		return fmt.Sprintf("std::pow(%s, %s)", expr1, expr2), nil
 	default:
 		opStr, ok := exprOpToString[expr.Op]
 		if !ok {
-- 
2.43.0


From 908dca3a7c8fbd632df8f2eaf25f835d34192edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 46/73] fix: Java hashCode of a field called result

---
 generator/target/java/java.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index e3b76e9..346dc82 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -598,14 +598,14 @@ public final class {{ $structDef.StructName }} {
         {{- $fieldName := TocamelCase $field.FieldName }}
         {{- if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-        result = 31 * result + Arrays.deepHashCode({{ $fieldName }});
+        result = 31 * result + Arrays.deepHashCode(this.{{ $fieldName }});
             {{- else }}
-        result = 31 * result + Arrays.hashCode({{ $fieldName }});
+        result = 31 * result + Arrays.hashCode(this.{{ $fieldName }});
             {{- end }}
         {{- else if $field.FieldType.GetTypeID.IsBytes }}
-        result = 31 * result + Arrays.hashCode({{ $fieldName }});
+        result = 31 * result + Arrays.hashCode(this.{{ $fieldName }});
         {{- else }}
-        result = 31 * result + Objects.hashCode({{ $fieldName }});
+        result = 31 * result + Objects.hashCode(this.{{ $fieldName }});
         {{- end }}
     {{- end }}
     {{- end }}
-- 
2.43.0


From bb7a2f56e949a0c77b65c2449144569dccbc1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 47/73] fix: panic on an uncapitalized name after struct or
 enum in a field type

---
 compiler/proto_visitor.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index da016cc..8efcc62 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2119,7 +2119,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		name := ""
+		nameRet := ctx.StructName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2157,7 +2166,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		name := ""
+		nameRet := ctx.EnumName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0


From f3c38e4aeea6cc8ed8718cfab5d9966fcdfb999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 48/73] fix: sizes whose bit count overflows are rejected

---
 compiler/proto_visitor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 8efcc62..cc6b794 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -893,6 +894,19 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: bytes,
+				Msg:  "size is too large",
+			},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
-- 
2.43.0


From 32afaa5854014f857a8cf7d84c3ce3e9a780cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 49/73] fix: Go generation error in a nested struct was a panic

---
 generator/target/golang/golang.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 288fbee..f31f283 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -774,10 +774,8 @@ func (g GoGenerator) GenerateField(field definition.Field) (string, error) {
 
 var normalFieldTemplate = `
 {{- define "normalField" -}}
-    {{- $field := .Field -}}
     {{- $fieldName := ToPascalCase .Field.FieldName -}}
-    {{- $tyStr := GenerateType $field.FieldType -}}
-    {{ $fieldName }} {{ $tyStr }}
+    {{ $fieldName }} {{ .TypeStr }}
 {{- end -}}
 `
 
@@ -794,15 +792,17 @@ func (g *GoGenerator) GenerateNormalField(field *definition.NormalField) (string
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warning)
 	}
 
-	funcMap := template.FuncMap{
-		"GenerateType": g.GenerateType,
+	typeStr, err := g.GenerateType(field.FieldType)
+	if err != nil {
+		return "", err
 	}
 
 	fieldData := map[string]any{
-		"Field": field,
+		"Field":   field,
+		"TypeStr": typeStr,
 	}
 
-	fieldStr := util.ExecuteTemplate(normalFieldTemplate, "normalField", funcMap, fieldData)
+	fieldStr := util.ExecuteTemplate(normalFieldTemplate, "normalField", nil, fieldData)
 	return fieldStr, nil
 }
 
-- 
2.43.0


From b248f6b1b48cc8ab9adb6bfcad4040f3f827feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:50 +0000
Subject: [PATCH 50/73] fix: Java equals and hashCode disagreed on zeros of
 different sign

---
 generator/target/java/java.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 346dc82..e3c0603 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -572,7 +572,9 @@ public final class {{ $structDef.StructName }} {
     {{- range $field := $structDef.StructFields.Values }}
     {{- if $field.GetFieldKind.IsNormal }}
         {{- $fieldName := TocamelCase $field.FieldName }}
-        {{- if $field.FieldType.GetTypeID.IsBasic }}
+        {{- if $field.FieldType.GetTypeID.IsFloat }}
+        if ({{ if eq $field.FieldType.TypeBitSize 32 }}Float{{ else }}Double{{ end }}.compare(this.{{ $fieldName }}, other.{{ $fieldName }}) != 0) return false;
+        {{- else if $field.FieldType.GetTypeID.IsBasic }}
         if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
         {{- else if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-- 
2.43.0


From 9d17d63119e3ba2fc1e53d52f1aab7eb618b147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 51/73] fix: Kotlin left out structs defined inside structs

---
 generator/target/kotlin/kotlin.go | 34 ++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index bdfef84..7b65a97 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -70,6 +70,38 @@ func kotlinPackage(unit *definition.CompilationUnit) string {
 	return unit.Package.String()
 }
 
+// unitTypes lists the types of the unit, the structs defined inside other
+// structs included.
+func unitTypes(unit *definition.CompilationUnit) []definition.CustomType {
+	var types []definition.CustomType
+	var walk func(ty definition.CustomType)
+	walk = func(ty definition.CustomType) {
+		types = append(types, ty)
+		structDef, ok := ty.(*definition.Struct)
+		if !ok {
+			return
+		}
+		for _, field := range structDef.StructFields.Values() {
+			normalField, ok := field.(*definition.NormalField)
+			if !ok {
+				continue
+			}
+			fieldType := normalField.FieldType
+			if arrayType, ok := fieldType.(*definition.Array); ok {
+				fieldType = arrayType.ElementType
+			}
+			inner, ok := fieldType.(*definition.Struct)
+			if ok && inner.GetBelongs() == unit && !unit.LocalTypes.Has(inner.StructName) {
+				walk(inner)
+			}
+		}
+	}
+	for _, ty := range unit.LocalTypes.Values() {
+		walk(ty)
+	}
+	return types
+}
+
 func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
 		return nil
@@ -87,7 +119,7 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			seen[p] = true
 		}
 	}
-	for _, ty := range unit.LocalTypes.Values() {
+	for _, ty := range unitTypes(unit) {
 		var body string
 		var err error
 		switch t := ty.(type) {
-- 
2.43.0


From dc0a054f52b368bbea1015f0dab4709354ef96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 52/73] fix: Kotlin encoder left void bits of the buffer as
 they were

---
 generator/target/kotlin/kotlin_encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin_encode.go b/generator/target/kotlin/kotlin_encode.go
index 7fe5c59..962650f 100644
--- a/generator/target/kotlin/kotlin_encode.go
+++ b/generator/target/kotlin/kotlin_encode.go
@@ -87,7 +87,9 @@ func (g *KotlinGenerator) emitEncodeSizeValue(b *strings.Builder, ty definition.
 
 func (g *KotlinGenerator) encodeField(field definition.Field, startBits int64, dynamic bool, indent string) (string, error) {
 	switch f := field.(type) {
-	case *definition.VoidField, *definition.EmbeddedField:
+	case *definition.VoidField:
+		return fmt.Sprintf("%sbbWriteFieldBits(data, %s, %dL, 0uL, false)\n", indent, bitBase(startBits, dynamic), f.FieldBitSize), nil
+	case *definition.EmbeddedField:
 		return "", nil
 	case *definition.ConstantField:
 		lit, err := g.literalForType(f.FieldConstant, f.FieldType)
-- 
2.43.0


From d66d76c21e34721711b27c45fd10b0dfc1668f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 53/73] fix: negative float constants in Kotlin did not compile

---
 generator/target/kotlin/kotlin_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/kotlin/kotlin_encode.go b/generator/target/kotlin/kotlin_encode.go
index 962650f..e9fcc45 100644
--- a/generator/target/kotlin/kotlin_encode.go
+++ b/generator/target/kotlin/kotlin_encode.go
@@ -220,9 +220,9 @@ func (g *KotlinGenerator) basicToULong(ty *definition.BasicType, expr string) st
 	case definition.TypeID_Bool:
 		return "(if (" + expr + ") 1uL else 0uL)"
 	case definition.TypeID_Float32:
-		return "" + expr + ".toRawBits().toUInt().toULong()"
+		return "(" + expr + ").toRawBits().toUInt().toULong()"
 	case definition.TypeID_Float64:
-		return "" + expr + ".toRawBits().toULong()"
+		return "(" + expr + ").toRawBits().toULong()"
 	default:
 		return "(" + expr + ").toULong()"
 	}
-- 
2.43.0


From d6d601b4fa53e309e76cee134b738339f4a8cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 54/73] fix: Kotlin minus of a negative literal did not compile

---
 generator/target/kotlin/kotlin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 7b65a97..958bf5a 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -548,7 +548,7 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 		if e.Op == definition.ExprOp_BNOT {
 			return "(" + inner + ").inv()", nil
 		}
-		return "(" + e.Op.String() + inner + ")", nil
+		return "(" + e.Op.String() + "(" + inner + "))", nil
 	case *definition.BinopExpr:
 		left, err := g.generateExpr(e.Expr1, value)
 		if err != nil {
-- 
2.43.0


From 816ae81e08897544c4cc33e2929efa336813a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 55/73] fix: Kotlin equals and hashCode failed for fields named
 other or result; zeros of different sign

---
 generator/target/kotlin/kotlin.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 958bf5a..0aadc97 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -494,21 +494,25 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 			continue
 		}
 		name := util.TocamelCase(f.FieldName)
+		self := "this." + name
 		if f.FieldType.GetTypeID().IsArray() {
 			a := f.FieldType.(*definition.Array)
 			if a.ElementType.GetTypeID().IsBytes() {
-				fmt.Fprintf(&eq, "        if (!%s.contentDeepEquals(other.%s)) return false\n", name, name)
-				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentDeepHashCode()\n", name)
+				fmt.Fprintf(&eq, "        if (!%s.contentDeepEquals(other.%s)) return false\n", self, name)
+				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentDeepHashCode()\n", self)
 			} else {
-				fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
-				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
+				fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", self, name)
+				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", self)
 			}
 		} else if f.FieldType.GetTypeID().IsBytes() {
-			fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
-			fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
+			fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", self, name)
+			fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", self)
+		} else if f.FieldType.GetTypeID().IsFloat() {
+			fmt.Fprintf(&eq, "        if (%s.compareTo(other.%s) != 0) return false\n", self, name)
+			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", self)
 		} else {
-			fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
-			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", name)
+			fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", self, name)
+			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", self)
 		}
 	}
 	eq.WriteString("        return true\n    }\n\n")
-- 
2.43.0


From 69d28c8fc10dd41b78ad9030d15a427b118934ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:43 +0000
Subject: [PATCH 56/73] fix: Python decoded bool fields to integers

A bool field wider than one bit took the value of its bits, such as 128,
where every other target decodes any non-zero bits as true.
---
 generator/target/python/python.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 75a9deb..2ab2109 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2159,6 +2159,10 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = ((%s) ^ %s) - %s", tempName, tempName, g.generateHex(signMask), g.generateHex(signMask)))
 				}
 
+				if elemTyType.GetTypeID().IsBool() {
+					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = bool(%s)", tempName, tempName))
+				}
+
 				if elemTyType.GetTypeID().IsFloat() {
 					tyID := typeMapStructPackID[elemTyType.GetTypeID()]
 					tyUintID := typeMapStructPackID[typeSizeMapUint[elemTyType.GetTypeBitSize()]]
@@ -2353,6 +2357,11 @@ func (g PythonGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			}
 		}
 
+		// any non-zero bit makes a bool true
+		if ty.GetTypeID().IsBool() {
+			decodeStmts = append(decodeStmts, fmt.Sprintf("%s = bool(%s)", fieldNameStr, fieldNameStr))
+		}
+
 		// cast to float
 		if ty.GetTypeID().IsFloat() {
 			tyUintID := typeSizeMapUint[ty.TypeBitSize]
-- 
2.43.0


From 25e44fb64e9eee53fdfe45785f3de765bded223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 57/73] fix: JavaScript decode ran past the end of a string
 that is not UTF-8

A character cut short by the terminator took the terminator and the bytes
after it, so that decode lost its place in the message, or raised when the
message ended, where decode_size had found the right end.
---
 generator/target/commonjs/commonjs.go | 16 ++++++++++++++++
 generator/target/esm/esm.go           | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 9c3f630..a566cb9 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -478,6 +478,14 @@ var fileTemplate = `
         var offset = start;
         while (offset < data.length && data[offset] && data[offset] !== 0) {
             var code = data[offset++];
+            // a character cut short must not swallow what follows it
+            var more = code < 0x80 ? 0 : code < 0xE0 ? 1 : code < 0xF0 ? 2 : 3;
+            var have = 0;
+            while (have < more && (data[offset + have] & 0xC0) === 0x80) have++;
+            if (have < more) {
+                str += "\uFFFD";
+                continue;
+            }
             if (code < 0x80) str += String.fromCharCode(code);
             else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
             else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
@@ -834,6 +842,14 @@ var fileTemplate = `
         var offset = start;
         while (offset < data.length && data[offset] && data[offset] !== 0) {
             var code = data[offset++];
+            // a character cut short must not swallow what follows it
+            var more = code < 0x80 ? 0 : code < 0xE0 ? 1 : code < 0xF0 ? 2 : 3;
+            var have = 0;
+            while (have < more && (data[offset + have] & 0xC0) === 0x80) have++;
+            if (have < more) {
+                str += "\uFFFD";
+                continue;
+            }
             if (code < 0x80) str += String.fromCharCode(code);
             else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
             else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 48f4ae2..1db75d9 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -458,6 +458,14 @@ function stringFromUTF8Bytes(data, start) {
     let offset = start;
     while (offset < data.length && data[offset] && data[offset] !== 0) {
         let code = data[offset++];
+        // a character cut short must not swallow what follows it
+        let more = code < 0x80 ? 0 : code < 0xE0 ? 1 : code < 0xF0 ? 2 : 3;
+        let have = 0;
+        while (have < more && (data[offset + have] & 0xC0) === 0x80) have++;
+        if (have < more) {
+            str += "\uFFFD";
+            continue;
+        }
         if (code < 0x80) str += String.fromCharCode(code);
         else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
         else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
@@ -780,6 +788,14 @@ function stringFromUTF8Bytes(data, start) {
     let offset = start;
     while (offset < data.length && data[offset] && data[offset] !== 0) {
         let code = data[offset++];
+        // a character cut short must not swallow what follows it
+        let more = code < 0x80 ? 0 : code < 0xE0 ? 1 : code < 0xF0 ? 2 : 3;
+        let have = 0;
+        while (have < more && (data[offset + have] & 0xC0) === 0x80) have++;
+        if (have < more) {
+            str += "\uFFFD";
+            continue;
+        }
         if (code < 0x80) str += String.fromCharCode(code);
         else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
         else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
-- 
2.43.0


From 727e99a350025f42f912d35b472c2c6ac2ef180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 58/73] fix: Kotlin decodeSize accepted lengths that overflow
 an Int

The sum with the offset wrapped around, so that decodeSize took an
incomplete message for a complete one and decode raised.
---
 generator/target/kotlin/kotlin_decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/kotlin/kotlin_decode.go b/generator/target/kotlin/kotlin_decode.go
index cbfdfe9..2cd365f 100644
--- a/generator/target/kotlin/kotlin_decode.go
+++ b/generator/target/kotlin/kotlin_decode.go
@@ -89,12 +89,14 @@ func (g *KotlinGenerator) emitDecodeSizeValue(b *strings.Builder, ty definition.
 		fmt.Fprintf(b, "%s    while (true) {\n", indent)
 		fmt.Fprintf(b, "%s        if (data.size <= %s) return -(%s + 1 - start)\n", indent, pos, pos)
 		fmt.Fprintf(b, "%s        val part = data[%s].toInt() and 0xFF\n", indent, pos)
+		fmt.Fprintf(b, "%s        if (shift == 28 && (part and 0x78) != 0) return -1\n", indent)
 		fmt.Fprintf(b, "%s        length = length or ((part and 0x7F) shl shift)\n", indent)
 		fmt.Fprintf(b, "%s        offset++\n", indent)
 		fmt.Fprintf(b, "%s        if ((part and 0x80) == 0) break\n", indent)
 		fmt.Fprintf(b, "%s        shift += 7\n", indent)
 		fmt.Fprintf(b, "%s        if (shift > 28) return -1\n", indent)
 		fmt.Fprintf(b, "%s    }\n", indent)
+		fmt.Fprintf(b, "%s    if (length > Int.MAX_VALUE - offset - %d) return -1\n", indent, fromByte)
 		fmt.Fprintf(b, "%s    if (data.size - start < offset + %d + length) return -(offset + %d + length)\n", indent, fromByte, fromByte)
 		fmt.Fprintf(b, "%s    offset += length\n", indent)
 		fmt.Fprintf(b, "%s}\n", indent)
-- 
2.43.0


From 1ea85ce74597f9534ad50d273c1957d4793ec2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 59/73] fix: Java decodeSize accepted lengths that overflow an
 int

The length, or its sum with the offset, wrapped around, so that decodeSize
took an incomplete message for a complete one and decode raised. Such
lengths are refused as in the JavaScript targets.
---
 generator/target/java/java.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index e3c0603..aaea2f7 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2181,13 +2181,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - offset - {{ $fromByte }}) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2198,13 +2201,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - offset - {{ $fromByte }}) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2245,13 +2251,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - offset - {{ $fromByte }}) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
-- 
2.43.0


From 75ddc9e60f9eaa8e0f29666ba7317860c7e5d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 60/73] fix: C# DecodeSize accepted lengths that overflow an
 int

The length, or its sum with the offset, wrapped around, so that DecodeSize
took an incomplete message for a complete one and Decode raised. Such
lengths are refused as in the JavaScript targets.
---
 generator/target/csharp/csharp.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 3b98952..aff99b6 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2289,26 +2289,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0)) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2321,26 +2327,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0)) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2401,26 +2413,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0)) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0)) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
-- 
2.43.0


From 97707443f3475746b47e3434dead7d558921e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 61/73] fix: C decode_size accepted lengths that overflow 64
 bits

The length, or its sum with the offset, wrapped around, so that decode_size
took an incomplete message for a complete one, read outside the buffer, and
let decode do the same. Such lengths are refused as in the Go target.
---
 generator/target/c/c.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index dd24b80..4214a2f 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2326,13 +2326,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - offset - {{ $fromByte }}) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2343,13 +2346,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - offset - {{ $fromByte }}) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2392,13 +2398,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - offset - {{ $fromByte }}) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
-- 
2.43.0


From 906dc9f0e623b4f22f07e9cd5b5cc95c7d31a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:08 +0000
Subject: [PATCH 62/73] fix: C++ decode_size accepted lengths that overflow 64
 bits

The length, or its sum with the offset, wrapped around, so that decode_size
took an incomplete message for a complete one, read outside the buffer, and
let decode do the same. Such lengths are refused as in the Go target.
---
 generator/target/cpp/cpp.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 59ba834..b82dbaa 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2498,13 +2498,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - offset - {{ $fromByte }}) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2515,13 +2518,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - offset - {{ $fromByte }}) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2573,13 +2579,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - offset - {{ $fromByte }}) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
-- 
2.43.0


From 96fdca4874efc65cd1804f80a43831751e228f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 63/73] fix: C and C++ decoded bool fields to bytes other than
 0 and 1

A bool field wider than one bit took the bits as they were, which leaves an
invalid bool in the object, where array loops and the other targets take any
non-zero bits as true.
---
 generator/target/c/c.go     | 5 +++++
 generator/target/cpp/cpp.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 4214a2f..cbaa3c9 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3077,6 +3077,11 @@ func (g CGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldType
 				panic(fmt.Errorf("internal error: %s", err))
 			}
 
+			// any non-zero bit makes a bool true
+			if ty.GetTypeID().IsBool() {
+				exprExpStr = fmt.Sprintf("(%s) != 0", exprExpStr)
+			}
+
 			decodeNormalFieldBasicTypeData := map[string]any{
 				"TyUint":    tyUint,
 				"FieldName": fieldNameStr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index b82dbaa..c474c1b 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3362,6 +3362,11 @@ func (g CppGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldTy
 				panic(fmt.Errorf("internal error: %s", err))
 			}
 
+			// any non-zero bit makes a bool true
+			if ty.GetTypeID().IsBool() {
+				exprExpStr = fmt.Sprintf("(%s) != 0", exprExpStr)
+			}
+
 			decodeNormalFieldBasicTypeData := map[string]any{
 				"TyUint":    tyUint,
 				"FieldName": fieldNameStr,
-- 
2.43.0


From 27a5becb3427400b6fd9625e76268b48140bebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 64/73] fix: C files after the first did not include stdlib.h
 with -memcpy

---
 generator/target/c/c.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index cbaa3c9..bc8f9df 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -506,6 +506,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	// clear state for next unit
 	g.GenState.Reset()
+	g.GenState.UseStdLibH = g.GenCtx.GenOptions.MemoryCopy
 
 	return nil
 }
-- 
2.43.0


From e7eb72d94715bcfb694b7421591d358626e0645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:33 +0000
Subject: [PATCH 65/73] fix: C and C++ array setters ignored the length they
 are given

---
 generator/target/c/c.go     | 6 +++---
 generator/target/cpp/cpp.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index bc8f9df..d5e497d 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1318,9 +1318,9 @@ void {{ $structName }}_set_{{ $fieldName }}(struct {{ $structName }}* ptr, {{ $p
 // RawSetterArray: {{ $structName }}_set_{{ $fieldName }}
 {{ if .GenOptions.SingleFile }}static {{ end -}}
 void {{ $structName }}_set_{{ $fieldName }}(struct {{ $structName }}* ptr, {{ $elemTyStr }}* value, uint64_t length) {
-{{- range $i := iterate 0 $length }}
-    ptr->{{ $fieldName }}[{{ $i }}] = value[{{ $i }}];
-{{- end }}
+    for (uint64_t i = 0; i < length && i < {{ $length }}; i++) {
+        ptr->{{ $fieldName }}[i] = value[i];
+    }
 }
 
 // RawSetterArrayItem: {{ $structName }}_set_{{ $fieldName }}_item
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index c474c1b..d48c21a 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1398,9 +1398,9 @@ var rawSetterTemplate = `
 {{- $structName := .FieldDef.FieldBelongs.StructName -}}
     // RawSetterArray: {{ $structName }}::set_{{ $fieldName }}
     void {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}set_{{ $fieldName }}(const {{ $elemTyStr }}* value, uint64_t length) {
-    {{- range $i := iterate 0 $length }}
-        this->{{ $fieldName }}[{{ $i }}] = value[{{ $i }}];
-    {{- end }}
+        for (uint64_t i = 0; i < length && i < {{ $length }}; i++) {
+            this->{{ $fieldName }}[i] = value[i];
+        }
     }
 
     // RawSetterArrayItem: {{ $structName }}::set_{{ $fieldName }}_item
-- 
2.43.0


From fce120749cea4d547e9fdff74d6cce8009a7b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 66/73] fix: the negation of a negative number in an accessor
 became a decrement

-(-1) was written as (--1), which C, C++, C#, Java, JavaScript and Go reject,
and (-2.0) ** 2.0 as -2.0 ** 2.0, which is -4 in Python and an error in ESM.
---
 generator/gen/gen_dispatcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index ae193e0..ee8432a 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -152,7 +152,12 @@ func (d *GenExprDispatcher) AcceptExpr(expr definition.Expr) (string, error) {
 	case *definition.CastExpr:
 		return d.ExprGeneratorImpl.GenerateCastExpr(val)
 	case *definition.ConstantExpr:
-		return d.ExprGeneratorImpl.GenerateConstantExpr(val)
+		str, err := d.ExprGeneratorImpl.GenerateConstantExpr(val)
+		if err == nil && strings.HasPrefix(str, "-") {
+			// keep the sign with its number: "--1" is a decrement
+			str = "(" + str + ")"
+		}
+		return str, err
 	case *definition.TenaryExpr:
 		return d.ExprGeneratorImpl.GenerateTenaryExpr(val)
 	case *definition.ValueExpr:
-- 
2.43.0


From c70df602a19bef963640436532a9604048405454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:32 +0000
Subject: [PATCH 67/73] fix: a file imported by an absolute path that is not
 clean counted as another file

import "/a/b/../c.bb" and import "c.bb" in /a gave a duplicate package error.
---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From 9097a026ef976180001348c0d57b9a3b5cd9abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 68/73] fix: C++ type names were looked up from inner
 namespaces

A package like x.y.x could not use types of package x, nor x those of x.x.
---
 generator/target/cpp/cpp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index d48c21a..6fb6c2f 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -583,13 +583,14 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 // ==================== Namespace ====================
 
-// namespaceOf returns the C++ namespace the types of the unit are defined in.
+// namespaceOf returns the C++ namespace the types of the unit are defined in,
+// from the global one: a component of the name may occur in inner namespaces.
 func namespaceOf(unit *definition.CompilationUnit) string {
 	if ns, ok := unit.Options.Get("cpp_namespace"); ok {
 		str := fmt.Sprint(ns.OptionValue)
-		return str[1 : len(str)-1]
+		return "::" + str[1:len(str)-1]
 	}
-	return unit.Package.ToPath("::", "")
+	return "::" + unit.Package.ToPath("::", "")
 }
 
 // ==================== GenerateType ====================
-- 
2.43.0


From 16b9a90060090ec81ee61a68bfc53ab6e574bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:26 +0000
Subject: [PATCH 69/73] fix: a C or C++ header with the same relative name hid
 the included one

---
 generator/gen/gen_util.go   | 25 +++++++++++++++++++++++++
 generator/target/c/c.go     | 14 ++++----------
 generator/target/cpp/cpp.go | 14 ++++----------
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 61a3e0d..f921302 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -3,6 +3,7 @@ package gen
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
@@ -56,6 +57,30 @@ func AllImports(unit *definition.CompilationUnit) []*definition.CompilationUnit
 	return imports
 }
 
+// IncludePath returns the path by which the C or C++ file generated for package
+// cur includes the header of package other.
+//
+// It is the path from the output directory, or from cur's own directory if
+// relative paths are asked for. It is also the latter if the former names a
+// different header when it is looked up in cur's directory, which comes first
+// (e.g. "common.bb.h", included from the package proto.common).
+func (ctx *GenCtx) IncludePath(cur, other *definition.Package, ext string) string {
+	path := other.ToFilePath(ext)
+	relative := ctx.GenOptions.RelativePath
+	for _, unit := range ctx.Units {
+		if len(cur.PackagePath) == 0 || IsOmitted(unit) {
+			continue
+		}
+		if unit.Package.ToFilePath(ext) == strings.Join(cur.PackagePath, "/")+"/"+path {
+			relative = true
+		}
+	}
+	if relative {
+		return cur.ToRelativePathStrict(other, ext)
+	}
+	return path
+}
+
 // ConstantFieldBits returns the bit pattern that a constant field has on the
 // wire, as an unsigned number of field.GetFieldBitSize() bits.
 func ConstantFieldBits(field *definition.ConstantField) uint64 {
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index d5e497d..4fbd025 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -336,11 +336,7 @@ struct bytes {
 {{ $curUnit := .Unit -}}
 {{ if .Imports -}}
 {{ range $unit := .Imports -}}
-{{ if $.GenOptions.RelativePath -}}
-#include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
-{{ else -}}
-#include "{{ $unit.Package.ToFilePath ".bb.h" }}"
-{{ end -}}
+#include "{{ $.GenCtx.IncludePath $curUnit.Package $unit.Package ".bb.h" }}"
 {{ end }}
 {{ end -}}
 
@@ -379,11 +375,7 @@ struct bytes {
 #include <stdint.h>
 {{- end }}
 
-{{ if .GenOptions.RelativePath -}}
-#include "{{ .Unit.Package.ToRelativePathStrict .Unit.Package ".bb.h" }}"
-{{ else -}}
-#include "{{ .Unit.Package.ToFilePath ".bb.h" }}"
-{{ end -}}
+#include "{{ .GenCtx.IncludePath .Unit.Package .Unit.Package ".bb.h" }}"
 
 {{ if .UseBitHelpers }}
 {{ template "bitHelpers" . }}
@@ -484,6 +476,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"UseStdLibH":   g.GenState.UseStdLibH,
 		"UseBytesType": g.GenState.UseBytesType,
 		"GenOptions":   g.GenCtx.GenOptions,
+		"GenCtx":       g.GenCtx,
 	}
 	headerStr := util.ExecuteTemplate(fileTemplate, "headerFile", nil, headerData)
 	err := g.GenCtx.WritePackage(unit.Package, ".bb.h", headerStr)
@@ -497,6 +490,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"UseMathH":      g.GenState.UseMathH,
 		"UseBitHelpers": g.GenState.UseBitHelpers,
 		"GenOptions":    g.GenCtx.GenOptions,
+		"GenCtx":        g.GenCtx,
 	}
 	sourceStr := util.ExecuteTemplate(fileTemplate, "sourceFile", nil, sourceData)
 	err = g.GenCtx.WritePackage(unit.Package, ".bb.c", sourceStr)
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 6fb6c2f..0ef4c11 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -346,11 +346,7 @@ struct bytes {
 {{ $curUnit := .Unit -}}
 {{ if .Imports -}}
 {{ range $unit := .Imports -}}
-{{ if $.GenOptions.RelativePath -}}
-#include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
-{{ else -}}
-#include "{{ $unit.Package.ToFilePath ".bb.hpp" }}"
-{{ end -}}
+#include "{{ $.GenCtx.IncludePath $curUnit.Package $unit.Package ".bb.hpp" }}"
 {{ end }}
 {{ end -}}
 
@@ -400,11 +396,7 @@ namespace {{ .Unit.Package.ToPath "::" "" }}
 #include <cstdint>
 {{- end }}
 
-{{ if .GenOptions.RelativePath -}}
-#include "{{ .Unit.Package.ToRelativePathStrict .Unit.Package ".bb.hpp" }}"
-{{ else -}}
-#include "{{ .Unit.Package.ToFilePath ".bb.hpp" }}"
-{{ end -}}
+#include "{{ .GenCtx.IncludePath .Unit.Package .Unit.Package ".bb.hpp" }}"
 
 {{ if .UseBitHelpers }}
 {{ template "bitHelpers" . }}
@@ -554,6 +546,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"UseStdLibH":   g.GenState.UseStdLibH,
 		"UseBytesType": g.GenState.UseBytesType,
 		"GenOptions":   g.GenCtx.GenOptions,
+		"GenCtx":       g.GenCtx,
 	}
 
 	headerStr := util.ExecuteTemplate(fileTemplate, "headerFile", nil, headerData)
@@ -568,6 +561,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"UseMathH":      g.GenState.UseMathH,
 		"UseBitHelpers": g.GenState.UseBitHelpers,
 		"GenOptions":    g.GenCtx.GenOptions,
+		"GenCtx":        g.GenCtx,
 	}
 	sourceStr := util.ExecuteTemplate(fileTemplate, "sourceFile", nil, sourceData)
 	err = g.GenCtx.WritePackage(unit.Package, ".bb.cpp", sourceStr)
-- 
2.43.0


From 28161dbae6d96c7fd238a5fa57e6d8c6a9889dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 70/73] fix: packages whose names are alike in capitals shared
 an include guard

---
 generator/gen/gen_util.go   | 17 +++++++++++++++++
 generator/target/c/c.go     |  8 ++++----
 generator/target/cpp/cpp.go |  8 ++++----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index f921302..84d942b 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"hash/fnv"
 	"math"
 	"strings"
 
@@ -57,6 +58,22 @@ func AllImports(unit *definition.CompilationUnit) []*definition.CompilationUnit
 	return imports
 }
 
+// HeaderGuard returns the name, unique to the package, of the include guard of
+// the header generated for it.
+//
+// The name in capitals alone would not be unique if the package has underscores
+// or capitals (e.g. the packages a.b_c, a.b.c and a.bC).
+func HeaderGuard(pkg *definition.Package, suffix string) string {
+	name := pkg.ToPath("_", "")
+	guard := "__" + util.ToALLCAP_CASE(name)
+	if strings.Contains(pkg.String(), "_") || name != strings.ToLower(name) {
+		hash := fnv.New32a()
+		hash.Write([]byte(pkg.String()))
+		guard += fmt.Sprintf("_%08X", hash.Sum32())
+	}
+	return guard + suffix
+}
+
 // IncludePath returns the path by which the C or C++ file generated for package
 // cur includes the header of package other.
 //
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 4fbd025..7857f83 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -301,7 +301,6 @@ static uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 {{- end -}}
 
 {{- define "headerFile" -}}
-{{- $allCapName := ToALLCAP_CASE (.Unit.Package.ToPath "_" "") -}}
 // Target: C (header)
 // Generated by bubbler
 // DO NOT EDIT
@@ -309,8 +308,8 @@ static uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 // {{ $line }}
 {{- end }}
 #pragma once
-#ifndef __{{ $allCapName }}_BB_H
-#define __{{ $allCapName }}_BB_H
+#ifndef {{ .HeaderGuard }}
+#define {{ .HeaderGuard }}
 
 #include <stdbool.h>
 #include <stddef.h>
@@ -357,7 +356,7 @@ struct bytes {
 /* ==================== End {{ $entry.Key }} ==================== */
 
 {{ end -}}
-#endif // __{{ $allCapName }}_BB_H
+#endif // {{ .HeaderGuard }}
 {{ end }}
 
 {{- define "sourceFile" -}}
@@ -469,6 +468,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	genTypes := g.GenTypes.Sub(start, end)
 
 	headerData := map[string]any{
+		"HeaderGuard":  gen.HeaderGuard(unit.Package, "_BB_H"),
 		"Unit":         unit,
 		"Imports":      gen.DirectImports(unit),
 		"GenTypes":     genTypes,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 0ef4c11..6402bc1 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -304,7 +304,6 @@ inline uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 {{- end -}}
 
 {{- define "headerFile" -}}
-{{- $allCapName := ToALLCAP_CASE (.Unit.Package.ToPath "_" "") -}}
 // Target: C++ (header)
 // Generated by bubbler
 // DO NOT EDIT
@@ -312,8 +311,8 @@ inline uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 // {{ $line }}
 {{- end }}
 #pragma once
-#ifndef __{{ $allCapName }}_BB_HPP
-#define __{{ $allCapName }}_BB_HPP
+#ifndef {{ .HeaderGuard }}
+#define {{ .HeaderGuard }}
 
 #include <cstdbool>
 #include <cstddef>
@@ -378,7 +377,7 @@ namespace {{ .Unit.Package.ToPath "::" "" }}
 } // namespace {{ .Unit.Package.ToPath "::" "" }}
 
 {{ end -}}
-#endif // __{{ $allCapName }}_BB_HPP
+#endif // {{ .HeaderGuard }}
 {{ end }}
 
 {{- define "sourceFile" -}}
@@ -539,6 +538,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	}
 
 	headerData := map[string]any{
+		"HeaderGuard":  gen.HeaderGuard(unit.Package, "_BB_HPP"),
 		"Unit":         unit,
 		"Imports":      gen.DirectImports(unit),
 		"GenTypes":     genTypes,
-- 
2.43.0


From 14627012c1c861ebba72d5ee7ab18539024b1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:28 +0000
Subject: [PATCH 71/73] fix: C# took a type of another package for a namespace
 of the same name

---
 generator/target/csharp/csharp.go | 39 ++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index aff99b6..950686f 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -27,6 +27,7 @@ type GeneratedType struct {
 // the bb_write/read_field_bits helper pair.
 type CSharpGeneratorState struct {
 	UseBitHelpers bool
+	Namespace     string // of the unit being generated
 }
 
 type CSharpGenerator struct {
@@ -307,6 +308,7 @@ func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	}
 
 	g.GenUnits.Put(unit.Package.String(), genUnit)
+	g.GenState.Namespace = namespaceOf(unit)
 
 	start := g.GenTypes.Len()
 
@@ -343,6 +345,27 @@ func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	return nil
 }
 
+// ==================== Namespace ====================
+
+// namespaceOf returns the C# namespace the types of the unit are defined in.
+func namespaceOf(unit *definition.CompilationUnit) string {
+	if ns, ok := unit.Options.Get("csharp_namespace"); ok {
+		str := fmt.Sprint(ns.OptionValue)
+		return util.ToPascalCase(str[1 : len(str)-1])
+	}
+	return util.ToPascalCase(unit.Package.String())
+}
+
+// typeName returns the name by which the unit being generated refers to a type.
+// A type of another namespace is named in full: its name alone could be that of
+// a namespace that is looked up first.
+func (g CSharpGenerator) typeName(belongs *definition.CompilationUnit, name string) string {
+	if ns := namespaceOf(belongs); ns != g.GenState.Namespace {
+		return "global::" + ns + "." + name
+	}
+	return name
+}
+
 // ==================== GenerateType ====================
 
 func (g CSharpGenerator) GenerateType(type_ definition.Type) (string, error) {
@@ -694,7 +717,7 @@ var structTemplate = `
 `
 
 func (g CSharpGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := structDef.StructName
+	name := g.typeName(structDef.StructBelongs, structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -803,7 +826,7 @@ func (g CSharpGenerator) generateStruct(structDef *definition.Struct) (*Generate
 // ==================== GenerateStructDefaultValue ====================
 
 func (g CSharpGenerator) GenerateStructDefaultValue(structDef *definition.Struct) (string, error) {
-	return fmt.Sprintf("new %s()", structDef.StructName), nil
+	return fmt.Sprintf("new %s()", g.typeName(structDef.StructBelongs, structDef.StructName)), nil
 }
 
 // ==================== GenerateField ====================
@@ -1098,7 +1121,7 @@ func (g CSharpGenerator) GenerateRawGetterSetter(field definition.Field) (string
 // ==================== GenerateEnum ====================
 
 func (g CSharpGenerator) GenerateEnum(enumDef *definition.Enum) (string, error) {
-	name := enumDef.EnumName
+	name := g.typeName(enumDef.EnumBelongs, enumDef.EnumName)
 	// check if this enum is already generated
 	if g.GenTypes.Has(enumDef.EnumName) {
 		return name, nil
@@ -2936,7 +2959,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 
 		decodeNormalFieldTempVarAssignEnumData := map[string]any{
 			"FieldName": g.generateDecodeStructFieldName(field.FieldName),
-			"EnumName":  ty.EnumName,
+			"EnumName":  g.typeName(ty.EnumBelongs, ty.EnumName),
 			"TempName":  tempName,
 		}
 
@@ -2999,11 +3022,11 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 				loopStmts = append(loopStmts, util.IndentSpace(stmt, 4))
 			}
 
-			switch ty.ElementType.(type) {
+			switch elemTy := ty.ElementType.(type) {
 			case *definition.Enum:
 				decodeNormalFieldTempVarAssignEnumData := map[string]any{
 					"TempName":  subName,
-					"EnumName":  ty.ElementType.(*definition.Enum).EnumName,
+					"EnumName":  g.typeName(elemTy.EnumBelongs, elemTy.EnumName),
 					"FieldName": fmt.Sprintf("%s[_i]", name),
 				}
 				assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
@@ -3062,7 +3085,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(%s)_v", elemTyT.EnumName)
+				common["Expr"] = fmt.Sprintf("(%s)_v", g.typeName(elemTyT.EnumBelongs, elemTyT.EnumName))
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
@@ -3175,7 +3198,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 				case *definition.Enum:
 					decodeNormalFieldTempVarAssignEnumData := map[string]any{
 						"TempName":  subName,
-						"EnumName":  elemTy.EnumName,
+						"EnumName":  g.typeName(elemTy.EnumBelongs, elemTy.EnumName),
 						"FieldName": fmt.Sprintf("%s[%d]", name, i),
 					}
 					assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-- 
2.43.0


From 7e013dbacf6554421797b7956ed88050be2ca6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:55 +0000
Subject: [PATCH 72/73] fix: Python class without attributes had an empty
 __init__

---
 generator/target/python/python.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 2ab2109..9bc381a 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -403,6 +403,9 @@ class {{ $structDef.StructName }}:
     {{- range $fieldStr := $fieldStrs }}
         {{ $fieldStr }}
     {{- end }}
+    {{- if not .HasAttr }}
+        pass
+    {{- end }}
 
     {{ .StructConstStr }}
     {{- range $methodStr := .MethodStrs }}
@@ -441,12 +444,17 @@ func (g PythonGenerator) GenerateStruct(structDef *definition.Struct) (string, e
 
 func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*GeneratedType, error) {
 	fieldInitStrs := make([]string, structDef.StructFields.Len())
+	hasAttr := false // __init__ needs at least one statement
 	if err := structDef.ForEachFieldWithPos(func(field definition.Field, index int, start int64, dynamic bool, pos string) error {
 		fieldStr, err := g.GenerateField(field)
 		if err != nil {
 			return err
 		}
 
+		if fieldStr != "" {
+			hasAttr = true
+		}
+
 		fieldData := map[string]any{
 			"Pos":      pos,
 			"Field":    field,
@@ -512,6 +520,7 @@ func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*Generate
 	defData := map[string]any{
 		"StructDef":      structDef,
 		"FieldStrs":      fieldInitStrs,
+		"HasAttr":        hasAttr,
 		"StructConstStr": constStr,
 		"MethodStrs":     methodStrs,
 		"EncoderStr":     encoderStr,
-- 
2.43.0


From 9629c09abbf4c8d9d57ca95d7adcdf2dafee36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:43 +0000
Subject: [PATCH 73/73] fix: a failure to print the generated code was reported
 as success

---
 generator/gen/gen_ctx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index 1a25ad2..b46f5dc 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -28,7 +28,9 @@ type generatedOutput struct {
 func (ctx *GenCtx) Flush() error {
 	for _, output := range ctx.outputs {
 		if output.path == "" {
-			fmt.Print(output.text)
+			if _, err := fmt.Print(output.text); err != nil {
+				return err
+			}
 			continue
 		}
 		id, err := fileio.GetFileIdentifer(output.path)
-- 
2.43.0

