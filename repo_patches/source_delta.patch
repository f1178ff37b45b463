From a13242d701d4cfe76695b9d2cd3845fd16b8b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 01/54] fix: report element errors while encoding arrays

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..11ab38b 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err := packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..b140487 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err := packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From baee0e05325a8764ada61b19cb6064ea6b041aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 02/54] fix: report a packing descriptor that cannot be read

---
 ztype/delta_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
-- 
2.43.0


From c8d022b9906d945a1e29711851db76ea32bc5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 03/54] fix: size varint, varuint and varuint16 array elements
 by their own limits

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..e105ae5 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -290,7 +290,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -609,7 +609,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
-- 
2.43.0


From 18428180816706dc1cd47a08f5ee270fd63e7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 04/54] fix: size array and string length headers as the
 varsize that is written

---
 ztype/array.go        |  4 ++--
 ztype/array_traits.go | 11 ++---------
 ztype/object_array.go |  4 ++--
 3 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..90da332 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -42,7 +42,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -74,7 +74,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index e105ae5..be58d03 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -857,15 +857,8 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
-	if err != nil {
-		return 0
-	}
-
-	// the total size of a string is 8 bits for each (UTF-8) character, and a
-	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	bitSize, _ := BitSizeOfString(element)
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..54603de 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -29,7 +29,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -64,7 +64,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 437baec33e8bda08d9186b2972b842cb935e8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 05/54] fix: size varuint16 array elements with the two-byte
 limit

---
 ztype/array_traits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index be58d03..50eef3f 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -474,7 +474,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
-- 
2.43.0


From aad27e692244c12629da5f421c17143585be77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 06/54] fix: count the length header of bytes and extern values
 in their size

---
 internal/generator/templates/builtin_bitsizeof.go.tmpl |  4 ++--
 ztype/array_traits.go                                  |  6 ++++--
 ztype/bytes_encode.go                                  | 10 ++++++++++
 ztype/extern_encode.go                                 | 10 ++++++++++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d45c3ca 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 50eef3f..0c49b65 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -902,7 +902,8 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	bitSize, _ := BitSizeOfExtern(element)
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -946,7 +947,8 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	bitSize, _ := BitSizeOfBytes(element)
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..26f0cd4 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -13,3 +13,13 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 	}
 	return nil
 }
+
+// BitSizeOfBytes returns the zserio bit size of a bytes type.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	// the number of bytes is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + 8*int(b.ByteSize), nil
+}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..bfdc9bb 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -26,3 +26,13 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 	}
 	return nil
 }
+
+// BitSizeOfExtern returns the zserio bit size of an extern type.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	// the number of bits is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
-- 
2.43.0


From 9da4d3dc862bf1296b203dce51a8949fbe7bf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 07/54] fix: do not align constant-size array elements that
 carry no offsets

---
 ztype/array.go        | 2 +-
 ztype/object_array.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index 90da332..000da57 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -51,7 +51,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 54603de..ba29648 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -41,7 +41,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
-- 
2.43.0


From d511634665314e04c98994a4844ab1706bac2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 08/54] fix: reject the smallest 64-bit integer in varint types
 that cannot store it

---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..14d9ad6 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,14 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// The magnitude has no int64 representation. Only varint can store
+		// the value, as a special single byte.
+		if maxBytes == 9 {
+			return 8, nil
+		}
+		return 0, ErrOutOfBounds
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From e8065c7f9a5f36d5720240f9e1ad1fc613f5a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 09/54] fix: reject bytes and extern values whose size
 disagrees with their buffer

---
 ztype/bytes_encode.go  | 13 ++++++++++++-
 ztype/extern_encode.go |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 26f0cd4..2d3498a 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -1,9 +1,20 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
+
+// ErrBufferSizeMismatch is returned when you try to write a bytes or extern
+// type whose size does not match the length of its buffer.
+var ErrBufferSizeMismatch = errors.New("size does not match the buffer length")
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b.ByteSize != uint64(len(b.Buffer)) {
+		return ErrBufferSizeMismatch
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index bfdc9bb..5f25081 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -4,6 +4,9 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if (e.BitSize+7)/8 != uint64(len(e.Buffer)) {
+		return ErrBufferSizeMismatch
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
-- 
2.43.0


From f799d900c3c3120fde5806cb186d5c86b52e0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 10/54] fix: reject array elements that do not fit their bit
 field instead of truncating them

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 0c49b65..f3b2461 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -714,7 +714,7 @@ func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, er
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -775,7 +775,7 @@ func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
-- 
2.43.0


From 325eb17da36c8369e478c4feb2e1f0df86d94d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 11/54] fix: do not share bit-field array traits between types
 and goroutines

---
 ztype/array_traits.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index f3b2461..e4927d9 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,12 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From 82e12c9712ffbf5113d4ef018d2fcdce5803ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 12/54] fix: return an error for signed bit fields wider than
 64 bits instead of panicking

---
 ztype/bits_decode.go | 2 +-
 ztype/bits_encode.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..7297548 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -10,7 +10,7 @@ func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrTooManyBits
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..98a96b4 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,6 +10,10 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrTooManyBits is returned when you try to read or write a bit field type
+// with more than 64 bits.
+var ErrTooManyBits = errors.New("can not read or write more than 64 bits")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 	if value > ((1 << bits) - 1) {
@@ -21,7 +25,7 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrTooManyBits
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 9ebc81a20cdafe0d42129dddb748e30ef2baf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 13/54] fix: do not allocate for lengths that are not backed by
 data, reject negative array sizes

---
 ztype/array_decode.go        | 12 +++++++++++-
 ztype/bytes_decode.go        | 25 +++++++++++++++++++------
 ztype/extern_decode.go       | 15 +++------------
 ztype/object_array_decode.go |  8 +++++++-
 ztype/string_decode.go       | 10 +++-------
 5 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..c12564c 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -1,9 +1,15 @@
 package ztype
 
 import (
+	"errors"
+
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// ErrNegativeArraySize is returned when you try to read an array with a fixed
+// size that is negative.
+var ErrNegativeArraySize = errors.New("array size is negative")
+
 // UnmarshalZserio reads an array from a bit reader, in either packed or unpacked configuration.
 func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 	arraySize := array.FixedSize
@@ -16,7 +22,11 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return ErrNegativeArraySize
+	}
+
+	array.RawArray = make([]T, 0, min(arraySize, maxPreallocation))
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..759fd45 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,12 +1,29 @@
 package ztype
 
 import (
-	"errors"
 	"io"
 
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// maxPreallocation limits how much is allocated based on a length that was
+// read from a stream, before the data it announces has been read.
+const maxPreallocation = 4096
+
+// readBuffer reads size bytes. The buffer grows with the data that is read, so
+// that a corrupt size does not lead to a huge allocation.
+func readBuffer(r io.Reader, size uint64) ([]byte, error) {
+	buf := make([]byte, 0, min(size, maxPreallocation))
+	for uint64(len(buf)) < size {
+		start := len(buf)
+		buf = append(buf, make([]byte, min(size-uint64(start), maxPreallocation))...)
+		if _, err := io.ReadFull(r, buf[start:]); err != nil {
+			return nil, err
+		}
+	}
+	return buf, nil
+}
+
 // ReadBytes reads an zserio bytes type (variable size byte buffer) from a reader.
 func ReadBytes(r zserio.Reader) (*BytesType, error) {
 	var err error
@@ -16,13 +33,9 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
+	b.Buffer, err = readBuffer(r, b.ByteSize)
 	if err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..95edaa6 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,11 +1,6 @@
 package ztype
 
-import (
-	"errors"
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadExtern reads an zserio extern type (variable size bitbuffer) from a reader.
 func ReadExtern(r zserio.Reader) (*ExternType, error) {
@@ -15,17 +10,13 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	if err != nil {
 		return nil, err
 	}
-	numOfFullBytes := int(e.BitSize / 8)
+	numOfFullBytes := e.BitSize / 8
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
+	e.Buffer, err = readBuffer(r, numOfFullBytes)
 	if err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..bbb030b 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,7 +14,11 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, ErrNegativeArraySize
+	}
+
+	result := make([]T, 0, min(arraySize, maxPreallocation))
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +36,8 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			var zero T
+			result = append(result, zero)
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..a8b4c45 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -1,10 +1,6 @@
 package ztype
 
-import (
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadString reads a string from the bitstream.
 func ReadString(r zserio.Reader) (string, error) {
@@ -12,8 +8,8 @@ func ReadString(r zserio.Reader) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBuffer(r, size)
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From 9b42d4fdd3dbef6683755d81b0090fe248d09a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 14/54] fix: report syntax errors and visitor errors instead of
 generating from a partial schema

---
 internal/model/package.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index 39b7b7a..33a8de9 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -1,28 +1,51 @@
 package model
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 	"github.com/woven-planet/go-zserio/internal/visitor"
 )
 
+// syntaxErrorListener collects the syntax errors found by the lexer and parser.
+type syntaxErrorListener struct {
+	*antlr.DefaultErrorListener
+	path string
+	errs []error
+}
+
+// SyntaxError is called for every syntax error.
+func (l *syntaxErrorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol any, line, column int, msg string, e antlr.RecognitionException) {
+	l.errs = append(l.errs, fmt.Errorf("%s:%d:%d: %s", l.path, line, column, msg))
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
 		return nil, err
 	}
 
+	syntaxErrors := &syntaxErrorListener{
+		DefaultErrorListener: antlr.NewDefaultErrorListener(),
+		path:                 path,
+	}
 	lexer := parser.NewZserioLexer(input)
+	lexer.AddErrorListener(syntaxErrors)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
-	p.AddErrorListener(antlr.NewDiagnosticErrorListener(true))
+	p.AddErrorListener(syntaxErrors)
 	tree := p.PackageDeclaration()
+	if len(syntaxErrors.errs) > 0 {
+		return nil, errors.Join(syntaxErrors.errs...)
+	}
 	visitor := &visitor.Visitor{}
 
 	switch v := visitor.Visit(tree).(type) {
 	case error:
-		return nil, err
+		return nil, v
 	case *ast.Package:
 		return v, nil
 	}
-- 
2.43.0


From 41b7aa419278d2ff2e8f4fb6cd92313149eae562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 15/54] fix: reject bit field widths that are not between 1 and
 64

---
 internal/visitor/visitor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..79ccb3f 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -645,7 +645,13 @@ func (v *Visitor) VisitTypeReference(ctx *parser.TypeReferenceContext) any {
 			Name:      t.GetText(),
 		}
 		if ix := strings.Index(typ.Name, ":"); ix != -1 {
-			bits, _ := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			bits, err := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			if err != nil {
+				return fmt.Errorf("bit size of %s: %w", typ.Name, err)
+			}
+			if bits < 1 || bits > 64 {
+				return fmt.Errorf("bit size of %s: must be between 1 and 64", typ.Name)
+			}
 			typ.Name = typ.Name[:ix]
 			typ.Bits = int(bits)
 			if typ.Bits == 8 || typ.Bits == 16 || typ.Bits == 32 || typ.Bits == 64 {
-- 
2.43.0


From 53d10b5b06073665348fca95ad23bf921456540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 16/54] fix: report constants and enum items that cannot be
 evaluated

---
 internal/ast/expression.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..8264ffc 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -183,13 +183,17 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		if err := constSymbol.ValueExpression.Evaluate(scope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		if err := enumItem.Evaluate(scope); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
-- 
2.43.0


From 87b9b4b8304f85feae57e316ceced4d5687f818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 17/54] fix: evaluate bool comparisons, negated floats and
 floats in parentheses or ternaries

---
 internal/ast/expression.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 8264ffc..e36e8cd 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -437,6 +437,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	}
 	expr.ResultType = expr.Operand1.ResultType
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	expr.ResultFloatValue = expr.Operand1.ResultFloatValue
 	expr.ResultStringValue = expr.Operand1.ResultStringValue
 	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
@@ -461,6 +462,11 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
 		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
+		}
 	}
 	return nil
 }
@@ -650,6 +656,15 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		default:
 			return errors.New("string types does not support greater / smaller comparisons")
 		}
+	} else if expr.Operand1.ResultType == ExpressionTypeBool {
+		switch expr.Type {
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue == expr.Operand2.ResultBoolValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue != expr.Operand2.ResultBoolValue
+		default:
+			return errors.New("bool types do not support greater / smaller comparisons")
+		}
 	}
 	return nil
 }
@@ -662,12 +677,14 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	if expr.Operand1.ResultBoolValue {
 		expr.ResultType = expr.Operand2.ResultType
 		expr.ResultIntValue = expr.Operand2.ResultIntValue
+		expr.ResultFloatValue = expr.Operand2.ResultFloatValue
 		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
 		expr.ResultStringValue = expr.Operand2.ResultStringValue
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
 	} else {
 		expr.ResultType = expr.Operand3.ResultType
 		expr.ResultIntValue = expr.Operand3.ResultIntValue
+		expr.ResultFloatValue = expr.Operand3.ResultFloatValue
 		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
 		expr.ResultStringValue = expr.Operand3.ResultStringValue
 		expr.NativeZserioType = expr.Operand3.NativeZserioType
-- 
2.43.0


From e7b899a36d67fe35f13d28007a8ac43c6bd725c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 18/54] fix: evaluate numbits like the runtime, report
 divisions by zero and negative shifts

---
 internal/ast/expression.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index e36e8cd..ca05f1c 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -228,7 +228,12 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// a single value needs one bit; n values need the bits of the largest index
+	numValues := uint64(expr.Operand1.ResultIntValue)
+	if numValues > 1 {
+		numValues--
+	}
+	expr.ResultIntValue = int64(bits.Len64(numValues))
 	return nil
 }
 
@@ -522,8 +527,14 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultIntValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultIntValue = op1 / op2
 		case parser.ZserioParserMODULO:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultIntValue = op1 % op2
 		default:
 			return errors.New("unexpected operation in integer arithmetic expression")
@@ -720,12 +731,20 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
 
+	shiftCount := expr.Operand2.ResultIntValue
+	if !expr.Operand2.FullyResolved {
+		shiftCount = 0 // the value is not known yet
+	}
+	if shiftCount < 0 && (expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT) {
+		return errors.New("negative shift count")
+	}
+
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue << shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue >> shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserAND:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue & expr.Operand2.ResultIntValue
-- 
2.43.0


From ca79ab009f13b3b5f3230acf78a2e7700d19a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 19/54] fix: report expressions that cannot be emitted instead
 of emitting placeholders

---
 internal/generator/expression.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..8b6dea4 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -18,7 +18,7 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 	}
 	name, err := GoType(scope, dummyType)
 	if err != nil {
-		return "UNKNOWN_TYPE"
+		panic(err)
 	}
 
 	switch n := expression.ResultSymbol.Symbol.(type) {
@@ -35,7 +35,7 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case *ast.Subtype:
 		return name
 	default:
-		return "UNSUPPORTED_TYPE"
+		panic(fmt.Sprintf("identifier %q cannot be used in an expression", expression.Text))
 	}
 }
 
@@ -79,13 +79,13 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 				Package: expression.Operand1.ResultSymbol.Package,
 			})
 		if err != nil {
-			return "ENUM_TYPE_LOOKUP_FAILED"
+			panic(err)
 		}
 		// Generate the enum value using the original type name, as well as the
 		// enumeration value.
 		originalEnumType, err := GoType(scope, originalType.Type)
 		if err != nil {
-			return "ENUM_GO_TYPE_DEDUCTION_FAILED"
+			panic(err)
 		}
 		enumValue := originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
 		if originalType.RequiresCast {
@@ -338,7 +338,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		case ast.ExpressionTypeFloat:
 			return fmt.Sprintf("%f", expression.ResultFloatValue)
 		default:
-			return "UNSUPPORTED_TYPE"
+			panic(fmt.Sprintf("constants of type %q are not supported", expression.ResultType))
 		}
 	}
 	switch expression.Type {
@@ -404,6 +404,6 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserQUESTIONMARK:
 		return ternaryExpressionToGoString(scope, expression)
 	default:
-		return "UNSUPPORTED"
+		panic(fmt.Sprintf("operator %q is not supported", expression.Text))
 	}
 }
-- 
2.43.0


From a477e01af4e1a89486a139939f0a5f7e3ca2f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 20/54] fix: emit operators with the grouping of the schema,
 and negation operators

---
 internal/generator/expression.go | 45 +++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8b6dea4..35d4e71 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -157,8 +158,8 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		operator = "!="
 	}
 
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	operand2Str := ExpressionToGoString(scope, expression.Operand2)
+	operand1Str := operandToGoString(scope, expression.Operand1)
+	operand2Str := operandToGoString(scope, expression.Operand2)
 
 	// Check if casting is needed because of different original types.
 	// Casting is needed in the following cases:
@@ -272,7 +273,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserLOGICAL_OR:
 		operator = "||"
 	}
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
+	operand1Str := operandToGoString(scope, expression.Operand1)
 	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
 		// Resolve issue
 		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
@@ -288,7 +289,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
-		ExpressionToGoString(scope, expression.Operand2))
+		operandToGoString(scope, expression.Operand2))
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -312,7 +313,7 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	return fmt.Sprintf("%s & %s != 0", operandToGoString(scope, expression.Operand1), operandToGoString(scope, expression.Operand2))
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -326,6 +327,23 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 	return ExpressionToGoString(scope, expression.Operand1)
 }
 
+// operandToGoString prints the operand of an operator. Operators are grouped as
+// in the zserio expression, because the precedence of Go operators differs.
+func operandToGoString(scope ast.Scope, operand *ast.Expression) string {
+	str := ExpressionToGoString(scope, operand)
+	if operand.FullyResolved {
+		return str
+	}
+	switch operand.Type {
+	case parser.ZserioParserID, parser.ZserioParserINDEX, parser.ZserioParserDOT,
+		parser.ZserioParserLBRACKET, parser.ZserioParserLPAREN, parser.ZserioParserRPAREN,
+		parser.ZserioParserLENGTHOF, parser.ZserioParserVALUEOF, parser.ZserioParserNUMBITS:
+		return str
+	default:
+		return "(" + str + ")"
+	}
+}
+
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
@@ -336,7 +354,11 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			str := strconv.FormatFloat(expression.ResultFloatValue, 'f', -1, 64)
+			if !strings.Contains(str, ".") {
+				str += ".0"
+			}
+			return str
 		default:
 			panic(fmt.Sprintf("constants of type %q are not supported", expression.ResultType))
 		}
@@ -358,16 +380,19 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		return valueOfOperatorToGoString(scope, expression)
 	case parser.ZserioParserNUMBITS:
 		return numBitsOperatorToGoString(scope, expression)
-	case parser.ZserioParserPLUS:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserMINUS:
+	case parser.ZserioParserPLUS, parser.ZserioParserMINUS:
+		if expression.Operand2 == nil {
+			return fmt.Sprintf("%s%s", expression.Text, operandToGoString(scope, expression.Operand1))
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMULTIPLY:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserDIVIDE:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserBANG: // the ! (negation operator)
-		return fmt.Sprintf("!%s", ExpressionToGoString(scope, expression.Operand1))
+		return fmt.Sprintf("!%s", operandToGoString(scope, expression.Operand1))
+	case parser.ZserioParserTILDE: // the ~ (bitwise negation operator)
+		return fmt.Sprintf("^%s", operandToGoString(scope, expression.Operand1))
 	case parser.ZserioParserMODULO:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioLexerLSHIFT:
-- 
2.43.0


From 3da54dc8285ca350422d7eda5d8f5d2a6b350347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 21/54] fix: keep the grouping of valueof operands

---
 internal/generator/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 35d4e71..3b81531 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -337,7 +337,7 @@ func operandToGoString(scope ast.Scope, operand *ast.Expression) string {
 	switch operand.Type {
 	case parser.ZserioParserID, parser.ZserioParserINDEX, parser.ZserioParserDOT,
 		parser.ZserioParserLBRACKET, parser.ZserioParserLPAREN, parser.ZserioParserRPAREN,
-		parser.ZserioParserLENGTHOF, parser.ZserioParserVALUEOF, parser.ZserioParserNUMBITS:
+		parser.ZserioParserLENGTHOF, parser.ZserioParserNUMBITS:
 		return str
 	default:
 		return "(" + str + ")"
-- 
2.43.0


From ee1dac859c59490582063d02cfced92996d7410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 22/54] fix: report output files that cannot be closed

---
 internal/generator/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..5dcf967 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -129,7 +129,11 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 		_ = os.Remove(outputFile)
 	}()
-	defer f.Close()
+	defer func() {
+		if err := f.Close(); err != nil && retErr == nil {
+			retErr = fmt.Errorf("close: %w", err)
+		}
+	}()
 
 	return writeGoSource(f, code, opts.doNotFormatSource)
 }
-- 
2.43.0


From cc6ac5cdaade15149c2a76e9c7dc2cb2e02dad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 23/54] fix: treat a maximum path length of 0 as no limit

---
 internal/generator/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 5dcf967..c2fd2a6 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -143,7 +143,7 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		uniquePaths = make(map[string]int)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
-- 
2.43.0


From feab6d75f9273a1231fc8027322744ea5702ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 24/54] fix: never give two generated types the same path or a
 path over the limit

---
 internal/generator/gen.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index c2fd2a6..b6e717f 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -159,13 +159,19 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		}
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
+	uniqueFile := outputFile
+	for uniquePaths[uniqueFile] > 0 {
+		// the path with the index may belong to another output as well
+		uniqueFile = fmt.Sprintf("%s_%d", outputFile, uniquePaths[outputFile])
 		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
 	}
+	uniquePaths[uniqueFile] = 1
+
+	uniqueFile += FileSuffix
+	if maxPathLength > 0 && len(uniqueFile) > maxPathLength {
+		return "", fmt.Errorf("maximum path length %d is too short for %s", maxPathLength, uniqueFile)
+	}
+	return uniqueFile, nil
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
-- 
2.43.0


From dc51b5093657f1622f227ed77f06c516b2813856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 25/54] fix: make the paths of generated files independent of
 package order and earlier runs

---
 internal/generator/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index b6e717f..e2d34ba 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -88,8 +88,12 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		return generatePackage(rootPath, pkg, opts)
 	}
 
-	for _, pkg := range m.Packages {
-		if err := generatePackage(rootPath, pkg, opts); err != nil {
+	// the paths of a run must not depend on earlier runs, nor on map order
+	uniquePaths = nil
+	names := maps.Keys(m.Packages)
+	sort.Strings(names)
+	for _, name := range names {
+		if err := generatePackage(rootPath, m.Packages[name], opts); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From aeab5ca067422806066907cc6a68b11f845c9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 26/54] fix: evaluate constants, enum and bitmask values in the
 package that defines them

---
 internal/ast/expression.go | 43 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index ca05f1c..815fad6 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -181,9 +181,14 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 		return errors.New("symbol not found")
 	}
 
-	// Some symbols, such as consts, can be directly resolved.
+	// Some symbols, such as consts, can be directly resolved. They need to be
+	// evaluated in the scope of the package which defines them.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		if err := constSymbol.ValueExpression.Evaluate(scope); err != nil {
+		symbolScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := constSymbol.ValueExpression.Evaluate(symbolScope); err != nil {
 			return err
 		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
@@ -191,8 +196,14 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		if err := enumItem.Evaluate(scope); err != nil {
-			return err
+		if enumItem.Expression == nil || enumItem.EvaluationState != EvaluationStateComplete {
+			symbolScope, err := scope.GetImportedScope(symbol.Package)
+			if err != nil {
+				return err
+			}
+			if err := enumItem.enum.Evaluate(symbolScope); err != nil {
+				return err
+			}
 		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
@@ -322,6 +333,10 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 	}
 	previousScope := functionEvaluationScope.LocalSymbols.CurrentCompoundScope
 	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = &typeRef.Type.Name
+	// Restore the previous scope
+	defer func() {
+		functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
+	}()
 	err = function.Result.Evaluate(functionEvaluationScope)
 	if err != nil {
 		return err
@@ -330,9 +345,6 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
-
-	// Restore the previous scope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
 	return nil
 }
 
@@ -391,8 +403,12 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
+					if enumItem.Expression == nil || enumItem.EvaluationState != EvaluationStateComplete {
+						enumScope, err := scope.GetImportedScope(op1Symbol.Package)
+						if err != nil {
+							return err
+						}
+						if err := enum.Evaluate(enumScope); err != nil {
 							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 						}
 					}
@@ -405,6 +421,15 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					if bitmaskValue.Expression == nil || bitmaskValue.EvaluationState != EvaluationStateComplete {
+						bitmaskScope, err := scope.GetImportedScope(op1Symbol.Package)
+						if err != nil {
+							return err
+						}
+						if err := bitmask.Evaluate(bitmaskScope); err != nil {
+							return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+						}
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
 					return nil
-- 
2.43.0


From fe91ede9c01dbcab06615caa2011d9113b5d330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 27/54] fix: resolve, instantiate, evaluate and emit all parts
 of choices and unions

---
 internal/ast/choice.go                      |  19 +++-
 internal/ast/union.go                       |   5 +
 internal/generator/templates/choice.go.tmpl |   2 +
 internal/model/transform.go                 | 117 ++++++++++++++++----
 4 files changed, 121 insertions(+), 22 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..d91832d 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,6 +43,12 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
@@ -117,8 +123,15 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
+	}
+	return nil
 }
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..3c32e1a 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -75,6 +75,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   return nil
 }
 
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
+
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..2f54296 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -111,6 +111,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
@@ -258,6 +259,32 @@ func (m *Model) InstantiateTemplates() error {
 			}
 		}
 
+		// instantiate all unions that have template fields
+		for _, union := range pkg.Unions {
+			// don't instantiate template unions
+			if len(union.TemplateParameters) > 0 {
+				continue
+			}
+			for _, field := range union.Fields {
+				if field.Type, err = m.instantiateType(
+					pkg,
+					field.Type,
+					field.Type.TemplateArguments,
+					""); // auto-generate a new name
+				err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: field.Name,
+						Err:   err,
+					}
+				}
+			}
+		}
+
 		// instantiate all choices that have template fields
 		for _, choice := range pkg.Choices {
 			// don't instantiate template choices
@@ -426,7 +453,9 @@ func (m *Model) instantiateStruct(
 	// update the scope with the newly created scope
 	pkgScope.Structs[newType.Name] = structure
 	pkgScope.LocalSymbols.TypeScope[newType.Name] = structure
-	structure.BuildScope(pkgScope)
+	if err := structure.BuildScope(pkgScope); err != nil {
+		return nil, err
+	}
 	return newType, nil
 }
 
@@ -533,7 +562,9 @@ func (m *Model) instantiateChoice(
 	// update the scope with the newly created scope
 	pkgScope.Choices[newType.Name] = choice
 	pkgScope.LocalSymbols.TypeScope[newType.Name] = choice
-	choice.BuildScope(pkgScope)
+	if err := choice.BuildScope(pkgScope); err != nil {
+		return nil, err
+	}
 	return newType, nil
 }
 
@@ -659,23 +690,8 @@ func (m *Model) ResolveTypes() error {
 				}
 			}
 
-			for _, functions := range structure.Functions {
-				if functions.ReturnType.Package == "" && templateParams[functions.ReturnType.Name] {
-					// Ignore template types
-					continue
-				}
-
-				if err := m.resolveTypeReference(pkg, functions.ReturnType, templateParams); err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      structure.Name,
-						},
-						Field: functions.Name,
-						Err:   err,
-					}
-				}
+			if err := m.resolveFunctionTypes(pkg, structure.Name, structure.Functions, templateParams); err != nil {
+				return err
 			}
 		}
 
@@ -725,6 +741,27 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				field := choice.DefaultCase.Field
+				if field.Type.Package != "" || !templateParams[field.Type.Name] {
+					if err := m.resolveTypeReference(pkg, field.Type, templateParams); err != nil {
+						return TypeError{
+							TypeReference: ast.TypeReference{
+								IsBuiltin: false,
+								Package:   pkg.Name,
+								Name:      choice.Name,
+							},
+							Field: field.Name,
+							Err:   err,
+						}
+					}
+				}
+			}
+
+			if err := m.resolveFunctionTypes(pkg, choice.Name, choice.Functions, templateParams); err != nil {
+				return err
+			}
 		}
 
 		for _, union := range pkg.Unions {
@@ -770,6 +807,24 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			if err := m.resolveFunctionTypes(pkg, union.Name, union.Functions, templateParams); err != nil {
+				return err
+			}
+		}
+
+		for _, enum := range pkg.Enums {
+			if err := m.resolveTypeReference(pkg, enum.Type, map[string]bool{}); err != nil {
+				return TypeError{
+					TypeReference: ast.TypeReference{
+						IsBuiltin: false,
+						Package:   pkg.Name,
+						Name:      enum.Type.Name,
+					},
+					Field: enum.Name,
+					Err:   err,
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
@@ -816,6 +871,30 @@ func (m *Model) ResolveTypes() error {
 	return nil
 }
 
+// resolveFunctionTypes resolves the return types of the functions of a compound
+// type.
+func (m *Model) resolveFunctionTypes(pkg *ast.Package, compoundName string, functions []*ast.Function, templateParams map[string]bool) error {
+	for _, function := range functions {
+		if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+			// Ignore template types
+			continue
+		}
+
+		if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+			return TypeError{
+				TypeReference: ast.TypeReference{
+					IsBuiltin: false,
+					Package:   pkg.Name,
+					Name:      compoundName,
+				},
+				Field: function.Name,
+				Err:   err,
+			}
+		}
+	}
+	return nil
+}
+
 func (m *Model) resolveTypeReference(pkgScope *ast.Package, tr *ast.TypeReference, ignoreParameters map[string]bool) error {
 	if tr.IsBuiltin {
 		return nil
-- 
2.43.0


From 2e4c92bfd109aa474b12ad0cbbab519cacc7a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 28/54] fix: share nothing between the instantiations of a
 template

---
 internal/model/transform.go | 188 ++++++++++++++++++------------------
 1 file changed, 96 insertions(+), 92 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 2f54296..bbc02f9 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -335,43 +335,101 @@ func (m *Model) InstantiateTemplates() error {
 	return nil
 }
 
+func cloneExpression(e *ast.Expression) *ast.Expression {
+	if e == nil {
+		return nil
+	}
+	clone := *e
+	clone.Operand1 = cloneExpression(e.Operand1)
+	clone.Operand2 = cloneExpression(e.Operand2)
+	clone.Operand3 = cloneExpression(e.Operand3)
+	return &clone
+}
+
+func cloneExpressions(expressions []*ast.Expression) []*ast.Expression {
+	var clones []*ast.Expression
+	for _, e := range expressions {
+		clones = append(clones, cloneExpression(e))
+	}
+	return clones
+}
+
+// substituteType returns a copy of a type reference in which the template
+// parameters are replaced by the types they stand for. The copy shares nothing
+// with the template, or with any other instantiation of it.
+func substituteType(tr *ast.TypeReference, templateTypes map[string]*ast.TypeReference) *ast.TypeReference {
+	source := tr
+	if tt, ok := templateTypes[tr.Name]; ok && tr.Package == "" && !tr.IsBuiltin {
+		source = tt
+	}
+	clone := *source
+	clone.LengthExpression = cloneExpression(source.LengthExpression)
+	// If the template parameter has type arguments, these arguments need to
+	// be applied also to the instantiated type.
+	clone.TypeArguments = cloneExpressions(tr.TypeArguments)
+	clone.TemplateArguments = nil
+	for _, ta := range source.TemplateArguments {
+		clone.TemplateArguments = append(clone.TemplateArguments, substituteType(ta, templateTypes))
+	}
+	return &clone
+}
+
 func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
 	fieldCopy := *field
-	if len(field.Type.TemplateArguments) > 0 {
-		// the field itself is a templated compound type, and needs to
-		// be instantiated first.
+	fieldCopy.Initializer = cloneExpression(field.Initializer)
+	fieldCopy.Constraint = cloneExpression(field.Constraint)
+	fieldCopy.OptionalClause = cloneExpression(field.OptionalClause)
+	if field.Array != nil {
+		fieldCopy.Array = &ast.Array{
+			IsPacked: field.Array.IsPacked,
+			Length:   cloneExpression(field.Array.Length),
+		}
+	}
+
+	// the field might itself be a templated compound type, which needs to be
+	// instantiated with its own template arguments. Example:
+	// struct<A, B, C> {
+	//    foo<int, C> field1;
+	//    bar<B, A> field2;
+	// }
+	fieldType := substituteType(field.Type, templateTypes)
+	var err error
+	fieldCopy.Type, err = m.instantiateType(pkgScope, fieldType, fieldType.TemplateArguments, "")
+	if err != nil {
+		return nil, err
+	}
+	return &fieldCopy, nil
+}
 
-		// the template argument parameter must be recreated, as the
-		// field template arguments might differ from the struct template
-		// arguments. Example:
-		// struct<A, B, C> {
-		//    foo<int, C> field1;
-		//    bar<B, A> field2;
-		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
-			}
-		}
+func instantiateParameters(params []*ast.Parameter, templateTypes map[string]*ast.TypeReference) []*ast.Parameter {
+	var instantiated []*ast.Parameter
+	for _, param := range params {
+		paramCopy := *param
+		paramCopy.Type = substituteType(param.Type, templateTypes)
+		instantiated = append(instantiated, &paramCopy)
+	}
+	return instantiated
+}
 
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
-		if err != nil {
-			return nil, err
-		}
-		fieldCopy.Type = tt
-		return &fieldCopy, nil
+func instantiateFunctions(functions []*ast.Function, templateTypes map[string]*ast.TypeReference) []*ast.Function {
+	var instantiated []*ast.Function
+	for _, function := range functions {
+		functionCopy := *function
+		functionCopy.Result = cloneExpression(function.Result)
+		functionCopy.ReturnType = substituteType(function.ReturnType, templateTypes)
+		instantiated = append(instantiated, &functionCopy)
 	}
-	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
-		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+	return instantiated
+}
+
+func instantiateConditions(conditions []*ast.ChoiceCaseExpression) []*ast.ChoiceCaseExpression {
+	var instantiated []*ast.ChoiceCaseExpression
+	for _, condition := range conditions {
+		conditionCopy := *condition
+		conditionCopy.Condition = cloneExpression(condition.Condition)
+		instantiated = append(instantiated, &conditionCopy)
 	}
-	// not templated
-	return field, nil
+	return instantiated
 }
 
 func (m *Model) instantiateStruct(
@@ -420,35 +478,8 @@ func (m *Model) instantiateStruct(
 		structure.Fields = append(structure.Fields, newField)
 	}
 
-	// resolve the templates for the types
-	for _, typeParam := range templStruct.TypeParameters {
-		if tt := templateTypes[typeParam.Type.Name]; tt != nil && typeParam.Type.Package == "" {
-			// the parameter is a template
-			structure.TypeParameters = append(structure.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
-		}
-	}
-
-	// resolve the template for the functions
-	for _, function := range templStruct.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			structure.Functions = append(structure.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			structure.Functions = append(structure.Functions, function)
-		}
-	}
+	structure.TypeParameters = instantiateParameters(templStruct.TypeParameters, templateTypes)
+	structure.Functions = instantiateFunctions(templStruct.Functions, templateTypes)
 
 	// update the scope with the newly created scope
 	pkgScope.Structs[newType.Name] = structure
@@ -495,13 +526,13 @@ func (m *Model) instantiateChoice(
 	choice := &ast.Choice{
 		Name:               newType.Name,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		SelectorExpression: cloneExpression(templChoice.SelectorExpression),
 	}
 
 	// resolve the templates for the choices
 	for _, choiceCase := range templChoice.Cases {
 		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
+			Conditions: instantiateConditions(choiceCase.Conditions),
 			Comment:    choiceCase.Comment,
 		}
 		if choiceCase.Field != nil {
@@ -517,7 +548,7 @@ func (m *Model) instantiateChoice(
 	// also resolve the default case
 	if templChoice.DefaultCase != nil {
 		choice.DefaultCase = &ast.ChoiceCase{
-			Conditions: templChoice.DefaultCase.Conditions,
+			Conditions: instantiateConditions(templChoice.DefaultCase.Conditions),
 			Comment:    templChoice.DefaultCase.Comment,
 		}
 		if templChoice.DefaultCase.Field != nil {
@@ -529,35 +560,8 @@ func (m *Model) instantiateChoice(
 		}
 
 	}
-	// resolve the templates for the types
-	for _, typeParam := range templChoice.TypeParameters {
-		if tt, ok := templateTypes[typeParam.Type.Name]; ok && typeParam.Type.Package == "" {
-			// the parameter is a template
-			choice.TypeParameters = append(choice.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
-		}
-	}
-
-	// resolve the template for the functions
-	for _, function := range templChoice.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			choice.Functions = append(choice.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			choice.Functions = append(choice.Functions, function)
-		}
-	}
+	choice.TypeParameters = instantiateParameters(templChoice.TypeParameters, templateTypes)
+	choice.Functions = instantiateFunctions(templChoice.Functions, templateTypes)
 
 	// update the scope with the newly created scope
 	pkgScope.Choices[newType.Name] = choice
-- 
2.43.0


From cdda581ff96602c45e7bdb3487a52e4bbe82d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 29/54] fix: instantiate the template that was named, and never
 share a name between instantiations

---
 internal/model/model.go     |  4 +++
 internal/model/transform.go | 57 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..a0a93ba 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -13,6 +13,10 @@ import (
 
 type Model struct {
 	Packages map[string]*ast.Package
+
+	// instantiations maps the full name of an instantiated template to the
+	// template and arguments it was created from.
+	instantiations map[string]string
 }
 
 func NewModel() *Model {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index bbc02f9..7f2b0f0 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -580,6 +580,37 @@ func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.Ty
 	return strings.Join(name, "")
 }
 
+// typeSignature identifies a type, including its package and arguments.
+func typeSignature(pkg, name string, templateArguments []*ast.TypeReference) string {
+	signature := name
+	if pkg != "" {
+		signature = pkg + "." + name
+	}
+	if len(templateArguments) == 0 {
+		return signature
+	}
+	var args []string
+	for _, ta := range templateArguments {
+		arg := typeSignature(ta.Package, ta.Name, ta.TemplateArguments)
+		if ta.IsBuiltin && ta.Bits != 0 {
+			arg += fmt.Sprintf(":%d", ta.Bits)
+		}
+		if ta.LengthExpression != nil {
+			arg += expressionSignature(ta.LengthExpression)
+		}
+		args = append(args, arg)
+	}
+	return signature + "<" + strings.Join(args, ",") + ">"
+}
+
+// expressionSignature identifies an expression by its operators and operands.
+func expressionSignature(e *ast.Expression) string {
+	if e == nil {
+		return ""
+	}
+	return fmt.Sprintf("(%d %s%s%s%s)", e.Type, e.Text, expressionSignature(e.Operand1), expressionSignature(e.Operand2), expressionSignature(e.Operand3))
+}
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
 	if len(templateArguments) == 0 {
 		return tr, nil
@@ -593,10 +624,34 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 		instantiatedName = generateInstantiatedName(tr, templateArguments)
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
+	templateScope := pkgScope
+	if definingPkg, found := m.Packages[tr.Package]; found {
+		templateScope = definingPkg
+	}
+	templateSymbol, err := templateScope.GetSymbol(tr.Name)
 	if err != nil {
 		return nil, err
 	}
+
+	// different instantiations must not share a name
+	signature := typeSignature(tr.Package, tr.Name, templateArguments)
+	fullName := pkgScope.Name + "." + instantiatedName
+	if other, exists := m.instantiations[fullName]; exists {
+		if other != signature {
+			return nil, fmt.Errorf("template instantiations %s and %s have the same name: %s", other, signature, fullName)
+		}
+	} else {
+		if symbol, exists := pkgScope.LocalSymbols.TypeScope[instantiatedName]; exists {
+			if _, ok := symbol.(*ast.InstantiateType); !ok {
+				return nil, fmt.Errorf("template instantiation %s has the name of an existing type: %s", signature, fullName)
+			}
+		}
+		if m.instantiations == nil {
+			m.instantiations = map[string]string{}
+		}
+		m.instantiations[fullName] = signature
+	}
+
 	var instantiatedType *ast.TypeReference
 
 	switch n := templateSymbol.Symbol.(type) {
-- 
2.43.0


From 018fbc696e809c9f6b7291147256874894d54459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 30/54] fix: process packages and symbols in a fixed order, so
 that equal schemas give equal output

---
 internal/ast/package.go     |  23 ++++++--
 internal/generator/gen.go   |  17 +++---
 internal/model/transform.go | 105 ++++++++++++++++++++++++------------
 3 files changed, 100 insertions(+), 45 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..5732383 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -34,6 +35,16 @@ type OriginalTypeReference struct {
 	IsMarshaler  bool
 }
 
+// SortedKeys returns the keys of a map in a fixed order.
+func SortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func NewPackage(name string) *Package {
 	return &Package{
 		BaseScope: BaseScope{
@@ -75,13 +86,15 @@ func (p *Package) CollectSymbols() error {
 	for name, value := range p.Consts {
 		p.LocalSymbols.TypeScope[name] = value
 	}
-	for name, value := range p.Structs {
+	for _, name := range SortedKeys(p.Structs) {
+		value := p.Structs[name]
 		p.LocalSymbols.TypeScope[name] = value
 		if err := value.BuildScope(p); err != nil {
 			return err
 		}
 	}
-	for name, value := range p.Enums {
+	for _, name := range SortedKeys(p.Enums) {
+		value := p.Enums[name]
 		p.LocalSymbols.TypeScope[name] = value
 
 		// add all enum values as symbols
@@ -89,7 +102,8 @@ func (p *Package) CollectSymbols() error {
 			p.LocalSymbols.OtherScope[enumItem.Name] = enumItem
 		}
 	}
-	for name, value := range p.Unions {
+	for _, name := range SortedKeys(p.Unions) {
+		value := p.Unions[name]
 		p.LocalSymbols.TypeScope[name] = value
 		if err := value.BuildScope(p); err != nil {
 			return err
@@ -98,7 +112,8 @@ func (p *Package) CollectSymbols() error {
 	for name, value := range p.Bitmasks {
 		p.LocalSymbols.TypeScope[name] = value
 	}
-	for name, value := range p.Choices {
+	for _, name := range SortedKeys(p.Choices) {
+		value := p.Choices[name]
 		p.LocalSymbols.TypeScope[name] = value
 		if err := value.BuildScope(p); err != nil {
 			return err
diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index e2d34ba..0c6209a 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -274,11 +274,13 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 
 	var outs []output
 
-	for _, t := range pkg.Enums {
+	for _, name := range ast.SortedKeys(pkg.Enums) {
+		t := pkg.Enums[name]
 		outs = append(outs, newTypeOutput(t, data, !opts.outputToStdout, opts))
 	}
 
-	for _, t := range pkg.Unions {
+	for _, name := range ast.SortedKeys(pkg.Unions) {
+		t := pkg.Unions[name]
 		if len(t.TemplateParameters) > 0 {
 			// We only need to generate source for instantiated templates
 			continue
@@ -286,11 +288,13 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 		outs = append(outs, newTypeOutput(t, data, !opts.outputToStdout, opts))
 	}
 
-	for _, t := range pkg.Bitmasks {
+	for _, name := range ast.SortedKeys(pkg.Bitmasks) {
+		t := pkg.Bitmasks[name]
 		outs = append(outs, newTypeOutput(t, data, !opts.outputToStdout, opts))
 	}
 
-	for _, t := range pkg.Choices {
+	for _, name := range ast.SortedKeys(pkg.Choices) {
+		t := pkg.Choices[name]
 		if len(t.TemplateParameters) > 0 {
 			// We only need to generate source for instantiated templates
 			continue
@@ -298,7 +302,8 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 		outs = append(outs, newTypeOutput(t, data, !opts.outputToStdout, opts))
 	}
 
-	for _, t := range pkg.Structs {
+	for _, name := range ast.SortedKeys(pkg.Structs) {
+		t := pkg.Structs[name]
 		if len(t.TemplateParameters) > 0 {
 			// We only need to generate source for instantiated templates
 			continue
@@ -306,7 +311,7 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 		outs = append(outs, newTypeOutput(t, data, !opts.outputToStdout, opts))
 	}
 
-	sort.Slice(outs, func(i, j int) bool {
+	sort.SliceStable(outs, func(i, j int) bool {
 		if outs[i].template == outs[j].template {
 			return outs[i].name > outs[j].name
 		}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 7f2b0f0..0de2540 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -37,15 +37,18 @@ func (e UnknownType) Error() string {
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
 
 func (m *Model) CapitalizeNames() {
-	for _, pkg := range m.Packages {
-		for _, c := range pkg.Consts {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Consts) {
+			c := pkg.Consts[name]
 			c.Name = strings.Title(c.Name)
 			if !c.Type.IsBuiltin {
 				c.Type.Name = strings.Title(c.Type.Name)
 			}
 		}
 
-		for _, e := range pkg.Enums {
+		for _, name := range ast.SortedKeys(pkg.Enums) {
+			e := pkg.Enums[name]
 			e.Name = strings.Title(e.Name)
 			if !e.Type.IsBuiltin {
 				e.Type.Name = strings.Title(e.Type.Name)
@@ -56,7 +59,8 @@ func (m *Model) CapitalizeNames() {
 			}
 		}
 
-		for _, u := range pkg.Unions {
+		for _, name := range ast.SortedKeys(pkg.Unions) {
+			u := pkg.Unions[name]
 			u.Name = strings.Title(u.Name)
 			for _, typeParameter := range u.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
@@ -73,14 +77,16 @@ func (m *Model) CapitalizeNames() {
 			}
 		}
 
-		for _, bitmask := range pkg.Bitmasks {
+		for _, name := range ast.SortedKeys(pkg.Bitmasks) {
+			bitmask := pkg.Bitmasks[name]
 			bitmask.Name = strings.Title(bitmask.Name)
 			for _, value := range bitmask.Values {
 				value.Name = strings.Title(value.Name)
 			}
 		}
 
-		for _, structure := range pkg.Structs {
+		for _, name := range ast.SortedKeys(pkg.Structs) {
+			structure := pkg.Structs[name]
 			for _, typeParameter := range structure.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -97,7 +103,8 @@ func (m *Model) CapitalizeNames() {
 
 		}
 
-		for _, choice := range pkg.Choices {
+		for _, name := range ast.SortedKeys(pkg.Choices) {
+			choice := pkg.Choices[name]
 			for _, typeParameter := range choice.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -126,8 +133,10 @@ func (m *Model) CapitalizeNames() {
 
 // EvaluateConsts evaluates all constants in a model
 func (m *Model) EvaluateConsts() error {
-	for _, pkg := range m.Packages {
-		for _, c := range pkg.Consts {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Consts) {
+			c := pkg.Consts[name]
 			if err := c.Evaluate(pkg); err != nil {
 				return err
 			}
@@ -137,8 +146,10 @@ func (m *Model) EvaluateConsts() error {
 }
 
 func (m *Model) EvaluateEnums() error {
-	for _, pkg := range m.Packages {
-		for _, e := range pkg.Enums {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Enums) {
+			e := pkg.Enums[name]
 			if err := e.Evaluate(pkg); err != nil {
 				return err
 			}
@@ -148,8 +159,10 @@ func (m *Model) EvaluateEnums() error {
 }
 
 func (m *Model) EvaluateUnions() error {
-	for _, pkg := range m.Packages {
-		for _, u := range pkg.Unions {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Unions) {
+			u := pkg.Unions[name]
 			if err := u.Evaluate(pkg); err != nil {
 				return err
 			}
@@ -159,8 +172,10 @@ func (m *Model) EvaluateUnions() error {
 }
 
 func (m *Model) EvaluateBitmasks() error {
-	for _, pkg := range m.Packages {
-		for _, bitmask := range pkg.Bitmasks {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Bitmasks) {
+			bitmask := pkg.Bitmasks[name]
 			if err := bitmask.Evaluate(pkg); err != nil {
 				return err
 			}
@@ -170,8 +185,10 @@ func (m *Model) EvaluateBitmasks() error {
 }
 
 func (m *Model) EvaluateStructs() error {
-	for _, pkg := range m.Packages {
-		for _, s := range pkg.Structs {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Structs) {
+			s := pkg.Structs[name]
 			if err := s.Evaluate(pkg); err != nil {
 				return err
 			}
@@ -181,8 +198,10 @@ func (m *Model) EvaluateStructs() error {
 }
 
 func (m *Model) EvaluateChoices() error {
-	for _, pkg := range m.Packages {
-		for _, choice := range pkg.Choices {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Choices) {
+			choice := pkg.Choices[name]
 			if err := choice.Evaluate(pkg); err != nil {
 				return err
 			}
@@ -193,9 +212,11 @@ func (m *Model) EvaluateChoices() error {
 
 func (m *Model) InstantiateTemplates() error {
 	var err error
-	for _, pkg := range m.Packages {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
 		// Instantiate all template instantiation created with "instantiate" keyword
-		for _, instantiatedType := range pkg.InstantiatedTypes {
+		for _, name := range ast.SortedKeys(pkg.InstantiatedTypes) {
+			instantiatedType := pkg.InstantiatedTypes[name]
 			if instantiatedType.Type, err = m.instantiateType(
 				pkg,
 				instantiatedType.Type,
@@ -214,7 +235,8 @@ func (m *Model) InstantiateTemplates() error {
 
 		// instantiate all templates that were created by using the "subtype", e.g.
 		// subtype TemplateType<int> InstantiatedSubtype;
-		for _, subtype := range pkg.Subtypes {
+		for _, name := range ast.SortedKeys(pkg.Subtypes) {
+			subtype := pkg.Subtypes[name]
 			if subtype.Type, err = m.instantiateType(
 				pkg,
 				subtype.Type,
@@ -234,7 +256,8 @@ func (m *Model) InstantiateTemplates() error {
 		}
 
 		// Instantiate all structs that have template fields
-		for _, structure := range pkg.Structs {
+		for _, name := range ast.SortedKeys(pkg.Structs) {
+			structure := pkg.Structs[name]
 			// don't instantiate template structs
 			if len(structure.TemplateParameters) > 0 {
 				continue
@@ -260,7 +283,8 @@ func (m *Model) InstantiateTemplates() error {
 		}
 
 		// instantiate all unions that have template fields
-		for _, union := range pkg.Unions {
+		for _, name := range ast.SortedKeys(pkg.Unions) {
+			union := pkg.Unions[name]
 			// don't instantiate template unions
 			if len(union.TemplateParameters) > 0 {
 				continue
@@ -286,7 +310,8 @@ func (m *Model) InstantiateTemplates() error {
 		}
 
 		// instantiate all choices that have template fields
-		for _, choice := range pkg.Choices {
+		for _, name := range ast.SortedKeys(pkg.Choices) {
+			choice := pkg.Choices[name]
 			// don't instantiate template choices
 			if len(choice.TemplateParameters) > 0 {
 				continue
@@ -673,7 +698,8 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 }
 
 func (m *Model) ResolveImports() error {
-	for _, pkg := range m.Packages {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
 		for _, imp := range pkg.Imports {
 			iPkg, found := m.Packages[imp.Package]
 			if !found {
@@ -690,8 +716,10 @@ func (m *Model) ResolveImports() error {
 // ResolveTypes resolves all type references.
 // This assumes that template instantiation has already happened.
 func (m *Model) ResolveTypes() error {
-	for _, pkg := range m.Packages {
-		for _, constant := range pkg.Consts {
+	for _, pkgName := range ast.SortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
+		for _, name := range ast.SortedKeys(pkg.Consts) {
+			constant := pkg.Consts[name]
 			if err := m.resolveTypeReference(pkg, constant.Type, map[string]bool{}); err != nil {
 				return TypeError{
 					TypeReference: ast.TypeReference{
@@ -705,7 +733,8 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
-		for _, structure := range pkg.Structs {
+		for _, name := range ast.SortedKeys(pkg.Structs) {
+			structure := pkg.Structs[name]
 			templateParams := map[string]bool{}
 			for _, p := range structure.TemplateParameters {
 				templateParams[p] = true
@@ -754,7 +783,8 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
-		for _, choice := range pkg.Choices {
+		for _, name := range ast.SortedKeys(pkg.Choices) {
+			choice := pkg.Choices[name]
 			templateParams := map[string]bool{}
 			for _, p := range choice.TemplateParameters {
 				templateParams[p] = true
@@ -823,7 +853,8 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
-		for _, union := range pkg.Unions {
+		for _, name := range ast.SortedKeys(pkg.Unions) {
+			union := pkg.Unions[name]
 			templateParams := map[string]bool{}
 			for _, p := range union.TemplateParameters {
 				templateParams[p] = true
@@ -872,7 +903,8 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
-		for _, enum := range pkg.Enums {
+		for _, name := range ast.SortedKeys(pkg.Enums) {
+			enum := pkg.Enums[name]
 			if err := m.resolveTypeReference(pkg, enum.Type, map[string]bool{}); err != nil {
 				return TypeError{
 					TypeReference: ast.TypeReference{
@@ -886,7 +918,8 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
-		for _, subtype := range pkg.Subtypes {
+		for _, name := range ast.SortedKeys(pkg.Subtypes) {
+			subtype := pkg.Subtypes[name]
 			if err := m.resolveTypeReference(pkg, subtype.Type, map[string]bool{}); err != nil {
 				return TypeError{
 					TypeReference: ast.TypeReference{
@@ -900,7 +933,8 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
-		for _, bitmask := range pkg.Bitmasks {
+		for _, name := range ast.SortedKeys(pkg.Bitmasks) {
+			bitmask := pkg.Bitmasks[name]
 			if err := m.resolveTypeReference(pkg, bitmask.Type, map[string]bool{}); err != nil {
 				return TypeError{
 					TypeReference: ast.TypeReference{
@@ -913,7 +947,8 @@ func (m *Model) ResolveTypes() error {
 				}
 			}
 		}
-		for _, instantiatedType := range pkg.InstantiatedTypes {
+		for _, name := range ast.SortedKeys(pkg.InstantiatedTypes) {
+			instantiatedType := pkg.InstantiatedTypes[name]
 			if err := m.resolveTypeReference(pkg, instantiatedType.Type, map[string]bool{}); err != nil {
 				return TypeError{
 					TypeReference: ast.TypeReference{
-- 
2.43.0


From 78111c86c2be52db19838cb9cdcc722ced0b1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 31/54] fix: do not pack arrays of types without delta
 encoding, which lost their elements

---
 ztype/array_decode.go |  4 +++-
 ztype/array_encode.go |  6 ++++--
 ztype/array_traits.go | 28 +++++++++-------------------
 3 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index c12564c..a0457c0 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -35,6 +35,8 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 
 		if array.IsPacked {
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
 			// A descriptor is only written for packed arrays.
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
@@ -51,7 +53,7 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 				array.checkOffsetMethod(index, count)
 			}
 
-			if array.IsPacked {
+			if packedTraits != nil {
 				element, err = packedTraits.Read(array.PackedContext, reader, index)
 			} else {
 				element, err = array.ArrayTraits.Read(reader, index)
diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index 11ab38b..0ba5a48 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -18,8 +18,10 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 		var packedTraits IPackedArrayTraits[T]
 		if array.IsPacked {
 			// descriptors are only needed if the array is packed
-			var err error
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
+			var err error
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
 				return err
@@ -39,7 +41,7 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				array.checkOffsetMethod(index, count)
 			}
 			var err error
-			if array.IsPacked {
+			if packedTraits != nil {
 				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
 				err = array.ArrayTraits.Write(writer, element)
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index e4927d9..6dc379f 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -21,7 +21,9 @@ type IArrayTraits[T any] interface {
 	// NeedsReadIndex specifies if the traits need the array index of the element.
 	NeedsReadIndex() bool
 
-	// PackedTraits will return the array trait as a packed object.
+	// PackedTraits will return the array trait as a packed object. It is nil if
+	// the underlying data type does not support delta encoding: arrays of such
+	// types are never packed.
 	PackedTraits() IPackedArrayTraits[T]
 
 	// BitSizeOf returns the bit size of array element. If the sizee depends on
@@ -114,9 +116,7 @@ func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArra
 type Float16ArrayTraits struct{}
 
 func (trait Float16ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float16ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float16ArrayTraits) BitSizeOfIsConstant() bool {
@@ -161,9 +161,7 @@ func (trait Float16ArrayTraits) FromUint64(value uint64) float32 {
 type Float32ArrayTraits struct{}
 
 func (trait Float32ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float32ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float32ArrayTraits) BitSizeOfIsConstant() bool {
@@ -206,9 +204,7 @@ func (trait Float32ArrayTraits) FromUint64(value uint64) float32 {
 type Float64ArrayTraits struct{}
 
 func (trait Float64ArrayTraits) PackedTraits() IPackedArrayTraits[float64] {
-	return &PackedArrayTraits[float64, Float64ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float64ArrayTraits) BitSizeOfIsConstant() bool {
@@ -822,9 +818,7 @@ func (trait BooleanArrayTraits) FromUint64(value uint64) bool {
 type StringArrayTraits struct{}
 
 func (trait StringArrayTraits) PackedTraits() IPackedArrayTraits[string] {
-	return &PackedArrayTraits[string, StringArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait StringArrayTraits) BitSizeOfIsConstant() bool {
@@ -867,9 +861,7 @@ func (trait StringArrayTraits) FromUint64(value uint64) string {
 type BitBufferArrayTraits struct{}
 
 func (trait BitBufferArrayTraits) PackedTraits() IPackedArrayTraits[*ExternType] {
-	return &PackedArrayTraits[*ExternType, BitBufferArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BitBufferArrayTraits) BitSizeOfIsConstant() bool {
@@ -912,9 +904,7 @@ func (trait BitBufferArrayTraits) FromUint64(value uint64) *ExternType {
 type BytesArrayTraits struct{}
 
 func (trait BytesArrayTraits) PackedTraits() IPackedArrayTraits[*BytesType] {
-	return &PackedArrayTraits[*BytesType, BytesArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BytesArrayTraits) BitSizeOfIsConstant() bool {
-- 
2.43.0


From e1e863fd8bfa1895cb6e4dbff5af7a6d65a4518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 32/54] fix: size packed arrays with a packing context, as they
 are written

---
 ztype/array.go        | 26 +++++++++++++++++++++++---
 ztype/object_array.go | 17 +++++++++++++++--
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index 000da57..d3839e5 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -37,8 +37,15 @@ func (array *Array[T, Y]) Size() int {
 	return len(array.RawArray)
 }
 
-// ZserioBitSize returns the total size of the unpacked array in bits.
+// ZserioBitSize returns the total size of the array in bits.
 func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(bitPosition)
+	}
+	return array.bitSizeUnpacked(bitPosition)
+}
+
+func (array *Array[T, Y]) bitSizeUnpacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
@@ -71,6 +78,11 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 
 // BitSizeOfPacked returns the total size of the packed array in bits.
 func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
+	packedTraits := array.ArrayTraits.PackedTraits()
+	if packedTraits == nil {
+		return array.bitSizeUnpacked(bitPosition)
+	}
+
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
@@ -81,13 +93,21 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 		endBitPosition += delta
 	}
 	if size > 0 {
-		packedTraits := array.ArrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err := packedTraits.InitContext(packedContext, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index ba29648..209e45a 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -24,8 +24,12 @@ type ObjectArray[T any, PT zserio.PackableZserioType[T]] struct {
 	IsPacked bool
 }
 
-// ZserioBitSize returns the total size of the unpacked object array in bits.
+// ZserioBitSize returns the total size of the object array in bits.
 func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(elements, bitPosition)
+	}
+
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
@@ -73,12 +77,21 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err := packedTraits.InitContext(packedContext, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From be4d0c5d0b1cd174e67b2ab888fbb1d5c005ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 33/54] fix: size array elements, conditions and alignment of
 packed fields as they are written

---
 internal/generator/templates/bitsizeof.go.tmpl     |  2 ++
 .../templates/packing_context_bitsize.go.tmpl      | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..452e371 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,6 +41,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+            {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..4b67e92 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,8 +18,8 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
 
 {{- if $field.IsOptional}}
@@ -27,6 +27,10 @@
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
@@ -43,6 +47,8 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
         if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
@@ -79,3 +85,7 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
-- 
2.43.0


From ca75a67704d1616894cd380f6478a3fb4b30e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 34/54] fix: emit every condition of a choice case, and cases
 without a field

---
 internal/generator/templates/choice.go.tmpl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 3c32e1a..041e4cb 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -38,8 +38,8 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -59,8 +59,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -82,8 +82,8 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
@@ -114,8 +114,8 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -137,8 +137,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -161,8 +161,8 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -189,8 +189,8 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-- 
2.43.0


From a876104777f1e8c59faca34865999f7fdbd5ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 35/54] fix: initialise the packing context of the default case
 of a choice

---
 internal/generator/templates/choice.go.tmpl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 041e4cb..985b8b4 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -108,7 +108,7 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
 }
 
 func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
@@ -122,7 +122,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
@@ -130,7 +130,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 }
 
 func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -154,7 +154,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
 }
 
 func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -183,7 +183,7 @@ func (v *{{ $choice.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
 
 func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
   endBitPosition := bitPosition
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
-- 
2.43.0


From 5419d96e4efd6c2e10e7925bcec902bc2d9fde2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 36/54] fix: write unions in packed arrays instead of nothing

---
 internal/generator/templates/union.go.tmpl | 66 ++++++++++++++++++++--
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..b2af670 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -81,6 +81,8 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  // the first context is used for the union choice
+  contextNode.AddChild(&zserio.PackingContextNode{Context: &ztype.DeltaContext[uint64]{}})
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -89,20 +91,56 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
-    _ = childrenNodes // to avoid "declared but not used" warning
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+        return errors.New("unknown context type")
+    }
+    choiceContext.Init(ztype.ArrayTraits.VarSize, uint64(v.UnionChoice))
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-  return nil
+    childrenNodes := contextNode.GetChildren()
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+        return errors.New("unknown context type")
+    }
+    unionChoice, err := choiceContext.Read(ztype.ArrayTraits.VarSize, r)
+    if err != nil {
+       return err
+    }
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+
+{{- range $index, $field := $union.Fields }}
+   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+   }
+{{- end}}
+    return nil
 }
 
 
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
-  return nil
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+    childrenNodes := contextNode.GetChildren()
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+        return errors.New("unknown context type")
+    }
+    err := choiceContext.Write(ztype.ArrayTraits.VarSize, w, uint64(v.UnionChoice))
+    if err != nil {
+        return err
+    }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
+    return nil
 }
 
 func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.PackingContextNode, bitPosition int) int {
@@ -110,5 +148,21 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  endBitPosition := bitPosition
+  childrenNodes := contextNode.GetChildren()
+  choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+      return 0, errors.New("unknown context type")
+  }
+  if delta, err := choiceContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, uint64(v.UnionChoice)); err != nil {
+      return 0, err
+  } else {
+      endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 8b10bd4e1ed747618c4ccd560a7a2a52f7faa69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 37/54] fix: write bit field enums and bitmasks of every type
 with the width they are read with

---
 internal/generator/templates/bitmask.go.tmpl | 6 ++----
 internal/generator/templates/enum.go.tmpl    | 4 +---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index e41159f..d485d04 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -26,12 +26,10 @@ func (v *{{ $bitmask.Name}}) MarshalZserio(w zserio.Writer) error {
       panic("only builtin types supported")
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
-    {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $bitmask.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
-      return ztype.WriteSignedBits(w, int64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
-      panic("unsupported type")
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- end }}
 }
 
diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index d2dcd9b..8bd6a4a 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -116,12 +116,10 @@ func (v *{{ $enum.Name}}) MarshalZserio(w zserio.Writer) error {
       panic("only builtin types supported")
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
-    {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
       return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
-      panic("unsupported type")
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- end }}
 }
 
-- 
2.43.0


From b327dd3cdd7e99823cc77e90d4b7a897bada17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 38/54] fix: do not hand out the internal table of enum values

---
 internal/generator/templates/enum.go.tmpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index 8bd6a4a..79dbf98 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -43,7 +43,9 @@ var _{{ $enum.Name }}NameToValue = map[string]{{ $enum.Name }}{
 
 // {{ $enum.Name }}Values returns all values of the enum
 func {{ $enum.Name }}Values() []{{ $enum.Name }} {
-  return _{{ $enum.Name }}Values
+  values := make([]{{ $enum.Name }}, len(_{{ $enum.Name }}Values))
+  copy(values, _{{ $enum.Name }}Values)
+  return values
 }
 
 // {{ $enum.Name }}Strings returns a slice of all string values of the enum
-- 
2.43.0


From b6167ba5feced86d58822f8a0d5b5c8a85a1f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 39/54] fix: cast enum values of variable-length types when
 they are sized

---
 internal/generator/templates/enum.go.tmpl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index 79dbf98..2b3a6bd 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -2,6 +2,7 @@
 {{ $enum := .enum }}
 {{ $options := .options }}
 {{ $native := goNativeType $scope $enum.Type }}
+{{ $obj_with_cast := printf "%s(*v)" (goType $scope $native.Type) }}
 
 {{ $enum.Comment }}
 type {{ $enum.Name }} {{ goType $scope $enum.Type }}
@@ -151,7 +152,7 @@ func (v *{{ $enum.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" "*v" "native" $native "isarray" false "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $obj_with_cast "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 6e5c530c856e36f51425be4e58d0ca1067a68006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 40/54] fix: give members of enum and bitmask types their
 default values

---
 internal/generator/templates/default_values.go.tmpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..0d78663 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -12,7 +12,9 @@
 {{- end }}
 
 {{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+    {{- if and $field.Initializer $native.IsMarshaler }}
+        v.{{ $field.Name }} = {{ goExpression $scope $field.Initializer }}
+    {{- else if $native.IsMarshaler }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
-- 
2.43.0


From e936c82e9b4825c61ecadca1c2dbbb4d131319f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 41/54] fix: instantiate templates used as parameter types and
 function return types

---
 internal/model/transform.go | 82 ++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 0de2540..f517d80 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -262,6 +262,9 @@ func (m *Model) InstantiateTemplates() error {
 			if len(structure.TemplateParameters) > 0 {
 				continue
 			}
+			if err = m.instantiateMembers(pkg, structure.Name, structure.TypeParameters, structure.Functions); err != nil {
+				return err
+			}
 			for _, field := range structure.Fields {
 				if field.Type, err = m.instantiateType(
 					pkg,
@@ -289,6 +292,9 @@ func (m *Model) InstantiateTemplates() error {
 			if len(union.TemplateParameters) > 0 {
 				continue
 			}
+			if err = m.instantiateMembers(pkg, union.Name, union.TypeParameters, union.Functions); err != nil {
+				return err
+			}
 			for _, field := range union.Fields {
 				if field.Type, err = m.instantiateType(
 					pkg,
@@ -316,6 +322,9 @@ func (m *Model) InstantiateTemplates() error {
 			if len(choice.TemplateParameters) > 0 {
 				continue
 			}
+			if err = m.instantiateMembers(pkg, choice.Name, choice.TypeParameters, choice.Functions); err != nil {
+				return err
+			}
 			for _, choiceCase := range choice.Cases {
 				if choiceCase.Field == nil {
 					continue
@@ -360,6 +369,39 @@ func (m *Model) InstantiateTemplates() error {
 	return nil
 }
 
+// instantiateMembers instantiates the templates that are used as the type of a
+// parameter, or returned by a function, of a compound type.
+func (m *Model) instantiateMembers(pkg *ast.Package, compoundName string, params []*ast.Parameter, functions []*ast.Function) error {
+	instantiate := func(member string, tr *ast.TypeReference) (*ast.TypeReference, error) {
+		instantiated, err := m.instantiateType(pkg, tr, tr.TemplateArguments, "")
+		if err != nil {
+			return nil, TypeError{
+				TypeReference: ast.TypeReference{
+					IsBuiltin: false,
+					Package:   pkg.Name,
+					Name:      compoundName,
+				},
+				Field: member,
+				Err:   err,
+			}
+		}
+		return instantiated, nil
+	}
+
+	var err error
+	for _, param := range params {
+		if param.Type, err = instantiate(param.Name, param.Type); err != nil {
+			return err
+		}
+	}
+	for _, function := range functions {
+		if function.ReturnType, err = instantiate(function.Name, function.ReturnType); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func cloneExpression(e *ast.Expression) *ast.Expression {
 	if e == nil {
 		return nil
@@ -426,25 +468,35 @@ func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templa
 	return &fieldCopy, nil
 }
 
-func instantiateParameters(params []*ast.Parameter, templateTypes map[string]*ast.TypeReference) []*ast.Parameter {
+func (m *Model) instantiateParameters(pkgScope *ast.Package, params []*ast.Parameter, templateTypes map[string]*ast.TypeReference) ([]*ast.Parameter, error) {
 	var instantiated []*ast.Parameter
 	for _, param := range params {
 		paramCopy := *param
-		paramCopy.Type = substituteType(param.Type, templateTypes)
+		paramType := substituteType(param.Type, templateTypes)
+		var err error
+		paramCopy.Type, err = m.instantiateType(pkgScope, paramType, paramType.TemplateArguments, "")
+		if err != nil {
+			return nil, err
+		}
 		instantiated = append(instantiated, &paramCopy)
 	}
-	return instantiated
+	return instantiated, nil
 }
 
-func instantiateFunctions(functions []*ast.Function, templateTypes map[string]*ast.TypeReference) []*ast.Function {
+func (m *Model) instantiateFunctions(pkgScope *ast.Package, functions []*ast.Function, templateTypes map[string]*ast.TypeReference) ([]*ast.Function, error) {
 	var instantiated []*ast.Function
 	for _, function := range functions {
 		functionCopy := *function
 		functionCopy.Result = cloneExpression(function.Result)
-		functionCopy.ReturnType = substituteType(function.ReturnType, templateTypes)
+		returnType := substituteType(function.ReturnType, templateTypes)
+		var err error
+		functionCopy.ReturnType, err = m.instantiateType(pkgScope, returnType, returnType.TemplateArguments, "")
+		if err != nil {
+			return nil, err
+		}
 		instantiated = append(instantiated, &functionCopy)
 	}
-	return instantiated
+	return instantiated, nil
 }
 
 func instantiateConditions(conditions []*ast.ChoiceCaseExpression) []*ast.ChoiceCaseExpression {
@@ -503,8 +555,13 @@ func (m *Model) instantiateStruct(
 		structure.Fields = append(structure.Fields, newField)
 	}
 
-	structure.TypeParameters = instantiateParameters(templStruct.TypeParameters, templateTypes)
-	structure.Functions = instantiateFunctions(templStruct.Functions, templateTypes)
+	var err error
+	if structure.TypeParameters, err = m.instantiateParameters(pkgScope, templStruct.TypeParameters, templateTypes); err != nil {
+		return nil, err
+	}
+	if structure.Functions, err = m.instantiateFunctions(pkgScope, templStruct.Functions, templateTypes); err != nil {
+		return nil, err
+	}
 
 	// update the scope with the newly created scope
 	pkgScope.Structs[newType.Name] = structure
@@ -585,8 +642,13 @@ func (m *Model) instantiateChoice(
 		}
 
 	}
-	choice.TypeParameters = instantiateParameters(templChoice.TypeParameters, templateTypes)
-	choice.Functions = instantiateFunctions(templChoice.Functions, templateTypes)
+	var err error
+	if choice.TypeParameters, err = m.instantiateParameters(pkgScope, templChoice.TypeParameters, templateTypes); err != nil {
+		return nil, err
+	}
+	if choice.Functions, err = m.instantiateFunctions(pkgScope, templChoice.Functions, templateTypes); err != nil {
+		return nil, err
+	}
 
 	// update the scope with the newly created scope
 	pkgScope.Choices[newType.Name] = choice
-- 
2.43.0


From 0ae161f8bc0ec6f0215a15e4300b09dde147d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 42/54] fix: compare and combine integers of different types in
 generated code

---
 internal/ast/expression.go       |  8 +++
 internal/generator/expression.go | 89 +++++++++++++++++++++++++++++++-
 2 files changed, 95 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 815fad6..11a6eb4 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -239,6 +239,7 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
+	expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "int64"}
 	// a single value needs one bit; n values need the bits of the largest index
 	numValues := uint64(expr.Operand1.ResultIntValue)
 	if numValues > 1 {
@@ -786,6 +787,13 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	// This does not apply to shift operations.
 	if expr.NativeZserioType == nil && !isShiftOperation {
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
+	} else if !isShiftOperation && expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand2.ResultType == ExpressionTypeInteger {
+		// Integers of different types are mixed as in arithmetic expressions.
+		_, nativeType, err := DetermineArithmeticOperationResultType(expr.Operand1, expr.Operand2)
+		if err != nil {
+			return err
+		}
+		expr.NativeZserioType = nativeType
 	}
 
 	// If this is a shift operation, and there is no clear type defined,
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 3b81531..3222888 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -100,7 +100,8 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("ztype.NumBits(uint64(%s))", ExpressionToGoString(scope, expression.Operand1))
+	// The value is casted to the zserio type set in evaluateNumBitsOperator().
+	return fmt.Sprintf("int64(ztype.NumBits(uint64(%s)))", ExpressionToGoString(scope, expression.Operand1))
 }
 
 func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeReference, error) {
@@ -246,12 +247,85 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		}
 	}
 
+	if expression.ResultType == ast.ExpressionTypeBool {
+		// The operands of a comparison need to have the same Go type.
+		type1, basicType1 := operandGoTypes(scope, expression.Operand1)
+		type2, basicType2 := operandGoTypes(scope, expression.Operand2)
+		if type1 != "" && type2 != "" && type1 != type2 {
+			commonType := comparisonGoType(basicType1, basicType2)
+			operand1Str = castToGoType(scope, expression.Operand1, operand1Str, commonType)
+			operand2Str = castToGoType(scope, expression.Operand2, operand2Str, commonType)
+		}
+	}
+
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
 		operand2Str)
 }
 
+// operandGoTypes returns the Go type of an integer or float operand, and the
+// basic Go type it stands for. Both are empty for other operands, and numerals.
+func operandGoTypes(scope ast.Scope, operand *ast.Expression) (string, string) {
+	for operand.Type == parser.ZserioParserLPAREN {
+		operand = operand.Operand1
+	}
+	if operand.FullyResolved || (operand.ResultType != ast.ExpressionTypeInteger && operand.ResultType != ast.ExpressionTypeFloat) {
+		return "", ""
+	}
+	operandType := operand.NativeZserioType
+	if operand.ResultSymbol != nil {
+		symbolType, err := getSymbolType(scope, operand.ResultSymbol)
+		if err != nil {
+			panic(err)
+		}
+		operandType = symbolType
+	}
+	if operandType == nil {
+		return "", ""
+	}
+	goType, err := GoType(scope, operandType)
+	if err != nil {
+		panic(err)
+	}
+	originalType, err := scope.OriginalType(operandType)
+	if err != nil {
+		panic(err)
+	}
+	basicType, err := GoType(scope, originalType.Type)
+	if err != nil {
+		panic(err)
+	}
+	return goType, basicType
+}
+
+// castToGoType casts an operand, unless it already has the Go type, or is a numeral.
+func castToGoType(scope ast.Scope, operand *ast.Expression, operandStr string, goType string) string {
+	if operandType, _ := operandGoTypes(scope, operand); operandType == "" || operandType == goType {
+		return operandStr
+	}
+	return fmt.Sprintf("%s(%s)", goType, operandStr)
+}
+
+// goTypeBits is the number of bits of the basic Go types.
+var goTypeBits = map[string]int{
+	"int8": 8, "int16": 16, "int32": 32, "int64": 64,
+	"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64,
+	"float32": 32, "float64": 64,
+}
+
+// comparisonGoType returns the Go type that values of two basic Go types are
+// compared in: the larger one, or int64 for signed and unsigned integers.
+func comparisonGoType(type1, type2 string) string {
+	if strings.TrimRight(type1, "0123456789") != strings.TrimRight(type2, "0123456789") {
+		return "int64"
+	}
+	if goTypeBits[type1] > goTypeBits[type2] {
+		return type1
+	}
+	return type2
+}
+
 func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	operator := ""
 	isShiftOperator := false
@@ -286,10 +360,21 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
 	}
 
+	operand2Str := operandToGoString(scope, expression.Operand2)
+	if !isShiftOperator && expression.ResultType == ast.ExpressionTypeInteger && expression.NativeZserioType != nil {
+		// Bitwise operators need operands of the same Go type.
+		goType, err := GoType(scope, expression.NativeZserioType)
+		if err != nil {
+			panic(err)
+		}
+		operand1Str = castToGoType(scope, expression.Operand1, operand1Str, goType)
+		operand2Str = castToGoType(scope, expression.Operand2, operand2Str, goType)
+	}
+
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
-		operandToGoString(scope, expression.Operand2))
+		operand2Str)
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-- 
2.43.0


From 6ff2dc796d92acf9b7cfa42679233cfc012dea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 43/54] fix: casts to bytes and extern types in generated code

---
 internal/generator/templates/bitsizeof.go.tmpl            | 4 ++--
 internal/generator/templates/decode.go.tmpl               | 4 ++--
 .../templates/decode_compound_parameters.go.tmpl          | 4 ++--
 internal/generator/templates/default_values.go.tmpl       | 2 +-
 internal/generator/templates/encode.go.tmpl               | 4 ++--
 .../templates/encode_compound_parameters.go.tmpl          | 2 +-
 internal/generator/templates/functions.go.tmpl            | 2 +-
 .../generator/templates/packing_context_bitsize.go.tmpl   | 6 +++---
 .../generator/templates/packing_context_decode.go.tmpl    | 4 ++--
 .../generator/templates/packing_context_encode.go.tmpl    | 8 ++++----
 internal/generator/templates/packing_context_init.go.tmpl | 4 ++--
 11 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 452e371..9b3fe2d 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -12,7 +12,7 @@
             {{- $name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $name = printf "%s(%s)" (goType $scope $native.Type) $name }}
+        {{- $name = printf "(%s)(%s)" (goType $scope $native.Type) $name }}
     {{- end }}
 {{- end }}
 
@@ -39,7 +39,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..9ad7e0f 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -79,7 +79,7 @@
                 {{- end }}
                 {{ $assign_str_lvalue }} = make([]{{ goType $scope $field.Type }}, 0, len({{ $field.Name }}ArrayProperties.RawArray))
                 for _, elem := range {{ $field.Name }}ArrayProperties.RawArray {
-                    {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ $element }}){{ else }}{{ $element }}{{ end }})
+                    {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}({{ goType $scope $field.Type }})({{ $element }}){{ else }}{{ $element }}{{ end }})
                 }
             {{- else }}
                 {{ $assign_str_lvalue }} = {{ $field.Name }}ArrayProperties.RawArray
diff --git a/internal/generator/templates/decode_compound_parameters.go.tmpl b/internal/generator/templates/decode_compound_parameters.go.tmpl
index 8c93a6b..1da3c99 100644
--- a/internal/generator/templates/decode_compound_parameters.go.tmpl
+++ b/internal/generator/templates/decode_compound_parameters.go.tmpl
@@ -17,9 +17,9 @@
     {{- range $i, $argument := $field.Type.TypeArguments }}
         {{- $current_type_parameter := index $type_parameter $i }}
         {{- if $field.Array }}
-            elem.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+            elem.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
         {{- else }}
-            {{ $field_name }}.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+            {{ $field_name }}.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
         {{- end }}
     {{- end}}
     
diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 0d78663..e14ca9c 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -20,7 +20,7 @@
         }
     {{- else if not $field.Array }}
         {{- if $field.Initializer }}
-        {{- $field_name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
+        {{- $field_name }} = {{ if $native.RequiresCast }}({{ goType $scope $field.Type }})({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
         {{- end }}
     {{- end }}
 {{- end }}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..08c6473 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -53,7 +53,7 @@
         {{- else if $native.RequiresCast }}
             {{ $field.Name }}ArrayProperties.RawArray = make([]{{ goType $scope $native.Type }}, 0, {{ $field.Name }}ArrayProperties.FixedSize)
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/encode_compound_parameters.go.tmpl b/internal/generator/templates/encode_compound_parameters.go.tmpl
index d30717a..85ce2fe 100644
--- a/internal/generator/templates/encode_compound_parameters.go.tmpl
+++ b/internal/generator/templates/encode_compound_parameters.go.tmpl
@@ -11,7 +11,7 @@
     {{- $type_parameter := getTypeParameter $scope $field.Type }}
     {{- range $i, $argument := $field.Type.TypeArguments }}
         {{- $current_type_parameter := index $type_parameter $i }}
-        {{ $field_name }}.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+        {{ $field_name }}.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
     {{- end}}
     {{- if $field.Array }}
     }
diff --git a/internal/generator/templates/functions.go.tmpl b/internal/generator/templates/functions.go.tmpl
index 821e96e..1bf1ab3 100644
--- a/internal/generator/templates/functions.go.tmpl
+++ b/internal/generator/templates/functions.go.tmpl
@@ -4,6 +4,6 @@
 {{- range $function := $functions }}
 func (v *{{ $name }}) {{ .Name }}() {{ goType $scope .ReturnType }} {
    retVal := {{ goExpression $scope .Result }}
-   return {{ goType $scope .ReturnType }}(retVal)
+   return ({{ goType $scope .ReturnType }})(retVal)
 }
 {{- end}}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 4b67e92..7e0cd83 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -14,7 +14,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -45,7 +45,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $field_name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
@@ -69,7 +69,7 @@
     if field{{ $field.Name }}Context, ok := childrenNodes[{{ $index }}].Context.(*ztype.DeltaContext[{{ goType $scope $native.Type }}]); !ok {
         return 0, errors.New("invalid packing context")
     } else {
-        if delta, err := field{{ $field.Name }}Context.BitSizeOf({{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}, endBitPosition, {{ goType $scope $native.Type }}({{ $field_name }})); err != nil {
+        if delta, err := field{{ $field.Name }}Context.BitSizeOf({{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}, endBitPosition, ({{ goType $scope $native.Type }})({{ $field_name }})); err != nil {
             return 0, err
         } else {
             endBitPosition += delta
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 49fb863..ce86850 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -76,7 +76,7 @@
             {{- end }}
             {{ $assign_str_lvalue }} = make([]{{ goType $scope $field.Type }}, 0, len({{ $field.Name }}ArrayProperties.RawArray))
             for _, elem := range {{ $field.Name }}ArrayProperties.RawArray {
-                {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ $element }}){{ else }}{{ $element }}{{ end }})
+                {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}({{ goType $scope $field.Type }})({{ $element }}){{ else }}{{ $element }}{{ end }})
             }
         {{- else }}
             {{ $assign_str_lvalue }} = {{ $field.Name }}ArrayProperties.RawArray
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9222412..0c93dc6 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -65,7 +65,7 @@
             }
         {{- else if $native.RequiresCast }}
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
@@ -85,13 +85,13 @@
     if field{{ $field.Name }}Context, ok := childrenNodes[{{ $index }}].Context.(*ztype.DeltaContext[{{ goType $scope $native.Type }}]); !ok {
         return errors.New("unknown context type")
     } else {
-        if err := field{{ $field.Name }}Context.Write({{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}, w, {{ goType $scope $native.Type }}({{ $field_name }})); err != nil {
+        if err := field{{ $field.Name }}Context.Write({{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}, w, ({{ goType $scope $native.Type }})({{ $field_name }})); err != nil {
             return err
         }
     }
 
 {{- else }}
-    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ if $native.RequiresCast }}{{ goType $scope $native.Type }}({{end}}{{ $field_name }}{{ if $native.RequiresCast }}){{end}}); err != nil {
+    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ if $native.RequiresCast }}({{ goType $scope $native.Type }})({{end}}{{ $field_name }}{{ if $native.RequiresCast }}){{end}}); err != nil {
         return err
     } 
 
diff --git a/internal/generator/templates/packing_context_init.go.tmpl b/internal/generator/templates/packing_context_init.go.tmpl
index 8fee3a2..5547f6f 100644
--- a/internal/generator/templates/packing_context_init.go.tmpl
+++ b/internal/generator/templates/packing_context_init.go.tmpl
@@ -13,7 +13,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -36,7 +36,7 @@
             return errors.New("unknown context type")
         } else {
             traits := {{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}
-            field{{ $field.Name }}Context.Init(traits, {{ goType $scope $native.Type }}({{ $field_name }}))
+            field{{ $field.Name }}Context.Init(traits, ({{ goType $scope $native.Type }})({{ $field_name }}))
         }
     {{- end }}
 
-- 
2.43.0


From 1757fb18aec2676267e0dc305216bbfbe3f1da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 44/54] fix: choices on bool selectors

---
 internal/generator/funcs.go                 |  9 +++++++++
 internal/generator/templates.go             |  1 +
 internal/generator/templates/choice.go.tmpl | 14 +++++++-------
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index e33110e..fe4aef9 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -3,6 +3,7 @@ package generator
 // This file contains helper functions that can be called from templates.
 
 import (
+	"strconv"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -65,6 +66,14 @@ func GoExpression(scope ast.Scope, expression *ast.Expression) string {
 	return ExpressionToGoString(scope, expression)
 }
 
+// GoChoiceCase prints the constant that selects a choice case.
+func GoChoiceCase(condition *ast.Expression) string {
+	if condition.ResultType == ast.ExpressionTypeBool {
+		return strconv.FormatBool(condition.ResultBoolValue)
+	}
+	return strconv.FormatInt(condition.ResultIntValue, 10)
+}
+
 func GoNativeType(pkg *ast.Package, typ *ast.TypeReference) (*ast.OriginalTypeReference, error) {
 	return pkg.GetOriginalType(typ)
 }
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 0d70aae..069c1a7 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -22,6 +22,7 @@ func init() {
 		"getTypeParameter":  GetTypeParameter,
 		"goPackageAlias":    GoPackageAlias,
 		"goExpression":      GoExpression,
+		"goChoiceCase":      GoChoiceCase,
 		"goArrayTraits":     GoArrayTraits,
 		"goNativeType":      GoNativeType,
 		"add":               Add,
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 985b8b4..cef38e6 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -38,7 +38,7 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
-  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
   {{- if .Field }}
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
@@ -59,7 +59,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
-  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
   {{- if .Field }}
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
@@ -82,7 +82,7 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
-  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+  case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
   {{- if .Field }}
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
@@ -114,7 +114,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
     {{- if .Field }}
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
@@ -137,7 +137,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
     {{- if .Field }}
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
@@ -161,7 +161,7 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
     {{- if .Field }}
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
@@ -189,7 +189,7 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ $condition.Condition.ResultIntValue }}{{ end }}:
+      case {{ range $ix, $condition := .Conditions }}{{ if $ix }}, {{ end }}{{ goChoiceCase $condition.Condition }}{{ end }}:
     {{- if .Field }}
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
-- 
2.43.0


From 5511a0632caead349fd6de6270cd7006275950e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 45/54] fix: the type of valueof expressions

---
 internal/ast/expression.go       | 31 +++++++++++++++++++++++++++++--
 internal/generator/expression.go | 11 ++++++++++-
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 11a6eb4..69f68ab 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -217,7 +217,7 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 }
 
 // evaluateValueOfOperator evaluates a value of operator.
-func (expr *Expression) evaluateValueOfOperator() error {
+func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
@@ -227,6 +227,33 @@ func (expr *Expression) evaluateValueOfOperator() error {
 	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	if expr.Operand1.ResultSymbol == nil {
+		return nil
+	}
+
+	// The value has the type that the enum or bitmask is based on.
+	symbol, err := scope.GetOriginalSymbol(expr.Operand1.ResultSymbol)
+	if err != nil {
+		return err
+	}
+	var baseType *TypeReference
+	switch n := symbol.Symbol.(type) {
+	case *Enum:
+		baseType = n.Type
+	case *BitmaskType:
+		baseType = n.Type
+	default:
+		return nil
+	}
+	symbolScope, err := scope.GetImportedScope(symbol.Package)
+	if err != nil {
+		return err
+	}
+	originalType, err := symbolScope.GetOriginalType(baseType)
+	if err != nil {
+		return err
+	}
+	expr.NativeZserioType = originalType.Type
 	return nil
 }
 
@@ -898,7 +925,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserLENGTHOF:
 		err = expr.evaluateLengthOfOperator(scope)
 	case parser.ZserioParserVALUEOF:
-		err = expr.evaluateValueOfOperator()
+		err = expr.evaluateValueOfOperator(scope)
 	case parser.ZserioParserNUMBITS:
 		err = expr.evaluateNumBitsOperator()
 	case parser.ZserioParserPLUS:
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 3222888..9d19da6 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -409,7 +409,16 @@ func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return ExpressionToGoString(scope, expression.Operand1)
+	operand := ExpressionToGoString(scope, expression.Operand1)
+	if expression.NativeZserioType == nil {
+		return operand
+	}
+	// Values of different enums or bitmasks can be used together.
+	goType, err := GoType(scope, expression.NativeZserioType)
+	if err != nil {
+		panic(err)
+	}
+	return fmt.Sprintf("%s(%s)", goType, operand)
 }
 
 // operandToGoString prints the operand of an operator. Operators are grouped as
-- 
2.43.0


From 19b6ba87a28163ee5df48ebd14e859f17c9dab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 46/54] fix: imports mentioned in comments only are not used

---
 internal/generator/strip_imports.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/generator/strip_imports.go b/internal/generator/strip_imports.go
index 0d0d31f..30d0a63 100644
--- a/internal/generator/strip_imports.go
+++ b/internal/generator/strip_imports.go
@@ -1,6 +1,9 @@
 package generator
 
 import (
+	"go/ast"
+	"go/parser"
+	"go/token"
 	"strings"
 )
 
@@ -18,6 +21,10 @@ func StripImports(code []byte) ([]byte, error) {
 		// can be accepted.
 		return code, nil
 	}
+	used, err := usedQualifiers(code)
+	if err != nil {
+		return nil, err
+	}
 	// extract the import section
 	prefix := content[0 : importIndex+len(importKey)]
 	content = content[importIndex+len(importKey):]
@@ -48,7 +55,7 @@ func StripImports(code []byte) ([]byte, error) {
 				importName = line[lastSeparator+1 : len(line)-1]
 			}
 		}
-		if strings.Contains(content, importName+".") {
+		if used[importName] {
 			usedImports = append(usedImports, currentImport)
 		}
 	}
@@ -56,3 +63,22 @@ func StripImports(code []byte) ([]byte, error) {
 	return []byte(prefix + importSection + content), nil
 
 }
+
+// usedQualifiers collects the identifiers that qualify another one in the code,
+// such as the names of the packages that are used.
+func usedQualifiers(code []byte) (map[string]bool, error) {
+	file, err := parser.ParseFile(token.NewFileSet(), "", code, parser.SkipObjectResolution)
+	if err != nil {
+		return nil, err
+	}
+	used := map[string]bool{}
+	ast.Inspect(file, func(node ast.Node) bool {
+		if selector, ok := node.(*ast.SelectorExpr); ok {
+			if qualifier, ok := selector.X.(*ast.Ident); ok {
+				used[qualifier.Name] = true
+			}
+		}
+		return true
+	})
+	return used, nil
+}
-- 
2.43.0


From 4169124b8d068b4d602620d21aa4def3ca4993c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 47/54] fix: bitmask values given by other bitmask values were
 emitted as placeholder text

---
 internal/ast/bitmask.go    |  5 +++++
 internal/ast/enum.go       |  3 +++
 internal/ast/expression.go | 13 +++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..12d84af 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type BitmaskValue struct {
 	Name string
 	*Expression
@@ -43,6 +45,9 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 			if err := value.Evaluate(p); err != nil {
 				return err
 			}
+			if err := value.toInteger(); err != nil {
+				return fmt.Errorf("bitmask value %q: %w", value.Name, err)
+			}
 		}
 	}
 	return nil
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..2bde1ca 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -51,6 +51,9 @@ func (e *Enum) Evaluate(scope *Package) error {
 			if err := item.Evaluate(scope); err != nil {
 				return err
 			}
+			if err := item.toInteger(); err != nil {
+				return fmt.Errorf("enum item %q: %w", item.Name, err)
+			}
 		}
 	}
 	return nil
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 69f68ab..c6f88d4 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -95,6 +95,19 @@ func copyExpressionResult(src, dst *Expression) {
 	dst.NativeZserioType = src.NativeZserioType
 }
 
+// toInteger makes an evaluated expression that stands for a bitmask value an
+// integer, and reports an error if the expression is no number at all.
+func (expr *Expression) toInteger() error {
+	switch expr.ResultType {
+	case ExpressionTypeInteger:
+		return nil
+	case ExpressionTypeBitmask:
+		expr.ResultType = ExpressionTypeInteger
+		return nil
+	}
+	return fmt.Errorf("the value must be an integer, not %s", expr.ResultType)
+}
+
 // evaluateExpressionType returns the expression type and the type
 // reference of the underlying internal zserio type.
 // For example, if the expression type is an int16, ExpressionTypeInt,
-- 
2.43.0


From d30f8f7a137becc5e008345659bdf4f86a4a365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 48/54] fix: expressions with enum items were evaluated with
 made-up values or did not compile

---
 internal/ast/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index c6f88d4..90fd6f8 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -454,6 +454,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 						}
 					}
 					copyExpressionResult(enumItem.Expression, expr)
+					expr.FullyResolved = true
 					return nil
 				}
 			}
-- 
2.43.0


From ad626c8e1993fca1e704a389e8c6706a0d36a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 49/54] fix: valueof() of enum and bitmask items was refused,
 or did not compile

---
 internal/ast/expression.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 90fd6f8..856eb7a 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -229,17 +229,29 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 	return err
 }
 
+// isItem returns true if the expression is <enum>.<value>, or <bitmask>.<value>.
+func (expr *Expression) isItem() bool {
+	return expr.Type == parser.ZserioParserDOT && expr.Operand1 != nil &&
+		(expr.Operand1.ResultType == ExpressionTypeEnum ||
+			expr.Operand1.ResultType == ExpressionTypeBitmask)
+}
+
 // evaluateValueOfOperator evaluates a value of operator.
 func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
 	if expr.Operand1.ResultType != ExpressionTypeEnum &&
-		expr.Operand1.ResultType != ExpressionTypeBitmask {
+		expr.Operand1.ResultType != ExpressionTypeBitmask &&
+		!expr.Operand1.isItem() {
 		return errors.New("valueof operator needs an expression or bitmask type")
 	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	if expr.Operand1.isItem() {
+		expr.FullyResolved = true
+		return nil
+	}
 	if expr.Operand1.ResultSymbol == nil {
 		return nil
 	}
-- 
2.43.0


From 4c244b5d88469220d91e35c00a2c0b5189fd344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 50/54] fix: bitmask values named by a subtype of the bitmask
 did not compile

---
 internal/generator/expression.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 9d19da6..9e95ad7 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -94,7 +94,19 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		return enumValue
 	} else if expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
-		return leftText + rightText
+		originalType, err := scope.OriginalType(
+			&ast.TypeReference{
+				Name:    expression.Operand1.ResultSymbol.Name,
+				Package: expression.Operand1.ResultSymbol.Package,
+			})
+		if err != nil {
+			panic(err)
+		}
+		originalBitmaskType, err := GoType(scope, originalType.Type)
+		if err != nil {
+			panic(err)
+		}
+		return originalBitmaskType + rightText
 	}
 	return fmt.Sprintf("%s.%s", leftText, rightText)
 }
-- 
2.43.0


From 2fca648e3c08c1562dd5aee5762f237e0f0968b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 51/54] fix: import of a single type by name

---
 internal/model/transform.go | 7 ++++++-
 internal/visitor/visitor.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index f517d80..51a3a61 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,6 +3,7 @@ package model
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -767,7 +768,11 @@ func (m *Model) ResolveImports() error {
 			if !found {
 				return UnknownPackage{imp.Package}
 			}
-			if imp.Type == "*" {
+			if imp.Type != "*" && !iPkg.HasType(imp.Type) {
+				return UnknownType{TypeReference: ast.TypeReference{Package: imp.Package, Name: imp.Type}}
+			}
+			// a package may be imported type by type
+			if !slices.Contains(pkg.ImportedPackages, iPkg) {
 				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
 			}
 		}
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 79ccb3f..2e5d414 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -114,7 +114,7 @@ func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) a
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
+	symbolName := children[len(children)-2].(antlr.ParseTree).GetText()
 	if ctx.MULTIPLY() != nil {
 		symbolName = "*"
 	}
-- 
2.43.0


From f25f683c5e8a7bec3b7184acdbde2c63294c1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 52/54] fix: a function call has the type that the function
 declares

---
 internal/ast/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 856eb7a..11a457f 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -395,6 +395,12 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
+	// the call has the declared type, which may be another one than that of the
+	// expression that the function returns
+	expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(&SymbolReference{Symbol: function.ReturnType}, functionEvaluationScope)
+	if err != nil {
+		return err
+	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
-- 
2.43.0


From fe893725754b62db3bc5ac51b43ef415eb1e247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 53/54] fix: members of array elements, unions and indirectly
 imported types in expressions

---
 internal/ast/expression.go | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 11a457f..2628696 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -313,43 +313,30 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 		return errors.New("unknown compound dot expression")
 	}
 
-	// look up through all levels of indirections (subtypes)
+	// look up through all levels of indirections (subtypes), each name in the
+	// package that it belongs to
 	var compoundSymbol *SymbolReference
 	newScope := scope
 	var err error
 	for {
-		compoundSymbol, err = scope.GetSymbol(typeReference.Name)
+		newScope, err = newScope.GetImportedScope(typeReference.Package)
 		if err != nil {
 			return err
 		}
-		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
+		compoundSymbol, err = newScope.GetType(typeReference.Name)
 		if err != nil {
 			return err
 		}
 		if subtype, ok := compoundSymbol.Symbol.(*Subtype); ok {
 			typeReference = subtype.Type
-			// TODO comment
-			newScope, err = newScope.GetImportedScope(typeReference.Package)
-			if err != nil {
-				return err
-			}
 			continue
 		}
 		break
 	}
 
-	if _, ok := compoundSymbol.Symbol.(*Struct); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
-		return err
-	}
-
-	if _, ok := compoundSymbol.Symbol.(*Choice); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
+	switch compoundSymbol.Symbol.(type) {
+	case *Struct, *Choice, *Union:
+		symbol, err := newScope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
 		if err != nil {
 			return err
 		}
@@ -428,9 +415,14 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.Operand2.ResultType != ExpressionTypeInteger {
 		return errors.New("array index expression must be an integer")
 	}
-	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
+	element := &SymbolReference{Symbol: field.Type}
+	if expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(element, scope); err != nil {
 		return err
 	}
+	if expr.ResultType == ExpressionTypeCompound {
+		// the members of the element may be asked for
+		expr.ResultSymbol = element
+	}
 	return nil
 }
 
-- 
2.43.0


From 5bf92dd5976766ed087c22ef45f77ea969236956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 54/54] fix: numerals that do not fit the type of the other
 operand (u8 > 300, u8 * 256 + lo, u8 > -3) gave code that does not compile

---
 internal/ast/mixing_native_types.go | 28 ++++++++++++++++++++++++++++
 internal/generator/expression.go    | 20 ++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/internal/ast/mixing_native_types.go b/internal/ast/mixing_native_types.go
index f6aae16..c1c4720 100644
--- a/internal/ast/mixing_native_types.go
+++ b/internal/ast/mixing_native_types.go
@@ -59,10 +59,38 @@ func DetermineArithmeticOperationResultType(operand1 *Expression, operand2 *Expr
 		return "", nil, fmt.Errorf("%w: %s, %s", ErrUnknownType, operand1.ResultType, operand2.ResultType)
 	}
 
+	// A numeral takes the type of the other operand, unless it does not fit.
+	if !numeralFits(operand1, operand2.NativeZserioType) || !numeralFits(operand2, operand1.NativeZserioType) {
+		return ExpressionTypeInteger, &TypeReference{IsBuiltin: true, Name: "int64"}, nil
+	}
+
 	resultType, err := evaluateMixingIntegerTypes(operand1.NativeZserioType, operand2.NativeZserioType)
 	return ExpressionTypeInteger, resultType, err
 }
 
+// numeralFits returns whether an integer numeral, such as the 300 in
+// "u8Var + 300", can be stored in the native type of the other operand. It is
+// always true if the operand is not a numeral.
+func numeralFits(operand *Expression, otherType *TypeReference) bool {
+	if operand.NativeZserioType != nil || !operand.FullyResolved || otherType == nil {
+		return true
+	}
+	rank := otherType.Bits
+	if rank == 0 {
+		rank = zserioIntegerTypeRank[otherType.Name]
+	}
+	// Values are stored in 8, 16, 32 or 64 bits, those of dynamic types in 64 bits.
+	storedBits := 64
+	for rank > 0 && storedBits > 8 && storedBits/2 >= rank {
+		storedBits /= 2
+	}
+	value := operand.ResultIntValue
+	if _, isSigned := zserioSignedToUnsigned[otherType.Name]; isSigned {
+		return value>>(storedBits-1) == 0 || value>>(storedBits-1) == -1
+	}
+	return value >= 0 && (storedBits == 64 || value>>storedBits == 0)
+}
+
 // compareNativeTypeReferences compares two native type references.
 // The type references can be nil, in which case the evaluation returns true if
 // both type references are nil.
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 9e95ad7..cae68e5 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -267,6 +267,9 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 			commonType := comparisonGoType(basicType1, basicType2)
 			operand1Str = castToGoType(scope, expression.Operand1, operand1Str, commonType)
 			operand2Str = castToGoType(scope, expression.Operand2, operand2Str, commonType)
+		} else if !numeralFits(expression.Operand1, basicType2) || !numeralFits(expression.Operand2, basicType1) {
+			operand1Str = castToGoType(scope, expression.Operand1, operand1Str, "int64")
+			operand2Str = castToGoType(scope, expression.Operand2, operand2Str, "int64")
 		}
 	}
 
@@ -311,6 +314,23 @@ func operandGoTypes(scope ast.Scope, operand *ast.Expression) (string, string) {
 	return goType, basicType
 }
 
+// numeralFits returns whether an integer numeral is a value of a basic Go type.
+// It is always true if the operand is not a numeral, or the type not an integer type.
+func numeralFits(operand *ast.Expression, basicType string) bool {
+	if !operand.FullyResolved || operand.ResultType != ast.ExpressionTypeInteger {
+		return true
+	}
+	value, bits := operand.ResultIntValue, goTypeBits[basicType]
+	switch {
+	case strings.HasPrefix(basicType, "int"):
+		return value>>(bits-1) == 0 || value>>(bits-1) == -1
+	case strings.HasPrefix(basicType, "uint"):
+		return value >= 0 && (bits == 64 || value>>bits == 0)
+	default:
+		return true
+	}
+}
+
 // castToGoType casts an operand, unless it already has the Go type, or is a numeral.
 func castToGoType(scope ast.Scope, operand *ast.Expression, operandStr string, goType string) string {
 	if operandType, _ := operandGoTypes(scope, operand); operandType == "" || operandType == goType {
-- 
2.43.0

