From 45898c9946d189ae8bbda866a89d307df2d28de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:47 +0000
Subject: [PATCH 01/54] fix: Compare*Slice indexes past the shorter slice

The bound check compared len(s1) with an index of s1, so comparing a slice
with one of its proper prefixes panicked instead of ordering it after.
---
 src/collection/util.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..42695bc 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,7 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -470,7 +470,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +504,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +538,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +572,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +606,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +640,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +674,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +708,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +742,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From 2982644d966fb90edf84e7927387bf1e26e20340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:07 +0000
Subject: [PATCH 02/54] fix: CompareSlice panics on nil elements

ComparableSlice.Equal accepts nil elements; Compare dereferenced them.
---
 src/collection/util.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/collection/util.go b/src/collection/util.go
index 42695bc..cb5fac6 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -441,6 +441,17 @@ func CompareSlice(s1, s2 []IComparable) int {
 			return 1
 		}
 
+		// nil elements are allowed, and sort before any other element
+		if IsNil(s1[i]) || IsNil(s2[i]) {
+			if IsNil(s1[i]) && IsNil(s2[i]) {
+				continue
+			} else if IsNil(s1[i]) {
+				return -1
+			} else {
+				return 1
+			}
+		}
+
 		compare := s1[i].Compare(s2[i])
 		if compare != 0 {
 			return compare
-- 
2.43.0


From 9546269cfc819f2e11607815db59547aea32e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:09 +0000
Subject: [PATCH 03/54] fix: Comparable*Slice order disagrees with Equal for
 nil slices

Two wrappers of a nil slice are Equal, yet Compare returned -1 in both
directions because it tested the wrapped slice of the receiver against the
wrapper of the argument. A nil receiver or argument panicked.
---
 src/collection/comparable.go | 59 +++++++++++++++++++-----------------
 src/collection/hashable.go   | 16 +++++-----
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..5bb9084 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -50,7 +50,7 @@ func NewComparableSlice(s []IComparable) *ComparableSlice {
 
 // return XOR of hash of each IComparable object in the slice
 func (s *ComparableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -65,6 +65,11 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 	// convert to ComparableSlice
 	th := t.(*ComparableSlice)
 
+	// same as Compare, a nil slice is different from an empty one
+	if (s.slice == nil) != (th.slice == nil) {
+		return false
+	}
+
 	if len(s.slice) != len(th.slice) {
 		return false
 	}
@@ -86,9 +91,9 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -118,7 +123,7 @@ func NewComparableByteSlice(s []byte) *ComparableByteSlice {
 
 // return if two hashable byte array equals
 func (s *ComparableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -143,9 +148,9 @@ func (s *ComparableByteSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableByteSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -175,7 +180,7 @@ func NewComparableInt8Slice(s []int8) *ComparableInt8Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt8Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -200,9 +205,9 @@ func (s *ComparableInt8Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -232,7 +237,7 @@ func NewComparableInt16Slice(s []int16) *ComparableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -257,9 +262,9 @@ func (s *ComparableInt16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -289,7 +294,7 @@ func NewComparableUint16Slice(s []uint16) *ComparableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -314,9 +319,9 @@ func (s *ComparableUint16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -346,7 +351,7 @@ func NewComparableInt32Slice(s []int32) *ComparableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -371,9 +376,9 @@ func (s *ComparableInt32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -403,7 +408,7 @@ func NewComparableUint32Slice(s []uint32) *ComparableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -428,9 +433,9 @@ func (s *ComparableUint32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -460,7 +465,7 @@ func NewComparableInt64Slice(s []int64) *ComparableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -485,9 +490,9 @@ func (s *ComparableInt64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -518,7 +523,7 @@ func NewComparableUint64Slice(s []uint64) *ComparableUint64Slice {
 // return if two hashable byte array equals
 func (s *ComparableUint64Slice) Equal(t IObject) bool {
 
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -543,9 +548,9 @@ func (s *ComparableUint64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..9afbb56 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -54,7 +54,7 @@ func NewHashableSlice(s []IHashable) *HashableSlice {
 
 // return XOR of hash of each IHashable object in the slice
 func (s *HashableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -127,7 +127,7 @@ func NewHashableByteSlice(s []byte) *HashableByteSlice {
 
 // return if two hashable byte array equals
 func (s *HashableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -174,7 +174,7 @@ func NewHashableInt16Slice(s []int16) *HashableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -223,7 +223,7 @@ func NewHashableUint16Slice(s []uint16) *HashableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -272,7 +272,7 @@ func NewHashableInt32Slice(s []int32) *HashableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -321,7 +321,7 @@ func NewHashableUint32Slice(s []uint32) *HashableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -370,7 +370,7 @@ func NewHashableInt64Slice(s []int64) *HashableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -419,7 +419,7 @@ func NewHashableUint64Slice(s []uint64) *HashableUint64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
-- 
2.43.0


From 78de9d672705c72f88cab74b17d550631510ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 04/54] fix: Hashable*Slice.HashUint32 panics

The integer slices were resliced as bytes beyond their capacity, and the
type check of HashableSlice built a reflect.Type of a nil interface.
---
 src/collection/hashable.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 9afbb56..824129e 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -1,7 +1,6 @@
 package collection
 
 import (
-	"fmt"
 	"reflect"
 	"unsafe"
 )
@@ -102,10 +101,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 		if obj == nil {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
-				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
-			}
-			h ^= obj.(IHashable).HashUint32(f)
+			h ^= obj.HashUint32(f)
 		}
 	}
 
@@ -204,7 +200,7 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -253,7 +249,7 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -302,7 +298,7 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -351,7 +347,7 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -400,7 +396,7 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
 
@@ -449,6 +445,6 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
-- 
2.43.0


From 55e5ee6cdad90bdd9a88df958458c665c8ecbb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 05/54] fix: IsNil panics on arrays

reflect.Value.IsNil is not defined for arrays (an array is never nil), so
any container or comparison handed one panicked; funcs can be nil.
---
 src/collection/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index cb5fac6..1c39340 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -30,7 +30,7 @@ func IsNil(i interface{}) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.Slice:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From 05c39e3d8fd960ac74a0c771d70e328867aa3fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 06/54] fix: Next and Peek of an exhausted map or set iterator
 panic

The underlying iterator returns a nil object at the end; asserting its type
panicked before the nil result meant for this case could be returned.
---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From 58b8770bdf1a4b48bb0a019be6a06752cfa1a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:43 +0000
Subject: [PATCH 07/54] fix: RangeIterator of sorted map and set ignores or
 misplaces its start

The seek skipped nodes larger than start instead of smaller ones, and moved
right without descending to the smallest node of the subtree, so a start
bound dropped elements in range and returned elements out of it.
---
 src/collection/avl.go | 56 ++++++++++---------------------------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..b667a58 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -331,27 +331,25 @@ type AVLIterator struct {
 
 func NewAVLIterator(root *AVLNode, start, end IComparable) *AVLIterator {
 
-	iter := &AVLIterator{initialized: false, paths: []*AVLNode{}}
-	iter.currNode = root
-	iter.currPos = 0
-
-	for iter.currNode != nil && iter.currNode.link[0] != nil {
-		iter.paths = append(iter.paths, iter.currNode)
-		iter.currNode = iter.currNode.link[0]
-		iter.currPos = 0
-	}
-
-	if start == nil && end == nil {
-		return iter
-	}
-
 	if start != nil && end != nil && start.Compare(end) > 0 {
 		panic(fmt.Sprintf("NewAVLIterator - start [%v] is larger than end [%v]", start, end))
 	}
 
+	iter := &AVLIterator{initialized: false, paths: []*AVLNode{}}
 	iter.start = start
 	iter.end = end
 
+	// seek the first node that is no less than start,
+	// while remembering the larger nodes that are yet to be visited
+	for node := root; node != nil; {
+		if start == nil || start.Compare(node.key) <= 0 {
+			iter.paths = append(iter.paths, node)
+			node = node.link[0]
+		} else {
+			node = node.link[1]
+		}
+	}
+
 	return iter
 }
 
@@ -446,36 +444,6 @@ func (i *AVLIterator) advance() {
 		panic(fmt.Sprintf("AVLIterator::advance - unknown currPos %d", i.currPos))
 	}
 
-	if i.start != nil {
-
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
-
-			if i.currNode.link[1] != nil {
-
-				i.currNode = i.currNode.link[1]
-				comp = i.start.Compare(i.currNode.key)
-
-			} else {
-
-				if len(i.paths) == 0 {
-
-					i.currNode = nil
-					return
-
-				} else {
-
-					i.currNode = i.paths[len(i.paths)-1]
-					i.currPos = 0
-					i.paths = i.paths[:len(i.paths)-1]
-					comp = i.start.Compare(i.currNode.key)
-				}
-			}
-		}
-
-		// we are here as i.CurrNode is no less than i.start
-		i.start = nil
-	}
-
 	if i.end != nil {
 
 		for comp := i.currNode.key.Compare(i.end); comp >= 0; {
-- 
2.43.0


From 4efe7d331fd1e71530c5098e42390e7e0a14bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:27 +0000
Subject: [PATCH 08/54] fix: varint decoding confuses the value with a length

DecodeVarint64 and DecodeUvarint64 rejected any value larger than the bytes
that follow it, so they did not read back what they encode, and the signed
arithmetic let lengths of 2^63 and above through to a slice panic in
DecodeVarchar. A length is now compared, unsigned, with what remains of the
buffer, and only where there is one.
---
 src/util/misc_util.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..a4ab093 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -122,7 +118,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if uint64(len(buf)-bufN) < bufLength {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
-- 
2.43.0


From a3feb723eb8ae8f26ac6148e8c1a1e6b4f5a62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 09/54] fix: MappedKey keeps bytes beyond the key and accepts
 truncated keys

Buf() of a key decoded from the head of a larger buffer returned the whole
buffer, which misplaced everything decoded after it, and a key cut short
between two subkeys decoded with empty subkeys in place of the missing ones.
The subkey count is checked before it is allocated.
---
 src/util/key_util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..7d7b4b3 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,8 +227,15 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+	// each subKey takes at least 1 byte
+	if subKeySize > uint64(len(k.buf)-pos) {
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
+		if pos >= len(k.buf) {
+			return 0, fmt.Errorf("MappedKey::Decode - missing subKey [%d]", idx)
+		}
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
@@ -236,6 +243,9 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		pos += length
 	}
 
+	// set buf length to exact length
+	k.buf = k.buf[:pos]
+
 	k.decoded = true
 
 	return pos, nil
-- 
2.43.0


From 50e991f6e60be4d11a9d8e880cef99f115f6b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 10/54] fix: MappedKey.IsDecoded is inverted

---
 src/util/key_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 7d7b4b3..c124a9a 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
-- 
2.43.0


From baaacf8568ab1b198f78eef03fdb1c91118f8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:50 +0000
Subject: [PATCH 11/54] fix: comparing a key with one of its prefixes panics

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index c124a9a..613a9f2 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -306,7 +306,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -512,7 +512,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From f130cf4d8a9ff361deb77cc6f9596e338b1b853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 12/54] fix: copies of keys share their bytes, and panic on
 empty subkeys

Copy and CopyConstruct of keys handed out the subkeys of the original, so a
change to one showed in the other, unlike the copies of values and records.
They also panicked on keys with an empty subkey, which NewStringKey and the
decoder both make.
---
 src/util/key_util.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 613a9f2..a1abaa8 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -252,7 +252,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	// make a deep copy of the buf
+	buf := make([]byte, len(k.buf))
+	copy(buf, k.buf)
+	result, _, err := NewMappedKey(buf)
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
@@ -264,8 +267,9 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 
 	result := NewKey()
 
+	// make a deep copy of each subKey
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.add(append([]byte{}, key...))
 	}
 
 	return result, nil
@@ -451,8 +455,9 @@ func (k *Key) Copy() IEncodable {
 
 	result := NewKey()
 
+	// make a deep copy of each subKey
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.add(append([]byte{}, key...))
 	}
 
 	return result
@@ -462,8 +467,9 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 
 	result := NewKey()
 
+	// make a deep copy of each subKey
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.add(append([]byte{}, key...))
 	}
 
 	return result, nil
@@ -558,6 +564,10 @@ func (k *Key) Add(subKey []byte) *Key {
 		panic(fmt.Sprintf("Key::Add - subKey cannot have 0 length"))
 	}
 
+	return k.add(subKey)
+}
+
+func (k *Key) add(subKey []byte) *Key {
 	k.keys = append(k.keys, subKey)
 	k.estBufSize += 1 + len(subKey)
 	return k
-- 
2.43.0


From 904cd4d0fdc0937040004a8859cc0417a5c39a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 13/54] fix: distinct keys collide under every hash seed

The hash of a key was the XOR of the hashes of its subkeys: a/b and b/a, or
a/a and b/b and the empty key, hash alike whatever the seed, so building a
minimal perfect hash table over such keys never ends.
---
 src/util/key_util.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index a1abaa8..b4fc0d7 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -330,11 +330,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 }
 
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue ^= f(key)
-	}
-	return hashValue
+	return hashSubKeys(k.keys, f)
 }
 
 func (k *MappedKey) Print(w io.Writer, indent int) {
@@ -476,11 +472,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue ^= f(key)
-	}
-	return hashValue
+	return hashSubKeys(k.keys, f)
 }
 
 func (k *Key) Equal(o collection.IObject) bool {
@@ -572,3 +564,27 @@ func (k *Key) add(subKey []byte) *Key {
 	k.estBufSize += 1 + len(subKey)
 	return k
 }
+
+////////////////////////////////////////////////////////////////////////////////
+// utilities
+////////////////////////////////////////////////////////////////////////////////
+
+// hash value depends on each subKey, and on their order:
+// a commutative combination gives distinct keys, such as a/b and b/a,
+// or a/a and b/b, the same hash value under every hash function
+func hashSubKeys(keys [][]byte, f func([]byte) uint32) uint32 {
+
+	switch len(keys) {
+	case 0:
+		return 0
+	case 1:
+		return f(keys[0])
+	}
+
+	buf := []byte{}
+	for _, key := range keys {
+		buf = append(buf, EncodeVarchar(key)...)
+	}
+	// set apart from the single subKey that has the same bytes
+	return f(buf) ^ f([]byte{})
+}
-- 
2.43.0


From a97bab85414de022d28566142420a25d8da3c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 14/54] fix: a nil Primitive has an empty encoding

Primitive(nil) is encoded as a nil value, the same as an empty one: with no
byte at all, the elements after it in an array decoded at the wrong index.
---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From 2d30d76ab6a018e245d6dfc29c4f60c0331c25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:47 +0000
Subject: [PATCH 15/54] fix: a malformed array or list element is an error only
 once

The failed element was cached as a non-nil interface around a nil pointer:
asking for it again succeeded, and using the result, or asking for a later
element, dereferenced it.
---
 src/util/value_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..12502eb 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -280,17 +280,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			value, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.data_array[i] = value
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -317,17 +317,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			record, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.record_list[i] = record
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From 52e6af190241d315cc663a4708fccc81d6b22c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:49 +0000
Subject: [PATCH 16/54] fix: data race between readers of one mapped value

ValueAt and RecordAt decode elements lazily into the value they read, which
made concurrent reads of the same value race with each other.
---
 src/util/value_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 12502eb..db18ddb 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -5,6 +5,7 @@ import (
 	//"time"
 	//"math/big"
 	"encoding/binary"
+	"sync"
 
 	"../collection"
 )
@@ -191,6 +192,7 @@ type StandardMappedValue struct {
 	decoded bool
 	buf     []byte
 	// elements
+	mutex       sync.Mutex // protects the lazily decoded elements of data_array and record_list
 	data_array  []IValue
 	record_list []IRecord
 	size        uint16
@@ -276,6 +278,9 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return nil, fmt.Errorf("StandardMappedValue::ValueAt - idx [%d] bigger than size [%d]", idx, d.size)
 	}
 
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
+
 	if d.data_array[idx] != nil {
 		return d.data_array[idx], nil
 	}
@@ -313,6 +318,9 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return nil, fmt.Errorf("StandardMappedValue::RecordAt - idx [%d] bigger than size [%d]", idx, d.size)
 	}
 
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
+
 	if d.record_list[idx] != nil {
 		return d.record_list[idx], nil
 	}
-- 
2.43.0


From ecade74ba01303fd53aaa7e193b870d89583b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 17/54] fix: records without a key, value or scheme do not
 decode

Decoding dereferenced the nil key, value or scheme of any record that lacks
one; they are now empty, which is how an encoded record represents them. A
record with the key bit set and no key is an error.
---
 src/util/record_util.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..8ecf3b9 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -158,14 +158,20 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 
 	pos := 1
 
+	// elements that are absent are empty
 	var (
-		key    IKey
-		value  IValue
-		scheme IValue
+		key    IKey   = NewEmptyKey()
+		value  IValue = newNilValue()
+		scheme IValue = newNilValue()
 	)
+
 	// key
+	length = 0
 	hasKey := (r.buf[0] >> 6) & 0x01
 	if hasKey != 0 {
+		if len(r.buf) <= pos {
+			return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no key, %d, %x", len(r.buf), r.buf)
+		}
 		key, length, err = NewMappedKey(r.buf[pos:])
 	}
 	if err != nil {
@@ -174,13 +180,14 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
 	} else {
 		r.key = key
-		pos += len(r.key.Buf())
+		pos += length
 	}
 
 	// value
 	if len(r.buf) < pos {
 		return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no value, %d, %x", len(r.buf), r.buf)
 	}
+	length = 0
 	hasValue := (r.buf[0] >> 5) & 0x01
 	if hasValue != 0 {
 		value, length, err = NewStandardMappedValue(r.buf[pos:])
@@ -191,13 +198,14 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
 	} else {
 		r.value = value
-		pos += len(r.value.Buf())
+		pos += length
 	}
 
 	// scheme
 	if len(r.buf) < pos {
 		return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no scheme, %d, %x", len(r.buf), r.buf)
 	}
+	length = 0
 	hasScheme := (r.buf[0] >> 4) & 0x01
 	if hasScheme != 0 {
 		scheme, length, err = NewStandardMappedValue(r.buf[pos:])
@@ -208,7 +216,7 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
 	} else {
 		r.scheme = scheme
-		pos += len(r.scheme.Buf())
+		pos += length
 	}
 
 	// timestamp bit
@@ -249,6 +257,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	return pos, nil
 }
 
+// value of an element that is absent in the encoded record
+func newNilValue() IValue {
+	result := NewPrimitive(nil)
+	result.Encode(nil)
+	return result
+}
+
 ////////////////////////////////////////
 // deep copy
 
-- 
2.43.0


From 8f1375bdfbd0e51135c0d2441f94e8b3437f83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:55 +0000
Subject: [PATCH 18/54] fix: CopyConstruct of a record with a malformed value
 panics

The result of the failed copy was used before its error was checked.
---
 src/util/record_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 8ecf3b9..a067582 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -284,22 +284,22 @@ func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 	var err error
 
 	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
 	if err != nil {
 		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
 	}
+	result.key = key.(IKey)
 
 	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
 	if err != nil {
 		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
 	}
+	result.value = value.(IValue)
 
 	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
 	if err != nil {
 		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
 	}
+	result.scheme = scheme.(IValue)
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
 	result.signature_r, result.signature_s = r.Signature() // signature is immutable
-- 
2.43.0


From 4633332b068e28cc5d67f440ebdf800be8bc94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 19/54] fix: Record encodes values and schemes that it refuses
 to decode

Decoding enforces the maximum key, value and scheme sizes; encoding did not,
and gave out buffers that cannot be read back.
---
 src/util/record_util.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index a067582..3d4e3d4 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -433,6 +433,10 @@ func (r *Record) Encode(IContext) error {
 			return fmt.Errorf("Record::Encode - key error [%v]", err)
 		}
 
+		if len(r.key.Buf()) > MAX_KEY_LENGTH {
+			return fmt.Errorf("Record::Encode - key size %d larger than %d", len(r.key.Buf()), MAX_KEY_LENGTH)
+		}
+
 		buf[0] |= byte(0x01) << 6
 		buf = append(buf, r.key.Buf()...)
 	}
@@ -445,6 +449,10 @@ func (r *Record) Encode(IContext) error {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
 		}
 
+		if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
+		}
+
 		buf[0] |= byte(0x01) << 5
 		buf = append(buf, r.value.Buf()...)
 	}
@@ -457,6 +465,10 @@ func (r *Record) Encode(IContext) error {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
 		}
 
+		if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
+		}
+
 		buf[0] |= byte(0x01) << 4
 		buf = append(buf, r.scheme.Buf()...)
 	}
-- 
2.43.0


From 3316d6ff91be91f3f8ea33e2573f414be6fe598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:21 +0000
Subject: [PATCH 20/54] fix: scheme magic is neither written nor read

Encode never set the domain, tablet and buckets bits, and Decode took every
component for present, so a scheme that lacks one did not round trip.
---
 src/util/scheme_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..21d9184 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -158,7 +158,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +167,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,7 +176,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
@@ -326,7 +326,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -336,7 +336,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -346,7 +346,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From 1367ed6d93cf55d43b613f02216b0fa13dd1f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 21/54] fix: MappedScheme trusts its input

Decoding panicked on an empty buffer and on a bucket count larger than
memory, accepted schemes that are cut short, and kept the bytes beyond the
scheme as part of it.
---
 src/util/scheme_util.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 21d9184..0683f90 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -153,12 +153,19 @@ func (s *MappedScheme) IsDecoded() bool {
 
 func (s *MappedScheme) Decode(IContext) (int, error) {
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - empty buf")
+	}
+
 	pos := 1
 	var length int
 	var err error
 
 	// decode domain
 	if s.buf[0]&(0x01<<7) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing domain")
+		}
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -168,6 +175,9 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 
 	// decode tablet
 	if s.buf[0]&(0x01<<6) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing tablet")
+		}
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -177,13 +187,23 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 
 	// decode buckets
 	if s.buf[0]&(0x01<<5) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing buckets")
+		}
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+		// each bucket takes at least 1 byte
+		if bucketSize > uint64(len(s.buf)-pos) {
+			return 0, fmt.Errorf("MappedScheme::Decode - bucket size [%d] bigger than remaining buf size [%d]", bucketSize, len(s.buf)-pos)
+		}
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
+			if len(s.buf) <= pos {
+				return 0, fmt.Errorf("MappedScheme::Decode - missing bucket [%d]", idx)
+			}
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
 			if err != nil {
 				return 0, fmt.Errorf("MappedScheme::Decode - bucket [%d] error [%v]", idx, err)
@@ -192,6 +212,9 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		}
 	}
 
+	// set buf length to exact length
+	s.buf = s.buf[:pos]
+
 	s.decoded = true
 
 	return pos, nil
-- 
2.43.0


From 8bf875bdc398ba77fcf9229f67b6ab880e81a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:25 +0000
Subject: [PATCH 22/54] fix: copies of schemes share their bytes with the
 original

---
 src/util/scheme_util.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 0683f90..4157ac5 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -227,17 +227,20 @@ func (s *MappedScheme) Copy() IEncodable {
 
 	c := NewScheme()
 
+	// make a deep copy of each component
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for idx, bucket := range s.buckets {
+			c.buckets[idx] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
@@ -407,17 +410,20 @@ func (s *Scheme) Copy() IEncodable {
 
 	c := NewScheme()
 
+	// make a deep copy of each component
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for idx, bucket := range s.buckets {
+			c.buckets[idx] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
-- 
2.43.0


From 28de7f60c8761a7b9994775e672c5e914686e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 23/54] fix: RaftTime encoding overwrites its magic

The three fields were written one byte early, over the magic and each other's
last byte, so an encoded raft time could not be decoded.
---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..e112bff 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From fed6d88ed7f93300aa9e0084efcbec865cde8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 24/54] fix: RaftTime LT and LE are not an order

Each field was tested for less than twice instead of for greater, so a later
term with an earlier millisecond or count compared both less and greater.
---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index e112bff..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From f8a04c130eddcdf2fc3b624c4d6350c597b2e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:44 +0000
Subject: [PATCH 25/54] fix: NewMappedConsensusID panics on an empty buffer

---
 src/util/consensus_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..8ac9bc8 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -280,7 +280,11 @@ type MappedConsensusID struct {
 }
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
-	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
+	if buf == nil || len(buf) == 0 {
+		return nil, fmt.Errorf("NewConsensusID - no magic")
+	}
+
+	if buf[0] == 0x00 {
 		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
 	}
 
-- 
2.43.0


From 6e5228911199d05633b8d1db3b8ad69e8984da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:15 +0000
Subject: [PATCH 26/54] fix: verify seed of a minimal perfect hash table has 4
 bits

2^16 is an exclusive or in Go: the seed was drawn from 18 to 31, which makes
the bloom verification predictable, and overlaps the bucket seeds.
---
 src/util/mph_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..2e345a6 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -276,7 +276,7 @@ func MPHBuild(keys []IKey, verify_by_key bool) *MPHTable {
 		sparseBuckets = make([][]int, len(level0))
 		zeroSeed      = collection.MurmurSeed(0)
 		keyArray      = make([]IKey, len(keys))
-		verifySeed    = uint32(RandUint64Range(2^16, 2^32-1))
+		verifySeed    = uint32(RandUint64Range(1<<16, 1<<32-1))
 	)
 	for i, s := range keys {
 		keyArray[i] = s
-- 
2.43.0


From c2c104369b0eb0fa6ca9662ee79828b936360357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 27/54] fix: lookup in an empty or malformed minimal perfect
 hash table panics

NewMPHTable took the masks and the number of keys on trust, and neither it
nor Lookup checked that a slot refers to a key of the table: looking up any
key in a table of no keys, or in a corrupt one, was out of range.
---
 src/util/mph_util.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index 2e345a6..868a004 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -92,6 +92,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	}
 	t.level0Mask = int(binary.BigEndian.Uint32(buf[pos:]))
 	pos += 4
+	if t.level0Mask != len(t.level0)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 0 mask %d does not match length %d", t.level0Mask, level0_len)
+	}
 
 	////////////////////////////////////////
 	// level 1 size
@@ -117,6 +120,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	}
 	t.level1Mask = int(binary.BigEndian.Uint32(buf[pos:]))
 	pos += 4
+	if t.level1Mask != len(t.level1)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 1 mask %d does not match length %d", t.level1Mask, level1_len)
+	}
 
 	////////////////////////////////////////
 	// verify key, or verify hash
@@ -132,11 +138,20 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		// each verify key takes at least 1 byte
+		if int(verifyKeySize) > len(buf)-pos {
+			return nil, pos, fmt.Errorf("NewMPHTable - verify key size %d bigger than remaining buf size %d", verifyKeySize, len(buf)-pos)
+		}
+
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
 		for i := 0; i < int(verifyKeySize); i++ {
 
+			if len(buf) <= pos {
+				return nil, pos, fmt.Errorf("NewMPHTable - missing verify key [%d] %d", i, len(buf))
+			}
+
 			// verify key length
 			verifyKey, verifyKeyN, err := NewMappedKey(buf[pos:])
 			if err != nil {
@@ -357,6 +372,10 @@ func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	seed := t.level0[i0]
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
 	n = t.level1[i1]
+	// no such key - slot is not used, or table is empty
+	if int(n) >= len(t.verifyKey) && int(n) >= len(t.verifyHash) {
+		return n, false
+	}
 	if t.verifyKey != nil {
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
-- 
2.43.0


From b5da5940c5ab8afb0e998171d90128654560c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:19 +0000
Subject: [PATCH 28/54] fix: adding to an encoded key keeps its previous
 encoding

Unlike the updaters of values and records, Key.Add left the key marked as
encoded, so Buf() returned the key as it was before the new subkey.
---
 src/util/key_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b4fc0d7..324295b 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -562,6 +562,7 @@ func (k *Key) Add(subKey []byte) *Key {
 func (k *Key) add(subKey []byte) *Key {
 	k.keys = append(k.keys, subKey)
 	k.estBufSize += 1 + len(subKey)
+	k.encoded = false
 	return k
 }
 
-- 
2.43.0


From 8ef634227b19c48cf68597796dbee1cfa06df6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 29/54] fix: signed random ranges return values below min

The remainder of a negative number is negative, and max-min overflows for
ranges wider than half the type.
---
 src/util/rand_util.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..fd7dd10 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -154,8 +154,9 @@ func RandUint64() uint64 {
 }
 
 func RandInt8Range(min, max int8) int8 {
-	data := RandInt8()
-	result := data%(max-min) + min
+	data := RandUint8()
+	// unsigned, as max-min may overflow, and the remainder of a negative is negative
+	result := int8(data%uint8(max-min)) + min
 	return result
 }
 
@@ -166,8 +167,9 @@ func RandUint8Range(min, max uint8) uint8 {
 }
 
 func RandInt16Range(min, max int16) int16 {
-	data := RandInt16()
-	result := data%(max-min) + min
+	data := RandUint16()
+	// unsigned, as max-min may overflow, and the remainder of a negative is negative
+	result := int16(data%uint16(max-min)) + min
 	return result
 }
 
@@ -178,8 +180,9 @@ func RandUint16Range(min, max uint16) uint16 {
 }
 
 func RandInt32Range(min, max int32) int32 {
-	data := RandInt32()
-	result := data%(max-min) + min
+	data := RandUint32()
+	// unsigned, as max-min may overflow, and the remainder of a negative is negative
+	result := int32(data%uint32(max-min)) + min
 	return result
 }
 
@@ -190,8 +193,9 @@ func RandUint32Range(min, max uint32) uint32 {
 }
 
 func RandInt64Range(min, max int64) int64 {
-	data := RandInt64()
-	result := data%(max-min) + min
+	data := RandUint64()
+	// unsigned, as max-min may overflow, and the remainder of a negative is negative
+	result := int64(data%uint64(max-min)) + min
 	return result
 }
 
-- 
2.43.0


From 3efc7c24bf08522b17337c59c0b82bcbf4be7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 30/54] fix: loading a truncated key file panics

A key file with less than the CRC, or a private key file with less than the
nonce before a valid CRC, was sliced out of range.
---
 src/util/lc_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..72b1f80 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -233,6 +233,10 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] content too short, missing CRC", filepath)
+	}
+
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
 	binary.BigEndian.PutUint32(compute_crc, crc32.ChecksumIEEE(data))
@@ -271,6 +275,10 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 		return nil, err
 	}
 
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] content too short, missing nonce", filepath)
+	}
+
 	key := []byte(secret)
 	nonce := data[:12]
 	ciphertext := data[12:]
-- 
2.43.0


From c4cc9f7c4ebf6b63564f8a7391aac1a37f7bb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:33 +0000
Subject: [PATCH 31/54] fix: saving a key where its directory cannot be made
 panics

---
 src/util/lc_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 72b1f80..326390d 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -308,7 +308,10 @@ func lc_mkdir_if_not_exist(path string) error {
 	}
 
 	// check again for the path
-	stat_info, _ := os.Stat(path)
+	stat_info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
 	if !stat_info.Mode().IsDir() {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
-- 
2.43.0


From ad719773be1f567f736abd8dd331964b3901876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:35 +0000
Subject: [PATCH 32/54] fix: public key file that is not a curve point loads as
 a key

Half of all X have no Y: the key was returned with a nil Y and no error, and
verifying a signature with it panicked.
---
 src/util/lc_util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 326390d..7861ef6 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -263,7 +263,12 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 		return nil, err
 	}
 
-	return ECDSAGetPublicKey(data), nil
+	pub_key := ECDSAGetPublicKey(data)
+	if pub_key.Y == nil || !pub_key.Curve.IsOnCurve(pub_key.X, pub_key.Y) {
+		return nil, fmt.Errorf("[%s] content is not a public key", filepath)
+	}
+
+	return pub_key, nil
 }
 
 // priv key are always encrypted
-- 
2.43.0


From 55202a2ecc281650b8f098c0b22221f39c812b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 33/54] fix: prompted passphrases are not padded to a cipher
 key

LCLoadPrivKeyPrompt and LCSaveKeyPairPrompt used the passphrase itself as AES
key, which fails unless it happens to have 16, 24 or 32 bytes, and did not
open keys that pkeygen makes with the same passphrase.
---
 src/util/lc_util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 7861ef6..06e12e8 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -138,7 +138,7 @@ func LCLoadPrivKeyPrompt(cls int, id string) (*ecdsa.PrivateKey, error) {
 	}
 
 	// do not keep private key in fixed memory variables
-	return lc_load_priv_key(cls, id, secret)
+	return lc_load_priv_key(cls, id, lc_pad_secret(secret))
 }
 
 // ECDSA pub / priv keys for node
@@ -153,12 +153,19 @@ func LCSaveKeyPairPrompt(cls int, id string, pub_key, priv_key *big.Int) error {
 		return err
 	}
 
-	return lc_save_key_pair(cls, id, pub_key, priv_key, node_secret)
+	return lc_save_key_pair(cls, id, pub_key, priv_key, lc_pad_secret(node_secret))
 }
 
 ////////////////////////////////////////////////////////////////////////////////
 // Private Functions
 
+// passphrase as AES key, same as pkeygen
+func lc_pad_secret(secret []byte) []byte {
+	padded_secret := make([]byte, aes.BlockSize)
+	copy(padded_secret, secret)
+	return padded_secret
+}
+
 func lc_get_etc_dir(cls int) string {
 	switch cls {
 	case CLS_NODE:
-- 
2.43.0


From c7991fa3f796dc6aa6c550b2fef3c5611073ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 34/54] fix: setting the logger file a second time logs to a
 nil file

---
 src/util/lc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 06e12e8..1b8d62c 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -86,7 +86,7 @@ func LCSetLoggerFileTmp() error {
 		}
 		log_file = file
 	}
-	log.SetOutput(file)
+	log.SetOutput(log_file)
 	log.SetFlags(log.Lshortfile | log.Ldate | log.Ltime | log.Lmicroseconds)
 	return nil
 }
-- 
2.43.0


From 983b248307a497474535272180b3463d0904baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:41 +0000
Subject: [PATCH 35/54] fix: half of the generated keys fail to verify their
 own signatures

A public key is stored as X alone, and loading it picks one of the two Y that
share the X: signatures of a key pair that has the other Y did not verify.
---
 src/util/ecdsa_util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index fa21d10..7a02e59 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -43,9 +43,16 @@ func ECDSAGenerateKey() *ecdsa.PrivateKey {
 	if err != nil {
 		fmt.Println(err)
 		return nil
-	} else {
-		return priv_key
 	}
+
+	// public keys are kept and exchanged as X only, while X is shared by 2 points
+	// on the curve: keep the private key of the point that X is read back as
+	if priv_key.Y.Cmp(ECDSACalculateY(curve, priv_key.X)) != 0 {
+		d := new(big.Int).Sub(curve.Params().N, priv_key.D)
+		return ECDSAGetPrivateKey(d.Bytes())
+	}
+
+	return priv_key
 }
 
 func ECDSASign(priv_key *ecdsa.PrivateKey, hash []byte) (r, s *big.Int, err error) {
-- 
2.43.0


From 97e894825f81dfae7528337d85adb1f07f1b72a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 36/54] fix: pkeygen cannot overwrite an alias whose key was
 removed

The alias is a symlink: following it made a dangling one look absent, and
the new symlink failed after the key was already generated.
---
 src/main/pkeygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 1a96606..f906598 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -12,7 +12,7 @@ import (
 )
 
 func check_path_exist(filepath string) bool {
-    _, stat_err := os.Stat(filepath)
+    _, stat_err := os.Lstat(filepath)
     if os.IsNotExist(stat_err) {
         return false
     } else {
-- 
2.43.0


From 13b590292269e73e7a47e82833108227ede9f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 37/54] fix: magic of a SimpleMappedValue without content
 panics

---
 src/util/value_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index db18ddb..22b8bbb 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -122,6 +122,10 @@ func (d *SimpleMappedValue) Value() []byte {
 // encoding, decoding, and buf
 
 func (d *SimpleMappedValue) ValueMagic() byte {
+	// nil value may have no buf
+	if len(d.buf) == 0 {
+		return 0x00
+	}
 	return d.buf[0]
 }
 
-- 
2.43.0


From d0308a952b489ce08070a26c356ef04159967ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:17 +0000
Subject: [PATCH 38/54] fix: looking up a missing child of a trie node panics

---
 src/util/trie_util.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 29af67d..d38217d 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -369,7 +369,12 @@ func (tn *MappedTrieNode) GetChild(nodeKey []byte) ITrieNode {
 		return nil
 	}
 
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child, ok := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	if !ok {
+		return nil // not found
+	}
+
+	return child
 }
 
 func (tn *MappedTrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
@@ -837,7 +842,12 @@ func (tn *TrieNode) ChildSize() int {
 }
 
 func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child, ok := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	if !ok {
+		return nil // not found
+	}
+
+	return child
 }
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
-- 
2.43.0


From 69e5460b4c4a77fb622dfcf72990d3b6778504f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 39/54] fix: full key of a trie node panics on the root node

---
 src/util/trie_util.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index d38217d..646ca74 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -307,8 +307,9 @@ func (tn *MappedTrieNode) FullKey() IKey {
 	}
 
 	subKeys := []([]byte){}
-	for currNode := tn; currNode != nil; currNode = currNode.parent.(*MappedTrieNode) {
-		subKeys = append([]([]byte){currNode.nodeKey}, subKeys...)
+	// the root node has no parent, and no node key
+	for currNode := ITrieNode(tn); currNode.Parent() != nil; currNode = currNode.Parent() {
+		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
 	fullKey := NewKey()
@@ -813,7 +814,8 @@ func (tn *TrieNode) FullKey() IKey {
 
 	subKeys := []([]byte){}
 	var currNode ITrieNode
-	for currNode = tn; currNode != nil; currNode = currNode.Parent() {
+	// the root node has no parent, and no node key
+	for currNode = tn; currNode.Parent() != nil; currNode = currNode.Parent() {
 		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
-- 
2.43.0


From af97f68b5724a27ea376af79fd975cea517fb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 40/54] fix: trie key iterator ends before its first element

---
 src/util/trie_util.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 646ca74..8d762b2 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -145,13 +145,14 @@ func (t *MappedTrie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if currNode == nil {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -632,13 +633,14 @@ func (t *Trie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if currNode == nil {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -1016,8 +1018,9 @@ func NewTrieKeyIterator(root, curr ITrieNode) *TrieKeyIterator {
 	if collection.IsNil(curr) {
 		result.currNode = root
 	} else {
+		child := root
 		for _, subKey := range curr.FullKey().Key() {
-			child := root.GetChild(subKey)
+			child = child.GetChild(subKey)
 			if collection.IsNil(child) {
 				panic(fmt.Sprintf("NewTrieIterator - curr node [%s] is not a child of root [%s]",
 					root.FullKey().ToString(),
@@ -1076,7 +1079,7 @@ func (i *TrieKeyIterator) HasNext() bool {
 
 	i.advance()
 
-	return collection.IsNil(i.currNode) && (collection.IsNil(i.paths) || len(i.paths) == 0)
+	return !collection.IsNil(i.currNode) || len(i.paths) != 0
 }
 
 func (i *TrieKeyIterator) Peek() (IKey, IValue) {
-- 
2.43.0


From f6f59d398ebbeb6ac47440fd5aebcab83ae28b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:19 +0000
Subject: [PATCH 41/54] fix: removing a trie value drops the keys below it

---
 src/util/trie_util.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 8d762b2..324bd20 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -611,11 +611,9 @@ func (t *Trie) Set(k IKey, d IValue) IValue {
 	resultValue := currNode.Value()
 	currNode.SetValue(d)
 	t.estBufSize += estimateValueBufSize(d) - estimateValueBufSize(resultValue)
-	// if d is nil, clean up unused nodes
+	// if d is nil, clean up unused nodes, the root node is never removed
 	if d == nil {
-		currNode.Parent().RemoveChild(currNode.NodeKey())
-		t.estBufSize -= currNode.EstBufSize()
-		for currNode = currNode.Parent(); currNode.ChildSize() == 0 && currNode.Value() == nil; {
+		for currNode.Parent() != nil && currNode.ChildSize() == 0 && currNode.Value() == nil {
 			currNode.Parent().RemoveChild(currNode.NodeKey())
 			t.estBufSize -= currNode.EstBufSize()
 			currNode = currNode.Parent()
-- 
2.43.0


From 742d0d73719cbc69818fe45ef8cb596ee9675bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 42/54] fix: trie range iterator loops forever, panics, or
 skips and repeats keys

---
 src/util/trie_util.go | 351 ++++++++----------------------------------
 1 file changed, 66 insertions(+), 285 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 324bd20..1f1839d 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1134,25 +1134,16 @@ func (i *TrieKeyIterator) advance() {
 ////////////////////////////////////////////////////////////////////////////////
 
 type TrieRangeIterator struct {
-	rootNode         ITrieNode
-	isRoot           bool
-	startNodes       []ITrieNode
-	startChild       []byte
-	endNodes         []ITrieNode
-	endChild         []byte
-	paths            []collection.ISortedMapIterator
-	startInitialized bool
-	endMatches       []bool
+	rootNode ITrieNode
+	isRoot   bool // whether root node is yet to be iterated
+	end      IKey
+	paths    []collection.ISortedMapIterator
 }
 
 func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 
 	result := &TrieRangeIterator{
-		startNodes:       make([]ITrieNode, 0),
-		endNodes:         make([]ITrieNode, 0),
-		paths:            make([]collection.ISortedMapIterator, 0),
-		startInitialized: false,
-		endMatches:       make([]bool, 0),
+		paths: make([]collection.ISortedMapIterator, 0),
 	}
 
 	// check root validaty
@@ -1162,7 +1153,6 @@ func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 		panic("NewTrieRangeIterator - root key is not empty")
 	} else {
 		result.rootNode = root
-		result.isRoot = true
 	}
 
 	if !collection.IsNil(start) && !collection.IsNil(end) && start.Compare(end) > 0 {
@@ -1171,311 +1161,102 @@ func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 			end.ToString()))
 	}
 
-	// process start key
-	if collection.IsNil(start) {
-		result.startChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range start.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				// result.paths = append(result.paths,
-				//    currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil))
-				result.startNodes = append(result.startNodes, child)
-				currNode = child
-			} else {
-				result.startChild = subKey
-				break
-			}
-		}
-	}
-
 	// process end key
-	if collection.IsNil(end) {
-		result.endChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range end.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				result.endNodes = append(result.endNodes, child)
-				//if len(result.paths) < len(result.endNodes) {
-				result.endMatches = append(result.endMatches, false)
-				//} else if len(result.endMatches) != 0 && !result.endMatches[len(result.endMatches)-1] {
-				//	result.endMatches = append(result.endMatches, false)
-				//} else {
-				//	_, node := result.paths[len(result.endNodes)-1].Peek()
-				//	if collection.IsNil(node) ||
-				//		collection.CompareByteSlice(node.(ITrieNode).NodeKey(), child.NodeKey()) == 0 {
-				//		result.endMatches = append(result.endMatches, true)
-				//	} else {
-				//		result.endMatches = append(result.endMatches, false)
-				//	}
-				//}
-				currNode = child
-			} else {
-				result.endChild = subKey
-				break
-			}
-		}
+	if !collection.IsNil(end) {
+		result.end = end
 	}
 
-	return result
-}
-
-func (i *TrieRangeIterator) Next() (IKey, IValue) {
-
-	i.checkStart() // this method returns with last iterator after proper start key
-	i.checkEnd()   // this method by pass any unnessary last iterators if they passed end key
-
-	// if currNode has not been iterated
-	if i.isRoot {
+	// process start key
+	if collection.IsNil(start) || start.IsEmpty() {
+		result.isRoot = true
+		return result
+	}
 
-		if len(i.paths) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
+	currNode := root
+	for _, subKey := range start.Key() {
+		if currNode.ChildSize() == 0 {
+			break
 		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
-
-		returnNode := i.rootNode
-		if returnNode.ChildSize() != 0 {
 
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().Iterator()
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
+		// iterate the children that are no less than start key
+		iter := currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil)
+		result.paths = append(result.paths, iter)
 
+		currNode = currNode.GetChild(subKey)
+		if currNode == nil {
+			break
 		}
-
-		i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
-		return returnNode.FullKey(), returnNode.Value()
+		iter.Next() // bypass this node, it is a prefix of start key
 	}
 
-	// we are here if root node has been iterated
-	// check iterator paths
-	for i.paths != nil && len(i.paths) != 0 {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if lastIter.HasNext() {
-
-			_, data := lastIter.Next()
-
-			returnNode := data.(ITrieNode)
-			if returnNode.ChildSize() != 0 {
-
-				iter := returnNode.Children().Iterator() // it is not possible to be here and have child iterator with start key
-				i.paths = append(i.paths, iter)
-			}
-
-			i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
-			return returnNode.FullKey(), returnNode.Value()
-		}
+	// the last node is not bypassed if it matches start key
+	if currNode != nil && currNode.FullKey().Equal(start) {
+		subKeys := start.Key()
+		result.paths[len(result.paths)-1] = currNode.Parent().Children().RangeIterator(
+			collection.NewComparableByteSlice(subKeys[len(subKeys)-1]),
+			nil)
 	}
 
-	return nil, nil
-}
-
-func (i *TrieRangeIterator) HasNext() bool {
-
-	i.checkStart()
-	i.checkEnd()
-
-	return i.isRoot || len(i.paths) != 0
+	return result
 }
 
-func (i *TrieRangeIterator) Peek() (IKey, IValue) {
+func (i *TrieRangeIterator) Next() (IKey, IValue) {
 
-	i.checkStart() // this method returns with last iterator after proper start key
-	i.checkEnd()   // this method by pass any unnessary last iterators if they passed end key
+	returnNode := i.peekNode()
+	if returnNode == nil {
+		return nil, nil
+	}
 
-	// if currNode has not been iterated
+	// move forward
 	if i.isRoot {
-
-		if len(i.paths) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
-		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
-
-		returnNode := i.rootNode
-		return returnNode.FullKey(), returnNode.Value()
+		i.isRoot = false
+	} else {
+		i.paths[len(i.paths)-1].Next()
 	}
 
-	// we are here if root node has been iterated
-	// check iterator paths
-	for i.paths != nil && len(i.paths) != 0 {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if lastIter.HasNext() {
-
-			_, data := lastIter.Peek()
-
-			returnNode := data.(ITrieNode)
-			return returnNode.FullKey(), returnNode.Value()
-		}
+	// children are next
+	if returnNode.ChildSize() != 0 {
+		i.paths = append(i.paths, returnNode.Children().Iterator())
 	}
 
-	return nil, nil
+	return returnNode.FullKey(), returnNode.Value()
 }
 
-func (i *TrieRangeIterator) checkStart() {
-
-	if i.startInitialized {
-		return
-	}
-
-	if len(i.startNodes) == 0 {
-
-		if collection.IsNil(i.startChild) {
-			i.startInitialized = true
-			return
-		}
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startChild), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
+func (i *TrieRangeIterator) HasNext() bool {
+	return i.peekNode() != nil
+}
 
-	} else {
+func (i *TrieRangeIterator) Peek() (IKey, IValue) {
 
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startNodes[0].NodeKey()), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
+	returnNode := i.peekNode()
+	if returnNode == nil {
+		return nil, nil
 	}
 
-	i.startInitialized = true
-	for len(i.paths) != 0 && len(i.startNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		_, node := lastIter.Peek()
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.startNodes[len(i.paths)-1].NodeKey())
-		if comp < 0 {
-
-			panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected node [%v], less than but not matching start key [%v]",
-				node.(ITrieNode).FullKey().ToString(),
-				i.startNodes[len(i.paths)-1].FullKey().ToString()))
-
-		} else if comp == 0 {
-
-			if len(i.startNodes) < len(i.paths) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected paths len [%d], greater than start nodes [%d]",
-					len(i.paths),
-					len(i.startNodes)))
-
-			} else if len(i.startNodes) == len(i.paths) {
-
-				if collection.IsNil(i.startChild) {
-					return // iterate this node, as it matches start key, and there are no child key
-				} else {
-					_, node = lastIter.Next() // bypass this node, as it matches start key, and child key exist
-					childIter := node.(ITrieNode).Children().RangeIterator(
-						collection.NewComparableByteSlice(i.startChild),
-						nil)
-					i.paths = append(i.paths, childIter)
-					return
-				}
-
-			} else {
-
-				_, node = lastIter.Next() // bypass this node, as it matches start key, and child node(s) exist
-				childIter := node.(ITrieNode).Children().RangeIterator(
-					collection.NewComparableByteSlice(i.startNodes[len(i.paths)-1].NodeKey()),
-					nil)
-				i.paths = append(i.paths, childIter)
-				// continue loop
-
-			}
-
-		} else { // comp > 0
-
-			return
-
-		}
-	}
+	return returnNode.FullKey(), returnNode.Value()
 }
 
-func (i *TrieRangeIterator) checkEnd() {
+// return next node to iterate, or nil if there are no more nodes before end key
+func (i *TrieRangeIterator) peekNode() ITrieNode {
 
-	if len(i.endNodes) != len(i.endMatches) {
-		panic(fmt.Sprintf("TrieRangeIterator::checkEnd - endNodes len [%d] does not match endMatches [%d]",
-			len(i.endNodes),
-			len(i.endMatches)))
-	}
-
-	if len(i.endNodes) == 0 {
-		return
-	}
+	var node ITrieNode
 
 	if i.isRoot {
-		//panic("TrieRangeIterator::checkEnd - isRoot set!")
-		return
-	}
-
-	for len(i.paths) != 0 && len(i.endNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if !lastIter.HasNext() {
+		node = i.rootNode
+	} else {
+		for len(i.paths) != 0 && !i.paths[len(i.paths)-1].HasNext() {
 			i.paths = i.paths[:len(i.paths)-1] // destack if no more element left
-			continue                           // continue to next loop
 		}
-
-		if len(i.paths) != 1 && !i.endMatches[len(i.paths)-2] {
-			return // iterate this node, as some of previous end node(s) does not match
-		}
-
-		// we are here if all previous end node(s) match(es)
-		_, node := i.paths[len(i.paths)-1].Peek()
-		if collection.IsNil(node) {
-			panic("TrieRangeIterator::checkEnd - unexpected nil node from iterator")
-		}
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.endNodes[len(i.paths)-1].NodeKey())
-		if comp > 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			i.paths = i.paths[:len(i.paths)-1]
-			continue // next loop
-
-		} else if comp == 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			if len(i.paths) > len(i.endNodes) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkEnd - unexpected paths len [%d], greater than end nodes [%d]",
-					len(i.paths),
-					len(i.endNodes)))
-
-			} else if len(i.paths) == len(i.endNodes) {
-
-				if collection.IsNil(i.endChild) {
-
-					i.paths = i.paths[:len(i.paths)-1] // bypass this node, this node matches full end key, (no child)
-					continue                           // next loop
-
-				} else {
-
-					return // iterate this node, this node does not match full end key, child exist
-				}
-
-			} else { // len(i.paths) < len(i.endNodes)
-
-				return // iterate this node, this node does not match ffull end key, child exist
-			}
-
-		} else { // comp < 0
-
-			i.endMatches[len(i.paths)-1] = false // iterate this node, as more element exists
-			return                               // just return
+		if len(i.paths) == 0 {
+			return nil
 		}
+		_, data := i.paths[len(i.paths)-1].Peek()
+		node = data.(ITrieNode)
+	}
 
+	if i.end != nil && node.FullKey().Compare(i.end) >= 0 {
+		return nil
 	}
+
+	return node
 }
-- 
2.43.0


From 12daa29a2e06444318e609f6f3abf4b276559279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:25 +0000
Subject: [PATCH 43/54] fix: encoded trie cannot be decoded, and encoding does
 not terminate

---
 src/util/trie_util.go | 113 ++++++++++++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 33 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 1f1839d..0dda5ba 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -191,34 +191,45 @@ func (t *MappedTrie) IsDecoded() bool {
 func (t *MappedTrie) Decode(IContext) (int, error) {
 
 	// initial setup
-	t.known_nodes = map[uint32]ITrieNode{}                                                   // clear known knows
-	t.root = &MappedTrieNode{parent: nil, buf: t.buf, offset: 0, known_nodes: t.known_nodes} // start with root node
-	t.known_nodes[0] = t.root                                                                // add myself
+	t.known_nodes = map[uint32]ITrieNode{} // clear known knows
+	root := &MappedTrieNode{parent: nil, buf: t.buf, offset: 0, children: collection.NewSortedMap(), known_nodes: t.known_nodes}
+	t.root = root           // start with root node
+	t.known_nodes[0] = root // add myself
 
-	pos, err := t.root.Decode(nil)
+	pos, err := root.Decode(nil)
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrie::Decode - %s", err)
+	} else if root.dummy {
+		return 0, fmt.Errorf("MappedTrie::Decode - missing root node")
 	}
 
-	currNode := (t.root).(*MappedTrieNode)
+	currNode := root
 	for {
-		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos), known_nodes: t.known_nodes}
+		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos), children: collection.NewSortedMap(), known_nodes: t.known_nodes}
 		length, err := node.Decode(nil)
 		if err != nil {
 			return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] %s", pos, err)
 		}
 		pos += length
 		if node.dummy {
-			if currNode == t.root {
+			if currNode.childSize != currNode.children.Size() {
+				return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] unexpected child size [%d], expect [%d]",
+					pos, currNode.children.Size(), currNode.childSize)
+			}
+			if currNode == root {
 				break // we have completed processing
 			} else {
 				currNode = currNode.parent.(*MappedTrieNode) // go back to the parent
 			}
-		} else {
+		} else if node.parent != ITrieNode(currNode) {
+			return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] unexpected parent", pos)
+		} else if node.childSize != 0 {
 			currNode = node // traverse down to child node
 		}
 	}
 
+	t.buf = t.buf[:pos]
+
 	// TODO - use size for validation
 
 	t.decoded = true
@@ -292,7 +303,7 @@ func NewMappedTrieNode(parent ITrieNode, buf []byte, offset uint32, known_nodes
 
 	length, err := result.Decode(nil)
 	if err != nil {
-		fmt.Errorf("NewMappedTrieNode - %s", err)
+		return nil, length, fmt.Errorf("NewMappedTrieNode - %s", err)
 	}
 
 	return result, length, nil
@@ -427,6 +438,10 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 
 	pos := 0
 
+	if len(tn.buf) == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - empty buf")
+	}
+
 	// check if this is a dummy Trie Node
 	isDummy, isDummyN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
@@ -434,6 +449,7 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	}
 	if isDummy == 0 {
 		tn.dummy = true
+		tn.buf = tn.buf[:isDummyN]
 		tn.decoded = true
 		return isDummyN, nil
 	}
@@ -443,8 +459,8 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	nodeKey, nodeKeyN, err := DecodeVarchar(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - nodeKey - %s", err)
-	} else if nodeKey == nil || len(nodeKey) == 0 {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - empty nodeKey")
+	} else if isRoot := tn.known_nodes[tn.offset] == ITrieNode(tn); isRoot != (len(nodeKey) == 0) {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - unexpected nodeKey [%x]", nodeKey) // only root has empty nodeKey
 	}
 	tn.nodeKey = nodeKey
 	pos += nodeKeyN
@@ -454,24 +470,33 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - parent offset - %s", err)
 	}
-	parent := tn.known_nodes[uint32(parentOffset)]
-	if parent == nil {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - parent node not found [%d]", parentOffset)
-	} else {
+	pos += parentN
+	var parent *MappedTrieNode
+	if len(nodeKey) != 0 {
+		if parentOffset < uint64(tn.offset) {
+			parent, _ = tn.known_nodes[uint32(parentOffset)].(*MappedTrieNode)
+		}
+		if parent == nil {
+			return 0, fmt.Errorf("MappedTrieNode::Decode - parent node not found [%d]", parentOffset)
+		}
 		tn.parent = parent
-		pos += parentN
 	}
 
 	// data
-	nodeValue, nodeValueN, err := NewSimpleMappedValue(tn.buf[pos:])
+	nodeValue, nodeValueN, err := NewStandardMappedValue(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - data - %s", err)
 	}
-	tn.nodeValue = nodeValue
+	if !nodeValue.IsNil() {
+		tn.nodeValue = nodeValue
+	}
 	pos += nodeValueN
 
 	// child size
-	childSize, childSizeN, err := DecodeUvarint64(tn.buf)
+	if pos == len(tn.buf) {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - missing child size")
+	}
+	childSize, childSizeN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - child size - %s", err)
 	}
@@ -479,8 +504,12 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	pos += childSizeN
 
 	// we are here if parsing has completed successfully
-	parent.(*MappedTrieNode).children.Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
-	tn.known_nodes[tn.offset] = tn                                                        // update known nodes
+	tn.buf = tn.buf[:pos]
+	tn.decoded = true
+	if parent != nil {
+		parent.children.Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
+	}
+	tn.known_nodes[tn.offset] = tn // update known nodes
 
 	return pos, nil
 }
@@ -584,6 +613,9 @@ func (t *Trie) Get(k IKey) IValue {
 
 func (t *Trie) Set(k IKey, d IValue) IValue {
 
+	t.encoded = false
+	t.buf = nil
+
 	// set root data is key is nil
 	if k.IsEmpty() {
 		resultValue := t.root.Value()
@@ -677,7 +709,9 @@ func (t *Trie) Encode(ctx IContext) error {
 
 	// encode root node
 	t.root.SetOffset(uint32(pos))
-	t.root.Encode(ctx)
+	if err := t.root.Encode(ctx); err != nil {
+		return fmt.Errorf("Trie::Encode - %s", err)
+	}
 	if len(buf) > pos+len(t.root.Buf()) {
 		copy(buf[pos:], t.root.Buf())
 	} else {
@@ -687,14 +721,17 @@ func (t *Trie) Encode(ctx IContext) error {
 
 	// encode children
 	iterList := []collection.ISortedMapIterator{t.root.Children().Iterator()}
-	for lastIter := iterList[len(iterList)-1]; len(iterList) != 0; {
+	for len(iterList) != 0 {
+		lastIter := iterList[len(iterList)-1]
 		if lastIter.HasNext() {
 
 			// get next node, and encode
 			_, data := lastIter.Next()
 			node := data.(*TrieNode)
 			node.SetOffset(uint32(pos))
-			node.Encode(ctx)
+			if err := node.Encode(ctx); err != nil {
+				return fmt.Errorf("Trie::Encode - %s", err)
+			}
 
 			// encode node
 			if len(buf) > pos+len(node.Buf()) {
@@ -707,7 +744,6 @@ func (t *Trie) Encode(ctx IContext) error {
 			// check if children exist
 			if node.ChildSize() != 0 {
 				iterList = append(iterList, node.Children().Iterator())
-				lastIter = iterList[len(iterList)-1]
 			}
 
 		} else {
@@ -726,7 +762,8 @@ func (t *Trie) Encode(ctx IContext) error {
 	}
 
 	// we are here if encoding has completed successfully
-	t.buf = buf
+	t.buf = buf[:pos]
+	t.encoded = true
 	return nil
 }
 
@@ -883,7 +920,7 @@ func (tn *TrieNode) Buf() []byte {
 }
 
 func (tn *TrieNode) EstBufSize() int {
-	return 4 + 1 + len(tn.nodeKey) + estimateValueBufSize(tn.data)
+	return 1 + 4 + 1 + len(tn.nodeKey) + estimateValueBufSize(tn.data)
 }
 
 func (tn *TrieNode) IsEncoded() bool {
@@ -895,11 +932,19 @@ func (tn *TrieNode) Encode(IContext) error {
 	// node key
 	nodeKeyBuf := EncodeVarchar(tn.nodeKey)
 
-	// parent offset
-	parentOffsetBuf := EncodeUvarint64(uint64(tn.parent.Offset()))
+	// parent offset - root has no parent
+	parentOffset := uint32(0)
+	if tn.parent != nil {
+		parentOffset = tn.parent.Offset()
+	}
+	parentOffsetBuf := EncodeUvarint64(uint64(parentOffset))
 
 	// data
-	err := tn.data.Encode(false)
+	data := tn.data
+	if collection.IsNil(data) {
+		data = NewPrimitive(nil)
+	}
+	err := data.Encode(false)
 	if err != nil {
 		return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
 	}
@@ -907,15 +952,17 @@ func (tn *TrieNode) Encode(IContext) error {
 	// child size
 	childSizeBuf := EncodeUvarint64(uint64(tn.children.Size()))
 
-	tn.buf = make([]byte, len(nodeKeyBuf)+len(parentOffsetBuf)+len(tn.data.Buf())+len(childSizeBuf))
+	tn.buf = make([]byte, 1+len(nodeKeyBuf)+len(parentOffsetBuf)+len(data.Buf())+len(childSizeBuf))
 
 	pos := 0
+	tn.buf[pos] = byte(0x01) // this is not a dummy node
+	pos += 1
 	copy(tn.buf[pos:], nodeKeyBuf)
 	pos += len(nodeKeyBuf)
 	copy(tn.buf[pos:], parentOffsetBuf)
 	pos += len(parentOffsetBuf)
-	copy(tn.buf[pos:], tn.data.Buf())
-	pos += len(tn.data.Buf())
+	copy(tn.buf[pos:], data.Buf())
+	pos += len(data.Buf())
 	copy(tn.buf[pos:], childSizeBuf)
 	pos += len(childSizeBuf)
 
-- 
2.43.0


From c3ff8969e32db4e3feaa85c3a48cc77016fba60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 44/54] fix: copying a trie fails unless it is encoded

---
 src/util/trie_util.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 0dda5ba..5b80e2f 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -780,11 +780,12 @@ func (t *Trie) Decode(IContext) (int, error) {
 
 func (t *Trie) Copy() IEncodable {
 
-	buf := make([]byte, len(t.buf))
-	copy(buf, t.buf)
-	result, _, err := NewMappedTrie(buf)
-	if err != nil {
-		panic(fmt.Sprintf("MappedTrie::Copy - unexpected error %s", err))
+	result := NewTrie()
+	for iter := t.Iterator(); iter.HasNext(); {
+		key, value := iter.Next()
+		if !collection.IsNil(value) {
+			result.Set(key, value.Copy().(IValue))
+		}
 	}
 
 	return result
-- 
2.43.0


From eb88fffaf192fffe06cfe5adf90b4c8e225d0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:50 +0000
Subject: [PATCH 45/54] fix: a few hostile bytes of a value array or record
 list allocate a megabyte

The element count was trusted before the content was looked at, so nested in a
trie or record list 10 KB of input took a gigabyte. Each element takes at least
one byte of content, as for keys and schemes.
---
 src/util/value_util.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 22b8bbb..a304d9f 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -423,7 +423,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = uint16(d.buf[pos])
-		d.data_array = make([]IValue, d.size)
 		pos += 1
 	case 0x02:
 		if len(d.buf) < 2+int(pos) {
@@ -431,7 +430,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = binary.BigEndian.Uint16(d.buf[pos:])
-		d.data_array = make([]IValue, d.size)
 		pos += 2
 	case 0x03:
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic - data array: %x", d.buf[0])
@@ -451,7 +449,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = uint16(d.buf[pos])
-		d.record_list = make([]IRecord, d.size)
 		pos += 1
 	case 0x02:
 		if format_is_set {
@@ -462,7 +459,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = binary.BigEndian.Uint16(d.buf[pos:])
-		d.record_list = make([]IRecord, d.size)
 		pos += 2
 	case 0x03:
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic [%x] - record list", d.buf[0])
@@ -515,6 +511,16 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic [%x] - length ", d.buf[0])
 	}
 
+	// each data array or record list element takes at least 1 byte
+	if d.size > content_length {
+		return 0, fmt.Errorf("StandardMappedValue::Decode - size [%d] bigger than content length [%d]", d.size, content_length)
+	}
+	if data_array_bits != 0 {
+		d.data_array = make([]IValue, d.size)
+	} else if record_list_bits != 0 {
+		d.record_list = make([]IRecord, d.size)
+	}
+
 	d.content = d.buf[pos-int(content_length) : pos]
 	d.buf = d.buf[:pos]
 	d.decoded = true
-- 
2.43.0


From 00be946eb64c0c63698b9bfa7ff32df7a85109a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:42 +0000
Subject: [PATCH 46/54] fix: a copied trie shares the bytes of its keys with
 the original

---
 src/util/trie_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 5b80e2f..d9735a9 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -784,7 +784,7 @@ func (t *Trie) Copy() IEncodable {
 	for iter := t.Iterator(); iter.HasNext(); {
 		key, value := iter.Next()
 		if !collection.IsNil(value) {
-			result.Set(key, value.Copy().(IValue))
+			result.Set(key.Copy().(IKey), value.Copy().(IValue))
 		}
 	}
 
-- 
2.43.0


From 63827303c61c74f8d204f1826eba8ee2489aa198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:43 +0000
Subject: [PATCH 47/54] fix: a hash table of the empty key and others may never
 be built

The empty key hashed to 0 whatever the hash function, so MPHBuild tried seeds
for ever when another key had taken its slot.
---
 src/util/key_util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 324295b..ecd51af 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -118,8 +118,7 @@ func (k *EmptyKey) Compare(c collection.IComparable) int {
 }
 
 func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
-	return hashValue
+	return hashSubKeys(nil, f)
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
@@ -577,7 +576,9 @@ func hashSubKeys(keys [][]byte, f func([]byte) uint32) uint32 {
 
 	switch len(keys) {
 	case 0:
-		return 0
+		// depends on f, as the hash of any other key - a hash table of the
+		// empty key and others could not be built otherwise
+		return f([]byte{0}) ^ f([]byte{})
 	case 1:
 		return f(keys[0])
 	}
-- 
2.43.0


From 1c7e781a18c970f3bdcf9ccb7ca1d17b11d0d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 48/54] fix: printing a decoded trie races with other readers
 of its values

---
 src/util/trie_util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index d9735a9..7be7f37 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -556,10 +556,16 @@ func (tn *MappedTrieNode) Print(w io.Writer, indent int) {
 
 func (tn *MappedTrieNode) ToString() string {
 
+	// encoded data only, elements may be decoded by other readers at the same time
+	var data []byte
+	if tn.nodeValue != nil {
+		data = tn.nodeValue.Buf()
+	}
+
 	return fmt.Sprintf("MappedTrieNode: k=%x, child=[%d], data=%v, off=%d, buf=%v ",
 		tn.nodeKey,
 		tn.children.Size(),
-		tn.nodeValue,
+		data,
 		tn.offset,
 		tn.buf[:collection.MinInt(len(tn.buf), 16)])
 }
-- 
2.43.0


From 5e0e4debc8fc1c9e6560dd599f641913e3d2fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 49/54] fix: printing a trie lacks the verb after the
 indentation width

---
 src/util/trie_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 7be7f37..f1fb160 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -260,7 +260,7 @@ func (t *MappedTrie) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (t *MappedTrie) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"%s\n", "", t.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", t.ToString())
 	if t.root != nil {
 		t.root.Print(w, indent+4)
 	}
@@ -805,7 +805,7 @@ func (t *Trie) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (t *Trie) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"%s\n", "", t.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", t.ToString())
 	if t.root != nil {
 		t.root.Print(w, indent+4)
 	}
-- 
2.43.0


From c2925fb4e78ef2009bf5fbc55025f6c08b1bc025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 50/54] fix: element access of an array or list of 65536 or
 more elements wraps around

---
 src/util/value_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index a304d9f..94ea8f3 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -828,7 +828,7 @@ func (d *ValueArray) Size() uint16 {
 
 func (d *ValueArray) ValueAt(idx uint16) (IValue, error) {
 
-	if idx >= uint16(len(d.data_array)) {
+	if int(idx) >= len(d.data_array) {
 		return nil, fmt.Errorf("ValueArray::ValueAt - idx [%d] bigger than size [%d]", idx, len(d.data_array))
 	}
 
@@ -1013,12 +1013,12 @@ func (d *ValueArray) Append(data IValue) *ValueArray {
 
 func (d *ValueArray) DeleteAt(idx uint16) *ValueArray {
 
-	if idx >= uint16(len(d.data_array)) {
+	if int(idx) >= len(d.data_array) {
 		panic(fmt.Sprintf("ValueArray::ValueAt - idx [%d] bigger than size [%d]", idx, len(d.data_array)))
 	}
 
 	d.estBufSize -= d.data_array[idx].EstBufSize()
-	d.data_array = append(d.data_array[:idx], d.data_array[idx+1:]...)
+	d.data_array = append(d.data_array[:idx], d.data_array[int(idx)+1:]...)
 	d.encoded = false
 	return d
 }
@@ -1072,7 +1072,7 @@ func (d *RecordList) ValueAt(idx uint16) (IValue, error) {
 
 func (d *RecordList) RecordAt(idx uint16) (IRecord, error) {
 
-	if idx >= uint16(len(d.record_list)) {
+	if int(idx) >= len(d.record_list) {
 		return nil, fmt.Errorf("RecordList::RecordAt - idx [%d] bigger than size [%d]", idx, len(d.record_list))
 	}
 
@@ -1249,12 +1249,12 @@ func (d *RecordList) Append(record IRecord) *RecordList {
 
 func (d *RecordList) DeleteAt(idx uint16) *RecordList {
 
-	if idx >= uint16(len(d.record_list)) {
+	if int(idx) >= len(d.record_list) {
 		panic(fmt.Sprintf("ValueArray::DeleteAt - idx [%d] bigger than size [%d]", idx, len(d.record_list)))
 	}
 
 	d.estBufSize -= d.record_list[idx].EstBufSize()
-	d.record_list = append(d.record_list[:idx], d.record_list[idx+1:]...)
+	d.record_list = append(d.record_list[:idx], d.record_list[int(idx)+1:]...)
 	d.encoded = false
 	return d
 }
-- 
2.43.0


From ab4ae98492fb22f13f59fbbd6a8209dca1478472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 51/54] fix: the full key of a trie node takes time quadratic
 in its sub keys

---
 src/util/trie_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index f1fb160..df9faf3 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -321,12 +321,12 @@ func (tn *MappedTrieNode) FullKey() IKey {
 	subKeys := []([]byte){}
 	// the root node has no parent, and no node key
 	for currNode := ITrieNode(tn); currNode.Parent() != nil; currNode = currNode.Parent() {
-		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
+		subKeys = append(subKeys, currNode.NodeKey())
 	}
 
 	fullKey := NewKey()
-	for _, subKey := range subKeys {
-		fullKey.Add(subKey)
+	for idx := len(subKeys) - 1; idx >= 0; idx-- {
+		fullKey.Add(subKeys[idx])
 	}
 
 	return fullKey
@@ -860,12 +860,12 @@ func (tn *TrieNode) FullKey() IKey {
 	var currNode ITrieNode
 	// the root node has no parent, and no node key
 	for currNode = tn; currNode.Parent() != nil; currNode = currNode.Parent() {
-		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
+		subKeys = append(subKeys, currNode.NodeKey())
 	}
 
 	fullKey := NewKey()
-	for _, subKey := range subKeys {
-		fullKey.Add(subKey)
+	for idx := len(subKeys) - 1; idx >= 0; idx-- {
+		fullKey.Add(subKeys[idx])
 	}
 
 	return fullKey
-- 
2.43.0


From 30a71367178d724faab69afed34d803166b133c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:17 +0000
Subject: [PATCH 52/54] fix: walking the elements of a decoded array or list
 takes time quadratic in their number

---
 src/util/value_util.go | 49 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 94ea8f3..06b6295 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -203,6 +203,9 @@ type StandardMappedValue struct {
 	lookup      ILookupEncoder
 	compression ICompressEncoder
 	content     []byte
+	// elements decoded so far, and where the next one starts in content
+	decoded_size uint16
+	decoded_pos  int
 }
 
 ////////////////////////////////////////
@@ -289,20 +292,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	pos := 0
-	for i := uint16(0); i <= idx; i++ {
-		if d.data_array[i] == nil {
-			if len(d.content) < pos {
-				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
-			}
-			value, _, err := NewStandardMappedValue(d.content[pos:])
-			if err != nil {
-				return nil, err
-			}
-			d.data_array[i] = value
+	// elements are decoded in order
+	for ; d.decoded_size <= idx; d.decoded_size++ {
+		if len(d.content) < d.decoded_pos {
+			return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, d.decoded_size, len(d.content), d.content)
+		}
+		value, _, err := NewStandardMappedValue(d.content[d.decoded_pos:])
+		if err != nil {
+			return nil, err
 		}
-		pos += len(d.data_array[i].Buf())
-		//pos += length
+		d.data_array[d.decoded_size] = value
+		d.decoded_pos += len(value.Buf())
 	}
 
 	return d.data_array[idx], nil
@@ -329,19 +329,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	pos := 0
-	for i := uint16(0); i <= idx; i++ {
-		if d.record_list[i] == nil {
-			if len(d.content) < pos {
-				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
-			}
-			record, _, err := NewMappedRecord(d.content[pos:])
-			if err != nil {
-				return nil, err
-			}
-			d.record_list[i] = record
+	// elements are decoded in order
+	for ; d.decoded_size <= idx; d.decoded_size++ {
+		if len(d.content) < d.decoded_pos {
+			return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, d.decoded_size, len(d.content), d.content)
+		}
+		record, _, err := NewMappedRecord(d.content[d.decoded_pos:])
+		if err != nil {
+			return nil, err
 		}
-		pos += len(d.record_list[i].Buf())
+		d.record_list[d.decoded_size] = record
+		d.decoded_pos += len(record.Buf())
 	}
 
 	return d.record_list[idx], nil
@@ -522,6 +520,7 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 	}
 
 	d.content = d.buf[pos-int(content_length) : pos]
+	d.decoded_size, d.decoded_pos = 0, 0
 	d.buf = d.buf[:pos]
 	d.decoded = true
 
-- 
2.43.0


From 97524b8ec3949007a1f7f6be5c6be14bfd640cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:08 +0000
Subject: [PATCH 53/54] fix: a copy of a trie node shares its value and its
 child nodes

---
 src/util/trie_util.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index df9faf3..1ea7cd5 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -999,13 +999,20 @@ func (tn *TrieNode) SetOffset(offset uint32) error {
 
 func (tn *TrieNode) Copy() IEncodable {
 
-	buf := make([]byte, len(tn.buf))
-	copy(buf, tn.buf)
+	// make a deep copy of each component
+	var data IValue
+	if !collection.IsNil(tn.data) {
+		data = tn.data.Copy().(IValue)
+	}
 
-	result := NewTrieNode(tn.parent, tn.nodeKey, tn.data)
+	result := NewTrieNode(tn.parent, append([]byte{}, tn.nodeKey...), data)
 	for iter := tn.Children().Iterator(); iter.HasNext(); {
-		key, value := iter.Next()
-		result.Children().Put(key, value)
+		_, value := iter.Next()
+		child := value.(ITrieNode).Copy().(ITrieNode)
+		if childNode, ok := child.(*TrieNode); ok {
+			childNode.parent = result
+		}
+		result.PutChild(child.NodeKey(), child)
 	}
 
 	return result
-- 
2.43.0


From f96ac6df98ee10801523184d354c2aa68089754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:20 +0000
Subject: [PATCH 54/54] fix: hash tables of keys related by their bytes may
 never be built

---
 src/util/key_util.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index ecd51af..d8c1153 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -574,12 +574,7 @@ func (k *Key) add(subKey []byte) *Key {
 // or a/a and b/b, the same hash value under every hash function
 func hashSubKeys(keys [][]byte, f func([]byte) uint32) uint32 {
 
-	switch len(keys) {
-	case 0:
-		// depends on f, as the hash of any other key - a hash table of the
-		// empty key and others could not be built otherwise
-		return f([]byte{0}) ^ f([]byte{})
-	case 1:
+	if len(keys) == 1 {
 		return f(keys[0])
 	}
 
@@ -587,6 +582,15 @@ func hashSubKeys(keys [][]byte, f func([]byte) uint32) uint32 {
 	for _, key := range keys {
 		buf = append(buf, EncodeVarchar(key)...)
 	}
-	// set apart from the single subKey that has the same bytes
-	return f(buf) ^ f([]byte{})
+
+	// set apart from the single subKey that has the same bytes - not by a value
+	// that is the same for all keys: pairs of keys that differ by one and the
+	// same value under every hash function may have no place in a hash table
+	h := f(buf)
+	h ^= h >> 16
+	h *= 0x85ebca6b
+	h ^= h >> 13
+	h *= 0xc2b2ae35
+	h ^= h >> 16
+	return h
 }
-- 
2.43.0

