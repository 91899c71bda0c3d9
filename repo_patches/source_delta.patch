From 9ae2e438cf88a1435b9023f9fc9601f25fb1e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 01/11] fix: generic Map.Set and Set.Add: rehash the
 conflicting key with its rehash count

The hash of the conflicting key was recomputed with the depth modulo 16 as the
rehash count, instead of the depth divided by 16, so entries of colliding keys
were linked where they could not be found.
---
 generic_map.go | 2 +-
 generic_set.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..2fd1a23 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 118a9cef61e84d3669197e61cf7ce97fbf554753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 02/11] fix: generic Map.Mod: rehash the conflicting key, not
 the new one

When Mod split an entry, the conflicting key's hash was computed from the new
key (and with a wrong rehash count), so the existing entry was lost.
---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 2fd1a23..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 9653cc2650c0c0eae729363628efcaa18dd490ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 03/11] fix: ArrMap.Set: store the value when the key collides
 with another

The entry allocated when an existing entry is split was given the key only, so
the value passed to Set was lost.
---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..ff26598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{k: key, v: value}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 6ff28cd3acd9a449253dc30ae482397a18e040d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 04/11] fix: BytesSet.Del: delete the key if it is equal, not
 if it is different

The comparison was inverted: deleting a present key did nothing, and deleting a
missing key could remove another key in its place.
---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From 853be2db8c978625f06134adbfdd8f9a8bf426ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 05/11] fix: IntMap, IntSet: clear key bits left in a branch's
 type bitmap

Integer keys are stored in the bitmap fields of their link. When an entry was
replaced by a branch with a single item, the upper half of its key remained in
the branch's type bitmap, so the branch below could be taken for an entry.
---
 int_map.go | 4 ++--
 int_set.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..f67003b 100644
--- a/int_map.go
+++ b/int_map.go
@@ -176,7 +176,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				hd, chd = hw.Sum64(), chw.Sum64()
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			item.pmap, item.tmap = kbit|cbit, 0
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
@@ -284,7 +284,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				hd, chd = hw.Sum64(), chw.Sum64()
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			item.pmap, item.tmap = kbit|cbit, 0
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
diff --git a/int_set.go b/int_set.go
index 7c6e44a..45ccd59 100644
--- a/int_set.go
+++ b/int_set.go
@@ -128,7 +128,7 @@ func (s IntSet) Add(key IntKey) {
 				hd, chd = hw.Sum64(), chw.Sum64()
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			item.pmap, item.tmap = kbit|cbit, 0
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-- 
2.43.0


From 9232d3a13969426aaa26f0f7d8c92d026e6c308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 06/11] fix: HashBytes: do not truncate the rehash count to 8
 bits

HashBytes did not return when the low byte of iter was 255, and repeated
earlier hashes for larger rehash counts.
---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 70ad36d..857dca9 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From f29cb112491ab8f2e1b25b5cc8b9a5a698ee8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 07/11] fix: Int: add Equal, so that Int may be used as a
 generic key

Int is documented as a key type for generic maps, but did not satisfy Key.
---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index f67003b..5514aca 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From 21bd74c2ef8802d952ca67fdad2329a5e36609f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 08/11] fix: Mod: call back before splitting the entry of a
 conflicting key

When the new key collided with a present one, the callback was called while the
conflicting entry was unlinked: lookups made by the callback crashed or missed
it, and a panic in the callback left the map without it.
---
 arr_map.go     | 4 ++--
 bytes_map.go   | 4 ++--
 generic_map.go | 4 ++--
 int_map.go     | 4 ++--
 string_map.go  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff26598..ec18b34 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,8 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +271,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..4a24b40 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,8 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +287,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index 857dca9..78d5bdd 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -236,6 +236,8 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -252,8 +254,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index 5514aca..b629d1c 100644
--- a/int_map.go
+++ b/int_map.go
@@ -272,6 +272,8 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		val := &intkv[V]{}
+		mod(&val.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -290,8 +292,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..5c20fb7 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,8 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +273,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From c087c8c07140b9d587606366a08d398300e1e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 09/11] fix: Del: clear the slot vacated at the end of an array

Items were shifted back over the deleted one, but the last slot kept its old
link, so deleted keys and values (or branches) remained reachable.
---
 arr_map.go     | 3 +++
 arr_set.go     | 3 +++
 bytes_map.go   | 3 +++
 bytes_set.go   | 3 +++
 generic_map.go | 3 +++
 generic_set.go | 3 +++
 int_map.go     | 3 +++
 int_set.go     | 3 +++
 string_map.go  | 3 +++
 string_set.go  | 3 +++
 10 files changed, 30 insertions(+)

diff --git a/arr_map.go b/arr_map.go
index ec18b34..00429fd 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -376,6 +376,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/arr_set.go b/arr_set.go
index c19eccf..07c2e92 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -237,6 +237,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_map.go b/bytes_map.go
index 4a24b40..7c4fecf 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -391,6 +391,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..3aab871 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -236,6 +236,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_map.go b/generic_map.go
index 78d5bdd..08d017b 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -354,6 +354,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_set.go b/generic_set.go
index d862c20..3842a21 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -213,6 +213,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_map.go b/int_map.go
index b629d1c..8b41ffd 100644
--- a/int_map.go
+++ b/int_map.go
@@ -403,6 +403,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_set.go b/int_set.go
index 45ccd59..6bd7508 100644
--- a/int_set.go
+++ b/int_set.go
@@ -239,6 +239,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_map.go b/string_map.go
index 5c20fb7..20ecb3a 100644
--- a/string_map.go
+++ b/string_map.go
@@ -377,6 +377,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_set.go b/string_set.go
index 4b7da97..3e0def5 100644
--- a/string_set.go
+++ b/string_set.go
@@ -233,6 +233,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
-- 
2.43.0


From 627a52858f6fe8d87a1a86af2cda794e933a148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 10/11] fix: Del: always clear the traversal path

The links traversed were left in the scratch path when the key was missing, and
when the trie was deeper than the scratch path, so arrays unlinked later (and
the keys and values in them) remained reachable.
---
 arr_map.go     | 7 +++----
 arr_set.go     | 7 +++----
 bytes_map.go   | 7 +++----
 bytes_set.go   | 7 +++----
 generic_map.go | 7 +++----
 generic_set.go | 7 +++----
 int_map.go     | 7 +++----
 int_set.go     | 7 +++----
 string_map.go  | 7 +++----
 string_set.go  | 7 +++----
 10 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index 00429fd..fe34202 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -344,6 +344,7 @@ func (m ArrMap[K, V]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, V])(item.ptr).k != key { // key missing
+			m.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -390,12 +391,10 @@ func (m ArrMap[K, V]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.path = [12]pathLink{}
 		return // item removed
 	}
+	m.path = [12]pathLink{} // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/arr_set.go b/arr_set.go
index 07c2e92..6e68878 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -205,6 +205,7 @@ func (s ArrSet[K]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing
+			s.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -251,12 +252,10 @@ func (s ArrSet[K]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.path = [12]pathLink{}
 		return // item removed
 	}
+	s.path = [12]pathLink{} // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/bytes_map.go b/bytes_map.go
index 7c4fecf..69bd455 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -359,6 +359,7 @@ func (m BytesMap[V]) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[V])(item.ptr).k, key) { // key missing
+			m.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -405,12 +406,10 @@ func (m BytesMap[V]) Del(key []byte) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.path = [12]pathLink{}
 		return // item removed
 	}
+	m.path = [12]pathLink{} // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/bytes_set.go b/bytes_set.go
index 3aab871..2edb9ef 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -204,6 +204,7 @@ func (s BytesSet) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+			s.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -250,12 +251,10 @@ func (s BytesSet) Del(key []byte) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.path = [12]pathLink{}
 		return // item removed
 	}
+	s.path = [12]pathLink{} // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/generic_map.go b/generic_map.go
index 08d017b..190f4c1 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -322,6 +322,7 @@ func (m Map[K, V]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing
+			m.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -368,12 +369,10 @@ func (m Map[K, V]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.path = [12]pathLink{}
 		return // item removed
 	}
+	m.path = [12]pathLink{} // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/generic_set.go b/generic_set.go
index 3842a21..6d5d012 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -181,6 +181,7 @@ func (s Set[K]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, struct{}])(item.ptr).k) { // key missing
+			s.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -227,12 +228,10 @@ func (s Set[K]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.path = [12]pathLink{}
 		return // item removed
 	}
+	s.path = [12]pathLink{} // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/int_map.go b/int_map.go
index 8b41ffd..c31515b 100644
--- a/int_map.go
+++ b/int_map.go
@@ -371,6 +371,7 @@ func (m IntMap[V]) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
+			m.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -417,12 +418,10 @@ func (m IntMap[V]) Del(key IntKey) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.path = [12]pathLink{}
 		return // item removed
 	}
+	m.path = [12]pathLink{} // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/int_set.go b/int_set.go
index 6bd7508..80dd9af 100644
--- a/int_set.go
+++ b/int_set.go
@@ -207,6 +207,7 @@ func (s IntSet) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
+			s.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -253,12 +254,10 @@ func (s IntSet) Del(key IntKey) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.path = [12]pathLink{}
 		return // item removed
 	}
+	s.path = [12]pathLink{} // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/string_map.go b/string_map.go
index 20ecb3a..1a6b57b 100644
--- a/string_map.go
+++ b/string_map.go
@@ -345,6 +345,7 @@ func (m StringMap[V]) Del(key string) {
 			continue
 		}
 		if (*strkv[V])(item.ptr).k != key { // key missing
+			m.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -391,12 +392,10 @@ func (m StringMap[V]) Del(key string) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.path = [12]pathLink{}
 		return // item removed
 	}
+	m.path = [12]pathLink{} // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/string_set.go b/string_set.go
index 3e0def5..ddda565 100644
--- a/string_set.go
+++ b/string_set.go
@@ -201,6 +201,7 @@ func (s StringSet) Del(key string) {
 			continue
 		}
 		if (*strkv[struct{}])(item.ptr).k != key { // key missing
+			s.path = [12]pathLink{}
 			return
 		}
 		l.pmap &^= bit
@@ -247,12 +248,10 @@ func (s StringSet) Del(key string) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.path = [12]pathLink{}
 		return // item removed
 	}
+	s.path = [12]pathLink{} // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
-- 
2.43.0


From 786a241693598c4ce694a5ffdb9a1ae92416ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 11/11] fix: count depth in a full word, so that keys may share
 240 and more hash digits

---
 arr_map.go     | 12 ++++++------
 arr_set.go     |  8 ++++----
 bytes_map.go   | 12 ++++++------
 bytes_set.go   |  8 ++++----
 generic_map.go |  8 ++++----
 generic_set.go |  6 +++---
 int_map.go     | 12 ++++++------
 int_set.go     |  8 ++++----
 string_map.go  | 12 ++++++------
 string_set.go  |  8 ++++----
 10 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index fe34202..b9d3183 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -85,7 +85,7 @@ func (m ArrMap[K, V]) Ptr(key K) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -117,7 +117,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -145,7 +145,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -219,7 +219,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -247,7 +247,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -324,7 +324,7 @@ func (m ArrMap[K, V]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/arr_set.go b/arr_set.go
index 6e68878..5f10151 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -55,7 +55,7 @@ func (s ArrSet[K]) Has(key K) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s ArrSet[K]) Add(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s ArrSet[K]) Add(key K) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -185,7 +185,7 @@ func (s ArrSet[K]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_map.go b/bytes_map.go
index 69bd455..eeb3852 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -93,7 +93,7 @@ func (m BytesMap[V]) Ptr(key []byte) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -125,7 +125,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -152,7 +152,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -230,7 +230,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -257,7 +257,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -339,7 +339,7 @@ func (m BytesMap[V]) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_set.go b/bytes_set.go
index 2edb9ef..6de2825 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -56,7 +56,7 @@ func (s BytesSet) Has(key []byte) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -85,7 +85,7 @@ func (s BytesSet) Add(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s BytesSet) Add(key []byte) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -184,7 +184,7 @@ func (s BytesSet) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_map.go b/generic_map.go
index 190f4c1..a6a60da 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -95,7 +95,7 @@ func (m Map[K, V]) Val(key K) (value V) {
 // Ptr returns a pointer to the value for key, or nil if the key is missing.
 // The value may be updated through the returned pointer.
 func (m Map[K, V]) Ptr(key K) *V {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m Map[K, V]) Ptr(key K) *V {
 
 // Set adds or updates the value for key.
 func (m Map[K, V]) Set(key K, value V) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -211,7 +211,7 @@ func (m Map[K, V]) Set(key K, value V) {
 // Mod modifies the value for key using the mod callback. The mod callback receives
 // a pointer to the existing or new value for key, and true if the key existed.
 func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -303,7 +303,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m Map[K, V]) Del(key K) {
 	path := m.path[:0]
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_set.go b/generic_set.go
index 6d5d012..82876aa 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -50,7 +50,7 @@ func (s Set[K]) Dep() float64 { return s.root.Dep() }
 
 // Has returns true if s contains key.
 func (s Set[K]) Has(key K) bool {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -74,7 +74,7 @@ func (s Set[K]) Has(key K) bool {
 
 // Add adds key to s.
 func (s Set[K]) Add(key K) {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -162,7 +162,7 @@ func (s Set[K]) Add(key K) {
 // Del deletes key from s.
 func (s Set[K]) Del(key K) {
 	path := s.path[:0]
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_map.go b/int_map.go
index c31515b..9059257 100644
--- a/int_map.go
+++ b/int_map.go
@@ -100,7 +100,7 @@ func (m IntMap[V]) Ptr(key IntKey) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -132,7 +132,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -160,7 +160,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -240,7 +240,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -268,7 +268,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -351,7 +351,7 @@ func (m IntMap[V]) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_set.go b/int_set.go
index 80dd9af..9922107 100644
--- a/int_set.go
+++ b/int_set.go
@@ -55,7 +55,7 @@ func (s IntSet) Has(key IntKey) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s IntSet) Add(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -110,7 +110,7 @@ func (s IntSet) Add(key IntKey) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -187,7 +187,7 @@ func (s IntSet) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_map.go b/string_map.go
index 1a6b57b..f39b5d4 100644
--- a/string_map.go
+++ b/string_map.go
@@ -91,7 +91,7 @@ func (m StringMap[V]) Ptr(key string) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m StringMap[V]) Set(key string, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -149,7 +149,7 @@ func (m StringMap[V]) Set(key string, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -222,7 +222,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -249,7 +249,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -325,7 +325,7 @@ func (m StringMap[V]) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_set.go b/string_set.go
index ddda565..5456900 100644
--- a/string_set.go
+++ b/string_set.go
@@ -54,7 +54,7 @@ func (s StringSet) Has(key string) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -82,7 +82,7 @@ func (s StringSet) Add(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -108,7 +108,7 @@ func (s StringSet) Add(key string) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -181,7 +181,7 @@ func (s StringSet) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
-- 
2.43.0

