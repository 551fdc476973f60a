From facb0f8e888e8c5edb5e5f1fb25e334c977300a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 001/120] fix: harbol_array: drop elements that no longer fit
 when the capacity is reduced

---
 array/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array/array.c b/array/array.c
index e36bf8e..05b04e6 100644
--- a/array/array.c
+++ b/array/array.c
@@ -17,6 +17,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
-- 
2.43.0


From 7b8767ac67d3555443505c9da0f07cb79fc6fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 002/120] fix: harbol_array_add: accept a source that exactly
 fills the remaining capacity

---
 array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index 05b04e6..3d37e5f 100644
--- a/array/array.c
+++ b/array/array.c
@@ -124,7 +124,7 @@ HARBOL_EXPORT bool harbol_array_full(struct HarbolArray const *const vec) {
 
 /// array to array ops.
 HARBOL_EXPORT bool harbol_array_add(struct HarbolArray *const vecA, struct HarbolArray const *const vecB, size_t const datasize) {
-	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) >= vecA->cap ) {
+	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) > vecA->cap ) {
 		return false;
 	}
 	memcpy(&vecA->table[vecA->len * datasize], vecB->table, vecB->len * datasize);
-- 
2.43.0


From e252c22199d17ad8a5b036f86542e8b5b5e79c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 003/120] fix: harbol_array_del_by_index/_range: refuse an
 index beyond an empty array's length

---
 array/array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index 3d37e5f..881f337 100644
--- a/array/array.c
+++ b/array/array.c
@@ -271,7 +271,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 
 /// deletion funcs.
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || index >= vec->len ) {
 		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
@@ -285,6 +285,8 @@ HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
 		return true;
+	} else if( index >= vec->len ) {
+		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
-- 
2.43.0


From fcb8319557e5a16331742b3f2ccca9a656b8d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 004/120] fix: array_shift_up/multi_array_shift_up: clamp the
 amount so that index + amount cannot wrap around

---
 harbol_common_includes.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..58e1387 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -594,6 +594,9 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 	}
 	
 	amount += amount==0;
+	if( amount > *len - index ) {
+		amount = *len - index;
+	}
 	size_t const
 		i = index + amount,
 		j = index
@@ -622,6 +625,9 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 	
 	va_list ap; va_start(ap, n_buffers);
 	amount += amount==0;
+	if( amount > *len - index ) {
+		amount = *len - index;
+	}
 	size_t const
 		i = index + amount,
 		j = index
-- 
2.43.0


From a7978a03e35dc8e56f22e9383736f6c16366c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 005/120] fix: harbol_recalloc: refuse sizes that overflow and
 never free the block by reallocating to zero bytes

---
 harbol_common_includes.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 58e1387..b8d9e77 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -176,11 +176,15 @@
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
 	if( arr==NULL || old_size==0 ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
+	/// `realloc`ing to a size of zero would free `arr`.
+	size_t const bytes = (new_size * element_size==0)? 1 : new_size * element_size;
 #ifdef __cplusplus
-	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
+	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, bytes));
 #else
-	uint8_t *const restrict new_block = realloc(arr, new_size * element_size);
+	uint8_t *const restrict new_block = realloc(arr, bytes);
 #endif
 	if( new_block==NULL ) {
 		return NULL;
-- 
2.43.0


From 16eeeb99d70bf538a6f9520f54df3d56354ce1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 006/120] fix: harbol_array: refuse capacities whose
 power-of-two rounding overflows

---
 array/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array/array.c b/array/array.c
index 881f337..121fffe 100644
--- a/array/array.c
+++ b/array/array.c
@@ -9,6 +9,9 @@
 static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec, size_t const new_size, size_t const element_size) {
 	if( vec->cap==new_size ) {
 		return true;
+		} else if( new_size==0 ) {
+		/// rounding the requested capacity up to a power of two overflowed.
+		return false;
 	}
 	
 	uint8_t *const new_table = harbol_recalloc(vec->table, new_size, element_size, vec->cap);
-- 
2.43.0


From ee4fefb630ec8e4b3c238fa6e9d4771c622e6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 007/120] fix: harbol_deque: unlink the first node of an empty
 deque from the free list

---
 deque/deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..3d6e4a2 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -144,6 +144,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->head==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->nexts[i] = deque->head;
@@ -167,6 +168,7 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->tail==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->prevs[i] = deque->tail;
-- 
2.43.0


From 18ef5dc6bcd7ed5c5509baf1810478fc81bae91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 008/120] fix: harbol_deque_reset: reset the element count too

---
 deque/deque.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deque/deque.c b/deque/deque.c
index 3d6e4a2..46362d8 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -44,7 +44,12 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
+	deque->head = deque->tail = SIZE_MAX;
+	deque->len = 0;
+	if( deque->cap==0 ) {
+		return;
+	}
+	deque->nexts[deque->cap - 1] = SIZE_MAX;
 	deque->freed = deque->cap - 1;
 }
 
-- 
2.43.0


From 0dbba76551e2b0a6fc2604406aba0c5a14852f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 009/120] fix: harbol_deque_append/_prepend: report failure
 when the element cannot be copied

---
 deque/deque.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 46362d8..386529d 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -148,6 +148,10 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->head==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
@@ -172,6 +176,10 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->tail==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
-- 
2.43.0


From feeb0e84b5831dfb0c6f3592f9a29c693fb41e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 010/120] fix: harbol_deque: a cleared or zero-capacity deque
 is empty and can grow

---
 deque/deque.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 386529d..008e58f 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -14,7 +14,10 @@ HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {
 }
 
 HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const init_size) {
-	if( !harbol_multi_recalloc(init_size, deque->cap, 3,
+	if( init_size==0 ) {
+		*deque = ( struct HarbolDeque ){ .head = SIZE_MAX, .tail = SIZE_MAX, .freed = SIZE_MAX };
+		return true;
+	} else if( !harbol_multi_recalloc(init_size, deque->cap, 3,
 						&deque->nexts, sizeof *deque->nexts,
 						&deque->prevs, sizeof *deque->prevs,
 						&deque->datum, sizeof *deque->datum) ) {
@@ -58,7 +61,7 @@ HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
 		free(deque->datum[i]); deque->datum[i] = NULL;
 	}
 	harbol_multi_cleanup(3, &deque->nexts, &deque->prevs, &deque->datum);
-	*deque = ( struct HarbolDeque ){0};
+	*deque = ( struct HarbolDeque ){ .head = SIZE_MAX, .tail = SIZE_MAX, .freed = SIZE_MAX };
 }
 HARBOL_EXPORT void harbol_deque_free(struct HarbolDeque **const dequeref) {
 	if( *dequeref==NULL ) {
@@ -138,7 +141,7 @@ HARBOL_EXPORT void *harbol_deque_get_data(struct HarbolDeque const *const deque,
 }
 
 HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, (deque->cap==0)? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -166,7 +169,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 }
 
 HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, (deque->cap==0)? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
-- 
2.43.0


From 044c54dace5f48af3b72a00c28bb8622b6be45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 011/120] fix: harbol_recalloc: do not leak the given block
 when it holds zero elements

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index b8d9e77..afbdefe 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,7 +174,7 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
 	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
 		return NULL;
-- 
2.43.0


From e3a592eabea21b8270d36b02aad10bcbc6dcafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 012/120] fix: harbol_multi_recalloc: leave every buffer
 unchanged when one allocation fails

---
 harbol_common_includes.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index afbdefe..0ed4766 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -245,24 +245,29 @@ static inline bool harbol_multi_calloc(size_t const size, size_t const n_buffers
 static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old_size, size_t const n_buffers, ...) {
 	va_list ap; va_start(ap, n_buffers);
 	va_list cp; va_copy(cp, ap);
-	bool res = true;
 	void **bufs = calloc(n_buffers, sizeof *bufs);
-	for( size_t i=0; i < n_buffers; i++ ) {
-		void **buf = va_arg(ap, void**);
+	bool res = bufs != NULL;
+	for( size_t i=0; res && i < n_buffers; i++ ) {
+		( void )(va_arg(ap, void**));
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
+		bufs[i] = calloc(new_size, elem_size);
 		res &= bufs[i] != NULL;
 	}
 	va_end(ap);
 	
 	if( !res ) {
-		for( size_t i=0; i < n_buffers; i++ ) {
+		for( size_t i=0; bufs != NULL && i < n_buffers; i++ ) {
 			free(bufs[i]); bufs[i] = NULL;
 		}
 	} else {
+		size_t const kept = (old_size < new_size)? old_size : new_size;
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
-			va_arg(cp, size_t);
+			size_t const elem_size = va_arg(cp, size_t);
+			if( *buf != NULL ) {
+				memcpy(bufs[i], *buf, kept * elem_size);
+				free(*buf);
+			}
 			*buf = bufs[i];
 		}
 	}
-- 
2.43.0


From 2ccd7b6b4326c64a0c2e64b7ff20cd92b3199edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 013/120] fix: harbol_map: do not read the first byte of empty
 keys and values

---
 map/map.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..3a08174 100644
--- a/map/map.c
+++ b/map/map.c
@@ -70,7 +70,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return SIZE_MAX;
-	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
+	} else if( map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
 		return val_idx;
 	}
 	
@@ -83,7 +83,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
+		} else if( map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
 			return idx;
 		}
 	}
@@ -181,8 +181,7 @@ HARBOL_EXPORT size_t harbol_map_idx_val(struct HarbolMap const *const map, void
 	}
 	
 	for( size_t i=0; i < map->len; i++ ) {
-		uint8_t const *const restrict desired_val = val;
-		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
+		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
 			return i;
 		}
 	}
-- 
2.43.0


From 35bd67bfb5c7b1e011a39154b529cfe0523a831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 014/120] fix: harbol_map_idx_set: record the length of the new
 value

---
 map/map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map/map.c b/map/map.c
index 3a08174..b1668af 100644
--- a/map/map.c
+++ b/map/map.c
@@ -217,7 +217,8 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 		return false;
 	}
 	free(map->datum[index]);
-	map->datum[index] = data;
+	map->datum[index]    = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From a14d1f33af4f9c4274a7857537959ba83bac2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 015/120] fix: harbol_map: probe every bucket whatever the
 capacity

---
 map/map.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/map/map.c b/map/map.c
index b1668af..fdf0363 100644
--- a/map/map.c
+++ b/map/map.c
@@ -65,8 +65,11 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = hash & mask;
+	if( map->cap==0 ) {
+		return SIZE_MAX;
+	}
+	
+	size_t const bkt_idx = hash % map->cap;
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return SIZE_MAX;
@@ -74,12 +77,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t i = (bkt_idx+1) % map->cap; i != bkt_idx; i = (i+1) % map->cap ) {
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
@@ -99,13 +97,9 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t       bkt_idx = map->hashes[n] & mask;
+	size_t bkt_idx = map->hashes[n] % map->cap;
 	while( map->buckets[bkt_idx] != SIZE_MAX ) {
-		bkt_idx++;
-		if( bkt_idx >= mask ) {
-			bkt_idx &= mask;
-		}
+		bkt_idx = (bkt_idx+1) % map->cap;
 	}
 	map->buckets[bkt_idx] = n;
 	return true;
-- 
2.43.0


From 5858394a2a4b027de2ea24e701016fc6f031ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 016/120] fix: harbol_map_idx_rm: keep the bucket table in step
 with the entries

---
 map/map.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/map/map.c b/map/map.c
index fdf0363..065fdd1 100644
--- a/map/map.c
+++ b/map/map.c
@@ -226,23 +226,24 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	bool const res = multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	
+	/// the entries after `n` have moved down and probe chains may have passed through its bucket.
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	for( size_t i=0; i < map->len; i++ ) {
+		_harbol_map_insert_entry(map, i);
+	}
+	return res;
 }
\ No newline at end of file
-- 
2.43.0


From 0d64528476810af6366f5201037e5da878e331d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 017/120] fix: harbol_map_rehash: never drop entries and
 succeed on an empty or exactly full map

---
 map/map.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/map/map.c b/map/map.c
index 065fdd1..3451c60 100644
--- a/map/map.c
+++ b/map/map.c
@@ -93,7 +93,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
@@ -106,7 +106,7 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
-	if( !harbol_multi_recalloc(new_size, map->cap, 6,
+	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -121,9 +121,9 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
+	bool res = true;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		res &= _harbol_map_insert_entry(map, i);
 	}
 	return res;
 }
-- 
2.43.0


From a65778c3f7b825d63ed20362ccded2353e6cb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 018/120] fix: harbol_map_insert: grow a map of zero capacity

---
 map/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map/map.c b/map/map.c
index 3451c60..6041dd3 100644
--- a/map/map.c
+++ b/map/map.c
@@ -129,7 +129,7 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
-	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap << 1)) ) {
+	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, (map->cap==0)? 1 : map->cap << 1)) ) {
 		return false;
 	}
 	
-- 
2.43.0


From 94f1c50e2f3dc750604670be639c5a975746b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 019/120] fix: harbol_resize_string: terminate the text when it
 shrinks

---
 harbol_common_includes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 0ed4766..61ee39f 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -334,6 +334,7 @@ static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t
 	if( new_cstr==NULL ) {
 		return NULL;
 	}
+	memset(&new_cstr[new_size * bytes], 0, bytes);
 	*len = new_size;
 	return new_cstr;
 }
-- 
2.43.0


From a7ebac184ee15a51f5b6998efafb7d56ed765d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 020/120] fix: harbol_string_add_str: allow appending a string
 to itself

---
 str/str.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..d2363bd 100644
--- a/str/str.c
+++ b/str/str.c
@@ -76,10 +76,14 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	size_t const
+		lenA = strA->len,
+		lenB = strB->len
+	;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memcpy(&strA->cstr[lenA], strB->cstr, lenB);
 	return true;
 }
 
-- 
2.43.0


From 37d6cf2b302100300463c189e1b136c56130a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 021/120] fix: harbol_string_add_char_rep: refuse amounts that
 overflow the length

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index d2363bd..c709e63 100644
--- a/str/str.c
+++ b/str/str.c
@@ -66,7 +66,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount >= SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From 4ebbc0f2b55c900fafca090bd2782a2c26d683ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 022/120] fix: harbol_string_count_cstr: an empty needle occurs
 nowhere instead of looping forever

---
 str/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index c709e63..ca9f5ee 100644
--- a/str/str.c
+++ b/str/str.c
@@ -313,8 +313,8 @@ HARBOL_EXPORT size_t harbol_string_count_char(struct HarbolString const *const s
 }
 
 HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const restrict str, char const occurrence[const restrict static 1]) {
-	if( str->cstr==NULL ) {
-		return false;
+	if( str->cstr==NULL || occurrence[0]==0 ) {
+		return 0;
 	}
 	
 	size_t occurrences = 0;
-- 
2.43.0


From 8b70a0939507262725d5899529c7a704fef1bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 023/120] fix: harbol_string_replace_cstr: replace exactly the
 requested number of occurrences

---
 str/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index ca9f5ee..4522a2f 100644
--- a/str/str.c
+++ b/str/str.c
@@ -252,7 +252,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	}
 	
 	size_t const counts = harbol_string_count_cstr(str, to_replace);
-	if( counts==0 ) {
+	if( counts==0 || amount==0 ) {
 		return false;
 	} else if( amount > counts ) {
 		amount = counts;
@@ -273,7 +273,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	strcpy(&rep_str.cstr[rep_len], with);
 	rep_len += with_len;
-	for( size_t i=0; i < amount; i++ ) {
+	for( size_t i=1; i < amount; i++ ) {
 		size_t const saved_offset = offset;
 		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
 		if( relative_offs==SIZE_MAX ) {
-- 
2.43.0


From 872b5fe5ace9eb27e57aba574f5a23438155cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 024/120] fix: harbol_string_replace_cstr: report a failed
 allocation instead of crashing

---
 str/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 4522a2f..1665a7d 100644
--- a/str/str.c
+++ b/str/str.c
@@ -264,7 +264,9 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
 	size_t rep_len = 0;
 	/// first copy contents up to the first offset.
 	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
-- 
2.43.0


From 5260a15bd42131dd950f9eb5e1d39271fc15e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 025/120] fix: harbol_string_cstr_offsets: mark missing
 occurrences with SIZE_MAX and refuse an empty needle

---
 str/str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 1665a7d..905a9ee 100644
--- a/str/str.c
+++ b/str/str.c
@@ -330,14 +330,19 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 }
 
 HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const *const restrict str, char const occurrence[const restrict static 1], size_t offsets[const restrict static 1], size_t const offsets_len) {
-	if( str->cstr==NULL ) {
+	if( str->cstr==NULL || occurrence[0]==0 ) {
 		return false;
 	}
 	
 	size_t offset = 0;
 	for( size_t i=0; i < offsets_len; i++ ) {
 		size_t const curr_offs = offset;
-		offset += _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		size_t const diff      = _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		if( diff==SIZE_MAX ) {
+			offsets[i] = SIZE_MAX;
+			continue;
+		}
+		offset += diff;
 		offsets[i] = offset;
 		offset++;
 	}
-- 
2.43.0


From c8d4e002bbf04c7fc66dc830a9e3fa0e49f3daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 026/120] fix: harbol_string_rm_char: update the length

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 905a9ee..cef6fa5 100644
--- a/str/str.c
+++ b/str/str.c
@@ -403,6 +403,7 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
-- 
2.43.0


From 4d018b621ef1a75707addf0a9cc4ba3afa31359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 027/120] fix: harbol_string: rm_char, trim_spaces, find_char
 and scan accept a string without text

---
 str/str.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index cef6fa5..cfac600 100644
--- a/str/str.c
+++ b/str/str.c
@@ -172,7 +172,7 @@ HARBOL_EXPORT int harbol_string_scan(struct HarbolString const *const restrict s
 
 
 HARBOL_EXPORT int harbol_string_scan_va(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], va_list args) {
-	int const result = vsscanf(str->cstr, fmt, args);
+	int const result = (str->cstr==NULL)? EOF : vsscanf(str->cstr, fmt, args);
 	va_end(args);
 	return result;
 }
@@ -394,6 +394,9 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
@@ -409,6 +412,9 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
@@ -429,7 +435,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From 64b5fa04e30e6a6bffc1a530795600d0f23a3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 028/120] fix: harbol_string_replace_range: do not read past
 the terminator when upper equals the length

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index cfac600..727e1a4 100644
--- a/str/str.c
+++ b/str/str.c
@@ -444,7 +444,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
-- 
2.43.0


From 5149d352c51a3a4f98d390fb0e98f5dbc12b9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 029/120] fix: harbol_string_replace_range: leave the text
 unchanged when memory runs out

---
 str/str.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/str/str.c b/str/str.c
index 727e1a4..f8a8700 100644
--- a/str/str.c
+++ b/str/str.c
@@ -453,13 +453,17 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	size_t const
+		with_len = strlen(with),
+		rest     = str->len - (upper + 1)
+	;
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + with_len + rest) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0], &str->cstr[0], lower);
+	memcpy(&s.cstr[lower], with, with_len);
+	memcpy(&s.cstr[lower + with_len], &str->cstr[upper + 1], rest);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 7e859b75a40afe117b02ac61ba190c54cf4e5362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 030/120] fix: harbol_bytebuffer_insert_zeros: refuse amounts
 that overflow the length

---
 bytebuffer/bytebuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..ebf8434 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -112,7 +112,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 604a8f9e0cefab3ee3d8bf08e73893fc7ede0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 031/120] fix: harbol_tuple: remember whether the tuple is
 packed

---
 tuple/tuple.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..2bacc16 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -51,7 +51,8 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		return false;
 	}
 	
-	tuple->len = packed? total_size : aligned_total;
+	tuple->len    = packed? total_size : aligned_total;
+	tuple->packed = packed;
 	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
-- 
2.43.0


From 969a15c68b3e6067899f2763ec3f911a49646301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 032/120] fix: harbol_tuple: do not truncate field sizes and
 offsets to 16 bits

---
 tuple/tuple.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 2bacc16..693d968 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -35,6 +35,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		prev_size=0
 	;
 	for( size_t i=0; i < len; i++ ) {
+		/// field sizes and offsets are stored as 32 bits each.
+		if( sizes[i] > INT32_MAX || total_size > INT32_MAX ) {
+			return false;
+		}
 		total_size += sizes[i];
 		if( packed || len==1 ) {
 			continue;
@@ -53,10 +57,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	tuple->len    = packed? total_size : aligned_total;
 	tuple->packed = packed;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
-	uint32_t offset = 0;
+	tuple->fields = harbol_array_make(sizeof(uint64_t), len, &( bool ){false});
+	uint64_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
-		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
+		uint64_t const size_pack = (( uint64_t )(sizes[i]) << 32) | offset;
 		harbol_array_insert(&tuple->fields, &size_pack, sizeof size_pack);
 		offset += sizes[i];
 		if( packed || len==1 ) {
@@ -96,8 +100,8 @@ HARBOL_EXPORT void *harbol_tuple_get(struct HarbolTuple const *const tuple, size
 		return NULL;
 	}
 	
-	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
-	return( field_data==NULL || (*field_data & 0xFFFF) >= tuple->len )? NULL : tuple->datum + (*field_data & 0xFFFF);
+	uint64_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
+	return( field_data==NULL || (*field_data & UINT32_MAX) >= tuple->len )? NULL : tuple->datum + (*field_data & UINT32_MAX);
 }
 
 HARBOL_EXPORT void *harbol_tuple_set(struct HarbolTuple const *const tuple, size_t const index, void *const val) {
@@ -110,16 +114,16 @@ HARBOL_EXPORT void *harbol_tuple_set(struct HarbolTuple const *const tuple, size
 		return NULL;
 	}
 	
-	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
-	return memcpy(field, val, *field_data >> 16);
+	uint64_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
+	return memcpy(field, val, *field_data >> 32);
 }
 
 HARBOL_EXPORT size_t harbol_tuple_field_size(struct HarbolTuple const *const tuple, size_t const index) {
 	if( tuple->datum==NULL || tuple->len==0 ) {
 		return 0;
 	}
-	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
-	return( field_data==NULL )? 0 : *field_data >> 16;
+	uint64_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
+	return( field_data==NULL )? 0 : *field_data >> 32;
 }
 
 HARBOL_EXPORT bool harbol_tuple_packed(struct HarbolTuple const *const tuple) {
-- 
2.43.0


From 7e2696654fbdbb1eda4388531a8ee6b8705e8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 033/120] fix: harbol_tuple: a field of size zero must not move
 the following fields to offset zero

---
 tuple/tuple.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 693d968..6f091d4 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -4,6 +4,12 @@
 #	define HARBOL_LIB
 #endif
 
+/// fields are aligned to their own size, up to the size of a pointer.
+static inline size_t _harbol_tuple_align(size_t const offset, size_t const field_size) {
+	size_t const ptr_size = sizeof(intptr_t);
+	return( field_size==0 )? offset : harbol_align_size(offset, field_size >= ptr_size? ptr_size : field_size);
+}
+
 HARBOL_EXPORT struct HarbolTuple harbol_tuple_create(size_t const len, size_t const sizes[const static 1], bool const packed, bool *const restrict res) {
 	struct HarbolTuple tuple = {0};
 	*res = harbol_tuple_init(&tuple, len, sizes, packed);
@@ -19,7 +25,6 @@ HARBOL_EXPORT struct HarbolTuple *harbol_tuple_new(size_t const len, size_t cons
 }
 
 HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t const len, size_t const sizes[const static 1], bool const packed) {
-	size_t const ptr_size = sizeof(intptr_t);
 	size_t largest_memb = 0;
 	
 	/// first we find the largest member of the tuple:
@@ -44,12 +49,12 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 			continue;
 		}
 		size_t const offalign = (i+1 < len)? sizes[i+1] : prev_size;
-		total_size = harbol_align_size(total_size, offalign >= ptr_size? ptr_size : offalign);
+		total_size = _harbol_tuple_align(total_size, offalign);
 		prev_size = sizes[i];
 	}
 	
 	/// now do a final size alignment with the largest member.
-	size_t const aligned_total = harbol_align_size(total_size, largest_memb >= ptr_size? ptr_size : largest_memb);
+	size_t const aligned_total = _harbol_tuple_align(total_size, largest_memb);
 	tuple->datum = calloc(packed? total_size : aligned_total, sizeof *tuple->datum);
 	if( tuple->datum==NULL ) {
 		return false;
@@ -67,7 +72,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 			continue;
 		}
 		size_t const offalign = (i+1<len)? sizes[i+1] : prev_size;
-		offset = harbol_align_size(offset, offalign >= ptr_size? ptr_size : offalign);
+		offset = _harbol_tuple_align(offset, offalign);
 		prev_size = sizes[i];
 	}
 	return true;
-- 
2.43.0


From 48696ceb1269bee326a67d4cbdd84c422637a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 034/120] fix: harbol_tuple_init: report a failed allocation of
 the field table

---
 tuple/tuple.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 6f091d4..fdb5250 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -62,7 +62,12 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	tuple->len    = packed? total_size : aligned_total;
 	tuple->packed = packed;
-	tuple->fields = harbol_array_make(sizeof(uint64_t), len, &( bool ){false});
+	bool made_fields = false;
+	tuple->fields = harbol_array_make(sizeof(uint64_t), len, &made_fields);
+	if( !made_fields ) {
+		harbol_tuple_clear(tuple);
+		return false;
+	}
 	uint64_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint64_t const size_pack = (( uint64_t )(sizes[i]) << 32) | offset;
-- 
2.43.0


From 4097623ffa5eb7ca6b68a8240b402540c75d4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 035/120] fix: harbol_tree_set: allocate room for the new value
 instead of overflowing the old one

---
 tree/tree.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..71219f8 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,14 +59,13 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
-			return false;
-		}
+	uint8_t *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return false;
 	}
-	memcpy(tree->data, val, datasize);
-	tree->len = datasize;
+	free(tree->data);
+	tree->data = data;
+	tree->len  = datasize;
 	return true;
 }
 
-- 
2.43.0


From ee9ba6d3334ad60bf2cae0bff690414392120684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 036/120] fix: harbol_tree: compare value lengths when
 searching children by value

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index 71219f8..69698ca 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -124,7 +124,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From 9a056aec5c84f64c0d88c802f20ef7c7ece001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 037/120] fix: harbol_bistack_alloc_front/_back: refuse
 requests larger than the arena and align back blocks

---
 allocators/bistack/bistack.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..77daf87 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( size > bistk->back || bistk->front + aligned_size >= bistk->back ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -59,12 +59,16 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 		return NULL;
 	}
 	
-	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( size > bistk->back ) {
+		return NULL;
+	}
+	/// round down so that the block is aligned whatever the size of the arena is.
+	size_t const new_back = (bistk->back - size) & ~(sizeof new_back - 1);
+	if( new_back <= bistk->front ) {
 		return NULL;
 	}
-	bistk->back -= aligned_size;
+	bistk->back = new_back;
 	return bistk->mem + bistk->back;
 }
 
-- 
2.43.0


From 154251bc26e49a66267fef68d24a374c5fd4949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 038/120] fix: harbol_region_alloc: align blocks whatever the
 size of the region is

---
 allocators/region/region.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/allocators/region/region.c b/allocators/region/region.c
index 55e6141..71160fc 100644
--- a/allocators/region/region.c
+++ b/allocators/region/region.c
@@ -39,15 +39,14 @@ HARBOL_EXPORT void harbol_region_clear(struct HarbolRegion *const region) {
 }
 
 HARBOL_EXPORT void *harbol_region_alloc(struct HarbolRegion *const region, size_t const size) {
-	if( region->mem==NULL || size==0 || size > region->size ) {
+	if( region->mem==NULL || size==0 || size > region->offs ) {
 		return NULL;
 	}
 	
-	size_t const alloc_size = harbol_align_size(size, sizeof(uintptr_t));
-	if( region->offs - alloc_size >= region->size ) {
-		return NULL;
-	}
-	region->offs -= alloc_size;
+	/// round down so that the block is aligned whatever the size of the region is.
+	size_t const new_offs   = (region->offs - size) & ~(sizeof(uintptr_t) - 1);
+	size_t const alloc_size = region->offs - new_offs;
+	region->offs = new_offs;
 	return memset(region->mem + region->offs, 0, alloc_size);
 }
 
-- 
2.43.0


From 3b6ee0496725db5080ef9424b6ab7c8ff0cc407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 039/120] fix: harbol_objpool: refuse overflowing object sizes
 and pointers that are no slot of the pool

---
 allocators/objpool/objpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..dc27558 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -6,7 +6,7 @@
 
 
 HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpool, size_t const objsize, size_t const len) {
-	if( len==0 || objsize==0 ) {
+	if( len==0 || objsize==0 || objsize > SIZE_MAX - sizeof(size_t) ) {
 		return false;
 	}
 	
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) || (p - objpool->mem) % objpool->objsize != 0 ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From 63903ecf136dadff053d73069a1305031399220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 040/120] fix: harbol_mempool_mem_remaining: count the
 remaining stack space instead of its negation

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..9db052c 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -294,7 +294,7 @@ HARBOL_EXPORT bool harbol_mempool_cleanup(struct HarbolMemPool *const restrict m
 }
 
 HARBOL_EXPORT size_t harbol_mempool_mem_remaining(struct HarbolMemPool const *mempool) {
-	size_t total_remaining = mempool->stack.mem - (mempool->stack.mem + mempool->stack.offs);
+	size_t total_remaining = harbol_region_remaining(&mempool->stack);
 	for( struct HarbolMemNode *n = mempool->large.head; n != NULL; n = n->next ) {
 		total_remaining += n->size;
 	}
-- 
2.43.0


From 58574d2d4b13652110043b325c5a7bbe6a5088c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 041/120] fix: harbol_mempool_init: report a failed allocation

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 9db052c..8773f71 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -165,7 +165,7 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 		return false;
 	
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != NULL;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
-- 
2.43.0


From 94cf2ad1c26c3512d0f03ff51ee1313acd3d7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 042/120] fix: harbol_freelist_insert: insert before the next
 higher node instead of losing the rest of the list

---
 allocators/mempool/mempool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 8773f71..13f89ec 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -29,6 +29,7 @@ HARBOL_EXPORT void harbol_memnode_replace(struct HarbolMemNode *const old, struc
 HARBOL_EXPORT void harbol_freelist_insert_before(struct HarbolFreeList *const list, struct HarbolMemNode *const curr, struct HarbolMemNode *const insert) {
 	insert->next = curr;
 	if( curr->prev==NULL ) {
+		insert->prev = NULL;
 		list->head = insert;
 	} else {
 		insert->prev = curr->prev;
@@ -115,7 +116,7 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 				}
 				return;
 			} else {
-				harbol_freelist_insert_before(list, node, iter);
+				harbol_freelist_insert_before(list, iter, node);
 				list->len++;
 				return;
 			}
-- 
2.43.0


From e20eb5283a3a637133664e1ac08fdcdf18fd08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 043/120] fix: harbol_freelist_insert: keep the links of
 coalesced and transferred nodes consistent

---
 allocators/mempool/mempool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 13f89ec..b84d8f4 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -47,6 +47,7 @@ static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool,
 
 HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, struct HarbolFreeList *const list, struct HarbolMemNode *const node, bool const is_bucket) {
 	if( list->head==NULL ) {
+		node->next = node->prev = NULL;
 		list->head = node;
 		list->len++;
 		return;
@@ -82,6 +83,7 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 				// we reached the end of the free list -> append the node
 				iter->next = node;
 				node->prev = iter;
+				node->next = NULL;
 				list->len++;
 				return;    
             }
@@ -97,6 +99,9 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 					node->size += list->head->size;
 					node->next = list->head->next;
 					node->prev = NULL;
+					if( node->next != NULL ) {
+						node->next->prev = node;
+					}
 					list->head = node;
 					if( is_bucket ) {
 						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, list->head));
-- 
2.43.0


From 6680487ba05ccef8789ef1be3934577501172d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 044/120] fix: harbol_mempool: compare node addresses with the
 address of the stack top, not its offset

---
 allocators/mempool/mempool.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index b84d8f4..5bf2df4 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -46,6 +46,11 @@ static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool,
 
 
 HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, struct HarbolFreeList *const list, struct HarbolMemNode *const node, bool const is_bucket) {
+	/// the list is sorted by address: only its head can border the stack.
+	while( list->head != NULL && ( uint8_t* )(list->head)==mempool->stack.mem + mempool->stack.offs ) {
+		mempool->stack.offs += list->head->size;
+		harbol_freelist_remove(list, list->head);
+	}
 	if( list->head==NULL ) {
 		node->next = node->prev = NULL;
 		list->head = node;
@@ -54,16 +59,6 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 	}
 	
 	for( struct HarbolMemNode *iter = list->head; iter != NULL; iter = iter->next ) {
-		if( ( uintptr_t )(iter)==mempool->stack.offs ) {
-			mempool->stack.offs += iter->size;
-			harbol_freelist_remove(list, iter);
-			iter = list->head;
-			if( iter==NULL ) {
-				list->head = node;    
-				return;
-            }
-			continue;
-		}
 		uintptr_t const inode = ( uintptr_t )(node);
 		uintptr_t const iiter = ( uintptr_t )(iter);
 		uintptr_t const iter_end = iiter + iter->size;
@@ -280,7 +275,7 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 		return false;
 	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
+	if( ( uint8_t* )(mem_node)==mempool->stack.mem + mempool->stack.offs ) {
 		mempool->stack.offs += mem_node->size;
 	} else {
 		/// try to place it into bucket or large freelist.
-- 
2.43.0


From 9ac97c011eb8c082287d9eae64b573fc616a4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 045/120] fix: harbol_mempool_free/_realloc: refuse foreign
 pointers before reading their header

---
 allocators/mempool/mempool.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 5bf2df4..979b430 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -220,6 +220,16 @@ static NO_NULL void *_get_stknode(struct HarbolMemPool *const mempool, size_t co
 	}
 }
 
+/// whether a pointer can have been handed out by the pool.
+static NO_NULL bool _harbol_mempool_has(struct HarbolMemPool const *const mempool, void const *const ptr) {
+	uintptr_t const
+		p     = ( uintptr_t )(ptr),
+		start = ( uintptr_t )(mempool->stack.mem) + mempool->stack.offs,
+		end   = ( uintptr_t )(mempool->stack.mem) + mempool->stack.size
+	;
+	return mempool->stack.mem != NULL && p >= start + sizeof(struct HarbolMemNode) && p < end;
+}
+
 HARBOL_EXPORT void *harbol_mempool_alloc(struct HarbolMemPool *const mempool, size_t const size) {
 	if( size==0 || size > mempool->stack.size ) {
 		return NULL;
@@ -246,7 +256,7 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 	} else if( ptr==NULL ) {
 		/// NULL ptr should make this work like regular alloc.
 		return harbol_mempool_alloc(mempool, size);
-	} else if( ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
+	} else if( !_harbol_mempool_has(mempool, ptr) ) {
 		return NULL;
 	}
 	
@@ -262,7 +272,7 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 }
 
 HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict mempool, void *const ptr) {
-	if( ptr==NULL || ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
+	if( ptr==NULL || !_harbol_mempool_has(mempool, ptr) ) {
 		return false;
 	}
 	/// behind the actual pointer data is the allocation info.
@@ -270,8 +280,7 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
 	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size), ( uintptr_t )(mempool->stack.offs))
-			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
+	if( !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
 		return false;
 	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-- 
2.43.0


From e987e1b37fcd834258bd000c21e7173b15d6ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 046/120] fix: get_str_rune_len: stop at the terminator when
 the last sequence is truncated

---
 lex/lex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..f311011 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -60,8 +60,12 @@ HARBOL_EXPORT size_t get_utf8_len(char const c) {
 HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
+		/// a sequence has 4 bytes at most and never includes the terminator.
 		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		i++;
+		for( size_t n=1; read <= 4 && n < read && cstr[i] != 0; n++ ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
-- 
2.43.0


From 9fb4c2880d347690d7750c1ecd013361b6b4a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 047/120] fix: utf8_to_rune_iter: do not read beyond the given
 length

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index f311011..e9a73ae 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -398,7 +398,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From aef41dd64587364d895dce2840cd5407b4462482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 048/120] fix: utf8_str_to_rune: accept a string without text

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index e9a73ae..0cd3249 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -373,7 +373,7 @@ HARBOL_EXPORT int32_t *utf8_cstr_to_rune(char const cstr[const restrict static 1
 }
 
 HARBOL_EXPORT int32_t *utf8_str_to_rune(struct HarbolString const *const str, size_t *const rune_len) {
-	return utf8_cstr_to_rune(str->cstr, str->len, rune_len);
+	return utf8_cstr_to_rune(str->cstr==NULL? "" : str->cstr, str->len, rune_len);
 }
 
 HARBOL_EXPORT char *rune_to_utf8_cstr(int32_t const runes[static 1], size_t *const cstr_len) {
-- 
2.43.0


From a96fffd90acb0b73281813618f6625319855bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 049/120] fix: skip_string_literal/skip_multiquote_string: stop
 at the terminator when it follows the escape character

---
 lex/lex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0cd3249..055583e 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -103,10 +103,13 @@ HARBOL_EXPORT char const *skip_chars_until_newline(char const str[static 1], boo
 }
 
 HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char const esc) {
+	if( *str==0 ) {
+		return str;
+	}
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -173,7 +176,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From ee98dda751fff10cc17fa05fb673d8d5133dbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 050/120] fix: single line comment scanners: stop at the
 terminator when a continued line is the last one

---
 lex/lex.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 055583e..378e30d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -118,10 +118,13 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			do {
+				begin++;
+			} while( *begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		begin++;
 	}
@@ -145,7 +148,12 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			do {
+				begin++;
+			} while( *begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
+			}
 			memset(str, ' ', begin-str);
 			str = ++begin;
 		} else {
@@ -188,12 +196,13 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
 			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
+			for( str++; *str != 0 && *str != '\n'; str++ ) {
 				harbol_string_add_char(buf, *str);
 			}
-			if( *str=='\n' ) {
-				++*lines;
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-- 
2.43.0


From 26fb77251ab705f03e341fa4b2d6c1e0826ebc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 051/120] fix: multi line comment scanners: accept an empty
 text

---
 lex/lex.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 378e30d..bc61a4e 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -131,7 +131,7 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
-	char const *begin = str + 1;
+	char const *begin = str + (*str != 0);
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			++*lines;
@@ -165,7 +165,7 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
-	char *begin = str + 1;
+	char *begin = str + (*str != 0);
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			memset(str, ' ', begin-str);
@@ -211,7 +211,9 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
-	harbol_string_add_char(buf, *str++);
+	if( *str != 0 ) {
+		harbol_string_add_char(buf, *str++);
+	}
 	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
 		if( *str=='\n' ) {
 			++*lines;
-- 
2.43.0


From 4639fd494eb1a170c76f19c67ecd6d85d4c6515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 052/120] fix: lex_multiquote_string: keep newlines as they are
 and report an unterminated string

---
 lex/lex.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index bc61a4e..e6bb519 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -234,20 +234,18 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 	}
 	while( str[0] != 0 && strncmp(str, quote, quote_len) ) {
 		int_fast8_t const c = *str;
-		if( c==0 ) {
-			return false;
-		} else if( c=='\n' ) {
+		if( c=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
 	}
-	if( !strncmp(str, quote, quote_len) ) {
-		str += quote_len;
+	if( *str==0 ) {
+		*end = str;
+		return false;
 	}
-	*end = str;
+	*end = str + quote_len;
 	return true;
 }
 
-- 
2.43.0


From 1a09883b381fc56cf8cd643e596e30d1748bf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 053/120] fix: lex_*_style_str: report a text that ends in a
 backslash instead of reading past its end

---
 lex/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index e6bb519..0f21c51 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1417,6 +1417,10 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			}
 			if( raw ) {
 				harbol_string_add_char(buf, c);
 				harbol_string_add_char(buf, esc);
-- 
2.43.0


From 016545d7ff847eb9f3a24371407b45a5ba029997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 054/120] fix: lex_octal_escape_char: end the escape after its
 third digit

---
 lex/lex.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0f21c51..aee3aa0 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -451,18 +451,15 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 	if( !is_octal(*str) ) {
 		r = -1;
 	} else {
-		for( ; *str != 0; count++ ) {
+		/// an octal escape has 3 digits at most.
+		for( ; *str != 0 && count < 3; count++ ) {
 			int_fast8_t const c = *str;
-			if( count > 3 ) {
-				return -1; /// out of range.
-			} else {
-				switch( c ) {
-					case '0': case '1': case '2': case '3':
-					case '4': case '5': case '6': case '7':
-						r = (r << 3) | (c - '0'); break;
-					default:
-						goto exit;
-				}
+			switch( c ) {
+				case '0': case '1': case '2': case '3':
+				case '4': case '5': case '6': case '7':
+					r = (r << 3) | (c - '0'); break;
+				default:
+					goto exit;
 			}
 			str++;
 		}
-- 
2.43.0


From 901dd472c23b06fc674a2ea936dacd2646f6998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 055/120] fix: lex_hex_escape_char/lex_unicode_char: refuse
 values beyond the last code point

---
 lex/lex.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index aee3aa0..d917be5 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -31,7 +31,7 @@ HARBOL_EXPORT bool is_valid_unicode(int32_t const u) {
 	uint32_t const c = ( uint32_t )(u);
 	/// C11 6.4.3p2: U+D800 to U+DFFF are reserved for surrogate pairs.
 	/// A codepoint within the range cannot be a valid character.
-	if( 0xD800u <= c && c <= 0xDFFFu ) {
+	if( (0xD800u <= c && c <= 0xDFFFu) || c > 0x10FFFFu ) {
 		return false;
 	}
 	/// It's not allowed to encode ASCII characters using \U or \u.
@@ -426,6 +426,10 @@ HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const *
 	} else {
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
+			if( r > 0x10FFFF && is_hex(c) ) { /// out of range.
+				str++;
+				continue;
+			}
 			switch( c ) {
 				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
@@ -442,7 +446,7 @@ HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const *
 	}
 exit:;
 	*end = str;
-	return r;
+	return ( r > 0x10FFFF )? -1 : r;
 }
 
 HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const **const end) {
@@ -470,7 +474,7 @@ exit:;
 }
 
 HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **const end, size_t const encoding) {
-	int32_t r = 0;
+	uint32_t r = 0;
 	for( size_t i=0; i < encoding*2; i++ ) {
 		int_fast8_t const c = *str;
 		switch( c ) {
-- 
2.43.0


From 0ce22052257b82af384afd1fe50cbc86c9dd2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 056/120] fix: number scanners leave end unset on empty text
 and step past the terminator after a lone 0

---
 lex/lex.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index d917be5..8d80505 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -498,6 +498,7 @@ exit:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		/// missing initial 0.
@@ -510,7 +511,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -697,6 +700,7 @@ lex_c_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -707,7 +711,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -809,6 +815,7 @@ lex_go_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -896,6 +903,7 @@ lex_c_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -906,7 +914,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -956,6 +966,7 @@ lex_go_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -966,7 +977,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1048,6 +1061,7 @@ lex_c_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1059,7 +1073,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
@@ -1107,6 +1123,7 @@ lex_go_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1274,6 +1291,7 @@ lex_c_style_decimal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
-- 
2.43.0


From 12ba9f3bcb00537d9b0ecb2864f9b75af6396495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 057/120] fix: lex_*_style_number report success with end unset
 when the text is not a number

---
 lex/lex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 8d80505..fa2deae 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1406,7 +1406,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 			return lex_c_style_decimal(str, end, buf, is_float);
 		}
 	}
-	return HarbolLexNoErr;
+	*end = str;
+	return( *str==0 )? HarbolLexEoF : HarbolLexBadGylph;
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
@@ -1424,7 +1425,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 			return lex_go_style_decimal(str, end, buf, is_float);
 		}
 	}
-	return HarbolLexNoErr;
+	*end = str;
+	return( *str==0 )? HarbolLexEoF : HarbolLexBadGylph;
 }
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
-- 
2.43.0


From 7f14e48e86dedbb0cb4ac3821e514011e2ac350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 058/120] fix: lex_c_style_number accepts 008 because a second
 leading zero skips the octal scanner

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index fa2deae..f55ade7 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1395,7 +1395,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 				case 'x': case 'X': return lex_c_style_hex(str, end, buf, is_float);
 				case 'b': case 'B': return lex_c_style_binary(str, end, buf);
 				case '.':           return lex_c_style_decimal(str, end, buf, is_float);
-				case '1': case '2': case '3': case '4':
+				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
 									return lex_c_style_octal(str, end, buf, is_float);
 				default:            return lex_c_style_decimal(str, end, buf, is_float);
-- 
2.43.0


From fd6de70a3d0678dc5323a5966ba8857a5a2a45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 059/120] fix: binary and octal scanners accept a prefix
 without any digits

---
 lex/lex.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index f55ade7..cfa0955 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -923,6 +923,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 		harbol_string_add_char(buf, *str++);
 	}
 	
+	bool   got_digit = false;
 	size_t lit_flags = 0;
 	size_t const
 		digit_sep = 1u
@@ -944,6 +945,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 			case '4': case '5': case '6': case '7':
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
+				got_digit  = true;
 				break;
 			default: /// bad digit/glyph.
 				harbol_string_add_char(buf, chr);
@@ -954,7 +956,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 		str++;
 	}
 	
-	if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
+	if( !got_digit ) { /// prefix without any digits.
+		result = HarbolLexBadGylph;
+		goto lex_go_style_octal_err;
+	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_octal_err;
 	}
@@ -986,6 +991,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 		harbol_string_add_char(buf, *str++);
 	}
 	
+	bool   got_digit = false;
 	size_t lit_flags = 0;
 	size_t const
 		uflag     = 1u << 0u,
@@ -1039,6 +1045,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 					harbol_string_add_char(buf, chr);
 				}
 				lit_flags &= ~digit_sep;
+				got_digit  = true;
 				break;
 			default: /// bad digit/glyph.
 				harbol_string_add_char(buf, chr);
@@ -1049,7 +1056,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 		str++;
 	}
 	
-	if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
+	if( !got_digit ) { /// prefix without any digits.
+		result = HarbolLexBadGylph;
+		goto lex_c_style_binary_err;
+	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_c_style_binary_err;
 	}
@@ -1081,6 +1091,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 		harbol_string_add_char(buf, *str++);
 	}
 	
+	bool   got_digit = false;
 	size_t lit_flags = 0;
 	size_t const
 		digit_sep = 1u
@@ -1101,6 +1112,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 			case '0': case '1':
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
+				got_digit  = true;
 				break;
 			default: /// bad digit/glyph.
 				result = HarbolLexBadGylph;
@@ -1111,7 +1123,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 		str++;
 	}
 	
-	if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
+	if( !got_digit ) { /// prefix without any digits.
+		result = HarbolLexBadGylph;
+		goto lex_go_style_binary_err;
+	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_binary_err;
 	}
-- 
2.43.0


From 255de83f739ed6a20ef56d41853da5e08f384dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 060/120] fix: decimal scanners swallow a plus or minus that is
 not an exponent sign

---
 lex/lex.c | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index cfa0955..2a8d3d7 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1172,17 +1172,15 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & (math_op|got_exp_num)) || lit_flags==0 ) {
+				if( !(lit_flags & flt_e_flag) || (lit_flags & (math_op|got_exp_num)) ) { /// only the exponent has a sign.
+					goto lex_c_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_c_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					lit_flags |= math_op;
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'F': case 'f':
@@ -1290,7 +1288,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		}
 		str++;
 	}
-	
+lex_c_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
@@ -1336,17 +1334,15 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & math_op) || lit_flags==0 ) {
+				if( !(lit_flags & flt_e_flag) || (lit_flags & (math_op|got_exp_num)) ) { /// only the exponent has a sign.
+					goto lex_go_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_go_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_go_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					lit_flags |= math_op;
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'E': case 'e':
@@ -1390,7 +1386,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		}
 		str++;
 	}
-	
+lex_go_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
-- 
2.43.0


From 4bc596d3ece786f2923f4a18621686bbf11b05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 061/120] fix: decimal scanners accept an exponent without
 digits when something else follows the mark

---
 lex/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 2a8d3d7..19f6c4a 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1289,7 +1289,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 lex_c_style_decimal_end:;
-	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
+	if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
@@ -1387,7 +1387,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 lex_go_style_decimal_end:;
-	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
+	if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
-- 
2.43.0


From ef8ffb57c8182281761ad0d833175963471bfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 062/120] fix: decimal scanners accept a dot, exponent or
 suffix after an exponent or suffix

---
 lex/lex.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 19f6c4a..7174c13 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1157,7 +1157,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		int_fast8_t const chr = *str;
 		switch( chr ) {
 			case '.':
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_f_flag|flt_e_flag|uflag|long1) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_c_style_decimal_err;
@@ -1188,7 +1188,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingDotOrExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & flt_f_flag ) { /// already have an F float suffix.
+				} else if( lit_flags & (flt_f_flag|long1) ) { /// already have an F float suffix.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltSuffix;
 					goto lex_c_style_decimal_err;
@@ -1206,7 +1206,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & flt_f_flag ) { /// bad float suffix. E should be before F.
+				} else if( lit_flags & (flt_f_flag|uflag|long1) ) { /// bad float suffix. E should be before F.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExpAfterFltSuffix;
 					goto lex_c_style_decimal_err;
@@ -1243,7 +1243,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_decimal_err;
-				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long2|uflag)) ) { /// int suffix on float literal.
+				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long1|uflag|flt_f_flag)) ) { /// int suffix on float literal.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntSuffixOnFlt;
 					goto lex_c_style_decimal_err;
@@ -1320,7 +1320,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_go_style_decimal_err;
-- 
2.43.0


From c1919ebb15c4a8c7673884e404dc6e8318b30b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 063/120] fix: lex_c_style_octal accepts a dot after an integer
 suffix or digit separator

---
 lex/lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 7174c13..df79001 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -846,6 +846,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 				}
 				break;
 			case '.':
+				if( lit_flags != 0 ) { /// dot after an int suffix or a digit separator.
+					harbol_string_add_char(buf, chr);
+					result = ( lit_flags & digit_sep )? HarbolLexDigitSepNearDot : HarbolLexExtraFltDot;
+					goto lex_c_style_octal_err;
+				}
 				return lex_c_style_decimal(str, end, buf, is_float);
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
-- 
2.43.0


From dcc122b4c42af7959baa97fc0f590c7e7d8ee10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 064/120] fix: hex scanners accept repeated dots and exponents,
 exponents without mantissa or after suffixes

---
 lex/lex.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index df79001..1088e7a 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -541,6 +541,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingHexB4dot;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (flt_dot|exponent_p|uflag|long1) ) { /// dot after a dot, exponent or suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
@@ -557,6 +561,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyPs;
 					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & (one_hex|flt_dot)) ) { /// missing at least one hex number before hex exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexHexNoDigitsB4Exp;
+					goto lex_c_style_hex_err;
+				} else if( lit_flags & (uflag|long1) ) { /// exponent after int suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearExp;
@@ -733,7 +745,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// dot after a dot or exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_go_style_hex_err;
+				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_go_style_hex_err;
@@ -744,7 +760,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'P': case 'p':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
+				if( lit_flags & exponent_p ) { /// too many P's.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexTooManyPs;
+					goto lex_go_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexHexNoDigitsB4Exp;
 					goto lex_go_style_hex_err;
-- 
2.43.0


From cffcde802a5c297baa830761a32b72bf00710720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 065/120] fix: hex scanners take a misplaced sign into the
 literal and lex_go_style_hex accepts missing digits

---
 lex/lex.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 1088e7a..699b5ed 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -580,13 +580,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
-					goto lex_c_style_hex_err;
-				} else if( !(lit_flags & (exponent_p|flt_dot)) ) { /// bad +/- placement.
+				if( (lit_flags & exponent_p) && (lit_flags & (math_op|one_hex)) ) { /// the exponent is complete.
+					goto lex_c_style_hex_end;
+				} else if( !(lit_flags & exponent_p) ) { /// bad +/- placement.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexBadPlusMinusPlace;
 					goto lex_c_style_hex_err;
-				} else if( !is_decimal(str[1]) && !(lit_flags & math_op) ) { /// no number after exponent?
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_hex_err;
@@ -694,6 +694,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		}
 		str++;
 	}
+lex_c_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// missing exponent...
 		result = HarbolLexHexFltNoExp;
 		goto lex_c_style_hex_err;
@@ -774,23 +775,20 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 					goto lex_go_style_hex_err;
 				} else {
 					lit_flags |= exponent_p;
+					lit_flags &= ~one_hex;
 					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
+				if( !(lit_flags & exponent_p) || (lit_flags & (math_op|one_hex)) ) { /// only the exponent has a sign.
+					goto lex_go_style_hex_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					result = HarbolLexNoNumAfterExp;
+					harbol_string_add_char(buf, chr);
 					goto lex_go_style_hex_err;
-				} else if( lit_flags & (exponent_p|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						result = HarbolLexNoNumAfterExp;
-						harbol_string_add_char(buf, chr);
-						goto lex_go_style_hex_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
 				} else {
-					goto lex_go_style_hex_err;
+					lit_flags |= math_op;
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
@@ -820,9 +818,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		}
 		str++;
 	}
+lex_go_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
+	} else if( !(lit_flags & one_hex) ) { /// no digits at all or none in the exponent.
+		result = ( lit_flags & exponent_p )? HarbolLexNoNumAfterExp : HarbolLexHexMissingDigits;
+		goto lex_go_style_hex_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_hex_err;
-- 
2.43.0


From 2fd824d7af4a4244f34918c4cc7bdfc2192841dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 066/120] fix: hex scanners accept hex letters in the exponent
 and integer or repeated suffixes on hex floats

---
 lex/lex.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 699b5ed..ab587a6 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -600,6 +600,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyUs;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (flt_dot|exponent_p) ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & long1) && (str[1]=='L'||str[1]=='l') ) { /// U between L's.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexUBetweenLs;
@@ -614,6 +618,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_hex_err;
+				} else if( (lit_flags & exponent_p) && (lit_flags & (long1|f_suffix)) ) { /// only one suffix on a float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexFltExtraSuffix;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= ( (lit_flags & long1)? long2 : long1 );
 					harbol_string_add_char(buf, chr);
@@ -628,15 +636,15 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						goto lex_c_style_hex_err;
 					} else if( (chr=='F'||chr=='f') ) { /// invalid hex float suffix!
 						harbol_string_add_char(buf, chr);
-						if( lit_flags & f_suffix ) {
+						if( lit_flags & (f_suffix|long1|uflag) ) {
 							result = HarbolLexFltExtraSuffix;
 							goto lex_c_style_hex_err;
 						} else {
 							lit_flags |= f_suffix;
 							break;
 						}
-					} else if( lit_flags & f_suffix ) { /// also bad hex float suffix.
-						result = HarbolLexFltExtraSuffix;
+					} else { /// exponents are decimal; also bad hex float suffix.
+						result = ( lit_flags & f_suffix )? HarbolLexFltExtraSuffix : HarbolLexBadGylph;
 						harbol_string_add_char(buf, chr);
 						goto lex_c_style_hex_err;
 					}
@@ -793,6 +801,12 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
 			case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
+				if( lit_flags & exponent_p ) { /// exponents are decimal.
+					result = HarbolLexBadGylph;
+					harbol_string_add_char(buf, chr);
+					goto lex_go_style_hex_err;
+				}
+				/// fallthrough
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9':
 				if( !(lit_flags & one_hex) ) {
-- 
2.43.0


From 2a33cd7a032b858602219facafefc3fdeba89b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 067/120] fix: decimal scanners accept a lone dot or exponent
 as a number

---
 lex/lex.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index ab587a6..ed876c2 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -848,6 +848,8 @@ lex_go_style_hex_err:;
 	return result;
 }
 
+static NO_NULL enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float, bool got_digit);
+
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
@@ -887,7 +889,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 					result = ( lit_flags & digit_sep )? HarbolLexDigitSepNearDot : HarbolLexExtraFltDot;
 					goto lex_c_style_octal_err;
 				}
-				return lex_c_style_decimal(str, end, buf, is_float);
+				return _lex_c_style_decimal(str, end, buf, is_float, true);
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
 					harbol_string_add_char(buf, chr);
@@ -1176,7 +1178,7 @@ lex_go_style_binary_err:;
 	return result;
 }
 
-HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
+static NO_NULL enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float, bool got_digit) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
 		*end = str;
@@ -1297,6 +1299,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 			case '5': case '6': case '7': case '8': case '9':
 				if( lit_flags & flt_e_flag ) {
 					lit_flags |= got_exp_num;
+				} else {
+					got_digit = true;
 				}
 				if( lit_flags & (uflag|long1|long2) ) { /// numbers after int suffix.
 					harbol_string_add_char(buf, chr);
@@ -1330,7 +1334,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 lex_c_style_decimal_end:;
-	if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// float missing exponent!
+	if( !got_digit ) { /// a dot or exponent without a number.
+		result = HarbolLexBadGylph;
+		goto lex_c_style_decimal_err;
+	} else if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
@@ -1342,12 +1349,17 @@ lex_c_style_decimal_err:;
 	return result;
 }
 
+HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
+	return _lex_c_style_decimal(str, end, buf, is_float, false);
+}
+
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
 	}
+	bool   got_digit = false;
 	size_t lit_flags = 0;
 	size_t const
 		flt_dot = 1u << 0u,
@@ -1405,6 +1417,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 			case '5': case '6': case '7': case '8': case '9':
 				if( lit_flags & flt_e_flag ) {
 					lit_flags |= got_exp_num;
+				} else {
+					got_digit = true;
 				}
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
@@ -1428,7 +1442,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 lex_go_style_decimal_end:;
-	if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// e mark missing exponent!
+	if( !got_digit ) { /// a dot or exponent without a number.
+		result = HarbolLexBadGylph;
+		goto lex_go_style_decimal_err;
+	} else if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
-- 
2.43.0


From 6d6222fb322f0094075705d5c5b4481b76fbe3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 068/120] fix: convert_runes_to_base_int is declared but
 defined under another name

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index ed876c2..b22b0e7 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1737,7 +1737,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From 33a7130e8e9ca2c9da54d35b739ee97378021a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 069/120] fix: convert_*_to_base_* overflow silently instead of
 reporting failure

---
 lex/lex.c | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index b22b0e7..cbe641f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1743,7 +1743,7 @@ HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        numerals[const restrict static 1],
 	bool *const restrict res
 ) {
-	intmax_t value = 0;
+	uintmax_t value = 0;
 	int sign = 1;
 	for( size_t i=0; runes[i] != 0; i++ ) {
 		if( runes[i]=='-' ) {
@@ -1753,14 +1753,23 @@ HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 		
 		size_t const idx = find_rune_in_runes(numerals, runes[i]);
 		if( idx != SIZE_MAX ) {
-			value = value * base + idx;
+			uintmax_t const digit = idx;
+			if( base==0 || value > (UINTMAX_MAX - digit) / base ) { /// doesn't fit.
+				*res = false;
+				return 0;
+			}
+			value = value * base + digit;
 			continue;
 		}
 		*res = false;
 		return value;
 	}
+	if( value > ( uintmax_t )(INTMAX_MAX) + (sign < 0) ) { /// doesn't fit.
+		*res = false;
+		return 0;
+	}
 	*res = true;
-	return value * sign;
+	return( sign > 0 || value==0 )? ( intmax_t )(value) : -( intmax_t )(value - 1) - 1;
 }
 
 HARBOL_EXPORT uintmax_t convert_runes_to_base_uint(
@@ -1773,7 +1782,12 @@ HARBOL_EXPORT uintmax_t convert_runes_to_base_uint(
 	for( size_t i=0; runes[i] != 0; i++ ) {
 		size_t const idx = find_rune_in_runes(numerals, runes[i]);
 		if( idx != SIZE_MAX ) {
-			value = value * base + idx;
+			uintmax_t const digit = idx;
+			if( base==0 || value > (UINTMAX_MAX - digit) / base ) { /// doesn't fit.
+				*res = false;
+				return 0;
+			}
+			value = value * base + digit;
 			continue;
 		}
 		*res = false;
@@ -1796,7 +1810,7 @@ HARBOL_EXPORT int32_t *runes_from_stream(FILE *const restrict stream, size_t *co
 }
 
 HARBOL_EXPORT intmax_t convert_cstr_to_base_int(char const cstr[const static 1], uint_fast8_t const base, char const numerals[const static 1], bool *const restrict res) {
-	intmax_t value = 0;
+	uintmax_t value = 0;
 	int sign = 1;
 	for( size_t i=0; cstr[i] != 0; i++ ) {
 		if( cstr[i]=='-' ) {
@@ -1806,14 +1820,23 @@ HARBOL_EXPORT intmax_t convert_cstr_to_base_int(char const cstr[const static 1],
 		
 		char const *const p = strchr(numerals, cstr[i]);
 		if( p != NULL ) {
-			value = value * base + (p - &numerals[0]);
+			uintmax_t const digit = ( size_t )(p - &numerals[0]);
+			if( base==0 || value > (UINTMAX_MAX - digit) / base ) { /// doesn't fit.
+				*res = false;
+				return 0;
+			}
+			value = value * base + digit;
 			continue;
 		}
 		*res = false;
 		return value;
 	}
+	if( value > ( uintmax_t )(INTMAX_MAX) + (sign < 0) ) { /// doesn't fit.
+		*res = false;
+		return 0;
+	}
 	*res = true;
-	return value * sign;
+	return( sign > 0 || value==0 )? ( intmax_t )(value) : -( intmax_t )(value - 1) - 1;
 }
 
 HARBOL_EXPORT uintmax_t convert_cstr_to_base_uint(char const cstr[], uint_fast8_t const base, char const numerals[const static 1], bool *const restrict res) {
@@ -1821,7 +1844,12 @@ HARBOL_EXPORT uintmax_t convert_cstr_to_base_uint(char const cstr[], uint_fast8_
 	for( size_t i=0; cstr[i] != 0; i++ ) {
 		char const *const p = strchr(numerals, cstr[i]);
 		if( p != NULL ) {
-			value = value * base + (p - &numerals[0]);
+			uintmax_t const digit = ( size_t )(p - &numerals[0]);
+			if( base==0 || value > (UINTMAX_MAX - digit) / base ) { /// doesn't fit.
+				*res = false;
+				return 0;
+			}
+			value = value * base + digit;
 			continue;
 		}
 		*res = false;
-- 
2.43.0


From 94fc7ff213af5837612a3fe12ceff001a42c690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 070/120] fix: lex_*_style_str read past the terminator of
 empty text

---
 lex/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index cbe641f..10b77b1 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1500,6 +1500,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
 	int result = HarbolLexNoErr;
+	if( *str==0 ) {
+		result = HarbolLexSuddenEoFStr;
+		goto lex_str_err;
+	}
 	for( int_fast8_t const quote = *str++; *str != quote; str++ ) {
 		int_fast8_t const c = *str;
 		if( c==0 ) {
-- 
2.43.0


From 25b91af445f52a870a3874c10083c65701798958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 071/120] fix: make_buffer_from_* text is not terminated,
 runes_from_stream reads past its end

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 61ee39f..ba0ac46 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -458,9 +458,9 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 	}
 	
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(( size_t )(filesize) + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	uint8_t *restrict stream = calloc(( size_t )(filesize) + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
 		*bytes = SIZE_MAX;
-- 
2.43.0


From 8c95c6614a3d3c440aefe076fb5ee4820657126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 072/120] fix: math variable names of 64 characters are handed
 to the callback unterminated

---
 math/math_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..c97e65b 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -158,7 +158,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE-1 ) {
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
-- 
2.43.0


From 6dae43ff657c4cec1b154ab0f780da8e566baabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 073/120] fix: math numbers of 64 or more characters overflow
 the lexeme buffer

---
 math/math_parser.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index c97e65b..e2f63fa 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -44,8 +44,10 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				if( ls->tok.size < LEXEME_SIZE-1 ) {
+					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
+					ls->tok.size++;
+				}
 				ls->idx++;
 				break;
 			}
@@ -54,15 +56,19 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				if( ls->tok.size < LEXEME_SIZE-1 ) {
+					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
+					ls->tok.size++;
+				}
 				ls->idx++;
 				has_dot = true;
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				if( ls->tok.size < LEXEME_SIZE-1 ) {
+					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
+					ls->tok.size++;
+				}
 				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
 				return false;
 			}
@@ -87,9 +93,10 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '5': case '6': case '7': case '8': case '9': {
 				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
+				size_t const start = ls->idx;
 				bool const res = _harbol_math_lex_decimal(ls, expression);
-				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
+				if( res ) { /// the lexeme might be cut short.
+					ls->tok.val = strtofmax(&expression[start], NULL);
 				}
 				return res;
 			}
-- 
2.43.0


From 8153b66ec1b9d93f98f3aa771162d7f5f373d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 074/120] fix: cfg: empty string values and '<math' without '>'
 crashed the parser

---
 cfg/cfg.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..b6a8098 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -261,20 +261,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&keystr);
 			return false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
-		if( math_marker != NULL ) {
-			char *const math_start = math_marker + sizeof "<math"-1;
-			char *const math_end = strchr(math_start, '>');
-			if( math_end != NULL ) {
-				*math_end = 0;
-			}
-			floatmax_t const expr_result = harbol_math_parse_expr(math_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
-			if( math_end != NULL ) {
-				*math_end = '>';
-			}
-			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
-			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
-			free(number); number = NULL;
+		if( !harbol_string_empty(str) ) {
+			_harbol_cfg_parse_inline_math(str, parse_state, true);
 		}
 		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
 		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-- 
2.43.0


From 78bf22420846475ba763a7f27107d5c215114a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 075/120] fix: cfg: math expression behind other text in a key
 left part of itself behind

---
 cfg/cfg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index b6a8098..0fa9044 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -131,9 +131,11 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 	math_end[0] = '>';
 	if( replace_str_with_res ) {
 		size_t const start = ( size_t )(math_str - str->cstr);
-		char result_str[30] = {0};
-		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
+		char *number = sprintf_alloc("%" PRIfMAX "", result);
+		if( number != NULL ) {
+			harbol_string_replace_range(str, start, ( size_t )(math_end - str->cstr), number);
+		}
+		free(number); number = NULL;
 	}
 	return result;
 }
-- 
2.43.0


From 83e4de42b6c552694f2f6438a92412fc67ad4d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 076/120] fix: cfg: binary numbers and digit separators were
 misread, bad vector number crashed

---
 cfg/cfg.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 0fa9044..00427d0 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -52,6 +52,29 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 	}
 }
 
+/// C's conversions know neither digit separators nor (before C23) binary prefixes.
+static NO_NULL void _remove_digit_seps(struct HarbolString *const str) {
+	size_t len = 0;
+	for( size_t i=0; i < str->len; i++ ) {
+		if( str->cstr[i] != '\'' ) {
+			str->cstr[len++] = str->cstr[i];
+		}
+	}
+	if( str->cstr != NULL ) {
+		str->cstr[len] = 0;
+		str->len = len;
+	}
+}
+
+static NO_NULL intmax_t _num_to_int(struct HarbolString const *const str) {
+	char const *const digits = &str->cstr[*str->cstr=='-' || *str->cstr=='+'];
+	if( digits[0]=='0' && (digits[1]=='b' || digits[1]=='B') ) {
+		intmax_t const i = strtoll(&digits[2], NULL, 2);
+		return *str->cstr=='-'? -i : i;
+	}
+	return strtoll(str->cstr, NULL, 0);
+}
+
 static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolString *const restrict str, enum HarbolCfgType *const typeref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
 		return false;
@@ -72,6 +95,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 		return false;
 	}
 	*strref = end;
+	_remove_digit_seps(str);
 	*typeref = (is_float)? HarbolCfgType_Float : HarbolCfgType_Int;
 	return str->len > 0;
 }
@@ -292,9 +316,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
-					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
+					matrix_value.color.array[iterations] = ( uint8_t )(_num_to_int(&numstr));
 				} else {
 					switch( iterations ) {
 						case 0: matrix_value.vec4d.x = lex_string_to_float(&numstr); break;
@@ -425,7 +449,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		floatmax_t f = lex_string_to_float(&numstr);
 		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
 	} else {
-		intmax_t i = strtoll(numstr.cstr, NULL, 0);
+		intmax_t i = _num_to_int(&numstr);
 		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
 	}
 	harbol_string_clear(&numstr);
-- 
2.43.0


From 5fbc18eee8d1359dff77a217c46a29b2da30e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 077/120] fix: cfg: invalid string values leaked

---
 cfg/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 00427d0..7847356 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -208,6 +208,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_clear(&file_path);
 			harbol_string_clear(&keystr);
 			return false;
 		}
@@ -284,6 +285,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_free(&str);
 			harbol_string_clear(&keystr);
 			return false;
 		}
-- 
2.43.0


From 17fd25bcd1ad58d850f939724da458a55cad8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 078/120] fix: cfg: empty include path crashed

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 7847356..520e13d 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -214,7 +214,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
-		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : harbol_cfg_parse_file(file_path.cstr);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
-- 
2.43.0


From 3f660a839a7a89224ec5104307f1ec5a0da95a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 079/120] fix: cfg: values that can't be inserted (key
 duplicated by <enum> or math) leaked

---
 cfg/cfg.c | 62 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 520e13d..8e10685 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -168,6 +168,18 @@ static inline bool _cfgmath_end_and_newline(int32_t const c) {
 	return c != '>' && c != '\n';
 }
 
+static NO_NULL void _harbol_cfgkey_clear(struct HarbolVariant *var);
+
+/// the map takes over the value if it could be inserted, otherwise it's destroyed.
+static NO_NULL bool _insert_value(struct HarbolMap *const restrict map, struct HarbolString const *const restrict key, struct HarbolVariant *const restrict var, HarbolCfgState *const restrict parse_state) {
+	if( var->data != NULL && harbol_map_insert(map, key->cstr, key->len+1, var, sizeof *var) ) {
+		return true;
+	}
+	harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "parse error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to insert value for key '%s', duplicate key or out of memory.\n", key->cstr);
+	_harbol_cfgkey_clear(var);
+	return false;
+}
+
 /// keyval = ( string | "<include>" | "<enum>" | math ) [':'] ( value | section ) [','] .
 static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char const **cfgcoderef, HarbolCfgState *const restrict parse_state) {
 	if( *cfgcoderef==NULL ) {
@@ -221,8 +233,12 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&file_path);
 			return true;
 		} else {
-			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
-			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
+			bool made = false;
+			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &made);
+			if( !made ) {
+				harbol_cfg_free(&included_cfg);
+			}
+			bool const inclusion_res = _insert_value(map, &file_path, &var, parse_state);
 			harbol_string_clear(&file_path);
 			return inclusion_res;
 		}
@@ -264,13 +280,12 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
-		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &( bool ){0});
-		if( !harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var) ) {
-			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
+		bool made = false;
+		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &made);
+		if( !made ) {
 			harbol_cfg_free(&subsection);
-			harbol_string_clear(&keystr);
-			harbol_variant_clear(&var);
 		}
+		res &= _insert_value(map, &keystr, &var, parse_state);
 		parse_state->local_iota = old_iota;
 		parse_state->local_enum = old_enum;
 	} else if( **cfgcoderef=='"' || **cfgcoderef=='\'' ) {
@@ -292,9 +307,12 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( !harbol_string_empty(str) ) {
 			_harbol_cfg_parse_inline_math(str, parse_state, true);
 		}
-		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-		res = true;
+		bool made = false;
+		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &made);
+		if( !made ) {
+			harbol_string_free(&str);
+		}
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
 		char const valtype = *(*cfgcoderef)++;
@@ -349,7 +367,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		struct HarbolVariant var = (valtype=='c')?
 			  harbol_variant_make(&matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, &( bool ){0})
 			: harbol_variant_make(&matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( **cfgcoderef=='t' ) {
 		/// true bool value.
 		if( strncmp("true", *cfgcoderef, sizeof("true")-1) ) {
@@ -359,7 +377,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		*cfgcoderef += sizeof("true") - 1;
 		struct HarbolVariant var = harbol_variant_make(&( bool ){true}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( **cfgcoderef=='f' ) {
 		/// false bool value
 		if( strncmp("false", *cfgcoderef, sizeof("false")-1) ) {
@@ -369,7 +387,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		*cfgcoderef += sizeof("false") - 1;
 		struct HarbolVariant var = harbol_variant_make(&( bool ){false}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( **cfgcoderef=='n' ) {
 		/// null value.
 		if( strncmp("null", *cfgcoderef, sizeof("null")-1) ) {
@@ -379,7 +397,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		*cfgcoderef += sizeof("null") - 1;
 		struct HarbolVariant var = harbol_variant_make(&( char ){0}, sizeof(char), HarbolCfgType_Null, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( **cfgcoderef=='I' ) {
 		/// local iota value.
 		if( strncmp("IOTA", *cfgcoderef, sizeof("IOTA")-1) ) {
@@ -390,7 +408,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		*cfgcoderef += sizeof("IOTA") - 1;
 		struct HarbolVariant var = harbol_variant_make(&parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, &( bool ){0});
 		parse_state->global_iota++;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( **cfgcoderef=='i' ) {
 		/// local iota value.
 		if( strncmp("iota", *cfgcoderef, sizeof("iota")-1) ) {
@@ -401,7 +419,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		*cfgcoderef += sizeof("iota") - 1;
 		struct HarbolVariant var = harbol_variant_make(parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, &( bool ){0});
 		++*parse_state->local_iota;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &var, parse_state);
 	} else if( is_decimal(**cfgcoderef) || **cfgcoderef=='.' || **cfgcoderef=='-' || **cfgcoderef=='+' ) {
 		/// numeric value.
 		res = harbol_cfg_parse_number(map, &keystr, cfgcoderef, parse_state);
@@ -421,8 +439,12 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			}
 			
 			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
-			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+			bool made = false;
+			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &made);
+			if( !made ) {
+				harbol_string_free(&str);
+			}
+			res = _insert_value(map, &keystr, &var, parse_state);
 			*cfgcoderef += file_cstr_len;
 		} else {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unknown control/command '%c'.\n", (*cfgcoderef)[1]);
@@ -455,7 +477,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
 	}
 	harbol_string_clear(&numstr);
-	return harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var);
+	return _insert_value(map, key, &var, parse_state);
 }
 
 /// section = '{' <keyval> '}' ;
@@ -536,7 +558,7 @@ union ConfigVal {
 	struct HarbolVec4D   *restrict v;
 };
 
-static void _harbol_cfgkey_clear(struct HarbolVariant *const var) {
+static NO_NULL void _harbol_cfgkey_clear(struct HarbolVariant *const var) {
 	union ConfigVal cv = {var->data};
 	switch( var->tag ) {
 		case HarbolCfgType_Map:       harbol_cfg_free(cv.section); break;
-- 
2.43.0


From 66acda98013ec6bba05566a8deade7e1164e63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 080/120] fix: cfg: key paths stopped at a section named like
 the target, went through non-sections and missed escaped dots

---
 cfg/cfg.c | 75 +++++++++----------------------------------------------
 1 file changed, 12 insertions(+), 63 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 8e10685..2d6aaae 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -634,81 +634,30 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
-			iter++;
-			continue;
-		}
-		harbol_string_add_char(str, *iter++);
-	}
-	return str->len > 0;
-}
-
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
-	/// first check if we're getting a singular value OR we iterate through a sectional path.
-	char const *dot = strchr(key, '.');
-	
-	/// Patch: dot and escaped dot glitching out the hashmap hashing...
-	if( dot==NULL || (dot > key && (dot[-1] == '\\')) ) {
-		struct HarbolVariant *const restrict var = harbol_map_key_get(cfgmap, key, strlen(key)+1);
-		return( var==NULL || var->tag==HarbolCfgType_Null )? NULL : var;
-	}
-	
-	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
+	/// parse something like: "root.section1.section2.section3.\\.dotsection"
 	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
+	struct HarbolString sectionstr = {0};
 	struct HarbolMap const *itermap = cfgmap;
 	struct HarbolVariant *restrict var = NULL;
-	while( itermap != NULL ) {
+	do {
 		harbol_string_clear(&sectionstr);
 		/// Patch: allow keys to use dot without interfering with dot path.
-		while( *iter != 0 ) {
-			if( *iter=='\\' && iter[1] != 0 && iter[1]=='.' ) {
-				iter++;
-				harbol_string_add_char(&sectionstr, *iter++);
-			} else if( *iter=='.' ) {
+		while( *iter != 0 && *iter != '.' ) {
+			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
-				break;
-			} else {
-				harbol_string_add_char(&sectionstr, *iter++);
 			}
+			harbol_string_add_char(&sectionstr, *iter++);
 		}
-		if( harbol_string_empty(&sectionstr) ) {
+		var = harbol_string_empty(&sectionstr)? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
+		if( var==NULL || *iter==0 || *++iter==0 ) {
 			break;
 		}
-		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
-			break;
-		} else if( var->tag==HarbolCfgType_Map ) {
-			itermap = *( struct HarbolMap const** )(var->data);
-		}
-	}
+		/// more path to come, it can only lead through a section.
+		itermap = (var->tag==HarbolCfgType_Map)? *( struct HarbolMap const** )(var->data) : NULL;
+		var = NULL;
+	} while( itermap != NULL );
 	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
 	return var;
 }
 
-- 
2.43.0


From 1f99ecc4001a031d43e652ea2e547ec47137c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 081/120] fix: cfg: setting or evaluating an empty string value

---
 cfg/cfg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 2d6aaae..dc107d5 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -715,7 +715,7 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr==NULL? "" : str.cstr, override_convert);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
@@ -731,8 +731,12 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		}
 		return false;
 	}
-	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
-	return true;
+	struct HarbolString *const str = *( struct HarbolString** )(var->data);
+	if( *cstr==0 ) {
+		harbol_string_clear(str);
+		return true;
+	}
+	return harbol_string_copy_cstr(str, cstr);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
@@ -879,7 +883,7 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 
 HARBOL_EXPORT floatmax_t harbol_cfg_calc_math(struct HarbolMap const *const restrict cfg, char const key[const restrict static 1], HarbolMathVarFunc *const var_func, void *const restrict data, size_t const data_len) {
 	struct HarbolString *const restrict str = harbol_cfg_get_str(cfg, key);
-	if( str==NULL ) {
+	if( str==NULL || harbol_string_empty(str) ) {
 		union {
 			uintmax_t const  u;
 			floatmax_t const f;
-- 
2.43.0


From 8d1fda6f0349fdda0c949512988cb8bc00ca54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 082/120] fix: cfg: failed allocation while changing a value's
 type lost the value

---
 cfg/cfg.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index dc107d5..8d516dd 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -568,6 +568,17 @@ static NO_NULL void _harbol_cfgkey_clear(struct HarbolVariant *const var) {
 	harbol_variant_clear(var);
 }
 
+/// keeps the old value if the new one can't be stored.
+static bool _harbol_cfgkey_reset(struct HarbolVariant *const var, void const *const val, size_t const len, enum HarbolCfgType const type) {
+	bool made = false;
+	struct HarbolVariant const new_var = harbol_variant_make(val, len, type, &made);
+	if( made ) {
+		_harbol_cfgkey_clear(var);
+		*var = new_var;
+	}
+	return made;
+}
+
 HARBOL_EXPORT void harbol_cfg_free(struct HarbolMap **const cfg_ref) {
 	if( *cfg_ref==NULL )
 		return;
@@ -724,9 +735,11 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_String ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
 			struct HarbolString *str = harbol_string_new(cstr);
-			*var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
+			if( str==NULL || str->len != strlen(cstr) || !_harbol_cfgkey_reset(var, &str, sizeof str, HarbolCfgType_String) ) {
+				harbol_string_free(&str);
+				return false;
+			}
 			return true;
 		}
 		return false;
@@ -745,9 +758,7 @@ HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Float ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Float, &( bool ){0});
-			return true;
+			return _harbol_cfgkey_reset(var, &val, sizeof val, HarbolCfgType_Float);
 		}
 		return false;
 	}
@@ -761,9 +772,7 @@ HARBOL_EXPORT bool harbol_cfg_set_int(struct HarbolMap *const restrict cfgmap, c
 		return false;
 	} else if( var->tag != HarbolCfgType_Int ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Int, &( bool ){0});
-			return true;
+			return _harbol_cfgkey_reset(var, &val, sizeof val, HarbolCfgType_Int);
 		}
 		return false;
 	}
@@ -777,9 +786,7 @@ HARBOL_EXPORT bool harbol_cfg_set_bool(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Bool ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Bool, &( bool ){0});
-			return true;
+			return _harbol_cfgkey_reset(var, &val, sizeof val, HarbolCfgType_Bool);
 		}
 		return false;
 	}
@@ -793,9 +800,7 @@ HARBOL_EXPORT bool harbol_cfg_set_color(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Color ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Color, &( bool ){0});
-			return true;
+			return _harbol_cfgkey_reset(var, &val, sizeof val, HarbolCfgType_Color);
 		}
 		return false;
 	}
@@ -809,9 +814,7 @@ HARBOL_EXPORT bool harbol_cfg_set_vec4D(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Vec4D ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Vec4D, &( bool ){0});
-			return true;
+			return _harbol_cfgkey_reset(var, &val, sizeof val, HarbolCfgType_Vec4D);
 		}
 		return false;
 	}
@@ -826,9 +829,7 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 		return false;
 	}
 	
-	_harbol_cfgkey_clear(var);
-	*var = harbol_variant_make(&( char ){0}, 1, HarbolCfgType_Null, &( bool ){0});
-	return true;
+	return _harbol_cfgkey_reset(var, &( char ){0}, 1, HarbolCfgType_Null);
 }
 
 static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
-- 
2.43.0


From 961b36712b03e0f0d5792244a3d11489bb2bf133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 083/120] fix: cfg: out of memory during a lookup could find
 the wrong key

---
 cfg/cfg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 8d516dd..bb35573 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -658,7 +658,10 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
 			}
-			harbol_string_add_char(&sectionstr, *iter++);
+			if( !harbol_string_add_char(&sectionstr, *iter++) ) {
+				harbol_string_clear(&sectionstr);
+				return NULL;
+			}
 		}
 		var = harbol_string_empty(&sectionstr)? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
 		if( var==NULL || *iter==0 || *++iter==0 ) {
-- 
2.43.0


From 6df2a3d66afb1b7d1b6739dd32c4b1c542fd03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 084/120] fix: cfg: strings and keys with quotes, backslashes
 or control characters and empty strings were written unreadably

---
 cfg/cfg.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index bb35573..0f5da37 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -596,6 +596,22 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 	}
 }
 
+/// adds text as a string literal that reads back as the same text.
+static void _add_quoted(struct HarbolString *const str, char const *text) {
+	harbol_string_add_char(str, '"');
+	for( ; text != NULL && *text != 0; text++ ) {
+		if( *text=='"' || *text=='\\' ) {
+			harbol_string_add_char(str, '\\');
+			harbol_string_add_char(str, *text);
+		} else if( ( uint8_t )(*text) < ' ' ) {
+			harbol_string_format(str, false, "\\%03o", ( uint32_t )(*text));
+		} else {
+			harbol_string_add_char(str, *text);
+		}
+	}
+	harbol_string_add_char(str, '"');
+}
+
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
 	static size_t tabs = 0;
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
@@ -605,7 +621,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 		union ConfigVal const cv = { var->data };
 		
 		_concat_tabs(str, tabs);
-		harbol_string_format(str, false, "\"%s\": ", ( char const* )(map->keys[i]));
+		_add_quoted(str, ( char const* )(map->keys[i]));
+		harbol_string_add_cstr(str, ": ");
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
 				harbol_string_add_cstr(str, "null\n");
@@ -623,7 +640,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			}
 			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+				_add_quoted(str, (*cv.str)->cstr);
+				harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Float:
 				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
@@ -841,13 +859,20 @@ static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
 	}
 }
 
+static void _write_quoted(FILE *const file, char const text[const], char const after[const]) {
+	struct HarbolString str = {0};
+	_add_quoted(&str, text);
+	fprintf(file, "%s%s", str.cstr, after);
+	harbol_string_clear(&str);
+}
+
 static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FILE *const file, size_t const tabs) {
 	for( size_t i=0; i < map->len; i++ ) {
 		struct HarbolVariant const *const v = ( struct HarbolVariant const* )(map->datum[i]);
 		int32_t const type = v->tag;
 		_write_tabs(file, tabs);
 		/// using double pointer iterators as we need the key.
-		fprintf(file, "\"%s\": ", ( char const* )(map->keys[i]));
+		_write_quoted(file, ( char const* )(map->keys[i]), ": ");
 		
 		union ConfigVal const cv = { v->data };
 		switch( type ) {
@@ -860,7 +885,7 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				fputs("}\n", file);
 				break;
 			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
+			case HarbolCfgType_String: _write_quoted(file, (*cv.str)->cstr, "\n");      break;
 			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
 			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
 			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-- 
2.43.0


From 377e17e2c4b854b0b6875acd42482d3111e99538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 085/120] fix: cfg: harbol_cfg_to_str shared its indentation
 between threads

---
 cfg/cfg.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 0f5da37..ad12414 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -612,8 +612,7 @@ static void _add_quoted(struct HarbolString *const str, char const *text) {
 	harbol_string_add_char(str, '"');
 }
 
-HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
-	static size_t tabs = 0;
+static NO_NULL struct HarbolString _harbol_cfg_to_str(struct HarbolMap const *const map, size_t const tabs) {
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
 	struct HarbolString *str = &cfg_str;
 	for( size_t i=0; i < map->len; i++ ) {
@@ -629,13 +628,12 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			case HarbolCfgType_Map: {
 				harbol_string_add_cstr(str, "{\n");
-				tabs++;
-				struct HarbolString inner_str = harbol_cfg_to_str(*cv.section);
+				struct HarbolString inner_str = _harbol_cfg_to_str(*cv.section, tabs + 1);
 				if( !harbol_string_empty(&inner_str) ) {
 					harbol_string_add_str(str, &inner_str);
 				}
 				harbol_string_clear(&inner_str);
-				_concat_tabs(str, --tabs);
+				_concat_tabs(str, tabs);
 				harbol_string_add_cstr(str, "}\n");
 				break;
 			}
@@ -663,6 +661,10 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
+HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
+	return _harbol_cfg_to_str(map, 0);
+}
+
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
 	/// parse something like: "root.section1.section2.section3.\\.dotsection"
 	char const *iter = key;
-- 
2.43.0


From 1b8508be13686a465ac54396edb1c60a8fc077e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 086/120] fix: cfg: lines ending in a comment were counted
 twice

---
 cfg/cfg.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index ad12414..4926831 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -41,7 +41,6 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 				*strref = skip_chars(*strref, is_whitespace, &parse_state->curr_line);
 			} else if( **strref=='#' || (**strref=='/' && (*strref)[1]=='/') ) {
 				*strref = skip_single_line_comment(*strref, &parse_state->curr_line);
-				parse_state->curr_line++;
 			} else if( **strref=='/' && (*strref)[1]=='*' ) {
 				*strref = skip_multi_line_comment(*strref, "*/", sizeof "*/"-1, &parse_state->curr_line);
 			} else if( **strref==':' || **strref==',' ) {
-- 
2.43.0


From 33620287341b5168c773a27614120336359249eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 087/120] fix: cfg: harbol_cfg_build_file reported success
 although writing failed

---
 cfg/cfg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 4926831..02add01 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -905,9 +905,9 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 		fputs("harbol_cfg_build_file :: unable to create file.\n", stderr);
 		return false;
 	}
-	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0);
-	fclose(cfgfile); cfgfile=NULL;
-	return result;
+	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0) && !ferror(cfgfile);
+	bool const closed = fclose(cfgfile)==0; cfgfile=NULL;
+	return result && closed;
 }
 
 
-- 
2.43.0


From 4d75156096d9746a530d5278fbf72a4dc4e60293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 088/120] fix: cfg: an empty config file couldn't be parsed

---
 cfg/cfg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 02add01..3eb92a8 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -525,7 +525,7 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	}
 	
 	struct HarbolString cfg = {0};
-	bool const read_result = harbol_string_read_from_file(&cfg, cfgfile);
+	bool const read_result = get_file_size(cfgfile)==0 || harbol_string_read_from_file(&cfg, cfgfile);
 	fclose(cfgfile); cfgfile = NULL;
 	if( !read_result ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: failed to read file '%s' into string.\n", filename);
@@ -534,7 +534,7 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	/// fix up new lines and tabs.
 	lex_fix_newlines(&cfg, true);
 	parse_state.cfg_filename = filename;
-	struct HarbolMap *const restrict objs = _harbol_cfg_parse(cfg.cstr, &parse_state);
+	struct HarbolMap *const restrict objs = _harbol_cfg_parse(cfg.cstr==NULL? "" : cfg.cstr, &parse_state);
 	harbol_string_clear(&cfg);
 	return objs;
 }
-- 
2.43.0


From 8936a5b7f3949b2da4fcfab93cdd7aa3b15afc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 089/120] fix: cfg: self including files and deeply nested
 sections overflowed the stack

---
 cfg/cfg.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 3eb92a8..def4410 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -17,13 +17,17 @@ math    = "<math" expression ">" . /// See HarbolMath module for math parser's g
 ```
  */
 
-typedef struct {
+typedef struct HarbolCfgState {
 	size_t      errc;
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
 	uint32_t    curr_line;
+	size_t      depth; /// nesting of sections and included files.
+	struct HarbolCfgState const *includer;
 } HarbolCfgState;
 
+enum{ HarbolCfgMaxDepth = 500 };
+
 
 static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
@@ -99,6 +103,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 	return str->len > 0;
 }
 
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[], HarbolCfgState const *includer);
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
@@ -225,7 +230,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
-		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : harbol_cfg_parse_file(file_path.cstr);
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : _harbol_cfg_parse_file(file_path.cstr, parse_state);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
@@ -485,6 +490,11 @@ static bool harbol_cfg_parse_section(struct HarbolMap *const restrict map, char
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: missing '{' but got '%c' for section.\n", **cfgcoderef);
 		return false;
 	}
+	if( parse_state->depth >= HarbolCfgMaxDepth ) {
+		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: sections are nested too deeply.\n");
+		return false;
+	}
+	parse_state->depth++;
 	(*cfgcoderef)++;
 	skip_ws_and_comments(cfgcoderef, parse_state);
 	
@@ -500,6 +510,7 @@ static bool harbol_cfg_parse_section(struct HarbolMap *const restrict map, char
 		return false;
 	}
 	(*cfgcoderef)++;
+	parse_state->depth--;
 	return true;
 }
 
@@ -516,8 +527,14 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	return objs;
 }
 
-HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
-	HarbolCfgState parse_state = {0};
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *const includer) {
+	HarbolCfgState parse_state = { .depth = (includer==NULL)? 0 : includer->depth + 1, .includer = includer };
+	for( HarbolCfgState const *i = includer; i != NULL; i = i->includer ) {
+		if( i->cfg_filename != NULL && !strcmp(i->cfg_filename, filename) ) {
+			harbol_write_msg(&parse_state.errc, stderr, includer->cfg_filename, "parse error", COLOR_RED, &includer->curr_line, NULL, "Harbol Config Parser :: file '%s' includes itself.\n", filename);
+			return NULL;
+		}
+	}
 	FILE *restrict cfgfile = fopen(filename, "r");
 	if( cfgfile==NULL ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: unable to find file '%s'.\n", filename);
@@ -539,6 +556,10 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	return objs;
 }
 
+HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+	return _harbol_cfg_parse_file(filename, NULL);
+}
+
 
 HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_cstr(char const cfgcode[static 1]) {
 	HarbolCfgState parse_state = {0};
-- 
2.43.0


From 45601990cedb45ab2dfede9300035c91826748ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 090/120] fix: math: deeply nested expressions overflowed the
 stack

---
 math/math_parser.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index e2f63fa..3d92c7f 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -7,6 +7,7 @@
 
 enum {
 	LEXEME_SIZE = 64,
+	MAX_NESTING = 1000,
 };
 
 enum HarbolMathTokenType {
@@ -34,7 +35,7 @@ struct HarbolMathLexer {
 	struct HarbolMathToken   tok;
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
-	size_t                   expr_len, idx, data_len;
+	size_t                   expr_len, idx, data_len, nesting;
 };
 
 
@@ -249,14 +250,23 @@ floatmax_t harbol_math_parse_pow_expr(struct HarbolMathLexer *const restrict ls,
 
 /// UnaryExpr = *( '-' | '+' ) Factor .
 floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+	floatmax_t val = 0;
+	if( ls->nesting >= MAX_NESTING ) {
+		//LogError("ConfigMap-Math :: expression is nested too deeply");
+		return val;
+	}
+	ls->nesting++;
 	if( ls->tok.tag==TokenSub ) {
 		_harbol_math_get_token(ls, expression);
-		return -harbol_math_parse_unary_expr(ls, expression);
+		val = -harbol_math_parse_unary_expr(ls, expression);
 	} else if( ls->tok.tag==TokenPlus ) {
 		_harbol_math_get_token(ls, expression);
-		return fabs( harbol_math_parse_unary_expr(ls, expression) );
+		val = fabs( harbol_math_parse_unary_expr(ls, expression) );
+	} else {
+		val = harbol_math_parse_factor(ls, expression);
 	}
-	return harbol_math_parse_factor(ls, expression);
+	ls->nesting--;
+	return val;
 }
 
 
-- 
2.43.0


From fd6b124fa1c3cd5302d6e2619e61f2daa6369e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 091/120] fix: cfg: smallest integer in binary notation

---
 cfg/cfg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index def4410..8f08c66 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -72,8 +72,11 @@ static NO_NULL void _remove_digit_seps(struct HarbolString *const str) {
 static NO_NULL intmax_t _num_to_int(struct HarbolString const *const str) {
 	char const *const digits = &str->cstr[*str->cstr=='-' || *str->cstr=='+'];
 	if( digits[0]=='0' && (digits[1]=='b' || digits[1]=='B') ) {
-		intmax_t const i = strtoll(&digits[2], NULL, 2);
-		return *str->cstr=='-'? -i : i;
+		uintmax_t const u = strtoull(&digits[2], NULL, 2);
+		if( *str->cstr=='-' ) {
+			return ( u > INTMAX_MAX )? INTMAX_MIN : -( intmax_t )(u);
+		}
+		return ( u > INTMAX_MAX )? INTMAX_MAX : ( intmax_t )(u);
 	}
 	return strtoll(str->cstr, NULL, 0);
 }
-- 
2.43.0


From 5dc53c166e182b1629208a12892fdb43bbecaed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 092/120] fix: msg_span: sources without a newline, empty or
 unreadable were misread or crashed

---
 msg_span/msg_span.c | 57 +++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..6827f16 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,43 +25,49 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
 	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
-	}
-	lex_fix_newlines(&msgspan->src.code, true);
-	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
-	if( newline_offs==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
+		if( !harbol_string_read_file(&msgspan->src.code, cstr) || !harbol_string_copy_cstr(&msgspan->src.filename, cstr) ) {
+			harbol_string_clear(&msgspan->src.code);
+			return false;
+		}
+	} else if( cstr[0] != 0 && !harbol_string_copy_cstr(&msgspan->src.code, cstr) ) {
 		return false;
 	}
+	lex_fix_newlines(&msgspan->src.code, true);
 	
-	harbol_string_cstr_offsets(&msgspan->src.code, "\n", newline_offs, newlines);
-	for( size_t i=0; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i];
-		msgspan->src.code.cstr[offs] = 0;
-	}
-	
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
+	size_t *newline_offs = calloc(newlines + 1, sizeof *newline_offs);
 	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
-	if( msgspan->src.lines==NULL ) {
+	if( newline_offs==NULL || msgspan->src.lines==NULL ) {
 		harbol_string_clear(&msgspan->src.code);
+		harbol_string_clear(&msgspan->src.filename);
 		free(newline_offs); newline_offs = NULL;
+		free(msgspan->src.lines); msgspan->src.lines = NULL;
 		return false;
 	}
 	
+	if( newlines > 0 ) {
+		harbol_string_cstr_offsets(&msgspan->src.code, "\n", newline_offs, newlines);
+	}
+	newline_offs[newlines] = msgspan->src.code.len; /// the last line has no newline.
+	
 	msgspan->src.len = newlines + 1;
-	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
-	for( size_t i=1; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i-1] + 1;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
+	size_t line_start = 0;
+	for( size_t i=0; i < msgspan->src.len; i++ ) {
+		if( newline_offs[i] > line_start ) {
+			char *const line_end = &msgspan->src.code.cstr[newline_offs[i]];
+			char const saved = *line_end;
+			*line_end = 0;
+			bool const copied = harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[line_start]);
+			*line_end = saved;
+			if( !copied ) {
+				free(newline_offs); newline_offs = NULL;
+				harbol_msg_span_clear(msgspan);
+				return false;
+			}
+		}
+		line_start = newline_offs[i] + 1;
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
@@ -101,6 +107,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From 7715ed22a88e2b321fcffb575057867d541dd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 093/120] fix: msg_span: labelled lines outside the source
 crashed, empty lines printed as (null)

---
 msg_span/msg_span.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 6827f16..a0e2914 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -190,12 +190,14 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char
 
 
 static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, size_t const len, FILE *const stream) {
-	for( uint32_t line = span.line_start; line <= span.line_end; line++ ) {
-		struct HarbolString line_num_pad = {0};
-		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
+	size_t const
+		num_lines = harbol_msg_span_get_num_lines(msgspan),
+		first     = span.line_start < 1? 1 : span.line_start,
+		last      = span.line_end > num_lines? num_lines : span.line_end
+	;
+	for( size_t line = first; line <= last; line++ ) {
 		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
-		harbol_string_clear(&line_num_pad);
+		fprintf(stream, "%zu%*s|%s\n", line, ( int )(len - base_10_digits(line)), "", code_line->cstr==NULL? "" : code_line->cstr);
 	}
 }
 
-- 
2.43.0


From 149b3ece79b71a49b949181f4937bdd1ee614eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 094/120] fix: msg_span: a line starting with a NUL byte is an
 empty line

---
 msg_span/msg_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index a0e2914..0614bfb 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -58,7 +58,7 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 			char *const line_end = &msgspan->src.code.cstr[newline_offs[i]];
 			char const saved = *line_end;
 			*line_end = 0;
-			bool const copied = harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[line_start]);
+			bool const copied = msgspan->src.code.cstr[line_start]==0 || harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[line_start]);
 			*line_end = saved;
 			if( !copied ) {
 				free(newline_offs); newline_offs = NULL;
-- 
2.43.0


From a5669889f445984eff937ade181185ad8a49a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 095/120] fix: msg_span: spans of no or negative width printed
 (null) or billions of marks

---
 msg_span/msg_span.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 0614bfb..b378686 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -255,12 +255,12 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			/// here we emit the label msgs.
 			struct HarbolString colm_pad={0}, hilighter={0};
 			harbol_string_add_char_rep(&colm_pad, ' ', span.colm_start);
-			for( size_t n=0; n < (span.colm_end - span.colm_start); n++ ) {
+			for( size_t n = span.colm_start; n < span.colm_end; n++ ) {
 				write_utf8_str(&hilighter, labels[i].sym);
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr==NULL? "" : hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
-- 
2.43.0


From 316840f7209a45ddf26e51fe72265e18652600b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 096/120] fix: msg_span: notes of a message without labels were
 shown with a later message

---
 msg_span/msg_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index b378686..e6ffb67 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -231,7 +231,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 		++*msg_cnt;
 	}
 	
-	if( msgspan->labels.len > 0 ) {
+	if( msgspan->labels.len > 0 || msgspan->notes.len > 0 ) {
 		fprintf(stream, "\n");
 		uint32_t largest_span = 0;
 		struct HarbolMsgLabel const *labels = ( struct HarbolMsgLabel const* )(msgspan->labels.table);
-- 
2.43.0


From ec277b713925228751104e3705eb93c0323d7271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 097/120] fix: msg_span: argument list never released

---
 msg_span/msg_span.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index e6ffb67..7dbc7b0 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -225,6 +225,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 	}
 	va_list args; va_start(args, msg_fmt);
 	vfprintf(stream, msg_fmt, args);
+	va_end(args);
 	_print_file_margins(stream, filename, file_line, file_col);
 	
 	if( msg_cnt != NULL ) {
-- 
2.43.0


From b247a9fd4ad1cca04bed1edb1eebb6b948815620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 098/120] fix: msg_span: optional filename and note color
 declared as never NULL, so optimized builds printed (null)

---
 msg_span/msg_span.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 7dbc7b0..5df6cd4 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -153,7 +153,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	return res;
 }
 
-HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict static 1], char const msg[const restrict static 1], ...) {
+HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict], char const msg[const restrict static 1], ...) {
 	struct HarbolString note = {0};
 	if( harbol_array_full(&msgspan->notes) && !harbol_array_grow(&msgspan->notes, sizeof note) ) {
 		return false;
@@ -176,7 +176,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 }
 
 
-static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict static 1], uint32_t const *const restrict line, uint32_t const *const restrict col) {
+static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict], uint32_t const *const restrict line, uint32_t const *const restrict col) {
 	if( filename != NULL ) {
 		fprintf(stream, "\n--> %s", filename);
 		if( line != NULL ) {
-- 
2.43.0


From b97f46cb17c35e1feab9275eae28552bf3688d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 099/120] fix: plugins: an unreadable directory entry hung the
 directory scan

---
 plugins/plugins.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..3ec6c3d 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -118,7 +118,8 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			/// entry can't be read (dangling link, path too long), skip it.
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From 11e2749c46cd476a03a569bba4b9e587f1c923bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 100/120] fix: plugins: scanning a directory that can't be
 opened reported success

---
 plugins/plugins.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 3ec6c3d..3255e56 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -143,7 +143,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	tinydir_close(dir);
 }
 
-HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[static 1]) {
+HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[]) {
 	/// 'FILENAME_MAX' is defined in stdio.h
 	char currdir[FILENAME_MAX] = {0};
 #ifdef OS_WINDOWS
@@ -156,15 +156,17 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 		if( pl_dir==NULL )
 			return false;
 		
+		bool opened = false;
 		tinydir_dir *const restrict dir_handle = &( tinydir_dir ){0};
 		if( tinydir_open(dir_handle, pl_dir) < 0 ) {
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
 			tinydir_close(dir_handle);
 		} else {
 			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+			opened = true;
 		}
 		free(pl_dir); pl_dir = NULL;
-		return true;
+		return opened;
 	}
 	return false;
 }
-- 
2.43.0


From a6c0224042fc0c39483ab7be28c3e9624ecf6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 101/120] fix: plugins: clearing a plugin that isn't loaded
 reported an unload

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 3255e56..d4685f7 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -30,7 +30,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 }
 
 HARBOL_EXPORT void harbol_plugin_clear(struct HarbolPlugin *const restrict pl, HarbolPluginEvent unload_fn, void *const restrict userdata) {
-	if( unload_fn != NULL ) {
+	if( unload_fn != NULL && pl->dll != NULL ) {
 		(*unload_fn)(pl, userdata, false);
 	}
 	
-- 
2.43.0


From 4f531f52a2f602c6a0bbf607de5f51a1c142c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 102/120] fix: plugins: stale error after success, path
 allocation failure unnoticed

---
 plugins/plugins.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index d4685f7..147d035 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -14,7 +14,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	
 	pl->path = dup_cstr(strlen(path), path);
 	struct stat result;
-	if( !stat(path, &result) ) {
+	if( pl->path != NULL && !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
 	} else {
 		MODULE_CLOSE(pl->dll); pl->dll = NULL;
@@ -23,6 +23,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 		return false;
 	}
 	
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, false);
 	}
@@ -76,6 +77,7 @@ HARBOL_EXPORT bool harbol_plugin_reload(struct HarbolPlugin *const restrict pl,
 		pl->err = HarbolPluginErrCantReload;
 		return false;
 	}
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, true);
 	}
-- 
2.43.0


From f43568a061a66890316d90d3292530398f213fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 103/120] fix: logarithm tables shifted past the width of
 size_t

---
 harbol_common_includes.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ba0ac46..d48107d 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -858,7 +858,8 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	
 	/// generate log of N table.
 	for( size_t i=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
-		(*logN_table)[i] = floor( log(1UL << i) / log(base) );
+		/// no number has more bits than `size_t`, so the last entry is never looked up.
+		(*logN_table)[i] = ( i+1 < MAX_LOG_TABLE_SIZE )? ( size_t )(floor( log(( size_t )(1) << i) / log(base) )) : 0;
 	}
 	return num_exp;
 }
-- 
2.43.0


From bca3532879233e255c69ee3602d0dcc97db51140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 104/120] fix: byte masks of four and more bytes shifted past
 the width of int

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index d48107d..4d050c3 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1130,7 +1130,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return( bytes >= sizeof(size_t) )? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From 66fdea758b82ee016e5a997af97545b99c654ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 105/120] fix: character count of the smallest integer negated
 it past its range

---
 harbol_common_includes.h | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 4d050c3..f642e84 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -769,19 +769,7 @@ static inline size_t base_10_num_chars_uint(size_t const x) {
 	return base_10_digits(x) + 1;
 }
 static inline size_t base_10_num_chars_int(ssize_t const x) {
-#ifdef C11
-	ssize_t const y = _Generic(x, int: abs(x), long: labs(x), long long: llabs(x));
-#else
-	ssize_t const y = 
-#	if SIZE_MAX==UINT_MAX
-		abs(x)
-#	elif SIZE_MAX==ULONG_MAX
-		labs(x)
-#	elif SIZE_MAX==ULLONG_MAX
-		llabs(x)
-#	endif
-	;
-#endif
+	size_t const y = x < 0? -( size_t )(x) : ( size_t )(x);
 	return base_10_digits(y) + 2; /// 2 for the negative sign symbol.
 }
 
@@ -898,19 +886,7 @@ static inline size_t base_N_num_chars_int(
 	size_t const powers_of_N[const static 1]
 #endif
 ) {
-#ifdef C11
-	ssize_t const y = _Generic( x, int: abs(x), long: labs(x), long long: llabs(x) );
-#else
-	ssize_t const y = 
-#	if SIZE_MAX==UINT_MAX
-		abs(x)
-#	elif SIZE_MAX==ULONG_MAX
-		labs(x)
-#	elif SIZE_MAX==ULLONG_MAX
-		llabs(x)
-#	endif
-	;
-#endif
+	size_t const y = x < 0? -( size_t )(x) : ( size_t )(x);
 	return base_N_digits(y, logN_table, powers_of_N) + 2; /// 2 for the negative sign symbol.
 }
 
-- 
2.43.0


From f57ee627d8cafe2516571229e0a9535c2aef9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 106/120] fix: first node added to the tail of a singly linked
 list kept its old link

---
 harbol_common_includes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index f642e84..43bcacd 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -989,6 +989,7 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		(*tail)->a = node;
 		*tail = node;
 	} else {
+		node->a = NULL;
 		*head = node;
 		*tail = node;
 	}
-- 
2.43.0


From b62905c82c07ace74fcbac03ca7dffe00fa473d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 107/120] fix: dup_cstr wrote past its copy when the text is
 longer than asked for

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 43bcacd..4170041 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -534,7 +534,7 @@ static inline NO_NULL char *dup_cstr(size_t const len, char const cstr[const res
 #else
 	char *restrict cpy = calloc(len + 1, sizeof *cpy);
 #endif
-	return( cpy==NULL )? NULL : strcpy(cpy, cstr);
+	return( cpy==NULL )? NULL : strncpy(cpy, cstr, len);
 }
 
 
-- 
2.43.0


From 8aece2f4c5c81bc6a74ea0cd4442865d3df637fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 108/120] fix: make_int_log_tables rounded the log table up for
 large bases, so int_log was one too many

---
 harbol_common_includes.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 4170041..41755ae 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -844,10 +844,17 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	}
 	*powers_of_N = powers;
 	
-	/// generate log of N table.
-	for( size_t i=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
+	/// generate log of N table from the exact powers: the floating-point log ratio can round up.
+	for( size_t i=0, k=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
 		/// no number has more bits than `size_t`, so the last entry is never looked up.
-		(*logN_table)[i] = ( i+1 < MAX_LOG_TABLE_SIZE )? ( size_t )(floor( log(( size_t )(1) << i) / log(base) )) : 0;
+		if( i+1 < MAX_LOG_TABLE_SIZE ) {
+			while( k+1 < num_exp && 0 < powers[k+1] && powers[k+1] <= ( size_t )(1) << i ) {
+				k++;
+			}
+			(*logN_table)[i] = k;
+		} else {
+			(*logN_table)[i] = 0;
+		}
 	}
 	return num_exp;
 }
-- 
2.43.0


From 277eb7bb01ff59699f555b9375f1fbc0300b7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 109/120] fix: sprintf_alloc returned an empty text when the
 arguments couldn't be formatted

---
 harbol_common_includes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 41755ae..c906abb 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -550,6 +550,11 @@ static inline NO_NULL char *sprintf_alloc(char const fmt[const restrict static 1
 	char c = 0;
 	int32_t const size = vsnprintf(&c, 1, fmt, ap);
 	va_end(ap);
+	/// the arguments can't be formatted.
+	if( size < 0 ) {
+		va_end(st);
+		return NULL;
+	}
 	
 #ifdef __cplusplus
 	char *restrict text = reinterpret_cast< decltype(cpy) >(calloc(size + 2, sizeof *text));
-- 
2.43.0


From 8770d1ed4f059c075a6a0a08e416370172fcba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 110/120] fix: dup_cstr of no characters evaluated a
 zero-length array bound

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index c906abb..d9778b7 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -526,7 +526,7 @@ static inline NO_NULL void *dup_data(void const *const restrict data, size_t con
 #ifdef __cplusplus
 static inline NO_NULL char *dup_cstr(size_t const len, char const *cstr)
 #else
-static inline NO_NULL char *dup_cstr(size_t const len, char const cstr[const restrict static len])
+static inline NO_NULL char *dup_cstr(size_t const len, char const cstr[const restrict static 1])
 #endif
 {
 #ifdef __cplusplus
-- 
2.43.0


From 4e976c72e1abc10a30517ab14ab50888e0f5854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 111/120] fix: harbol_string_new reports when the text could
 not be allocated

---
 str/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index f8a8700..4771ef6 100644
--- a/str/str.c
+++ b/str/str.c
@@ -19,7 +19,10 @@ HARBOL_EXPORT struct HarbolString *harbol_string_new(char const cstr[]) {
 	if( str==NULL ) {
 		return NULL;
 	}
-	harbol_string_init(str, cstr);
+	/// an empty string needs no allocation of its own.
+	if( !harbol_string_init(str, cstr) && cstr != NULL && cstr[0] != 0 ) {
+		free(str); str = NULL;
+	}
 	return str;
 }
 
-- 
2.43.0


From 0355b103b034ab0b75ddfae0e21f579958767cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 112/120] fix: write_utf8_str adds all bytes of a code point or
 reports failure

---
 lex/lex.c | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 10b77b1..7064014 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -294,29 +294,15 @@ HARBOL_EXPORT size_t write_utf8_cstr(char buf[static 1], size_t const buflen, in
 }
 
 HARBOL_EXPORT bool write_utf8_str(struct HarbolString *const str, int32_t const rune) {
-	size_t const byte_len = rune_byte_len(rune);
-	switch( byte_len ) {
-		case 1:
-			harbol_string_add_char(str, rune);
-			return true;
-		case 2:
-			harbol_string_add_char(str, 0xC0 | (rune >> 6));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		case 3:
-			harbol_string_add_char(str, 0xE0 | (rune >> 12));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		case 4:
-			harbol_string_add_char(str, 0xF0 | (rune >> 18));
-			harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		default:
-			return false;
+	char bytes[4] = {0};
+	size_t const byte_len = write_utf8_cstr(bytes, sizeof bytes, rune);
+	size_t const old_len  = str->len;
+	/// either all of the bytes are added or none.
+	if( byte_len==0 || !harbol_string_add_char_rep(str, bytes[0], byte_len) ) {
+		return false;
 	}
+	memcpy(&str->cstr[old_len], bytes, byte_len);
+	return true;
 }
 
 static NO_NULL size_t _prechecked_utf8_read(char const cstr[const restrict], int32_t *const restrict rune) {
-- 
2.43.0


From c2904b9a8be817e78712b72af2a8cce75713c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 113/120] fix: harbol_string_format leaves the string alone
 when the arguments cannot be formatted (C04)

---
 str/str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/str/str.c b/str/str.c
index 4771ef6..1222377 100644
--- a/str/str.c
+++ b/str/str.c
@@ -155,6 +155,11 @@ HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict st
 	char c = 0;
 	int const size = vsnprintf(&c, 1, fmt, va_l);
 	va_end(va_l);
+	/// the arguments can't be formatted.
+	if( size < 0 ) {
+		va_end(st);
+		return size;
+	}
 	
 	size_t const old_size = clear? 0 : str->len;
 	if( !_harbol_resize_string(str, size + old_size) ) {
-- 
2.43.0


From 978fe8d52979e4fd51373c11dd1c4da6de64d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 114/120] fix: a string read from an unreadable stream is
 terminated at its length (C04)

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 1222377..750e37f 100644
--- a/str/str.c
+++ b/str/str.c
@@ -221,6 +221,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 		return false;
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	str->cstr[str->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From 7009a1eede257f86b86982bb78eaa1d5390da5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 115/120] fix: cfg: accept an inclusion as the last entry of a
 section

---
 cfg/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 8f08c66..c16cd89 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -238,6 +238,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
 			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
 			return true;
 		} else {
 			bool made = false;
@@ -247,6 +248,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			}
 			bool const inclusion_res = _insert_value(map, &file_path, &var, parse_state);
 			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
 			return inclusion_res;
 		}
 	} else {
-- 
2.43.0


From 474d5d0f5cf41e56141e418127d49b93c603e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 116/120] fix: cfg: an entry may be set to (part of) its own
 text

---
 cfg/cfg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index c16cd89..7519175 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -797,7 +797,14 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		harbol_string_clear(str);
 		return true;
 	}
-	return harbol_string_copy_cstr(str, cstr);
+	/// the text may be (part of) the entry's own.
+	struct HarbolString copy = {0};
+	if( !harbol_string_copy_cstr(&copy, cstr) ) {
+		return false;
+	}
+	harbol_string_clear(str);
+	*str = copy;
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
-- 
2.43.0


From 3c4e958ccf7bedb7f9af7ce08fbb17939812ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 117/120] fix: cfg: writing a file quotes without allocating,
 so it cannot report success with text cut short (C23)

---
 cfg/cfg.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 7519175..52db13f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -893,11 +893,19 @@ static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
 	}
 }
 
-static void _write_quoted(FILE *const file, char const text[const], char const after[const]) {
-	struct HarbolString str = {0};
-	_add_quoted(&str, text);
-	fprintf(file, "%s%s", str.cstr, after);
-	harbol_string_clear(&str);
+/// unlike '_add_quoted', needs no memory that might run out and cut the text short.
+static void _write_quoted(FILE *const file, char const *text, char const after[const]) {
+	fputc('"', file);
+	for( ; text != NULL && *text != 0; text++ ) {
+		if( *text=='"' || *text=='\\' ) {
+			fprintf(file, "\\%c", *text);
+		} else if( ( uint8_t )(*text) < ' ' ) {
+			fprintf(file, "\\%03o", ( uint32_t )(*text));
+		} else {
+			fputc(*text, file);
+		}
+	}
+	fprintf(file, "\"%s", after);
 }
 
 static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FILE *const file, size_t const tabs) {
-- 
2.43.0


From 21a0d768773e7ccf0a95243f57bf4c3ac4463e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 118/120] fix: bytebuffer: the generic insert keeps the type of
 bytes and short integers (C06)

---
 bytebuffer/bytebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.h b/bytebuffer/bytebuffer.h
index 235bd9c..2d35ba4 100644
--- a/bytebuffer/bytebuffer.h
+++ b/bytebuffer/bytebuffer.h
@@ -40,7 +40,7 @@ HARBOL_EXPORT NO_NULL bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *bu
 HARBOL_EXPORT NO_NULL bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *buf, size_t amount);
 
 #ifdef C11
-#	define harbol_bytebuffer_insert(buf, val)    _Generic((val)+0, \
+#	define harbol_bytebuffer_insert(buf, val)    _Generic((val), \
 													uint8_t     : harbol_bytebuffer_insert_byte,     \
 													int8_t      : harbol_bytebuffer_insert_byte,     \
 													char        : harbol_bytebuffer_insert_byte,     \
-- 
2.43.0


From 6bc86cc7cfa052371f56d9ec9ee29cc8fde99297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 119/120] fix: str: the generic append accepts characters (C04)

---
 str/str.c | 2 +-
 str/str.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 750e37f..b6e8934 100644
--- a/str/str.c
+++ b/str/str.c
@@ -104,7 +104,7 @@ HARBOL_EXPORT bool harbol_string_add_cstr(struct HarbolString *const restrict st
 }
 
 #ifdef C11
-#	define harbol_string_add(str, val)  _Generic((val)+0, \
+#	define harbol_string_add(str, val)  _Generic((val), \
 											char                       : harbol_string_add_char, \
 											struct HarbolString*       : harbol_string_add_str, \
 											struct HarbolString const* : harbol_string_add_str, \
diff --git a/str/str.h b/str/str.h
index 4407306..4162014 100644
--- a/str/str.h
+++ b/str/str.h
@@ -32,7 +32,7 @@ HARBOL_EXPORT NO_NULL bool harbol_string_add_str(struct HarbolString *strA, stru
 HARBOL_EXPORT NEVER_NULL(1) bool harbol_string_add_cstr(struct HarbolString *str, char const cstr[]);
 
 #ifdef C11
-#	define harbol_string_add(str, val)  _Generic((val)+0, \
+#	define harbol_string_add(str, val)  _Generic((val), \
 											char                       : harbol_string_add_char, \
 											struct HarbolString*       : harbol_string_add_str, \
 											struct HarbolString const* : harbol_string_add_str, \
-- 
2.43.0


From f04959e19939ff57fee55d706766ca17dccd739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 120/120] fix: cfg: the generic setter compiles for every type
 it lists (C20)

---
 cfg/cfg.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cfg/cfg.h b/cfg/cfg.h
index 030fc2a..cf79ef1 100644
--- a/cfg/cfg.h
+++ b/cfg/cfg.h
@@ -74,7 +74,7 @@ HARBOL_EXPORT NO_NULL bool harbol_cfg_set_to_null(struct HarbolMap *cfg, char co
 HARBOL_EXPORT NEVER_NULL(1, 2) floatmax_t harbol_cfg_calc_math(struct HarbolMap const *cfg, char const keypath[], HarbolMathVarFunc *var_func, void *data, size_t data_len);
 
 #ifdef C11
-#	define harbol_cfg_set(cfg, keypath, val, override)  _Generic((val)+0, \
+#	define harbol_cfg_set(cfg, keypath, val, override)  _Generic((val), \
 															struct HarbolString : harbol_cfg_set_str,   \
 															char*               : harbol_cfg_set_cstr,  \
 															char const*         : harbol_cfg_set_cstr,  \
@@ -84,7 +84,6 @@ HARBOL_EXPORT NEVER_NULL(1, 2) floatmax_t harbol_cfg_calc_math(struct HarbolMap
 															int32_t             : harbol_cfg_set_int,   \
 															uint32_t            : harbol_cfg_set_int,   \
 															int64_t             : harbol_cfg_set_int,   \
-															intmax_t            : harbol_cfg_set_int,   \
 															bool                : harbol_cfg_set_bool,  \
 															union HarbolColor   : harbol_cfg_set_color, \
 															struct HarbolVec4D  : harbol_cfg_set_vec4D) \
-- 
2.43.0

