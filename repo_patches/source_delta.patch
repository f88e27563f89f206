From b96d2410db95c19f1db0f8cf0ca68d1bf71b065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:50 +0000
Subject: [PATCH 01/51] fix: Vector/ImmutableSequence filter() and map()
 release every collected element when the callback throws

---
 teds_immutablesequence.c | 9 ++++++---
 teds_vector.c            | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..083b364 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -825,7 +825,8 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
+					while (size > 0) {
+						size--;
 						zval_ptr_dtor(&entries[size]);
 					}
 					efree(entries);
@@ -835,6 +836,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -950,9 +952,10 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
+				/* entries[size] is the (possibly undefined) result of the failed call */
+				do {
 					zval_ptr_dtor(&entries[size]);
-				}
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..4e806af 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -914,7 +914,8 @@ PHP_METHOD(Teds_Vector, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
+					while (size > 0) {
+						size--;
 						zval_ptr_dtor(&entries[size]);
 					}
 					efree(entries);
@@ -924,6 +925,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -1040,9 +1042,10 @@ PHP_METHOD(Teds_Vector, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
+				/* entries[size] is the (possibly undefined) result of the failed call */
+				do {
 					zval_ptr_dtor(&entries[size]);
-				}
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
-- 
2.43.0


From 992dd6461e5bbc0d0565b4a771ad2f9f752758e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:03 +0000
Subject: [PATCH 02/51] fix: Vector/ImmutableSequence map() must not store a
 reference returned by the callback

---
 teds_immutablesequence.c | 3 +++
 teds_vector.c            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 083b364..718a2bf 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -960,6 +960,9 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < intern->array.size);
 
diff --git a/teds_vector.c b/teds_vector.c
index 4e806af..5dfdd72 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -1050,6 +1050,9 @@ PHP_METHOD(Teds_Vector, map)
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < array->size);
 
-- 
2.43.0


From 37a84da9006b2f491c211fadfbab2f348ea5c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:31 +0000
Subject: [PATCH 03/51] fix: Teds\any/all/none/find/reduce over a Traversable
 keep their own copy of the element; find() releases callback results

---
 teds.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..f38ebe9 100644
--- a/teds.c
+++ b/teds.c
@@ -139,7 +139,7 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
@@ -221,6 +221,7 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 {
 	zend_fcall_info fci;
 	zval retval;
+	zval arg;
 	php_iterator_until_info *until_info = (php_iterator_until_info*) puser;
 	int result;
 	bool stop;
@@ -232,15 +233,13 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
-		ZVAL_DEREF(operand);
+		/* The callback may change or free the iterator's current element, so pass a copy. */
+		ZVAL_COPY_DEREF(&arg, operand);
 		fci.retval = &retval;
 		fci.param_count = 1;
-		/* Use the operand like an array of size 1 */
-		fci.params = operand;
-		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
+		fci.params = &arg;
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
+		zval_ptr_dtor(&arg);
 		if (result == FAILURE) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
@@ -255,7 +254,6 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		}
 		ZVAL_DEREF(operand);
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
@@ -772,8 +770,12 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
+				zval_ptr_dtor(&retval);
 				if (found) {
 					ZVAL_COPY_VALUE(return_value, operand);
+					if (UNEXPECTED(Z_ISREF_P(return_value))) {
+						zend_unwrap_reference(return_value);
+					}
 					return;
 				} else {
 					zval_ptr_dtor(operand);
@@ -803,6 +805,7 @@ typedef struct {
 static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /* {{{ */
 {
 	zval retval;
+	zval arg;
 	traversable_find_data *find_data = puser;
 	zend_fcall_info *fci = &find_data->fci;
 	ZEND_ASSERT(ZEND_FCI_INITIALIZED(*fci));
@@ -811,27 +814,27 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	if (UNEXPECTED(!operand || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
-	ZVAL_DEREF(operand);
-    // Treat this as a 1-element array.
-	fci->params = operand;
+	/* The callback may change or free the iterator's current element, so pass a copy. */
+	ZVAL_COPY_DEREF(&arg, operand);
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
-	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From d1ce16dc681b99049ad7a19390c694e4258b64b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:05 +0000
Subject: [PATCH 04/51] fix: cloning a Deque allocates the whole circular
 buffer its mask describes

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..5cc5cd9 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
-- 
2.43.0


From 92c86a8d2db0f9237eeaf5680638777f9949e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:08 +0000
Subject: [PATCH 05/51] fix: Deque get_gc reports every element after the
 buffer wraps around

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 5cc5cd9..3c86822 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
-- 
2.43.0


From 952dd38750f16f1f8d7de1248218f831f5c79a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:10 +0000
Subject: [PATCH 06/51] fix: Deque::containsKey returns the declared bool

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 3c86822..8f5f314 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -840,7 +840,7 @@ PHP_METHOD(Teds_Deque, containsKey)
 	zend_long offset;
 	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	RETURN_BOOL(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From 0d1a212a434878b6625ecc7316de3b4afda0f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 07/51] fix: Deque::clear keeps its registered iterators and
 stays initialised

---
 teds_deque.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 8f5f314..8c98a2a 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -507,7 +507,10 @@ PHP_METHOD(Teds_Deque, clear)
 	}
 	/* Immediately make the original storage inaccessible and set count/capacity to 0 in case destructors modify the deque */
 	teds_deque_entries old_array = intern->array;
-	memset(&intern->array, 0, sizeof(intern->array));
+	intern->array.size = 0;
+	intern->array.mask = 0;
+	intern->array.offset = 0;
+	intern->array.circular_buffer = (zval *)empty_entry_list;
 	teds_deque_entries_dtor(&old_array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
-- 
2.43.0


From 50beb7744bdcb3bdf5a671fb4ff4bc02f0222d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:38 +0000
Subject: [PATCH 08/51] fix: StrictHashSet/StrictHashMap advance past exhausted
 iterators when repacking

---
 teds_stricthashmap.c | 1 +
 teds_stricthashset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..8050dd8 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -382,6 +382,7 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
 			it->current = array->nNumOfElements;
+			dllist_node = dllist_node->next;
 			continue;
 		}
 		// old_position < nNumUsed
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..1a337e4 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -348,6 +348,7 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
 			it->current = array->nNumOfElements;
+			dllist_node = dllist_node->next;
 			continue;
 		}
 		// old_position < nNumUsed
-- 
2.43.0


From 992423a20ed6c51a6d1f42d89ed3100efb0b9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 09/51] fix: StrictMinHeap/StrictMaxHeap extraction walks the
 same parent/child layout insertion builds

---
 teds_strictheap.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..3aa2635 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -467,11 +467,13 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	zval *replacement = &entries[len];
 	uint32_t offset = 0;
 
-	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	/* teds_strictheap_entries_insert uses (offset >> 1) as the parent.
+	 *       0
+	 *       1
+	 *    2     3
+	 *   4 5   6 7 */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset > 0 ? offset * 2 : 1;
 		if (new_offset >= len) {
 			break;
 		}
-- 
2.43.0


From c8751d3a6a73df65ac99593c1a8e74018fdc7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 10/51] fix: StrictMaxHeap::__set_state creates a StrictMaxHeap

---
 teds_strictheap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 3aa2635..03d8319 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
-- 
2.43.0


From 3d2dc35e84d97ce5c71626d725bd1d01fdcfdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:57 +0000
Subject: [PATCH 11/51] fix: IntVector::shift moves all remaining elements

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..6691dc6 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2301,7 +2301,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
-- 
2.43.0


From b07dd1bfa4d29a49a0a7ce34dae09a8c88a21161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:01 +0000
Subject: [PATCH 12/51] fix: IntVector does not free the shared empty list when
 widening an unallocated vector

---
 teds_intvector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 6691dc6..5d22260 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1799,7 +1799,8 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
-		const size_t capacity = array->capacity >= 2 ? array->capacity : 4; \
+		const size_t old_capacity = array->capacity; \
+		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
 		const int_larger *const end = entries_larger + size; \
@@ -1808,7 +1809,7 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			teds_intvector_efree_byte_array(original_entries); \
 		} \
 		return; \
-- 
2.43.0


From 1a60a442c2e23756618a57b8a68db958ecd0ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:30 +0000
Subject: [PATCH 13/51] fix: ImmutableSortedIntSet can be cloned

---
 teds_intvector.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 5d22260..7279cc9 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -518,6 +518,16 @@ static zend_object *teds_sortedintvectorset_clone(zend_object *old_object)
 	return new_object;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	zend_object *new_object = teds_immutablesortedintset_new(old_object->ce);
+	teds_intvector_entries_copy_ctor(teds_intvector_entries_from_object(new_object), teds_intvector_entries_from_object(old_object));
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_intvector_count_elements(zend_object *object, zend_long *count)
 {
 	const teds_intvector *intern = teds_intvector_from_object(object);
@@ -2465,7 +2475,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From e5ed7b49e5a0018991e2712087a4a34d5a94adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 14/51] fix: SortedIntVectorSet::indexOf returns null for a
 value outside the stored integer width

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 7279cc9..0343fe0 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1629,7 +1629,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
-- 
2.43.0


From 44677d83ad8cc306f4813054363f983098ae07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 15/51] fix:
 SortedIntVectorSet/ImmutableSortedIntSet::__set_state create an object of
 their own class

---
 teds_intvector.c         | 18 +++++++++++++++++-
 teds_intvector.stub.php  |  3 +--
 teds_intvector_arginfo.h |  9 ++++++---
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 0343fe0..02f6fea 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1371,7 +1371,23 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	zend_object *object = teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
+	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
+	teds_intvector_entries_init_from_array_values(array, array_ht);
+
+	teds_intvector_entries_sort_and_deduplicate(array);
+
+	RETURN_OBJ(object);
+}
+
+PHP_METHOD(Teds_ImmutableSortedIntSet, __set_state)
+{
+	zend_array *array_ht;
+
+	ZEND_PARSE_PARAMETERS_START(1, 1)
+		Z_PARAM_ARRAY_HT(array_ht)
+	ZEND_PARSE_PARAMETERS_END();
+	zend_object *object = teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
diff --git a/teds_intvector.stub.php b/teds_intvector.stub.php
index b8d0412..ea5144f 100644
--- a/teds_intvector.stub.php
+++ b/teds_intvector.stub.php
@@ -197,7 +197,7 @@ final class SortedIntVectorSet implements \IteratorAggregate, Set, \JsonSerializ
     /**
      * Create a SortedIntVectorSet of unique values from an array
      */
-    public static function __set_state(array $array): IntVector {}
+    public static function __set_state(array $array): SortedIntVectorSet {}
 
     /**
      * @throws \UnderflowException if there are no more elements
@@ -311,7 +311,6 @@ final class ImmutableSortedIntSet implements \IteratorAggregate, Set, \JsonSeria
 
     /**
      * Create an ImmutableSortedIntSet of unique integers from an array
-     * @implementation-alias Teds\SortedIntVectorSet::__set_state
      */
     public static function __set_state(array $array): ImmutableSortedIntSet {}
 
diff --git a/teds_intvector_arginfo.h b/teds_intvector_arginfo.h
index ab69827..299f4e6 100644
--- a/teds_intvector_arginfo.h
+++ b/teds_intvector_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 2a4293ac607ff32bddac6c9564f497ffc23b1d0f */
+ * Stub hash: de3a77dc0150d17cd7e0f5807999de5ca05f0594 */
 
 ZEND_BEGIN_ARG_INFO_EX(arginfo_class_Teds_IntVector___construct, 0, 0, 0)
 	ZEND_ARG_OBJ_TYPE_MASK(0, iterator, Traversable, MAY_BE_ARRAY, "[]")
@@ -125,7 +125,9 @@ ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet___unserialize arginfo_class_Teds_IntVector___unserialize
 
-#define arginfo_class_Teds_SortedIntVectorSet___set_state arginfo_class_Teds_IntVector___set_state
+ZEND_BEGIN_ARG_WITH_RETURN_OBJ_INFO_EX(arginfo_class_Teds_SortedIntVectorSet___set_state, 0, 1, Teds\\SortedIntVectorSet, 0)
+	ZEND_ARG_TYPE_INFO(0, array, IS_ARRAY, 0)
+ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet_pop arginfo_class_Teds_IntVector_count
 
@@ -230,6 +232,7 @@ ZEND_METHOD(Teds_SortedIntVectorSet, contains);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, __construct);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, __serialize);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, __unserialize);
+ZEND_METHOD(Teds_ImmutableSortedIntSet, __set_state);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, add);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, clear);
 
@@ -305,7 +308,7 @@ static const zend_function_entry class_Teds_ImmutableSortedIntSet_methods[] = {
 	ZEND_MALIAS(Teds_IntVector, isEmpty, isEmpty, arginfo_class_Teds_ImmutableSortedIntSet_isEmpty, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, __serialize, arginfo_class_Teds_ImmutableSortedIntSet___serialize, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, __unserialize, arginfo_class_Teds_ImmutableSortedIntSet___unserialize, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_SortedIntVectorSet, __set_state, __set_state, arginfo_class_Teds_ImmutableSortedIntSet___set_state, ZEND_ACC_PUBLIC|ZEND_ACC_STATIC)
+	ZEND_ME(Teds_ImmutableSortedIntSet, __set_state, arginfo_class_Teds_ImmutableSortedIntSet___set_state, ZEND_ACC_PUBLIC|ZEND_ACC_STATIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, add, arginfo_class_Teds_ImmutableSortedIntSet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_ImmutableSortedIntSet, remove, add, arginfo_class_Teds_ImmutableSortedIntSet_remove, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, clear, arginfo_class_Teds_ImmutableSortedIntSet_clear, ZEND_ACC_PUBLIC)
-- 
2.43.0


From abb86e232f722056af1f2832e6713ea45ce2483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:57 +0000
Subject: [PATCH 16/51] fix: toArray() of mutable maps and sets survives error
 handlers that modify the collection

---
 teds_mutableiterable.c       | 28 +++++++++-------------------
 teds_stricthashmap.c         | 21 ++++++++++-----------
 teds_stricthashset.c         | 21 ++++++++++-----------
 teds_strictsortedvectormap.c | 26 +++++++++-----------------
 teds_strictsortedvectorset.c | 25 +++++++++----------------
 teds_stricttreemap.c         | 19 +++++++++----------
 teds_stricttreeset.c         | 21 ++++++++++-----------
 teds_util.c                  | 25 +++++++++++++++++++++++++
 teds_zval_pair.h             |  2 ++
 9 files changed, 93 insertions(+), 95 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..0fa2e6a 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -27,6 +27,7 @@
 #include "ext/spl/spl_exceptions.h"
 #include "ext/spl/spl_iterators.h"
 #include "ext/json/php_json.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds_exceptions.h"
@@ -979,29 +980,18 @@ PHP_METHOD(Teds_MutableIterable, values)
 PHP_METHOD(Teds_MutableIterable, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
-	teds_mutableiterable_entries *const array = Z_MUTABLEITERABLE_ENTRIES_P(ZEND_THIS);
-	if (!array->size) {
+	const teds_mutableiterable_entries *const array = Z_MUTABLEITERABLE_ENTRIES_P(ZEND_THIS);
+	const uint32_t len = array->size;
+	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
 
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval_pair *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
+		ZVAL_COPY(&pairs[i].key, &array->entries[i].key);
+		ZVAL_COPY(&pairs[i].value, &array->entries[i].value);
 	}
-	RETURN_ARR(values);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 PHP_METHOD(Teds_MutableIterable, keyAt)
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 8050dd8..f3db0c4 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -22,6 +22,7 @@
 #include "php_teds.h"
 #include "teds_stricthashmap_arginfo.h"
 #include "teds_stricthashmap.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds_exceptions.h"
@@ -1352,23 +1353,21 @@ PHP_METHOD(Teds_StrictHashMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricthashmap_entries *const array = Z_STRICTHASHMAP_ENTRIES_P(ZEND_THIS);
-	if (!array->nNumOfElements) {
+	const uint32_t len = array->nNumOfElements;
+	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *key, *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHMAP_FOREACH_KEY_VAL(array, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTHASHMAP_FOREACH_END();
-	RETURN_ARR(values);
+	ZEND_ASSERT(i == len);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 static void teds_stricthashmap_clear(teds_stricthashmap *intern) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 1a337e4..e65cf9c 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -30,6 +30,7 @@
 #include "php_teds.h"
 #include "teds_stricthashset_arginfo.h"
 #include "teds_stricthashset.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds.h"
@@ -909,23 +910,21 @@ PHP_METHOD(Teds_StrictHashSet, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricthashset_entries *const array = Z_STRICTHASHSET_ENTRIES_P(ZEND_THIS);
-	if (!array->nNumOfElements) {
+	const uint32_t len = array->nNumOfElements;
+	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHSET_FOREACH_VAL(array, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, val);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTHASHSET_FOREACH_END();
-	RETURN_ARR(values);
+	ZEND_ASSERT(i == len);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 /* XXX copy zend_hash_del */
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..3e92efa 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -21,6 +21,7 @@
 #include "php_teds.h"
 #include "teds_strictsortedvectormap_arginfo.h"
 #include "teds_strictsortedvectormap.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds_exceptions.h"
@@ -1031,27 +1032,18 @@ PHP_METHOD(Teds_StrictSortedVectorMap, toPairs)
 PHP_METHOD(Teds_StrictSortedVectorMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
-	teds_strictsortedvectormap_entries *const array = Z_STRICTSORTEDVECTORMAP_ENTRIES_P(ZEND_THIS);
-	if (!array->size) {
+	const teds_strictsortedvectormap_entries *const array = Z_STRICTSORTEDVECTORMAP_ENTRIES_P(ZEND_THIS);
+	const uint32_t len = array->size;
+	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->size);
-	for (uint32_t i = 0; i < array->size; i++) {
-		teds_strictsortedvectormap_entry *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
+		ZVAL_COPY(&pairs[i].key, &array->entries[i].key);
+		ZVAL_COPY(&pairs[i].value, &array->entries[i].value);
 	}
-	RETURN_ARR(values);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 static void teds_strictsortedvectormap_clear(teds_strictsortedvectormap *intern) {
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..cae60a7 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -22,6 +22,7 @@
 #include "php_teds.h"
 #include "teds_strictsortedvectorset_arginfo.h"
 #include "teds_strictsortedvectorset.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds_exceptions.h"
@@ -521,26 +522,18 @@ PHP_METHOD(Teds_StrictSortedVectorSet, __set_state)
 PHP_METHOD(Teds_StrictSortedVectorSet, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
-	teds_strictsortedvectorset_entries *const array = Z_STRICTSORTEDVECTORSET_ENTRIES_P(ZEND_THIS);
-	if (!array->size) {
+	const teds_strictsortedvectorset_entries *const array = Z_STRICTSORTEDVECTORSET_ENTRIES_P(ZEND_THIS);
+	const uint32_t len = array->size;
+	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
 
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval *key = &array->entries[i];
-
-		Z_TRY_ADDREF_P(key);
-		array_set_zval_key(values, key, key);
-		zval_ptr_dtor_nogc(key);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
+		ZVAL_COPY(&pairs[i].key, &array->entries[i]);
+		ZVAL_COPY(&pairs[i].value, &array->entries[i]);
 	}
-	RETURN_ARR(values);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 static teds_strictsortedvectorset_search_result teds_strictsortedvectorset_entries_sorted_search_for_key(const teds_strictsortedvectorset_entries *array, zval *key)
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..8da3201 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -20,6 +20,7 @@
 #include "php_teds.h"
 #include "teds_stricttreemap_arginfo.h"
 #include "teds_stricttreemap.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds_exceptions.h"
@@ -1601,23 +1602,21 @@ PHP_METHOD(Teds_StrictTreeMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricttreemap_tree *const tree = &Z_STRICTTREEMAP_P(ZEND_THIS)->tree;
-	uint32_t len = tree->nNumOfElements;
+	const uint32_t len = tree->nNumOfElements;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *values = zend_new_array(len);
 
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *key, *val;
 	TEDS_STRICTTREEMAP_FOREACH_KEY_VAL(tree, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTTREEMAP_FOREACH_END();
-	RETURN_ARR(values);
+	ZEND_ASSERT(i == len);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 static ZEND_COLD void teds_stricttreemap_node_debug_representation(zval *return_value, teds_stricttreemap_node *node, zend_string *strings[5]) {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..0d2e542 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -20,6 +20,7 @@
 #include "php_teds.h"
 #include "teds_stricttreeset_arginfo.h"
 #include "teds_stricttreeset.h"
+#include "teds_zval_pair.h"
 #include "teds_util.h"
 #include "teds_interfaces.h"
 #include "teds.h"
@@ -945,23 +946,21 @@ PHP_METHOD(Teds_StrictTreeSet, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricttreeset_tree *const tree = Z_STRICTTREESET_TREE_P(ZEND_THIS);
-	if (!tree->nNumOfElements) {
+	const uint32_t len = tree->nNumOfElements;
+	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(tree->nNumOfElements);
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTTREESET_FOREACH_KEY(tree, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, val);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTTREESET_FOREACH_END();
-	RETURN_ARR(values);
+	ZEND_ASSERT(i == len);
+	teds_zval_pairs_snapshot_return_array(return_value, pairs, len);
 }
 
 static void teds_stricttreeset_tree_replace_node_with_child(teds_stricttreeset_tree *tree, teds_stricttreeset_node *removed_node, teds_stricttreeset_node *child_node) {
diff --git a/teds_util.c b/teds_util.c
index c00aa9c..db54c30 100644
--- a/teds_util.c
+++ b/teds_util.c
@@ -1,4 +1,5 @@
 #include "teds_util.h"
+#include "teds_zval_pair.h"
 
 /* Override get_properties_for and use the default implementation of get_properties. See https://github.com/php/php-src/issues/9697#issuecomment-1273613175 */
 HashTable* teds_noop_empty_array_get_properties_for(zend_object *obj, zend_prop_purpose purpose) {
@@ -23,4 +24,28 @@ HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table
 	return NULL;
 }
 
+/*
+ * Converts a snapshot of key/value pairs to a php array with normalized keys, and frees the snapshot.
+ *
+ * array_set_zval_key can emit notices for keys such as floats and resources.
+ * A user error handler may then modify the collection the snapshot was taken from.
+ */
+void teds_zval_pairs_snapshot_return_array(zval *return_value, zval_pair *const pairs, const uint32_t len)
+{
+	zend_array *const values = zend_new_array(len);
+	for (uint32_t i = 0; i < len; i++) {
+		if (EXPECTED(!EG(exception))) {
+			array_set_zval_key(values, &pairs[i].key, &pairs[i].value);
+		}
+		zval_ptr_dtor(&pairs[i].key);
+		zval_ptr_dtor(&pairs[i].value);
+	}
+	efree(pairs);
+	if (UNEXPECTED(EG(exception))) {
+		zend_array_destroy(values);
+		RETURN_THROWS();
+	}
+	RETURN_ARR(values);
+}
+
 const zval teds_empty_entry_list[1];
diff --git a/teds_zval_pair.h b/teds_zval_pair.h
index 105d52a..de69dff 100644
--- a/teds_zval_pair.h
+++ b/teds_zval_pair.h
@@ -6,4 +6,6 @@ typedef struct _zval_pair {
 	zval value;
 } zval_pair;
 
+void teds_zval_pairs_snapshot_return_array(zval *return_value, zval_pair *const pairs, const uint32_t len);
+
 #endif
-- 
2.43.0


From 468d84021d11e0540db8fdfadd47e19958506263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:08 +0000
Subject: [PATCH 17/51] fix: CachedIterable stops fetching when re-entered, and
 returns after rethrowing the end exception

---
 teds_cachediterable.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..b50f6ba 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -242,7 +242,10 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			/* Either this is done, or an exception was thrown (e.g. for reentry, where iter is still set) */
+			return;
+		}
 	}
 }
 
@@ -268,6 +271,7 @@ static zend_always_inline bool teds_cachediterable_entries_ensure_offset_exists(
 		} \
 	} else if (UNEXPECTED((array)->end_exception)) {  \
 		teds_cachediterable_entries_throw_end_exception((array)); \
+		RETURN_THROWS(); \
 	} \
 } while(0)
 
-- 
2.43.0


From 9e65df914d7a31b608d38e094c1d37510fb2f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:50 +0000
Subject: [PATCH 18/51] fix: EmptySequence/EmptyMap/EmptySet methods accept and
 return what their signatures declare

---
 teds_emptycollection.c         | 10 +++++++---
 teds_emptycollection.stub.php  |  4 +---
 teds_emptycollection_arginfo.h |  9 +++++----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..3128a0a 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -244,7 +246,7 @@ PHP_METHOD(Teds_EmptyMap, offsetGet)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	RETURN_NULL();
+	TEDS_THROW_MISSING_MAP_KEY_EXCEPTION();
 }
 
 PHP_METHOD(Teds_EmptyMap, offsetUnset)
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..c87529e 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -213,7 +212,6 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function offsetSet(mixed $key, mixed $value): never {}
     /**
      * No-op for empty map.
-     * @implementation-alias Teds\StrictMinHeap::rewind
      */
     public function offsetUnset(mixed $key): void {}
 
@@ -304,7 +302,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..7dbe108 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 5f15d481b4e91cfc2590a84139279e5d4d4f0ecd */
+ * Stub hash: cf4a56a254cae15264d4acaa381720fa07436386 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -360,6 +360,7 @@ ZEND_METHOD(Teds_EmptySequence, valid);
 #endif
 #if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptyMap, offsetGet);
+ZEND_METHOD(Teds_EmptyMap, offsetUnset);
 #endif
 #if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptySequence, contains);
@@ -393,7 +394,7 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -418,7 +419,7 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, offsetGet, arginfo_class_Teds_EmptyMap_offsetGet, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetExists, contains, arginfo_class_Teds_EmptyMap_offsetExists, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetSet, offsetSet, arginfo_class_Teds_EmptyMap_offsetSet, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_StrictMinHeap, offsetUnset, rewind, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptyMap, offsetUnset, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptyMap_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, containsKey, contains, arginfo_class_Teds_EmptyMap_containsKey, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
@@ -440,7 +441,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 1339fd26ff0ce621b34079c21cda49c812f7e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 19/51] fix: BitVector::indexOf/contains do not read past the
 last byte of the bit array

---
 teds_bitvector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..0556001 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -993,6 +993,9 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
 	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
@@ -1035,6 +1038,9 @@ PHP_METHOD(Teds_BitVector, contains)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_FALSE;
+	}
 	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
-- 
2.43.0


From a5e2e531e92b4e56c462516a526da8becf9ed1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:59 +0000
Subject: [PATCH 20/51] fix: LowMemoryVector::offsetExists() no longer leaks a
 reference to the element

---
 teds_lowmemoryvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..c839448 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1207,7 +1207,7 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 	}
 	ZEND_ASSERT(offset >= 0);
 	zval tmp;
-	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
+	teds_lowmemoryvector_entries_copy_offset(array, offset, &tmp, false, false);
 	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
 }
 
-- 
2.43.0


From 002e68bd0e9132ed509df44176e6cba2d2dcd6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:59 +0000
Subject: [PATCH 21/51] fix: fromPairs() releases the source iterator when its
 rewind() throws

---
 teds_immutableiterable.c     | 1 +
 teds_mutableiterable.c       | 1 +
 teds_stricthashmap.c         | 1 +
 teds_strictsortedvectormap.c | 1 +
 teds_stricttreemap.c         | 1 +
 5 files changed, 5 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..25973dc 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -677,6 +677,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 0fa2e6a..57f3649 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -812,6 +812,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index f3db0c4..f9c5a99 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -974,6 +974,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 3e92efa..f28fee2 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -553,6 +553,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 8da3201..63c33c5 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -970,6 +970,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From a72fd7beaac0cb3a45c9323ba81ffc66b82609f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:17 +0000
Subject: [PATCH 22/51] fix: fromPairs() of a traversable with an invalid first
 pair does not leak its buffer

---
 teds_immutableiterable.c | 9 +++++++--
 teds_mutableiterable.c   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 25973dc..c35ee03 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -712,8 +712,13 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 		}
 	}
 	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+		if (size > 0) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		} else {
+			efree(entries);
+			entries = NULL;
+		}
 	}
 
 	array->size = size;
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 57f3649..273329b 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -847,8 +847,13 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 		}
 	}
 	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+		if (size > 0) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		} else {
+			efree(entries);
+			entries = NULL;
+		}
 	}
 
 	array->size = size;
-- 
2.43.0


From 11d234960b54e2d7a639d2a6642ccba6b88f2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:19 +0000
Subject: [PATCH 23/51] fix: ImmutableSortedStringSet unserialize frees its
 index when a length is malformed

---
 teds_immutablesortedstringset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..734ac98 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -521,6 +521,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
-- 
2.43.0


From 4f86c843a9c5e00b836e9aeaf02283a21b2dbf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:25 +0000
Subject: [PATCH 24/51] fix: LowMemoryVector does not free the shared empty
 list when promoting an unallocated vector

---
 teds_lowmemoryvector.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index c839448..fa384ed 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -89,6 +89,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
+		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
@@ -98,7 +99,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			efree(original_entries); \
 		} \
 		return; \
@@ -1600,6 +1601,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1609,7 +1611,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_types);
 	}
 	return;
@@ -1621,6 +1623,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1630,7 +1633,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_entries);
 	}
 }
@@ -1647,10 +1650,11 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
+	array->entries_zval = entries_zval; \
+	array->capacity = capacity; \
 	if (old_capacity > 0) { \
 		const zval *const end = entries_zval + size; \
 		zval *dst = entries_zval; \
-		array->entries_zval = entries_zval; \
 		for (; dst < end; dst++, src++) { \
 			ZVAL_LONG(dst, *src); \
 		} \
-- 
2.43.0


From 1821587aeba2f3b4b53780ab0367479167f67f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 25/51] fix: ImmutableSortedStringSet keeps the strings of a
 Traversable alive while reading it

---
 teds_immutablesortedstringset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 734ac98..f41b4e5 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,8 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		/* The iterator may release the current string when it moves forward */
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -229,6 +230,9 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
-- 
2.43.0


From f2fba7f3577ca52d6fb2352df6dd9e86e3583c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:56 +0000
Subject: [PATCH 26/51] fix: cloning an ImmutableSortedStringSet copies its
 index

---
 teds_immutablesortedstringset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index f41b4e5..5b9bf23 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -248,7 +248,8 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
-- 
2.43.0


From 92b807600a5fd917e95bb2613b48c3f305998e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:09 +0000
Subject: [PATCH 27/51] fix: iterating an ImmutableSortedStringSet releases
 each temporary string

---
 teds_immutablesortedstringset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 5b9bf23..755cab6 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -405,6 +405,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -434,6 +435,7 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -485,6 +487,7 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
+	ZVAL_UNDEF(&iterator->tmp);
 
 	return &iterator->intern;
 }
-- 
2.43.0


From 81b641a563b07d88452bf7e32aaf387cc17888c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:44 +0000
Subject: [PATCH 28/51] fix: a collection built from an empty source counts as
 constructed

---
 teds_cachediterable.c        |  3 ++-
 teds_deque.c                 |  8 +++++---
 teds_immutableiterable.c     | 16 ++++++++++------
 teds_immutablesequence.c     |  8 +++++---
 teds_mutableiterable.c       | 16 ++++++++++------
 teds_strictheap.c            |  2 +-
 teds_strictsortedvectormap.c |  4 ++--
 teds_strictsortedvectorset.c |  6 ++++--
 teds_vector.c                |  8 +++++---
 9 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index b50f6ba..19f6111 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -705,7 +705,8 @@ static void teds_cachediterable_entries_init_from_array_pairs(teds_cachediterabl
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval_pair *)empty_entry_list;
+		num_entries = 0;
 	}
 
 	array->entries = entries;
diff --git a/teds_deque.c b/teds_deque.c
index 8c98a2a..1ec9e06 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -175,7 +175,7 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 	size_t capacity = 0;
 	array->size = 0;
 	array->offset = 0;
-	array->circular_buffer = NULL;
+	array->circular_buffer = (zval *)empty_entry_list;
 	zval *circular_buffer = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -225,7 +225,9 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 
 	array->size = size;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
-	array->circular_buffer = circular_buffer;
+	if (circular_buffer) {
+		array->circular_buffer = circular_buffer;
+	}
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
 cleanup_iter:
 	if (iter) {
@@ -704,7 +706,7 @@ static void teds_deque_entries_init_from_array_values(teds_deque_entries *array,
 	if (num_entries == 0) {
 		array->size = 0;
 		array->mask = 0;
-		array->circular_buffer = NULL;
+		array->circular_buffer = (zval *)empty_entry_list;
 		return;
 	}
 	const size_t capacity = teds_deque_next_pow2_capacity(num_entries);
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index c35ee03..10c1e21 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -132,7 +132,7 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
 	array->size = 0;
-	array->entries = NULL;
+	array->entries = (zval_pair *)empty_entry_list;
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -201,7 +201,9 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	}
 
 	array->size = size;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -633,7 +635,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
 		array->size = 0;
-		array->entries = NULL;
+		array->entries = (zval_pair *)empty_entry_list;
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -649,7 +651,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval_pair *)empty_entry_list;
 	}
 
 	array->entries = entries;
@@ -662,7 +664,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
 	array->size = 0;
-	array->entries = NULL;
+	array->entries = (zval_pair *)empty_entry_list;
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -722,7 +724,9 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	}
 
 	array->size = size;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 718a2bf..5e44d04 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -128,7 +128,7 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
 	array->size = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -181,7 +181,9 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	}
 
 	array->size = size;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -604,7 +606,7 @@ static void teds_immutablesequence_entries_init_from_array_values(teds_immutable
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval *)empty_entry_list;
 	}
 
 	array->entries = entries;
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 273329b..adfb32a 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -166,7 +166,7 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
 	array->size = 0;
-	array->entries = NULL;
+	array->entries = (zval_pair *)empty_entry_list;
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -232,7 +232,9 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -765,7 +767,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 	if (num_entries == 0) {
 		array->size = 0;
 		array->capacity = 0;
-		array->entries = NULL;
+		array->entries = (zval_pair *)empty_entry_list;
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -781,7 +783,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval_pair *)empty_entry_list;
 		num_entries = 0;
 	}
 
@@ -797,7 +799,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	zend_long size = 0, capacity = 0;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval_pair *)empty_entry_list;
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -858,7 +860,9 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_strictheap.c b/teds_strictheap.c
index 03d8319..c19807b 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -144,7 +144,7 @@ static void teds_strictheap_entries_init_from_traversable(teds_strictheap_entrie
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index f28fee2..8dde58c 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -168,7 +168,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
@@ -539,7 +539,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index cae60a7..b9918a7 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -218,7 +218,7 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 	zend_long size = 0, capacity = 0;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -268,7 +268,9 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 
 	array->size = size;
 	array->capacity = capacity;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	if (size > 1) {
 		teds_strictsortedvectorset_entries_sort_and_deduplicate(array);
diff --git a/teds_vector.c b/teds_vector.c
index 5dfdd72..b108164 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -138,7 +138,7 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 	uint32_t size = 0;
 	size_t capacity = 0;
 	array->size = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -210,7 +210,9 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 	array->size = size;
 	TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	array->capacity = size;
-	array->entries = entries;
+	if (entries) {
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -762,7 +764,7 @@ static void teds_vector_entries_init_from_array_values(teds_vector_entries *arra
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval *)empty_entry_list;
 		num_entries = 0;
 	}
 
-- 
2.43.0


From 621d65808459756c460cfe9b0e09315b3b418f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 29/51] fix: unserialising an empty collection does not leak a
 zero-size block

---
 teds_cachediterable.c    | 4 ++++
 teds_immutableiterable.c | 4 ++++
 teds_immutablesequence.c | 4 ++++
 teds_mutableiterable.c   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 19f6111..7291bce 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -638,6 +638,10 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 	ZEND_ASSERT(array->entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 10c1e21..5dea7e1 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -584,6 +584,10 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 	ZEND_ASSERT(intern->array.entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 5e44d04..36ed832 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -566,6 +566,10 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
 
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index adfb32a..26683e3 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -714,6 +714,10 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 	ZEND_ASSERT(intern->array.entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
-- 
2.43.0


From f7ac613cd5a873884f26a636c2751896438dccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:26 +0000
Subject: [PATCH 30/51] fix: iterators of ImmutableSequence, ImmutableIterable
 and LowMemoryVector report their collection to the cycle collector

---
 teds_immutableiterable.c | 2 +-
 teds_immutablesequence.c | 2 +-
 teds_lowmemoryvector.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 5dea7e1..c099a2f 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -536,7 +536,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 36ed832..3bb0e2e 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -523,7 +523,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index fa384ed..5abea53 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -610,7 +610,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From 5f69c6349b16905edafd5b0a493a9a17f946e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:20 +0000
Subject: [PATCH 31/51] fix: unserialising malformed or empty integer, bit and
 string data throws or yields a valid collection

---
 teds_bitvector.c                | 10 +++++++---
 teds_immutablesortedstringset.c |  4 ++++
 teds_intvector.c                | 28 +++++++++++++++++++++++-----
 teds_lowmemoryvector.c          |  8 ++++++++
 4 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 0556001..8636a6b 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -619,7 +619,10 @@ zend_object_iterator *teds_bitvector_get_iterator(zend_class_entry *ce, zval *ob
 static void teds_bitvector_initialize_from_bytes(teds_bitvector_entries *array, const uint8_t *bytes, const size_t byte_count, const uint8_t modulo_bit_len)
 {
 	const size_t bit_size = byte_count * 8 - modulo_bit_len;
-	ZEND_ASSERT(bit_size > 0);
+	if (UNEXPECTED(bit_size == 0)) {
+		teds_bitvector_entries_set_empty_list(array);
+		return;
+	}
 	const size_t bit_capacity = teds_bitvector_compute_next_valid_capacity(bit_size);
 	// fprintf(stderr, "byte_count=%d modulo_bit_len=%d bit_size=%d bit_capacity=%d\n", (int)byte_count, (int)modulo_bit_len, (int)bit_size, (int)bit_capacity);
 	uint8_t *const bytes_copy = emalloc(bit_capacity >> 3);
@@ -667,7 +670,7 @@ PHP_METHOD(Teds_BitVector, __unserialize)
 	const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 	const size_t byte_count = ZSTR_LEN(zstr) - 1;
 	const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-	if (modulo_bit_len >= 8) {
+	if (modulo_bit_len >= 8 || (byte_count == 0 && modulo_bit_len > 0)) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 		RETURN_THROWS();
 	}
@@ -801,7 +804,8 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 		const size_t byte_count = ZSTR_LEN(zstr) - 1;
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-		if (modulo_bit_len >= 8) {
+		if (modulo_bit_len >= 8 || (byte_count == 0 && modulo_bit_len > 0)) {
+			zend_object_release(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 			RETURN_THROWS();
 		}
diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 755cab6..bac08b0 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -602,6 +602,10 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, unserialize)
 		teds_immutablesortedstringset_entries_set_empty_list(array);
 	} else {
 		teds_immutablesortedstringset_entries_unserialize_from_zend_string(array, zstr);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
diff --git a/teds_intvector.c b/teds_intvector.c
index 02f6fea..6c782ac 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -927,7 +927,11 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 
 static void teds_intvector_entries_unserialize_from_string(teds_intvector_entries *array, const char *strval, const size_t str_byte_length, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
+	ZEND_ASSERT(type_tag > TEDS_INTVECTOR_TYPE_UNINITIALIZED && type_tag < TEDS_INTVECTOR_TYPE_COUNT);
+	if (UNEXPECTED(str_byte_length == 0)) {
+		teds_intvector_entries_set_empty_list(array);
+		return;
+	}
 	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
@@ -992,7 +996,11 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 
 static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intvector_entries *array, zend_string *src_str, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
+	ZEND_ASSERT(type_tag > TEDS_INTVECTOR_TYPE_UNINITIALIZED && type_tag < TEDS_INTVECTOR_TYPE_COUNT);
+	if (UNEXPECTED(ZSTR_LEN(src_str) == 0)) {
+		teds_intvector_entries_set_empty_list(array);
+		return;
+	}
 	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
@@ -1098,7 +1106,7 @@ PHP_METHOD(Teds_IntVector, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1142,7 +1150,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\SortedIntVectorSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1194,7 +1202,7 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1234,11 +1242,21 @@ PHP_METHOD(Teds_IntVector, unserialize)
 		teds_intvector_entries_set_empty_list(array);
 	} else {
 		if (len < 2) {
+			zend_object_release(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
 			RETURN_THROWS();
 		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
+		if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+			zend_object_release(new_object);
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
+			RETURN_THROWS();
+		}
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 5abea53..f0a56dc 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -686,6 +686,10 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
+	if (UNEXPECTED(num_entries == 0)) {
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
 	zval *entries = emalloc(num_entries * sizeof(zval));
 	zval *it = entries;
 	zval *val;
@@ -866,6 +870,10 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
-- 
2.43.0


From 953c93af17dec411c0f697a3ead75e8b5df16acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:00 +0000
Subject: [PATCH 32/51] fix: unserialising an empty StrictTreeMap does not
 build a tree from no nodes

---
 teds_stricttreemap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 63c33c5..0406062 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -859,6 +859,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
-- 
2.43.0


From 691de03df87d97397b460eacfbbcceeca956ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:39 +0000
Subject: [PATCH 33/51] fix: StrictTreeSet::__unserialize does not keep
 references to the unserialised values

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 0d2e542..6482505 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -843,6 +843,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
-- 
2.43.0


From a04d371ae7c86678de61f8532bb99548bb2943b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:55 +0000
Subject: [PATCH 34/51] fix: Teds\fold() over a Traversable does not return a
 reference from the callback

---
 teds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds.c b/teds.c
index f38ebe9..284ac88 100644
--- a/teds.c
+++ b/teds.c
@@ -144,6 +144,9 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
+	if (UNEXPECTED(Z_ISREF_P(fci->retval))) {
+		zend_unwrap_reference(fci->retval);
+	}
 	return ZEND_HASH_APPLY_KEEP;
 }
 /* }}} */
-- 
2.43.0


From f6032609e14eb91566f67d44c129e06e889cb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 35/51] fix: Teds\any/all/none/find over an array stop at the
 first exception of the callback

---
 teds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds.c b/teds.c
index 284ac88..aba2845 100644
--- a/teds.c
+++ b/teds.c
@@ -191,7 +191,7 @@ static inline void php_array_until(zval *return_value, HashTable *htbl, zend_fca
 			/* Treat the operand like an array of size 1  */
 			result = zend_call_function(&fci, &fci_cache);
 			zval_ptr_dtor(operand);
-			if (result == FAILURE) {
+			if (UNEXPECTED(result == FAILURE || EG(exception))) {
 				return;
 			}
 			const bool retval_true = zend_is_true(&retval);
@@ -771,7 +771,7 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 			fci.params = operand;
 			Z_TRY_ADDREF_P(operand);
 
-			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
+			if (zend_call_function(&fci, &fci_cache) == SUCCESS && EXPECTED(!EG(exception))) {
 				bool found = zend_is_true(&retval);
 				zval_ptr_dtor(&retval);
 				if (found) {
-- 
2.43.0


From 90c0212b42b50aa7a303311c4590df065e35626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 36/51] fix: Teds\any/all/none stop iterating a Traversable
 when the callback throws

---
 teds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds.c b/teds.c
index aba2845..7c8b962 100644
--- a/teds.c
+++ b/teds.c
@@ -243,7 +243,7 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		fci.params = &arg;
 		result = zend_call_function(&fci, &until_info->fcc);
 		zval_ptr_dtor(&arg);
-		if (result == FAILURE) {
+		if (UNEXPECTED(result == FAILURE || EG(exception))) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
-- 
2.43.0


From 79a734562c4fda824b724ee899f23942c9fe6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 37/51] fix: BitVector, IntVector and LowMemoryVector are
 unchanged when push, insert or set throws

---
 teds_bitvector.c       | 47 +++++++++++++++++++++++++++++++-----------
 teds_intvector.c       | 38 ++++++++++++++++++++++++++--------
 teds_lowmemoryvector.c |  8 +++----
 3 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 8636a6b..a2ccd54 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1242,6 +1242,24 @@ static zend_always_inline void teds_bitvector_entries_push(teds_bitvector_entrie
 	array->bit_size++;
 }
 
+/* Check the type of every value before any of them is added, so that a failed call leaves the vector unchanged. */
+static bool teds_bitvector_validate_args(const zval *args, const uint32_t argc) {
+	for (uint32_t i = 0; i < argc; i++) {
+		const zval *value = &args[i];
+		ZVAL_DEREF(value);
+		if (UNEXPECTED(!teds_bitvector_is_bool(value))) {
+			zend_type_error("Illegal Teds\\BitVector value type %s", zend_zval_type_name(value));
+			return false;
+		}
+	}
+	return true;
+}
+
+static zend_always_inline bool teds_bitvector_arg_to_bool(const zval *value) {
+	ZVAL_DEREF(value);
+	return Z_TYPE_P(value) != IS_FALSE;
+}
+
 /* Based on array_push */
 PHP_METHOD(Teds_BitVector, push)
 {
@@ -1264,10 +1282,11 @@ PHP_METHOD(Teds_BitVector, push)
 		ZEND_UNREACHABLE();
 	}
 
+	if (UNEXPECTED(!teds_bitvector_validate_args(args, argc))) {
+		RETURN_THROWS();
+	}
 	for (uint32_t i = 0; i < argc; i++) {
-		zend_long new_value;
-		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
-		teds_bitvector_entries_push(array, new_value, true);
+		teds_bitvector_entries_push(array, teds_bitvector_arg_to_bool(&args[i]), true);
 	}
 	TEDS_RETURN_VOID();
 }
@@ -1362,12 +1381,13 @@ PHP_METHOD(Teds_BitVector, pushFront)
 		ZEND_UNREACHABLE();
 	}
 
+	if (UNEXPECTED(!teds_bitvector_validate_args(args, argc))) {
+		RETURN_THROWS();
+	}
 	/* TODO: Optimize this for large varargs case */
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, argc);
 	for (uint32_t i = 0; i < argc; i++) {
-		zend_long new_value;
-		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
-		teds_bitvector_entries_unshift_single(array, new_value);
+		teds_bitvector_entries_unshift_single(array, teds_bitvector_arg_to_bool(&args[i]));
 	}
 	TEDS_RETURN_VOID();
 }
@@ -1399,12 +1419,13 @@ PHP_METHOD(Teds_BitVector, insert)
 		ZEND_UNREACHABLE();
 	}
 
+	if (UNEXPECTED(!teds_bitvector_validate_args(args, argc))) {
+		RETURN_THROWS();
+	}
 	/* TODO: Optimize this for large varargs case */
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset, argc);
 	for (uint32_t i = 0; i < argc; i++) {
-		zend_long new_value;
-		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
-		teds_bitvector_entries_insert_single(array, inserted_offset + i, new_value);
+		teds_bitvector_entries_insert_single(array, inserted_offset + i, teds_bitvector_arg_to_bool(&args[i]));
 	}
 	TEDS_RETURN_VOID();
 }
@@ -1431,6 +1452,10 @@ PHP_METHOD(Teds_BitVector, pushBits)
 		ZEND_UNREACHABLE();
 	}
 
+	if (UNEXPECTED(!teds_bitvector_validate_args(args, argc))) {
+		RETURN_THROWS();
+	}
+
 	const size_t new_capacity = teds_bitvector_compute_next_valid_capacity(new_size);
 	if (UNEXPECTED(new_capacity > array->bit_capacity)) {
 		teds_bitvector_entries_raise_capacity(array, teds_bitvector_compute_next_valid_capacity(new_size + (new_size >> 1)));
@@ -1438,9 +1463,7 @@ PHP_METHOD(Teds_BitVector, pushBits)
 
 	uint32_t i = 0;
 	do {
-		bool new_value;
-		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
-		teds_bitvector_entries_push(array, new_value, false);
+		teds_bitvector_entries_push(array, teds_bitvector_arg_to_bool(&args[i]), false);
 		i++;
 	} while (i < argc);
 	TEDS_RETURN_VOID();
diff --git a/teds_intvector.c b/teds_intvector.c
index 6c782ac..35a5148 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1732,14 +1732,14 @@ TEDS_INTVECTOR__GENERATE_INT_CASES()
 }
 
 static zend_always_inline void teds_intvector_entries_set_value_at_offset(teds_intvector_entries *const array, const zend_long offset, const zend_long value, const bool check_type_tag) {
-	if (check_type_tag) {
-		teds_intvector_entries_update_type_tag(array, value);
-	}
 	const size_t len = array->size;
 	if (UNEXPECTED((zend_ulong) offset >= len)) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (check_type_tag) {
+		teds_intvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: \
@@ -2051,6 +2051,24 @@ after_remove:
 	return true;
 }
 
+/* Check the type of every value before any of them is added, so that a failed call leaves the vector unchanged. */
+static bool teds_intvector_validate_args(const zval *args, const uint32_t argc) {
+	for (uint32_t i = 0; i < argc; i++) {
+		const zval *value = &args[i];
+		ZVAL_DEREF(value);
+		if (UNEXPECTED(Z_TYPE_P(value) != IS_LONG)) {
+			zend_type_error("Illegal Teds\\IntVector value type %s", zend_zval_type_name(value));
+			return false;
+		}
+	}
+	return true;
+}
+
+static zend_always_inline zend_long teds_intvector_arg_to_long(const zval *value) {
+	ZVAL_DEREF(value);
+	return Z_LVAL_P(value);
+}
+
 /* Based on array_push */
 PHP_METHOD(Teds_IntVector, push)
 {
@@ -2073,10 +2091,11 @@ PHP_METHOD(Teds_IntVector, push)
 		ZEND_UNREACHABLE();
 	}
 
+	if (UNEXPECTED(!teds_intvector_validate_args(args, argc))) {
+		RETURN_THROWS();
+	}
 	for (uint32_t i = 0; i < argc; i++) {
-		zend_long new_value;
-		TEDS_INTVECTOR_VALUE_TO_LONG_OR_THROW(new_value, (&args[i]));
-		teds_intvector_entries_push(array, new_value, true);
+		teds_intvector_entries_push(array, teds_intvector_arg_to_long(&args[i]), true);
 	}
 	TEDS_RETURN_VOID();
 }
@@ -2270,10 +2289,11 @@ PHP_METHOD(Teds_IntVector, pushInts)
 		ZEND_UNREACHABLE();
 	}
 
+	if (UNEXPECTED(!teds_intvector_validate_args(args, argc))) {
+		RETURN_THROWS();
+	}
 	for (uint32_t i = 0; i < argc; i++) {
-		zend_long new_value;
-		TEDS_INTVECTOR_VALUE_TO_LONG_OR_THROW(new_value, (&args[i]));
-		teds_intvector_entries_push(array, new_value, true);
+		teds_intvector_entries_push(array, teds_intvector_arg_to_long(&args[i]), true);
 	}
 	TEDS_RETURN_VOID();
 }
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f0a56dc..0f373af 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1445,14 +1445,14 @@ PHP_METHOD(Teds_LowMemoryVector, contains)
 }
 
 static void teds_lowmemoryvector_entries_set_value_at_offset(teds_lowmemoryvector_entries *array, zend_long offset, const zval *value, bool is_update) {
-	if (is_update) {
-		teds_lowmemoryvector_entries_update_type_tag(array, value);
-	}
-
 	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->size))) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (is_update) {
+		teds_lowmemoryvector_entries_update_type_tag(array, value);
+	}
+
 	switch (array->type_tag) {
 		case LMV_TYPE_BOOL_OR_NULL: {
 			array->entries_uint8[offset] = teds_lowmemoryvector_entries_get_type(value);
-- 
2.43.0


From 3f964344dbc82db6f0195e938e6d633bd6375578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 38/51] fix: IntVector::pushFront and insert keep the integer
 width when a later argument is invalid

---
 teds_intvector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 35a5148..b89b3de 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2179,7 +2179,9 @@ PHP_METHOD(Teds_IntVector, pushFront)
 			v = Z_LVAL_P(arg);
 		}
 		longs[i] = v;
-		teds_intvector_entries_update_type_tag(array, v);
+	}
+	for (uint32_t i = 0; i < argc; i++) {
+		teds_intvector_entries_update_type_tag(array, longs[i]);
 	}
 	const size_t old_size = array->size;
 	const size_t new_size = old_size + argc;
@@ -2242,7 +2244,9 @@ PHP_METHOD(Teds_IntVector, insert)
 			v = Z_LVAL_P(arg);
 		}
 		longs[i] = v;
-		teds_intvector_entries_update_type_tag(array, v);
+	}
+	for (uint32_t i = 0; i < argc; i++) {
+		teds_intvector_entries_update_type_tag(array, longs[i]);
 	}
 
 	const uint8_t memory_per_element = teds_intvector_entries_compute_memory_per_element(array);
-- 
2.43.0


From 022385e2cd832415e4dc228d7b15313f6ae2b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:38 +0000
Subject: [PATCH 39/51] fix: live iterators of a SortedIntVectorSet follow
 add() and remove()

---
 teds_intvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index b89b3de..d2b5ee4 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1994,6 +1994,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -2025,6 +2026,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
-- 
2.43.0


From 795b608d1ace31a2acd5bda3c3bc2ede6ae5c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 40/51] fix: new iterators of IntVector, SortedIntVectorSet,
 StrictTreeMap and StrictTreeSet start out initialised

---
 teds_intvector.c     | 1 +
 teds_stricttreemap.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index d2b5ee4..c3b0c62 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -920,6 +920,7 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 	zend_object *obj = Z_OBJ_P(object);
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_intvector_it_funcs;
+	iterator->current = 0;
 	teds_intrusive_dllist_prepend(&teds_intvector_entries_from_object(obj)->active_iterators, &iterator->dllist_node);
 
 	return &iterator->intern;
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 0406062..88b46da 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -830,6 +830,7 @@ zend_object_iterator *teds_stricttreemap_get_iterator(zend_class_entry *ce, zval
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_stricttreemap_it_funcs;
 	iterator->node = teds_stricttreemap_tree_get_first(&Z_STRICTTREEMAP_P(object)->tree);
+	iterator->is_before_first = iterator->node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreemap_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
-- 
2.43.0


From 2831f05caf560cb866c711f74db2a0b8633a3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:44 +0000
Subject: [PATCH 41/51] fix: StrictTreeMap/StrictTreeSet::clear() detaches live
 iterators from the freed nodes

---
 teds_stricttreemap.c | 8 ++++++++
 teds_stricttreeset.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 88b46da..06eda07 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1707,6 +1707,14 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 	teds_stricttreemap_tree array_copy = *tree;
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	/* The nodes that iterators point to are about to be freed. Continue with values added after this, as if each node was removed. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 
 	teds_stricttreemap_tree_dtor(&array_copy);
 	/* Could call teds_stricttreemap_get_properties but properties tree is typically not initialized unless var_dump or other inefficient functionality is used */
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 6482505..40bf3df 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -1372,6 +1372,14 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 	teds_stricttreeset_tree array_copy = *tree;
 
 	teds_stricttreeset_tree_set_empty_tree(tree);
+	/* The nodes that iterators point to are about to be freed. Continue with values added after this, as if each node was removed. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 
 	teds_stricttreeset_tree_dtor(&array_copy);
 	/* Could call teds_stricttreeset_get_properties but properties tree is typically not initialized unless var_dump or other inefficient functionality is used */
-- 
2.43.0


From 49b050bd560655b900a7a52b9db744f515e5049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:10 +0000
Subject: [PATCH 42/51] fix: a new StrictTreeSet iterator starts out
 initialised

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 40bf3df..3b35a17 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -794,6 +794,7 @@ zend_object_iterator *teds_stricttreeset_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricttreeset_it_funcs;
 	teds_stricttreeset_node *node = teds_stricttreeset_tree_get_first(&Z_STRICTTREESET_P(object)->tree);
 	iterator->node = node;
+	iterator->is_before_first = iterator->node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreeset_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
-- 
2.43.0


From bbea580949b386e07348b10f7b8b16fab9e14489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:11 +0000
Subject: [PATCH 43/51] fix: iterators on a removed StrictHashMap/StrictHashSet
 entry move to the entry before it

---
 teds_stricthashmap.c | 33 ++++++++++++++++++++++++---------
 teds_stricthashset.c | 33 ++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index f9c5a99..8ffc4a7 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -382,7 +382,9 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) { /* Iterators just before the start of the array stay there */
+				it->current = array->nNumOfElements;
+			}
 			dllist_node = dllist_node->next;
 			continue;
 		}
@@ -407,9 +409,23 @@ static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) {
+			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again). Iterators past the end stay past the end. */
+			it->current = (it->current > removed_idx ? nNumUsed : nNumUsed - 1);
+		}
+		dllist_node = dllist_node->next;
+	} while (dllist_node != NULL);
+}
+
+static void teds_stricthashmap_iterators_shift_to_previous(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+{
+	do {
+		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
+		if (it->current == removed_idx) {
+			/* Iterators where key() would be the removed key are shifted to the previous key, which may be before the start of the data */
+			do {
+				it->current--;
+			} while (it->current != (uint32_t) -1 && Z_ISUNDEF(array->arData[it->current].key));
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -815,12 +831,9 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -1170,6 +1183,8 @@ static bool teds_stricthashmap_entries_remove_key(teds_stricthashmap_entries *ar
 		if (UNEXPECTED(array->active_iterators.first)) {
 			teds_stricthashmap_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
 		}
+	} else if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashmap_iterators_shift_to_previous(array, array->active_iterators.first, idx);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index e65cf9c..9928992 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -348,7 +348,9 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) { /* Iterators just before the start of the array stay there */
+				it->current = array->nNumOfElements;
+			}
 			dllist_node = dllist_node->next;
 			continue;
 		}
@@ -373,9 +375,23 @@ static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) {
+			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again). Iterators past the end stay past the end. */
+			it->current = (it->current > removed_idx ? nNumUsed : nNumUsed - 1);
+		}
+		dllist_node = dllist_node->next;
+	} while (dllist_node != NULL);
+}
+
+static void teds_stricthashset_iterators_shift_to_previous(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+{
+	do {
+		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
+		if (it->current == removed_idx) {
+			/* Iterators where key() would be the removed key are shifted to the previous key, which may be before the start of the data */
+			do {
+				it->current--;
+			} while (it->current != (uint32_t) -1 && Z_ISUNDEF(array->arData[it->current].key));
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -776,12 +792,9 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -970,6 +983,8 @@ static bool teds_stricthashset_entries_remove_key(teds_stricthashset_entries *ar
 		if (UNEXPECTED(array->active_iterators.first)) {
 			teds_stricthashset_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
 		}
+	} else if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashset_iterators_shift_to_previous(array, array->active_iterators.first, idx);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
-- 
2.43.0


From 9a5ee0fb6230d8742dc0de8d985967ac9501e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:09 +0000
Subject: [PATCH 44/51] fix: LowMemoryVector insert and pushFront leave
 iterators before the first element in place

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 0f373af..c3ba870 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -640,11 +640,12 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
+	const size_t old_size = array->size;
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From 0f2694fcace681a716df3c901ceb908b1585f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 45/51] fix: EmptySequence first and last throw
 UnderflowException as documented

---
 teds_emptycollection.c         |  9 +++++++++
 teds_emptycollection.stub.php  | 13 +++++--------
 teds_emptycollection_arginfo.h | 15 ++++++++-------
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 3128a0a..cd6a1bb 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -216,6 +216,15 @@ ZEND_COLD PHP_METHOD(Teds_EmptySequence, pop)
 }
 
 ZEND_COLD PHP_METHOD(Teds_EmptySequence, first)
+{
+	if (zend_parse_parameters_none() == FAILURE) {
+		RETURN_THROWS();
+	}
+	zend_throw_exception(spl_ce_UnderflowException, "Cannot read from empty Teds\\EmptySequence", 0);
+	RETURN_THROWS();
+}
+
+ZEND_COLD PHP_METHOD(Teds_EmptySequence, current)
 {
 	if (zend_parse_parameters_none() == FAILURE) {
 		RETURN_THROWS();
diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index c87529e..162bf17 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -134,12 +134,9 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     /** @return false */
     public function valid(): bool { }
 
-    /**
-     * @implementation-alias Teds\EmptySequence::first
-     */
     public function current(): never { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function key(): never { }
     /**
@@ -247,11 +244,11 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function valid(): bool { }
 
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function current(): never { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function key(): never { }
     /**
@@ -331,11 +328,11 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
      */
     public function valid(): bool { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function current(): never { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function key(): never { }
     /**
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 7dbe108..e1aa628 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: cf4a56a254cae15264d4acaa381720fa07436386 */
+ * Stub hash: 4e4508aea772625630e1a838bead7f5ac1d41fd8 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -330,6 +330,7 @@ ZEND_METHOD(Teds_EmptySequence, pop);
 #endif
 #if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptySequence, first);
+ZEND_METHOD(Teds_EmptySequence, current);
 #endif
 #if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_StrictMinHeap, rewind);
@@ -399,8 +400,8 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, valid, arginfo_class_Teds_EmptySequence_valid, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, current, first, arginfo_class_Teds_EmptySequence_current, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, key, first, arginfo_class_Teds_EmptySequence_key, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, current, arginfo_class_Teds_EmptySequence_current, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, key, current, arginfo_class_Teds_EmptySequence_key, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, next, rewind, arginfo_class_Teds_EmptySequence_next, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, rewind, rewind, arginfo_class_Teds_EmptySequence_rewind, ZEND_ACC_PUBLIC)
 	ZEND_FE_END
@@ -425,8 +426,8 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptyMap_jsonSerialize, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, valid, valid, arginfo_class_Teds_EmptyMap_valid, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, current, first, arginfo_class_Teds_EmptyMap_current, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, key, first, arginfo_class_Teds_EmptyMap_key, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, current, current, arginfo_class_Teds_EmptyMap_current, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, key, current, arginfo_class_Teds_EmptyMap_key, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, next, rewind, arginfo_class_Teds_EmptyMap_next, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, rewind, rewind, arginfo_class_Teds_EmptyMap_rewind, ZEND_ACC_PUBLIC)
 	ZEND_FE_END
@@ -446,8 +447,8 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, valid, valid, arginfo_class_Teds_EmptySet_valid, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, current, first, arginfo_class_Teds_EmptySet_current, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, key, first, arginfo_class_Teds_EmptySet_key, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, current, current, arginfo_class_Teds_EmptySet_current, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, key, current, arginfo_class_Teds_EmptySet_key, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, next, rewind, arginfo_class_Teds_EmptySet_next, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, rewind, rewind, arginfo_class_Teds_EmptySet_rewind, ZEND_ACC_PUBLIC)
 	ZEND_FE_END
-- 
2.43.0


From 8c09e251b81fa171e9a37e946172fb0899300ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:31 +0000
Subject: [PATCH 46/51] fix: cloning a BitVector allocates only the bytes it
 needs

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index a2ccd54..930a016 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -272,7 +272,7 @@ static void teds_bitvector_entries_copy_ctor(teds_bitvector_entries *to, const t
 	to->bit_size = 0; /* reset bit_size in case emalloc() fails */
 	to->bit_capacity = 0;
 	const size_t bytes_needed = BYTES_FOR_BIT_SIZE(bit_size);
-	to->entries_bits = safe_emalloc(bit_size, bytes_needed, 0);
+	to->entries_bits = emalloc(bytes_needed);
 	to->bit_size = bit_size;
 	to->bit_capacity = bytes_needed * 8;
 
-- 
2.43.0


From b261d0a9954e31ed7c8df052fe032c6aa1825a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:24 +0000
Subject: [PATCH 47/51] fix: Vector::filter never shrinks its result below the
 elements kept when the callback shrinks the vector

---
 teds_vector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index b108164..f8a526b 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -940,7 +940,8 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					/* The callback may have shrunk this vector */
+					capacity = size + (array->size > i ? array->size - i : 1);
 					if (UNEXPECTED(capacity >= TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
 						teds_error_noreturn_max_vector_capacity();
 						ZEND_UNREACHABLE();
-- 
2.43.0


From ac4953a68af933e4b2e4a3c9c93aae82df7cfa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:24 +0000
Subject: [PATCH 48/51] fix: clones of StrictTreeMap and StrictTreeSet keep the
 colours of the tree's nodes

---
 teds_stricttreemap.c | 1 +
 teds_stricttreeset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 06eda07..1d0c9eb 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -459,6 +459,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 3b35a17..19c9537 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -427,6 +427,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
-- 
2.43.0


From d607761c3e1a63ab0026f7424166105871a88c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:32 +0000
Subject: [PATCH 49/51] fix: removing from StrictTreeMap and StrictTreeSet
 keeps the tree valid when the successor has a right child

---
 teds_stricttreemap.c | 3 ++-
 teds_stricttreeset.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 1d0c9eb..c0b5476 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1197,7 +1197,8 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* right takes the place of the removed black node, so the number of black nodes on its path stays the same. */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 19c9537..dafea45 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -1000,7 +1000,8 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* right takes the place of the removed black node, so the number of black nodes on its path stays the same. */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From 0a9343842af30c6403ebc053eca342f33af7e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 50/51] fix: BitVector::offsetUnset computes the new capacity
 from the size after converting the offset

---
 teds_bitvector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 930a016..71d4f1f 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1603,12 +1603,13 @@ PHP_METHOD(Teds_BitVector, offsetUnset)
 	ZEND_PARSE_PARAMETERS_END();
 
 	teds_bitvector_entries *array = Z_BITVECTOR_ENTRIES_P(ZEND_THIS);
-	const size_t old_size = array->bit_size;
 	zend_long offset;
 
 	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
 
-	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->bit_size))) {
+	/* Converting the offset can call a user-defined error handler that changes the size */
+	const size_t old_size = array->bit_size;
+	if (UNEXPECTED(!teds_offset_within_size_t(offset, old_size))) {
 		TEDS_THROW_INVALID_SEQUENCE_INDEX_EXCEPTION();
 	}
 
-- 
2.43.0


From e5296c8069d98a342729dc271880f20067734cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 51/51] fix: LowMemoryVector::clear leaves the vector
 initialised

---
 teds_lowmemoryvector.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index c3ba870..c66e764 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -372,7 +372,6 @@ static void teds_lowmemoryvector_clear(teds_lowmemoryvector *intern)
 		ZEND_ASSERT(type_tag == LMV_TYPE_ZVAL);
 
 		zval *it = entries;
-		array->entries_zval = NULL;
 		for (zval *const end = it + size; it < end; it++) {
 			zval_ptr_dtor(it);
 		}
-- 
2.43.0

