From 99d3257fa5b47ea8d11b56e15c3f90e1446e141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 01/55] fix: compare two stored bit vectors using each one's
 own representation

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From 17766bd3571284b0eae64095e257b5d8988b31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 02/55] fix: pointless_bitvector_is_any_set() must skip the
 length word of an uncompressed bit vector

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 607ce02..ac536ff 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -41,7 +41,7 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 	uint32_t n = pointless_bitvector_n_bits(t, v, bits);
 
 	for (i = 0; i < n; i++) {
-		if (pointless_bitvector_is_set_bits(t, v, bits, i))
+		if (pointless_bitvector_is_set(t, v, bits, i))
 			return 1;
 	}
 
-- 
2.43.0


From 852250bb6227a1816ef8f6d5e528eed08fff671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 03/55] fix: create-time comparison must select the second
 value's comparison function by its own type

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..8284c32 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -523,7 +523,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From fc6facbd74e695341dfe71914dc08e877e05feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 04/55] fix: create-time comparison of native vectors must read
 their items, not treat them as handles

---
 src/pointless_cmp.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8284c32..1b493e0 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -335,6 +335,34 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 				assert(0);
 				break;
 		}
+	// native vectors hold the items themselves, not handles
+	} else if (!v->header.is_compressed_vector && v->header.type_29 != POINTLESS_VECTOR_VALUE && v->header.type_29 != POINTLESS_VECTOR_VALUE_HASHABLE) {
+		pointless_dynarray_t* a = &cv_get_priv_vector(&_v)->vector;
+
+		switch (v->header.type_29) {
+			case POINTLESS_VECTOR_I8:
+				return pointless_complete_value_create_i32(pointless_dynarray_ITEM_AT(int8_t, a, i));
+			case POINTLESS_VECTOR_U8:
+				return pointless_complete_value_create_u32(pointless_dynarray_ITEM_AT(uint8_t, a, i));
+			case POINTLESS_VECTOR_I16:
+				return pointless_complete_value_create_i32(pointless_dynarray_ITEM_AT(int16_t, a, i));
+			case POINTLESS_VECTOR_U16:
+				return pointless_complete_value_create_u32(pointless_dynarray_ITEM_AT(uint16_t, a, i));
+			case POINTLESS_VECTOR_I32:
+				return pointless_complete_value_create_i32(pointless_dynarray_ITEM_AT(int32_t, a, i));
+			case POINTLESS_VECTOR_U32:
+				return pointless_complete_value_create_u32(pointless_dynarray_ITEM_AT(uint32_t, a, i));
+			case POINTLESS_VECTOR_I64:
+				return pointless_complete_value_create_i64(pointless_dynarray_ITEM_AT(int64_t, a, i));
+			case POINTLESS_VECTOR_U64:
+				return pointless_complete_value_create_u64(pointless_dynarray_ITEM_AT(uint64_t, a, i));
+			case POINTLESS_VECTOR_FLOAT:
+				return pointless_complete_value_create_float(pointless_dynarray_ITEM_AT(float, a, i));
+			default:
+				assert(0);
+				vi = pointless_complete_value_create_u32(0);
+				break;
+		}
 	// everything else is simple
 	} else {
 		uint32_t j = pointless_dynarray_ITEM_AT(uint32_t, &cv_get_priv_vector(&_v)->vector, i);
@@ -456,6 +484,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
-- 
2.43.0


From e4bd026e37e0ff9479f02993ef21d8dc52035e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 05/55] fix: empty vectors have no private vector during
 create-time hashing and comparison

---
 src/pointless_cmp.c  | 4 ++--
 src/pointless_hash.c | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 1b493e0..e0dcb77 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -401,8 +401,8 @@ static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_comp
 	pointless_create_value_t _a = pointless_create_value_from_complete(a);
 	pointless_create_value_t _b = pointless_create_value_from_complete(b);
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	uint32_t n_items_a = a->header.type_29 == POINTLESS_VECTOR_EMPTY ? 0 : a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
+	uint32_t n_items_b = b->header.type_29 == POINTLESS_VECTOR_EMPTY ? 0 : b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..080295c 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,11 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		// empty vectors have no private vector anymore
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From 099f57562c1931ca70cbb68eec773ab7ac2b5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 06/55] fix: an unsigned integer is greater than a negative
 signed one

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index e0dcb77..dd699b8 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return 1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
-- 
2.43.0


From 16498524f86d743fe2ea7fbfd14ffe4c57013e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 07/55] fix: compare integers with floats exactly, so that
 equal values have equal hashes

---
 src/pointless_cmp.c | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index dd699b8..5e95391 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -157,6 +157,41 @@ static uint64_t pointless_int_value_unsigned(uint32_t t, pointless_complete_valu
 	return 0;
 }
 
+// compare integers to floats without rounding the integer, so that equal values have equal hashes
+static int32_t pointless_cmp_unsigned_float(uint64_t a, float b)
+{
+	if (b != b)
+		return SIMPLE_CMP((float)a, b);
+
+	if (b < 0.0f)
+		return 1;
+
+	if (b >= 18446744073709551616.0f)
+		return -1;
+
+	if (a != (uint64_t)b)
+		return SIMPLE_CMP(a, (uint64_t)b);
+
+	return SIMPLE_CMP((double)(uint64_t)b, (double)b);
+}
+
+static int32_t pointless_cmp_signed_float(int64_t a, float b)
+{
+	if (b != b || a >= 0)
+		return pointless_cmp_unsigned_float((uint64_t)a, b);
+
+	if (b >= 0.0f)
+		return -1;
+
+	if (b < -9223372036854775808.0f)
+		return 1;
+
+	if (a != (int64_t)b)
+		return SIMPLE_CMP(a, (int64_t)b);
+
+	return SIMPLE_CMP((double)(int64_t)b, (double)b);
+}
+
 static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_data_t* v_a, uint32_t t_b, pointless_complete_value_data_t* v_b)
 {
 	// float, float
@@ -165,15 +200,15 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 	// float, int
 	} else if (t_a == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_b))
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_signed(t_b, v_b));
+			return -pointless_cmp_signed_float(pointless_int_value_signed(t_b, v_b), v_a->data_f);
 		else
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_unsigned(t_b, v_b));
+			return -pointless_cmp_unsigned_float(pointless_int_value_unsigned(t_b, v_b), v_a->data_f);
 	// int, float
 	} else if (t_b == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_a))
-			return SIMPLE_CMP((float)pointless_int_value_signed(t_a, v_a), v_b->data_f);
+			return pointless_cmp_signed_float(pointless_int_value_signed(t_a, v_a), v_b->data_f);
 		else
-			return SIMPLE_CMP((float)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
+			return pointless_cmp_unsigned_float(pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
 	// int, int
 	} else {
 		// ss
-- 
2.43.0


From b298887ecae4a2cd46c939ff55aeb642d92f8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 08/55] fix: hashing a stored vector which contains a set or a
 map must not call a null function

---
 src/pointless_hash.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 080295c..82a0113 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -477,6 +477,11 @@ uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
 	pointless_hash_reader_32_cb cb = pointless_hash_reader_func_32(v->type);
+
+	// a vector in a file can claim to be hashable, yet contain something which is not
+	if (cb == 0)
+		return 0;
+
 	return (*cb)(p, v);
 }
 
-- 
2.43.0


From 7beaa48a10d29a3459d49e95be40351a741850a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 09/55] fix: a vector which contains a set, a map or another
 unhashable vector is not hashable

---
 src/pointless_create.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..ad1b854 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -797,6 +797,29 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		}
 	}
 
+	// a vector which contains something unhashable is itself not hashable
+	int changed;
+
+	do {
+		changed = 0;
+
+		for (i = n_values; i-- > 0;) {
+			if (cv_value_type(i) != POINTLESS_VECTOR_VALUE_HASHABLE)
+				continue;
+
+			uint32_t j, n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
+			uint32_t* items = (uint32_t*)cv_priv_vector_at(i)->vector._data;
+
+			for (j = 0; j < n_items; j++) {
+				if (!pointless_is_hashable(cv_value_type(items[j]))) {
+					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_VALUE;
+					changed = 1;
+					break;
+				}
+			}
+		}
+	} while (changed);
+
 	// check vectors for compressability
 	for (i = 0; i < n_values; i++) {
 		// we can not compress outside vector
-- 
2.43.0


From 54ebb2c81acfc91e06b727765d4e30dd8c2b745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 10/55] fix: a vector of integers which fits no native type
 stays an uncompressed, hashable vector

---
 src/pointless_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index ad1b854..452f697 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -676,9 +676,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// the range fits no native type, e.g. both -1 and UINT32_MAX
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From 5670d46dde2be5909f4ce95cac00053a057f5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 11/55] fix: hashing an empty prefix of a string must not look
 at its first character

---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 82a0113..3545c1c 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) > 0 ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From abb6e0791efc15805b0db7cc834d090a8b809cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 12/55] fix: the sort must not miss a failed comparison

---
 src/custom_sort.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..4d0944c 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -40,6 +40,9 @@ loop:
 
 				(*swap)(pl, pl - 1, user);
 			}
+
+			if (is_error)
+				return 0;
 		}
 
 		return 1;
@@ -48,10 +51,12 @@ loop:
 	presorted = 1;
 
 	for (pm = a + 1; pm < a + n; pm += 1) {
-		if (cmp_adapter(pm - 1, pm, cmp, user, &is_error) > 0) {
-			if (is_error)
-				return 0;
+		r = cmp_adapter(pm - 1, pm, cmp, user, &is_error);
 
+		if (is_error)
+			return 0;
+
+		if (r > 0) {
 			presorted = 0;
 			break;
 		}
@@ -112,6 +117,9 @@ loop:
 			pc -= 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		if (pb > pc)
 			break;
 
-- 
2.43.0


From 689c1c5061ec5c4e7d5eea80e670fce094f70d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 13/55] fix: define intop_u32_mult() under its declared name

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 90a77bd..2d1ffec 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -32,7 +32,7 @@ intop_u64_t intop_u64_mult(intop_u64_t a, intop_u64_t b)
 	return c;
 }
 
-intop_u32_t uintop_32_mult(intop_u32_t a, intop_u32_t b)
+intop_u32_t intop_u32_mult(intop_u32_t a, intop_u32_t b)
 {
 	intop_u32_t c;
 
-- 
2.43.0


From 3e7b056a769ac7792ba0f09b4a621b155d14a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 14/55] fix: the expression parser must not read beyond the
 last token

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 2d1ffec..3d978f8 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -200,7 +200,7 @@ static int intop_check_error(intop_eval_context_t* c)
 
 static int intop_eval_check_bounds(intop_eval_context_t* c)
 {
-	return (c->i < INTOP_EVAL_MAX_N);
+	return (c->i < c->n);
 }
 
 static void intop_eval_push(intop_eval_context_t* c, intop_eval_token_t* token)
-- 
2.43.0


From 53b8c83d4927464708243cb011b70761c7d73f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 15/55] fix: expressions associate to the left and take their
 operands in order

---
 src/pointless_int_ops.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 3d978f8..06f023c 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -234,9 +234,12 @@ static void intop_eval_Em(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_T(c);
-		intop_eval_Em(c);
+
+		if (intop_check_error(c))
+			return;
 
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Em(c);
 	}
 }
 
@@ -260,9 +263,12 @@ static void intop_eval_Tm(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_F(c);
-		intop_eval_Tm(c);
+
+		if (intop_check_error(c))
+			return;
 
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Tm(c);
 	}
 }
 
@@ -476,8 +482,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				assert(c->e_n >= 2);
 				assert(c->eval[c->e_n - 1].type == INTOP_EVAL_NUMBER);
 				assert(c->eval[c->e_n - 2].type == INTOP_EVAL_NUMBER);
-				a = c->eval[c->e_n - 1].number;
-				b = c->eval[c->e_n - 2].number;
+				a = c->eval[c->e_n - 2].number;
+				b = c->eval[c->e_n - 1].number;
 				c->eval[c->e_n - 2].type = INTOP_EVAL_NUMBER;
 
 				if (c->stack[i].type == INTOP_EVAL_SUB) {
-- 
2.43.0


From 98be66e721049f856b26b7b3e4b6ddbe0c906214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 16/55] fix: a bulk push whose item count overflows must fail

---
 src/pointless_dynarray.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pointless_dynarray.c b/src/pointless_dynarray.c
index 809f56a..f6a730d 100644
--- a/src/pointless_dynarray.c
+++ b/src/pointless_dynarray.c
@@ -63,7 +63,12 @@ int pointless_dynarray_push(pointless_dynarray_t* a, void* i)
 
 int pointless_dynarray_push_bulk(pointless_dynarray_t* a, void* i, size_t n_items)
 {
-	while (a->n_items + n_items > a->n_alloc) {
+	intop_sizet_t next_n_items = intop_sizet_add(intop_sizet_init(a->n_items), intop_sizet_init(n_items));
+
+	if (next_n_items.is_overflow)
+		return 0;
+
+	while (next_n_items.value > a->n_alloc) {
 		if (!pointless_dynarray_grow(a))
 			return 0;
 	}
-- 
2.43.0


From 11ddf3dd0027655d91541fe189d05ffe9a3dab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 17/55] fix: narrowing a text refuses characters which do not
 fit

---
 src/pointless_unicode_utils.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pointless_unicode_utils.c b/src/pointless_unicode_utils.c
index ae827b9..67c3bed 100644
--- a/src/pointless_unicode_utils.c
+++ b/src/pointless_unicode_utils.c
@@ -32,7 +32,10 @@ void pointless_ascii_cpy(uint8_t* dst, const uint8_t* src)
 
 uint8_t* pointless_ucs4_to_ascii(uint32_t* ucs4)
 {
-	assert(pointless_is_ucs4_ascii(ucs4));
+	// a character which does not fit
+	if (!pointless_is_ucs4_ascii(ucs4))
+		return 0;
+
 	size_t n = pointless_ucs4_len(ucs4);
 	uint8_t* ascii_ = (uint8_t*)pointless_malloc(sizeof(uint8_t) * (n + 1));
 
@@ -74,7 +77,10 @@ uint32_t* pointless_ucs2_to_ucs4(uint16_t* ucs2)
 
 uint8_t* pointless_ucs2_to_ascii(uint16_t* ucs2)
 {
-	assert(pointless_is_ucs2_ascii(ucs2));
+	// a character which does not fit
+	if (!pointless_is_ucs2_ascii(ucs2))
+		return 0;
+
 	size_t n = pointless_ucs2_len(ucs2);
 	uint8_t* ascii_ = (uint8_t*)pointless_malloc(sizeof(uint8_t) * (n + 1));
 
-- 
2.43.0


From 17bd15d90c171b7f85a7227c24174f6c89ee9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 18/55] fix: mark every container of a cycle

---
 src/pointless_cycle_marker.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..a927d53 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -55,9 +55,12 @@ typedef struct {
 	Pvoid_t root_judy;
 
 	pointless_dynarray_t stack;
+
+	// pre-order number of the next container
+	Word_t count;
 } pointless_cycle_marker_state_t;
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth);
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth);
 
 //static void print_depth(uint32_t depth)
 //{
@@ -66,7 +69,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 //		printf("   ");
 //}
 
-static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, Word_t count, uint32_t depth)
+static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, uint32_t depth)
 {
 	if (!(*state->cb_info->fn_is_container)(state->cb_info->user, w))
 		return;
@@ -80,7 +83,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 	if (PValue == 0) {
 		//print_depth(depth); printf(" w is not in visited, so visit(w = %u, count = %llu)\n", (unsigned int)w_id, (unsigned long long)count);
 
-		pointless_cycle_marker_visit(state, w, count, depth + 1);
+		pointless_cycle_marker_visit(state, w, depth + 1);
 
 		if (state->error)
 			return;
@@ -137,7 +140,7 @@ static void _unpack_map_and_vector(uint64_t v, uint32_t* owner, uint32_t* value)
 //	return buffer;
 //}
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth)
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth)
 {
 	assert((*state->cb_info->fn_is_container)(state->cb_info->user, v));
 
@@ -146,6 +149,8 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		return;
 	}
 
+	Word_t count = state->count++;
+
 	if (count >= (Word_t)((*state->cb_info->fn_n_nodes)(state->cb_info->user))) {
 		//printf("B depth %u, count %u\n", depth, (unsigned int)count);
 		state->error = "internal error: pre-order count exceeds number of containers";
@@ -212,7 +217,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			}
 		}
 
-		process_child(state, v_id, child, count + 1, depth + 1);
+		process_child(state, v_id, child, depth + 1);
 
 		if (state->error)
 			return;
@@ -258,6 +263,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 
 			//printf("B marking %u\n", w_id);
 			bm_set_(state->cycle_marker, w_id);
+			bm_set_(state->cycle_marker, v_id);
 
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
@@ -292,6 +298,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	state.visited_judy = 0;
 	state.component_judy = 0;
 	state.root_judy = 0;
+	state.count = 0;
 	pointless_dynarray_init(&state.stack, sizeof(uint32_t));
 
 	if (state.cycle_marker == 0) {
@@ -302,7 +309,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	root = (*info->fn_get_root)(state.cb_info->user);
 
 	if ((*info->fn_is_container)(state.cb_info->user, root))
-		pointless_cycle_marker_visit(&state, root, 0, 0);
+		pointless_cycle_marker_visit(&state, root, 0);
 
 	if (state.error)
 		goto error_cleanup;
-- 
2.43.0


From 6f2fa86ab0026ea32374ec85cd25ddfe3c67850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 19/55] fix: vectors in a cycle not reachable from the root are
 not hashable

---
 src/pointless_create.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 452f697..c83b0ba 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -785,36 +785,28 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		goto error_cleanup;
 	}
 
-	// ...and mark the ones which are
-	for (i = 0; i < n_values; i++) {
-		//printf("value type %i is %i\n", (int)i, (int)cv_value_type(i));
-		if (cv_value_type(i) == POINTLESS_VECTOR_VALUE && !cv_is_outside_vector(i)) {
-			if (!bm_is_set_(cycle_marker, i)) {
-				cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_VALUE_HASHABLE;
-				//printf("hashable %i\n", (int)i);
-			}
-		}
-	}
-
-	// a vector which contains something unhashable is itself not hashable
+	// ...and mark the ones which are: those in no cycle, containing hashable values only. Vectors not
+	// reachable from the root have no cycle mark, but those in a cycle never become hashable here
 	int changed;
 
 	do {
 		changed = 0;
 
 		for (i = n_values; i-- > 0;) {
-			if (cv_value_type(i) != POINTLESS_VECTOR_VALUE_HASHABLE)
+			if (cv_value_type(i) != POINTLESS_VECTOR_VALUE || cv_is_outside_vector(i) || bm_is_set_(cycle_marker, i))
 				continue;
 
 			uint32_t j, n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
 			uint32_t* items = (uint32_t*)cv_priv_vector_at(i)->vector._data;
 
 			for (j = 0; j < n_items; j++) {
-				if (!pointless_is_hashable(cv_value_type(items[j]))) {
-					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_VALUE;
-					changed = 1;
+				if (!pointless_is_hashable(cv_value_type(items[j])))
 					break;
-				}
+			}
+
+			if (j == n_items) {
+				cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_VALUE_HASHABLE;
+				changed = 1;
 			}
 		}
 	} while (changed);
-- 
2.43.0


From 863c407ee907cc89ea916ab251f6eb42c5e08854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 20/55] fix: a file of the unsupported 32-bit version is
 refused when opened

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..4612536 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From b85bb12a7a1381565ffadfaa18847df89f4c9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 21/55] fix: validate every reference to a hashable vector, and
 that its items are hashable

---
 src/pointless_validate.c | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 5ad869b..3df1406 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -6,6 +6,7 @@ typedef struct {
 	const char* error;
 	void* cycle_marker;
 	void* vector;
+	void* vector_hashable;
 	void* set;
 	void* map;
 } pointless_validate_state_t;
@@ -58,6 +59,28 @@ static int pointless_validate_map_complicated(pointless_validate_state_t* state,
 	return pointless_hash_table_validate(state->context->p, header->n_items, n_keys, hashes, keys, values, &state->error);
 }
 
+static int pointless_validate_hashable_vector(pointless_validate_state_t* state, pointless_value_t* v)
+{
+	// only hashable vector can not be in a cycle
+	if (bm_is_set_(state->cycle_marker, pointless_container_id(state->context->p, v))) {
+		state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+		return 0;
+	}
+
+	// each hashable value can only recurse down to hashable values
+	uint32_t i, n_items = pointless_reader_vector_n_items(state->context->p, v);
+	pointless_value_t* items = pointless_reader_vector_value(state->context->p, v);
+
+	for (i = 0; i < n_items; i++) {
+		if (!pointless_is_hashable(items[i].type)) {
+			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE contains a value which is not hashable";
+			return 0;
+		}
+	}
+
+	return 1;
+}
+
 static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v, uint32_t depth, void* user)
 {
 	pointless_validate_state_t* state = (pointless_validate_state_t*)user;
@@ -73,6 +96,15 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
+	// pass-2, cycle validation, and hashability of the items. This goes by the type of the reference, since
+	// the same vector can be referenced both as a hashable and as a plain vector
+	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE && !bm_is_set_(state->vector_hashable, v->data.data_u32)) {
+		bm_set_(state->vector_hashable, v->data.data_u32);
+
+		if (!pointless_validate_hashable_vector(state, v))
+			return POINTLESS_WALK_STOP;
+	}
+
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
 	switch (v->type) {
 		case POINTLESS_VECTOR_VALUE:
@@ -106,17 +138,6 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 
 		if (!pointless_validate_heap_value(state->context, v, &state->error))
 			return POINTLESS_WALK_STOP;
-	// pass-2, cycle validation
-	} else if (state->pass == 2) {
-		// only hashable vector can not be in a cycle
-		if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
-			uint32_t container_id = pointless_container_id(p, v);
-
-			if (bm_is_set_(state->cycle_marker, container_id)) {
-				state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
-				return POINTLESS_WALK_STOP;
-			}
-		}
 	// pass-3, hash test
 	} else if (state->pass == 3) {
 		if (v->type == POINTLESS_MAP_VALUE_VALUE && !pointless_validate_map_complicated(state, v))
@@ -143,10 +164,11 @@ int pointless_validate(pointless_validate_context_t* context, const char** error
 	state.error = 0;
 	state.cycle_marker = 0;
 	state.vector = pointless_calloc(ICEIL(context->p->header->n_vector, 8), 1);
+	state.vector_hashable = pointless_calloc(ICEIL(context->p->header->n_vector, 8), 1);
 	state.set = pointless_calloc(ICEIL(context->p->header->n_set, 8), 1);
 	state.map = pointless_calloc(ICEIL(context->p->header->n_map, 8), 1);
 
-	if (state.vector == 0 || state.set == 0 || state.map == 0) {
+	if (state.vector == 0 || state.vector_hashable == 0 || state.set == 0 || state.map == 0) {
 		*error = "out of memory";
 		goto cleanup;
 	}
@@ -193,6 +215,7 @@ cleanup:
 
 	pointless_free(state.cycle_marker);
 	pointless_free(state.vector);
+	pointless_free(state.vector_hashable);
 	pointless_free(state.set);
 	pointless_free(state.map);
 
-- 
2.43.0


From edcf9191baedd3156dda902d1f52bb1520abedcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 22/55] fix: an item count without a representable bucket count
 must not loop forever

---
 src/pointless_create.c     | 5 +++++
 src/pointless_hash_table.c | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index c83b0ba..4a0e41b 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -75,6 +75,11 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 	// number of buckets
 	n_buckets = pointless_hash_compute_n_buckets(n_keys);
 
+	if (n_buckets == 0) {
+		*error = "too many keys in set/map";
+		goto cleanup;
+	}
+
 	// allocate output vectors
 	hash_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
 	keys_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..831df66 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -1,10 +1,11 @@
 #include <pointless/pointless_hash_table.h>
 
-static uint32_t next_power_of_2(uint32_t n)
+// returns 0 if the power of two does not fit
+static uint32_t next_power_of_2(uint64_t n)
 {
 	uint32_t p = 1;
 
-	while (p < n)
+	while (p != 0 && p < n)
 		p <<= 1;
 
 	return p;
@@ -17,7 +18,7 @@ uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
 	if (n_items == 1)
 		return 2;
 
-	return next_power_of_2(n_items + n_items / 2);
+	return next_power_of_2((uint64_t)n_items + n_items / 2);
 }
 
 static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_eq_cb cb, void* user, const char** error)
-- 
2.43.0


From 76d988bf4c84d749adb2755acaf5cd1587917ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 23/55] fix: keep accepting vectors marked hashable which hold
 a set or a map

The writer marks the value vector of a map so, and earlier versions marked
every acyclic vector so.
---
 src/pointless_validate.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 3df1406..d52ce00 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -67,17 +67,6 @@ static int pointless_validate_hashable_vector(pointless_validate_state_t* state,
 		return 0;
 	}
 
-	// each hashable value can only recurse down to hashable values
-	uint32_t i, n_items = pointless_reader_vector_n_items(state->context->p, v);
-	pointless_value_t* items = pointless_reader_vector_value(state->context->p, v);
-
-	for (i = 0; i < n_items; i++) {
-		if (!pointless_is_hashable(items[i].type)) {
-			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE contains a value which is not hashable";
-			return 0;
-		}
-	}
-
 	return 1;
 }
 
@@ -96,7 +85,7 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
-	// pass-2, cycle validation, and hashability of the items. This goes by the type of the reference, since
+	// pass-2, cycle validation. This goes by the type of the reference, since
 	// the same vector can be referenced both as a hashable and as a plain vector
 	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE && !bm_is_set_(state->vector_hashable, v->data.data_u32)) {
 		bm_set_(state->vector_hashable, v->data.data_u32);
-- 
2.43.0


From a14983afc416f36f95058376df1afe5cd308bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 24/55] fix: test each reference to a hashable vector for
 cycles, without a bitmap

---
 src/pointless_validate.c | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index d52ce00..977bb54 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -6,7 +6,6 @@ typedef struct {
 	const char* error;
 	void* cycle_marker;
 	void* vector;
-	void* vector_hashable;
 	void* set;
 	void* map;
 } pointless_validate_state_t;
@@ -59,17 +58,6 @@ static int pointless_validate_map_complicated(pointless_validate_state_t* state,
 	return pointless_hash_table_validate(state->context->p, header->n_items, n_keys, hashes, keys, values, &state->error);
 }
 
-static int pointless_validate_hashable_vector(pointless_validate_state_t* state, pointless_value_t* v)
-{
-	// only hashable vector can not be in a cycle
-	if (bm_is_set_(state->cycle_marker, pointless_container_id(state->context->p, v))) {
-		state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
-		return 0;
-	}
-
-	return 1;
-}
-
 static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v, uint32_t depth, void* user)
 {
 	pointless_validate_state_t* state = (pointless_validate_state_t*)user;
@@ -85,13 +73,15 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
-	// pass-2, cycle validation. This goes by the type of the reference, since
-	// the same vector can be referenced both as a hashable and as a plain vector
-	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE && !bm_is_set_(state->vector_hashable, v->data.data_u32)) {
-		bm_set_(state->vector_hashable, v->data.data_u32);
+	// pass-2, cycle validation: hashable vectors can not be in a cycle. The same vector can also be referenced
+	// as a plain vector, so this must be tested for every reference
+	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t container_id = pointless_container_id(p, v);
 
-		if (!pointless_validate_hashable_vector(state, v))
+		if (bm_is_set_(state->cycle_marker, container_id)) {
+			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
 			return POINTLESS_WALK_STOP;
+		}
 	}
 
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
@@ -153,11 +143,10 @@ int pointless_validate(pointless_validate_context_t* context, const char** error
 	state.error = 0;
 	state.cycle_marker = 0;
 	state.vector = pointless_calloc(ICEIL(context->p->header->n_vector, 8), 1);
-	state.vector_hashable = pointless_calloc(ICEIL(context->p->header->n_vector, 8), 1);
 	state.set = pointless_calloc(ICEIL(context->p->header->n_set, 8), 1);
 	state.map = pointless_calloc(ICEIL(context->p->header->n_map, 8), 1);
 
-	if (state.vector == 0 || state.vector_hashable == 0 || state.set == 0 || state.map == 0) {
+	if (state.vector == 0 || state.set == 0 || state.map == 0) {
 		*error = "out of memory";
 		goto cleanup;
 	}
@@ -204,7 +193,6 @@ cleanup:
 
 	pointless_free(state.cycle_marker);
 	pointless_free(state.vector);
-	pointless_free(state.vector_hashable);
 	pointless_free(state.set);
 	pointless_free(state.map);
 
-- 
2.43.0


From aecaecd81a2b7bfdc1bdc504bdacc24f5a31b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 25/55] fix: limit the nesting depth of hashable vectors
 however they are reached

---
 src/pointless_validate.c | 57 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 977bb54..8e3cafe 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -8,6 +8,8 @@ typedef struct {
 	void* vector;
 	void* set;
 	void* map;
+	// nesting depth of hashable vectors, 0 means not known yet
+	uint16_t* height;
 } pointless_validate_state_t;
 
 static int pointless_validate_set_complicated(pointless_validate_state_t* state, pointless_value_t* v)
@@ -58,6 +60,48 @@ static int pointless_validate_map_complicated(pointless_validate_state_t* state,
 	return pointless_hash_table_validate(state->context->p, header->n_items, n_keys, hashes, keys, values, &state->error);
 }
 
+// hashing and comparing recurse into hashable vectors, however these were reached first, so their nesting
+// depth must be limited as well
+static uint32_t pointless_validate_height(pointless_validate_state_t* state, pointless_value_t* v, uint32_t depth)
+{
+	if (v->type != POINTLESS_VECTOR_VALUE_HASHABLE)
+		return 0;
+
+	if (bm_is_set_(state->cycle_marker, pointless_container_id(state->context->p, v))) {
+		state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+		return 0;
+	}
+
+	if (depth >= POINTLESS_MAX_DEPTH) {
+		state->error = "maximum depth exceeded";
+		return 0;
+	}
+
+	if (state->height[v->data.data_u32] == 0) {
+		uint32_t i, n_items = pointless_reader_vector_n_items(state->context->p, v), height = 0;
+		pointless_value_t* items = pointless_reader_vector_value(state->context->p, v);
+
+		for (i = 0; i < n_items; i++) {
+			uint32_t h = pointless_validate_height(state, &items[i], depth + 1);
+
+			if (state->error)
+				return 0;
+
+			if (h > height)
+				height = h;
+		}
+
+		if (height + 1 > POINTLESS_MAX_DEPTH) {
+			state->error = "maximum depth exceeded";
+			return 0;
+		}
+
+		state->height[v->data.data_u32] = (uint16_t)(height + 1);
+	}
+
+	return state->height[v->data.data_u32];
+}
+
 static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v, uint32_t depth, void* user)
 {
 	pointless_validate_state_t* state = (pointless_validate_state_t*)user;
@@ -75,13 +119,11 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 
 	// pass-2, cycle validation: hashable vectors can not be in a cycle. The same vector can also be referenced
 	// as a plain vector, so this must be tested for every reference
-	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
-		uint32_t container_id = pointless_container_id(p, v);
+	if (state->pass == 2) {
+		pointless_validate_height(state, v, 0);
 
-		if (bm_is_set_(state->cycle_marker, container_id)) {
-			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+		if (state->error)
 			return POINTLESS_WALK_STOP;
-		}
 	}
 
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
@@ -146,7 +188,9 @@ int pointless_validate(pointless_validate_context_t* context, const char** error
 	state.set = pointless_calloc(ICEIL(context->p->header->n_set, 8), 1);
 	state.map = pointless_calloc(ICEIL(context->p->header->n_map, 8), 1);
 
-	if (state.vector == 0 || state.set == 0 || state.map == 0) {
+	state.height = pointless_calloc(context->p->header->n_vector, sizeof(uint16_t));
+
+	if (state.vector == 0 || state.set == 0 || state.map == 0 || state.height == 0) {
 		*error = "out of memory";
 		goto cleanup;
 	}
@@ -195,6 +239,7 @@ cleanup:
 	pointless_free(state.vector);
 	pointless_free(state.set);
 	pointless_free(state.map);
+	pointless_free(state.height);
 
 	if (state.error)
 		*error = state.error;
-- 
2.43.0


From 54bde3239ec4d42c6250eba58042fafbfbfacb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 26/55] fix: hash 64-bit integers like the equal 32-bit ones,
 so that lookups find them

---
 src/pointless_hash.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 3545c1c..1a0eb27 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -78,18 +78,13 @@ uint32_t pointless_hash_u32_32(uint32_t v)
 
 uint32_t pointless_hash_i64_32(int64_t v)
 {
-	union {
-		int64_t i;
-		uint64_t u;
-	} h;
-
-	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	// same as for 32-bit integers, and for the items of 64-bit vectors
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From e59a1a0833c333b0211e0a6dc8a7c54e17b5b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 27/55] fix: wide string lookups hashed the bytes of the first
 character

---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..38651a4 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From ec74498c9eb4663fc7df2c0357ea328e317e5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 28/55] fix: comparing vectors without an error argument read
 through a null pointer

---
 src/pointless_cmp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 5e95391..effa9b5 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -611,7 +611,11 @@ int32_t pointless_cmp_reader(pointless_t* p_a, pointless_complete_value_t* a, po
 
 int32_t pointless_cmp_reader_acyclic(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b)
 {
-	return pointless_cmp_reader_rec(p_a, a, p_b, b, 0, 0);
+	const char* error = 0;
+	int32_t c = pointless_cmp_reader_rec(p_a, a, p_b, b, 0, &error);
+
+	// values which can not be compared are not equal
+	return error ? 1 : c;
 }
 
 int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
-- 
2.43.0


From e14587c4baea0193923142442df1205dd9351a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 29/55] fix: signed numbers in path expressions

---
 src/pointless_eval.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index d3406a5..c45a614 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -61,13 +61,12 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		// integer
 		case '-':
-			is_neg = 1;
-			break;
 		case '+':
+			is_neg = (*e == '-');
 			e += 1;
 			if (!('0' <= *e && *e  <= '9'))
 				return 0;
-			break;
+			// fall through
 		case '0':
 		case '1':
 		case '2':
-- 
2.43.0


From d3bc44bbd88dc3b3a994baf626a44b4d054f3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 30/55] fix: path expressions delivered the low half of 64-bit
 items

---
 src/pointless_eval.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index c45a614..f4f6bff 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -162,6 +162,19 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		if (pointless_is_vector_type(root->type)) {
 			pointless_complete_value_t v = pointless_reader_vector_value_case(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i);
+
+			// a value has only room for 32-bit integers
+			if (v.type == POINTLESS_I64 || v.type == POINTLESS_U64) {
+				int64_t i = v.complete_data.data_i64;
+				int is_u32 = (v.type == POINTLESS_U64) ? (v.complete_data.data_u64 <= UINT32_MAX) : (0 <= i && i <= UINT32_MAX);
+				int is_i32 = (v.type == POINTLESS_I64 && INT32_MIN <= i && i < 0);
+
+				if (!is_u32 && !is_i32)
+					return 0;
+
+				v = is_u32 ? pointless_complete_value_create_as_read_u32((uint32_t)i) : pointless_complete_value_create_as_read_i32((int32_t)i);
+			}
+
 			*root = pointless_value_from_complete(&v);
 		} else {
 			if (pointless_reader_bitvector_is_set(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i))
-- 
2.43.0


From 9bff78c31ec1cd2ce885006a95574a048430ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:28 +0000
Subject: [PATCH 31/55] fix: failed write to a file unlinked a freed file name

pointless_create_output_and_end_f() released temp_fname before passing it to
unlink(), so a failing write, flush, sync, chmod or close read freed memory and
could leave the temporary file behind.
---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4a0e41b..5c35732 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1340,9 +1340,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From 2ac482d4eb053552d86ec1dcab9a76f650a9651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:28 +0000
Subject: [PATCH 32/55] fix: a failed mmap was passed to munmap

_pointless_open_f() left MAP_FAILED in fd_ptr, which pointless_close() then
passed to munmap().
---
 src/pointless_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 4612536..d1e1936 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -114,6 +114,7 @@ static int _pointless_open_f(pointless_t* p, const char* fname, int do_validate,
 	p->fd_ptr = mmap(0, p->fd_len, PROT_READ, MAP_SHARED, fileno(p->fd), 0);
 
 	if (p->fd_ptr == MAP_FAILED) {
+		p->fd_ptr = 0;
 		*error = "mmap error";
 		pointless_close(p);
 		return 0;
-- 
2.43.0


From 7c7a149c44ab7785e7b3c6587fde362e948a3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 33/55] fix: out of memory in a Judy insert was taken for
 success

JudyHSIns() and JudyLIns() return PPJERR, not a null pointer, when they cannot
allocate. The callers tested for null only and wrote through the error value.
---
 src/pointless_create.c       |  6 +++---
 src/pointless_cycle_marker.c | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 5c35732..72a2bf9 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1601,7 +1601,7 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 	// add to mapping
 	PValue = (Pvoid_t)JudyHSIns(&c->string_unicode_map_judy, unicode_buffer, buffer_len, 0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1681,7 +1681,7 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 	// add to mapping
 	PValue = JudyHSIns(&c->string_unicode_map_judy, string_buffer, buffer_len, PJE0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1958,7 +1958,7 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	if (normalize) {
 		Pvoid_t PValue = (Pvoid_t)JudyHSIns(&c->bitvector_map_judy, buffer, buffer_len, 0);
 
-		if (PValue == 0)
+		if (PValue == 0 || PValue == PJERR)
 			goto cleanup;
 
 		*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index a927d53..00bc9bc 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -112,7 +112,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 			//print_depth(depth); printf("root[v] = min(%u, %u)\n", *(unsigned int*)root_v, *(unsigned int*)root_w);
 			PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
@@ -164,7 +164,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// root[v] = count
 	Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -175,7 +175,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// visited[v] = count
 	PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->visited_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -238,7 +238,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		// component[v] = root[v]
 		Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)v_id, 0);
 
-		if (PValue == 0) {
+		if (PValue == 0 || PValue == (Word_t*)PJERR) {
 			state->error = "out of memory";
 			return;
 		}
@@ -268,7 +268,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
-- 
2.43.0


From c18f88b2ac1e4d98e56e6ea005e9961cad9fb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 34/55] fix: vectors leaked when serialization ran out of
 memory

The loop which drops empty vectors renumbered values while it collected the
remaining ones; failing half-way left the renumbered values pointing into the
old array, so pointless_create_end() missed some of their buffers.
---
 src/pointless_create.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 72a2bf9..45c8366 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -727,6 +727,32 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 	// NOTE: value vector will grow, but the first 'n_values' items are the ones we want to serialize
 	n_values = pointless_dynarray_n_items(&c->values);
 
+	// collect the vectors which are kept before changing any value, so that running out of memory
+	// leaves all of them in place
+	for (i = 0; i < n_values; i++) {
+		switch (cv_value_type(i)) {
+			case POINTLESS_VECTOR_I8:
+			case POINTLESS_VECTOR_U8:
+			case POINTLESS_VECTOR_I16:
+			case POINTLESS_VECTOR_U16:
+			case POINTLESS_VECTOR_I32:
+			case POINTLESS_VECTOR_U32:
+			case POINTLESS_VECTOR_I64:
+			case POINTLESS_VECTOR_U64:
+			case POINTLESS_VECTOR_FLOAT:
+			case POINTLESS_VECTOR_VALUE:
+				if (cv_is_outside_vector(i) || (pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector) == 0 && cv_is_set_map_vector(i) == 0))
+					break;
+
+				if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
+					*error = "out of memory I";
+					goto error_cleanup;
+				}
+
+				break;
+		}
+	}
+
 	// count number of non-empty vectors, sets and maps, and perform work for empty vectors
 	// we are not allowed to do this for vectors used to hold set/map keys and hashes, so we
 	// ignore those
@@ -754,11 +780,6 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-					if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
-						*error = "out of memory I";
-						goto error_cleanup;
-					}
-
 					cv_value_at(i)->data.data_u32 = n_priv_vectors++;
 				}
 
-- 
2.43.0


From f4d7c9ff5f1848aca8921685f515f2d2a0648687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 35/55] fix: bitvector pop and append_bulk lost count of the
 set bits

IsAnySet() answers from that count; appending a vector to itself
wrote past the end, since its length grew with each round.
---
 python/pointless_bitvector.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..0c89894 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -643,14 +643,18 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 	}
 
+	// 'other' may be the same object as 'self'
 	size_t n_before = self->primitive_n_bits;
+	size_t n_other = PyPointlessBitvector_n_items(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+	for (size_t i = 0; i < n_other; i++) {
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
@@ -694,6 +698,9 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 
 	self->primitive_n_bits -= 1;
 
+	if (is_set)
+		self->primitive_n_one -= 1;
+
 	if (is_set) {
 		Py_RETURN_TRUE;
 	} else {
-- 
2.43.0


From d4d60555cb7f808e304ce282a5b1bea2272d9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 36/55] fix: bitvector constructor leaked its iterator and
 items

An exception raised by the iterator was also taken for its end.
---
 python/pointless_bitvector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 0c89894..ea66235 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -150,9 +150,6 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
 			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
 				is_error = 1;
-			// 0) PyIter_Next() failure
-			} else if (obj == 0) {
-				is_error = 1;
 			// 1) boolean
 			} else if (PyBool_Check(obj)) {
 				if (obj == Py_True) {
@@ -185,11 +182,20 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 				if (!PyErr_Occurred())
 					PyErr_SetString(PyExc_ValueError, "sequence must only contain True, False, 0 or 1");
 
+				Py_DECREF(obj);
+				Py_DECREF(sequence_iterator);
 				return -1;
 			}
 
+			Py_DECREF(obj);
 			i += 1;
 		}
+
+		Py_DECREF(sequence_iterator);
+
+		// PyIter_Next() failure
+		if (PyErr_Occurred())
+			return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 478ff1832cfd721a31a447fef57c98e6c25290c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 37/55] fix: copied bitvectors had an uninitialized allow_print

---
 python/pointless_bitvector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index ea66235..04510f9 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -755,6 +755,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
+	pv->allow_print = self->allow_print;
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
@@ -957,10 +958,13 @@ PyPointlessBitvector* PyPointlessBitvector_New(PyPointless* pp, pointless_value_
 	pp->n_bitvector_refs += 1;
 
 	pv->is_pointless = 1;
+	pv->allow_print = 1;
 	pv->pp = pp;
 	pv->v = *v;
 	pv->primitive_n_bits = 0;
 	pv->primitive_bits = 0;
+	pv->primitive_n_bytes_alloc = 0;
+	pv->primitive_n_one = 0;
 
 	return pv;
 }
-- 
2.43.0


From 35e4b6d33e2d0abc128dbcf396da4c5a2588dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 38/55] fix: assignment to a negative primvector index hit the
 wrong item

---
 python/pointless_prim_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..9014386 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -613,7 +613,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From d308f81fbbb71585978050ab3f21275ec70b9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 39/55] fix: primvector append_bulk of the vector to itself
 never ended

The loop followed the growing length, and read through a pointer into
the buffer which the growth had just freed.
---
 python/pointless_prim_vector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9014386..a675885 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -764,9 +764,14 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// 'obj' may be the same object as 'self'
+			size_t n_items = pointless_dynarray_n_items(&p_obj->array);
+
+			for (i = 0; i < n_items; i++) {
+				pypointless_number_t v;
+				memcpy(&v, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+
+				if (!pointless_dynarray_push(&self->array, &v)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From ec661204e098962f7d85997eed5e4d3e361803d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 40/55] fix: primvector leaked the sequence item it refused

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index a675885..9758cd3 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -384,6 +384,7 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 				item = 0;
 			}
 
+			Py_XDECREF(item);
 			Py_DECREF(iterator);
 			iterator = 0;
 
@@ -875,6 +876,7 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		item = 0;
 	}
 
+	Py_XDECREF(item);
 	Py_DECREF(iterator);
 	iterator = 0;
 
-- 
2.43.0


From a9357f14ee1d7dcf630fa6bbc0a33cf2555e424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 41/55] fix: sort_proj read out of bounds for signed
 projections

Only unsigned projections had their greatest value checked.
---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9758cd3..7b24770 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1594,6 +1594,9 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From 67ad8642a5a2f5ecf4dadf81d0f08f3d0f30a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 42/55] fix: sliced and remapped primvectors had an
 uninitialized allow_print

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 7b24770..d53847d 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2019,6 +2019,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 	if (pv == 0)
 		return 0;
 
+	pv->allow_print = self->allow_print;
 	pv->ob_exports = 0;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
@@ -2195,6 +2196,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 		return 0;
 	}
 
+	pv->allow_print = 1;
 	pv->ob_exports = 0;
 	pv->type = t;
 	pv->array = *v;
-- 
2.43.0


From b123f3541a60982e9766f548f13bd7d4064f26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 43/55] fix: FromRemap leaked its items when an index was
 refused

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index d53847d..557fc25 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1838,17 +1838,20 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 		uint64_t index = 0;
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
 			return 0;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
 			return 0;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
 			return 0;
 		}
-- 
2.43.0


From fc8fe489ba4b151f8210d23a4f960079352bde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 44/55] fix: primvector pop_bulk resized an exported vector

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 557fc25..31f27b3 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -919,6 +919,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	if (!PyArg_ParseTuple(args, "L", &n))
 		return 0;
 
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	if (n > 0 && (size_t)n > pointless_dynarray_n_items(&self->array)) {
 		PyErr_SetString(PyExc_ValueError, "vector is not big enough");
 		return 0;
-- 
2.43.0


From 711ffa8387cb96a7184efe1980cfc9c1aa187135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 45/55] fix: primvector buffer type was cut to 8 bits before
 its check

---
 python/pointless_prim_vector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 31f27b3..c37d188 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -403,12 +403,13 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			goto cleanup;
 		}
 
-		self->type = ((uint32_t*)buffer.buf)[0];
+		uint32_t buffer_type = ((uint32_t*)buffer.buf)[0];
 		uint32_t buffer_n_items = ((uint32_t*)buffer.buf)[1];
 		uint64_t expected_buffer_size = 0;
 
 		for (i = 0; i < POINTLESS_PRIM_VECTOR_N_TYPES; i++) {
-			if (pointless_prim_vector_type_map[i].type == self->type) {
+			if (pointless_prim_vector_type_map[i].type == buffer_type) {
+				self->type = buffer_type;
 				expected_buffer_size += (uint64_t)pointless_prim_vector_type_map[i].typesize * (uint64_t)buffer_n_items;
 				pointless_dynarray_init(&self->array, pointless_prim_vector_type_map[i].typesize);
 				break;
-- 
2.43.0


From 6173b7d93e64d6b09ad12a6ca38324e1f8bb7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:31 +0000
Subject: [PATCH 46/55] fix: primvector min, max and range always answered the
 first item

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index c37d188..8bb835b 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1932,6 +1932,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From b4a620ccbb1a9d4dbdcc1dfd97fd23670cb6d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 47/55] fix: text with characters beyond U+FFFF could not be
 serialized

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..f21540c 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From 5712f7116061e76fd05ea44670552c755633cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 48/55] fix: a refused object leaked everything created for it

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index f21540c..6e1dbd7 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -509,7 +509,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
 	PyObject* unwiden_strings = Py_False;
-	int create_end = 0;
+	int create_end = 1;
 
 	const char* error = 0;
 
@@ -571,7 +571,7 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
 	PyObject* unwiden_strings = Py_False;
-	int create_end = 0;
+	int create_end = 1;
 
 	void* buf = 0;
 	size_t buflen = 0;
-- 
2.43.0


From baeb725d36827dfa4b3dc105aa8ccf105daef51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 49/55] fix: serializing a set leaked a reference to each of
 its items

---
 python/pointless_create.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 6e1dbd7..95be08a 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -363,15 +363,6 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
-		PyObject* item = 0;
-
-		if (iterator == 0) {
-			state->is_error = 1;
-			state->error_line = __LINE__;
-			return POINTLESS_CREATE_VALUE_FAIL;
-		}
-
 		// get a handle
 		handle = pointless_create_set(&state->c);
 		RETURN_OOM_IF_FAIL(handle, state);
@@ -381,10 +372,23 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 			RETURN_OOM(state);
 		}
 
+		// iterate over the items held by the set itself, also for sub-classes: temporary
+		// items must not end up in the cache of seen objects
+		PyObject* iterator = PySet_Type.tp_iter(py_object);
+		PyObject* item = 0;
+
+		if (iterator == 0) {
+			state->is_error = 1;
+			state->error_line = __LINE__;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		// iterate over it
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
 
+			Py_DECREF(item);
+
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
-- 
2.43.0


From bdd7683608e3af253ca224ca7210427b24bc37b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 50/55] fix: serialize_to_bytearray leaked the serialized bytes

---
 python/pointless_create.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 95be08a..65ab58b 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -616,6 +616,10 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	else
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
 
+	// only a primvector takes over the buffer
+	if (buffer_type != 0)
+		pointless_free(buf);
+
 cleanup:
 
 	if (create_end)
-- 
2.43.0


From 61d74adf8b7328fe3cdad0319431ae7e8aeeb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 51/55] fix: a slice of a value vector was serialized as the
 whole vector

---
 python/pointless_create.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 65ab58b..a0c25c5 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -142,12 +142,24 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 	} else if (PyPointlessVector_Check(py_object)) {
 		// currently, we only support value vectors, they are simple
 		PyPointlessVector* v = (PyPointlessVector*)py_object;
-		const char* error = 0;
+		const char* error = "out of memory";
+		uint32_t i, item_handle;
 
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				if (v->slice_n == pointless_reader_vector_n_items(&v->pp->p, &v->v)) {
+					handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				} else {
+					handle = pointless_create_vector_value(&state->c);
+
+					for (i = 0; i < v->slice_n && handle != POINTLESS_CREATE_VALUE_FAIL; i++) {
+						item_handle = pointless_recreate_value(&v->pp->p, pointless_reader_vector_value(&v->pp->p, &v->v) + v->slice_i + i, &state->c, &error);
+
+						if (item_handle == POINTLESS_CREATE_VALUE_FAIL || pointless_create_vector_value_append(&state->c, handle, item_handle) == POINTLESS_CREATE_VALUE_FAIL)
+							handle = POINTLESS_CREATE_VALUE_FAIL;
+					}
+				}
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
 					state->is_error = 1;
-- 
2.43.0


From 92adf6f524a0a7e7d72be1a5bfd19375c0ca0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 52/55] fix: vector min, max and range always answered the
 first item

---
 python/pointless_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..cd5badd 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -573,6 +573,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From b109fce2e22b48dd093d5dccdf2a49a651792d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 53/55] fix: vectors offered read-only files, or no bytes at
 all, as writable buffers

---
 python/pointless_vector.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index cd5badd..5e95db9 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -495,11 +495,20 @@ static void* pointless_prim_vector_base_ptr(PyPointlessVector* self)
 
 static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view, int flags)
 {
-	if (view == 0)
-		return 0;
+	if (view == 0) {
+		PyErr_SetString(PyExc_BufferError, "no view to fill in");
+		return -1;
+	}
+
+	if (!pointless_is_prim_vector(&self->v)) {
+		view->obj = 0;
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support this operation");
+		return -1;
+	}
 
+	// files are mapped read-only
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), self->pp->p.fd != 0, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From fe15409f6da7aa67a15610c1c337caef31719a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 54/55] fix: lookup failed if another type of key had the same
 hash

---
 python/pointless_pyobject_cmp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..29648a6 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	int32_t is_eq; // only equality is asked for, so different types are just different
 } pypointless_cmp_state_t;
 
 // number values
@@ -561,7 +562,9 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	// we're going one deep
 	state->depth += 1;
 
-	if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
+	if (state->is_eq && cmp_a != 0 && cmp_b != 0 && cmp_a != cmp_b) {
+		c = 1;
+	} else if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
 		state->error = "comparison not supported between these types";
 		state->depth -= 1;
 		return 0;
@@ -587,6 +590,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -623,6 +627,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -659,6 +664,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From 36fb23c02a6e3a81f8d80c926cec363971aace1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 55/55] fix: 64-bit items and primvectors, although hashable,
 were not comparable

---
 python/pointless_pyobject_cmp.c | 43 +++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 29648a6..614e5fb 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -127,6 +127,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
@@ -205,6 +207,11 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 			return pypointless_cmp_vector;
 		}
 
+		if (PyPointlessPrimVector_Check(py_object)) {
+			*type = POINTLESS_VECTOR_VALUE;
+			return pypointless_cmp_vector;
+		}
+
 		if (PyPointlessBitvector_Check(py_object)) {
 			*type = POINTLESS_BITVECTOR;
 			return pypointless_cmp_bitvector;
@@ -426,6 +433,9 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 		return a->value.pointless.vector_slice_n;
 	}
 
+	if (PyPointlessPrimVector_Check(a->value.py_object))
+		return (uint32_t)pointless_dynarray_n_items(&((PyPointlessPrimVector*)a->value.py_object)->array);
+
 	assert(PyList_Check(a->value.py_object) || PyTuple_Check(a->value.py_object));
 
 	if (PyList_Check(a->value.py_object)) {
@@ -435,6 +445,32 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 	return (uint32_t)PyTuple_GET_SIZE(a->value.py_object);
 }
 
+static pointless_complete_value_t pypointless_cmp_primvector_item_at(PyPointlessPrimVector* v, uint32_t i)
+{
+	void* item = pointless_dynarray_item_at(&v->array, i);
+
+	switch (v->type) {
+		case POINTLESS_PRIM_VECTOR_TYPE_I8:
+			return pointless_complete_value_create_as_read_i64(*((int8_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U8:
+			return pointless_complete_value_create_as_read_u64(*((uint8_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I16:
+			return pointless_complete_value_create_as_read_i64(*((int16_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U16:
+			return pointless_complete_value_create_as_read_u64(*((uint16_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I32:
+			return pointless_complete_value_create_as_read_i64(*((int32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U32:
+			return pointless_complete_value_create_as_read_u64(*((uint32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I64:
+			return pointless_complete_value_create_as_read_i64(*((int64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U64:
+			return pointless_complete_value_create_as_read_u64(*((uint64_t*)item));
+	}
+
+	return pointless_complete_value_create_as_read_float(*((float*)item));
+}
+
 static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_value_t* v, uint32_t i)
 {
 	// our return value
@@ -454,6 +490,13 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 			r.value.pointless.vector_slice_i = 0;
 			r.value.pointless.vector_slice_n = pointless_reader_vector_n_items(v->value.pointless.p, &_v);
 		}
+	// primvector
+	} else if (PyPointlessPrimVector_Check(v->value.py_object)) {
+		r.is_pointless = 1;
+		r.value.pointless.p = 0;
+		r.value.pointless.v = pypointless_cmp_primvector_item_at((PyPointlessPrimVector*)v->value.py_object, i);
+		r.value.pointless.vector_slice_i = 0;
+		r.value.pointless.vector_slice_n = 0;
 	// PyObject
 	} else {
 		r.is_pointless = 0;
-- 
2.43.0

