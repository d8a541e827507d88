From ce4036f80e6c069354e2ca32c964e293404752e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 01/66] fix: abort on integer overflow and on modulo by zero

---
 src/lib/run.c | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 6277149..ad47e1d 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -368,7 +368,30 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 			// int + int
 			long long int raw_rop = Object_GetInt(rop);
 			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
+			_Bool overflow = 0;
+			switch(opcode)
+			{
+				case OPCODE_ADD: overflow = __builtin_add_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_SUB: overflow = __builtin_sub_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_MUL: overflow = __builtin_mul_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_DIV:
+				if(raw_rop == 0)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+					return NULL;
+				}
+				if(raw_rop == -1)
+					overflow = __builtin_sub_overflow(0LL, raw_lop, &raw_res);
+				else
+					raw_res = raw_lop / raw_rop;
+				break;
+				default: UNREACHABLE; break;
+			}
+			if(overflow)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+				return NULL;
+			}
 			res = Object_FromInt(raw_res, heap, error);
 		}
 		else if(Object_IsFloat(rop))
@@ -543,7 +566,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if(Object_IsInt(top))
 			{
 				long long n = Object_GetInt(top);
-				top = Object_FromInt(-n, heap, error);
+				if(__builtin_sub_overflow(0LL, n, &n))
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+					return 0;
+				}
+				top = Object_FromInt(n, heap, error);
 			}
 			else if(Object_IsFloat(top))
 			{
@@ -641,7 +669,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			long long int x, y, z;
 			y = Object_GetInt(objs[0]);
 			x = Object_GetInt(objs[1]);
-			z = x % y;
+			if(y == 0) {
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+			// NOTE: LLONG_MIN % -1 overflows, though the remainder is just 0.
+			z = (y == -1) ? 0 : x % y;
 
 			Object *res = Object_FromInt(z, heap, error);
 			if(res == NULL)
-- 
2.43.0


From 85812fd11fc41eea478a68c9bb0f29d114a6875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 02/66] fix: probe maps with unsigned hashes when growing them

---
 src/lib/objects/o_map.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index a57f97c..bdd0145 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -296,10 +296,14 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 		// This won't trigger an error because the key
 		// surely has a hash method since we already
 		// hashed it once.
-		int hash = Object_Hash(keys[i]);
-
-		int mask = new_mapper_size - 1;
-		int pert = hash;
+		//
+		// NOTE: It's important for these to be unsigned,
+		//       like in [select_] and [insert], or negative
+		//       hashes will follow a different probe sequence.
+		unsigned int hash = Object_Hash(keys[i]);
+
+		unsigned int mask = new_mapper_size - 1;
+		unsigned int pert = hash;
 			
 		int j = hash & mask;
 
-- 
2.43.0


From e12104a6e5cade7d9ae21c4995b4f19cd1fca34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 03/66] fix: relocate list items using the size they were
 allocated with

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 84af9c2..361b6bf 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -198,7 +198,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	ListObject *list = (ListObject*) self;
 	
-	callback((void**) &list->vals, sizeof(Object) * list->capacity, userp);
+	callback((void**) &list->vals, sizeof(Object*) * list->capacity, userp);
 }
 
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
-- 
2.43.0


From b96b821ade230b007c78ae994ecc0ad4b17ff0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 04/66] fix: don't truncate indices of lists, strings and
 buffers to 32 bits

---
 src/lib/objects/o_buffer.c | 4 ++--
 src/lib/objects/o_list.c   | 4 ++--
 src/lib/objects/o_string.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 63744f8..b9ed1d0 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -191,7 +191,7 @@ static Object *buffer_select(Object *self, Object *key, Heap *heap, Error *error
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	BufferObject *buffer = (BufferObject*) self;
 
@@ -230,7 +230,7 @@ static _Bool buffer_insert(Object *self, Object *key, Object *val, Heap *heap, E
 		Error_Report(error, ErrorType_RUNTIME, "Non integer value");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 	long long int qword = Object_GetInt(val);
 	if(idx < 0 || (size_t) idx >= buffer->length)
 	{
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 361b6bf..3623091 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -216,7 +216,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	ListObject *list = (ListObject*) self;
 
@@ -270,7 +270,7 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	if(idx < 0 || idx > list->count)
 	{
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index d774c01..9f70126 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -99,7 +99,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		Error_Report(error, ErrorType_RUNTIME, "Non integer key");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	StringObject *str = (StringObject*) self;
 
-- 
2.43.0


From 188621f8e5bb45a0a0f6b531c94131be80fdb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 05/66] fix: give 0.0 and -0.0 the same hash

---
 src/lib/objects/o_float.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_float.c b/src/lib/objects/o_float.c
index 567b2a2..6861caa 100644
--- a/src/lib/objects/o_float.c
+++ b/src/lib/objects/o_float.c
@@ -61,7 +61,13 @@ static int hash(Object *self)
 
 	FloatObject *iobj = (FloatObject*) self;
 
-	return hashbytes((unsigned char*) &iobj->val, sizeof(iobj->val));
+	// Zero and negative zero compare equal, so
+	// they need to have the same hash.
+	double val = iobj->val;
+	if(val == 0)
+		val = 0;
+
+	return hashbytes((unsigned char*) &val, sizeof(val));
 }
 
 static Object *copy(Object *self, Heap *heap, Error *err)
-- 
2.43.0


From 6bc4ef088764a58f8c697d1f764510a44755e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 06/66] fix: consider the bytes after a null byte when
 comparing and printing strings

---
 src/lib/objects/o_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 9f70126..fdb0cb7 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -212,7 +212,7 @@ static _Bool op_eql(Object *self, Object *other)
 	StringObject *s1 = (StringObject*) self;
 	StringObject *s2 = (StringObject*) other;
 
-	_Bool match = s1->bytes == s2->bytes && !strncmp(s1->body, s2->body, s1->bytes);
+	_Bool match = s1->bytes == s2->bytes && !memcmp(s1->body, s2->body, s1->bytes);
 
 	return match;
 }
@@ -225,7 +225,7 @@ static void print(Object *obj, FILE *fp)
 
 	StringObject *str = (StringObject*) obj;
 
-	fprintf(fp, "%.*s", str->bytes, str->body);
+	fwrite(str->body, 1, str->bytes, fp);
 }
 
 static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
-- 
2.43.0


From e006fb5f280a6770a81363abcb74c13935eb013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 07/66] fix: report an error when a map key is unhashable or
 contains itself

---
 src/lib/objects/objects.c | 28 +++++++++++++++++++++++++---
 src/lib/objects/objects.h |  2 ++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 53bb360..6f81241 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -109,8 +109,20 @@ int Object_Hash(Object *obj)
 {
 	ASSERT(obj != NULL);
 	const TypeObject *type = Object_GetType(obj);
-	ASSERT(type != NULL && type->hash != NULL);
-	return type->hash(obj);
+	ASSERT(type != NULL);
+
+	if(type->hash == NULL || (obj->flags & Object_HASH))
+		// Either the object isn't hashable or it contains
+		// itself. Other than being hashed, keys are also
+		// compared and copied. Those operations will report
+		// an error.
+		return 0;
+
+	obj->flags |= Object_HASH;
+	int hash = type->hash(obj);
+	obj->flags &= ~Object_HASH;
+
+	return hash;
 }
 
 Object *Object_Copy(Object *obj, Heap *heap, Error *err)
@@ -127,7 +139,17 @@ Object *Object_Copy(Object *obj, Heap *heap, Error *err)
 		return NULL;
 	}
 
-	return type->copy(obj, heap, err);
+	if(obj->flags & Object_COPY)
+	{
+		Error_Report(err, ErrorType_RUNTIME, "Can't copy a %s that contains itself", Object_GetName(obj));
+		return NULL;
+	}
+
+	obj->flags |= Object_COPY;
+	Object *copy = type->copy(obj, heap, err);
+	obj->flags &= ~Object_COPY;
+
+	return copy;
 }
 
 int Object_Call(Object *obj, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *err)
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 8aa5126..19dc344 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -85,6 +85,8 @@ enum {
 	Object_STATIC = 1 << 0,
 	Object_MOVED  = 1 << 1,
 	Object_PRINT  = 1 << 2,
+	Object_HASH   = 1 << 3,
+	Object_COPY   = 1 << 4,
 };
 
 Heap*		 Heap_New(int size);
-- 
2.43.0


From 30ae955b661e84f2c1220d0f71c75e32c370b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 08/66] fix: matching a list with a longer list type isn't an
 error

---
 src/lib/objects/o_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 3623091..d49098b 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -78,6 +78,9 @@ istypeof(Object *self,
 
     for (int i = 0; i < list->count; i++) {
     	
+    	if (i >= ((ListObject*) other)->count)
+    		return false;
+
     	Object *key = Object_FromInt(i, heap, error);
     	if (key == NULL)
     		return false;
-- 
2.43.0


From c354115ed2d3d5bcd63f44a8b5a5ef1c00eef375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 09/66] fix: don't let the size of a buffer overflow

---
 src/lib/objects/o_buffer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index b9ed1d0..cfc6eea 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "objects.h"
@@ -93,7 +94,9 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 	// Make the thing.
 	BufferObject *obj;
 	{
-		Payload *payload = malloc(sizeof(Payload) + size);
+		Payload *payload = NULL;
+		if(size <= PTRDIFF_MAX - sizeof(Payload))
+			payload = malloc(sizeof(Payload) + size);
 		if(payload == NULL)
 		{
 			Error_Report(error, ErrorType_INTERNAL, "No memory");
@@ -105,7 +108,10 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 
 		obj = (BufferObject*) Heap_Malloc(heap, &t_buffer, error);
 		if(obj == NULL)
+		{
+			free(payload);
 			return NULL;
+		}
 
 		obj->payload = payload;
 		obj->offset = 0;
-- 
2.43.0


From c6efca314a4f6d495b511adefa7a2c738cf0a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 10/66] fix: check slices against the sliced buffer without
 overflowing

---
 src/lib/objects/o_buffer.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index cfc6eea..37dd95a 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -144,14 +144,17 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 		return NULL;
 	}
 
-	Payload *payload = ((BufferObject*) obj)->payload;
+	BufferObject *parent = (BufferObject*) obj;
+	Payload *payload = parent->payload;
 
-	if(offset >= payload->size) {
+	// NOTE: The range is relative to the portion of
+	//       the payload that's visible to the parent.
+	if(offset >= parent->length) {
 		Error_Report(error, ErrorType_RUNTIME, "Offset out of range");
 		return NULL;
 	}
 
-	if(offset + length > payload->size) {
+	if(length > parent->length - offset) {
 		Error_Report(error, ErrorType_RUNTIME, "Length out of range");
 		return NULL;
 	}
@@ -162,7 +165,7 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 
 	payload->refs++;
 	slice->payload = payload;
-	slice->offset = offset;
+	slice->offset = parent->offset + offset;
 	slice->length = length;
 
 	return (Object*) slice;
-- 
2.43.0


From 08c4620f7996e8f47d8a634e3f5518b93bdb0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 11/66] fix: report running out of memory in the heap's
 allocator

---
 src/lib/objects/heap.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 77c3659..b5e7414 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -292,7 +292,7 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	padding = heap->used - padding;
 
-	if(heap->used + size > heap->size)
+	if(size > heap->size - heap->used)
 	{
 		if(heap->collecting)
 		{
@@ -300,10 +300,13 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 			return NULL;
 		}
 		
-		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
+		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + (size_t) size);
 		
-		if(oflow == 0)
-			return 0;
+		if(oflow == NULL)
+		{
+			Error_Report(err, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
 
 		oflow->prev = heap->oflow;
 		heap->oflow = oflow;
-- 
2.43.0


From 9e2a0f5b153c31f90e11e0b9da8fe259a9e221eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 12/66] fix: don't destroy objects twice when a collection
 fails

---
 src/lib/objects/heap.c | 85 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 14 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index b5e7414..f5d2e44 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -117,6 +117,22 @@ struct xHeap {
 	Error *error;
 };
 
+// The main pool of memory is prefixed by an overflow
+// allocation's header so that when necessary it can be
+// handled as one.
+static void *allocBody(int size)
+{
+	OflowAlloc *alloc = malloc(sizeof(OflowAlloc) + (size_t) size);
+	if(alloc == NULL)
+		return NULL;
+	return alloc->body;
+}
+
+static void freeBody(void *body)
+{
+	free((char*) body - sizeof(OflowAlloc));
+}
+
 Heap *Heap_New(int size)
 {
 	if(size < 0)
@@ -131,7 +147,7 @@ Heap *Heap_New(int size)
 	heap->total = 0;
 	heap->size = size;
 	heap->used = 0;
-	heap->body = malloc(size);
+	heap->body = allocBody(size);
 	heap->pend = NULL;
 	heap->pend_size = 0;
 	heap->pend_used = 0;
@@ -182,7 +198,7 @@ void Heap_Free(Heap *heap)
 	}
 
 	free(heap->pend);
-	free(heap->body);
+	freeBody(heap->body);
 	free(heap);
 }
 
@@ -335,7 +351,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 {
 	assert(heap->collecting == 0);
 
-	void *new_body = malloc(heap->size);
+	void *new_body = allocBody(heap->size);
 
 	if(new_body == NULL)
 	{
@@ -360,6 +376,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 
 static bool callDestructors(Heap *heap)
 {
+	bool success = true;
 	int i = 0;
 
 	while(i < heap->pend_used)
@@ -373,15 +390,28 @@ static bool callDestructors(Heap *heap)
 		}
 		else
 		{
-			// We need to call the destructor.
+			// We need to call the destructor. The object
+			// is forgotten before doing it so that even
+			// if it fails it's never destroyed again.
+			_Bool (*destructor)(Object*, Error*) = heap->pend[i].destructor;
 
-			heap->pend[i].destructor(obj, heap->error);
-					
-			if(heap->error->occurred) 
-				return false; // There will be leaks.
-			
 			heap->pend[i] = heap->pend[heap->pend_used-1];
 			heap->pend_used -= 1;
+
+			Error error;
+			Error_Init(&error);
+
+			destructor(obj, &error);
+
+			if(error.occurred)
+			{
+				// Keep destroying the other objects. Only
+				// the first error is reported.
+				if(!heap->error->occurred)
+					Error_Report(heap->error, error.type, "%s", error.message);
+				Error_Free(&error);
+				success = false;
+			}
 		}
 	}
 
@@ -397,7 +427,28 @@ static bool callDestructors(Heap *heap)
 		}
 	}
 
-	return true;
+	return success;
+}
+
+// When a collection fails, only some of the live objects
+// were moved to the new heap. Since there's no way of
+// knowing if those that were left in the old one are still
+// referenced, nothing is destroyed and the old heap's memory 
+// is kept until the heap is freed (or until a successful
+// collection).
+static void keepOldHeap(Heap *heap)
+{
+	for(int i = 0; i < heap->pend_used; i += 1)
+	{
+		Object *obj = heap->pend[i].object;
+		if(obj->flags & Object_MOVED)
+			heap->pend[i].object = ((MovedObject*) obj)->new_location;
+	}
+
+	OflowAlloc *old = (OflowAlloc*) ((char*) heap->old_body - sizeof(OflowAlloc));
+	old->prev = heap->old_oflow;
+	heap->old_oflow = NULL;
+	heap->oflow = old;
 }
 
 static void freeOverflowAllocations(Heap *heap)
@@ -414,17 +465,23 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
-	if(!callDestructors(heap))
+	heap->collecting = 0;
+
+	if(heap->collection_failed)
+	{
+		keepOldHeap(heap);
 		return false;
+	}
+
+	bool success = callDestructors(heap);
 	
 	freeOverflowAllocations(heap);
 
-	free(heap->old_body);
+	freeBody(heap->old_body);
 
-	heap->collecting = 0;
 	heap->objcount = heap->movedcount;
 
-	return !heap->collection_failed;
+	return success;
 }
 
 void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
-- 
2.43.0


From 779ce8acc5f3139c38f5bdbee3fe2c2db5c68cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 13/66] fix: limit the capacity of lists and maps to what can
 be allocated

---
 src/lib/objects/o_list.c | 13 +++++++++++++
 src/lib/objects/o_map.c  | 16 ++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index d49098b..feee252 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include <string.h>
 #include "objects.h"
 #include "../utils/defs.h"
@@ -155,6 +156,12 @@ Object *Object_NewList(int capacity, Heap *heap, Error *error)
 	if(capacity < 8)
 		capacity = 8;
 
+	if(capacity > (int) (INT_MAX / sizeof(Object*)))
+	{
+		Error_Report(error, ErrorType_RUNTIME, "List is too big");
+		return NULL;
+	}
+
 	// Make the thing.
 	ListObject *obj;
 	{
@@ -243,6 +250,12 @@ static _Bool grow(ListObject *list, Heap *heap, Error *error)
 
 	int new_capacity = calc_new_capacity(list->capacity);
 
+	if(new_capacity > (int) (INT_MAX / sizeof(Object*)))
+	{
+		Error_Report(error, ErrorType_RUNTIME, "List is too big");
+		return 0;
+	}
+
 	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
 
 	if(vals == NULL)
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index bdd0145..ac8f30f 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -102,6 +102,10 @@ istypeof(Object *self,
     return true;
 }
 
+// Biggest power of 2 for which the size in bytes of the mapper,
+// keys and values can be represented by an int.
+#define MAX_MAPPER_SIZE (1 << 28)
+
 static inline int calc_capacity(int mapper_size)
 {
 	return mapper_size * 2.0 / 3.0;
@@ -158,6 +162,12 @@ Object *Object_NewMap(int num, Heap *heap, Error *error)
 	if(num < 0)
 		num = 0;
 
+	if(num > calc_capacity(MAX_MAPPER_SIZE))
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Map is too big");
+		return NULL;
+	}
+
 	// Calculate initial mapper size.
 	int mapper_size, capacity;
 	{
@@ -271,6 +281,12 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 {
 	ASSERT(map != NULL);
 
+	if(map->mapper_size > MAX_MAPPER_SIZE / 2)
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Map is too big");
+		return 0;
+	}
+
 	int new_mapper_size = map->mapper_size << 1;
 	int new_capacity = calc_capacity(new_mapper_size);
 
-- 
2.43.0


From e3d6a6bb08d0cbef9c9822fee19e00553936e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 14/66] fix: terminate the tables of buffer and string builtins

---
 src/lib/builtins/buffer.c | 1 +
 src/lib/builtins/string.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index f2d1e0c..51f42fe 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -95,4 +95,5 @@ StaticMapSlot bins_buffer[] = {
     { "sliceUp", SM_FUNCT, .as_funct = bin_sliceUp, .argc = 3 },
     { "toString",   SM_FUNCT, .as_funct = bin_toString,   .argc = 1 },
     { "fromString", SM_FUNCT, .as_funct = bin_fromString, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 8f1d53d..58c044b 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -272,4 +272,5 @@ StaticMapSlot bins_string[] = {
     { "trim", SM_FUNCT, .as_funct = bin_trim, .argc = 1 },
     { "slice", SM_FUNCT, .as_funct = bin_slice, .argc = 3 },
     { "toInt", SM_FUNCT, .as_funct = bin_toInt, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From 77a0813d6df1b7d60923714a8a751bd4e092b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 15/66] fix: string.trim included bytes past the end of the
 string

---
 src/lib/builtins/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 58c044b..55ba118 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -203,7 +203,7 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
     size_t      srclen = pargs[0].as_string.size;
 
     size_t offset = 0;
-    size_t length = srclen;
+    size_t length;
 
     while (offset < srclen && srcstr[offset] == ' ')
         offset++;
@@ -220,6 +220,7 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
         // NOTE: The string doesn't contain only
         //       whitespace, so the length can't
         //       go under 1.
+        length = srclen - offset;
         while (srcstr[offset + length - 1] == ' ')
             length--;
 
-- 
2.43.0


From b20c6328958fd8365712de0ca9ccadcff818ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 16/66] fix: string.chr accepted out of range integers by
 truncating them

---
 src/lib/builtins/string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 55ba118..190b2ce 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -61,9 +61,11 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
     char buff[32];
     
-    int value = Object_GetInt(argv[0]);
+    long long int value = Object_GetInt(argv[0]);
     
-    int k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
+    int k = -1;
+    if(value >= 0 && value <= 0x10ffff)
+        k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
 
     if(k<0)
     {
-- 
2.43.0


From 8dc513c248914818f1a5fe1039e18892584ccc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 17/66] fix: builtins returned 64 bit integers truncated to 32
 bits

---
 src/lib/builtins/files.c  | 4 ++--
 src/lib/builtins/net.c    | 4 ++--
 src/lib/builtins/random.c | 2 +-
 src/lib/builtins/string.c | 2 +-
 src/lib/builtins/utils.c  | 1 +
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index ff18b96..54f8b4f 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -133,7 +133,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t n = fread(dstptr, 1, count, stream);
 	
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "l", (long long) n);
 }
 
 static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -169,7 +169,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "l", (long long) n);
 }
 
 static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index fbeb267..f570e9b 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -118,7 +118,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = recv(fd, dstptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "l", (long long) res);
 }
 
 static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -148,7 +148,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = send(fd, srcptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "l", (long long) res);
 }
 
 static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d21daf3..7123dc0 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -32,7 +32,7 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
 	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
-	return returnValues2(error, runtime, rets, "i", value);
+	return returnValues2(error, runtime, rets, "l", (long long) value);
 }
 
 StaticMapSlot bins_random[] = {
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 190b2ce..34f5f97 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -265,7 +265,7 @@ static int bin_toInt(Runtime *runtime, Object **argv, unsigned int argc, Object
         // be considered an integer.
         return returnValues2(error, runtime, rets, "ns", "String doesn't contain an integer");
     
-    return returnValues2(error, runtime, rets, "i", result);
+    return returnValues2(error, runtime, rets, "l", (long long) result);
 }
 
 StaticMapSlot bins_string[] = {
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 5fb3b2c..451da6d 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -15,6 +15,7 @@ int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], cons
 			case 'o': ret = va_arg(va, Object*); break;
 			case 'n': ret = Object_NewNone(heap, error); break;
 			case 'i': ret = Object_FromInt  (va_arg(va, int),    heap, error); break;
+			case 'l': ret = Object_FromInt  (va_arg(va, long long), heap, error); break;
 			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
 			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
 			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-- 
2.43.0


From 66642f64f5850e4718a92dedefa9113f25da2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 18/66] fix: mark map arguments as defined

---
 src/lib/builtins/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 451da6d..a53bcb2 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -123,6 +123,7 @@ bool parseArgs(Error *error,
 					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
 					return false;
 				}
+				pargs[current_arg].defined = true;
 				break;
 
 				case 's': /* String */
-- 
2.43.0


From 7bed9578c012ce4622e599d8aa26a85a953eb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 19/66] fix: math.pow takes two arguments

---
 src/lib/builtins/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index 6385e97..d820bc1 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -156,7 +156,7 @@ StaticMapSlot bins_math[] = {
 	{ "log",   SM_FUNCT, .as_funct = bin_log, .argc = 1, },
 	{ "log10", SM_FUNCT, .as_funct = bin_log10, .argc = 1, },
 
-	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 1, },
+	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 2, },
 	{ "sqrt", SM_FUNCT, .as_funct = bin_sqrt, .argc = 1, },
 	{ NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From e14e8d04866bbb4c221a4c9d547689e4f080dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 20/66] fix: report an error when floor and ceil don't fit an
 integer

---
 src/lib/builtins/math.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index d820bc1..fcf6538 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -94,6 +94,17 @@ WRAP_FUNC(sqrt)
 WRAP_FUNC_2(atan2)
 WRAP_FUNC_2(pow)
 
+static bool toInteger(double v, long long int *i)
+{
+	// NOTE: The comparisons are false for NaNs.
+	if(v >= -0x1p63 && v < 0x1p63)
+	{
+		*i = v;
+		return true;
+	}
+	return false;
+}
+
 static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error) \
 {
 	UNUSED(argc);
@@ -103,7 +114,14 @@ static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(ceil(v), Runtime_GetHeap(runtime), error);
+		long long int i;
+		if(!toInteger(ceil(v), &i))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Float can't be represented as an integer");
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(i, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
@@ -124,7 +142,14 @@ static int bin_floor(Runtime *runtime, Object **argv, unsigned int argc, Object
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(floor(v), Runtime_GetHeap(runtime), error);
+		long long int i;
+		if(!toInteger(floor(v), &i))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Float can't be represented as an integer");
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(i, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
-- 
2.43.0


From 5770bc6e1388165ab95b5b88b168ccbd191698ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 21/66] fix: stop reading at the end of input and don't realloc
 a stack buffer

---
 src/lib/builtins/basic.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 789947f..c729bcd 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -178,15 +178,23 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	while(1)
 	{
-		char c = getc(Runtime_GetInputStream(runtime));
+		int c = getc(Runtime_GetInputStream(runtime));
 
-		if(c == '\n')
+		if(c == '\n' || c == EOF)
 			break;
 
 		if(size == cap)
 		{
 			int newcap = cap*2;
-			char *tmp = realloc(str, newcap + 1);
+			char *tmp;
+			if(str == maybe)
+			{
+				tmp = malloc(newcap + 1);
+				if(tmp != NULL)
+					memcpy(tmp, maybe, size);
+			}
+			else
+				tmp = realloc(str, newcap + 1);
 
 			if(tmp == NULL)
 			{
-- 
2.43.0


From 23511d40842365cd718587544a98f2f7c866faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 22/66] fix: validate the opening mode of files and don't
 truncate counts

---
 src/lib/builtins/files.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 54f8b4f..83af591 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -51,7 +51,7 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
-	int         mode = pargs[1].as_int;
+	int64_t     mode = pargs[1].as_int;
 
 	FILE *fp;
 	{
@@ -73,9 +73,8 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			break;
 
 			default:
-			UNREACHABLE;
-			mode2 = NULL;
-			break;
+			Error_Report(error, ErrorType_RUNTIME, "Invalid file opening mode");
+			return -1;
 		}
 
 		fp = fopen(path, mode2);
@@ -122,7 +121,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	dstptr = pargs[1].as_buffer.data;
 	dstlen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
@@ -158,14 +157,14 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 	srcptr = pargs[1].as_buffer.data;
 	srclen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
 		}
 		count = MIN((size_t) n, srclen);
 	} else
-		count = (int) srclen;
+		count = srclen;
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-- 
2.43.0


From 4da123e884168028ec05a603013b40984dab6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 23/66] fix: keep random.generate's result between its bounds

---
 src/lib/builtins/random.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index 7123dc0..18ca743 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -31,7 +31,16 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	int64_t min, max;
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
+	if (min > max) {
+		Error_Report(error, ErrorType_RUNTIME, "Lower bound is higher than the upper bound");
+		return -1;
+	}
+
+	// NOTE: The size of the range may not fit a signed integer.
+	uint64_t range = (uint64_t) max - (uint64_t) min;
+	double  scaled = (double) range * ((double) rand() / RAND_MAX);
+	uint64_t offset = scaled < (double) range ? (uint64_t) scaled : range;
+	int64_t value = (uint64_t) min + offset;
 	return returnValues2(error, runtime, rets, "l", (long long) value);
 }
 
-- 
2.43.0


From 67f849bc39ceff4336cc5db8fccb5f015dc088aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 24/66] fix: reject malformed and overlong UTF-8 sequences

---
 src/lib/utils/utf8.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 88fdc2d..bcbe284 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -105,6 +105,12 @@ int utf8_sequence_from_utf32_codepoint(char *utf8_data, int nbytes, uint32_t utf
     return -1;
 }
 
+// Is it in the form 10xxxxxx?
+static int is_aux(char c)
+{
+    return ((unsigned char) c & 0xC0) == 0x80;
+}
+
 /* SYMBOL
 **   utf8_sequence_to_utf32_codepoint
 **
@@ -151,12 +157,15 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
     {
         // May be UTF-8.
             
+        if((unsigned char) utf8_data[0] >= 0xF8)
+            return -1;
+
         if((unsigned char) utf8_data[0] >= 0xF0)
             {
                 // 4 bytes.
                 // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
 
-                if(nbytes < 4)
+                if(nbytes < 4 || !is_aux(utf8_data[1]) || !is_aux(utf8_data[2]) || !is_aux(utf8_data[3]))
                     return -1;
                     
                 uint32_t temp 
@@ -165,8 +174,8 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                     | (((uint32_t) utf8_data[2] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[3] & 0x3f));
 
-                if(temp > 0x10ffff)
-                    return -1;
+                if(temp < 0x10000 || temp > 0x10ffff)
+                    return -1; // Overlong or out of range.
 
                 *utf32_code = temp;
                 return 4;
@@ -177,7 +186,7 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 // 3 bytes.
                 // 1110xxxx 10xxxxxx 10xxxxxx
 
-                if(nbytes < 3)
+                if(nbytes < 3 || !is_aux(utf8_data[1]) || !is_aux(utf8_data[2]))
                     return -1;
 
                 uint32_t temp
@@ -185,8 +194,8 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                     | (((uint32_t) utf8_data[1] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[2] & 0x3f));
                 
-                if(temp > 0x10ffff)
-                    return -1;
+                if(temp < 0x800)
+                    return -1; // Overlong.
 
                 *utf32_code = temp;
                 return 3;
@@ -197,21 +206,23 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 // 2 bytes.
                 // 110xxxxx 10xxxxxx
 
-                if(nbytes < 2)
+                if(nbytes < 2 || !is_aux(utf8_data[1]))
                     return -1;
 
-                *utf32_code 
+                uint32_t temp
                     = (((uint32_t) utf8_data[0] & 0x1f) << 6)
                     | (((uint32_t) utf8_data[1] & 0x3f));
-                    
-                ASSERT(*utf32_code <= 0x10ffff);
+
+                if(temp < 0x80)
+                    return -1; // Overlong.
+
+                *utf32_code = temp;
                 return 2;
             }
             
-        // 1 byte
         // 10xxxxxx
-        *utf32_code = (uint32_t) utf8_data[0] & 0x3f;
-        return 1;
+        // This byte can't start a sequence.
+        return -1;
     }
 
     // It's ASCII
-- 
2.43.0


From 3af6b858c668b8115bf22f6e2e4551eb66e9198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 25/66] fix: null-terminate sources made from strings

---
 src/lib/utils/source.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index c4f3de1..e3c3d95 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -213,6 +213,7 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 	else
 		s->name = NULL;
 	
-	strncpy(s->body, body, size);
+	memcpy(s->body, body, size);
+	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From 804719b95a34c43c6a278446615472039ad20018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 26/66] fix: report an error when too many values are returned

---
 src/lib/run.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index ad47e1d..906e27e 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -811,7 +811,7 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if (!Runtime_Pop(runtime, error, argv, argc))
 				return 0;
 
-			Object *rets[8];
+			Object *rets[MAX_RETS];
 			int num_rets = Object_Call(callable, argv, argc, rets, heap, error);
 			if(num_rets < 0)
 				return 0;
@@ -1155,7 +1155,11 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
     // Get return values
     int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
     	rets[i] = Runtime_Top(runtime, i-retc+1);
 
     if (!Runtime_PopFrame(runtime))
-- 
2.43.0


From c2652b85f8db737a128fb46d6e6a23738b920168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 27/66] fix: don't leak the arguments of functions that can't
 be called

---
 src/lib/run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 906e27e..29b12e5 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -82,7 +82,10 @@ static int func_call(Object *self, Object **argv, unsigned int argc, Object *ret
 			argv2[i] = Object_NewNone(heap, error);
 
 			if(argv2[i] == NULL)
+			{
+				free(argv2);
 				return -1;
+			}
 		}
 	}
 	else
@@ -269,7 +272,11 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	}
 
 	if (!Runtime_PushNativeFrame(func->runtime, error))
-    	return -1;
+	{
+		if(argv2 != argv)
+			free(argv2);
+		return -1;
+	}
 
 	ASSERT(func->callback != NULL);
 	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
-- 
2.43.0


From ad05f84c984a71f1f23d7612a0f1fd568b7c8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 28/66] fix: don't push the same frame twice when two
 compilations fail

---
 src/lib/runtime.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 53fd5ea..d27cf9a 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -85,8 +85,6 @@ struct xRuntime {
 	FILE *stdin;
 	FILE *stdout;
 	FILE *stderr;
-
-	FailedFrame failed_frame;
 };
 
 bool Runtime_plugBuiltins(Runtime *runtime, Object *object, Error *error)
@@ -610,10 +608,15 @@ static bool appendFrame(Runtime *runtime, Error *error, Frame *frame)
 
 bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int offset)
 {
-	FailedFrame *failed_frame = &runtime->failed_frame;
+	FailedFrame *failed_frame = malloc(sizeof(FailedFrame));
+	if (failed_frame == NULL) {
+		Error_Report(error, ErrorType_INTERNAL, "Out of memory");
+		return false;
+	}
 
 	Source *source_copy = Source_Copy(source);
 	if (source_copy == NULL) {
+		free(failed_frame);
 		Error_Report(error, ErrorType_INTERNAL, "Failed to copy source object");
 		return false;
 	}
@@ -624,6 +627,7 @@ bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int
 	failed_frame->offset = offset;
 
 	if (!appendFrame(runtime, error, (Frame*) failed_frame)) {
+		free(failed_frame);
 		Source_Free(source_copy);
 		return false;
 	}
@@ -709,6 +713,7 @@ bool Runtime_PopFrame(Runtime *runtime)
 		case FrameType_FAILED: {
 			FailedFrame *failed_frame = (FailedFrame*) frame;
 			Source_Free(failed_frame->source);
+			free(frame);
 			break;
 		}
 	}
-- 
2.43.0


From 3803a168239a1b3a04060c270609513ee7207df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 29/66] fix: stringify negative and big integers

---
 src/lib/builtins/start.noja | 47 ++++++++++---------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index a561866..a68bb16 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -17,47 +17,26 @@ fun stringFromDigit(digit: int) {
 	return chr(ord("0") + digit);
 }
 
-# This function returns the magnitude of the
-# argument and the power of 10 with the same
-# magnitude.
-fun getIntegerMagnitude(n: int) {
-	assert(n >= 0);
-	magn = 0;
-	powr = 1;
-	# Basically grow the power until it's
-	# bigger than the input.
-	while n >= powr * 10: {
-		powr = 10 * powr;
-		magn = 1 + magn;
-	}
-	return magn, powr;
-}
-
-# Stringify an unsigned integer
+# Stringify an integer
 fun stringFromInteger(n: int) {
 
-	negative = (n < 0);
-	
-	# Get the power of 10 with the
-	# magnitude of the input.
-	_, power = getIntegerMagnitude(n);
-
-	temp = abs(n); # Temporary copy of the input
+	temp = n; # Temporary copy of the input
 	text = ""; # The output we're about to compute
 	
-	while power >= 1: {
-		# Pop the leftmost digit from [temp].
-		digit = temp / power; # Get the leftmost digit
-		temp  = temp % power; # Remove it
+	do {
+		# Pop the rightmost digit from [temp]. The 
+		# remainder has the same sign as the dividend.
+		digit = temp % 10;
+		temp  = temp / 10;
 
-		# Add the digit to the output.
-		text = cat(text, stringFromDigit(digit));
+		if digit < 0:
+			digit = -digit;
 
-		# Prep for the next iteration.
-		power = power / 10;
-	}
+		# Add the digit to the output.
+		text = cat(stringFromDigit(digit), text);
+	} while temp != 0;
 
-	if negative:
+	if n < 0:
 		text = cat("-", text);
 	return text;
 }
-- 
2.43.0


From 445d04847a5f9b639375dc20b65775f551f04715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 30/66] fix: stringify negative floats

---
 src/lib/builtins/start.noja | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index a68bb16..48f5055 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -43,6 +43,8 @@ fun stringFromInteger(n: int) {
 
 fun stringFromFloating(f: float, max_decimals: int = 2) {
 	# This function is just a fast hack
+	if f < 0:
+		return cat("-", stringFromFloating(-f, max_decimals));
 	epsilon = 0.00000001;
 	asint = math.floor(f);
 	text = stringFromInteger(asint);
@@ -53,6 +55,8 @@ fun stringFromFloating(f: float, max_decimals: int = 2) {
 	do {
 		magn = magn / 10;
 		digit = math.floor(temp / magn);
+		if digit > 9:
+			digit = 9; # The division was rounded up
 		text = cat(text, stringFromDigit(digit));
 		temp = temp - magn * digit; # Remove the handled digit
 		i = i+1;
-- 
2.43.0


From 39ede70b843916a690df1e596fe932d769ac0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 31/66] fix: tell the code generator where to store the offset
 of errors

---
 src/lib/compiler/codegen.c    | 9 ++++-----
 src/lib/compiler/codegenctx.c | 8 +++++---
 src/lib/compiler/codegenctx.h | 2 +-
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 586650c..41c5593 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -768,12 +768,11 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 
 	jmp_buf env;
 
-	CodegenContext *ctx = CodegenContext_New(error, alloc);
-	if(ctx == NULL) {
-		*error_offset = 0;
-		Error_Report(error, ErrorType_INTERNAL, "No memory");
+	*error_offset = -1;
+
+	CodegenContext *ctx = CodegenContext_New(error, alloc, error_offset);
+	if(ctx == NULL)
 		return NULL;
-	}
 
 	if(setjmp(env)) {
 		assert(error->occurred == true);
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dfb3a03..7c5a09f 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -74,14 +74,14 @@ void CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env)
     ctx->env_set = true;
 }
 
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
+CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc, int *error_offset)
 {
     bool own_alloc;
     if(alloc == NULL) {
         alloc = BPAlloc_Init(-1);
         if(alloc == NULL) {
             Error_Report(error, ErrorType_INTERNAL, "No memory");
-            return false;
+            return NULL;
         }
         own_alloc = true;
     } else {
@@ -98,8 +98,9 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
 
     ExeBuilder *builder = ExeBuilder_New(alloc);
     if(builder == NULL) {
-        if(ctx->own_alloc)
+        if(own_alloc)
             BPAlloc_Free(alloc);
+        Error_Report(error, ErrorType_INTERNAL, "No memory");
         return NULL;
     }
 
@@ -108,6 +109,7 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
     ctx->builder = builder;
     ctx->env_set = false;
     ctx->own_alloc = own_alloc;
+    ctx->error_offset = error_offset;
     return ctx;
 }
 
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index bfd5c37..ad13178 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -4,7 +4,7 @@
 #include "../executable.h"
 
 typedef struct CodegenContext CodegenContext;
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc);
+CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc, int *error_offset);
 void            CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len);
 void            CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env);
 void            CodegenContext_Free(CodegenContext *ctx);
-- 
2.43.0


From a9340f829e7fb486e3bfb87c2997ee06f2e0b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 32/66] fix: don't parse past the end of the source inside map
 literals

---
 src/lib/compiler/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 274d006..a429cb5 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1001,6 +1001,13 @@ static Node *parse_map_primary_expression(Context *ctx)
 
 			bool item_is_func_decl = false;
 
+			if(done(ctx))
+			{
+				*ctx->error_offset = ctx->token->offset;
+				Error_Report(ctx->error, ErrorType_SYNTAX, "Source ended inside a map literal");
+				return NULL;
+			}
+
 			if (current(ctx) == TKWFUN) 
 			{
 				FuncDeclNode *func = parse_function_definition(ctx);
-- 
2.43.0


From 1f3c9e8f6f645354d8ab86f92419c6a85e46885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 33/66] fix: tokenize operators followed by an unary operator

---
 src/lib/compiler/parse.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index a429cb5..f83bba4 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -319,9 +319,12 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 			while(i < len && isoper(str[i]))
 				i += 1;
 
-			tok->length = i - tok->offset;
-				
-			// Determine the token
+			// Determine the token. Operators have at most 2
+			// characters. If more follow, then they're part
+			// of the next token.
+
+			tok->length = MIN(i - tok->offset, 2);
+			i = tok->offset + tok->length;
 
 			static const struct {
 				TokenKind    kind;
-- 
2.43.0


From a175073f5ecfcabb8b8dcd66e54b0711615c42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 34/66] fix: use the position of string, none and boolean
 literals instead of the next token's

---
 src/lib/compiler/parse.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index f83bba4..083ffb8 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -719,7 +719,7 @@ static Node *parse_expression_statement(Context *ctx)
 	return expr;
 }
 
-static Node *makeStringExprNode(Context *ctx, const char *str, int len)
+static Node *makeStringExprNode(Context *ctx, Token *token, const char *str, int len)
 {
 	if(str == NULL)
 		str = "";
@@ -757,8 +757,8 @@ static Node *makeStringExprNode(Context *ctx, const char *str, int len)
 
 		node->base.base.kind = NODE_EXPR;
 		node->base.base.next = NULL;
-		node->base.base.offset = ctx->token->offset;
-		node->base.base.length = ctx->token->length;
+		node->base.base.offset = token->offset;
+		node->base.base.length = token->length;
 		node->base.kind = EXPR_STRING;
 		node->val = copy;
 		node->len = copyl;
@@ -858,9 +858,11 @@ static Node *parse_string_primary_expression(Context *ctx)
 
 	temp[temp_used] = '\0';
 
+	Token *token = current_token(ctx);
+
 	next(ctx);
 
-	return makeStringExprNode(ctx, temp, temp_used);
+	return makeStringExprNode(ctx, token, temp, temp_used);
 }
 
 static Node *parse_list_primary_expression(Context *ctx)
@@ -1035,7 +1037,7 @@ static Node *parse_map_primary_expression(Context *ctx)
 				if(key_is_a_single_ident)
 				{
 					assert(current(ctx) == TIDENT);
-					key = makeStringExprNode(ctx, ctx->src + ctx->token->offset, ctx->token->length);
+					key = makeStringExprNode(ctx, ctx->token, ctx->src + ctx->token->offset, ctx->token->length);
 
 					next(ctx);
 				}
@@ -1342,6 +1344,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWNONE:
 		{
+			Token *token = current_token(ctx);
+
 			next(ctx);
 
 			ExprNode *node;
@@ -1357,8 +1361,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 				node->base.kind = NODE_EXPR;
 				node->base.next = NULL;
-				node->base.offset = ctx->token->offset;
-				node->base.length = ctx->token->length;
+				node->base.offset = token->offset;
+				node->base.length = token->length;
 				node->kind = EXPR_NONE;
 			}
 
@@ -1367,6 +1371,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWTRUE:
 		{
+			Token *token = current_token(ctx);
+
 			next(ctx);
 
 			ExprNode *node;
@@ -1382,8 +1388,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 				node->base.kind = NODE_EXPR;
 				node->base.next = NULL;
-				node->base.offset = ctx->token->offset;
-				node->base.length = ctx->token->length;
+				node->base.offset = token->offset;
+				node->base.length = token->length;
 				node->kind = EXPR_TRUE;
 			}
 
@@ -1392,6 +1398,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWFALSE:
 		{
+			Token *token = current_token(ctx);
+
 			next(ctx);
 
 			ExprNode *node;
@@ -1407,8 +1415,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 				node->base.kind = NODE_EXPR;
 				node->base.next = NULL;
-				node->base.offset = ctx->token->offset;
-				node->base.length = ctx->token->length;
+				node->base.offset = token->offset;
+				node->base.length = token->length;
 				node->kind = EXPR_FALSE;
 			}
 			return (Node*) node;
@@ -1498,7 +1506,7 @@ static Node *parse_postfix_expression(Context *ctx)
 					return NULL;
 				}
 
-				Node *idx = makeStringExprNode(ctx, ctx->src + ctx->token->offset, ctx->token->length);
+				Node *idx = makeStringExprNode(ctx, ctx->token, ctx->src + ctx->token->offset, ctx->token->length);
 				if(idx == NULL)
 					return NULL;
 
-- 
2.43.0


From 1d551cfe647249e7326a205fbd2c5640872c71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 35/66] fix: report the line of the failed instruction instead
 of the next one's

---
 src/lib/runtime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index d27cf9a..54d89d9 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -154,8 +154,12 @@ static int getFrameOffset(Frame *frame)
 	switch (frame->type) {
 		case FrameType_NORMAL: 
 		{
+			// NOTE: The frame's index refers to the instruction that
+			//       comes after the one that's being executed.
 			NormalFrame *normal_frame = (NormalFrame*) frame;
-			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->index);
+			int index = normal_frame->index;
+			if (index > 0) index--;
+			return Executable_GetInstrOffset(normal_frame->exe, index);
 		}
 
 		case FrameType_NATIVE: return -1;
@@ -214,7 +218,7 @@ void Runtime_PrintStackTrace(Runtime *runtime, FILE *stream)
 	fprintf(stream, "Stack trace:\n");
 	Frame *frame = runtime->frame;
 	if (frame == NULL)
-		fprintf(stderr, "\t(No active frames)\n");
+		fprintf(stream, "\t(No active frames)\n");
 	else {
 		size_t depth = 0;
 		do {
-- 
2.43.0


From aa1444f0fb89087c95053e77829d8ace4f47d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 36/66] fix: don't report an error twice when there's nothing
 to call

---
 src/lib/run.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 29b12e5..9723294 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -803,10 +803,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(argc >= 0 && retc > 0);
 
 			Object *callable;
-			if (!Runtime_Pop(runtime, error, &callable, 1)) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
+			if (!Runtime_Pop(runtime, error, &callable, 1))
 				return 0;
-			}
 
 			Object *argv[32];
 
-- 
2.43.0


From 04b8a90cb89c85b79a6f0aae30a4058f28b5bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 37/66] fix: don't truncate integer operands when comparing
 executables

---
 src/lib/executable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 0d35f4c..256fbe0 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -377,11 +377,11 @@ _Bool Executable_Equiv(Executable *exe1, Executable *exe2, FILE *log, const char
 				case OPTP_IDX:
 				case OPTP_INT:
 				{
-					int v1 = exe1_opv[opno].as_int;
-					int v2 = exe2_opv[opno].as_int;
+					long long int v1 = exe1_opv[opno].as_int;
+					long long int v2 = exe2_opv[opno].as_int;
 					if(v1 != v2) {
 						if(log != NULL)
-							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%d != %d)\n", 
+							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%lld != %lld)\n", 
 								log_prefix, Executable_GetOpcodeName(exe1_opcode), idx, opno, v1, v2);
 						return false;
 					}
-- 
2.43.0


From 4df5a41d8e49153cd7452acd7f9e89010e74d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 38/66] fix: stop assembling when an opcode is missing

---
 src/lib/assembler/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index f373e7f..e5575d6 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -59,7 +59,7 @@ static bool parseLabelAndOpcode(Context *ctx, bool *no_label,
             // ERROR: Missing opcode
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SYNTAX, "Missing opcode");
-            #warning "should there be a return here?"
+            return false;
         }
         
         label_or_opcode.offset = ctx->cur;
-- 
2.43.0


From d7a6f26e0d1e3f321622f321430352641b74b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 39/66] fix: don't print errors of unspecified type as syntax
 errors

---
 src/lib/compiler/codegen.c | 2 +-
 src/lib/compiler/parse.c   | 2 +-
 src/lib/run.c              | 2 +-
 src/lib/utils/error.c      | 2 +-
 src/lib/utils/error.h      | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 41c5593..c245f21 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -392,7 +392,7 @@ static void emitInstrForExprNode(CodegenContext *ctx, ExprNode *expr,
 	{
 		case EXPR_PAIR:
 		CodegenContext_ReportErrorAndJump(
-			ctx, expr->base.offset, 0, 
+			ctx, expr->base.offset, ErrorType_SEMANTIC, 
 			"Tuple outside of assignment or return statement");
 		UNREACHABLE;
 		return; // For the compiler warning.
diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 083ffb8..8f6d37f 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -304,7 +304,7 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 			if(i == len)
 			{
 				*error_offset = i;
-				Error_Report(error, 0, "Source ended inside string literal");
+				Error_Report(error, ErrorType_SYNTAX, "Source ended inside string literal");
 				return NULL;
 			}
 
diff --git a/src/lib/run.c b/src/lib/run.c
index 9723294..34d7f52 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -246,7 +246,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 			
 		if(argv2 == NULL)
 		{
-			Error_Report(error, 1, "No memory");
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
 			return -1;
 		}
 
diff --git a/src/lib/utils/error.c b/src/lib/utils/error.c
index 4feb7f5..4dc1959 100644
--- a/src/lib/utils/error.c
+++ b/src/lib/utils/error.c
@@ -144,7 +144,7 @@ void Error_Print(Error *error, ErrorType type_if_unspecified, FILE *stream)
         type = type_if_unspecified;
 
     const char *name;
-    switch (error->type) {
+    switch (type) {
         case ErrorType_INTERNAL: name = "Internal Error"; break;
         case ErrorType_SYNTAX:   name =   "Syntax Error"; break;
         case ErrorType_SEMANTIC: name = "Semantic Error"; break;
diff --git a/src/lib/utils/error.h b/src/lib/utils/error.h
index 4a5ddaf..5577ab2 100644
--- a/src/lib/utils/error.h
+++ b/src/lib/utils/error.h
@@ -35,11 +35,11 @@
 #include <stdarg.h>
 
 typedef enum {
+	ErrorType_UNSPECIFIED,
+	ErrorType_INTERNAL,
 	ErrorType_SYNTAX,
 	ErrorType_SEMANTIC,
 	ErrorType_RUNTIME,
-	ErrorType_INTERNAL,
-	ErrorType_UNSPECIFIED = 0,
 } ErrorType;
 
 typedef struct Error Error;
-- 
2.43.0


From 0cfb501c43e88a583edd4e58cdd96d5cbc4aff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 40/66] fix: report labels that are defined more than once

---
 src/lib/assembler/assemble.c | 5 +++++
 src/lib/utils/labellist.c    | 9 +++++++++
 src/lib/utils/labellist.h    | 1 +
 3 files changed, 15 insertions(+)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index e5575d6..b3a73e3 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -426,6 +426,11 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
         // If a label was defined, add it to the list.
         if(no_label == false) {
             long long int value = ExeBuilder_InstrCount(builder);
+            if(LabelList_HasLabel(list, ctx.str + label.offset, label.length)) {
+                *error_offset = label.offset;
+                Error_Report(error, ErrorType_SEMANTIC, "Label %.*s is defined more than once", (int) label.length, ctx.str + label.offset);
+                goto done;
+            }
             if(!LabelList_SetLabel(list, ctx.str + label.offset, label.length, value)) {
                 *error_offset = ctx.cur;
                 Error_Report(error, ErrorType_INTERNAL, "Out of memory");
diff --git a/src/lib/utils/labellist.c b/src/lib/utils/labellist.c
index 62c5747..72cb567 100644
--- a/src/lib/utils/labellist.c
+++ b/src/lib/utils/labellist.c
@@ -34,6 +34,15 @@ void LabelList_Free(LabelList *list)
     list->head = NULL;
 }
 
+// Tells if a label with the given name was already defined
+bool LabelList_HasLabel(LabelList *list, const char *name, size_t name_len)
+{
+    for(LabelInfo *info = list->head; info != NULL; info = info->next)
+        if(name_len == info->name_len && strncmp(name, info->name, name_len) == 0)
+            return Promise_hasResolved(info->promise);
+    return false;
+}
+
 bool LabelList_SetLabel(LabelList *list, const char *name, size_t name_len, long long int value)
 {
     Promise *promise = LabelList_GetLabel(list, name, name_len);
diff --git a/src/lib/utils/labellist.h b/src/lib/utils/labellist.h
index c9e8fca..8513913 100644
--- a/src/lib/utils/labellist.h
+++ b/src/lib/utils/labellist.h
@@ -7,6 +7,7 @@
 typedef struct LabelList LabelList;
 LabelList *LabelList_New(BPAlloc *alloc);
 void       LabelList_Free(LabelList *list);
+bool       LabelList_HasLabel(LabelList *list, const char *name, size_t name_len);
 bool       LabelList_SetLabel(LabelList *list, const char *name, size_t name_len, long long int value);
 Promise   *LabelList_GetLabel(LabelList *list, const char *name, size_t name_len);
 size_t     LabelList_GetUnresolvedCount(LabelList *list);
-- 
2.43.0


From 11671cfa0c9b3ad121fc14a2e3b49c74598ab882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 41/66] fix: don't read a native function object after its
 callback ran a collection

---
 src/lib/run.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 34d7f52..7a36d16 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -271,7 +271,12 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 		argc2 = -1;
 	}
 
-	if (!Runtime_PushNativeFrame(func->runtime, error))
+	// The callback may trigger a GC cycle that moves or frees
+	// this function object, so the reference to the runtime
+	// needs to be saved.
+	Runtime *runtime = func->runtime;
+
+	if (!Runtime_PushNativeFrame(runtime, error))
 	{
 		if(argv2 != argv)
 			free(argv2);
@@ -279,7 +284,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	}
 
 	ASSERT(func->callback != NULL);
-	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
 		
 	// NOTE: Since the callback may have executed some bytecode, a GC
 	//       cycle may have been triggered, therefore we must assume
@@ -289,7 +294,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	if(argv2 != argv)
 		free(argv2);
 
-	if (retc >= 0 && !Runtime_PopFrame(func->runtime))
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
     	return -1;
 
 	return retc;
-- 
2.43.0


From c82ea7fe38bad895701562e70e834d876b9c3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 42/66] fix: draw tuples, arrow selections and large integers
 in AST diagrams

---
 src/lib/compiler/graphviz.c | 51 +++++++++++++++----------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c163c6b..05e1732 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -183,25 +183,6 @@ static char *GraphViz_Complete(GraphViz *gv, size_t *len)
 
 static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name);
 
-static void flattenTupleTree(ExprNode *root, ExprNode *tuple[], int max, int *count)
-{
-	if(root->kind == EXPR_PAIR)
-	{
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head, tuple, max, count);
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head->next, tuple, max, count);
-	} 
-	else 
-	{
-
-		if(max == *count)
-		{
-			assert(0); // TODO: Do something smart instead
-		}
-
-		tuple[(*count)++] = root;
-	}
-}
-
 static void generateName(int *count, char *dst, size_t max)
 {
 	snprintf(dst, max, "node_%d", ++(*count));
@@ -247,6 +228,18 @@ static void childToGraphViz(GraphViz *ctx, Node *child, int *count, char *parent
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", parent, name2);
 }
 
+static void tupleItemsToGraphViz(GraphViz *ctx, Node *root, int *count, char *parent)
+{
+	if(root->kind == NODE_EXPR && ((ExprNode*) root)->kind == EXPR_PAIR)
+	{
+		OperExprNode *pair = (OperExprNode*) root;
+		tupleItemsToGraphViz(ctx, pair->head,       count, parent);
+		tupleItemsToGraphViz(ctx, pair->head->next, count, parent);
+	}
+	else
+		childToGraphViz(ctx, root, count, parent);
+}
+
 static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_name, int *count, char *name)
 {
 	GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, func_name);
@@ -276,12 +269,13 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 	switch(expr->kind)
 	{
 		case EXPR_PAIR:
-		UNREACHABLE;
-		return; // For the compiler warning.
+		GraphViz_AppendHead(ctx, "\t%s [label=\"Tuple\"];\n", name);
+		tupleItemsToGraphViz(ctx, (Node*) expr, count, name);
+		return;
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
-		case EXPR_ASS: case EXPR_ARW:
+		case EXPR_ASS:
 		case EXPR_NOT: case EXPR_MOD:
 		case EXPR_POS: case EXPR_NEG:
 		case EXPR_ADD: case EXPR_SUB:
@@ -301,7 +295,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_INT:
 		{
 			IntExprNode *p = (IntExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"%d\"];\n", name, p->val);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%lld\"];\n", name, p->val);
 			return;
 		}
 
@@ -402,9 +396,10 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		return;
 
 		case EXPR_SELECT:
+		case EXPR_ARW:
 		{
 			IndexSelectionExprNode *sel = (IndexSelectionExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"Select\"];\n", name);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, expr->kind == EXPR_ARW ? exprkind_to_label(expr->kind) : "Select");
 			childToGraphViz(ctx, sel->set, count, name);
 			childToGraphViz(ctx, sel->idx, count, name);
 			return;
@@ -497,13 +492,7 @@ static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name)
 
 			GraphViz_AppendHead(ctx, "\t%s [label=\"return\"];\n", name);
 
-			ExprNode *tuple[32];
-			int return_count = 0;
-
-			flattenTupleTree((ExprNode*) ret->val, tuple, sizeof(tuple)/sizeof(tuple[0]), &return_count);
-
-			for(int i = 0; i < return_count; i += 1)
-				childToGraphViz(ctx, (Node*) tuple[i], count, name);
+			tupleItemsToGraphViz(ctx, ret->val, count, name);
 			return;
 		}
 
-- 
2.43.0


From ffc1a6ffc074f7d8f03d86b510769646cf699b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:26 +0000
Subject: [PATCH 43/66] fix: fail when the profiling output file can't be
 opened

---
 src/cli/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 2c60fee..a34e15a 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -252,8 +252,10 @@ int main(int argc, char **argv)
 			code = 0;
 			if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
-			else
-				Runtime_SerializeProfilingResultsToFile(runtime, output);
+			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
+				fprintf(stderr, "Error: Couldn't open '%s'\n", output);
+				code = -1;
+			}
 			Runtime_Free(runtime);
 			break;
 		}
-- 
2.43.0


From 7fc44fa65e9675510a50a7f1c4fa72e468d4ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 44/66] fix: accept 64-bit counts in net.recv and net.send

---
 src/lib/builtins/net.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index f570e9b..cdcd11b 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -108,7 +108,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, dstlen);
@@ -138,7 +138,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, srclen);
-- 
2.43.0


From c95bba0836c136a08825b053e3981c46f02f4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 45/66] fix: close the socket when net.socket can't set its
 options

---
 src/lib/builtins/net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index cdcd11b..0c6af44 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -26,8 +26,11 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	
 	if (reuse) {
 		int value = 1;
-		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0)
-			return returnValues2(error, runtime, rets, "ns", strerror(errno));
+		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0) {
+			const char *errdesc = strerror(errno);
+			close(fd);
+			return returnValues2(error, runtime, rets, "ns", errdesc);
+		}
 	}
 
 	return returnValues2(error, runtime, rets, "i", fd);
-- 
2.43.0


From a0f7dd0b521a65319be54f4d23bdaf728cc0554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 46/66] fix: return the port from net.accept in the byte order
 net.bind takes

---
 src/lib/builtins/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 0c6af44..d4d6b00 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -173,7 +173,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
+	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, ntohs(new_addr.sin_port));
 }
 
 
-- 
2.43.0


From fc8629f1d0cb8516bbbdce3ac6463270de9a2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 47/66] fix: refuse net arguments that don't fit instead of
 truncating them

---
 src/lib/builtins/net.c | 58 +++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index d4d6b00..0b77b18 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <unistd.h>
 #include <sys/socket.h>
@@ -7,6 +8,17 @@
 #include "utils.h"
 #include "../utils/defs.h"
 
+static bool toInt(Error *error, ParsedArgument *pargs, int index, int *dst)
+{
+	int64_t value = pargs[index].as_int;
+	if (value < INT_MIN || value > INT_MAX) {
+		Error_Report(error, ErrorType_RUNTIME, "Argument %d is out of range", index+1);
+		return false;
+	}
+	*dst = value;
+	return true;
+}
+
 static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
 	ASSERT(argc == 4);
@@ -14,9 +26,12 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
 		return -1;
 
-	int domain = pargs[0].as_int;
-	int   type = pargs[1].as_int;
-	int  proto = pargs[2].as_int;
+	int domain, type, proto;
+	if (!toInt(error, pargs, 0, &domain) || 
+		!toInt(error, pargs, 1, &type) || 
+		!toInt(error, pargs, 2, &proto))
+		return -1;
+
 	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
 
 	int fd = socket(domain, type, proto);
@@ -48,13 +63,18 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
 		return -1;
 
-	int     fd = pargs[0].as_int;
-	int family = pargs[1].as_int;
+	int fd, family, port;
+	if (!toInt(error, pargs, 0, &fd) || 
+		!toInt(error, pargs, 1, &family) || 
+		!toInt(error, pargs, 2, &port))
+		return -1;
 
 	if (family != AF_INET)
 		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
 
-	int   port = pargs[2].as_int;
+	if (port < 0 || port > 65535)
+		return returnValues2(error, runtime, rets, "ns", "Invalid port");
+
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
 
 	struct in_addr parsed_addr;
@@ -86,8 +106,10 @@ static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "ii"))
 		return -1;
 
-	int fd      = pargs[0].as_int;
-	int backlog = pargs[1].as_int;
+	int fd, backlog;
+	if (!toInt(error, pargs, 0, &fd) || 
+		!toInt(error, pargs, 1, &backlog))
+		return -1;
 
 	if (listen(fd, backlog) < 0)
 		return returnValues2(error, runtime, rets, "s", strerror(errno));
@@ -105,7 +127,10 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int fd;
+	if (!toInt(error, pargs, 0, &fd))
+		return -1;
+
 	void  *dstptr = pargs[1].as_buffer.data;
 	size_t dstlen = pargs[1].as_buffer.size;
 
@@ -135,7 +160,10 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int fd;
+	if (!toInt(error, pargs, 0, &fd))
+		return -1;
+
 	void  *srcptr = pargs[1].as_buffer.data;
 	size_t srclen = pargs[1].as_buffer.size;
 
@@ -163,7 +191,10 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd;
+	if (!toInt(error, pargs, 0, &fd))
+		return -1;
+
 	
 	struct sockaddr_in new_addr;
 	socklen_t new_addr_size = sizeof(new_addr);
@@ -186,7 +217,10 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd;
+	if (!toInt(error, pargs, 0, &fd))
+		return -1;
+
 	int res = close(fd);
 	return returnValues2(error, runtime, rets, "i", res);
 }
-- 
2.43.0


From b5c25a92d1eb5fd9009e02745065e5b5c29f1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:45 +0000
Subject: [PATCH 48/66] fix: report bad addresses and families from net.bind
 where other failures are

---
 src/lib/builtins/net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 0b77b18..d8bf7c9 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -70,10 +70,10 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 		return -1;
 
 	if (family != AF_INET)
-		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
+		return returnValues2(error, runtime, rets, "s", "Invalid family (only AF_INET is supported at the moment)");
 
 	if (port < 0 || port > 65535)
-		return returnValues2(error, runtime, rets, "ns", "Invalid port");
+		return returnValues2(error, runtime, rets, "s", "Invalid port");
 
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
 
@@ -82,8 +82,8 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 		parsed_addr.s_addr = INADDR_ANY;
 	else {
 		int res = inet_pton(family, addr, &parsed_addr);
-		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
-		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
+		if (res == 0) return returnValues2(error, runtime, rets, "s", "Invalid address");
+		if (res  < 0) return returnValues2(error, runtime, rets, "s", "Invalid family");
 	}
 
 	struct sockaddr_in buff;
-- 
2.43.0


From 709ddff5750f017a863046456b2a7f197f380e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:40 +0000
Subject: [PATCH 49/66] fix: don't lose decimals when stringifying floats

---
 src/lib/builtins/start.noja | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index 48f5055..40755c5 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -49,16 +49,15 @@ fun stringFromFloating(f: float, max_decimals: int = 2) {
 	asint = math.floor(f);
 	text = stringFromInteger(asint);
 	text = cat(text, ".");
-	magn = 1.0;
 	temp = f - asint;
 	i = 0;
 	do {
-		magn = magn / 10;
-		digit = math.floor(temp / magn);
-		if digit > 9:
-			digit = 9; # The division was rounded up
+		# Shift the next digit left of the point
+		temp = temp * 10;
+		epsilon = epsilon * 10;
+		digit = math.floor(temp);
 		text = cat(text, stringFromDigit(digit));
-		temp = temp - magn * digit; # Remove the handled digit
+		temp = temp - digit; # Remove the handled digit
 		i = i+1;
 	} while temp > epsilon and i < max_decimals;
 	return text;
-- 
2.43.0


From 0c158074ad67ec65d0539a8984423cbf709ae128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 50/66] fix: count the arguments of assert from 1 like other
 errors do

---
 src/lib/builtins/basic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index c729bcd..ce2947e 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -233,7 +233,7 @@ static int bin_assert(Runtime *runtime, Object **argv, unsigned int argc, Object
 	{
 		if(!Object_IsBool(argv[i]))
 		{
-			Error_Report(error, ErrorType_RUNTIME, "Argument %d isn't a boolean", i);
+			Error_Report(error, ErrorType_RUNTIME, "Argument %d isn't a boolean", i+1);
 			return -1;
 		}
 
-- 
2.43.0


From 4ca9ba8f43894be3a18b1f3976517962cb3506e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 51/66] fix: locate the syntax error of a break without ';' at
 the unexpected token

---
 src/lib/compiler/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 8f6d37f..e513f92 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -614,7 +614,7 @@ static Node *parse_statement(Context *ctx)
 
 			if(current(ctx) != ';')
 			{
-				*ctx->error_offset = token->offset;
+				*ctx->error_offset = ctx->token->offset;
 				Error_Report(ctx->error, ErrorType_SYNTAX, "Got token \"%.*s\" where \";\" was expected", ctx->token->length, ctx->src + ctx->token->offset);
 				return NULL;
 			}
-- 
2.43.0


From 06c0ab6bb69990dc2001880c0ab2e40d937f9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 52/66] fix: assemble the smallest integer

---
 src/lib/assembler/assemble.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index b3a73e3..2ba4733 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -1,5 +1,6 @@
 #include <ctype.h>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <assert.h>
 #include "../executable.h"
@@ -200,14 +201,19 @@ static bool parseIntegerOperand(Context *ctx, Error *error, Operand *op)
         ctx->cur++;
     }
 
-    long long int buffer = 0;
+    // The smallest integer has no positive counterpart.
+    unsigned long long int limit = LLONG_MAX;
+    if (sign < 0)
+        limit++;
+
+    unsigned long long int buffer = 0;
     do {
         // Transform each digit into its integer value.
         int d = ctx->str[ctx->cur] - '0';
         assert(d >= 0 && d <= 9);
 
         // Will this overflow?
-        if(buffer > (LLONG_MAX - d) / 10) {
+        if(buffer > (limit - d) / 10) {
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SEMANTIC, "Integer literal is too big to be represented in %d bits", 8*sizeof(buffer));
             return false;
@@ -220,7 +226,7 @@ static bool parseIntegerOperand(Context *ctx, Error *error, Operand *op)
     // Not a float!
     
     op->type = OPTP_INT;
-    op->as_int = sign * buffer;
+    op->as_int = sign < 0 ? (long long int) (0 - buffer) : (long long int) buffer;
     return true;
 }
 
-- 
2.43.0


From 91d40789ca38e7acdb041dd65bb38c4d15a9f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 53/66] fix: assemble floats to the nearest double

---
 src/lib/assembler/assemble.c | 37 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index 2ba4733..224ae6d 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -242,45 +242,28 @@ static bool parseFloatingOperand(Context *ctx, Error *error, Operand *op)
     // Also, the sequence may be preceded by a '+' or
     // '-'.
     
-    int sign = 1;
-    if (ctx->str[ctx->cur] == '+')
-        ctx->cur++;
-    else if (ctx->str[ctx->cur] == '-') {
-        sign = -1;
-        ctx->cur++;
-    }
+    // The source is null-terminated and whatever could be
+    // mistaken for a part of the number by strtod isn't valid
+    // after an operand. (Summing the decimals one by one would 
+    // also accumulate rounding errors.)
+    double value = strtod(ctx->str + ctx->cur, NULL);
 
-    double buffer = 0;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        // Should overflow be checked?
-        buffer = buffer * 10 + d;
+    if (ctx->str[ctx->cur] == '+' || ctx->str[ctx->cur] == '-')
+        ctx->cur++;
 
+    while(isdigit(ctx->str[ctx->cur]))
         ctx->cur += 1;
-    } while(ctx->str[ctx->cur] != '.');
 
     assert(ctx->cur+1 < ctx->len && ctx->str[ctx->cur] == '.' && isdigit(ctx->str[ctx->cur+1]));
 
     // Skip the dot.
     ctx->cur += 1;
 
-    double q = 1;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        q /= 10;
-        buffer += q * d;
-
+    while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]))
         ctx->cur += 1;
-    } while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
     
     op->type = OPTP_FLOAT;
-    op->as_float = sign * buffer;
+    op->as_float = value;
     return true;
 }
 
-- 
2.43.0


From e2b4561663eea6a52ab9e6bcf2b4cc5439e9506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:29 +0000
Subject: [PATCH 54/66] fix: report an error instead of aborting when the
 profiler runs out of memory

---
 src/lib/run.c    | 4 ++++
 src/lib/timing.c | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 7a36d16..b392805 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -194,6 +194,10 @@ Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *
 		size_t line = 0;
 		Source *src = Executable_GetSource(exe);
 		func->timing_id = TimingTable_newEntry(table, src, line, name);
+		if (func->timing_id < 0) {
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
 	}
 
 	return (Object*) func;
diff --git a/src/lib/timing.c b/src/lib/timing.c
index e870b11..15618c7 100644
--- a/src/lib/timing.c
+++ b/src/lib/timing.c
@@ -48,7 +48,8 @@ TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, cons
 		if (new_size == 0) new_size = 8;
 
 		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
-		if (temp == NULL) abort();
+		if (temp == NULL)
+			return -1;
 		
 		table->entries = temp;
 		table->size = new_size;
@@ -56,7 +57,7 @@ TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, cons
 	
 	char *name2 = strdup(name);
 	if (name2 == NULL)
-		abort();
+		return -1;
 	
 	TimingID id = (int) table->used++;
 	table->entries[id].src = Source_Copy(src);
-- 
2.43.0


From 67ce236b35580824e77bbdfb69726fb7ddc777be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:57 +0000
Subject: [PATCH 55/66] fix: report an error when parsing runs out of memory

---
 src/lib/compiler/parse.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index e513f92..26e41ca 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -453,8 +453,11 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	AST *ast = BPAlloc_Malloc(alloc, sizeof(AST));
 
 	if(ast == NULL)
-		#warning "should an error be reported here?"
+	{
+		*error_offset = -1;
+		Error_Report(error, ErrorType_INTERNAL, "No memory");
 		return NULL;
+	}
 
 	Token *tokens = tokenize(src, alloc, error, error_offset);
 
@@ -1662,7 +1665,11 @@ static Node *parse_prefix_expression(Context *ctx)
 			OperExprNode *temp = BPAlloc_Malloc(ctx->alloc, sizeof(OperExprNode));
 			{
 				if(temp == NULL)
+				{
+					*ctx->error_offset = ctx->token->offset;
+					Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 					return NULL;
+				}
 
 				temp->base.base.kind = NODE_EXPR;
 				temp->base.base.next = NULL;
@@ -1793,6 +1800,7 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 
 			if(temp == NULL)
 			{
+				*ctx->error_offset = ctx->token->offset;
 				Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 				return NULL;
 			}
-- 
2.43.0


From 167d7036e700c25d1a51a459a2f05a44c2501659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:09 +0000
Subject: [PATCH 56/66] fix: close a file that was opened but can't be returned

---
 src/lib/builtins/files.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 83af591..4fd735b 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -96,7 +96,11 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			return returnValues(error, heap, rets, "ns", errdesc);
 		}
 	}
-	return returnValues(error, heap, rets, "F", fp);
+
+	int retc = returnValues(error, heap, rets, "F", fp);
+	if(retc < 0)
+		fclose(fp);
+	return retc;
 }
 
 static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-- 
2.43.0


From ad005cc6d50a2bd06cfba402c13ededc9acc231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:09 +0000
Subject: [PATCH 57/66] fix: don't describe a refused argument with
 uninitialized memory

---
 src/lib/run.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index b392805..a5340f3 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -787,9 +787,17 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if (!Object_IsTypeOf(typ, arg, heap, error)) {
 				char provided[512];
 				char allowed[512];
+				// (Nothing is stored by the streams when nothing is printed)
+				provided[0] = '\0';
+				allowed[0] = '\0';
 				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
 				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
-				// TODO: Check for errors from [fmemopen]
+				if (provided_fp == NULL || allowed_fp == NULL) {
+					if (provided_fp != NULL) fclose(provided_fp);
+					if (allowed_fp != NULL) fclose(allowed_fp);
+					Error_Report(error, ErrorType_INTERNAL, "No memory");
+					return 0;
+				}
 				Object_Print(typ, allowed_fp);
 				Object_Print(arg, provided_fp);
 				fclose(allowed_fp);
-- 
2.43.0


From 81f40c82135e20a3fe5bbc05ab4b1e12ef320486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:09 +0000
Subject: [PATCH 58/66] fix: report when there's no memory for a selected value

---
 src/lib/run.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index a5340f3..cd18201 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -883,6 +883,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			Object *val = Object_Select(col, key, heap, &dummy);
 
 			if(val == NULL) {
+				if(dummy.occurred && dummy.type == ErrorType_INTERNAL) {
+					// The value is there, but there's no memory to return it.
+					Error_Report(error, ErrorType_INTERNAL, "%s", dummy.message);
+					Error_Free(&dummy);
+					return 0;
+				}
 				Error_Free(&dummy);
 
 				val = Object_NewNone(heap, error);
-- 
2.43.0


From 55eb190149285b6b2dded3c69d4aa611ca7be378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:47 +0000
Subject: [PATCH 59/66] fix: report results that couldn't be written

---
 src/cli/main.c    | 14 ++++++++++----
 src/lib/runtime.c |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index a34e15a..77aa9ed 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -184,10 +184,16 @@ int main(int argc, char **argv)
 					break;
 				}
 			}
-			fwrite(result, 1, strlen(result), stream);
-			if (stream != stdout)
-				fclose(stream);
+			size_t length = strlen(result);
+			bool written = (fwrite(result, 1, length, stream) == length);
+			if ((stream == stdout ? fflush(stream) : fclose(stream)) != 0)
+				written = false;
 			free(result);
+			if (!written) {
+				fprintf(stderr, "Error: Couldn't write to '%s'\n", output ? output : "stdout");
+				code = -1;
+				break;
+			}
 		}
 		code = 0;
 		break;
@@ -253,7 +259,7 @@ int main(int argc, char **argv)
 			if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
 			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
-				fprintf(stderr, "Error: Couldn't open '%s'\n", output);
+				fprintf(stderr, "Error: Couldn't write to '%s'\n", output);
 				code = -1;
 			}
 			Runtime_Free(runtime);
diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 54d89d9..a5dc330 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -843,6 +843,8 @@ bool Runtime_SerializeProfilingResultsToFile(Runtime *runtime, const char *file)
     if (stream == NULL)
         return false;
     Runtime_SerializeProfilingResultsToStream(runtime, stream);
-    fclose(stream);
-    return true;
+    bool ok = !ferror(stream);
+    if (fclose(stream) != 0)
+        ok = false;
+    return ok;
 }
\ No newline at end of file
-- 
2.43.0


From d757e17a281811a1c79d56481b609c7d6803cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 60/66] fix: refuse concatenations that don't fit a string

---
 src/lib/builtins/string.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 34f5f97..3c63e60 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -84,7 +85,7 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
 static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
-    unsigned int total_count = 0;
+    size_t total_count = 0;
 
     for(unsigned int i = 0; i < argc; i += 1)
     {
@@ -96,6 +97,13 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         
         size_t length;
         Object_GetString(argv[i], &length);
+
+        if(length >= INT_MAX - total_count)
+        {
+            Error_Report(error, ErrorType_RUNTIME, "String is too big");
+            return -1;
+        }
+
         total_count += length;
 
         // The Object_Count of a string doesn't match the
@@ -117,7 +125,8 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         }
     }
 
-    for(unsigned int i = 0, written = 0; i < argc; i += 1)
+    size_t written = 0;
+    for(unsigned int i = 0; i < argc; i += 1)
     {
         size_t length;
         const char *s = Object_GetString(argv[i], &length);
-- 
2.43.0


From bdd63f59e199bacd9fd268360dc46e198bbe918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 61/66] fix: refuse to make a string of a buffer that is too
 big for one

---
 src/lib/builtins/buffer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 51f42fe..6f7fd2d 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include "buffer.h"
 #include "utils.h"
 #include "../utils/defs.h"
@@ -78,6 +79,12 @@ static int bin_toString(Runtime *runtime, Object **argv, unsigned int argc, Obje
     buffaddr = Object_GetBuffer(argv[0], &buffsize);
     ASSERT(buffaddr != NULL);
 
+    if(buffsize >= INT_MAX)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Buffer is too big to be a string");
+        return -1;
+    }
+
     if(utf8_strlen(buffaddr, buffsize) < 0)
         return returnValues2(error, runtime, rets, "ns", "Buffer doesn't contain valid UTF-8");
     
-- 
2.43.0


From 2a6caa111f9593b040bd0b8e65c1d18be91e65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 62/66] fix: count the heap's usage beyond 2 GB

---
 src/lib/objects/heap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index f5d2e44..20827ba 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -101,7 +101,7 @@ struct xHeap {
 	int objcount;
 	int   size;
 	int   used;
-	int   total;
+	long long total;
 	void *body;
 	OflowAlloc *oflow;
 	PendingDestruct *pend;
@@ -112,7 +112,7 @@ struct xHeap {
 	int movedcount;
 	void *old_body;
 	int   old_used;
-	int   old_total;
+	long long old_total;
 	OflowAlloc *old_oflow;
 	Error *error;
 };
@@ -336,7 +336,7 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 		heap->used += size;
 	}
 
-	heap->total += size + padding;
+	heap->total += (long long) size + padding;
 
 	assert(((intptr_t) addr) % 8 == 0);
 
-- 
2.43.0


From 0122644add30018a4f84a70f549336f432cae6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 63/66] fix: refuse source files that are too big

---
 src/lib/utils/source.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index e3c3d95..b9a017d 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include <stdbool.h>
 #include <string.h>
 #include <stdlib.h>
@@ -124,15 +125,24 @@ Source *Source_FromFile(const char *file, Error *error)
 			return NULL;	
 		}
 
-		size = ftell(fp);
+		long end = ftell(fp);
 
-		if(size < 0)
+		if(end < 0)
 		{
 			Error_Report(error, ErrorType_INTERNAL, "Call to ftell failed (%s, errno = %d)", strerror(errno), errno);
 			fclose(fp);
 			return NULL;	
 		}
 
+		if(end >= INT_MAX)
+		{
+			Error_Report(error, ErrorType_UNSPECIFIED, "File \"%s\" is too big", file);
+			fclose(fp);
+			return NULL;
+		}
+
+		size = (int) end;
+
 		if(fseek(fp, 0, SEEK_SET))
 		{
 			Error_Report(error, ErrorType_INTERNAL, "Call to fseek failed (%s, errno = %d)", strerror(errno), errno);
-- 
2.43.0


From d6c49371034d139cbd3be59aaf2ea7e2bdc7fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 64/66] fix: compare the whole key when reading a namespace

---
 src/lib/o_staticmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/o_staticmap.c b/src/lib/o_staticmap.c
index 8f727f0..8d1ac38 100644
--- a/src/lib/o_staticmap.c
+++ b/src/lib/o_staticmap.c
@@ -117,14 +117,15 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 	if(!Object_IsString(key))
 		return NULL;
 
-	const char *name = Object_GetString(key, NULL);
+	size_t length;
+	const char *name = Object_GetString(key, &length);
 	assert(name != NULL);
 
 	if(map->slots == NULL)
 		return NULL;
 
 	for(int i = 0; map->slots[i].name != NULL; i += 1)
-		if(!strcmp(name, map->slots[i].name))
+		if(length == strlen(map->slots[i].name) && !memcmp(name, map->slots[i].name, length))
 		{
 			StaticMapSlot slot = map->slots[i];
 			Object *obj = NULL;
-- 
2.43.0


From 0eedd6e848812fc207c0b66d55025e1273651d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 65/66] fix: refuse paths that contain a zero byte

---
 src/lib/builtins/basic.c |  5 +++++
 src/lib/builtins/files.c | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index ce2947e..8b72554 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -133,6 +133,11 @@ static int bin_import(Runtime *runtime,
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
+	if (strlen(path) != pargs[0].as_string.size) {
+		Error_Report(error, ErrorType_RUNTIME, "Path contains a zero byte");
+		return -1;
+	}
+
 	return runFileRelativeToScript(runtime, path, rets, error);
 }
 
diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 4fd735b..66d76d4 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -29,6 +29,7 @@
 */
 
 #include <errno.h>
+#include <string.h>
 #include "files.h"
 #include "utils.h"
 #include "../utils/defs.h"
@@ -53,6 +54,9 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	const char *path = pargs[0].as_string.data;
 	int64_t     mode = pargs[1].as_int;
 
+	// The system would only see what comes before a zero byte.
+	bool valid = strlen(path) == pargs[0].as_string.size;
+
 	FILE *fp;
 	{
 		const char *mode2;
@@ -77,6 +81,9 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			return -1;
 		}
 
+		if(!valid)
+			return returnValues(error, heap, rets, "ns", "Path contains a zero byte");
+
 		fp = fopen(path, mode2);
 
 		if(fp == NULL) {
@@ -190,9 +197,13 @@ static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Objec
 
 	Heap *heap = Runtime_GetHeap(runtime);
 
-	const char *path = Object_GetString(argv[0], NULL);
+	size_t length;
+	const char *path = Object_GetString(argv[0], &length);
 	ASSERT(path != NULL);
 
+	if(strlen(path) != length)
+		return 0; // The path contains a zero byte.
+
 	DIR *dir = opendir(path);
 
 	if(dir == NULL)
-- 
2.43.0


From cb7bcdc5865f053e0ea9a936c12e88db164471e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:50 +0000
Subject: [PATCH 66/66] fix: refuse addresses that contain a zero byte

---
 src/lib/builtins/net.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index d8bf7c9..f69e32d 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -81,6 +81,9 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (addr == NULL)
 		parsed_addr.s_addr = INADDR_ANY;
 	else {
+		if (strlen(addr) != pargs[3].as_string.size)
+			return returnValues2(error, runtime, rets, "s", "Invalid address");
+
 		int res = inet_pton(family, addr, &parsed_addr);
 		if (res == 0) return returnValues2(error, runtime, rets, "s", "Invalid address");
 		if (res  < 0) return returnValues2(error, runtime, rets, "s", "Invalid family");
-- 
2.43.0

