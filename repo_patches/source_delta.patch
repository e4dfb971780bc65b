From 70eab4069089ca95d53f59e7587500216718b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 01/87] fix: integer division by zero and overflow crash the VM

---
 duckVM.c | 55 +++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..a50a2d2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -742,6 +742,22 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 }                
 
 
+/* Division by zero is an error. The smallest integer divided by -1 wraps around, like the other operators do. */
+static dl_error_t integer_divide(duckVM_t *duckVM, dl_ptrdiff_t *quotient, dl_ptrdiff_t dividend, dl_ptrdiff_t divisor) {
+	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+
+	if (divisor == 0) {
+		e = dl_error_invalidValue;
+		eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->div: Division by zero."));
+		if (eError) e = eError;
+		return e;
+	}
+	*quotient = (divisor == -1) ? (dl_ptrdiff_t) (0 - (dl_size_t) dividend) : dividend / divisor;
+
+	return e;
+}
+
 int duckVM_executeInstruction(duckVM_t *duckVM,
                               duckVM_object_t *bytecode,
                               unsigned char **ipPtr,
@@ -2058,10 +2074,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.integer, object2.value.integer);
+				if (e) goto cleanup;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.integer /= object2.value.boolean;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.integer, object2.value.boolean);
+				if (e) goto cleanup;
 				object1.type = duckVM_object_type_integer;
 				break;
 			default:
@@ -2076,11 +2094,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
-				object1.value.integer = object1.value.boolean / object2.value.integer;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.boolean, object2.value.integer);
+				if (e) goto cleanup;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean /= object2.value.boolean;
+				e = integer_divide(duckVM, &ptrdiff1, object1.value.boolean, object2.value.boolean);
+				if (e) goto cleanup;
+				object1.value.boolean = ptrdiff1;
 				break;
 			default:
 				e = dl_error_invalidValue;
@@ -2130,10 +2151,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.integer, object2.value.integer);
+				if (e) goto cleanup;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.integer /= object2.value.boolean;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.integer, object2.value.boolean);
+				if (e) goto cleanup;
 				object1.type = duckVM_object_type_integer;
 				break;
 			default:
@@ -2148,11 +2171,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
-				object1.value.integer = object1.value.boolean / object2.value.integer;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.boolean, object2.value.integer);
+				if (e) goto cleanup;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean /= object2.value.boolean;
+				e = integer_divide(duckVM, &ptrdiff1, object1.value.boolean, object2.value.boolean);
+				if (e) goto cleanup;
+				object1.value.boolean = ptrdiff1;
 				break;
 			default:
 				e = dl_error_invalidValue;
@@ -2199,10 +2225,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.integer, object2.value.integer);
+				if (e) goto cleanup;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.integer /= object2.value.boolean;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.integer, object2.value.boolean);
+				if (e) goto cleanup;
 				object1.type = duckVM_object_type_integer;
 				break;
 			default:
@@ -2217,11 +2245,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
-				object1.value.integer = object1.value.boolean / object2.value.integer;
+				e = integer_divide(duckVM, &object1.value.integer, object1.value.boolean, object2.value.integer);
+				if (e) goto cleanup;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean /= object2.value.boolean;
+				e = integer_divide(duckVM, &ptrdiff1, object1.value.boolean, object2.value.boolean);
+				if (e) goto cleanup;
+				object1.value.boolean = ptrdiff1;
 				break;
 			default:
 				e = dl_error_invalidValue;
-- 
2.43.0


From 40930d0e06c48e79a1dec87fbfa020da2da03e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 02/87] fix: apply drops list elements that exceed the arity

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index a50a2d2..71ce1a1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1543,8 +1543,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 		}
 		else {
-			if (object1.value.closure.arity != uint8) {
+			if ((object1.value.closure.arity != uint8) || (rest.value.list != dl_null)) {
 				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->apply: Incorrect number of arguments."));
+				if (eError) e = eError;
 				break;
 			}
 		}
-- 
2.43.0


From d3b3483f663384523b4721c0647a2c07fea722e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 03/87] fix: set-car and set-cdr on a vector ignore its current
 length

---
 duckVM.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 71ce1a1..00fce76 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3770,7 +3770,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
@@ -3827,11 +3829,15 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		else if ((object2.type == duckVM_object_type_vector)
 		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)
 		         && (((object1.type == duckVM_object_type_vector)
-		              && (object1.value.vector.internal_vector == dl_null))
+		              && ((object1.value.vector.internal_vector == dl_null)
+		                  || ((dl_size_t) object1.value.vector.offset
+		                      >= object1.value.vector.internal_vector->value.internal_vector.length)))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
 		}
 		else {
 			e = dl_error_invalidValue;
-- 
2.43.0


From f13d415bb6619b172a8c62e7f3affe1f4bb97e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 04/87] fix: vector element access on an empty vector or with a
 negative index

---
 duckVM.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 00fce76..0dab6e9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3395,6 +3395,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
+			    || (object1.value.vector.internal_vector == dl_null)
 			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
@@ -3506,8 +3507,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
-- 
2.43.0


From 8d035a902ff6798a1bc88ebc60d05a8707a88db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 05/87] fix: car and cdr of an empty vector or string leave its
 bounds uninitialised

---
 duckVM.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 0dab6e9..aa49571 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3572,6 +3572,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.vector.internal_vector == dl_null) {
 				object2.type = duckVM_object_type_vector;
 				object2.value.vector.internal_vector = dl_null;
+				object2.value.vector.offset = 0;
 			}
 			else {
 				if (object1.value.vector.internal_vector->type == duckVM_object_type_internalVector) {
@@ -3581,6 +3582,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    || ((dl_size_t) object1.value.vector.offset
 					        >= object1.value.vector.internal_vector->value.internal_vector.length - 1)) {
 						object2.value.vector.internal_vector = dl_null;
+						object2.value.vector.offset = 0;
 					}
 					/* cdr can't be anything other than a vector. */
 					else {
@@ -3598,6 +3600,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3606,6 +3610,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    /* -1 because we are going to try to get the cdr, which is the next element after. */
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length - 1)) {
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					/* cdr can't be anything other than a string. */
 					else {
@@ -3679,6 +3685,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.vector.internal_vector == dl_null) {
 				object2.type = duckVM_object_type_vector;
 				object2.value.vector.internal_vector = dl_null;
+				object2.value.vector.offset = 0;
 			}
 			else {
 				if (object1.value.vector.internal_vector->type == duckVM_object_type_internalVector) {
@@ -3687,6 +3694,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 						object2.type = duckVM_object_type_vector;
 						object2.value.vector.internal_vector = dl_null;
+						object2.value.vector.offset = 0;
 					}
 					else {
 						object2 = *(object1.value.vector.internal_vector
@@ -3703,6 +3711,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3710,6 +3720,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length)) {
 						object2.type = duckVM_object_type_string;
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					else {
 						object2.type = duckVM_object_type_integer;
-- 
2.43.0


From 95d256dac93739b27fbc840db883807cd9e91078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 06/87] fix: concatenate reads past the end of a substring and
 crashes on an empty one

---
 duckVM.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index aa49571..d694153 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4446,18 +4446,22 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				object1_string_length = object1.value.string.length - object1.value.string.offset;
+				if (object1_string_length > 0) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+				}
 			}
 			else {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				object2_string_length = object2.value.string.length - object2.value.string.offset;
+				if (object2_string_length > 0) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+				}
 			}
 			else {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
@@ -4468,15 +4472,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			object3.value.internalString.value_length = object1_string_length;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object3);
 			if (e) break;
-			objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
-			e = DL_REALLOC(duckVM->memoryAllocation,
-			               &objectPtr1->value.internalString.value,
-			               objectPtr1->value.internalString.value_length,
-			               dl_uint8_t);
-			if (e) break;
-			/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
-			                          object2_string,
-			                          object2_string_length);
+			if (object2_string_length > 0) {
+				objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
+				e = DL_REALLOC(duckVM->memoryAllocation,
+				               &objectPtr1->value.internalString.value,
+				               objectPtr1->value.internalString.value_length,
+				               dl_uint8_t);
+				if (e) break;
+				/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
+				                          object2_string,
+				                          object2_string_length);
+			}
 			object3.type = duckVM_object_type_string;
 			object3.value.string.offset = 0;
 			object3.value.string.length = objectPtr1->value.internalString.value_length;
-- 
2.43.0


From ceb1964b94709240fee27f8556dbdb09ed90ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 07/87] fix: a failed reallocation loses the original block

---
 DuckLib/memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..16ecdf4 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -944,10 +944,11 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	(void) memoryAllocation;
-	*(dl_uint8_t **) memory = realloc(*(dl_uint8_t **) memory, size);
-	if (*(dl_uint8_t **) memory == NULL) {
+	void *newMemory = realloc(*(dl_uint8_t **) memory, size);
+	if (newMemory == NULL) {
 		return dl_error_outOfMemory;
 	}
+	*(dl_uint8_t **) memory = newMemory;
 	return dl_error_ok;
 }
 
-- 
2.43.0


From 9c3a378d02efb5111a0b45a4e59f55baf72e5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 08/87] fix: garbage collection frees live objects when marking
 runs out of memory

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index d694153..d380e74 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -107,6 +107,7 @@ static dl_error_t duckVM_gclist_quit(duckVM_gclist_t *gclist) {
 
 static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_object_t *object, dl_bool_t stack) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	/* Array of pointers that need to be traced. */
 	dl_array_t dispatchStack;
@@ -206,7 +207,8 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	}
 
  cleanup:
-	e = dl_array_quit(&dispatchStack);
+	eError = dl_array_quit(&dispatchStack);
+	if (eError) e = eError;
 	return e;
 }
 
-- 
2.43.0


From bcbd4b5364ba4cba15f4d9bafd342291f1a80b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 09/87] fix: garbage collection during the construction of a
 vector frees its elements

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index d380e74..d7f5a26 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -377,6 +377,13 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 				                            objectIn.value.internal_vector.values,
 				                            objectIn.value.internal_vector.length * sizeof(duckVM_object_t *));
 			}
+			else {
+				/* The collector has to be able to trace and free a vector that is still being filled. */
+				DL_DOTIMES(k, objectIn.value.internal_vector.length) {
+					heapObject->value.internal_vector.values[k] = dl_null;
+				}
+				heapObject->value.internal_vector.initialized = dl_true;
+			}
 		}
 		else {
 			heapObject->value.internal_vector.values = dl_null;
-- 
2.43.0


From 19a1341949027dd1629173fbda7b0bd391fcd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 10/87] fix: a failed allocation leaves the heap object owning
 the caller's buffer

---
 duckVM.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index d7f5a26..d921004 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -348,6 +348,8 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 			              objectIn.value.upvalue_array.length,
 			              duckVM_object_t **);
 			if (e) {
+				heapObject->value.upvalue_array.upvalues = dl_null;
+				heapObject->value.upvalue_array.length = 0;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_gclist_pushObject: Upvalue array allocation failed."));
 				if (!e) e = eError;
@@ -367,6 +369,8 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 			              objectIn.value.internal_vector.length,
 			              duckVM_object_t **);
 			if (e) {
+				heapObject->value.internal_vector.values = dl_null;
+				heapObject->value.internal_vector.length = 0;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_gclist_pushObject: Vector allocation failed."));
 				if (!e) e = eError;
@@ -397,6 +401,8 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 			              objectIn.value.bytecode.bytecode_length,
 			              dl_uint8_t);
 			if (e) {
+				heapObject->value.bytecode.bytecode = dl_null;
+				heapObject->value.bytecode.bytecode_length = 0;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_gclist_pushObject: Bytecode allocation failed."));
 				if (!e) e = eError;
@@ -419,6 +425,8 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 			              objectIn.value.internalString.value_length,
 			              dl_uint8_t);
 			if (e) {
+				heapObject->value.internalString.value = dl_null;
+				heapObject->value.internalString.value_length = 0;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_gclist_pushObject: String allocation failed."));
 				if (!e) e = eError;
-- 
2.43.0


From bb0c313a992fd66f03850271cc1731c45f60b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 11/87] fix: make-string loses errors and crashes on
 non-integer elements and empty sequences

---
 duckVM.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index d921004..71c6d29 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4301,10 +4301,15 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
-				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
-				if (e) break;
+				dl_size_t vector_length = 0;
+				if (object1.value.vector.internal_vector != dl_null) {
+					vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
+				}
+				if ((dl_size_t) object1.value.vector.offset < vector_length) {
+					string_length = vector_length - object1.value.vector.offset;
+					e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
+					if (e) break;
+				}
 				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
 					duckVM_object_t *element = object1.value.vector.internal_vector->value.internal_vector.values[i];
 					if (element->type != duckVM_object_type_integer) {
@@ -4319,6 +4324,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					/* Truncate to 8 bits. */
 					string[i - object1.value.vector.offset] = element->value.integer;
 				}
+				if (e) break;
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
@@ -4330,7 +4336,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
@@ -4359,6 +4365,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						break;
 					}
 				}
+				if (e) break;
 				string = string_array.elements;
 				string_length = string_array.elements_length;
 			}
@@ -4367,20 +4374,16 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->make-string: Only vector arguments are supported."));
 				if (eError) e = eError;
-				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
 				break;
 			}
 			object1.type = duckVM_object_type_internalString;
 			object1.value.internalString.value = string;
 			object1.value.internalString.value_length = string_length;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
-			if (e) {
+			if (string != dl_null) {
 				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
-				break;
+				if (!e) e = eError;
 			}
-			e = DL_FREE(duckVM->memoryAllocation, &string);
 			if (e) break;
 			object1.type = duckVM_object_type_string;
 			object1.value.string.internalString = objectPtr1;
-- 
2.43.0


From f0b23246cc891822934caeb9a7136846a10cfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 12/87] fix: length of a vector tail is negative after the
 vector is truncated

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 71c6d29..9610492 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4213,7 +4213,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
+				object2.value.integer = ((object1.value.vector.internal_vector
+				                          && ((dl_size_t) object1.value.vector.offset
+				                              < object1.value.vector.internal_vector->value.internal_vector.length))
 				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
 				                            - object1.value.vector.offset)
 				                         : 0);
-- 
2.43.0


From fd495f9d74e6dc94de67a0c3332f5d9e3011764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 13/87] fix: duckVM_setGlobal dereferences a null pointer

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 9610492..824196b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4842,10 +4842,13 @@ dl_error_t duckVM_pushGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
 
 /* Set the specified global variable to the value of the object on top of the stack. */
 dl_error_t duckVM_setGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
-	duckVM_object_t *object = dl_null;
-	dl_error_t e = stack_getTop(duckVM, object);
+	duckVM_object_t object;
+	duckVM_object_t *objectPointer = dl_null;
+	dl_error_t e = stack_getTop(duckVM, &object);
+	if (e) return e;
+	e = duckVM_gclist_pushObject(duckVM, &objectPointer, object);
 	if (e) return e;
-	return duckVM_global_set(duckVM, object, key);
+	return duckVM_global_set(duckVM, objectPointer, key);
 }
 
 
-- 
2.43.0


From 0877882f4122829aab9f26a17fa9b492b91d31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 14/87] fix: jump link array leaks when jump optimization is
 disabled

---
 assembler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assembler.c b/assembler.c
index 4132d82..8cd545a 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2808,6 +2808,9 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				DL_ARRAY_GETADDRESS(bytecodeList, byteLink_t, source + j).byte = byte;
 			}
 		}
+
+		e = dl_free(duckLisp->memoryAllocation, (void *) &linkArray.links);
+		if (e) goto cleanup;
 	}
 #endif
 
-- 
2.43.0


From 2eb6b9cfca46b939614d09d5cfd4450a55f294aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 15/87] fix: the reader reads past the end of the source

---
 DuckLib/string.c |  9 +++++++--
 duckLisp.c       |  6 ------
 parser.c         | 10 +++++-----
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index de6bcea..8d3e352 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -256,6 +256,11 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 
 	*result = 0.0;
 
+	if ((dl_size_t) index >= string_length) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	if (string[index] == '-') {
 		index++;
 
@@ -324,7 +329,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 		}
 
-		if (string[index] == '.') {
+		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
 
 			if ((dl_size_t) index >= string_length) {
@@ -351,7 +356,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	}
 
 	// …e3
-	if (dl_string_toLower(string[index]) == 'e') {
+	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
 		index++;
 
 		if ((dl_size_t) index >= string_length) {
diff --git a/duckLisp.c b/duckLisp.c
index b4e164e..3190ede 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2150,15 +2150,9 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
-	dl_bool_t result = dl_false;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
-	// Trim whitespace from the beginning of the file.
-	do {
-		if (dl_string_isSpace(*source)) source++;
-	} while (result);
-
 	index = 0;
 
 	/* Parse. */
diff --git a/parser.c b/parser.c
index 594c512..1a93fd0 100644
--- a/parser.c
+++ b/parser.c
@@ -155,7 +155,7 @@ static dl_error_t parse_comment(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t stop_index = start_index;
 
-	if (source[stop_index] != ';') {
+	if ((stop_index >= (dl_ptrdiff_t) source_length) || (source[stop_index] != ';')) {
 		return dl_error_invalidValue;
 	}
 
@@ -182,7 +182,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
 			return dl_error_invalidValue;
 		}
-		while (dl_string_isSpace(source[indexCopy])) indexCopy++;
+		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
 		dl_error_t e = parse_comment(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 		if (e) break;
 	}
@@ -850,7 +850,7 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 			indexCopy++;
 			hexadecimal = dl_true;
 
-			if (!dl_string_isHexadecimalDigit(source[indexCopy])) {
+			if ((indexCopy >= (dl_ptrdiff_t) source_length) || !dl_string_isHexadecimalDigit(source[indexCopy])) {
 				eError = duckLisp_error_pushSyntax(duckLisp,
 				                                   DL_STR("Expected a digit in integer."),
 				                                   fileName,
@@ -1043,7 +1043,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (source[indexCopy] == '.') {
+		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
 
@@ -1064,7 +1064,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 	}
 
 	/* …e3 */
-	if (dl_string_toLower(source[indexCopy]) == 'e') {
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (dl_string_toLower(source[indexCopy]) == 'e')) {
 		hasDecimalPointOrExponent = dl_true;
 		indexCopy++;
 
-- 
2.43.0


From dfd5d4728b277db106804a633b16f46ae4e60edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 16/87] fix: a float that ends with its decimal point loses its
 sign or is not read

---
 DuckLib/string.c | 8 +-------
 parser.c         | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 8d3e352..af2dfca 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -331,13 +331,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 
 		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
-
-			if ((dl_size_t) index >= string_length) {
-				// eError = duckLisp_error_push(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				// This is expected. 1. 234.e61  435. for example.
-				goto cleanup;
-			}
+			// The string may end here. 1. 234.e61  435. for example.
 
 			power = 1;
 		}
diff --git a/parser.c b/parser.c
index 1a93fd0..e34d9c0 100644
--- a/parser.c
+++ b/parser.c
@@ -1046,13 +1046,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
-
-			if (indexCopy >= (dl_ptrdiff_t) source_length) {
-				// eError = duckLisp_error_pushSyntax(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				/* This is expected. 1. 234.e61 435. for example. */
-				goto cleanup;
-			}
+			/* The source may end here. 1. 234.e61 435. for example. */
 		}
 
 		while ((indexCopy < (dl_ptrdiff_t) source_length)
-- 
2.43.0


From d935b84649eea63e55a2bf39d154aa9b7c0e2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 17/87] fix: identifiers that start with true or false are
 split, and a final true or false is not a boolean

---
 parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index e34d9c0..979e496 100644
--- a/parser.c
+++ b/parser.c
@@ -687,7 +687,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 	const dl_size_t sizeOfTrue = sizeof("true") - 1;
 	const dl_size_t sizeOfFalse = sizeof("false") - 1;
 
-	if (source_length <= indexCopy + sizeOfTrue) {
+	if (source_length < indexCopy + sizeOfTrue) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Encountered EOF"),
 		                                   fileName,
@@ -705,7 +705,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		stop_index += sizeOfTrue;
 	}
 	else {
-		if (source_length <= indexCopy + sizeOfFalse) {
+		if (source_length < indexCopy + sizeOfFalse) {
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("Encountered EOF"),
 			                                   fileName,
@@ -737,6 +737,12 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		}
 	}
 
+	/* The start of an identifier. */
+	if ((stop_index < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[stop_index])) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_bool_t boolean;
 	e = dl_string_toBool(&boolean.value, &source[start_index], stop_index - start_index);
 	if (e) {
-- 
2.43.0


From 5c2d1fefa1c68ac2026930f2d992ad7a7d2bfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 18/87] fix: a string at the very end of the source is rejected

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 979e496..62de625 100644
--- a/parser.c
+++ b/parser.c
@@ -1190,6 +1190,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t indexCopy = start_index;
 	dl_ptrdiff_t stop_index = start_index;
+	dl_bool_t closed = dl_false;
 
 	if (indexCopy >= (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
@@ -1229,13 +1230,14 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 			}
 			else if (source[indexCopy] == '"') {
 				indexCopy++;
+				closed = dl_true;
 				break;
 			}
 
 			indexCopy++;
 		}
 
-		if (indexCopy >= (dl_ptrdiff_t) source_length) {
+		if (!closed) {
 			e = dl_error_invalidValue;
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("String missing closing quote."),
-- 
2.43.0


From 78ab043c64d65912ea8b4663329643f41ba2faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 19/87] fix: floats with many digits or a large or negative
 zero exponent are misread

---
 DuckLib/string.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index af2dfca..244cc6c 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -251,6 +251,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	dl_ptrdiff_t index = 0;
 	dl_bool_t tempBool;
 	dl_bool_t negative = dl_false;
+	double scale = 1.0;
 	dl_ptrdiff_t power = 0;
 	dl_bool_t power_negative = dl_false;
 
@@ -281,19 +282,19 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		power = 10;
+		scale = 10.0;
 
 		if (!dl_string_isDigit(string[index])) {
 			e = dl_error_invalidValue;
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / (double) power;
+		*result += (double) (string[index] - '0') / scale;
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			scale = 10.0 * scale;
 
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
@@ -301,7 +302,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / scale;
 			index++;
 		}
 	}
@@ -333,17 +334,17 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 			// The string may end here. 1. 234.e61  435. for example.
 
-			power = 1;
+			scale = 1.0;
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			scale = 10.0 * scale;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / scale;
 
 			index++;
 		}
@@ -384,17 +385,13 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			power = power * 10 + string[index] - '0';
+			/* No double is this large or small. */
+			if (power < 100000) power = power * 10 + string[index] - '0';
 
 			index++;
 		}
 
 		if (power_negative) {
-			if (power == 0) {
-				e = dl_error_invalidValue;
-				goto cleanup;
-			}
-
 			for (dl_ptrdiff_t i = 0; i < power; i++) {
 				*result /= 10.0;
 			}
-- 
2.43.0


From 5f6b7ea9fb88dbb10812002081eb58ca33ba9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 20/87] fix: a malformed or final literal expression is read as
 an empty identifier

---
 parser.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 62de625..707a104 100644
--- a/parser.c
+++ b/parser.c
@@ -233,7 +233,7 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	expression.compoundExpressions_length = 0;
 
 	/* Basic syntax checks. Need space for two parentheses and the first character must be a parenthesis. */
-	if (indexCopy + 3 >= (dl_ptrdiff_t) source_length) {
+	if (indexCopy + 2 >= (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Not an expression: file too short."),
 		                                   fileName,
@@ -537,6 +537,12 @@ static dl_error_t parse_identifier(duckLisp_t *duckLisp,
 	}
 
 	tempBool = isIdentifierSymbol(source[indexCopy]);
+	/* "#(" starts a literal expression. */
+	if ((source[indexCopy] == '#')
+	    && (indexCopy + 1 < (dl_ptrdiff_t) source_length)
+	    && (source[indexCopy + 1] == '(')) {
+		tempBool = dl_false;
+	}
 	if (!tempBool) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Expected an alpha or allowed symbol in identifier."),
@@ -635,6 +641,20 @@ static dl_error_t parse_callback(duckLisp_t *duckLisp,
 	}
 	stop_index = indexCopy;
 
+	if (stop_index == start_index) {
+		eError = duckLisp_error_pushSyntax(duckLisp,
+		                                   DL_STR("Expected an identifier after '#'."),
+		                                   fileName,
+		                                   fileName_length,
+		                                   source,
+		                                   source_length,
+		                                   start_index,
+		                                   indexCopy,
+		                                   throwErrors);
+		e = eError ? eError : dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_identifier_t identifier;
 	identifier.value_length = 0;
 	dl_size_t length = stop_index - start_index;
-- 
2.43.0


From 051bbfcbef1a6484ec97715835b9739902a5df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 21/87] fix: reporting an unmatched parenthesis reads past the
 end of the source

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 707a104..111a684 100644
--- a/parser.c
+++ b/parser.c
@@ -54,7 +54,7 @@ static dl_error_t duckLisp_error_pushSyntax(duckLisp_t *duckLisp,
 	}
 
 	/* This is inefficient. That should be OK as this is only run a few times max per compile. */
-	DL_DOTIMES(i, start_index) {
+	for (dl_ptrdiff_t i = 0; i < start_index; i++) {
 		if (source[i] == '\n') {
 			line++;
 			start_column = 0;
-- 
2.43.0


From 08b2b6ec7acbee86b1267bbf0e67d3610a7db7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 22/87] fix: macros of a second compilation call those of the
 first

---
 duckLisp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 3190ede..ecc8ad0 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2118,6 +2118,8 @@ dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompi
 void duckLisp_compileState_init(duckLisp_t *duckLisp, duckLisp_compileState_t *compileState) {
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->runtimeCompileState);
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->comptimeCompileState);
+	/* Objects of previous compilations may still be on the stack. */
+	compileState->comptimeCompileState.locals_length = duckLisp->vm.stack.elements_length;
 	compileState->currentCompileState = &compileState->runtimeCompileState;
 }
 
-- 
2.43.0


From b7d051b5cfb058b869b547d84af1580a11403d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 23/87] fix: an empty expression that contains white space or a
 comment is rejected

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 111a684..d642045 100644
--- a/parser.c
+++ b/parser.c
@@ -294,6 +294,7 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
@@ -419,6 +420,7 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
-- 
2.43.0


From 42b72c1f7c2e370511a74887ed50d4ac6e99bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 24/87] fix: identifiers that start with a float are split

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index d642045..49ee0c6 100644
--- a/parser.c
+++ b/parser.c
@@ -1149,6 +1149,12 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* An identifier that starts like a float. */
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[indexCopy])) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	stop_index = indexCopy;
 
 	e = dl_string_toDouble(&floatingPoint.value, &source[start_index], stop_index - start_index);
-- 
2.43.0


From ce22352f878bcded70075a86c1b8d658e9d881ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 25/87] fix: assignments to a global are dropped when its key
 equals the stack depth

---
 emitters.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/emitters.c b/emitters.c
index 5e48a69..57fcbbb 100644
--- a/emitters.c
+++ b/emitters.c
@@ -768,8 +768,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 
-	if (destination_static_index == source_stack_index) goto cleanup;
-
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - source_stack_index;
 	argument1.type = duckLisp_instructionArgClass_type_index;
@@ -781,7 +779,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	                                 argument0,
 	                                 argument1);
 	duckLisp_localsLength_decrement(compileState);
- cleanup:
 	return e;
 }
 
-- 
2.43.0


From 32302b088bac13369b31484999c43193786156d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 26/87] fix: the outermost scope of a compilation is never
 freed

---
 duckLisp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/duckLisp.c b/duckLisp.c
index ecc8ad0..2bd50fa 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2108,7 +2108,13 @@ void duckLisp_subCompileState_init(dl_memoryAllocation_t *memoryAllocation,
 dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompileState_t *subCompileState) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
-	e = dl_array_quit(&subCompileState->scope_stack);
+	/* The outermost scope, and those that an error left open. */
+	DL_DOTIMES(i, subCompileState->scope_stack.elements_length) {
+		eError = scope_quit(duckLisp, &DL_ARRAY_GETADDRESS(subCompileState->scope_stack, duckLisp_scope_t, i));
+		if (eError) e = eError;
+	}
+	eError = dl_array_quit(&subCompileState->scope_stack);
+	if (eError) e = eError;
 	eError = duckLisp_assembly_quit(duckLisp, &subCompileState->assembly);
 	if (eError) e = eError;
 	return e;
-- 
2.43.0


From 84a3e834f06f4db2048a7c352f90d10c1b0bdc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 27/87] fix: a failing comptime form reads a result that does
 not exist

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 58a4722..7c050aa 100644
--- a/generators.c
+++ b/generators.c
@@ -1262,7 +1262,6 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		eError = dl_array_pushElements(&duckLisp->errors,
 		                               duckLisp->vm.errors.elements,
 		                               duckLisp->vm.errors.elements_length);
@@ -1270,6 +1269,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 		if (eError) e = eError;
 		if (e) goto cleanup;
+		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
-- 
2.43.0


From 7880da7ea003f16d394335d8624dca3df21b2c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 28/87] fix: the VM forgets the bytecode of a called function
 after one instruction

---
 duckVM.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 824196b..9e023f0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4714,6 +4714,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	}
  cleanup:
 	*ipPtr = ip;
+	/* Calls and returns switch to other bytecode. */
+	duckVM->currentBytecode = bytecode;
 	return e;
 }
 
@@ -4724,8 +4726,9 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	duckVM_halt_mode_t halt = duckVM_halt_mode_run;
-	/* Why a reference to bytecode? So it can be switched out with other bytecodes by `duckVM_executeInstruction`. */
 	duckVM_object_t *bytecodeObject;
+	/* Not null if this function was called by a callback. */
+	duckVM_object_t *callerBytecode = duckVM->currentBytecode;
 	dl_uint8_t *ip = dl_null;
 	if ((ipOffset < 0) || (bytecode_length <= (dl_size_t) ipOffset)) {
 		dl_error_t eError = dl_error_ok;
@@ -4746,9 +4749,10 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		/* `duckVM_executeInstruction` switches `currentBytecode` when it calls or returns. */
+		e = duckVM_executeInstruction(duckVM, duckVM->currentBytecode, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = callerBytecode;
 
  cleanup: return e;
 }
-- 
2.43.0


From 8018977ed5e91b8b004065200138ca161ee1e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 29/87] fix: duckVM_call lets the garbage collector write to
 bytecode that is not on the heap

---
 duckVM.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 9e023f0..77900ee 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5675,17 +5675,15 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 
 		{
 			/* Call bytecode. */
-			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
-			dl_uint8_t *shim_ip = shim_bytecode;
+			static dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
 			duckVM_bytecode_t bytecode = bytecode_object->value.bytecode;
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
+			/* The collector marks the bytecode in call frames, so it has to be on the heap (or null). */
 			e = call_stack_push(duckVM,
-			                    shim_ip,
-			                    shim_bytecode_object,
+			                    shim_bytecode,
+			                    duckVM->currentBytecode,
 			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
-- 
2.43.0


From d315e9d5584dfbbd6bbf879b89d7718598097bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 30/87] fix: a runtime error while an object is pushed
 desynchronizes the stacks

---
 duckVM.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 77900ee..6eb25b1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -511,6 +511,10 @@ static dl_error_t stack_push(duckVM_t *duckVM, duckVM_object_t *object) {
 	e = dl_array_pushElement(&duckVM->stack, object);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
+	if (e) {
+		(void) dl_array_popElement(&duckVM->stack, dl_null);
+		goto cleanup;
+	}
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("stack_push: Failed."));
@@ -575,7 +579,10 @@ static dl_error_t call_stack_push(duckVM_t *duckVM,
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
-	if (e) goto cleanup;
+	if (e) {
+		(void) dl_array_popElement(&duckVM->call_stack, dl_null);
+		goto cleanup;
+	}
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("call_stack_push: Failed."));
@@ -4713,6 +4720,15 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		goto cleanup;
 	}
  cleanup:
+	if (e) {
+		/* An instruction may have been interrupted between pushing on the stack and the upvalue stack. */
+		while (duckVM->stack.elements_length > duckVM->upvalue_stack.elements_length) {
+			if (dl_array_popElement(&duckVM->stack, dl_null)) break;
+		}
+		while (duckVM->upvalue_stack.elements_length > duckVM->stack.elements_length) {
+			if (dl_array_popElement(&duckVM->upvalue_stack, dl_null)) break;
+		}
+	}
 	*ipPtr = ip;
 	/* Calls and returns switch to other bytecode. */
 	duckVM->currentBytecode = bytecode;
-- 
2.43.0


From 032fec4653a2ca879dfe282eef61f7ff56c78013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 31/87] fix: funcall without a function reads past its
 expression

---
 generators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators.c b/generators.c
index 7c050aa..ce839c6 100644
--- a/generators.c
+++ b/generators.c
@@ -3334,6 +3334,9 @@ dl_error_t duckLisp_generator_funcall2(duckLisp_t *duckLisp,
 	dl_ptrdiff_t innerStartStack_length;
 	dl_ptrdiff_t outerStartStack_length;
 
+	e = duckLisp_checkArgsAndReportError(duckLisp, *expression, 2, dl_true);
+	if (e) goto cleanup;
+
 	e = duckLisp_compile_compoundExpression(duckLisp,
 	                                        compileState,
 	                                        assembly,
-- 
2.43.0


From 05a6b66b267bba772e8ddcf8ba53da480d0c47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 32/87] fix: a compile-time form without a value reads from an
 empty stack

---
 generators.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generators.c b/generators.c
index ce839c6..61eada2 100644
--- a/generators.c
+++ b/generators.c
@@ -1269,7 +1269,9 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 		if (eError) e = eError;
 		if (e) goto cleanup;
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
+		/* The form might not have left anything on the stack. */
+		e = dl_array_getTop(&duckLisp->vm.stack, &returnValue);
+		if (e) goto cleanup;
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
@@ -3685,7 +3687,9 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 	if (eError) e = eError;
 	if (e) goto cleanupArrays;
-	return_value = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
+	/* The body might not have left anything on the stack. */
+	e = dl_array_getTop(&duckLisp->vm.stack, &return_value);
+	if (e) goto cleanupArrays;
 
 	/* Compile macro expansion. */
 
-- 
2.43.0


From 5a37dc235adf3d50549f869bd5ad286339073d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 33/87] fix: the compile-time VM is not reset after a failed
 compilation

---
 duckLisp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 2bd50fa..61c388b 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2208,6 +2208,9 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
  cleanup:
 	if (e) {
 		*bytecode_length = 0;
+		/* Compile-time code may have been interrupted. */
+		eError = duckVM_softReset(&duckLisp->vm);
+		if (eError) e = eError;
 	}
 
 	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
-- 
2.43.0


From ef6952beb601ec859796894fd1f914d15fa94839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 34/87] fix: assigning a value that is not on the stack to a
 global reads out of bounds

---
 duckVM.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 6eb25b1..4edde1d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1400,11 +1400,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++);
 			ptrdiff2 = *(ip++);
 		}
-		e = duckVM_gclist_pushObject(duckVM,
-		                             &objectPtr1,
-		                             DL_ARRAY_GETADDRESS(duckVM->stack,
-		                                                 duckVM_object_t,
-		                                                 duckVM->stack.elements_length - ptrdiff1));
+		e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
+		if (e) break;
+		e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 		if (e) break;
 		e = duckVM_global_set(duckVM, objectPtr1, ptrdiff2);
 		if (e) break;
-- 
2.43.0


From b133d553c67115488cff2d6d991c97f6746931ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 35/87] fix: converting a dotted list to an expression writes
 past its end

---
 generators.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generators.c b/generators.c
index 61eada2..8af1965 100644
--- a/generators.c
+++ b/generators.c
@@ -1063,7 +1063,9 @@ dl_size_t duckLisp_consList_length(duckVM_object_t *cons) {
 			length++;
 		}
 		else {
+			/* Dotted pair. */
 			cons = dl_null;
+			length++;
 		}
 	}
 	return length;
-- 
2.43.0


From 235dc02376825af830f274a5453de68e6be7db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 36/87] fix: calls with more than 255 arguments lose some of
 them

---
 emitters.c | 18 ++++++++++++++++--
 emitters.h |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/emitters.c b/emitters.c
index 57fcbbb..77fb12a 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1045,6 +1045,12 @@ dl_error_t duckLisp_emit_pushClosure(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
 	// Arity
+	if (arity > 0xFF) {
+		e = dl_error_invalidValue;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Functions take at most 255 arguments."));
+		if (eError) e = eError;
+		goto cleanup;
+	}
 	argument.type = duckLisp_instructionArgClass_type_integer;
 	argument.value.integer = arity;
 	e = dl_array_pushElement(&instruction.args, &argument);
@@ -1194,7 +1200,11 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity) {
+                                 dl_size_t arity) {
+	if (arity > 0xFF) {
+		dl_error_t eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Functions take at most 255 arguments."));
+		return eError ? eError : dl_error_invalidValue;
+	}
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
@@ -1215,7 +1225,11 @@ dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity) {
+                               dl_size_t arity) {
+	if (arity > 0xFF) {
+		dl_error_t eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Functions take at most 255 arguments."));
+		return eError ? eError : dl_error_invalidValue;
+	}
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
diff --git a/emitters.h b/emitters.h
index f5d009a..1350968 100644
--- a/emitters.h
+++ b/emitters.h
@@ -358,13 +358,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity);
+                                 dl_size_t arity);
 
 dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity);
+                               dl_size_t arity);
 
 dl_error_t duckLisp_emit_acall(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
-- 
2.43.0


From 9e4c088cddb74c21280ccc3f82e719aadd8ac1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 37/87] fix: not of an empty vector tail is false

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 4edde1d..1b53666 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1815,7 +1815,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		switch (object1.type) {
 		case duckVM_object_type_vector:
 			object1.type = duckVM_object_type_bool;
-			object1.value.boolean = object1.value.vector.internal_vector == dl_null;
+			object1.value.boolean = !((object1.value.vector.internal_vector != dl_null)
+			                          && ((dl_size_t) object1.value.vector.offset
+			                              < object1.value.vector.internal_vector->value.internal_vector.length));
 			break;
 		case duckVM_object_type_list:
 			object1.type = duckVM_object_type_bool;
-- 
2.43.0


From fadc3ad33ff256126b4c1c96fbc939d8b6871e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 38/87] fix: assigning a captured variable beyond the 256th or
 at a stack distance beyond 255

---
 assembler.c | 25 ++++++++++++-------------
 duckVM.c    |  4 ++++
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/assembler.c b/assembler.c
index 8cd545a..899df46 100644
--- a/assembler.c
+++ b/assembler.c
@@ -777,21 +777,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_setUpvalue: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t offset = 0;
-				byte_length = 1;
-				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
-				if (e) goto cleanup;
-				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
-					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
-					                                                    >> 8*(byte_length - n - 1))
-					                                                   & 0xFFU);
-				}
-				offset += byte_length;
 				/* I'm not checking if it's negative since I'm lazy and that should never happen. */
-				if (args[0].value.index < 0x100LL) {
+				if ((args[0].value.index < 0x100LL) && (args[1].value.index < 0x100LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue8;
 					byte_length = 1;
 				}
-				else if (args[0].value.index < 0x10000LL) {
+				else if ((args[0].value.index < 0x10000LL) && (args[1].value.index < 0x10000LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue16;
 					byte_length = 2;
 				}
@@ -801,6 +792,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
+				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
+					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
+					                                                    >> 8*(byte_length - n - 1))
+					                                                   & 0xFFU);
+				}
+				offset += byte_length;
+				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
+				if (e) goto cleanup;
 				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
 					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, offset + n) = ((args[1].value.integer
 					                                                             >> 8*(byte_length - n - 1))
@@ -2897,8 +2896,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
 		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
-		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 1 2")},
-		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 1 4")},
+		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
+		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
 		{duckLisp_instruction_setGlobal8, DL_STR("set-global.8 1 1")},
 		{duckLisp_instruction_setGlobal16, DL_STR("set-global.16 2 2")},
 		{duckLisp_instruction_setGlobal32, DL_STR("set-global.32 4 4")},
diff --git a/duckVM.c b/duckVM.c
index 1b53666..2e6db47 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1323,6 +1323,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 	case duckLisp_instruction_setUpvalue32:
 		ptrdiff1 = *(ip++);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
@@ -1332,6 +1335,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_setUpvalue16:
 		if (!parsedBytecode) {
 			ptrdiff1 = *(ip++);
+			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 			parsedBytecode = dl_true;
-- 
2.43.0


From 50237ef04d7972c10ad812e6df08a71a19070e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 39/87] fix: releasing captured variables at stack distances
 beyond 255

---
 assembler.c | 28 +++++++++++++++-------------
 duckVM.c    | 11 +++++++++++
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/assembler.c b/assembler.c
index 899df46..5577d0b 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2127,21 +2127,23 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			break;
 		}
 		case duckLisp_instructionClass_releaseUpvalues: {
-			byte_length = 1;
+			/* The number of upvalues and the upvalues all have the same width. */
+			dl_size_t largest = instruction.args.elements_length;
 			DL_DOTIMES(k, instruction.args.elements_length) {
 				dl_size_t arg = args[k].value.integer;
-				if (arg < 0x00000100UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
-					byte_length = 1;
-				}
-				else if (arg < 0x00010000UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
-					byte_length = 2;
-				}
-				else {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
-					byte_length = 4;
-				}
+				largest = dl_max(largest, arg);
+			}
+			if (largest < 0x00000100UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
+				byte_length = 1;
+			}
+			else if (largest < 0x00010000UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
+				byte_length = 2;
+			}
+			else {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
+				byte_length = 4;
 			}
 			dl_ptrdiff_t index = 0;
 			// Number of upvalues
diff --git a/duckVM.c b/duckVM.c
index 2e6db47..d67e3b9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1279,6 +1279,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_releaseUpvalues16:
 	case duckLisp_instruction_releaseUpvalues8:
 		size1 = *(ip++);
+		switch (opcode) {
+		case duckLisp_instruction_releaseUpvalues32:
+			size1 = *(ip++) + (size1 << 8);
+			size1 = *(ip++) + (size1 << 8);
+			/* Fall through */
+		case duckLisp_instruction_releaseUpvalues16:
+			size1 = *(ip++) + (size1 << 8);
+			/* Fall through */
+		default:
+			break;
+		}
 
 		DL_DOTIMES(k, size1) {
 			ptrdiff1 = *(ip++);
-- 
2.43.0


From fcde52751abd807d378f48fd33e52fc6315fceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 40/87] fix: substring with an end index at a stack distance
 beyond 255

---
 assembler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index 5577d0b..c9b1d77 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2077,12 +2077,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    && (args[2].type == duckLisp_instructionArgClass_type_index)) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring16;
 					byte_length = 2;
 				}
-- 
2.43.0


From 6c5c010e5b7f3d0e9ab1a938e4a8096603f5411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 41/87] fix: a collection freed the captured variables of a
 function that was replaced while it runs

---
 duckVM.c | 17 ++++++++++++-----
 duckVM.h |  2 ++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index d67e3b9..8661724 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -259,6 +259,11 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
 			if (e) goto cleanup;
 		}
+		object = DL_ARRAY_GETADDRESS(duckVM->call_stack, duckVM_callFrame_t, i).upvalueArray;
+		if (object != dl_null) {
+			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
+			if (e) goto cleanup;
+		}
 	}
 
 	/* Current bytecode */
@@ -571,14 +576,16 @@ static dl_error_t stack_set(duckVM_t *duckVM, duckVM_object_t *element, dl_ptrdi
 static dl_error_t call_stack_push(duckVM_t *duckVM,
                                   dl_uint8_t *ip,
                                   duckVM_object_t *bytecode,
-                                  duckVM_upvalueArray_t *upvalueArray) {
+                                  duckVM_object_t *upvalueArray) {
 	dl_error_t e = dl_error_ok;
 	duckVM_callFrame_t frame;
 	frame.ip = ip;
 	frame.bytecode = bytecode;
+	frame.upvalueArray = upvalueArray;
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack,
+	                         upvalueArray ? &upvalueArray->value.upvalue_array : dl_null);
 	if (e) {
 		(void) dl_array_popElement(&duckVM->call_stack, dl_null);
 		goto cleanup;
@@ -1455,7 +1462,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			break;
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -1589,7 +1596,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -5715,7 +5722,7 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			e = call_stack_push(duckVM,
 			                    shim_bytecode,
 			                    duckVM->currentBytecode,
-			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
+			                    functionObject.value.closure.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
 			e = duckVM_executeWithIp(duckVM, bytecode.bytecode, bytecode_offset, bytecode.bytecode_length);
diff --git a/duckVM.h b/duckVM.h
index d2153ce..f2269a5 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -49,6 +49,8 @@ typedef struct duckVM_gclist_s {
 typedef struct {
 	dl_uint8_t *ip;
 	struct duckVM_object_s *bytecode;
+	/* Upvalue array of the called function, so that the collector keeps it. May be null. */
+	struct duckVM_object_s *upvalueArray;
 } duckVM_callFrame_t;
 
 typedef struct duckVM_s {
-- 
2.43.0


From 708fa02028d2aa7fb75a9b908b19330696098d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 42/87] fix: functions that captured variables of a failed
 program read whatever is on the stack later

---
 duckVM.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8661724..e613dbc 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4846,7 +4846,37 @@ dl_error_t duckVM_object_pop(duckVM_t *duckVM, duckVM_object_t *object) {
 	return stack_pop(duckVM, object);
 }
 
+/* Move the captured variables off the stack, which is about to be emptied, since closures may still refer to them. */
+static void stack_releaseAll(duckVM_t *duckVM) {
+	/* The other objects are about to be popped. Give them up now in case a collection is necessary. */
+	DL_DOTIMES(i, duckVM->stack.elements_length) {
+		if (((dl_size_t) i >= duckVM->upvalue_stack.elements_length)
+		    || (DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) == dl_null)) {
+			duckVM_object_t *object = &DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i);
+			object->type = duckVM_object_type_list;
+			object->value.list = dl_null;
+		}
+	}
+	DL_DOTIMES(i, duckVM->upvalue_stack.elements_length) {
+		duckVM_object_t *upvalue = DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i);
+		if (upvalue == dl_null) continue;
+		duckVM_object_t *heapObject = dl_null;
+		if (duckVM_gclist_pushObject(duckVM,
+		                             &heapObject,
+		                             DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i))) {
+			/* Out of memory: the variable is lost. Make using it an error. */
+			upvalue->value.upvalue.value.stack_index = -1;
+		}
+		else {
+			upvalue->value.upvalue.value.heap_object = heapObject;
+			upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
+		}
+		DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) = dl_null;
+	}
+}
+
 dl_error_t duckVM_popAll(duckVM_t *duckVM) {
+	stack_releaseAll(duckVM);
 	return stack_pop_multiple(duckVM, duckVM->stack.elements_length);
 }
 
@@ -4860,12 +4890,12 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
-	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
-	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
+	e = duckVM_popAll(duckVM);
+	if (e) goto cleanup;
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
-- 
2.43.0


From 263ed06905c289b6d03fc556e22d4001c89bd44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 43/87] fix: the push-pop optimization removed the error of an
 undefined global

---
 assembler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index c9b1d77..b5f9ed5 100644
--- a/assembler.c
+++ b/assembler.c
@@ -328,8 +328,8 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    || (class == duckLisp_instructionClass_pushStrippedSymbol)
 			    || (class == duckLisp_instructionClass_pushUpvalue)
 			    || (class == duckLisp_instructionClass_pushClosure)
-			    || (class == duckLisp_instructionClass_pushVaClosure)
-			    || (class == duckLisp_instructionClass_pushGlobal)) {
+			    || (class == duckLisp_instructionClass_pushVaClosure)) {
+				/* `pushGlobal` has to stay since an undefined global is an error. */
 				duckLisp_instructionObject_t nextInstruction = DL_ARRAY_GETADDRESS(*assembly,
 				                                                                   duckLisp_instructionObject_t,
 				                                                                   i + 1);
-- 
2.43.0


From 26accaa4ec91d60d4b306249680144a60198f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 44/87] fix: a string literal that did not fit into the heap
 was pushed uninitialised

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index e613dbc..179a437 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -901,6 +901,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0


From bf8b74df0149f5184197c8b782ea400138dbf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 45/87] fix: a trie insertion that runs out of memory loses
 keys or reports success

---
 DuckLib/trie.c | 49 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 9ca3f95..842ad3a 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -171,8 +171,9 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                          &key[name_index],
 				                          key_length - name_index,
 				                          index);
-				if (*success) break;
+				if (e || *success) break;
 			}
+			if (e) break;
 			if (!*success) {
 				/* No child nodes match at all, so create a new one. */
 				e = dl_trie_pushNode(trie, node, &key[name_index], key_length - name_index, index);
@@ -199,13 +200,18 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 			                     &(*node_name)[name_index],
 			                     *node_name_length - name_index,
 			                     tempNode.index);
-			if (e) break;
+			if (e) {
+				/* Restore the node. */
+				(void) dl_trie_quit_node(trie, node);
+				*node = tempNode;
+				break;
+			}
 			node->value.nodes[0] = tempNode;
 
-			e = dl_realloc(trie->memoryAllocation,
-			               (void **) node_name,
-			               name_index * sizeof(dl_uint8_t));
-			if (e) break;
+			/* A name that could not be made smaller is still valid. */
+			(void) dl_realloc(trie->memoryAllocation,
+			                  (void **) node_name,
+			                  name_index * sizeof(dl_uint8_t));
 			/* Trim current node's name to match key. */
 			*node_name_length = name_index;
 
@@ -228,25 +234,30 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                     &(*node_name)[name_index],
 				                     *node_name_length - name_index,
 				                     100);  /* Index doesn't seem to matter here. */
-				if (e) break;
-
 				/* Add node. */
-				e = dl_trie_pushNode(trie,
-				                     node,
-				                     &key[name_index],
-				                     key_length - name_index,
-				                     index);
-				if (e) break;
+				if (!e) {
+					e = dl_trie_pushNode(trie,
+					                     node,
+					                     &key[name_index],
+					                     key_length - name_index,
+					                     index);
+				}
+				if (e) {
+					/* Restore the node. */
+					(void) dl_trie_quit_node(trie, node);
+					*node = tempNode;
+					break;
+				}
 				/* Next node. */
 				// node = &node->value.nodes[0];
 				/* Splice to finish split. */
 				node->value.nodes[0] = tempNode;
 
-				/* Delete the redundant end of the original node's key. */
-				e = dl_realloc(trie->memoryAllocation,
-				               (void **) node_name,
-				               name_index * sizeof(dl_uint8_t));
-				if (e) break;
+				/* Delete the redundant end of the original node's key. A name that could not be made smaller is still
+				   valid. */
+				(void) dl_realloc(trie->memoryAllocation,
+				                  (void **) node_name,
+				                  name_index * sizeof(dl_uint8_t));
 				*node_name_length = name_index;
 
 				*success = dl_true;
-- 
2.43.0


From 2f9167519c2891b79f9a0c6a03f2d673cb42b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 46/87] fix: a symbol whose creation runs out of memory shares
 its number with the next symbol

---
 duckLisp.c   | 20 ++++++++++++++------
 generators.c | 28 ++++++----------------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 61c388b..263fbfa 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -203,17 +203,25 @@ dl_error_t duckLisp_symbol_create(duckLisp_t *duckLisp, const dl_uint8_t *name,
 	dl_ptrdiff_t key = duckLisp_symbol_nameToValue(duckLisp, name, name_length);
 	if (key == -1) {
 		duckLisp_ast_identifier_t tempIdentifier;
-		e = dl_trie_insert(&duckLisp->symbols_trie,
-		                   name,
-		                   name_length,
-		                   duckLisp->symbols_array.elements_length);
-		if (e) goto l_cleanup;
 		tempIdentifier.value_length = name_length;
 		e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
 		if (e) goto l_cleanup;
 		/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
 		e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
-		if (e) goto l_cleanup;
+		if (e) {
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+			goto l_cleanup;
+		}
+		/* The trie must only contain symbols that are in the array. */
+		e = dl_trie_insert(&duckLisp->symbols_trie,
+		                   name,
+		                   name_length,
+		                   duckLisp->symbols_array.elements_length - 1);
+		if (e) {
+			(void) dl_array_popElement(&duckLisp->symbols_array, dl_null);
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+			goto l_cleanup;
+		}
 	}
 
  l_cleanup:
diff --git a/generators.c b/generators.c
index 8af1965..03ce7eb 100644
--- a/generators.c
+++ b/generators.c
@@ -624,7 +624,6 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 	dl_array_t tempString;
 	dl_ptrdiff_t temp_index;
 	/**/ dl_array_init(&tempString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -665,16 +664,9 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 		if (temp_index < 0) {
 			/* It's not. Intern it. */
 			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp,
+			                           tree->value.identifier.value,
+			                           tree->value.identifier.value_length);
 			if (e) goto cleanup;
 		}
 		/* Push symbol */
@@ -752,7 +744,6 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 	dl_ptrdiff_t temp_index = -1;
 	dl_uint8_t *functionName = expression->compoundExpressions[0].value.identifier.value;
 	dl_size_t functionName_length = expression->compoundExpressions[0].value.identifier.value_length;
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -796,16 +787,9 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 		if (temp_index < 0) {
 			// It's not. Intern it.
 			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp,
+			                           tree->value.identifier.value,
+			                           tree->value.identifier.value_length);
 			if (e) goto cleanup;
 		}
 		// Push symbol
-- 
2.43.0


From e1c179d31ceec74cf0502adf3803baa76ea7bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 47/87] fix: memory is freed twice when a declaration runs out
 of memory

---
 duckLisp.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 263fbfa..1f988b9 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -727,6 +727,7 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
                                    dl_uint8_t *name,
                                    const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -734,10 +735,10 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
 	if (e) goto l_cleanup;
 
 	e = dl_trie_insert(&scope.labels_trie, name, name_length, subCompileState->label_number);
-	if (e) goto l_cleanup;
-	subCompileState->label_number++;
-
-	e = scope_setTop(subCompileState, &scope);
+	if (!e) subCompileState->label_number++;
+	/* A failed insertion may still have moved the nodes of the trie. */
+	eError = scope_setTop(subCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto l_cleanup;
 
  l_cleanup:
@@ -2232,6 +2233,7 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
                                     const dl_uint8_t *name,
                                     const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2240,9 +2242,9 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
 	e = dl_trie_insert(&scope.locals_trie, name, name_length, duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	/* A failed insertion may still have moved the nodes of the trie. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto cleanup;
 
  cleanup:
@@ -2274,6 +2276,7 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
                                            duckLisp_compileState_t *compileState,
                                            const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2286,12 +2289,12 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
 	                   name.value,
 	                   name.value_length,
 	                   duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) {
+		e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
+	}
+	/* A failed insertion may still have moved the nodes of the trie. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto cleanup;
 
  cleanup: return e;
@@ -2302,6 +2305,7 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
                                             duckLisp_compileState_t *compileState,
                                             const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 	duckLisp_subCompileState_t *originalSubCompileState = compileState->currentCompileState;
@@ -2316,9 +2320,9 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
 		                   name.value,
 		                   name.value_length,
 		                   duckLisp_functionType_macro);
-		if (e) goto cleanup;
-
-		e = scope_setTop(compileState->currentCompileState, &scope);
+		/* A failed insertion may still have moved the nodes of the trie. */
+		eError = scope_setTop(compileState->currentCompileState, &scope);
+		if (!e) e = eError;
 		if (e) goto cleanup;
 	}
 	if (compileState->currentCompileState == &compileState->runtimeCompileState) {
-- 
2.43.0


From cc08cfa22da01564b211e3333512a8203aba5dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 48/87] fix: duckVM_pushVector makes vectors without elements
 and loses errors

---
 duckVM.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 179a437..bbf5702 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6286,6 +6286,7 @@ dl_error_t duckVM_pushCons(duckVM_t *duckVM) {
 dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 	dl_error_t e = dl_error_ok;
 	do {
+		dl_error_t eError = dl_error_ok;
 		duckVM_object_t vector;
 		dl_array_t array;
 		duckVM_object_t *nil_pointer = dl_null;
@@ -6296,14 +6297,22 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 				if (e) break;
 			}
 			if (e) break;
-			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
-			if (e) break;
 			e = duckVM_object_makeVector(duckVM, &vector, array);
 			if (e) break;
 			e = stack_push(duckVM, &vector);
 			if (e) break;
+			/* The vector is on the stack, so it survives if this collects garbage. */
+			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+			if (e) {
+				(void) stack_pop(duckVM, dl_null);
+				break;
+			}
+			DL_DOTIMES(k, length) {
+				vector.value.vector.internal_vector->value.internal_vector.values[k] = nil_pointer;
+			}
 		} while (0);
-		e = dl_array_quit(&array);
+		eError = dl_array_quit(&array);
+		if (!e) e = eError;
 		if (e) break;
 	} while (0);
 	return e;
-- 
2.43.0


From acd126c9e04d5e39165a518113402c199c05c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 49/87] fix: duckVM_pushFirst and duckVM_pushRest push an
 uninitialised object instead of failing

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index bbf5702..da90881 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6481,6 +6481,7 @@ dl_error_t duckVM_pushFirst(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &first);
 		if (e) break;
 	} while (0);
@@ -6585,6 +6586,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &rest);
 		if (e) break;
 	} while (0);
-- 
2.43.0


From fd2956d010beaa49864b27170bd9d1dcf029610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 50/87] fix: string elements are read outside the string and
 ignore the offset of substrings

---
 duckVM.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index da90881..99bc448 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5232,7 +5232,8 @@ dl_error_t duckVM_string_getElement(duckVM_string_t string, dl_uint8_t *byte, dl
 	duckVM_internalString_t internalString;
 	dl_error_t e = duckVM_string_getInternalString(string, &internalString);
 	if (e) return e;
-	*byte = internalString.value[index];
+	if ((dl_size_t) index >= string.length - string.offset) return dl_error_invalidValue;
+	*byte = internalString.value[string.offset + index];
 	return e;
 }
 
-- 
2.43.0


From 1c6c3f253edf7a685f96a222a7848be593632929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 51/87] fix: duckVM_pushElement pushes a cons instead of its
 element and reads past the end of lists

---
 duckVM.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 99bc448..68e39b4 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6757,26 +6757,27 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_object_t *element_pointer = sequence.value.list;
-			DL_DOTIMES(k, sequence_index) {
-				if (element_pointer) {
-					if (duckVM_object_type_cons == element_pointer->type) {
-						element_pointer = element_pointer->value.cons.cdr;
-					}
-					else {
-						e = dl_error_invalidValue;
-						eError = duckVM_error_pushRuntime(duckVM,
-						                                  DL_STR("duckVM_pushElement: Ran out of elements in improper list."));
-						if (eError) e = eError;
-						break;
-					}
-				}
-				else {
-					break;
-				}
+			duckVM_object_t *cons_pointer = sequence.value.list;
+			for (dl_ptrdiff_t k = 0; k < sequence_index; k++) {
+				if ((cons_pointer == dl_null) || (duckVM_object_type_cons != cons_pointer->type)) break;
+				cons_pointer = cons_pointer->value.cons.cdr;
+			}
+			if ((sequence_index < 0)
+			    || (cons_pointer == dl_null)
+			    || (duckVM_object_type_cons != cons_pointer->type)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Ran out of elements in list."));
+				if (eError) e = eError;
+				break;
+			}
+			duckVM_object_t *element_pointer = cons_pointer->value.cons.car;
+			if ((element_pointer == dl_null) || (duckVM_object_type_cons == element_pointer->type)) {
+				element = duckVM_object_makeList(element_pointer);
+			}
+			else {
+				element = *element_pointer;
 			}
-			if (e) break;
-			element = *element_pointer;
 			break;
 		}
 		case duckVM_object_type_vector: {
-- 
2.43.0


From 9d1a180f9e582694f093744a54975977f68fd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 52/87] fix: duckVM_setElement sets the first element of lists
 whatever the index and ignores wrong types

---
 duckVM.c | 57 +++++++++-----------------------------------------------
 1 file changed, 9 insertions(+), 48 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 68e39b4..db3e625 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6839,61 +6839,21 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_list_t list = sequence.value.list;
-			if (list) {
-				list->value.cons.car = value_pointer;
-			}
-			else {
-				/* Nil */
-				e = dl_error_invalidValue;
-				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: List is nil."));
-				break;
-			}
-			break;
-			/* This looks like a bug: */ }{
-			duckVM_object_t *element_pointer = sequence.value.list;
-			DL_DOTIMES(k, sequence_index) {
-				if (element_pointer) {
-					if (duckVM_object_type_cons == element_pointer->type) {
-						element_pointer = element_pointer->value.cons.cdr;
-					}
-					else {
-						e = dl_error_invalidValue;
-						eError = duckVM_error_pushRuntime(duckVM,
-						                                  DL_STR("duckVM_setElement: Ran out of elements in improper list."));
-						if (eError) e = eError;
-						break;
-					}
-				}
-				else {
-					e = dl_error_invalidValue;
-					eError = duckVM_error_pushRuntime(duckVM,
-					                                  DL_STR("duckVM_setElement: Ran out of elements in list."));
-					if (eError) e = eError;
-					break;
-				}
-			}
-			if (e) break;
-			if (element_pointer) {
-				if (duckVM_object_type_cons == element_pointer->type) {
-					element_pointer->value.cons.car = value_pointer;
-				}
-				else {
-					e = dl_error_invalidValue;
-					eError = duckVM_error_pushRuntime(duckVM,
-					                                  DL_STR("duckVM_setElement: Ran out of elements in improper list."));
-					if (eError) e = eError;
-					break;
-				}
+			duckVM_object_t *cons_pointer = sequence.value.list;
+			for (dl_ptrdiff_t k = 0; k < sequence_index; k++) {
+				if ((cons_pointer == dl_null) || (duckVM_object_type_cons != cons_pointer->type)) break;
+				cons_pointer = cons_pointer->value.cons.cdr;
 			}
-			else {
+			if ((sequence_index < 0)
+			    || (cons_pointer == dl_null)
+			    || (duckVM_object_type_cons != cons_pointer->type)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_setElement: Ran out of elements in list."));
 				if (eError) e = eError;
 				break;
 			}
+			cons_pointer->value.cons.car = value_pointer;
 			break;
 		}
 		case duckVM_object_type_vector: {
@@ -6916,6 +6876,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			break;
 		}
 		default: {
+			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
 			                                  DL_STR("duckVM_setElement: Unsupported object type."));
 			if (eError) e = eError;
-- 
2.43.0


From 819e0567665cae1fbe7afc724849604d1ba4679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 53/87] fix: lists made with duckVM_setRest are improper

---
 duckVM.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index db3e625..4a79ea4 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6686,8 +6686,14 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
-		if (e) break;
+		if (duckVM_object_type_list == value.type) {
+			/* The rest of a list is a cons or null, or else the list would be improper. */
+			value_pointer = value.value.list;
+		}
+		else {
+			e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+			if (e) break;
+		}
 		e = stack_get(duckVM, &sequence, stack_index);
 		if (e) break;
 		type = sequence.type;
-- 
2.43.0


From 5f36b703a6cf8bc63db0107d386dc3167a6975e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 54/87] fix: duckVM_copySymbolName does not return the length
 of a missing name

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 4a79ea4..71620cc 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6038,7 +6038,7 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		}
 		else {
 			*name = dl_null;
-			name_length = 0;
+			*name_length = 0;
 			/* OK: This is symbol "compression". */
 		}
 	} while (0);
-- 
2.43.0


From 1441897918b2e365b53ef83cf3d448f8f0b46d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 55/87] fix: lengths and emptiness of vectors that are the rest
 of another vector

---
 duckVM.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 71620cc..ce133a6 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5406,7 +5406,10 @@ dl_error_t duckVM_vector_getLength(duckVM_vector_t vector, dl_size_t *length) {
 	duckVM_internalVector_t internalVector;
 	dl_error_t e = duckVM_vector_getInternalVector(vector, &internalVector);
 	if (e) return e;
-	*length = internalVector.length - vector.offset;
+	/* The end of the vector may have been cut off. */
+	*length = (((dl_size_t) vector.offset < internalVector.length)
+	           ? internalVector.length - vector.offset
+	           : 0);
 	return e;
 }
 
@@ -5584,7 +5587,8 @@ dl_error_t duckVM_isEmptyVector(duckVM_t *duckVM, dl_bool_t *result) {
 	if (object.type == duckVM_object_type_vector) {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -5636,7 +5640,8 @@ dl_error_t duckVM_isEmpty(duckVM_t *duckVM, dl_bool_t *result) {
 	case duckVM_object_type_vector: {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -6927,10 +6932,10 @@ dl_error_t duckVM_length(duckVM_t *duckVM, dl_size_t *length) {
 		}
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
-			duckVM_object_t *internal_vector = vector.internal_vector;
-			local_length = (internal_vector
-			                ? (internal_vector->value.internal_vector.length - vector.offset)
-			                : 0);
+			if (vector.internal_vector) {
+				e = duckVM_vector_getLength(vector, &local_length);
+				if (e) break;
+			}
 			break;
 		}
 		case duckVM_object_type_string: {
-- 
2.43.0


From de5337203136108534ed124ac4df8cd28902a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 56/87] fix: duckVM_pushRest fails on sequences with one
 element and crashes on empty vectors

---
 duckVM.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ce133a6..8d769cd 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5152,7 +5152,7 @@ dl_error_t duckVM_object_getString(dl_memoryAllocation_t *memoryAllocation,
 	{
 		dl_ptrdiff_t offset = object.value.string.offset;
 		dl_size_t length = object.value.string.length;
-		if (length) {
+		if (length > (dl_size_t) offset) {
 			e = DL_MALLOC(memoryAllocation, string, length - offset, dl_uint8_t);
 			if (e) goto cleanup;
 
@@ -6552,7 +6552,8 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = vector.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length) {
+			if ((dl_null == vector.internal_vector)
+			    || ((dl_size_t) offset > vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                             DL_STR("duckVM_pushRest: Vector is empty."));
@@ -6567,7 +6568,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = string.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= string.length) {
+			if ((dl_size_t) offset > string.length) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_pushRest: String is empty."));
-- 
2.43.0


From 7574e1f28d87b62d525d0db0a61ac7c44978db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 57/87] fix: duckVM_setCompositeFunction does not accept
 negative indices

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 8d769cd..313a6f9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6241,7 +6241,7 @@ dl_error_t duckVM_setCompositeFunction(duckVM_t *duckVM, dl_ptrdiff_t stack_inde
 		duckVM_object_t *heap_value = dl_null;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = dl_array_get(&duckVM->stack, &composite, stack_index);
+		e = stack_get(duckVM, &composite, stack_index);
 		if (e) break;
 		if (duckVM_object_type_composite != composite.type) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From bbe607a5a2f646bc1469010ed34d5f739ec6ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 58/87] fix: captured variables are accessed without a check of
 the index

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 313a6f9..4b2f923 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5319,6 +5319,7 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 
 	if (object == dl_null) return dl_error_nullPointer;
 
+	if ((dl_size_t) index >= upvalueArray.length) return dl_error_invalidValue;
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
 	/* Follow the chain of upvalues. */
@@ -5355,6 +5356,7 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 
 	if (object == dl_null) return dl_error_nullPointer;
 
+	if ((dl_size_t) index >= upvalueArray.length) return dl_error_invalidValue;
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
 	/* Follow the chain of upvalues. */
-- 
2.43.0


From 8ca3a4dce562b5078b6ed756d7091615920a73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 59/87] fix: duckVM_pushComposite uses an object that may have
 been collected

---
 duckVM.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 4b2f923..7cac323 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6134,12 +6134,18 @@ dl_error_t duckVM_pushComposite(duckVM_t *duckVM, dl_size_t type) {
 		duckVM_object_t object;
 		nil.type = duckVM_object_type_list;
 		nil.value.list = dl_null;
-		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
-		if (e) break;
-		e = duckVM_object_makeComposite(duckVM, &object, type, nil_pointer, nil_pointer);
+		e = duckVM_object_makeComposite(duckVM, &object, type, dl_null, dl_null);
 		if (e) break;
 		e = duckVM_object_push(duckVM, &object);
 		if (e) break;
+		/* The composite is on the stack, so it survives if this collects garbage. */
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
+		if (e) {
+			(void) stack_pop(duckVM, dl_null);
+			break;
+		}
+		object.value.composite->value.internalComposite.value = nil_pointer;
+		object.value.composite->value.internalComposite.function = nil_pointer;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From d74bffbe5a7134f65f2ab7f0401928b68a74e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 60/87] fix: duckVM_copySymbolName fails on empty names with
 the portable allocator

---
 duckVM.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 7cac323..8ac1fe3 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6038,9 +6038,14 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		if (object.value.symbol.internalString != dl_null) {
 			e = duckVM_symbol_getInternalString(object.value.symbol, &internal_string);
 			if (e) break;
-			e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
-			if (e) break;
-			(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			if (internal_string.value_length) {
+				e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
+				if (e) break;
+				(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			}
+			else {
+				*name = dl_null;
+			}
 			*name_length = internal_string.value_length;
 		}
 		else {
-- 
2.43.0


From a2c5c81d2d9c60f999f5abbeeb1396b3e5ffa09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 61/87] fix: a literal expression that starts with anything but
 a name is turned into a name

---
 parenthesis-inferrer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index dfd82d8..4058cd1 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1565,8 +1565,10 @@ static dl_error_t infer_expression(inferrerState_t *state,
 
 	if (compoundExpression->type == duckLisp_ast_type_literalExpression) {
 		/* Don't type-check. */
-		e = infer_callback(state, head, dl_false);
-		if (e) goto cleanup;
+		if (head->type == duckLisp_ast_type_callback) {
+			e = infer_callback(state, head, dl_false);
+			if (e) goto cleanup;
+		}
 		/* Run argument inference */
 
 		e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
-- 
2.43.0


From 285abc38dedb8fdc5320484904e4ca14937ac6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 62/87] fix: the keyword error is only known as __error

---
 duckLisp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckLisp.c b/duckLisp.c
index 1f988b9..70b9d4e 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1912,6 +1912,7 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 		{DL_STR("__symbol-id"), duckLisp_generator_symbolId, DL_STR("(I)"), dl_null, 0},
 		{DL_STR("symbol-id"), duckLisp_generator_symbolId, DL_STR("(I)"), dl_null, 0},
 		{DL_STR("__error"), duckLisp_generator_error, DL_STR("(I)"), dl_null, 0},
+		{DL_STR("error"), duckLisp_generator_error, DL_STR("(I)"), dl_null, 0},
 		{dl_null, 0, dl_null, dl_null, 0, dl_null, 0}
 	};
 
-- 
2.43.0


From c98102dbbd48ae3220ba4ecb73f61bb310a32bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 63/87] fix: inference of a call never ends if the type of its
 rest arguments is an expression

---
 parenthesis-inferrer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index 4058cd1..919bc0a 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1243,6 +1243,7 @@ static dl_error_t inferIncrementally(inferrerState_t *state,
 						eError = duckLisp_error_pushInference(state,
 						                                      DL_STR("Nested expression types are not yet supported."));
 						if (eError) e = eError;
+						goto cleanup;
 					}
 				}
 			}
-- 
2.43.0


From d02337ae6dcd551249955c5d1e9cfa21389d8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 64/87] fix: (nop) makes the compiler count a local that does
 not exist

---
 emitters.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emitters.c b/emitters.c
index 77fb12a..9309dca 100644
--- a/emitters.c
+++ b/emitters.c
@@ -754,8 +754,9 @@ dl_error_t duckLisp_emit_sub(duckLisp_t *duckLisp,
 }
 
 dl_error_t duckLisp_emit_nop(duckLisp_t *duckLisp, duckLisp_compileState_t *compileState, dl_array_t *assembly) {
-	return duckLisp_emit_nullaryOperator(duckLisp, compileState, assembly, duckLisp_instructionClass_nop);
-	/**/ duckLisp_localsLength_decrement(compileState);
+	dl_error_t e = duckLisp_emit_nullaryOperator(duckLisp, compileState, assembly, duckLisp_instructionClass_nop);
+	if (!e) /**/ duckLisp_localsLength_decrement(compileState);
+	return e;
 }
 
 dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
-- 
2.43.0


From 816d7c0cda357e1ab886d378568f7a19da65e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 65/87] fix: jumps are too short to reach their target in
 programs with many of them

---
 assembler.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/assembler.c b/assembler.c
index b5f9ed5..a3ec349 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2644,10 +2644,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 
 		{
 			dl_ptrdiff_t offset;
+			dl_bool_t changed;
 			dl_size_t iteration = 0;
 			do {
 				/* printf("\n"); */
 				offset = 0;
+				changed = dl_false;
 				iteration++;
 				for (dl_ptrdiff_t j = 0; (dl_size_t) j < 2 * newLinkArray.links_length; j++) {
 					unsigned char newSize;
@@ -2699,16 +2701,18 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 						/*        difference, */
 						/*        link.size, */
 						/*        newSize); */
-						if (newSize != link.size) {
+						if ((newSize > link.size) || ((newSize != link.size) && (iteration < 10))) {
+							changed = dl_true;
 							offset += newSize - link.size;
 							link.size = newSize;
 						}
 					}
 					newLinkArray.links[index] = link;
 				}
-				/* I haven't checked if it terminates after I changed `newSize > link.size` to `newSize != link.size`,
-				   thus the `iteration < 10`. */
-			} while ((offset != 0) && (iteration < 10));
+				/* The target of a forward jump is out of date if an earlier jump changed in the same iteration, so this has
+				   to go on until nothing changes. I haven't checked if it terminates after I changed
+				   `newSize > link.size` to `newSize != link.size`, thus only growth is allowed after the first 10. */
+			} while (changed);
 		}
 
 		e = dl_free(duckLisp->memoryAllocation, (void *) &jumpLinkPointers);
-- 
2.43.0


From 74ff93066994d1010d3fba6af72d034232c1627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 66/87] fix: strings and symbol names longer than 65535 bytes
 are truncated

---
 DuckLib/core.h |  1 +
 emitters.c     | 26 ++++++++++----------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/DuckLib/core.h b/DuckLib/core.h
index 26a8a49..a50546e 100644
--- a/DuckLib/core.h
+++ b/DuckLib/core.h
@@ -41,6 +41,7 @@ typedef int dl_int32_t;
 
 #define DL_UINT8_MAX    255U
 #define DL_UINT16_MAX 65535U
+#define DL_UINT32_MAX 4294967295UL
 
 #define DL_INT8_MAX     127
 #define DL_INT16_MAX  32767
diff --git a/emitters.c b/emitters.c
index 9309dca..ed511fa 100644
--- a/emitters.c
+++ b/emitters.c
@@ -905,14 +905,11 @@ dl_error_t duckLisp_emit_pushString(duckLisp_t *duckLisp,
 
 	/* Write string length. */
 
-	if (string_length > DL_UINT16_MAX) {
-		eError = duckLisp_error_pushRuntime(duckLisp,
-		                                    DL_STR("String longer than DL_UINT_MAX. Truncating string to fit."));
-		if (eError) {
-			e = eError;
-			goto cleanup;
-		}
-		string_length = DL_UINT16_MAX;
+	if (string_length > DL_UINT32_MAX) {
+		e = dl_error_invalidValue;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("String longer than DL_UINT32_MAX."));
+		if (eError) e = eError;
+		goto cleanup;
 	}
 
 	/* Push arguments into instruction. */
@@ -968,14 +965,11 @@ dl_error_t duckLisp_emit_pushSymbol(duckLisp_t *duckLisp,
 
 	// Write string length.
 
-	if (string_length > DL_UINT16_MAX) {
-		eError = duckLisp_error_pushRuntime(duckLisp,
-		                                    DL_STR("String longer than DL_UINT_MAX. Truncating string to fit."));
-		if (eError) {
-			e = eError;
-			goto cleanup;
-		}
-		string_length = DL_UINT16_MAX;
+	if (string_length > DL_UINT32_MAX) {
+		e = dl_error_invalidValue;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("String longer than DL_UINT32_MAX."));
+		if (eError) e = eError;
+		goto cleanup;
 	}
 
 	// Push arguments into instruction.
-- 
2.43.0


From 41dd18129d40618a278f19062bcc204a1a3fd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 67/87] fix: a declaration of something that is not a name is
 reported but not refused

---
 generators.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generators.c b/generators.c
index 03ce7eb..6852bb2 100644
--- a/generators.c
+++ b/generators.c
@@ -1729,7 +1729,7 @@ dl_error_t duckLisp_generator_createVar_raw(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -1818,7 +1818,7 @@ dl_error_t duckLisp_generator_global(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -3075,7 +3075,7 @@ dl_error_t duckLisp_generator_label(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -3121,7 +3121,7 @@ dl_error_t duckLisp_generator_goto(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
-- 
2.43.0


From 0ac0c520f934c671aa69cbae9b0aaa14d14f1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 68/87] fix: the allocator reads in front of its table when the
 last block is freed or resized

---
 DuckLib/memory.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 16ecdf4..54bc97c 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -435,6 +435,12 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	return error;
 }
 
+// Determine whether there is at most one block after the given block.
+static dl_bool_t dl_memory_isLastAllocated(const dl_memoryAllocation_t *memoryAllocation, dl_ptrdiff_t block) {
+	const dl_ptrdiff_t nextBlock = memoryAllocation->blockList[block].nextBlock;
+	return (nextBlock == -1) || (memoryAllocation->blockList[nextBlock].nextBlock == -1);
+}
+
 void dl_memory_mergeBlockAfter(dl_memoryAllocation_t *memoryAllocation, dl_bool_t *merged, dl_ptrdiff_t block) {
 	
 	dl_ptrdiff_t nextBlock = memoryAllocation->blockList[block].nextBlock;
@@ -550,7 +556,7 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
-		if (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1) {
+		if (/**/ dl_memory_isLastAllocated(memoryAllocation, memoryAllocation->blockList_indexOfBlockList)) {
 			memoryAllocation->used = (char *) memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].block - (char *) memoryAllocation->memory;
 		}
 		
@@ -778,7 +784,7 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 		
 	memoryAllocation->blockList[block].allocated = dl_false;
 
-	if (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1) {
+	if (/**/ dl_memory_isLastAllocated(memoryAllocation, block)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
 	}
 	
@@ -828,7 +834,7 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
-	if (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1) {
+	if (/**/ dl_memory_isLastAllocated(memoryAllocation, currentBlock)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
 	}
 	
-- 
2.43.0


From 6a43f2e760ec01dc16e7acd18ea361441002bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 69/87] fix: the allocator loses its own table when there is no
 memory to enlarge it

---
 DuckLib/memory.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 54bc97c..5c738e8 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -531,6 +531,28 @@ void dl_memory_mergeBlocks(dl_memoryAllocation_t *memoryAllocation, dl_bool_t *m
 // 	return error;
 // }
 
+// Undo the merges done to a block. `original` is what the block's descriptor was before.
+static void dl_memory_unmergeBlocks(dl_memoryAllocation_t *memoryAllocation, dl_ptrdiff_t block, dl_memoryBlock_t original) {
+	dl_memoryBlock_t *blockList = memoryAllocation->blockList;
+
+	if ((original.nextBlock != -1) && blockList[original.nextBlock].unlinked) {
+		blockList[original.nextBlock].unlinked = dl_false;
+		if (blockList[original.nextBlock].nextBlock != -1) {
+			blockList[blockList[original.nextBlock].nextBlock].previousBlock = original.nextBlock;
+		}
+	}
+	if ((original.previousBlock != -1) && blockList[original.previousBlock].unlinked) {
+		blockList[original.previousBlock].unlinked = dl_false;
+		if (blockList[original.previousBlock].previousBlock == -1) {
+			memoryAllocation->firstBlock = original.previousBlock;
+		}
+		else {
+			blockList[blockList[original.previousBlock].previousBlock].nextBlock = original.previousBlock;
+		}
+	}
+	blockList[block] = original;
+}
+
 dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation, dl_size_t entries_number) {
 	dl_error_t error = dl_error_ok;
 	
@@ -541,6 +563,8 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	void *tempMemory = dl_null;
 	dl_ptrdiff_t extraBlock = -1;
 	dl_memoryBlock_t *blockListEntry = dl_null;
+	dl_memoryBlock_t originalEntry;
+	dl_size_t originalUsed;
 	
 	// Use unlinked descriptors if possible.
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < memoryAllocation->blockList_length; i++) {
@@ -554,6 +578,8 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	// If we still need descriptors, then realloc the table.
 	if (entries_left) {
 		
+		originalEntry = memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList];
+		originalUsed = memoryAllocation->used;
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
 		if (/**/ dl_memory_isLastAllocated(memoryAllocation, memoryAllocation->blockList_indexOfBlockList)) {
@@ -582,7 +608,11 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 			// Find a larger memory block for the table.
 			error = dl_memory_findBlock(memoryAllocation, &newBlock, (memoryAllocation->blockList_length + entries_left) * sizeof(dl_memoryBlock_t),
 			                            memoryAllocation->fit);
-			if (error) goto cleanup;
+			if (error) {
+				/**/ dl_memory_unmergeBlocks(memoryAllocation, memoryAllocation->blockList_indexOfBlockList, originalEntry);
+				memoryAllocation->used = originalUsed;
+				goto cleanup;
+			}
 			
 			// Copy block list to new location.
 			tempMemory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 024a9b95c2670c035618a8f36e2f32336d7f1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 70/87] fix: dl_realloc loses the block when memory is
 exhausted and reads behind it otherwise

---
 DuckLib/memory.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 5c738e8..e471e98 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -835,9 +835,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	dl_ptrdiff_t newBlock = -1;
 
 	dl_bool_t blockFits = dl_false;
-#ifdef MEMCHECK
+	dl_bool_t mergedAfter = dl_false;
+	dl_bool_t mergedBefore = dl_false;
+	dl_memoryBlock_t originalEntry;
+	dl_size_t originalUsed;
 	dl_size_t oldSize;
-#endif
 	
 	if (*memory == dl_null) {
 		error = dl_malloc(memoryAllocation, memory, size);
@@ -857,9 +859,9 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-#ifdef MEMCHECK
-	oldSize = memoryAllocation->blockList[currentBlock].block_size;
-#endif
+	originalEntry = memoryAllocation->blockList[currentBlock];
+	originalUsed = memoryAllocation->used;
+	oldSize = originalEntry.block_size;
 	
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
@@ -868,19 +870,26 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
 	}
 	
-	/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, dl_null, currentBlock);
+	/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, &mergedAfter, currentBlock);
 	
 	blockFits = (memoryAllocation->blockList[currentBlock].block_size >= size);
 	
 	if (!blockFits) {
-		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
+		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, &mergedBefore, currentBlock);
 	}
 	
 	memoryAllocation->blockList[currentBlock].allocated = dl_true;
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
 	if (error) {
+		/**/ dl_memory_unmergeBlocks(memoryAllocation, currentBlock, originalEntry);
+		memoryAllocation->used = originalUsed;
 		goto l_cleanup;
 	}
+	if (!mergedAfter && !mergedBefore) {
+		/* The table might have moved. Merging results in unused descriptors, so it can't have done so otherwise. */
+		originalEntry = memoryAllocation->blockList[currentBlock];
+		originalUsed = dl_max(originalUsed, memoryAllocation->used);
+	}
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
 	
@@ -888,6 +897,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	if (!blockFits) {
 		error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
 		if (error) {
+			/**/ dl_memory_unmergeBlocks(memoryAllocation, currentBlock, originalEntry);
+			memoryAllocation->used = originalUsed;
 			goto l_cleanup;
 		}
 	}
@@ -903,11 +914,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		// Copy.
 #ifdef MEMCHECK
 		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block, size);
-		VALGRIND_MAKE_MEM_DEFINED(*memory, memoryAllocation->blockList[currentBlock].block_size);
+		VALGRIND_MAKE_MEM_DEFINED(*memory, oldSize);
 #endif /* MEMCHECK */
 		dl_memcopy(memoryAllocation->blockList[newBlock].block,
 		           *memory,
-		           dl_min(size, memoryAllocation->blockList[currentBlock].block_size));
+		           dl_min(size, oldSize));
 		if (error) {
 			goto l_cleanup;
 		}
-- 
2.43.0


From 281fe63262a6c565108b378a95edbf3835e9e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 71/87] fix: allocations of nearly the whole address space
 succeed with a tiny block

---
 DuckLib/memory.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index e471e98..94ef8a9 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -754,6 +754,12 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 		goto cleanup;
 	}
 
+	if (size > memoryAllocation->size) {
+		// Also prevents overflow below.
+		error = dl_error_outOfMemory;
+		goto cleanup;
+	}
+
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
@@ -851,6 +857,12 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 	
+	if (size > memoryAllocation->size) {
+		// Also prevents overflow below.
+		error = dl_error_outOfMemory;
+		goto l_cleanup;
+	}
+
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 	
 	error = dl_memory_pointerToBlock(*memoryAllocation, &currentBlock, memory);
-- 
2.43.0


From 2bc9ce5d9791a138586bd7485f8eb23b670c6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 72/87] fix: the memory usage contains the sizes in
 uninitialized descriptors

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 94ef8a9..685cbcd 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -977,7 +977,7 @@ void dl_memory_usage(dl_size_t *bytes, const dl_memoryAllocation_t memoryAllocat
 	const dl_size_t blockList_length = memoryAllocation.blockList_length;
 	dl_size_t sum = 0;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < blockList_length; i++) {
-		if (blockList[i].allocated) {
+		if (!blockList[i].unlinked && blockList[i].allocated) {
 			sum += blockList[i].block_size;
 		}
 	}
-- 
2.43.0


From 82c5e2b1446f4df7b56ccf7db9ebd79350172594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 73/87] fix: next fit never finds memory in front of a stale
 block

---
 DuckLib/memory.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 685cbcd..382d886 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -372,10 +372,13 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	
 	dl_ptrdiff_t optimumBlock = -1;
 	dl_ptrdiff_t currentBlock = -1;
+	dl_ptrdiff_t startBlock = -1;
 	dl_bool_t found = dl_false;
 	
-	if (fit == dl_memoryFit_next) {
-		currentBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
+	// The most recent block might have been merged with another one.
+	if ((fit == dl_memoryFit_next) && !memoryAllocation->blockList[memoryAllocation->mostRecentBlock].unlinked) {
+		startBlock = memoryAllocation->mostRecentBlock;
+		currentBlock = startBlock;
 	}
 	else {
 		currentBlock = memoryAllocation->firstBlock;
@@ -415,6 +418,11 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 			}
 		}
 		currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
+		if ((currentBlock == -1) && (startBlock != -1)) {
+			// Next fit: Continue with the blocks before the most recent one.
+			currentBlock = memoryAllocation->firstBlock;
+			startBlock = -1;
+		}
 	}
 	
 	if (optimumBlock == -1) {
@@ -430,6 +438,7 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	}
 	else {
 		*block = optimumBlock;
+		memoryAllocation->mostRecentBlock = optimumBlock;
 	}
 	
 	return error;
-- 
2.43.0


From af6003193ef606f3ce0be0698be352ef26ab3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 74/87] fix: tries are not freed with the portable allocator

---
 DuckLib/trie.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 842ad3a..a032bd5 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -43,19 +43,26 @@ static dl_error_t dl_trie_quit_node(dl_trie_t *trie, dl_trie_node_t *trieNode) {
 		}
 	} // Fall through.
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
-	if (e) {
-		goto l_cleanup;
+	/* Leaves don't have any of these. */
+	if (trieNode->value.nodes_name_lengths != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes_name != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
 	trieNode->index = -1;
-- 
2.43.0


From 174c544a11ebd2a60e997c5e8c3a63c4039f9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 75/87] fix: heapsort of nothing does not terminate

---
 DuckLib/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/sort.c b/DuckLib/sort.c
index 8cb341d..878e716 100644
--- a/DuckLib/sort.c
+++ b/DuckLib/sort.c
@@ -29,7 +29,7 @@ void max_heapify(void *array, const dl_size_t length, dl_size_t size, const dl_p
 }
 
 void heapify(void *array, dl_size_t length, dl_size_t size, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
-	for (dl_ptrdiff_t i = (length - 1)/2; i >= 0; --i) {
+	for (dl_ptrdiff_t i = ((dl_ptrdiff_t) length - 1)/2; i >= 0; --i) {
 		/**/ max_heapify(array, length, size, i, comparison, context);
 	}
 }
-- 
2.43.0


From 5705f440247d014d169540da6d221a254f5599d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 76/87] fix: `=` on operands more than 255 elements down reads
 its operands twice

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index 8ac1fe3..cc23070 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2857,6 +2857,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From 6da265993bdd4d5efbec7af042058e231a91ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 77/87] fix: `set-vector-element` of a value more than 255
 elements down sets the wrong value

---
 assembler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index a3ec349..bd9d515 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1430,12 +1430,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt16;
 					byte_length = 2;
 				}
-- 
2.43.0


From eb8b538b5f595674157224058fd8e5cb019c0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 78/87] fix: `vector` of variables more than 255 elements down
 has the wrong elements

---
 assembler.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index bd9d515..3510aba 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1300,11 +1300,17 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_vector: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
-				if ((unsigned long) args[0].value.index < 0x100UL) {
+				/* The number of elements and the elements all have the same width. */
+				dl_size_t largest = 0;
+				DL_DOTIMES(k, instruction.args.elements_length) {
+					dl_size_t arg = args[k].value.index;
+					largest = dl_max(largest, arg);
+				}
+				if (largest < 0x100UL) {
 					currentInstruction.byte = duckLisp_instruction_vector8;
 					byte_length = 1;
 				}
-				else if ((unsigned int) args[0].value.index < 0x10000UL) {
+				else if (largest < 0x10000UL) {
 					currentInstruction.byte = duckLisp_instruction_vector16;
 					byte_length = 2;
 				}
-- 
2.43.0


From 1586d33611060d6d905cc29225b02209f4f48cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 79/87] fix: calling a host function whose global has been
 assigned jumps to that value

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index cc23070..35c8099 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1662,6 +1662,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			if (global->type != duckVM_object_type_function) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->c-call: Global is not a callback."));
+				if (eError) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From dcb64963516d4ad22bfc163963d8318b9ac67571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 80/87] fix: the garbage collector frees parts of the syntax
 tree that `read` or a declaration script is given

---
 duckLisp.c | 58 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 70b9d4e..b54e594 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -841,9 +841,15 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 	case duckLisp_ast_type_expression:
 		/* Fall through */
 	case duckLisp_ast_type_literalExpression: {
-		duckVM_object_t *tailPointer = dl_null;
+		/* Everything made so far is kept on the stack, where the garbage collector can see it. */
+		e = duckVM_pushNil(duckVM);
+		if (e) break;
+		/* stack: tail */
 		DL_DOTIMES(j, ast.value.expression.compoundExpressions_length) {
 			duckVM_object_t head;
+			e = duckVM_pushCons(duckVM);
+			if (e) break;
+			/* stack: tail (()) */
 			e = duckLisp_astToObject(duckLisp,
 			                         duckVM,
 			                         &head,
@@ -852,15 +858,30 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 			                           - 1
 			                           - j]));
 			if (e) break;
-			duckVM_object_t *headPointer;
-			e = duckVM_allocateHeapObject(duckVM, &headPointer, head);
+			e = duckVM_object_push(duckVM, &head);
+			if (e) break;
+			/* stack: tail (()) head */
+			e = duckVM_setFirst(duckVM, -2);
+			if (e) break;
+			/* stack: tail (head) head */
+			e = duckVM_pop(duckVM);
+			if (e) break;
+			e = duckVM_push(duckVM, -2);
+			if (e) break;
+			/* stack: tail (head) tail */
+			e = duckVM_setRest(duckVM, -2);
+			if (e) break;
+			/* stack: tail (head . tail) tail */
+			e = duckVM_pop(duckVM);
+			if (e) break;
+			e = duckVM_copyFromTop(duckVM, -2);
 			if (e) break;
-			duckVM_object_t tail = duckVM_object_makeCons(headPointer, tailPointer);
-			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			e = duckVM_pop(duckVM);
 			if (e) break;
+			/* stack: (head . tail) */
 		}
-		object->type = duckVM_object_type_list;
-		object->value.list = tailPointer;
+		if (e) break;
+		e = duckVM_object_pop(duckVM, object);
 		break;
 	}
 	case duckLisp_ast_type_identifier:
@@ -1572,27 +1593,34 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 			if (e) goto cleanupString;
 		}
 
+		/* Push the AST first so that the garbage collector can see it. */
+		e = duckVM_object_push(duckVM, &astObject);
+		if (e) goto cleanupString;
+		/* stack: ast */
 		e = duckVM_pushCons(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) */
+		/* stack: ast (()) */
 		e = duckVM_pushInteger(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) 0 */
+		/* stack: ast (()) 0 */
 		e = duckVM_setInteger(duckVM, status);
 		if (e) goto cleanupString;
-		/* stack: (()) status */
+		/* stack: ast (()) status */
 		e = duckVM_setRest(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) status */
+		/* stack: ast (() . status) status */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (() . status) */
-		e = duckVM_object_push(duckVM, &astObject);
+		e = duckVM_push(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) ast */
+		/* stack: ast (() . status) ast */
 		e = duckVM_setFirst(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (ast . status) ast */
+		/* stack: ast (ast . status) ast */
+		e = duckVM_pop(duckVM);
+		if (e) goto cleanupString;
+		e = duckVM_copyFromTop(duckVM, -2);
+		if (e) goto cleanupString;
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
 		/* stack: (ast . status) */
-- 
2.43.0


From 6980afb94a8c3b6c37f129d213d18305eb544235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 81/87] fix: `read` without a string reads an uninitialised
 variable

---
 duckLisp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckLisp.c b/duckLisp.c
index b54e594..013e268 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1541,6 +1541,7 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 #endif /* USE_PARENTHESIS_INFERENCE */
 
 	e = duckVM_typeOf(duckVM, &stringObject_type);
+	if (e) goto cleanup;
 	if (duckVM_object_type_string != stringObject_type) {
 		e = dl_error_invalidValue;
 		eError = duckVM_error_pushRuntime(duckVM, DL_STR("First argument of \"read\" should be a string."));
-- 
2.43.0


From 076e0049dc876e34fe22e2f0f3f7b154f76ef571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 82/87] fix: an endless `while` in a branch makes the form
 around it use the wrong values

---
 generators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators.c b/generators.c
index 6852bb2..b39fc17 100644
--- a/generators.c
+++ b/generators.c
@@ -2205,6 +2205,9 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 		                       gensym_start.value,
 		                       gensym_start.value_length);
 		if (e) goto free_gensym_start;
+		/* Never executed, but the surrounding form expects a value here. */
+		e = duckLisp_emit_nil(duckLisp, compileState, assembly);
+		if (e) goto free_gensym_start;
 
 		goto free_gensym_start;
 	}
-- 
2.43.0


From 07d0cbdc317e1f1b14764a086ff7a8a99867f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:44 +0000
Subject: [PATCH 83/87] fix: disassemble vectors and stripped symbols with the
 operands they have

---
 assembler.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/assembler.c b/assembler.c
index 3510aba..caa53a2 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2887,9 +2887,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushSymbol8, DL_STR("symbol.8 1 1 s1")},
 		{duckLisp_instruction_pushSymbol16, DL_STR("symbol.16 2 2 s1")},
 		{duckLisp_instruction_pushSymbol32, DL_STR("symbol.32 4 4 s1")},
-		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1 1 s1")},
-		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2 2 s1")},
-		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4 4 s1")},
+		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1")},
+		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2")},
+		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4")},
 		{duckLisp_instruction_pushBooleanFalse, DL_STR("false")},
 		{duckLisp_instruction_pushBooleanTrue, DL_STR("true")},
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
@@ -2974,9 +2974,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_cons8, DL_STR("cons.8 1 1")},
 		{duckLisp_instruction_cons16, DL_STR("cons.16 2 2")},
 		{duckLisp_instruction_cons32, DL_STR("cons.32 4 4")},
-		{duckLisp_instruction_vector8, DL_STR("vector.8 1 V0")},
-		{duckLisp_instruction_vector16, DL_STR("vector.16 2 V0")},
-		{duckLisp_instruction_vector32, DL_STR("vector.32 4 V0")},
+		{duckLisp_instruction_vector8, DL_STR("vector.8 1 v0")},
+		{duckLisp_instruction_vector16, DL_STR("vector.16 2 v0")},
+		{duckLisp_instruction_vector32, DL_STR("vector.32 4 v0")},
 		{duckLisp_instruction_makeVector8, DL_STR("makeVector.8 1 1")},
 		{duckLisp_instruction_makeVector16, DL_STR("makeVector.16 2 2")},
 		{duckLisp_instruction_makeVector32, DL_STR("makeVector.32 4 4")},
-- 
2.43.0


From 9f1d85c1c67a23c6bd73880525ad47b3febd73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:44 +0000
Subject: [PATCH 84/87] fix: name the 16- and 32-bit global instructions in
 disassemblies

---
 assembler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index caa53a2..a3a24c7 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2909,8 +2909,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushVaClosure16, DL_STR("variadic-closure.16 2 1 4 V2")},
 		{duckLisp_instruction_pushVaClosure32, DL_STR("variadic-closure.32 4 1 4 V2")},
 		{duckLisp_instruction_pushGlobal8, DL_STR("global.8 1")},
-		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
-		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
+		{duckLisp_instruction_pushGlobal16, DL_STR("global.16 2")},
+		{duckLisp_instruction_pushGlobal32, DL_STR("global.32 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
 		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
 		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
-- 
2.43.0


From b63e67c7832ff0857d98b1cf8c1facc8dbdca916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:31 +0000
Subject: [PATCH 85/87] fix: symbol-string and concatenate of a symbol without
 a name read through a null pointer

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 35c8099..e013710 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4296,7 +4296,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-		object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		/* The symbol might not have a name. */
+		object2.value.string.length = (object1.value.symbol.internalString
+		                               ? object1.value.symbol.internalString->value.internalString.value_length
+		                               : 0);
 		e = stack_push(duckVM, &object2);
 		if (e) break;
 		break;
@@ -4512,7 +4515,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					                  + object1.value.string.offset);
 				}
 			}
-			else {
+			else if (object1.value.symbol.internalString != dl_null) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
@@ -4523,7 +4526,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					                  + object2.value.string.offset);
 				}
 			}
-			else {
+			else if (object2.value.symbol.internalString != dl_null) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
-- 
2.43.0


From 9c1e2e03eee69c0354b82891fa3824528b3fd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 86/87] fix: a symbol without a name as the result of a macro
 read through a null pointer

---
 duckLisp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 013e268..1ef2b53 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -798,6 +798,11 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		}
 		break;
 	case duckVM_object_type_symbol:
+		if (object->value.symbol.internalString == dl_null) {
+			/* A symbol without a name can't be an identifier. */
+			e = dl_error_invalidValue;
+			break;
+		}
 		ast->value.identifier.value_length = object->value.symbol.internalString->value.internalString.value_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &ast->value.identifier.value,
-- 
2.43.0


From 82f6c307fcb0eacefbe702e9fa935d4243c81fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:18 +0000
Subject: [PATCH 87/87] fix: an `if` with a branch without a value is an error
 instead of a broken program

---
 generators.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators.c b/generators.c
index b39fc17..c83507e 100644
--- a/generators.c
+++ b/generators.c
@@ -2830,6 +2830,9 @@ dl_error_t duckLisp_generator_if(duckLisp_t *duckLisp,
 		pops = duckLisp_localsLength_get(compileState) - startStack_length - 1;
 		if (pops < 0) {
 			e = dl_array_pushElements(&eString, DL_STR("if: \"else\" part of expression contains an invalid form"));
+			if (e) goto free_gensym_end;
+			eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
+			e = eError ? eError : dl_error_invalidValue;
 		}
 		else {
 			e = duckLisp_emit_move(duckLisp,
@@ -2863,6 +2866,9 @@ dl_error_t duckLisp_generator_if(duckLisp_t *duckLisp,
 		pops = duckLisp_localsLength_get(compileState) - startStack_length - 1;
 		if (pops < 0) {
 			e = dl_array_pushElements(&eString, DL_STR("if: \"then\" part of expression contains an invalid form"));
+			if (e) goto free_gensym_end;
+			eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
+			e = eError ? eError : dl_error_invalidValue;
 		}
 		else {
 			e = duckLisp_emit_move(duckLisp,
-- 
2.43.0

