From ab446f5680acfda19e1a18c2e1f5a6b8055b73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 01/35] fix: circular_buf_size counts one element too many when
 the buffer is full

A full buffer holds bufsize - 1 elements, but bufsize was reported; gets, peek
and drop trust that number and ran past the newest element (and past head).
---
 gel/collections/circular_buffer.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..b11954c 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,19 +108,13 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
-
-    int tail = cbuf->tail;
-    int head = cbuf->head;
-    if (!is_circular_buf_full(cbuf)) {
-        if (head >= tail) {
-            size = (head - tail);
-        } else {
-            size = (cbuf->bufsize + head - tail);
-        }
+    size_t tail = cbuf->tail;
+    size_t head = cbuf->head;
+    if (head >= tail) {
+        return head - tail;
+    } else {
+        return cbuf->bufsize + head - tail;
     }
-
-    return size;
 }
 
 size_t circular_buf_capacity(circular_buf_t *cbuf) {
-- 
2.43.0


From 44e06a0bab4a6e1f960a16398491dd70dd265031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 02/35] fix: circular_buf_puts empties a wrapped buffer when
 len is exactly tail - head

Writing tail - head elements makes head reach tail, which reads as an empty
buffer: every queued element was lost. One slot must stay free.
---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index b11954c..e4d823a 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -160,7 +160,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len > tail - head - 1 ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From fe942de935d2f187fd5b50354bd6dcc99f50344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 03/35] fix: circular_buf_puts spins forever when the consumer
 frees space meanwhile

The loop condition reads the current tail, the chunk was computed from the tail
read before the loop: once the old free space was used up the chunk was 0 while
the buffer was not full.
---
 gel/collections/circular_buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index e4d823a..aa56222 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -151,9 +151,10 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+        // The consumer may have moved the tail since the last chunk
+        tail = cbuf->tail;
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From dfc5c4a06b7c0074f941142c4063c7f4e90ce8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 04/35] fix: stack peek returns the slot above the top of the
 stack

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From c54dc90060bcbe1c47f5f8b14dfd46b2e72aeea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 05/35] fix: queue count is wrong while the write index has
 wrapped and the read index has not

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 32341242384c6378d796ab5a7cc6b40d7140674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 06/35] fix: debounce_filter_set keeps the pending counts of
 the previous state

A change that was being counted when the state was forced made the next change
of that input go through early.
---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..4ae2141 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 12ed288a8da4eef572749a9274356775bfa4b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 07/35] fix: pulse_filter_init leaves the debounce counters
 uninitialised

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From 4007b350239b8ae8fcd40fe3ca61de06f5619ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 08/35] fix: parameter_get_count leaves out the free access
 parameters

parameter_get_handle enumerates them, so the last handles could not be reached
by an index below the count.
---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..ec1c2f3 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || (ps[i].access_level & al) > 0)
             count++;
     }
 
-- 
2.43.0


From c3e3d5a16913e1d21e5298941eb07f6804488d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 09/35] fix: parameter_to_long loses the sign of int8_t
 parameters

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index ec1c2f3..0bd6921 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From 339c8cc675baed6ccff561d3cafce4de07414143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 10/35] fix: the limits of 64 bit parameters are truncated to
 32 bits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From 6634e7c41f1561299e38a857bd5fc8b37ea46f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 11/35] fix: a NaN passes the range checks of floating point
 parameters

---
 gel/parameter/parameter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 0bd6921..8104528 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -19,7 +19,7 @@
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
         int  res = 0;                                                                                                  \
-        if (newv > max)                                                                                                \
+        if (!(newv <= max)) /* also true for NaN */                                                                    \
             res = 1;                                                                                                   \
         else if (newv < min)                                                                                           \
             res = -1;                                                                                                  \
@@ -33,7 +33,7 @@
         TYPE  min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                   \
         TYPE  max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                   \
         int   res = 0;                                                                                                 \
-        if (*var > max)                                                                                                \
+        if (!(*var <= max)) /* also true for NaN */                                                                    \
             res = 1;                                                                                                   \
         else if (*var < min)                                                                                           \
             res = -1;                                                                                                  \
-- 
2.43.0


From edd086b40804b4b82750a4615cab716ac0f5a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 12/35] fix: parameter_operator truncates the new value before
 checking it against the range

E.g. a uint8_t of 250 in 0..255 increased by 10 became 4 instead of wrapping to
the minimum, and one of 5 in 0..200 decreased by 100 became 161.
---
 gel/parameter/parameter.c | 56 +++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 8104528..1cf04b4 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -41,22 +41,44 @@
     })
 
 
-#define APPLY_OPERATOR(p, TYPE, name, mod)                                                                             \
+#define STORE_IN_RANGE(p, TYPE, name, newv, valid, mod)                                                                \
     {                                                                                                                  \
-        TYPE *var  = (TYPE *)p.pointer;                                                                                \
-        TYPE  min  = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                  \
-        TYPE  max  = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                  \
-        TYPE  newv = *var + p.step.name * (mod);                                                                       \
-        int   res  = CHECK_RANGE_AGAINST(p, newv, TYPE, name);                                                         \
+        TYPE *var = (TYPE *)p.pointer;                                                                                 \
+        TYPE  min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                   \
+        TYPE  max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                   \
+        int   res = !(valid) || CHECK_RANGE_AGAINST(p, newv, TYPE, name);                                              \
         if (res != 0 && mod > 0)                                                                                       \
             *var = min;                                                                                                \
         else if (res != 0 && mod < 0)                                                                                  \
             *var = max;                                                                                                \
-        else                                                                                                           \
+        else if (res == 0)                                                                                             \
             *var = newv;                                                                                               \
     }
 
 
+/* WIDE should be able to hold the result for every value of TYPE, so that it is compared before being truncated */
+#define APPLY_OPERATOR(p, TYPE, WIDE, name, mod)                                                                       \
+    {                                                                                                                  \
+        WIDE newv = (WIDE)(*(TYPE *)p.pointer) + (WIDE)p.step.name * (mod);                                            \
+        STORE_IN_RANGE(p, TYPE, name, newv, 1, mod);                                                                   \
+    }
+
+
+/* No wider type for these, a result that does not fit is out of range by definition */
+#define APPLY_OPERATOR_64(p, TYPE, name, mod)                                                                          \
+    {                                                                                                                  \
+        TYPE oldv = *(TYPE *)p.pointer, newv = 0, delta = 0;                                                           \
+        int  overflow;                                                                                                 \
+        if (mod < 0)                                                                                                   \
+            overflow = __builtin_mul_overflow(p.step.name, -(int64_t)(mod), &delta) ||                                 \
+                       __builtin_sub_overflow(oldv, delta, &newv);                                                     \
+        else                                                                                                           \
+            overflow =                                                                                                 \
+                __builtin_mul_overflow(p.step.name, (mod), &delta) || __builtin_add_overflow(oldv, delta, &newv);      \
+        STORE_IN_RANGE(p, TYPE, name, newv, !overflow, mod);                                                           \
+    }
+
+
 #define GET_RANGE(p, TYPE, name)                                                                                       \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
@@ -300,43 +322,43 @@ int parameter_operator(parameter_handle_t *handle, int mod) {
     if (handle) {
         switch (handle->type) {
             case PARAMETER_TYPE_UINT8:
-                APPLY_OPERATOR((*handle), uint8_t, u8, mod);
+                APPLY_OPERATOR((*handle), uint8_t, int64_t, u8, mod);
                 break;
             case PARAMETER_TYPE_INT8:
-                APPLY_OPERATOR((*handle), int8_t, i8, mod);
+                APPLY_OPERATOR((*handle), int8_t, int64_t, i8, mod);
                 break;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
-                APPLY_OPERATOR((*handle), uint16_t, u16, mod);
+                APPLY_OPERATOR((*handle), uint16_t, int64_t, u16, mod);
                 break;
             case PARAMETER_TYPE_INT16:
-                APPLY_OPERATOR((*handle), int16_t, i16, mod);
+                APPLY_OPERATOR((*handle), int16_t, int64_t, i16, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_UINT32:
-                APPLY_OPERATOR((*handle), uint32_t, u32, mod);
+                APPLY_OPERATOR((*handle), uint32_t, int64_t, u32, mod);
                 break;
             case PARAMETER_TYPE_INT32:
-                APPLY_OPERATOR((*handle), int32_t, i32, mod);
+                APPLY_OPERATOR((*handle), int32_t, int64_t, i32, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_UINT64:
-                APPLY_OPERATOR((*handle), uint64_t, u64, mod);
+                APPLY_OPERATOR_64((*handle), uint64_t, u64, mod);
                 break;
             case PARAMETER_TYPE_INT64:
-                APPLY_OPERATOR((*handle), int64_t, i64, mod);
+                APPLY_OPERATOR_64((*handle), int64_t, i64, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                APPLY_OPERATOR((*handle), float, f, mod);
+                APPLY_OPERATOR((*handle), float, float, f, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                APPLY_OPERATOR((*handle), double, d, mod);
+                APPLY_OPERATOR((*handle), double, double, d, mod);
                 break;
 #endif
         }
-- 
2.43.0


From d5b6c853a30c56ce976a841b4f3578290c072a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 13/35] fix: parameter_get_total_values overflows for wide 32
 and 64 bit ranges

---
 gel/parameter/parameter.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 1cf04b4..f397472 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -79,7 +79,16 @@
     }
 
 
+/* Not computed in TYPE, the range may be too wide for it */
 #define GET_RANGE(p, TYPE, name)                                                                                       \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        (size_t)max - (size_t)min + 1;                                                                                 \
+    })
+
+
+#define GET_RANGE_FLOAT(p, TYPE, name)                                                                                 \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
@@ -557,12 +566,12 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                len = GET_RANGE((*handle), float, f);
+                len = GET_RANGE_FLOAT((*handle), float, f);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                len = GET_RANGE((*handle), double, d);
+                len = GET_RANGE_FLOAT((*handle), double, d);
                 break;
 #endif
         }
-- 
2.43.0


From 1193aa6a7462d4af7ca27a4313dab51784485f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 14/35] fix: pid_add_input leaves an old error in the integral
 window when the error is zero

The slot is consumed but not written: the error of one whole window ago stayed
in the integral instead of leaving it.
---
 gel/pid/pid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..65ececd 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,8 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From c98d71c1fff4a8c9c07bc32e9f665ab28ab09ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 15/35] fix: watcher_clear_changes does not clear the changes
 that wait for their delay

The callback of a delayed watcher still fired after its change was cleared, if
watcher_process_changes had already seen that change.
---
 gel/data_structures/watcher.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/data_structures/watcher.c b/gel/data_structures/watcher.c
index 089a0f5..8e621ff 100644
--- a/gel/data_structures/watcher.c
+++ b/gel/data_structures/watcher.c
@@ -40,10 +40,12 @@ void watcher_clear_changes(watcher_t *list, unsigned long timestamp) {
     size_t i = 0;
 
     while (list[i].current) {
+        // A change already seen by watcher_process_changes may be waiting for its delay
+        list[i].moved = 0;
+
         if (memcmp((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size)) {
             if (list[i].delay > 0) {
                 list[i].timestamp = timestamp;
-                list[i].moved     = 0;
             }
 
             memcpy((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size);
-- 
2.43.0


From fd0a5f290846a03f9e46627ca3564239d27e5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 16/35] fix: the scheduler compares truncated values to choose
 between equal entries

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..b927fcf 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -113,7 +113,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From d91181a2f093038c38b70b52a721022fb801ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 17/35] fix: disabled scheduler entries show up in the active
 map and have a remaining duration

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b927fcf..b34af47 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -87,7 +87,7 @@ int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)
 
 
 static uint8_t is_entry_active(const scheduler_entry_t *entry, struct tm *tm_info) {
-    if (!is_day_included(entry->days, tm_info->tm_wday)) {
+    if (!entry->enabled || !is_day_included(entry->days, tm_info->tm_wday)) {
         return 0;
     }
 
-- 
2.43.0


From 0fdab10350faea8427f8719a89aa6b6e43d46f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 18/35] fix: the remaining duration of an inverted schedule is
 one day too long after midnight

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b34af47..089a0f8 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -224,6 +224,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // Inverted schedule, in the part after midnight
+    if (end > seconds_in_day && current < entry->start_second) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 1c93e6785e3ab3b326a555056d6a98b20235df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 19/35] fix: the scheduler does not compile with
 GEL_SCHEDULER_DYNAMIC_ENTRIES

---
 gel/scheduler/scheduler.c | 3 ++-
 gel/scheduler/scheduler.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 089a0f8..403aa30 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -30,7 +30,8 @@ void scheduler_init(scheduler_t *scheduler
 ) {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
     scheduler->entries = (scheduler_entry_t *)malloc(sizeof(scheduler_entry_t) * entries);
-    assert(scheduler->entries != NULL) scheduler->num_entries = entries;
+    assert(scheduler->entries != NULL);
+    scheduler->num_entries = entries;
 #endif
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
diff --git a/gel/scheduler/scheduler.h b/gel/scheduler/scheduler.h
index 6757196..a1411e6 100644
--- a/gel/scheduler/scheduler.h
+++ b/gel/scheduler/scheduler.h
@@ -36,8 +36,8 @@ typedef struct {
 
 typedef struct {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
-    size_t            num_entries;
-    schedule_entry_t *entries;
+    size_t             num_entries;
+    scheduler_entry_t *entries;
 #else
     scheduler_entry_t entries[GEL_SCHEDULER_MAX_ENTRIES];
 #endif
-- 
2.43.0


From 378b49f8441e3b4e8da353b5e743161fe2f322e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 20/35] fix: scheduler_zero_entry is declared but not defined

---
 gel/scheduler/scheduler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 403aa30..2eb7335 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -68,6 +68,13 @@ int scheduler_set_entry(scheduler_t *scheduler, size_t entry_index, scheduler_en
 }
 
 
+void scheduler_zero_entry(scheduler_t *scheduler, size_t entry_index) {
+    if (entry_index < NUM_ENTRIES(scheduler)) {
+        memset(&scheduler->entries[entry_index], 0, sizeof(scheduler_entry_t));
+    }
+}
+
+
 uint8_t scheduler_is_schedule_entry_enabled(scheduler_t *scheduler, size_t entry_index) {
     if (entry_index >= NUM_ENTRIES(scheduler)) {
         return -1;
-- 
2.43.0


From 9ea762c0ec0e04f75e2fd1fd5ad13d71e146cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 21/35] fix: time comparisons never see a wrap around with a
 timestamp narrower than long

GEL_CUSTOM_TIMESTAMP_TYPE may be e.g. uint16_t or uint32_t, whose differences
became positive longs.
---
 gel/timer/timecheck.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..b9584af 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,8 +24,16 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+// Sign bit of a difference, whatever the width of the timestamp is
+#define time_is_negative(x) ((((x) >> (sizeof(timestamp_t) * 8 - 1)) & 1) != 0)
+
+#define time_after(a, b)                                                                                               \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && time_is_negative((timestamp_t)((b) - (a))))
+#define time_after_or_equal(a, b)                                                                                      \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ({                                                      \
+         timestamp_t __diff = (b) - (a);                                                                               \
+         __diff == 0 || time_is_negative(__diff);                                                                      \
+     }))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
-- 
2.43.0


From 8b3611d715803c6f56ae41afa54912db5340b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 22/35] fix: GEL_TIMER_NULL initialises a field that does not
 exist

---
 gel/timer/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..3ae0367 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
-- 
2.43.0


From 61aa3505525b01cacce920aef69522afb4e43f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 23/35] fix: gel_timer_get_remaining is not declared in its
 header

---
 gel/timer/timer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index 3ae0367..28b45ed 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -33,5 +33,6 @@ void         gel_timer_pause(gel_timer_t *timer, unsigned long timestamp);
 void         gel_timer_resume(gel_timer_t *timer, unsigned long timestamp);
 void         gel_timer_reset(gel_timer_t *timer, unsigned long timestamp);
 void         gel_timer_change_period(gel_timer_t *timer, unsigned long period, unsigned long timestamp);
+unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp);
 
 #endif
-- 
2.43.0


From e081e85807bb858473a85807675665d9780b72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 24/35] fix: a failed wearleveling_write switches to the block
 that was not written

The following reads returned whatever that block contained instead of the last
data stored successfully.
---
 gel/wearleveling/wearleveling.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..39be80d 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,15 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(block, marker, buffer, len))) {
+            return res;
+        }
+
+        wlm->last_marker       = marker;
+        wlm->last_active_block = block;
     }
     return 0;
 }
-- 
2.43.0


From add844e15507fe4eee78a400e174e49d6b907792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 25/35] fix: wearleveling_init goes back to the first block
 when the last one is active

After the first lap of the page the markers are all in sequence: the data of the
last block is the current one, block 0 holds the oldest.
---
 gel/wearleveling/wearleveling.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 39be80d..37c9bdd 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -121,11 +121,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
-    // Return the index of the last active marker
+    // If all the blocks are in sequence the last one of the page is the active one. Return the index of the last active marker
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From 7369405cb2a8f1cd686bf84371937ebcccb61a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 26/35] fix: wearleveling_init takes a marker read error for a
 block index

The error is returned and no block outside of the page is ever accessed.
---
 gel/wearleveling/wearleveling.c | 21 ++++++++++++++-------
 gel/wearleveling/wearleveling.h |  4 ++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 37c9bdd..4b051f3 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -21,7 +21,7 @@
 #define NEXT_BLOCK(x, mod) ((x + 1) % mod)
 
 
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker);
+static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker, size_t *last_block);
 
 
 /**
@@ -76,16 +76,20 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
  * @param write_block Function to write a specific block of memory (and marker)
  * @param read_marker Function to read the marker of a block
  * @param blocks_in_page Number of blocks in page
+ * @return int 0 if everything was ok, something else otherwise
  */
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page) {
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page) {
     assert(blocks_in_page < MAX_BLOCKS_IN_PAGE);
     wlm->read_block     = read_block;
     wlm->write_block    = write_block;
     wlm->read_marker    = read_marker;
     wlm->blocks_in_page = blocks_in_page;
 
-    wlm->last_active_block = search_last(wlm, &wlm->last_marker);
+    wlm->last_active_block = 0;
+    wlm->last_marker       = 0;
+
+    return search_last(wlm, &wlm->last_marker, &wlm->last_active_block);
 }
 
 
@@ -93,9 +97,11 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
+ * @param last_marker Marker of the last used block
+ * @param last_block Index of the last used block, not changed in case of error
  * @return int 0 if everything was ok, something else otherwise
  */
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
+static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker, size_t *last_block) {
     uint8_t marker;
     int     err;
 
@@ -121,6 +127,7 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    // If all the blocks are in sequence the last one of the page is the active one. Return the index of the last active marker
-    return i - 1;
+    // The last active block; if all of them are in sequence it is the last one of the page
+    *last_block = i - 1;
+    return 0;
 }
\ No newline at end of file
diff --git a/gel/wearleveling/wearleveling.h b/gel/wearleveling/wearleveling.h
index ac2a353..796c3db 100755
--- a/gel/wearleveling/wearleveling.h
+++ b/gel/wearleveling/wearleveling.h
@@ -29,8 +29,8 @@ int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
 int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page);
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page);
 
 
 #endif
-- 
2.43.0


From d50e2da93f4ce58b5c9078e290240dc63bd93303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 27/35] fix: circular_event_log_load_last_events overflows when
 asked for a huge number of events

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From 57a8b7164ac1aa2592b2a7e3be45e796494619b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 28/35] fix: circular_event_log_load_last_events hides an error
 of the second read

The error code was added to the number of events of the first read.
---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..c0dc03a 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From d7b2487effa99a474b00ff1b61269e349209ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 29/35] fix: STRUCT_UPDATE_ARRAY miscalculates the size when
 the length is an expression

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..de0318e 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), array, sizeof((array)[0]) * (length));
 
 
 typedef struct {
-- 
2.43.0


From ba4d6bdcc031370742b1e4b4af765d8665365967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 30/35] fix: the page manager does not compile, its
 declarations are disabled

---
 gel/pagemanager/page_manager.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..a4716d5 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -144,6 +142,5 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found);
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
-#endif
 
 #endif
-- 
2.43.0


From 2fa13ca2041f9518293cd9c94e29bc655ed5b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 31/35] fix: pman_change_page does not save the current page
 when compiled with NDEBUG

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..9504ebc 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -170,7 +170,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t res = navigation_stack_push(&pman->page_stack, current);
+        assert(res != PUSH_RESULT_FULL);
+        (void)res;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From 82d7b2bee405d4f66010667d596528a63fe1466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 32/35] fix: the page manager closes and destroys a page that
 is not there

Swapping, rebasing or resetting before the first page was shown called the
callbacks of an uninitialised page; doing it after a pman_reset_to_page that did
not find its page closed and destroyed the last page a second time. The swapped or
rebased page was not recorded as present either, so it was not saved by the next
pman_change_page.
---
 gel/pagemanager/page_manager.c | 49 +++++++++++++++-------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 9504ebc..c040442 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -22,6 +22,22 @@ static void clear_page_stack(page_manager_t *pman) {
 }
 
 
+// Closes and destroys the current page, if there is one
+static void close_current_page(page_manager_t *pman) {
+    pman_page_t *current = &pman->current_page;
+
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
+        pman->initialized = 0;
+    }
+}
+
+
 void pman_init(page_manager_t *pman) {
     pman->initialized = 0;
     navigation_stack_init(&pman->page_stack);
@@ -35,15 +51,9 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 
 
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
-    pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    close_current_page(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -74,18 +84,9 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 
 
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
+    close_current_page(pman);
     pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
-    // Deinitialize the stack, we currently have no page
-    pman->initialized = 0;
-
-    pman_page_t page;
+    pman_page_t  page;
 
     while (navigation_stack_pop(&pman->page_stack, &page) == POP_RESULT_SUCCESS) {
         if (page.id == id) {
@@ -117,17 +118,11 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 
 
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
-    pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    close_current_page(pman);
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From 5946e71ebb9462e1aea3360edea12239b014c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 33/35] fix: the PACK and UNPACK macros capture variables named
 tmp or size of the caller

E.g. PACK_UINT8(&buffer[size], value) used an uninitialised size.
---
 gel/serializer/serializer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..6710eb8 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -16,41 +16,41 @@
 
 #define UNPACK_UINT16_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint16_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint16_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint16_t _tmp;                                                                                                 \
+        size_t   _size = deserialize_uint16_be(&_tmp, (buffer));                                                       \
+        (var)         = _tmp;                                                                                          \
+        _size;                                                                                                         \
     })
 
 #define UNPACK_UINT32_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint32_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint32_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint32_t _tmp;                                                                                                 \
+        size_t   _size = deserialize_uint32_be(&_tmp, (buffer));                                                       \
+        (var)         = _tmp;                                                                                          \
+        _size;                                                                                                         \
     })
 
 #define UNPACK_UINT8(var, buffer)                                                                                      \
     ({                                                                                                                 \
-        uint8_t tmp;                                                                                                   \
-        size_t  size = deserialize_uint8(&tmp, (buffer));                                                              \
-        (var)        = tmp;                                                                                            \
-        size;                                                                                                          \
+        uint8_t _tmp;                                                                                                  \
+        size_t  _size = deserialize_uint8(&_tmp, (buffer));                                                            \
+        (var)        = _tmp;                                                                                           \
+        _size;                                                                                                         \
     })
 
 
 #define PACK_UINT16_BE(buffer, var)                                                                                    \
     ({                                                                                                                 \
-        uint16_t tmp  = (uint16_t)(var);                                                                               \
-        size_t   size = serialize_uint16_be((buffer), tmp);                                                            \
-        size;                                                                                                          \
+        uint16_t _tmp  = (uint16_t)(var);                                                                              \
+        size_t   _size = serialize_uint16_be((buffer), _tmp);                                                          \
+        _size;                                                                                                         \
     })
 
 #define PACK_UINT8(buffer, var)                                                                                        \
     ({                                                                                                                 \
-        uint8_t tmp  = (uint8_t)(var);                                                                                 \
-        size_t  size = serialize_uint8((buffer), tmp);                                                                 \
-        size;                                                                                                          \
+        uint8_t _tmp  = (uint8_t)(var);                                                                                \
+        size_t  _size = serialize_uint8((buffer), _tmp);                                                               \
+        _size;                                                                                                         \
     })
 
 
-- 
2.43.0


From ec2f070ce64db18233e1e97b4022841204354eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 34/35] fix: a key passed over while another one was released
 stays reported as pressed

---
 gel/keypad/keypad.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gel/keypad/keypad.c b/gel/keypad/keypad.c
index 2c8ed7d..0fb74aa 100755
--- a/gel/keypad/keypad.c
+++ b/gel/keypad/keypad.c
@@ -34,6 +34,10 @@ keypad_update_t keypad_routine(keypad_key_t *keys, unsigned long click, unsigned
             event.code = keys[i].code;
             break;
         }
+        // The key is not pressed and has nothing to report
+        else {
+            keys[i]._state.value = 0;
+        }
         i++;
     }
 
-- 
2.43.0


From 71049a820e60d9d43d91de8b16e8839167d12277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 35/35] fix: debounce.c keeps its line endings

---
 gel/debounce/debounce.c | 110 ++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 4ae2141..b5318a3 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,55 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    filter->old_input = set;
-    filter->buffered  = set;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
-}
\ No newline at end of file
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
+}
\ No newline at end of file
-- 
2.43.0

