From b7d281edb9be32606be50ff8e2a20518e4b31a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:20 +0000
Subject: [PATCH 01/12] fix: keep sibling and tail links intact when a value is
 moved out of its parent

---
 beta/zzzjson_beta.h | 4 ++--
 zzzjson.h           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index af7ede7..0cf236b 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1886,15 +1886,15 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
     --(v->N->Father->Len);
+    v->N->Prev = 0;
+    v->N->Next = 0;
     v->N->Father = 0;
   }
   return z_True;
diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..4ead49f 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2176,15 +2176,15 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
     --(v->N->Father->Len);
+    v->N->Prev = 0;
+    v->N->Next = 0;
     v->N->Father = 0;
   }
   return true;
-- 
2.43.0


From 3cf76ea48e94e8aed69d84fe5f32910a579f32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:20 +0000
Subject: [PATCH 02/12] fix: Set must take the tail of the copy, not of the
 source container

---
 beta/zzzjson_beta.h | 2 +-
 zzzjson.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 0cf236b..07a1813 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -2285,7 +2285,7 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct z_Node *next = v->N->Value.Node;
     while (z_LIKELY(next != 0)) {
       next->Father = v->N;
diff --git a/zzzjson.h b/zzzjson.h
index 4ead49f..ea9ad0a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2628,7 +2628,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From c4b87f8ca0366e62098eb2b70f4fdac61288e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:20 +0000
Subject: [PATCH 03/12] fix: accept escaped code points U+E000..U+FFFF in the
 string and key setters

---
 beta/zzzjson_beta.h | 2 +-
 zzzjson.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 07a1813..01c6ce0 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -965,7 +965,7 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
         if (z_LIKELY(z_ConsumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return z_False;
           if (z_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (z_LIKELY(z_LikelyConsume('\\', s, &index) &&
diff --git a/zzzjson.h b/zzzjson.h
index ea9ad0a..84b7186 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1237,7 +1237,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From 9dee99704468c3cceb4287ec2831af4a959931ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 04/12] fix: validate length-delimited strings and numbers in
 memory of their own allocator

The process-wide scratch string was allocated from whichever allocator came
first and kept being written to after that allocator was released.
---
 beta/zzzjson_beta.h | 36 ++++++++----------------------------
 zzzjson.h           | 35 ++++++++---------------------------
 2 files changed, 16 insertions(+), 55 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 01c6ce0..16fd40c 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -43,11 +43,6 @@ static const z_SIZE z_AllocatorInitMemSize = z_ALLOCATORINITMEMSIZE;
 #endif
 static const z_SIZE z_StringInitMemSize = z_STRINGINITMEMSIZE;
 
-#ifndef z_STRINGCACHEINITMEMSIZE
-#define z_STRINGCACHEINITMEMSIZE 128
-#endif
-static const z_SIZE z_StringCacheInitMemSize = z_STRINGCACHEINITMEMSIZE;
-
 // 环境适配
 
 #include <malloc.h> // 使用其 malloc 和 free 函数
@@ -486,8 +481,6 @@ struct z_String {
   struct z_Allocator *A;
 };
 
-static z_String *z_StringCache = 0;
-
 // 新建一个字符串
 static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
                                            z_SIZE init_size) {
@@ -500,9 +493,6 @@ static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
   return str;
 }
 
-// 清空一个字符串
-static inline void z_StringReset(struct z_String *str) { str->Pos = 0; }
-
 // 追加字符串
 static inline void z_StringAppendStr(struct z_String *str, const char *s,
                                      z_SIZE size) {
@@ -998,16 +988,11 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckStrLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  char *str = z_AllocatorAlloc(alloc, len + 1);
+  z_Copy(s, len, str);
+  str[len] = 0;
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckStr(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  if (z_UNLIKELY(z_CheckStr(str, &avail_len) == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
@@ -1115,16 +1100,11 @@ static inline z_BOOL z_CheckNum(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  char *str = z_AllocatorAlloc(alloc, len + 1);
+  z_Copy(s, len, str);
+  str[len] = 0;
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckNum(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  if (z_UNLIKELY(z_CheckNum(str, &avail_len) == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
diff --git a/zzzjson.h b/zzzjson.h
index 84b7186..26b5b57 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -63,12 +63,6 @@ static const zj_Size zj_AllocatorInitMemSize = zj_ALLOCATOR_INIT_MEMSIZE;
 #endif
 static const zj_Size zj_StringInitMemSize = zj_STRING_INIT_MEMSIZE;
 
-// 用zj_String作为Cache时初始化内存的大小，后面可能去掉
-#ifndef zj_STRING_CACHE_INIT_MEMSIZE
-#define zj_STRING_CACHE_INIT_MEMSIZE 128
-#endif
-static const zj_Size zj_StringCacheInitMemSize = zj_STRING_CACHE_INIT_MEMSIZE;
-
 // 环境适配
 
 #ifndef zj_MEMORY_MODE
@@ -555,8 +549,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -569,9 +561,6 @@ static inline struct zj_string *zj_newString(zj_Allocator *alloc,
   return str;
 }
 
-// 清空一个字符串
-static inline void zj_reset(struct zj_string *str) { str->Pos = 0; }
-
 // 追加字符串
 static inline void zj_appendStr(struct zj_string *str, const char *s,
                                 zj_Size size) {
@@ -1271,15 +1260,11 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  char *str = zj_allocatorAlloc(alloc, len + 1);
+  zj_memCopy(s, len, str);
+  str[len] = 0;
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkStr(str, &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
@@ -1388,15 +1373,11 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  char *str = zj_allocatorAlloc(alloc, len + 1);
+  zj_memCopy(s, len, str);
+  str[len] = 0;
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkNum(str, &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
-- 
2.43.0


From 15237e31399b8630d34a0875749ffbb0d0152b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 05/12] fix: convert exactly the characters of a number
 literal, whatever its length

The conversions copied the literal into a fixed 128 byte buffer and, except for
int, then read the unterminated original instead of the copy.
---
 beta/zzzjson_beta.h |  2 +-
 zzzjson.h           | 46 +++++++++++++++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 16fd40c..7f409e0 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1602,7 +1602,7 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
   if (z_UNLIKELY(v->Cache.Num != 0))
     return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
-  *d = z_StrToDouble(v->N->Value.Str);
+  *d = z_StrToDouble(z_ValueGetNumStr(v));
   v->Cache.Num = d;
   return d;
 }
diff --git a/zzzjson.h b/zzzjson.h
index 26b5b57..4f8ced8 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -363,25 +363,47 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
+// 拷贝数字并加上结束符，buff 放不下时申请新的内存，由调用者释放
+static inline char *zj_newNumStr(const char *str, zj_Size len, char *buff,
+                                 zj_Size buff_size) {
+  char *num = buff;
+  if (zj_UNLIKELY(len >= buff_size))
+    num = (char *)zj_new(len + 1);
+  zj_memCopy(str, len, num);
+  num[len] = 0;
+  return num;
+}
 static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoi(s);
+  char s[128];
+  char *num = zj_newNumStr(str, len, s, sizeof(s));
+  int ret = atoi(num);
+  if (zj_UNLIKELY(num != s))
+    zj_free(num);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
+  char s[128];
+  char *num = zj_newNumStr(str, len, s, sizeof(s));
+  long ret = atol(num);
+  if (zj_UNLIKELY(num != s))
+    zj_free(num);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoll(str);
+  char s[128];
+  char *num = zj_newNumStr(str, len, s, sizeof(s));
+  long long ret = atoll(num);
+  if (zj_UNLIKELY(num != s))
+    zj_free(num);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
+  char s[128];
+  char *num = zj_newNumStr(str, len, s, sizeof(s));
+  double ret = atof(num);
+  if (zj_UNLIKELY(num != s))
+    zj_free(num);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From cb631fc367c71cf54ba2c1dbe060a93db04b0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 06/12] fix: do not read past the end of the text when matching
 true, false and null

---
 beta/zzzjson_beta.h | 6 +++---
 zzzjson.h           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 7f409e0..c7599ef 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -677,7 +677,7 @@ static inline z_BOOL z_UnLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)("alse")) == *((z_SIZE *)(s + *index)))) {
+  if (z_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return z_True;
   }
@@ -686,7 +686,7 @@ static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
 
 // 消费True
 static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrTrue) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp(z_StrTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return z_True;
   }
@@ -695,7 +695,7 @@ static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
 
 // 消费Null
 static inline z_BOOL z_ConsumeNull(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrNull) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp(z_StrNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return z_True;
   }
diff --git a/zzzjson.h b/zzzjson.h
index 4f8ced8..a975f34 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -843,7 +843,7 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  if (zj_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return true;
   }
@@ -852,7 +852,7 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
@@ -861,7 +861,7 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From 42826eddc18081ee6b09a54800e4f67108d60a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 07/12] fix: refuse to store NaN and infinities, which JSON
 cannot express

---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index a975f34..995ba8b 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2309,6 +2309,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
+  // nan 和 inf 不是合法的JSON数字
+  if (zj_UNLIKELY(zj_checkNum(num, &len) == false))
+    return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
     v->N->Key = 0;
-- 
2.43.0


From 15e6e230b9694c008aee4e98f5c8ac4491d0eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:47 +0000
Subject: [PATCH 08/12] fix: make the Go binding compile against the current C
 names

---
 zzzjson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index e551554..dad9627 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -54,7 +54,7 @@ func NewAllocator() *Allocator {
 ReleaseAllocator free an allocator
 */
 func (allocator *Allocator) ReleaseAllocator() {
-	C.zj_AllocatorRelease(allocator.A)
+	C.zj_ReleaseAllocator(allocator.A)
 }
 
 /*
@@ -440,7 +440,7 @@ func (v *Value) ObjDel(key string) bool {
 ArrayDel delete an value of array where index == index
 */
 func (v *Value) ArrayDel(index JSONSize) bool {
-	ret := C.zj_ArrayDel(v.V, C.zj_SIZE(index))
+	ret := C.zj_ArrayDel(v.V, C.zj_Size(index))
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From be41ad710c0caf6572ca31def913370652de0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:04 +0000
Subject: [PATCH 09/12] fix: free the C copies of Go strings in the Go binding

---
 zzzjson.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index dad9627..df40da0 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -8,6 +8,7 @@ package zzzjson
 import (
 	"C"
 )
+import "unsafe"
 
 /*
 JSONSize Size for zzzJSON
@@ -77,7 +78,9 @@ func NewValue(allocator *Allocator) *Value {
 Parse Parse JSON text to value
 */
 func (v *Value) Parse(s string) bool {
-	ret := C.zj_ParseFast(v.V, C.CString(s))
+	cStr := C.CString(s)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_Parse(v.V, cStr)
 	if ret != true {
 		return false
 	}
@@ -198,7 +201,9 @@ func (v *Value) Type() *JSONType {
 ObjGet get value of object where key == key
 */
 func (v *Value) ObjGet(key string) *Value {
-	cVal := C.zj_ObjGet(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	cVal := C.zj_ObjGet(v.V, cStr)
 	if cVal == nil {
 		return nil
 	}
@@ -294,7 +299,9 @@ func (v *Value) SetBool(b bool) {
 SetNumStr set number to value
 */
 func (v *Value) SetNumStr(num string) bool {
-	ret := C.zj_SetNumStrFast(v.V, C.CString(num))
+	cStr := C.CString(num)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetNumStr(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -305,7 +312,9 @@ func (v *Value) SetNumStr(num string) bool {
 SetStr set string to value
 */
 func (v *Value) SetStr(str string) bool {
-	ret := C.zj_SetStrFast(v.V, C.CString(str))
+	cStr := C.CString(str)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetStr(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -316,7 +325,9 @@ func (v *Value) SetStr(str string) bool {
 SetStrEscape set string to value and escape, string can contain \n\r...
 */
 func (v *Value) SetStrEscape(str string) bool {
-	ret := C.zj_SetStrEscape(v.V, C.CString(str))
+	cStr := C.CString(str)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetStrEscape(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -327,7 +338,9 @@ func (v *Value) SetStrEscape(str string) bool {
 SetKey set key to value
 */
 func (v *Value) SetKey(key string) bool {
-	ret := C.zj_SetKeyFast(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetKey(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -338,7 +351,9 @@ func (v *Value) SetKey(key string) bool {
 SetKeyEscape set key to value and escape, string can contain \n\r...
 */
 func (v *Value) SetKeyEscape(key string) bool {
-	ret := C.zj_SetKeyEscape(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetKeyEscape(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -429,7 +444,9 @@ func (v *Value) ArrayAddFast(vv *Value) bool {
 ObjDel delete an value of object where key == key
 */
 func (v *Value) ObjDel(key string) bool {
-	ret := C.zj_ObjDel(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_ObjDel(v.V, cStr)
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 62910bb3a11870139d573b6542aa1a45ddf12f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 10/12] fix: Set, ObjAdd and ArrayAdd copy into the allocator
 of the value they modify

The copy was made in the allocator of the source, so the modified value dangled
once the source's allocator was released.
---
 zzzjson.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 995ba8b..30a43cf 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2162,14 +2162,19 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
   return true;
 }
 
-// 函数说明详见《API》
-static inline zj_Value *zj_Copy(const zj_Value *v) {
-  zj_Value *ret_val = zj_NewValue(v->A);
+// 使用内存分配器 alloc 拷贝一个值，非对外API
+static inline zj_Value *zj_copyTo(zj_Allocator *alloc, const zj_Value *v) {
+  zj_Value *ret_val = zj_NewValue(alloc);
   if (zj_UNLIKELY(zj_ValueCopyFrom(ret_val, v) == false))
     return 0;
   return ret_val;
 }
 
+// 函数说明详见《API》
+static inline zj_Value *zj_Copy(const zj_Value *v) {
+  return zj_copyTo(v->A, v);
+}
+
 // 函数说明详见《API》
 static inline bool zj_Move(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0))
@@ -2623,7 +2628,7 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2681,7 +2686,7 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   cp->N->Father = v->N;
@@ -2728,7 +2733,7 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   cp->N->Key = 0;
-- 
2.43.0


From 95f18393c87cb00bb1de70ebf69faea7b8d346f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:09 +0000
Subject: [PATCH 11/12] fix: ParseLen of the beta header parses its own copy of
 the text

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index c7599ef..d94c401 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1430,7 +1430,7 @@ static inline z_BOOL z_ValueParseLen(struct z_Value *v, const char *s,
   char *str = z_AllocatorAlloc(v->A, len + 1);
   z_Copy(s, len, str);
   str[len] = 0;
-  return z_ValueParseFast(v, s);
+  return z_ValueParseFast(v, str);
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From 5147604971e088f9ce4addadd94a24f32deda1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:02 +0000
Subject: [PATCH 12/12] fix: numbers do not depend on the decimal point of the
 process locale

In a locale whose decimal point is a comma, GetNum and GetDouble dropped the
fraction and SetNum and SetDouble refused every number with a fraction.
---
 beta/zzzjson_beta.h | 38 +++++++++++++++++++++++++++++++++++---
 zzzjson.h           | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index d94c401..3e2021d 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -47,7 +47,7 @@ static const z_SIZE z_StringInitMemSize = z_STRINGINITMEMSIZE;
 
 #include <malloc.h> // 使用其 malloc 和 free 函数
 #include <stdio.h>  // 使用其 sprintf 函数
-#include <stdlib.h> // 使用其 atof 函数
+#include <stdlib.h> // 使用其 strtod 函数
 #include <string.h> // 使用其 memcpy 函数
 
 #ifndef z_MEMORY_MODE
@@ -348,10 +348,42 @@ static inline void z_Copy(const char *src, z_SIZE len, char *des) {
 // 字符串长度计算函数
 static inline z_SIZE z_StrLen(const char *str) { return (z_SIZE)strlen(str); }
 
-static inline double z_StrToDouble(const char *str) { return atof(str); }
+static inline double z_StrToDouble(const char *str) {
+  char *end = 0;
+  double ret = strtod(str, &end);
+  if (z_UNLIKELY(*end == '.')) {
+    // 当前locale的小数点不是'.'，换成locale的小数点再转换
+    char point[32];
+    z_SIZE point_len = (z_SIZE)sprintf(point, "%.1f", 0.5) - 2;
+    z_SIZE int_len = (z_SIZE)(end - str);
+    z_SIZE end_len = z_StrLen(end);
+    char *loc = (char *)z_New(int_len + point_len + end_len);
+    z_Copy(str, int_len, loc);
+    z_Copy(point + 1, point_len, loc + int_len);
+    z_Copy(end + 1, end_len, loc + int_len + point_len);
+    ret = strtod(loc, 0);
+    z_Free(loc);
+  }
+  return ret;
+}
 
 static inline void z_DoubleToStr(double d, char *buff) {
-  sprintf(buff, "%.17g", d);
+  z_SIZE len = (z_SIZE)sprintf(buff, "%.17g", d);
+  // 小数点由当前locale决定，JSON的小数点总是'.'，nan和inf保持不变
+  z_SIZE i = buff[0] == '-' ? 1 : 0;
+  if (z_UNLIKELY(buff[i] < '0' || buff[i] > '9'))
+    return;
+  while (buff[i] >= '0' && buff[i] <= '9')
+    ++i;
+  if (z_UNLIKELY(buff[i] != 0 && buff[i] != '.' && buff[i] != 'e')) {
+    z_SIZE next = i;
+    buff[i++] = '.';
+    do {
+      ++next;
+    } while (buff[next] < '0' || buff[next] > '9');
+    while (next <= len)
+      buff[i++] = buff[next++];
+  }
 }
 
 // 字符串比较，a必须以0结束，len为b的长度。
diff --git a/zzzjson.h b/zzzjson.h
index 30a43cf..71011c7 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -4,7 +4,7 @@
 #include <stdbool.h> // 使用其 bool
 #include <stdint.h>  // 使用其 uint32_t
 #include <stdio.h>   // 使用其 sprintf 函数
-#include <stdlib.h>  // 使用其 atof malloc free 函数
+#include <stdlib.h>  // 使用其 strtod malloc free 函数
 #include <string.h>  // 使用其 memcpy 函数
 
 // API模式
@@ -400,7 +400,21 @@ static inline long long zj_strToLongLong(const char *str, zj_Size len) {
 static inline double zj_strToDouble(const char *str, zj_Size len) {
   char s[128];
   char *num = zj_newNumStr(str, len, s, sizeof(s));
-  double ret = atof(num);
+  char *end = num;
+  double ret = strtod(num, &end);
+  if (zj_UNLIKELY(*end == '.')) {
+    // 当前locale的小数点不是'.'，换成locale的小数点再转换
+    char point[32];
+    zj_Size point_len =
+        (zj_Size)snprintf(point, sizeof(point), "%.1f", 0.5) - 2;
+    zj_Size int_len = (zj_Size)(end - num);
+    char *loc = (char *)zj_new(len + point_len);
+    zj_memCopy(num, int_len, loc);
+    zj_memCopy(point + 1, point_len, loc + int_len);
+    zj_memCopy(end + 1, len - int_len, loc + int_len + point_len);
+    ret = strtod(loc, 0);
+    zj_free(loc);
+  }
   if (zj_UNLIKELY(num != s))
     zj_free(num);
   return ret;
@@ -420,7 +434,25 @@ static inline zj_Size zj_longLongToStr(long long n, char *buff) {
 }
 static inline zj_Size zj_doubleToStr(double n, char *buff) {
   // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
-  return snprintf(buff, 32, "%.17g", n);
+  zj_Size len = (zj_Size)snprintf(buff, 32, "%.17g", n);
+  // 小数点由当前locale决定，JSON的小数点总是'.'，nan和inf保持不变
+  zj_Size i = buff[0] == '-' ? 1 : 0;
+  if (zj_UNLIKELY(buff[i] < '0' || buff[i] > '9'))
+    return len;
+  while (buff[i] >= '0' && buff[i] <= '9')
+    ++i;
+  if (zj_UNLIKELY(buff[i] != 0 && buff[i] != '.' && buff[i] != 'e')) {
+    zj_Size next = i;
+    buff[i++] = '.';
+    do {
+      ++next;
+    } while (buff[next] < '0' || buff[next] > '9');
+    while (next < len)
+      buff[i++] = buff[next++];
+    buff[i] = 0;
+    len = i;
+  }
+  return len;
 }
 
 // 字符串比较，a必须以0结束，len为b的长度。
-- 
2.43.0

