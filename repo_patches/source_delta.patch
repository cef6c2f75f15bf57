From 98cdf2420d1bff12e400694d86b98e29dff71833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 01/35] fix: map the requested size, not its low 32 bits

Page_Create() cast the size to int: requests of 2 GB and more failed, and
larger ones mapped too little memory and aborted in mprotect().
---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From 1835330d6224196850421b3c195a7a09c9464e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 02/35] fix: let allocations with an overflowing internal size
 fail

malloc((size_t)-1) wrapped the internal size around and returned a pointer
far outside of the block it reserved.
---
 src/duma.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..67a1722 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1431,6 +1431,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 
     if (alignment > DUMA_PAGE_SIZE)
       internalSize += alignment - DUMA_PAGE_SIZE;
+
+    /* size computation wrapped around: no memory block can be that large */
+    if (internalSize < userSize || internalSize < alignment)
+      internalSize = ~(size_t)(DUMA_PAGE_SIZE - 1);
   } /* end if ( userSize ) */
 
   /*
@@ -1548,7 +1552,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #ifndef SIZE_MAX
 #define SIZE_MAX ((size_t)(-1))
 #endif
-    size_t numChunks = SIZE_MAX;
+    size_t numChunks = 1;
     if (userSize > (SIZE_MAX) - (chunkSize - 1))
       fullSlot->internalAddress = 0;
     else {
-- 
2.43.0


From e0d7b851ac09a5203b8d660a189adfa2d4d8b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 03/35] fix: detect overflow of nelem * elsize in calloc()

---
 src/duma.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 67a1722..7a8992e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2029,6 +2029,11 @@ void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
  */
 void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
+  size_t size = nelem * elsize;
+
+  /* product overflowed: request a size that cannot be satisfied */
+  if (elsize && size / elsize != nelem)
+    size = ~(size_t)0;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2036,7 +2041,7 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
-  return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
+  return _duma_allocate(0, size, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
 }
-- 
2.43.0


From 6a826783b6cde440e373c9ee3a2083bb3491d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 04/35] fix: take the semaphore in malloc_usable_size()

It opened and closed the slot table without the lock, so that it could close
the table under another thread working on it.
---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 7a8992e..44c3a9f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2206,6 +2206,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr))) {
@@ -2216,6 +2219,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From 5c2091243b264b6f2b889204387f322a641bd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 05/35] fix: account for protected memory released by a partial
 reduction

reduceProtectedMemory() dropped the amount it had released when it could not
release as much as requested; from then on freed memory was no longer protected
with DUMA_PROTECT_FREE=N.
---
 duma_hlp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..1a709e5 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -89,6 +89,9 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  /* could not reduce as much as requested: account for what was released */
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
   return 0;
 }
 
-- 
2.43.0


From a5153b181f3bc4ebaa414210bcf8c466567493b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 06/35] fix: count slots emptied by reduceProtectedMemory() as
 unused

Otherwise the slot table grows without bound although it is mostly empty.
---
 duma_hlp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 1a709e5..f380b9f 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -81,6 +81,7 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->filename = 0;
       slot->lineno = 0;
 #endif
+      ++_duma_s.unUsedSlots;
 
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
-- 
2.43.0


From 262d9792696b4208dd271480c0f25991e2d71243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 07/35] fix: do not unprotect memory behind an aligned block
 with PROTECT_BELOW

For alignments above the page size the live range started at the aligned user
address but had the length of the whole block: it reached into (or past) the
neighbouring blocks.
---
 src/duma.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 44c3a9f..afd1e18 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1663,8 +1663,8 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
-      /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      /* Set up the "live" page(s). */
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From bf41b84fe91e9609a2242f83b9622299a5501edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 08/35] fix: honour DUMA_MALLOC_FAILEXIT with
 DUMA_PROTECT_FREE=0

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index afd1e18..7f1bdd8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1572,12 +1572,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress = Page_Create(
             chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-- 
2.43.0


From 884f5196269b38e9af6045df81e8ec1b3841ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 09/35] fix: read the documented DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY

The README documents these names; only the names without the prefix were read.
---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 7f1bdd8..3ba888f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -825,7 +825,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -834,7 +835,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From d29198d7e23b27f51e2b66d726b84d3f5a99a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 10/35] fix: accept the shared zero-size pointer in realloc()
 and duma_check()

malloc(0) with DUMA_MALLOC_0_STRATEGY=2 returns it; free() accepts it, but
realloc() and duma_check() aborted.
---
 src/duma.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 3ba888f..f40c1eb 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1934,7 +1934,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
@@ -2129,7 +2129,7 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!oldBuffer) {
+  if (!oldBuffer || (_duma_g.null_addr == oldBuffer && newSize > 0)) {
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, duma_tls->FILL,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From 3ae5b805afe8058d41e2e71809322b51e1a48e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 11/35] fix: use size_t indices in the copying string functions

The unsigned index wrapped around at 4 GB and the loops never ended.
---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index f40c1eb..70109ec 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2235,7 +2235,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2270,7 +2270,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2403,7 +2403,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2434,7 +2434,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From 73fa56c5fd8ee4fdf4ecc68f0161c4447dac37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 12/35] fix: include the terminator in the overlap check of
 strncpy()

strncpy(src + strlen(src), src, n) overwrote the terminator while copying and
went undetected.
---
 src/duma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 70109ec..7e17989 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2368,7 +2368,8 @@ char *_duma_strncpy(char *dest, const char *src,
 
   srclen = _duma_strnlen(src, size);
 
-  if (size > 0 && ((src < dest && dest < src + srclen) ||
+  if (size > 0 && ((src < dest &&
+                    dest < src + srclen + (srclen < size ? 1 : 0)) ||
                    (dest < src && src < dest + size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncpy(%a, %a, %d): memory regions overlap at %s(%i).",
-- 
2.43.0


From 2cd8976b6ecef843b105e23fef0e2d5b71cfb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 13/35] fix: read the slot table in DUMA_delFrame() only with
 the semaphore

Another thread could replace the table before the semaphore was taken.
---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 7e17989..49e71ca 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2548,8 +2548,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2559,6 +2559,8 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
-- 
2.43.0


From 46b4e9ed2982d176ec30c9c43c152a24a450b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 14/35] fix: do not report the copy of DUMA_OUTPUT_FILE as leak

---
 src/duma.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 49e71ca..f09018e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,23 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* Function: duma_internal_strdup
+ *
+ * copy of a string for DUMA itself: not reported as leak
+ */
+static char *duma_internal_strdup(const char *str) {
+  size_t i, size = strlen(str) + 1;
+  char *dup = _duma_allocate(1 /*=alignment*/, size, 0 /*=protectBelow*/,
+                             -1 /*=fillByte*/, 1 /*=protectAllocList*/,
+                             EFA_INT_ALLOC, DUMA_FAIL_NULL DUMA_PARAMS_UK);
+
+  if (dup)
+    for (i = 0; i < size; ++i)
+      dup[i] = str[i];
+
+  return dup;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -902,11 +919,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = duma_internal_strdup(string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -938,11 +951,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = duma_internal_strdup(string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From 45da4922d478a679872048e7bc270d118c96a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 15/35] fix: check all bits of the alignment

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index f09018e..704719b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1419,7 +1419,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment != (alignment & (0 - alignment))) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
-- 
2.43.0


From a94a7e8a299e7b1cada0202e52accefd4d91be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 16/35] fix: deny access to the unused part of newly created
 memory

_duma_init() denies access to the free part of the first megabyte, so that
software treading upon free memory is detected; memory created later stayed
readable and writable until it was allocated.
---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 704719b..2ac7025 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1595,6 +1595,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       fullSlot->internalSize = chunkSize * numChunks;
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
+
+      /* deny access to the new memory until it is allocated - as in
+       * _duma_init() */
+      Page_DenyAccess(fullSlot->internalAddress, fullSlot->internalSize);
     }
   } /* end if ( !fullSlot ) */
 
-- 
2.43.0


From 0abfdb2b480ec3dde63e75307ee861a8f6b21758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 17/35] fix: do not release protected memory when the slot
 table is replaced

The old slot table is deleted, not protected. There is no need to make
room for it below DUMA_PROTECT_FREE.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 2ac7025..8466ea8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1885,7 +1885,7 @@ void _duma_deallocate(void *address, int protectAllocList,
   /* protect memory, that nobody can access it */
   /* Free as much protected memory, that we can protect this one */
   /* is there need? and is there a way to free such much? */
-  if (_duma_s.PROTECT_FREE > 0L &&
+  if (EFA_INT_ALLOC != slot->allocator && _duma_s.PROTECT_FREE > 0L &&
       _duma_s.sumProtectedMem + internalSizekB > _duma_s.PROTECT_FREE &&
       internalSizekB < _duma_s.PROTECT_FREE &&
       _duma_s.sumProtectedMem >= internalSizekB) {
-- 
2.43.0


From e8e856e21f09971a07d59d90f139b2183ec00794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 18/35] fix: count allocations with the semaphore held

_duma_allocate() incremented numAllocs before taking the semaphore, so
that concurrent allocations lost counts in the report at exit.
---
 src/duma.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 8466ea8..9dc87b4 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1360,7 +1360,15 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   userAddr = 0;
 
   /* count and show allocation, if requested */
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_GET_SEMAPHORE();
+  }
   _duma_s.numAllocs++;
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_RELEASE_SEMAPHORE(0);
+  }
   if (_duma_s.SHOW_ALLOC) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Print("\nDUMA: Allocating %d byte(s) at %s(%i).", (DUMA_SIZE)userSize,
-- 
2.43.0


From 07dfa58eeacfb665f5990ede0487a52b867d8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 19/35] fix: read the call site of delete with the semaphore
 held

---
 src/dumapp.cpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index ba9ea03..ca9787c 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -36,6 +36,7 @@
 #include <stdlib.h>
 
 #include "dumapp.h"
+#include "duma_sem.h"
 #include "noduma.h"
 
 /* define the global variables */
@@ -200,6 +201,28 @@ void *DUMA_CDECL operator new(DUMA_SIZE_T size,
   return duma_new_operator(size, EFA_NEW_ELEM, false DUMA_PARAMS_UK);
 }
 
+#ifndef DUMA_NO_LEAKDETECTION
+
+/* Function: duma_delete_operator
+ *
+ * C++ deallocation without explicit debug information.
+ * The delete macro passes the call site while it holds the semaphore;
+ * without waiting for it, this thread could get the site of another one.
+ */
+static void duma_delete_operator(void *ptr, enum _DUMA_Allocator allocator) {
+  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+
+  DUMA_GET_SEMAPHORE();
+  const char *filename = duma_tls.DelFile[duma_tls.DelPtr];
+  int lineno = duma_tls.DelLine[duma_tls.DelPtr];
+  DUMA_RELEASE_SEMAPHORE(0);
+
+  _duma_deallocate(ptr, 1 /*=protectAllocList*/,
+                   allocator DUMA_PARAMS_FILELINE);
+}
+
+#endif
+
 /* Function: operator delete
  *
  * Single object form, no debug information
@@ -207,10 +230,7 @@ void *DUMA_CDECL operator new(DUMA_SIZE_T size,
  */
 void DUMA_CDECL operator delete(void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
-  _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+  duma_delete_operator(ptr, EFA_DEL_ELEM);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -223,10 +243,7 @@ void DUMA_CDECL operator delete(void *ptr) throw() {
  */
 void DUMA_CDECL operator delete(void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
-  _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+  duma_delete_operator(ptr, EFA_DEL_ELEM);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -263,10 +280,7 @@ void *DUMA_CDECL operator new[](DUMA_SIZE_T size,
  */
 void DUMA_CDECL operator delete[](void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
-  _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+  duma_delete_operator(ptr, EFA_DEL_ARRAY);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
@@ -279,10 +293,7 @@ void DUMA_CDECL operator delete[](void *ptr) throw() {
  */
 void DUMA_CDECL operator delete[](void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
-  _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+  duma_delete_operator(ptr, EFA_DEL_ARRAY);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
-- 
2.43.0


From 32fbfd9e976caa72ac809bc1abae2632b98a9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 20/35] fix: look up the new handler with the semaphore held

---
 src/dumapp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index ca9787c..ffc2cd8 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -144,7 +144,9 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
     // when allocation failed (and last call to new_handler didn't fail on
     // Visual C++)
     if (!ret && pnhret) {
-      // get the current new_handler
+      // get the current new_handler;
+      // another thread must not take our placeholder for it
+      DUMA_GET_SEMAPHORE();
 #ifdef _MSC_VER
       _PNH h = _set_new_handler(duma_new_handler);
       _set_new_handler(h);
@@ -152,6 +154,7 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
       std::new_handler h = std::set_new_handler(duma_new_handler);
       std::set_new_handler(h);
 #endif
+      DUMA_RELEASE_SEMAPHORE(0);
 
       // is there any handler?
       if (h) {
-- 
2.43.0


From 52b5e94a938a8d4c626094e8b2d4de1cd4bced68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 21/35] fix: do not count a terminator strncat() does not read
 as overlap

---
 src/duma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 9dc87b4..b167108 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2468,7 +2468,8 @@ char *_duma_strncat(char *dest, const char *src,
   srclen = _duma_strnlen(src, size);
 
   /* CHECK: Verify memory regions do not overlap */
-  if (src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) {
+  if (src < (dest + destlen) &&
+      (dest + destlen) < (src + srclen + (srclen < size ? 1 : 0))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 84aa89e30c141c7e120407baa499e4cea36ceb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 22/35] fix: find overlapping strings also when the destination
 is below the source

---
 src/duma.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index b167108..f2fe66b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2358,7 +2358,8 @@ char *_duma_strcpy(char *dest, const char *src DUMA_PARAMLIST_FL) {
   size_t i;
   size_t size = strlen(src) + 1;
 
-  if (src < dest && dest < src + size) {
+  if ((src < dest && dest < src + size) ||
+      (dest < src && src < dest + size)) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strcpy(%a, %a): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, filename, lineno);
@@ -2429,7 +2430,8 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
-  if (src < dest + destlen && dest + destlen < src + srcsize) {
+  if ((src < dest + destlen && dest + destlen < src + srcsize) ||
+      (dest + destlen < src && src < dest + destlen + srcsize)) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strcat(%a, %a): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, filename, lineno);
@@ -2468,8 +2470,9 @@ char *_duma_strncat(char *dest, const char *src,
   srclen = _duma_strnlen(src, size);
 
   /* CHECK: Verify memory regions do not overlap */
-  if (src < (dest + destlen) &&
-      (dest + destlen) < (src + srclen + (srclen < size ? 1 : 0))) {
+  if ((src < (dest + destlen) &&
+       (dest + destlen) < (src + srclen + (srclen < size ? 1 : 0))) ||
+      ((dest + destlen) < src && src < (dest + destlen + srclen + 1))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 8413c0de3d9d329336ab8aea104182845ba026a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 23/35] fix: deleting NULL before the first allocation stopped
 the program

---
 src/duma.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index f2fe66b..9c5b588 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1765,6 +1765,10 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
+  /* nothing to free: allowed also before the first allocation */
+  if (0 == address || _duma_g.null_addr == address)
+    return;
+
   if (0 == _duma_g.allocList) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1775,9 +1779,6 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
-    return;
-
   if (protectAllocList) {
     IF__DUMA_INIT_DONE
     DUMA_GET_SEMAPHORE();
-- 
2.43.0


From 42e32012ececbade233e8d46d43a062965de9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 24/35] fix: _duma_allocate() as the first call crashed

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 9c5b588..fa09e2c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1320,6 +1320,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #endif
   DUMA_TLSVARS_T *duma_tls = GET_DUMA_TLSVARS();
 
+  /* member operator new may be the first call */
+  if (0 == _duma_g.allocList)
+    _duma_init();
+
   /* check allocation strategy to use */
   switch (_duma_allocDesc[allocator].std) {
   default:
-- 
2.43.0


From 8b9f92c65abfbf1f0158e7de73e279a512b6540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 25/35] fix: duma_init() as the first call crashed with
 DUMA_EXPLICIT_INIT

---
 src/duma.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index fa09e2c..e8e50b9 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1005,6 +1005,9 @@ static
   else {
 #if DUMA_DETOURS
     _duma_init();
+#elif defined(DUMA_EXPLICIT_INIT)
+    if (0 == _duma_g.allocList)
+      _duma_init();
 #endif
 
     _duma_s.init_state = DUMAIS_IN_INIT;
-- 
2.43.0


From 84ba9df202664902bbf7a4f976737be2ec57f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 26/35] fix: memcpy() before the first allocation ignored
 DUMA_MEMCPY_OVERLAP

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index e8e50b9..2dbe7d9 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2301,6 +2301,10 @@ void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   const char *s = (const char *)src;
   size_t i;
 
+  /* DUMA_MEMCPY_OVERLAP counts also before the first allocation */
+  if (0 == _duma_g.allocList && d < s && s < d + size)
+    _duma_init();
+
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
 #ifndef DUMA_NO_LEAKDETECTION
-- 
2.43.0


From eeef6d9cd805c038d0701595c4e61fef82f7ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 27/35] fix: slots stayed accessible between initialisation and
 the first call

---
 src/duma.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 2dbe7d9..2fcd304 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1199,6 +1199,11 @@ void
    */
   _duma_s.unUsedSlots = _duma_s.slotCount - 2;
 
+  /*
+   * Nothing may be left accessible until the first call opens the slots.
+   */
+  Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
+
   /* construction done */
   if (_duma_s.init_state < DUMAIS_OUT_CONSTRUCTOR)
     _duma_s.init_state = DUMAIS_OUT_CONSTRUCTOR;
-- 
2.43.0


From 44a75de172b633b883128ce918a29ff90f9feffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 28/35] fix: threads that made the first call at the same time
 lost blocks

Whether _duma_init() was called recursively was decided by the state, not by
the thread: a second thread that came while the first one was initialising did
not take the lock and made a second table of slots, which forgot the blocks in
the first one.  Hold the lock, which can be nested, until initialising is done.
---
 src/duma.c | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 2fcd304..9fca554 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1089,32 +1089,23 @@ void
     _duma_init(void) {
   size_t size = MEMORY_CREATION_SIZE;
   struct _DUMA_Slot *slot;
-  int inRecursion = (_duma_s.init_state >= DUMAIS_IN_CONSTRUCTOR &&
-                     _duma_s.init_state <= DUMAIS_OUT_INIT);
 
-  /* constuction already done? this should not happen! */
+  /* the lock is held until initialization is done: another thread may be in
+   * the middle of it. Recursive calls already have the lock. */
+  DUMA_GET_SEMAPHORE();
+
+  /* constuction already done, by another thread or recursively by the call of
+   * DUMA_GET_SEMAPHORE()? */
   if (_duma_s.init_state >= DUMAIS_OUT_CONSTRUCTOR &&
-      _duma_s.init_state <= DUMAIS_OUT_INIT) {
-#ifndef DUMA_EXPLICIT_INIT
+      _duma_s.init_state <= DUMAIS_OUT_INIT)
     goto duma_constructor_callinit;
-#else
-    return;
-#endif
-  } else
-    _duma_s.init_state = DUMAIS_IN_CONSTRUCTOR;
+
+  _duma_s.init_state = DUMAIS_IN_CONSTRUCTOR;
 
   if (DUMA_PAGE_SIZE != Page_Size())
     DUMA_Abort("DUMA_PAGE_SIZE is not correct. Run createconf and save results "
                "as duma_config.h");
 
-  if (!inRecursion)
-    DUMA_GET_SEMAPHORE();
-
-  /* call of DUMA_GET_SEMAPHORE() may already have done the construction
-   * recursively! */
-  if (_duma_s.init_state >= DUMAIS_OUT_CONSTRUCTOR)
-    goto duma_constructor_relsem;
-
   /*
    * Allocate special memory for malloc() or C++ operator new, when size is 0
    */
@@ -1208,15 +1199,9 @@ void
   if (_duma_s.init_state < DUMAIS_OUT_CONSTRUCTOR)
     _duma_s.init_state = DUMAIS_OUT_CONSTRUCTOR;
 
-duma_constructor_relsem:
-  /***********************/
-
-  if (!inRecursion)
-    DUMA_RELEASE_SEMAPHORE(0);
-
-#ifndef DUMA_EXPLICIT_INIT
 duma_constructor_callinit:
   /*************************/
+#ifndef DUMA_EXPLICIT_INIT
   if (_duma_s.init_state < DUMAIS_OUT_INIT)
     duma_init();
 #elif 0
@@ -1225,6 +1210,8 @@ duma_constructor_callinit:
              "(DUMA_EXPLICIT_INIT).");
   DUMA_Print("\n  Take care that duma_init() is called early in main()!\n\n");
 #endif
+
+  DUMA_RELEASE_SEMAPHORE(0);
 }
 
 /* Function: allocateMoreSlots
-- 
2.43.0


From 32c48728f5ee2cc0929dabcf9a3334684b7d4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 29/35] fix: running out of slots without memory stopped the
 program

malloc() returns NULL (or stops, when DUMA_MALLOC_FAILEXIT is set) also when
it is the slot table that there is no memory for.
---
 src/duma.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 9fca554..e8f23cc 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1527,6 +1527,27 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
+#if !defined(WIN32)
+  /*
+   * The slots only run out when there is no memory for more of them.
+   * Without an empty slot neither new memory nor the surplus of a larger
+   * buffer can be recorded: the request fails like without memory.
+   */
+  if (fullSlot ? (fullSlot->internalSize > internalSize && !emptySlots[0])
+               : !emptySlots[1]) {
+    if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+      DUMA_Abort("Internal error in allocator: No empty slot.\n");
+
+    if (protectAllocList) {
+      Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
+
+      IF__DUMA_INIT_DONE
+      DUMA_RELEASE_SEMAPHORE(0);
+    }
+    return 0;
+  }
+#endif
+
   if (!fullSlot) {
     /*
      * I get here if I haven't been able to find a free buffer
@@ -1554,11 +1575,6 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     if (!emptySlots[0])
       DUMA_Abort("Internal error in allocator: No empty slot 0.\n");
 
-#if !defined(WIN32)
-    if (!emptySlots[1])
-      DUMA_Abort("Internal error in allocator: No empty slot 1.\n");
-#endif
-
     fullSlot = emptySlots[0];
     emptySlots[0] = emptySlots[1];
 
-- 
2.43.0


From 584b10b2a8ebd0a7750062c89e9b6b8572746daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 30/35] fix: no memory for the slot table at the start crashed

The attempt to release protected memory used the slot table that is just
about to be created. Simply try again, and stop with a message.
---
 src/duma.c | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index e8f23cc..60dbdc7 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1137,20 +1137,11 @@ void
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
       size, 0 /*=exitonfail*/, 0 /*=printerror*/);
-  if (0 == _duma_g.allocList && 0L != _duma_s.PROTECT_FREE) {
-    int reduce_more;
-    do {
-      /* reduce as much protected memory as we need - or at least try so */
-      reduce_more = reduceProtectedMemory((size + 1023) >> 10);
-      /* simply try again */
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 0 /*=exitonfail*/, 0 /*= printerror*/);
-    } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
-  }
+  /* nothing was freed yet: there is no protected memory to reduce, nor a list
+   * to look for it. Simply try again */
+  if (0 == _duma_g.allocList)
+    slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
+        size, 1 /*=exitonfail*/, 1 /*= printerror*/);
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0


From 2601766829064e8cab1c65925fa69a3935597fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 31/35] fix: DUMA_SHOW_ALLOC showed DUMA's own allocations
 during initialisation

The names read from the environment were copied with the log on and before it
was known where messages go.
---
 src/duma.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 60dbdc7..3fe1b66 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -887,12 +887,6 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
     _duma_s.SLACKFILL = atoi(string);
   _duma_s.SLACKFILL &= 255;
 
-  /*
-   * See if the user wants to see allocations / frees
-   */
-  if ((string = DUMA_GETENV("DUMA_SHOW_ALLOC")) != 0)
-    _duma_s.SHOW_ALLOC = (atoi(string) != 0);
-
   /*
    * See if the user wants to call atexit()
    */
@@ -953,6 +947,13 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
     DUMA_OUTPUT_FILE = duma_internal_strdup(string);
 
+  /*
+   * See if the user wants to see allocations / frees. Not before it is known
+   * where messages go: copying the names above allocates memory.
+   */
+  if ((string = DUMA_GETENV("DUMA_SHOW_ALLOC")) != 0)
+    _duma_s.SHOW_ALLOC = (atoi(string) != 0);
+
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
     _duma_s.SKIPCOUNT_INIT = (atoi(string) != 0);
-- 
2.43.0


From 1f0bed7a1ad2e25c9a7dd49db620af75fa1bde00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 32/35] fix: realloc() of freed memory crashed or returned
 freed memory

The old address was only looked at when there was new memory, and memory that
was freed already was read before it was reported.
---
 src/duma.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 3fe1b66..3630c04 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2167,17 +2167,26 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
+    struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
+
+    /* look at the old address first: the new memory could be at the same */
+    if (slot == 0)
+      DUMA_Abort("realloc(%a, %d): address not from malloc().",
+                 (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+
+    /* freed memory can't be copied, DUMA's own must not: this reports it */
+    if (DUMAST_IN_USE != slot->state || EFA_INT_ALLOC == slot->allocator)
+      _duma_deallocate(oldBuffer, 0 /*=protectAllocList*/,
+                       EFA_REALLOC DUMA_PARAMS_FL);
+
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
 
     DUMA_ASSERT(oldBuffer);
     if (ptr) {
-      struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
-
-      if (slot == 0)
-        DUMA_Abort("realloc(%a, %d): address not from malloc().",
-                   (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+      /* the slots may have moved */
+      slot = slotForUserAddress(oldBuffer);
 
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
-- 
2.43.0


From 0922f39678e55defcc29adf4893b18d868c615ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 33/35] fix: malloc_usable_size() answered for freed memory

---
 src/duma.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 3630c04..5e6adc4 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2255,6 +2255,21 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
     DUMA_Abort("malloc_usable_size(%a): address not from malloc.",
       (DUMA_ADDR)ptr);
   }
+  if (DUMAST_ALL_PROTECTED == slot->state ||
+      DUMAST_BEGIN_PROTECTED == slot->state) {
+#ifndef DUMA_NO_LEAKDETECTION
+    if (DUMAFS_ALLOCATION == slot->fileSource)
+      DUMA_Abort("malloc_usable_size(%a): memory already freed; allocated from "
+                 "%s(%i)",
+                 (DUMA_ADDR)ptr, slot->filename, slot->lineno);
+    else if (DUMAFS_DEALLOCATION == slot->fileSource)
+      DUMA_Abort("malloc_usable_size(%a): memory already freed at %s(%i)",
+                 (DUMA_ADDR)ptr, slot->filename, slot->lineno);
+    else
+#endif
+      DUMA_Abort("malloc_usable_size(%a): memory already freed.",
+                 (DUMA_ADDR)ptr);
+  }
   size = slot->userSize;
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
-- 
2.43.0


From 1acdea355e98f7aff4bcb870b559896f5ee23fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 34/35] fix: duma_check() and malloc_usable_size() accepted
 DUMA's own memory

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 5e6adc4..51f6ce6 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1971,7 +1971,8 @@ void duma_check(void *address) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(address))) {
+  if (!(slot = slotForUserAddress(address)) ||
+      EFA_INT_ALLOC == slot->allocator) {
     if ((slot = nearestSlotForUserAddress(address))) {
 #ifndef DUMA_NO_LEAKDETECTION
       if (DUMAFS_ALLOCATION == slot->fileSource)
@@ -2251,7 +2252,8 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(ptr))) {
+  /* nothing that DUMA has for itself or keeps for later came from malloc */
+  if (!(slot = slotForUserAddress(ptr)) || EFA_INT_ALLOC == slot->allocator) {
     DUMA_Abort("malloc_usable_size(%a): address not from malloc.",
       (DUMA_ADDR)ptr);
   }
-- 
2.43.0


From 9550af2610b23ae26fe5dd8e4dbe3b6180dbc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 35/35] fix: the first allocation crashed when there was no
 environment

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 51f6ce6..c66d6a2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -747,6 +747,10 @@ static const char *duma_getenv(const char *varname) {
   if (varname[0] == '\0')
     return ret;
 
+  /* no environment: not set up yet, or removed by clearenv() */
+  if (!environ)
+    return ret;
+
   while (environ[varno]) {
     const char *v = environ[varno++];
     int idx = 0;
-- 
2.43.0

