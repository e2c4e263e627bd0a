From efed31a7a1393936f2e855678817addb19f975a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 01/13] fix: return struct { long double } in st(0) on x86-64
 SysV

---
 src/x86/ffi64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..f53b682 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -473,7 +473,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
 
-	  if (rtype_size == 4 && sse0)
+	  if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
+	  else if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
-- 
2.43.0


From 826bf73b8566c21c833f4af19cd73ee501160649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 02/13] fix: do not count padding eightbytes as registers in
 x86-64 closures

---
 src/x86/ffi64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index f53b682..041c716 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -875,12 +875,12 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	  if (SSE_CLASS_P (classes[0]))
 	    {
 	      avalue[i] = &reg_args->sse[ssecount];
-	      ssecount += n;
+	      ssecount += nsse;
 	    }
 	  else
 	    {
 	      avalue[i] = &reg_args->gpr[gprcount];
-	      gprcount += n;
+	      gprcount += ngpr;
 	    }
 	}
       /* Otherwise, allocate space to make them consecutive.  */
@@ -894,7 +894,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	    {
 	      if (SSE_CLASS_P (classes[j]))
 		memcpy (a, &reg_args->sse[ssecount++], 8);
-	      else
+	      else if (classes[j] != X86_64_NO_CLASS)
 		memcpy (a, &reg_args->gpr[gprcount++], 8);
 	    }
 	}
-- 
2.43.0


From 682e29e87315430abfd569d23d56459d18c9e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 03/13] fix: do not modify the caller's argument array or
 values in ffi_call on x86-64

---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c | 34 +++++++++++++++++++---------------
 2 files changed, 19 insertions(+), 33 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 041c716..16f9137 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -687,24 +687,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..e36ce9a 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,25 +121,23 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize;
+  size_t rsize, copysize;
+  char *copy;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+  /* Arguments that do not fit in an 8 byte slot are passed by reference.
+     Make room for a copy of each, so that we are passing by value and the
+     caller's argument array and values stay as they are.  */
+  copysize = 0;
   for (i = 0; i < nargs; i++)
     {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
+      size_t size = arg_types[i]->size;
+      if (size != 1 && size != 2 && size != 4 && size != 8)
+	copysize += FFI_ALIGN (size, 16);
     }
 
   flags = cif->flags;
@@ -155,10 +153,12 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + 15
+		 + copysize + rsize);
   frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
+  copy = (char *) FFI_ALIGN (frame + 1, 16);
   if (rsize)
-    rvalue = frame + 1;
+    rvalue = copy + copysize;
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
@@ -173,7 +173,9 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 
   for (i = 0, n = cif->nargs; i < n; ++i, ++j)
     {
-      switch (cif->arg_types[i]->size)
+      size_t size = arg_types[i]->size;
+
+      switch (size)
 	{
 	case 8:
 	  stack[j] = *(UINT64 *)avalue[i];
@@ -188,7 +190,9 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	  stack[j] = *(UINT8 *)avalue[i];
 	  break;
 	default:
-	  stack[j] = (uintptr_t)avalue[i];
+	  memcpy (copy, avalue[i], size);
+	  stack[j] = (uintptr_t)copy;
+	  copy += FFI_ALIGN (size, 16);
 	  break;
 	}
     }
-- 
2.43.0


From 659d7ad1886994e8b8896551c64cf3e80ded8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 04/13] fix: leave a malformed aggregate uninitialized so it is
 rejected every time

---
 src/prep_cif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..4e3213a 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,13 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* Leave the type uninitialized, lest it be taken for a
+	     valid one the next time it is used.  */
+	  arg->size = 0;
+	  arg->alignment = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From e51500db98caecaef89c5c373afca734a2b6d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 05/13] fix: pass the raw closure, not its code address, to the
 raw translators

---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 0d45a332f014de198951295261c19e5ca973a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 06/13] fix: pop an unwanted x87 return value in ffi_call on
 x86-64

---
 src/x86/ffi64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 16f9137..37243db 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -576,11 +576,15 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   FFI_ASSERT (cif->abi == FFI_UNIX64);
 
   /* If the return value is a struct and we don't have a return value
-     address then we need to make one.  Otherwise we can ignore it.  */
+     address then we need to make one.  Values returned on the x87 stack
+     must be popped even if nobody wants them.  Otherwise we can ignore
+     the return value.  */
   flags = cif->flags;
   if (rvalue == NULL)
     {
-      if (flags & UNIX64_FLAG_RET_IN_MEM)
+      if ((flags & UNIX64_FLAG_RET_IN_MEM)
+	  || (flags & 0xff) == UNIX64_RET_X87
+	  || (flags & 0xff) == UNIX64_RET_X87_2)
 	rvalue = alloca (cif->rtype->size);
       else
 	flags = UNIX64_RET_VOID;
-- 
2.43.0


From 6292695c58a1f84534770efa2df0c2a4f1b54f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 07/13] fix: return long double in memory for FFI_WIN64 when it
 does not fit a register

---
 src/x86/ffiw64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index e36ce9a..dbaf40f 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -70,8 +70,9 @@ EFI64(ffi_prep_cif_machdep)(ffi_cif *cif)
     default:
       break;
     case FFI_TYPE_LONGDOUBLE:
-      /* GCC returns long double values by reference, like a struct */
-      if (cif->abi == FFI_GNUW64)
+      /* GCC returns long double values by reference, like a struct.  The
+	 same goes for FFI_WIN64 where long double does not fit a register.  */
+      if (cif->abi == FFI_GNUW64 || cif->rtype->size > 8)
 	flags = FFI_TYPE_STRUCT;
       break;
     case FFI_TYPE_COMPLEX:
-- 
2.43.0


From fcdb4a88bcc7faa83b28cb307985eb1383bb9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 08/13] fix: win64.S: emit .eh_frame so that exceptions unwind
 through Windows-ABI calls off Windows

---
 src/x86/win64.S | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/win64.S b/src/x86/win64.S
index 58ec6a1..c9ebf6e 100644
--- a/src/x86/win64.S
+++ b/src/x86/win64.S
@@ -5,7 +5,9 @@
 #include <ffi_cfi.h>
 #include "asmnames.h"
 
-#if defined(HAVE_AS_CFI_PSEUDO_OP)
+/* Native Windows unwinds through the SEH tables.  Everywhere else exceptions
+   need the default, .eh_frame, which is loaded at run time.  */
+#if defined(HAVE_AS_CFI_PSEUDO_OP) && defined(X86_WIN64)
         .cfi_sections   .debug_frame
 #endif
 
-- 
2.43.0


From a2995af9ddc92c276dd0b8ba8e1d65434b2368f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 09/13] fix: count a complex argument as one pointer slot in
 ffi_raw_size

ffi_raw_to_ptrarray and ffi_ptrarray_to_raw pass a complex argument by
reference, in one slot; ffi_raw_size added the size of the value instead, so
that it disagreed with the layout of the raw arguments.
---
 src/raw_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_api.c b/src/raw_api.c
index 43cf975..6b99589 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -46,6 +46,9 @@ ffi_raw_size (ffi_cif *cif)
 	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
       else
 #endif
+      if ((*at)->type == FFI_TYPE_COMPLEX)
+	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
+      else
 	result += FFI_ALIGN ((*at)->size, FFI_SIZEOF_ARG);
     }
 
-- 
2.43.0


From 647a5f14058a0635d682e42291e4249602059d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 10/13] fix: take the allocator's lock when looking up a
 closure's segment

ffi_closure_alloc, ffi_closure_free, ffi_data_to_code_pointer and
ffi_tramp_is_present walked the segment list while other threads could be
adding or releasing segments.
---
 src/closures.c | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..b8cf961 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -984,6 +984,27 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* Return the executable address that corresponds to the address PTR, or
+   NULL if it isn't in memory managed here.  Other threads may be adding,
+   growing or releasing segments, so hold the allocator's lock.  */
+static void *
+closure_exec_address (void *ptr)
+{
+  msegmentptr seg;
+  void *code = NULL;
+
+  if (PREACTION (gm))
+    return NULL;
+
+  seg = segment_holding (gm, ptr);
+  if (seg)
+    code = add_segment_exec_offset (ptr, seg);
+
+  POSTACTION (gm);
+
+  return code;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
@@ -999,9 +1020,7 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
-
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      *code = FFI_FN (closure_exec_address (ptr));
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1021,15 +1040,15 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *code = closure_exec_address (data);
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
+     which case code will be non-NULL.  However, some users take on the
      burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (code)
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return code;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1044,10 +1063,15 @@ void
 ffi_closure_free (void *ptr)
 {
 #if FFI_CLOSURE_FREE_CODE
-  msegmentptr seg = segment_holding_code (gm, ptr);
+  msegmentptr seg;
 
-  if (seg)
-    ptr = sub_segment_exec_offset (ptr, seg);
+  if (!PREACTION (gm))
+    {
+      seg = segment_holding_code (gm, ptr);
+      if (seg)
+	ptr = sub_segment_exec_offset (ptr, seg);
+      POSTACTION (gm);
+    }
 #endif
   if (ffi_tramp_is_supported ())
     ffi_tramp_free (((ffi_closure *) ptr)->ftramp);
@@ -1058,8 +1082,7 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  return closure_exec_address (ptr) != NULL && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From 7b267d83301b5930c6b4e3c6c95ae5587d2c599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 11/13] fix: publish the allocator's parameters only when all
 of them are set

A thread that saw a nonzero page size took the parameters for initialized
while another one was still setting them up; with a zero granularity its
first ffi_closure_alloc failed.
---
 src/dlmalloc.c | 51 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..99d9ff0 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2118,6 +2118,21 @@ struct malloc_params {
 
 static struct malloc_params mparams;
 
+/*
+  The parameters are set up by the first thread that needs them. A
+  nonzero page size tells other threads, which need not take the lock
+  of init_mparams, that everything is initialized, so it is set last.
+*/
+#ifdef __ATOMIC_ACQUIRE
+#define mparams_ready()\
+  (__atomic_load_n(&mparams.page_size, __ATOMIC_ACQUIRE) != 0)
+#define mparams_publish(S)\
+  __atomic_store_n(&mparams.page_size, (S), __ATOMIC_RELEASE)
+#else
+#define mparams_ready()     (*(volatile size_t *)&mparams.page_size != 0)
+#define mparams_publish(S)  (*(volatile size_t *)&mparams.page_size = (S))
+#endif
+
 /* The global malloc_state used for all non-"mspace" calls */
 static struct malloc_state _gm_;
 #define gm                 (&_gm_)
@@ -2209,7 +2224,7 @@ static int has_segment_link(mstate m, msegmentptr ss) {
 #if USE_LOCKS
 
 /* Ensure locks are initialized */
-#define GLOBALLY_INITIALIZE() (mparams.page_size == 0 && init_mparams())
+#define GLOBALLY_INITIALIZE() (!mparams_ready() && init_mparams())
 
 #define PREACTION(M)  ((GLOBALLY_INITIALIZE() || use_lock(M))? ACQUIRE_LOCK(&(M)->mutex) : 0)
 #define POSTACTION(M) { if (use_lock(M)) RELEASE_LOCK(&(M)->mutex); }
@@ -2517,8 +2532,15 @@ static size_t traverse_and_check(mstate m);
 
 /* Initialize mparams */
 static int init_mparams(void) {
-  if (mparams.page_size == 0) {
+  if (!mparams_ready()) {
     size_t s;
+    size_t psize;
+
+    ACQUIRE_MAGIC_INIT_LOCK();
+    if (mparams.page_size != 0) { /* Another thread was first */
+      RELEASE_MAGIC_INIT_LOCK();
+      return 0;
+    }
 
     mparams.mmap_threshold = DEFAULT_MMAP_THRESHOLD;
     mparams.trim_threshold = DEFAULT_TRIM_THRESHOLD;
@@ -2550,29 +2572,25 @@ static int init_mparams(void) {
 #else /* (FOOTERS && !INSECURE) */
     s = (size_t)0x58585858U;
 #endif /* (FOOTERS && !INSECURE) */
-    ACQUIRE_MAGIC_INIT_LOCK();
-    if (mparams.magic == 0) {
-      mparams.magic = s;
-      /* Set up lock for main malloc area */
-      INITIAL_LOCK(&gm->mutex);
-      gm->mflags = mparams.default_mflags;
-    }
-    RELEASE_MAGIC_INIT_LOCK();
+    mparams.magic = s;
+    /* Set up lock for main malloc area */
+    INITIAL_LOCK(&gm->mutex);
+    gm->mflags = mparams.default_mflags;
 
 #if !defined(WIN32) && !defined(__OS2__)
-    mparams.page_size = malloc_getpagesize;
+    psize = malloc_getpagesize;
     mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
-                           DEFAULT_GRANULARITY : mparams.page_size);
+                           DEFAULT_GRANULARITY : psize);
 #elif defined (__OS2__)
  /* if low-memory is used, os2munmap() would break
     if it were anything other than 64k */
-    mparams.page_size = 4096u;
+    psize = 4096u;
     mparams.granularity = 65536u;
 #else /* WIN32 */
     {
       SYSTEM_INFO system_info;
       GetSystemInfo(&system_info);
-      mparams.page_size = system_info.dwPageSize;
+      psize = system_info.dwPageSize;
       mparams.granularity = system_info.dwAllocationGranularity;
     }
 #endif /* WIN32 */
@@ -2590,8 +2608,11 @@ static int init_mparams(void) {
         ((MALLOC_ALIGNMENT    & (MALLOC_ALIGNMENT-SIZE_T_ONE))    != 0) ||
         ((MCHUNK_SIZE         & (MCHUNK_SIZE-SIZE_T_ONE))         != 0) ||
         ((mparams.granularity & (mparams.granularity-SIZE_T_ONE)) != 0) ||
-        ((mparams.page_size   & (mparams.page_size-SIZE_T_ONE))   != 0))
+        ((psize               & (psize-SIZE_T_ONE))               != 0))
       ABORT;
+
+    mparams_publish(psize);
+    RELEASE_MAGIC_INIT_LOCK();
   }
   return 0;
 }
-- 
2.43.0


From 12c65817711d496af87963dbfe6cd2acfa06a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 12/13] fix: check that the file to map trampolines from holds
 the code table

The file named in /proc/self/maps may have been replaced or truncated after
it was loaded; mapping it anyway made closures run whatever it contains.
---
 src/tramp.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..51425c5 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -47,6 +47,7 @@
 #include <unistd.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include <fcntl.h>
 #include <pthread.h>
 #include <sys/mman.h>
@@ -201,6 +202,30 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the file holds the trampoline code table at the given offset.
+ * The file named in the maps need not be the one that was mapped: it may have
+ * been replaced since then, and a name with a space in it is cut short.
+ */
+static int
+ffi_tramp_check_file (void)
+{
+  size_t size = tramp_globals.map_size;
+  char *buf;
+  int ok;
+
+  buf = malloc (size);
+  if (buf == NULL)
+    return 0;
+
+  ok = (pread (tramp_globals.fd, buf, size, tramp_globals.offset)
+	== (ssize_t) size
+	&& memcmp (buf, tramp_globals.text, size) == 0);
+
+  free (buf);
+  return ok;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -244,7 +269,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_file () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From bc67e9276da6387f6731108942a397ea951811a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:33 +0000
Subject: [PATCH 13/13] fix: write space for closures where it will be mapped
 in the file

After a failed attempt truncated the file, the file position stayed further
on and the next attempt left a hole where it was to allocate space.
---
 src/closures.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index b8cf961..5f51a3e 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -838,7 +838,9 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   offset = execsize;
 
-  if (allocate_space (execfd, length))
+  /* An attempt that failed may have left the file position further on.  */
+  if (lseek (execfd, offset, SEEK_SET) == -1
+      || allocate_space (execfd, length))
     return MFAIL;
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
-- 
2.43.0

