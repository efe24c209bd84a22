From 292240f27fc28b5a5d929efbee1a434f166a63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 01/43] fix: let the recovery handler run before aborting every
 open data-set

bug_c/bugv_c called habort_c() - which closes all open data-sets and
deletes the ones being written - before handing a fatal error to the
installed recovery handler, so a failed open destroyed an unrelated
data-set that the process then kept using.
---
 aipy/_miriad/mir/bug.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..9dc7db5 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -113,6 +113,15 @@ void bug_c(char s,Const char *m)
 
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
+#ifndef vms
+    /* A client that recovers from errors keeps its other data-sets: only
+       abort them when the process is really about to exit. */
+    if (bug_cleanup) {
+        (*bug_cleanup)();       /* call it */
+        fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
+        /* and not it will fall through and exit the bug way */
+    }
+#endif
     reentrant = !reentrant;
     if(reentrant)habort_c();
 #ifdef vms
@@ -120,11 +129,6 @@ void bug_c(char s,Const char *m)
     lib$stop(SS$_ABORT);
 #else
 /*    fprintf(stderr,"### Program exiting with return code = 1 ###\n"); */
-    if (bug_cleanup) {
-        (*bug_cleanup)();       /* call it */
-        fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-        /* and not it will fall through and exit the bug way */
-    }
     exit (1);
 #endif
   }
@@ -167,13 +171,13 @@ void bugv_c(char s,Const char *m, ...)
   va_end(ap);
 
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
     if (bug_cleanup) {
         (*bug_cleanup)();       /* call it */
         fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
         /* and not it will fall through and exit the bug way */
     }
+    reentrant = !reentrant;
+    if(reentrant)habort_c();
     exit (1);
   }
 }
-- 
2.43.0


From 2e829d3d93b4e1888ebed995ff56eb502e9148f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 02/43] fix: contain MIRIAD errors raised while a UV object is
 being destroyed

A failed flush in tp_dealloc threw a C++ exception through the
interpreter and terminated the process.
---
 aipy/_miriad/miriad_wrap.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..3498483 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -25,7 +25,18 @@ typedef struct {
 
 // Deallocate memory when Python object is deleted
 static void UVObject_dealloc(UVObject *self) {
-    if (self->tno != -1) uvclose_c(self->tno);
+    if (self->tno != -1) {
+        PyObject *etype, *evalue, *etb;
+        PyErr_Fetch(&etype, &evalue, &etb);
+        try {
+            uvclose_c(self->tno);
+        } catch (MiriadError &e) {
+            // A destructor has no caller to report to
+            PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+            PyErr_WriteUnraisable(NULL);
+        }
+        PyErr_Restore(etype, evalue, etb);
+    }
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
-- 
2.43.0


From dedd01ac99a36cfd167edd1548268fd0dcb93b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 03/43] fix: a UV object that was never opened closes no
 data-set

tp_new left the handle at 0, so an object whose __init__ failed before
opening anything closed data-set 0 (and crashed) when it was destroyed.
---
 aipy/_miriad/miriad_wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 3498483..038d8f5 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -45,6 +45,7 @@ static PyObject *UVObject_new(PyTypeObject *type,
         PyObject *args, PyObject *kwds) {
     UVObject *self;
     self = (UVObject *) type->tp_alloc(type, 0);
+    if (self != NULL) self->tno = -1;   // no data-set is open yet
     return (PyObject *) self;
 }
 
@@ -727,7 +728,6 @@ MOD_INIT(_miriad) {
 
     Py_Initialize();
 
-    UVType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&UVType) < 0)
         return MOD_ERROR_VAL;
 
-- 
2.43.0


From 6a0e3a68204aa56dcd976110655046bd5817d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 04/43] fix: a failed open gives its data-set slot back

Every open that failed after the directory was accepted kept one of the
26 data-set slots, so later opens in the same process failed.
---
 aipy/_miriad/mir/hio.c       | 4 ++--
 aipy/_miriad/miriad_wrap.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index f612bd1..cbcff48 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -203,8 +203,8 @@ void hopen_c(int *tno,Const char *name,Const char *status,int *iostat)
 /* Tidy up before we return. Make sure things are tidy if an error
    occurred during the operation. */
 
-  *tno = t->handle;
-  if(*iostat) hclose_c(*tno);
+  if(*iostat) hclose_c(t->handle);
+  else *tno = t->handle;
 
 }
 /************************************************************************/
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 038d8f5..66ebb58 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -78,6 +78,10 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
         uvset_c(self->tno,"preamble","uvw/time/baseline",0,0.,0.,0.);
         uvset_c(self->tno,"corr",corrmode,0,0.,0.,0.);
     } catch (MiriadError &e) {
+        if (self->tno != -1) {
+            // The data-set was opened before the failure: give its slot back
+            try { hclose_c(self->tno); } catch (MiriadError &e2) {}
+        }
         self->tno = -1;
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return -1;
-- 
2.43.0


From 2b7c0f8bc026d6ef578d5defa7b8cb1212c35446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 05/43] fix: pass native code the encoded bytes of a string,
 and their count

PyString_AsString returned a pointer into an encoded copy it had just
released, and PyString_Size counted characters while bytes are written.
---
 aipy/_common/aipy_compat.h | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..9dd07b3 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,23 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
-static char *
+/* The encoded string belongs to ob and lives as long as it does. */
+static inline char *
 PyString_AsString(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
-
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+    return (char *) PyUnicode_AsUTF8AndSize(ob, NULL);
+}
+
+/* Number of bytes (not of characters) in the encoded string. */
+static inline Py_ssize_t
+PyString_Size(PyObject *ob)
+{
+    Py_ssize_t size;
+
+    if (PyUnicode_AsUTF8AndSize(ob, &size) == NULL) return -1;
+    return size;
 }
 #endif
 
-- 
2.43.0


From 836f492985e8e461676dd11a3a46320fe8151845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 06/43] fix: UV variables read back as the values that were
 written

Integer and complex arrays were handed to MIRIAD with the wrong element
size, 'j' variables were read as shorts out of int storage (overflowing
the buffer), sliced arrays were written unpacked, strings came back with
their terminating null, and a failed probe escaped as a C++ exception.
---
 aipy/_miriad/miriad_wrap.cpp | 67 +++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 66ebb58..1df5c8e 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -242,23 +242,28 @@ PyObject * UVObject_trackvr(UVObject *self, PyObject *args) {
  * arrays as numpy arrays. */
 PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
-    int length, updated;
+    int length=0, updated;
     npy_intp dims[1];
-    PyArrayObject *rv;
+    PyArrayObject *rv=NULL;
     int elem_size;
 
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
         return NULL;
 
 
-    uvprobvr_c(self->tno, name, value, &length, &updated);
+    try {
+        uvprobvr_c(self->tno, name, value, &length, &updated);
+    } catch (MiriadError &e) {
+        PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+        return NULL;
+    }
 
     switch (type[0]) {
     case 'a':
         elem_size = 1;
         break;
-    case 'j':
-        elem_size = 2;
+    case 'j':   // held as int internally
+        elem_size = 4;
         break;
     case 'i':
         elem_size = 4;
@@ -277,7 +282,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         return NULL;
     }
 
-    if (length * elem_size > MAXVAR) {
+    // Strings are followed by a terminating null
+    if (length > (MAXVAR - 1) / elem_size) {
         PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
                      "internal buffers", name);
         return NULL;
@@ -288,15 +294,17 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         switch (type[0]) {
             case 'a':
                 uvgetvr_c(self->tno,H_BYTE,name,value,length+1);
+                // wrvr stores the terminating null as part of the string
+                while (length > 0 && value[length-1] == 0) length--;
                 return PyString_FromStringAndSize(value, length);
             case 'j':
                 uvgetvr_c(self->tno,H_INT2,name,value,length);
                 if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
+                    return PyInt_FromLong((long) ((int *)value)[0]);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
                 CHK_NULL(rv);
                 for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
+                    IND1(rv,i,int) = ((int *)value)[i];
                 return PyArray_Return(rv);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
@@ -307,10 +315,10 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'c':
                 if (length == 1) {
                     uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 }
-                rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
+                rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CFLOAT);
                 CHK_NULL(rv);
                 uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
                 return PyArray_Return(rv);
@@ -318,18 +326,28 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
                 return NULL; /* can't happen with previous switch */
         }
     } catch (MiriadError &e) {
+        Py_XDECREF(rv);
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
 }
 
-#define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
+// MIRIAD takes a packed array of its own element type: convert to that (py_type
+// is accepted along with npy_type, the type that rdvr returns)
+#define STORE_ARR(py_type,npy_type,htype) \
+    if (TYPE(wr_arr) != npy_type) CHK_ARRAY_TYPE(wr_arr,py_type); \
+    packed = (PyArrayObject *) PyArray_FROM_OTF(wr_val, npy_type, \
+        NPY_ARRAY_CARRAY_RO | NPY_ARRAY_FORCECAST); \
+    if (packed == NULL) return NULL; \
+    uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(packed),DIM(packed,0));
+
+#define STORE_IA(py_type,npy_type,htype,chk_type,type,pyconverter) \
     if (PyArray_Check(wr_val)) { \
-        CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
+        STORE_ARR(py_type,npy_type,htype); \
     } else { \
         chk_type(wr_val); \
         ((type *)value)[0] = (type) pyconverter(wr_val); \
+        if (PyErr_Occurred()) return NULL; \
         uvputvr_c(self->tno,htype,name,value,1); }
 
 /* wrvr is the complement of rdvr that uses uvputvr_c to write variables of
@@ -338,7 +356,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
     char *st;
     PyObject *wr_val;
-    PyArrayObject *wr_arr=NULL;
+    PyArrayObject *wr_arr=NULL, *packed=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
     if (PyArray_Check(wr_val)) {
         wr_arr = (PyArrayObject *) wr_val;
@@ -349,29 +367,28 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                if (st == NULL) return NULL;
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                STORE_IA(NPY_LONG,NPY_INT,H_INT2,CHK_INT,int,PyInt_AsLong);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_IA(NPY_LONG,NPY_INT,H_INT,CHK_INT,int,PyInt_AsLong);
                 break;
             case 'r':
-                STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
+                STORE_IA(NPY_FLOAT,NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
                 break;
             case 'd':
-                STORE_IA(NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
+                STORE_IA(NPY_DOUBLE,NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
                 break;
             case 'c':
                 if (PyArray_Check(wr_val)) {
-                    CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+                    STORE_ARR(NPY_CDOUBLE,NPY_CFLOAT,H_CMPLX);
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
+                    ((float *)value)[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    ((float *)value)[1] = (float) PyComplex_ImagAsDouble(wr_val);
                     uvputvr_c(self->tno,H_CMPLX,name,value,1);
                 }
                 break;
@@ -379,9 +396,11 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 PyErr_Format(PyExc_ValueError, "unknown UV variable type: %c", type[0]);
                 return NULL;
         }
+        Py_XDECREF(packed);
         Py_INCREF(Py_None);
         return Py_None;
     } catch (MiriadError &e) {
+        Py_XDECREF(packed);
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
-- 
2.43.0


From 220e7789efbff209002d9df00edc96d36ffcef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 07/43] fix: header items read back as the values that were
 written

16-bit items overflowed a short, text was decoded byte by byte and kept
the type tag of items written by MIRIAD, mixed-type items named a module
that does not exist, and failed closes and conversions went unreported.
---
 aipy/_miriad/miriad_wrap.cpp | 25 ++++++++++++++-----------
 aipy/miriad.py               | 13 ++++++++-----
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 1df5c8e..50a9655 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -448,6 +448,7 @@ PyObject * WRAP_hdaccess(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "i", &item_hdl)) return NULL;
     try {
         hdaccess_c(item_hdl, &iostat);
+        CHK_IO(iostat);
         Py_INCREF(Py_None);
         return Py_None;
     } catch (MiriadError &e) {
@@ -535,7 +536,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char *st;
+    int in; long lg; float fl; double db; float cx[2]; char *st;
     if (!PyArg_ParseTuple(args, "iiOs", &item_hdl, &offset, &val, &type))
         return NULL;
     try {
@@ -543,6 +544,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                if (st == NULL) return NULL;
                 in = PyString_Size(val); // # bytes to write
                 hwriteb_c(item_hdl, st, offset, in, &iostat);
                 CHK_IO(iostat);
@@ -551,20 +553,23 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'i':
                 CHK_INT(val);
                 in = (int) PyInt_AsLong(val);
+                if (PyErr_Occurred()) return NULL;
                 hwritei_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT_SIZE;
                 break;
             case 'j':
                 CHK_INT(val);
-                sh = (short) PyInt_AsLong(val);
-                hwritej_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                in = (int) PyInt_AsLong(val);
+                if (PyErr_Occurred()) return NULL;
+                hwritej_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT2_SIZE;
                 break;
             case 'l':
                 CHK_LONG(val);
                 lg = PyLong_AsLong(val);
+                if (PyErr_Occurred()) return NULL;
                 hwritel_c(item_hdl, &lg, offset, H_INT8_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT8_SIZE;
@@ -608,7 +613,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val, *rv;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char st[2];
+    int in; long lg; float fl; double db; float cx[2]; char st[2];
     if (!PyArg_ParseTuple(args, "iis", &item_hdl, &offset, &type))
         return NULL;
     try {
@@ -616,19 +621,16 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
-#if PY_MAJOR_VERSION >= 3
-                return Py_BuildValue("yi", st, H_BYTE_SIZE);
-#else
-                return Py_BuildValue("si", st, H_BYTE_SIZE);
-#endif
+                return Py_BuildValue("Ni", PyBytes_FromStringAndSize(st, H_BYTE_SIZE),
+                                     H_BYTE_SIZE);
             case 'i':
                 hreadi_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
                 return Py_BuildValue("ii", in, H_INT_SIZE);
             case 'j':
-                hreadj_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                hreadj_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
-                return Py_BuildValue("ii", sh, H_INT2_SIZE);
+                return Py_BuildValue("ii", in, H_INT2_SIZE);
             case 'l':
                 hreadl_c(item_hdl, &lg, offset, H_INT8_SIZE, &iostat);
                 CHK_IO(iostat);
@@ -645,6 +647,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
                 hreadc_c(item_hdl, cx, offset, H_CMPLX_SIZE, &iostat);
                 CHK_IO(iostat);
                 val = PyComplex_FromDoubles((double) cx[0], (double) cx[1]);
+                if (val == NULL) return NULL;
                 rv = Py_BuildValue("Oi", val, H_CMPLX_SIZE);
                 Py_DECREF(val);
                 return rv;
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..e684c2f 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,16 +119,19 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
+                if itype == 'a': c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                # Decode the whole text: a character may span several bytes
+                rv = b''.join(rv)
+                # Items written by MIRIAD itself may start with a type tag
+                if rv.startswith(b'\x00\x00\x00\x01'): rv = rv[4:]
+                if not isinstance(rv, str): rv = rv.decode('utf-8')
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-                v, o = _miread.hread(h, offset, t)
+                v, o = _miriad.hread(h, offset, t)
                 rv.append(v); offset += o
         _miriad.hdaccess(h)
         if len(rv) == 1: return rv[0]
-- 
2.43.0


From 5f55bc3423504ae6c6506cb08b6d3c96d68afe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 08/43] fix: reading releases its arrays when MIRIAD reports an
 error

---
 aipy/_miriad/miriad_wrap.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 50a9655..eed40ab 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -110,23 +110,26 @@ PyObject * UVObject_rewind(UVObject *self) {
  * and polarization codes, and returning a tuple of all results.
  */
 PyObject * UVObject_read(UVObject *self, PyObject *args) {
-    PyArrayObject *data, *flags, *uvw;
-    PyObject *rv;
+    PyArrayObject *data=NULL, *flags=NULL, *uvw=NULL;
+    PyObject *rv=NULL;
     int nread, n2read, i, j;
-    double preamble[PREAMBLE_SIZE];
+    double preamble[PREAMBLE_SIZE] = {0};
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     // Make numpy arrays to hold the results
     npy_intp data_dims[1] = {n2read};
     data = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_CFLOAT);
-    CHK_NULL(data);
     flags = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_INT);
-    CHK_NULL(flags);
+    if (data == NULL || flags == NULL) {
+        Py_XDECREF(data); Py_XDECREF(flags);
+        return NULL;
+    }
     while (1) {
         // Here is the MIRIAD call
         try {
             uvread_c(self->tno, preamble,
                      (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), n2read, &nread);
         } catch (MiriadError &e) {
+            Py_DECREF(data); Py_DECREF(flags);
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
         }
@@ -141,7 +144,10 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     npy_intp uvw_dims[1] = {3};
     uvw = (PyArrayObject *) PyArray_SimpleNew(1, uvw_dims, NPY_DOUBLE);
-    CHK_NULL(uvw);
+    if (uvw == NULL) {
+        Py_DECREF(data); Py_DECREF(flags);
+        return NULL;
+    }
     IND1(uvw,0,double) = preamble[0];
     IND1(uvw,1,double) = preamble[1];
     IND1(uvw,2,double) = preamble[2];
@@ -150,7 +156,6 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     rv = Py_BuildValue("((Od(ii))OOi)",
         (PyObject *)uvw, preamble[3], i, j,
         (PyObject *)data, (PyObject *)flags, nread);
-    CHK_NULL(rv);
     Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
     return rv;
 }
-- 
2.43.0


From 05e85cfb90395438f2437e65605a33054e1a33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 09/43] fix: reject arrays and decimations the native code
 cannot handle

The flag type test could never fail where int and long differ, strided
arrays were written as if packed, and a decimation of 0 divided by zero.
---
 aipy/_miriad/miriad_wrap.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index eed40ab..398cc9d 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -183,10 +183,15 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(data, NPY_CFLOAT);
     // Check for both int,long, b/c label of 32b number is platform dependent
     if (TYPE(flags) != NPY_INT && \
-            (sizeof(int) == sizeof(long) && TYPE(flags) != NPY_LONG)) {
+            !(sizeof(int) == sizeof(long) && TYPE(flags) == NPY_LONG)) {
         PyErr_Format(PyExc_ValueError, "type(flags) != NPY_LONG or NPY_INT");
         return NULL;
     }
+    // MIRIAD is handed plain pointers
+    if (!PyArray_IS_C_CONTIGUOUS(data) || !PyArray_IS_C_CONTIGUOUS(flags)) {
+        PyErr_Format(PyExc_ValueError, "data and flags must be contiguous");
+        return NULL;
+    }
     // Fill up the preamble
     preamble[0] = IND1(uvw,0,double);
     preamble[1] = IND1(uvw,1,double);
@@ -418,6 +423,10 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     int include;
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
     if (strncmp(name,"decimation",5) == 0) {
+        if (!(n1 >= 1)) {
+            PyErr_Format(PyExc_ValueError, "decimation must be at least 1");
+            return NULL;
+        }
         self->decimate = (long) n1;
         self->decphase = (long) n2;
     } else {
-- 
2.43.0


From d5f9915130b7f9791b81bb0921d206e8880e57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 10/43] fix: address rows of a gridding buffer by the length of
 a row

Rows were addressed by the number of rows, reading and writing outside
any buffer that is not square.
---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From 1789a5172ed42c651c4df44a38b401ddd8a6f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 11/43] fix: deconv and utils release what they hold and read
 what they checked

Arguments were not required to be arrays, unsupported types leaked every
argument, ranks other than 1 and 2 (and empty arrays) were processed as
2-d images, the area mask was checked as long but read as int, and index
and size computations were truncated to int.
---
 aipy/_deconv/deconv.cpp | 40 ++++++++++++++++++++++++----------------
 aipy/utils/utils.cpp    | 10 +++++++---
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..468dd07 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -62,15 +62,15 @@ template<typename T> struct Clean {
         int dim1=DIM(res,0), dim2=DIM(res,1), wrap_n1, wrap_n2;
         T *best_mdl=NULL, *best_res=NULL;
         if (!stop_if_div) {
-            best_mdl = (T *)malloc(dim1*dim2*sizeof(T));
-            best_res = (T *)malloc(dim1*dim2*sizeof(T));
+            best_mdl = (T *)malloc(sizeof(T)*dim1*dim2);
+            best_res = (T *)malloc(sizeof(T)*dim1*dim2);
         }
         // Compute gain/phase of kernel
         for (int n1=0; n1 < dim1; n1++) {
             for (int n2=0; n2 < dim2; n2++) {
                 val = IND2(ker,n1,n2,T);
                 mval = val * val;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq && IND2(area,n1,n2,long)) {
                     mq = mval;
                     q = val;
                 }
@@ -92,7 +92,7 @@ template<typename T> struct Clean {
                     val = IND2(res,wrap_n1,wrap_n2,T);
                     mval = val * val;
                     nscore += mval;
-                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         max = val;
                         mmax = mval;
@@ -169,14 +169,14 @@ template<typename T> struct Clean {
         int argmax=0, nargmax=0, dim=DIM(res,0), wrap_n;
         T *best_mdl=NULL, *best_res=NULL;
         if (!stop_if_div) {
-            best_mdl = (T *)malloc(dim*sizeof(T));
-            best_res = (T *)malloc(dim*sizeof(T));
+            best_mdl = (T *)malloc(sizeof(T)*dim);
+            best_res = (T *)malloc(sizeof(T)*dim);
         }
         // Compute gain/phase of kernel
         for (int n=0; n < dim; n++) {
             val = IND1(ker,n,T);
             mval = val * val;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq && IND1(area,n,long)) {
                 mq = mval;
                 q = val;
             }
@@ -195,7 +195,7 @@ template<typename T> struct Clean {
                 val = IND1(res,wrap_n,T);
                 mval = val * val;
                 nscore += mval;
-                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,int)) {
+                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     max = val;
                     mmax = mval;
@@ -264,8 +264,8 @@ template<typename T> struct Clean {
         int dim1=DIM(res,0), dim2=DIM(res,1), wrap_n1, wrap_n2;
         T *best_mdl=NULL, *best_res=NULL;
         if (!stop_if_div) {
-            best_mdl = (T *)malloc(2*dim1*dim2*sizeof(T));
-            best_res = (T *)malloc(2*dim1*dim2*sizeof(T));
+            best_mdl = (T *)malloc(2*sizeof(T)*dim1*dim2);
+            best_res = (T *)malloc(2*sizeof(T)*dim1*dim2);
         }
         // Compute gain/phase of kernel
         for (int n1=0; n1 < dim1; n1++) {
@@ -273,7 +273,7 @@ template<typename T> struct Clean {
                 valr = CIND2R(ker,n1,n2,T);
                 vali = CIND2I(ker,n1,n2,T);
                 mval = valr * valr + vali * vali;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq && IND2(area,n1,n2,long)) {
                     mq = mval;
                     qr = valr; qi = vali;
                 }
@@ -302,7 +302,7 @@ template<typename T> struct Clean {
                     vali = CIND2I(res,wrap_n1,wrap_n2,T);
                     mval = valr * valr + vali * vali;
                     nscore += mval;
-                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         maxr = valr; maxi = vali;
                         mmax = mval;
@@ -386,15 +386,15 @@ template<typename T> struct Clean {
         int argmax=0, nargmax=0, dim=DIM(res,0), wrap_n;
         T *best_mdl=NULL, *best_res=NULL;
         if (!stop_if_div) {
-            best_mdl = (T *)malloc(2*dim*sizeof(T));
-            best_res = (T *)malloc(2*dim*sizeof(T));
+            best_mdl = (T *)malloc(2*sizeof(T)*dim);
+            best_res = (T *)malloc(2*sizeof(T)*dim);
         }
         // Compute gain/phase of kernel
         for (int n=0; n < dim; n++) {
             valr = CIND1R(ker,n,T);
             vali = CIND1I(ker,n,T);
             mval = valr * valr + vali * vali;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq && IND1(area,n,long)) {
                 mq = mval;
                 qr = valr;
                 qi = vali;
@@ -421,7 +421,7 @@ template<typename T> struct Clean {
                 vali = CIND1I(res,wrap_n,T);
                 mval = valr * valr + vali * vali;
                 nscore += mval;
-                if (mval > mmax && IND1(area,wrap_n,int)) {
+                if (mval > mmax && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     maxr = valr;
                     maxi = vali;
@@ -513,6 +513,13 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         dim1 = DIM(res,0); dim2 = DIM(res,1);
         CHK_ARRAY_DIM(ker, 0, dim1); CHK_ARRAY_DIM(mdl, 0, dim1); CHK_ARRAY_DIM(area, 0, dim1);
         CHK_ARRAY_DIM(ker, 1, dim2); CHK_ARRAY_DIM(mdl, 1, dim2); CHK_ARRAY_DIM(area, 1, dim2);
+    } else {
+        PyErr_Format(PyExc_ValueError, "rank(res) must be 1 or 2");
+        return NULL;
+    }
+    if (PyArray_SIZE(res) < 1) {
+        PyErr_Format(PyExc_ValueError, "res is empty");
+        return NULL;
     }
     if (TYPE(res) != TYPE(ker) || TYPE(res) != TYPE(mdl)) {
         PyErr_Format(PyExc_ValueError, "array types must match");
@@ -561,6 +568,7 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
             rv = Clean<long double>::clean_2d_c(res,ker,mdl,area,gain,maxiter,tol,stop_if_div,verb,pos_def);
         }
     } else {
+        Py_DECREF(res); Py_DECREF(ker); Py_DECREF(mdl);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..84fef6d 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -56,7 +56,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +73,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -93,7 +93,8 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
@@ -144,6 +145,9 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     } else if (TYPE(a) == NPY_CLONGDOUBLE) {
         rv = AddStuff<long double>::caddloop(a,ind,data);
     } else {
+        Py_DECREF(a);
+        Py_DECREF(ind);
+        Py_DECREF(data);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
-- 
2.43.0


From 5775663a69eba2300386b076f652bb961e90d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 12/43] fix: gridding rejects buffers it would walk incorrectly

Strided arrays were read as packed ones, an empty buffer divided by zero
and the footprint was parsed with the wrong size.
---
 aipy/_dsp/dsp.c | 29 ++++++++++++++++++++++++++---
 aipy/_dsp/dsp.h |  4 ++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2c7dd67..dc72461 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -7,7 +7,7 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 1);
@@ -16,6 +16,13 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
     CHK_ARRAY_TYPE(ind, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_PACKED(buf);
+    CHK_ARRAY_PACKED(ind);
+    CHK_ARRAY_PACKED(dat);
+    if (PyArray_DIM(buf,0) < 1) {
+        PyErr_Format(PyExc_ValueError, "buf is empty");
+        return NULL;
+    }
     if (PyArray_DIM(ind,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -44,7 +51,7 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -55,6 +62,14 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_PACKED(buf);
+    CHK_ARRAY_PACKED(ind1);
+    CHK_ARRAY_PACKED(ind2);
+    CHK_ARRAY_PACKED(dat);
+    if (PyArray_DIM(buf,0) < 1 || PyArray_DIM(buf,1) < 1) {
+        PyErr_Format(PyExc_ValueError, "buf is empty");
+        return NULL;
+    }
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -85,7 +100,7 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -96,6 +111,14 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_PACKED(buf);
+    CHK_ARRAY_PACKED(ind1);
+    CHK_ARRAY_PACKED(ind2);
+    CHK_ARRAY_PACKED(dat);
+    if (PyArray_DIM(buf,0) < 1 || PyArray_DIM(buf,1) < 1) {
+        PyErr_Format(PyExc_ValueError, "buf is empty");
+        return NULL;
+    }
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index 7b3f673..a4a230f 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -22,5 +22,9 @@
         PyErr_Format(PyExc_ValueError, "rank(%s) != %s", \
         QUOTE(a), QUOTE(r)); \
         return NULL; }
+#define CHK_ARRAY_PACKED(a) \
+    if (!PyArray_IS_C_CONTIGUOUS(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is not contiguous", QUOTE(a)); \
+        return NULL; }
 
 #endif
-- 
2.43.0


From 630b103c7fd6dc890d01821ce2ce665580bdb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 13/43] fix: closing a data-set does not follow an item it has
 released

hclose_c closes items still in use, and closing may free the item whose
link the loop then followed.
---
 aipy/_miriad/mir/hio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index cbcff48..63348a8 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -452,7 +452,8 @@ void hclose_c(int tno)
 /* Close any open items. */
 
   t = hget_tree(tno);
-  for(item=t->itemlist; item != NULL; item = item->fwd){
+  for(item=t->itemlist; item != NULL; item = it2){
+    it2 = item->fwd;	/* closing an item may release it */
     if(item->flags & ACCESS_MODE){
       bugv_c('w',"Closing item -- %s",item->name);
       hdaccess_c(item->handle,&iostat);			check(iostat);
-- 
2.43.0


From d5001caf88914c7e7c8677364125f6807da82fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 14/43] fix: a damaged header does not cost a data-set slot

Reading the header of a data-set reported errors by throwing, out of the
function that would have given back the slot it had taken, and took a
negative item size from a damaged header for a huge length. A failed
write of the header left the header item open.
---
 aipy/_miriad/mir/hio.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 63348a8..21bac05 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -45,6 +45,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 
 #include "hio.h"
 #include "miriad.h"
@@ -264,7 +265,7 @@ void hflush_c(int tno,int *iostat)
   TREE *t;
   ITEM *item;
   char s[CACHE_ENT];
-  int offset,i,ihandle;
+  int offset,i,ihandle,stat;
 
   t = hget_tree(tno);
   *iostat = 0;
@@ -302,11 +303,13 @@ void hflush_c(int tno,int *iostat)
       if(!item->fd && !(item->flags & ITEM_NOCACHE)){
         Strcpy(s,item->name);
         s[CACHE_ENT-1] = item->size;
-        hwriteb_c(ihandle,s,offset,CACHE_ENT,iostat);		if(*iostat)return;
+        hwriteb_c(ihandle,s,offset,CACHE_ENT,iostat);
         offset += CACHE_ENT;
-        if(item->size > 0){
+        if(!*iostat && item->size > 0)
           hwriteb_c(ihandle,item->io[0].buf,offset,item->size,iostat);
-								if(*iostat)return;
+        if(*iostat){
+          hdaccess_c(ihandle,&stat);	/* report the first error */
+          return;
         }
 	item->io[0].state = IO_VALID;
 	item->flags |= ITEM_CACHE;
@@ -1283,11 +1286,11 @@ private void hcache_create_c(TREE *t,int *iostat)
 private void hcache_read_c(TREE *t,int *iostat)
 /*
   Read in all small items, which are stored in the file "header".
-  Errors should never happen when reading the cache. If they do,
-  abort completely.
+  An error (the file cannot be read, or is damaged) is returned, so that
+  the caller can give up the data-set it was opening.
 ------------------------------------------------------------------------*/
 {
-  int offset;
+  int offset,stat;
   ITEM *item;
   char s[CACHE_ENT];
   int ihandle;
@@ -1299,6 +1302,8 @@ private void hcache_read_c(TREE *t,int *iostat)
   offset = 0;
   while(hreadb_c(ihandle,s,offset,CACHE_ENT,iostat),!*iostat){
     offset += CACHE_ENT;
+    if(*(s+CACHE_ENT-1) < 0 || *(s+CACHE_ENT-1) > CACHESIZE ||
+       memchr(s,0,CACHE_ENT-1) == NULL){*iostat = EIO; break;}
     item = hcreate_item_c(t,s);
     item->size = *(s+CACHE_ENT-1);
     item->bsize = item->size;
@@ -1307,11 +1312,14 @@ private void hcache_read_c(TREE *t,int *iostat)
     item->io[0].length = item->size;
     item->io[0].state = IO_VALID;
     item->io[0].buf = Malloc(item->size);
-    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);	check(*iostat);
+    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);
+    if(*iostat == -1) *iostat = EIO;
+    if(*iostat)break;
     offset += mroundup(item->size,CACHE_ENT);
   }
-  if(*iostat != -1) bug_c('f',"hcache_read_c: Something wrong reading cache");
-  hdaccess_c(ihandle,iostat);
+  if(*iostat == -1) *iostat = 0;	/* the end of the header */
+  hdaccess_c(ihandle,&stat);
+  if(!*iostat) *iostat = stat;
 }
 /************************************************************************/
 private int hname_check(char *name)
-- 
2.43.0


From 36470be3030f2040877d2d762a3ed6be9b8207b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 15/43] fix: long or non-ASCII names do not corrupt memory

Error messages, data-set paths and the variable table were written past
the end of their buffers; the hash of a non-ASCII name was negative and
indexed before the start of the tables; and an open that found the table
of data-sets full left its count one higher for good.
---
 aipy/_miriad/mir/dio.c    |  5 +++++
 aipy/_miriad/mir/hio.c    | 12 ++++++------
 aipy/_miriad/mir/maskio.c | 14 +++++++++++++-
 aipy/_miriad/mir/uvio.c   | 22 ++++++++++++++++++----
 4 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 4adad9d..606dd61 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -88,6 +88,11 @@ void dtrans_c(char *inpath,char *outpath,int *iostat)
   char *s;
 
   *iostat = 0;
+
+/* Leave room for the '/', and for the name of an item. */
+
+  if(*inpath == 0){*iostat = ENOENT; return;}
+  if(strlen(inpath) >= MAXPATH - 32){*iostat = ENAMETOOLONG; return;}
   Strcpy(outpath,inpath);
   s = outpath + strlen(outpath) - 1;
   if(*s != '/')Strcat(outpath,"/");
diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 21bac05..5d7206c 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1456,10 +1456,10 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
 /* Hash the name. */
 
   s = name;
-  hash = nitem++;
-  if(nitem > MAXITEM)
+  if(nitem >= MAXITEM)
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
-  while(*s) hash += *s++;
+  hash = nitem++;
+  while(*s) hash += *(unsigned char *)s++;
   hash %= MAXITEM;
 
 /* Find a slot in the list of addresses, and allocate it. */
@@ -1503,10 +1503,10 @@ private TREE *hcreate_tree_c(char *name)
 /* Hash the name. */
 
   s = name;
-  hash = ntree++;
-  if(ntree > MAXOPEN)
+  if(ntree >= MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
-  while(*s) hash += *s++;
+  hash = ntree++;
+  while(*s) hash += *(unsigned char *)s++;
   hash %= MAXOPEN;
 
 /* Find a slot in the list of addresses, and allocate it. */
diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 91342b3..6debe68 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -20,18 +20,30 @@
 #include <Python.h>
 
 #define BUG(sev,a)   bug_c(sev,a)
-#define ERROR(sev,a) bug_c(sev,((void)sprintf a,message))
+#define ERROR(sev,a) bug_c(sev,((void)format_message a,message))
 #define CHECK(x) if(x) bugno_c('f',x)
 #define private static
 
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <stdarg.h>
 #include "miriad.h"
 
 
 static char message[128];
 
+static void format_message(char *out, Const char *fmt, ...)
+/*
+  Format an error message into "message", truncating what does not fit.
+------------------------------------------------------------------------*/
+{
+  va_list ap;
+  va_start(ap,fmt);
+  (void)vsnprintf(out,sizeof(message),fmt,ap);
+  va_end(ap);
+}
+
 #define BITS_PER_INT 31
 
 static int bits[BITS_PER_INT] = {
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..063778a 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -266,6 +266,7 @@
 #include <string.h>
 #include <math.h>
 #include <ctype.h>
+#include <stdarg.h>
 #include "io.h"
 #include "miriad.h"
 
@@ -326,8 +327,8 @@
 /*----------------------------------------------------------------------*/
 
 #define BUG(sev,a)   bug_c(sev,a)
-#define ERROR(sev,a) bug_c(sev,((void)sprintf a,message))
-#define CHECK(x,a) if(x) {  bug_c('w',((void)sprintf a,message)); \
+#define ERROR(sev,a) bug_c(sev,((void)format_message a,message))
+#define CHECK(x,a) if(x) {  bug_c('w',((void)format_message a,message)); \
 			    bugno_c('f',x);			 \
 			 }
 
@@ -360,6 +361,17 @@
 /*----------------------------------------------------------------------*/
 
 static char message[MAXLINE];
+
+static void format_message(char *out, Const char *fmt, ...)
+/*
+  Format an error message into "message", truncating what does not fit.
+------------------------------------------------------------------------*/
+{
+  va_list ap;
+  va_start(ap,fmt);
+  (void)vsnprintf(out,sizeof(message),fmt,ap);
+  va_end(ap);
+}
 static int internal_size[10];
 static int external_size[10];
 static char type_flag[10];
@@ -1240,6 +1252,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"Too many variables, creating %s in UVPUTVR",name));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
@@ -1248,7 +1262,7 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* Add it to the hash table. */
 
   hashval = 0;
-  while(*name)hashval += *name++;
+  while(*name)hashval += *(unsigned char *)name++;
   hashval %= HASHSIZE;
   v->fwd = uv->vhash[hashval];
   uv->vhash[hashval] = v;
@@ -1266,7 +1280,7 @@ private VARIABLE *uv_locvar(int tno,char *name)
   char *s;
 
   hashval = 0;
-  for(s=name; *s; s++) hashval += *s;
+  for(s=name; *s; s++) hashval += *(unsigned char *)s;
 
   for(v = uvs[tno]->vhash[hashval%HASHSIZE]; v != NULL; v = v->fwd)
 	if(!strcmp(v->name,name))break;
-- 
2.43.0


From 3a141ac8a1f6f161a808c5fcafec8f77735ab14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 16/43] fix: a header access that fails releases its item

Reading or writing a header item of the wrong type or size raised and left
the item open, so that every later access of the item failed.
---
 aipy/miriad.py | 108 +++++++++++++++++++++++++------------------------
 1 file changed, 56 insertions(+), 52 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index e684c2f..20047c6 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -110,30 +110,31 @@ class UV(_miriad.UV):
         itype = itemtable[name]
         if itype == '?': return self._rdhd_special(name)
         h = self.haccess(name, 'read')
-        rv = []
-        if len(itype) == 1:
-            if itype == 'a': offset = 0
+        try:
+            rv = []
+            if len(itype) == 1:
+                if itype == 'a': offset = 0
+                else:
+                    t, offset = _miriad.hread_init(h)
+                    assert(itype == t)
+                while True:
+                    try: c, o = _miriad.hread(h, offset, itype)
+                    except(IOError): break
+                    if itype == 'a': c = c[:o]
+                    rv.append(c)
+                    offset += o
+                if itype == 'a':
+                    # Decode the whole text: a character may span several bytes
+                    rv = b''.join(rv)
+                    # Items written by MIRIAD itself may start with a type tag
+                    if rv.startswith(b'\x00\x00\x00\x01'): rv = rv[4:]
+                    if not isinstance(rv, str): rv = rv.decode('utf-8')
             else:
-                t, offset = _miriad.hread_init(h)
-                assert(itype == t)
-            while True:
-                try: c, o = _miriad.hread(h, offset, itype)
-                except(IOError): break
-                if itype == 'a': c = c[:o]
-                rv.append(c)
-                offset += o
-            if itype == 'a':
-                # Decode the whole text: a character may span several bytes
-                rv = b''.join(rv)
-                # Items written by MIRIAD itself may start with a type tag
-                if rv.startswith(b'\x00\x00\x00\x01'): rv = rv[4:]
-                if not isinstance(rv, str): rv = rv.decode('utf-8')
-        else:
-            t, offset = _miriad.hread_init(h); assert(t == 'b')
-            for t in itype:
-                v, o = _miriad.hread(h, offset, t)
-                rv.append(v); offset += o
-        _miriad.hdaccess(h)
+                t, offset = _miriad.hread_init(h); assert(t == 'b')
+                for t in itype:
+                    v, o = _miriad.hread(h, offset, t)
+                    rv.append(v); offset += o
+        finally: _miriad.hdaccess(h)
         if len(rv) == 1: return rv[0]
         elif type(rv) == str: return rv
         else: return np.array(rv)
@@ -142,45 +143,48 @@ class UV(_miriad.UV):
         type = itemtable[name]
         if type == '?': return self._wrhd_special(name, val)
         h = self.haccess(name, 'write')
-        if len(type) == 1:
-            try: len(val)
-            except(TypeError): val = [val]
-            if type == 'a': offset = 0
-            else: offset = _miriad.hwrite_init(h, type)
-            for v in val: offset += _miriad.hwrite(h, offset, v, type)
-        else:
-            offset = _miriad.hwrite_init(h, 'b')
-            for v, t in zip(val,type): offset += _miriad.hwrite(h,offset,v,t)
-        _miriad.hdaccess(h)
+        try:
+            if len(type) == 1:
+                try: len(val)
+                except(TypeError): val = [val]
+                if type == 'a': offset = 0
+                else: offset = _miriad.hwrite_init(h, type)
+                for v in val: offset += _miriad.hwrite(h, offset, v, type)
+            else:
+                offset = _miriad.hwrite_init(h, 'b')
+                for v, t in zip(val,type): offset += _miriad.hwrite(h,offset,v,t)
+        finally: _miriad.hdaccess(h)
     def _rdhd_special(self, name):
         """Provide read access to special header items of type '?' to _rdhd"""
         if name == 'freqs':
             h = self.haccess(name, 'read')
-            c, o = _miriad.hread(h, 0, 'i')
-            rv = [c]; offset = 8
-            while True:
-                try:
-                    c, o = _miriad.hread(h, offset, 'i')
-                    rv.append(c); offset += 8
-                    c, o = _miriad.hread(h, offset, 'd')
-                    rv.append(c); offset += 8
-                    c, o = _miriad.hread(h, offset, 'd')
-                    rv.append(c); offset += 8
-                except(IOError): break
-            _miriad.hdaccess(h)
+            try:
+                c, o = _miriad.hread(h, 0, 'i')
+                rv = [c]; offset = 8
+                while True:
+                    try:
+                        c, o = _miriad.hread(h, offset, 'i')
+                        rv.append(c); offset += 8
+                        c, o = _miriad.hread(h, offset, 'd')
+                        rv.append(c); offset += 8
+                        c, o = _miriad.hread(h, offset, 'd')
+                        rv.append(c); offset += 8
+                    except(IOError): break
+            finally: _miriad.hdaccess(h)
             return rv
         else: raise ValueError('Unknown special header: ' + name)
     def _wrhd_special(self, name, val):
         """Provide write access to special header items of type '?' to _rdhd"""
         if name == 'freqs':
             h = self.haccess(name, 'write')
-            o = _miriad.hwrite(h, 0, val[0], 'i')
-            offset = 8
-            for i,v in enumerate(val[1:]):
-                if i % 3 == 0: o = _miriad.hwrite(h, offset, v, 'i')
-                else: o = _miriad.hwrite(h, offset, v, 'd')
-                offset += 8
-            _miriad.hdaccess(h)
+            try:
+                o = _miriad.hwrite(h, 0, val[0], 'i')
+                offset = 8
+                for i,v in enumerate(val[1:]):
+                    if i % 3 == 0: o = _miriad.hwrite(h, offset, v, 'i')
+                    else: o = _miriad.hwrite(h, offset, v, 'd')
+                    offset += 8
+            finally: _miriad.hdaccess(h)
         else: raise ValueError('Unknown special header: ' + name)
     def __getitem__(self, name):
         """Allow access to variables and header items via uv[name]."""
-- 
2.43.0


From 3a501d194a8af098040d53dfe775943987cb3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 17/43] fix: native code refuses arrays it may not write or
 cannot read as they are

Read-only arrays (a memory map, say) crashed the process when add2array,
clean or gridding wrote to them; byte-swapped ones were taken for native.
---
 aipy/_deconv/deconv.cpp      | 12 ++++++++++++
 aipy/_dsp/dsp.c              | 11 +++++++++++
 aipy/_dsp/dsp.h              | 10 ++++++++++
 aipy/_miriad/miriad_wrap.cpp |  4 ++++
 aipy/utils/utils.cpp         | 14 ++++++++++++++
 5 files changed, 51 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 468dd07..e543f4b 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -42,6 +42,16 @@
         QUOTE(a), QUOTE(r)); \
         return NULL; }
 
+#define CHK_ARRAY_BEHAVED(a) \
+    if (!PyArray_ISBEHAVED(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be writeable, aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_BEHAVED_RO(a) \
+    if (!PyArray_ISBEHAVED_RO(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
 
 // A template for implementing addition loops for different data types
 template<typename T> struct Clean {
@@ -529,6 +539,8 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         PyErr_Format(PyExc_ValueError, "area must by of type 'int'");
         return NULL;
     }
+    CHK_ARRAY_BEHAVED(res); CHK_ARRAY_BEHAVED_RO(ker);
+    CHK_ARRAY_BEHAVED(mdl); CHK_ARRAY_BEHAVED_RO(area);
     Py_INCREF(res); Py_INCREF(ker); Py_INCREF(mdl);
     // Use template to implement data loops for all data types
     if (TYPE(res) == NPY_FLOAT) {
diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index dc72461..e0fed84 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -17,8 +17,11 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
     CHK_ARRAY_PACKED(buf);
+    CHK_ARRAY_BEHAVED(buf);
     CHK_ARRAY_PACKED(ind);
+    CHK_ARRAY_BEHAVED_RO(ind);
     CHK_ARRAY_PACKED(dat);
+    CHK_ARRAY_BEHAVED_RO(dat);
     if (PyArray_DIM(buf,0) < 1) {
         PyErr_Format(PyExc_ValueError, "buf is empty");
         return NULL;
@@ -63,9 +66,13 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
     CHK_ARRAY_PACKED(buf);
+    CHK_ARRAY_BEHAVED(buf);
     CHK_ARRAY_PACKED(ind1);
+    CHK_ARRAY_BEHAVED_RO(ind1);
     CHK_ARRAY_PACKED(ind2);
+    CHK_ARRAY_BEHAVED_RO(ind2);
     CHK_ARRAY_PACKED(dat);
+    CHK_ARRAY_BEHAVED_RO(dat);
     if (PyArray_DIM(buf,0) < 1 || PyArray_DIM(buf,1) < 1) {
         PyErr_Format(PyExc_ValueError, "buf is empty");
         return NULL;
@@ -112,9 +119,13 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
     CHK_ARRAY_PACKED(buf);
+    CHK_ARRAY_BEHAVED_RO(buf);
     CHK_ARRAY_PACKED(ind1);
+    CHK_ARRAY_BEHAVED_RO(ind1);
     CHK_ARRAY_PACKED(ind2);
+    CHK_ARRAY_BEHAVED_RO(ind2);
     CHK_ARRAY_PACKED(dat);
+    CHK_ARRAY_BEHAVED(dat);
     if (PyArray_DIM(buf,0) < 1 || PyArray_DIM(buf,1) < 1) {
         PyErr_Format(PyExc_ValueError, "buf is empty");
         return NULL;
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index a4a230f..b6184a0 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -26,5 +26,15 @@
     if (!PyArray_IS_C_CONTIGUOUS(a)) { \
         PyErr_Format(PyExc_ValueError, "%s is not contiguous", QUOTE(a)); \
         return NULL; }
+#define CHK_ARRAY_BEHAVED(a) \
+    if (!PyArray_ISBEHAVED(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be writeable, aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_BEHAVED_RO(a) \
+    if (!PyArray_ISBEHAVED_RO(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
 
 #endif
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 398cc9d..6793cfa 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -192,6 +192,10 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
         PyErr_Format(PyExc_ValueError, "data and flags must be contiguous");
         return NULL;
     }
+    if (!PyArray_ISBEHAVED_RO(uvw) || !PyArray_ISBEHAVED_RO(data) || !PyArray_ISBEHAVED_RO(flags)) {
+        PyErr_Format(PyExc_ValueError, "uvw, data and flags must be aligned and in native byte order");
+        return NULL;
+    }
     // Fill up the preamble
     preamble[0] = IND1(uvw,0,double);
     preamble[1] = IND1(uvw,1,double);
diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index 84fef6d..6eeaf32 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -43,6 +43,17 @@
         QUOTE(a), QUOTE(r)); \
         return NULL; }
 
+#define CHK_ARRAY_BEHAVED(a) \
+    if (!PyArray_ISBEHAVED(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be writeable, aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
+#define CHK_ARRAY_BEHAVED_RO(a) \
+    if (!PyArray_ISBEHAVED_RO(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
+
 #define ADD(ptr0,ptr1,type) \
     *((type *)ptr0) += *((type *)ptr1);
 
@@ -100,6 +111,9 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
     CHK_ARRAY_DIM(ind, 1, RANK(a));
     CHK_ARRAY_TYPE(ind, NPY_LONG);
+    CHK_ARRAY_BEHAVED(a);
+    CHK_ARRAY_BEHAVED_RO(ind);
+    CHK_ARRAY_BEHAVED_RO(data);
     if (TYPE(a) != TYPE(data)) {
         printf("%d %d\n", TYPE(a), TYPE(data));
         PyErr_Format(PyExc_ValueError, "type(%s) != type(%s)",
-- 
2.43.0


From ea9e0b65cf73b2487a925c79374c8e37c5af5712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 18/43] fix: a UV variable written often, or set between
 records, is remembered as written

---
 aipy/_miriad/mir/uvio.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 063778a..8adc019 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1747,7 +1747,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
     uv->offset += UV_ALIGN;
-    if( !(v->flags & UVF_NOCHECK) )
+    if( data != v->buf )
       v->buf = Realloc(v->buf,n*internal_size[type]);
   }
 
@@ -1775,12 +1775,13 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
     uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
-    if(v->callno++ > CHECK_THRESH) {
+    if(v->callno++ > CHECK_THRESH)
       v->flags |= UVF_NOCHECK;
-    } else if(!(v->flags & UVF_NOCHECK)){
-      length = internal_size[type] * n;
-      memcpy(v->buf,data,length);
-    } 
+
+/* Remember the value, even if it is not going to be checked. */
+
+    if( data != v->buf )
+      memcpy(v->buf,data,internal_size[type]*n);
   } else {
     v->callno = 0;
   }
@@ -2118,20 +2119,15 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
   d = (double *)(uv->coord->buf);
   nuvw = (uv->flags & UVF_DOW ? 3 : 2);
-  if( *d != *preamble || *(d+1) != *(preamble+1) || 
-      ( nuvw == 3 && *(d+2) != *(preamble+2) ) ){
+  if( uv->coord->length != nuvw*H_DBLE_SIZE ||
+      *d != *preamble || *(d+1) != *(preamble+1) || 
+      ( nuvw == 3 && *(d+2) != *(preamble+2) ) )
     uvputvrd_c(tno,"coord",preamble,nuvw);
-    *d = *preamble;
-    *(d+1) = *(preamble+1);
-    if(nuvw == 3) *(d+2) = *(preamble+2);
-  }
   preamble += nuvw;
 
   dtemp = *preamble++;
-  if( dtemp != *(double *)(uv->time->buf) ){
+  if( dtemp != *(double *)(uv->time->buf) )
     uvputvrd_c(tno,"time",&dtemp,1);
-    *(double *)(uv->time->buf) = dtemp;
-  }
 
   temp = *preamble++;
   if( temp != *(float *)(uv->bl->buf) ){
@@ -2139,7 +2135,6 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     uvbasant_c(itemp,&i1,&i2);
     uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
     uvputvrr_c(tno,"baseline",&temp,1);
-    *(float *)(uv->bl->buf) = temp;
   }
 
 /* Write an end-of-record marker. */
-- 
2.43.0


From 42529d0b0138d7e2dc4447d6a65d49136c5d6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 19/43] fix: an integer that does not fit its stored type is
 refused, not truncated

---
 aipy/_miriad/miriad_wrap.cpp | 24 ++++++++++++++++++++----
 aipy/_miriad/miriad_wrap.h   |  4 ++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 6793cfa..2c302ab 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -364,11 +364,23 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         if (PyErr_Occurred()) return NULL; \
         uvputvr_c(self->tno,htype,name,value,1); }
 
+#define STORE_INT(py_type,npy_type,htype,bits) \
+    if (PyArray_Check(wr_val)) { \
+        STORE_ARR(py_type,npy_type,htype); \
+    } else { \
+        CHK_INT(wr_val); \
+        lg = PyInt_AsLong(wr_val); \
+        if (PyErr_Occurred()) return NULL; \
+        CHK_RANGE(lg,bits); \
+        ((int *)value)[0] = (int) lg; \
+        uvputvr_c(self->tno,htype,name,value,1); }
+
 /* wrvr is the complement of rdvr that uses uvputvr_c to write variables of
  * various types.  Accepts numpy arrays for writing. */
 PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
     char *st;
+    long lg;
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL, *packed=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
@@ -385,10 +397,10 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,NPY_INT,H_INT2,CHK_INT,int,PyInt_AsLong);
+                STORE_INT(NPY_LONG,NPY_INT,H_INT2,16);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,NPY_INT,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_INT(NPY_LONG,NPY_INT,H_INT,32);
                 break;
             case 'r':
                 STORE_IA(NPY_FLOAT,NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
@@ -570,16 +582,20 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
                 break;
             case 'i':
                 CHK_INT(val);
-                in = (int) PyInt_AsLong(val);
+                lg = PyInt_AsLong(val);
                 if (PyErr_Occurred()) return NULL;
+                CHK_RANGE(lg,32);
+                in = (int) lg;
                 hwritei_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT_SIZE;
                 break;
             case 'j':
                 CHK_INT(val);
-                in = (int) PyInt_AsLong(val);
+                lg = PyInt_AsLong(val);
                 if (PyErr_Occurred()) return NULL;
+                CHK_RANGE(lg,16);
+                in = (int) lg;
                 hwritej_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT2_SIZE;
diff --git a/aipy/_miriad/miriad_wrap.h b/aipy/_miriad/miriad_wrap.h
index bd2fc1d..7cccad6 100644
--- a/aipy/_miriad/miriad_wrap.h
+++ b/aipy/_miriad/miriad_wrap.h
@@ -51,6 +51,10 @@
     if (!PyInt_Check(o) && !PyIndex_Check(o)) { \
         PyErr_Format(PyExc_ValueError, "expected an int"); \
         return NULL; }
+#define CHK_RANGE(v,bits) \
+    if ((v) < -(1L << (bits-1)) || (v) >= (1L << (bits-1))) { \
+        PyErr_Format(PyExc_OverflowError, "%ld does not fit %d bits", v, bits); \
+        return NULL; }
 #define CHK_LONG(o) \
     if (!PyLong_Check(o) && !PyIndex_Check(o)) { \
         PyErr_Format(PyExc_ValueError, "expected a long"); \
-- 
2.43.0


From 2dd52116f2bad8c9346d18ee2a388c9f6f411cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 20/43] fix: MIRIAD I/O errors on open, table scan and mask
 reopen are reported

---
 aipy/_miriad/mir/dio.c    | 6 +++++-
 aipy/_miriad/mir/maskio.c | 2 +-
 aipy/_miriad/mir/uvio.c   | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 606dd61..61c8aa6 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -182,7 +182,11 @@ void dopen_c(int *fd,char *name,char *status,off64_t *size,int *iostat)
   flags |= O_LARGEFILE;
 #endif
   if((*fd = open(s,flags,0644)) < 0){*iostat = errno; return;}
-  *size = Lseek(*fd,0,SEEK_END);
+  if((*size = Lseek(*fd,0,SEEK_END)) < 0){
+    *iostat = errno;
+    (void)close(*fd);
+    return;
+  }
 
 /* If its a scratch file, unlink it now, so that the file will disappear
    when it is closed (or this program crashes). */
diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 6debe68..6aafb8a 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -265,7 +265,7 @@ void mkwrite_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
 /* If the mask is currently read-only, close it and reopen it as read/write. */
 
   if(mask->rdonly){
-    hdaccess_c(mask->item,&iostat);
+    hdaccess_c(mask->item,&iostat);			CHECK(iostat);
     haccess_c(mask->tno,&(mask->item),mask->name,"append",&iostat);
     if(iostat){
       bug_c('w',"Error opening mask/flagging file in read/write mode\n");
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 8adc019..e1822c2 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1199,6 +1199,7 @@ private void uv_override(UV *uv)
   if(iostat != -1) ERROR('f',(message,
 	"Error %d when performing override checks, in UVOPEN",iostat));
   hdaccess_c(item,&iostat);
+  CHECK(iostat,(message,"Error closing directory listing, in UVOPEN(override)"));
 }
 /************************************************************************/
 private void uv_vartable_in(UV *uv)
@@ -1227,7 +1228,9 @@ private void uv_vartable_in(UV *uv)
     }
     (void)uv_mkvar(uv->tno,name,type);
   }
+  if(iostat != -1) CHECK(iostat,(message,"Error reading vartable, in UVOPEN(vartable_in)"));
   hdaccess_c(item,&iostat);
+  CHECK(iostat,(message,"Error closing vartable, in UVOPEN(vartable_in)"));
   uv->saved_nvar = uv->nvar;
 }
 /************************************************************************/
-- 
2.43.0


From fbf0d70c83a18cb48229e278579b03971b8bb976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 21/43] fix: a damaged UV stream or vartable does not index
 outside its tables

---
 aipy/_miriad/mir/uvio.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index e1822c2..0ae645c 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1209,13 +1209,14 @@ private void uv_vartable_in(UV *uv)
 ------------------------------------------------------------------------*/
 {
   int item;
-  char line[MAXLINE],name[MAXNAM+1],ctype;
+  char line[MAXLINE],name[MAXLINE],ctype;
   int iostat,type = 0;
 
   haccess_c(uv->tno,&item,"vartable","read",&iostat);
   CHECK(iostat,(message,"Error opening vartable, in UVOPEN(vartable_in)"));
 
   while(hreada_c(item,line,(int)sizeof(line),&iostat),!iostat){
+    ctype = name[0] = 0;
     Sscanf(line,"%c %s",&ctype,name);
     switch(ctype){
       case 'a': type = H_BYTE;	break;
@@ -1904,7 +1905,10 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      i = *(unsigned char *)s;
+      if(i >= uv->nvar)
+        ERROR('f',(message,"Undefined variable number %d, when scanning",i));
+      v = &uv->variable[i];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
-- 
2.43.0


From 84777c34a0f1cdc3d294cec51a19bc3449e93cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 22/43] fix: an I/O error in a header item is not taken for its
 end

---
 aipy/_miriad/miriad_wrap.h |  4 +++-
 aipy/miriad.py             | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.h b/aipy/_miriad/miriad_wrap.h
index 7cccad6..91ff361 100644
--- a/aipy/_miriad/miriad_wrap.h
+++ b/aipy/_miriad/miriad_wrap.h
@@ -1,6 +1,7 @@
 #ifndef _MIRIAD_WRAP_H_
 #define _MIRIAD_WRAP_H_
 
+#include <errno.h>
 #include "miriad.h"
 #include "hio.h"
 #include "io.h"
@@ -16,7 +17,8 @@
 
 #define CHK_IO(i) \
     if (i != 0) { \
-        PyErr_Format(PyExc_IOError, "IO failed"); \
+        if (i == -1) PyErr_Format(PyExc_IOError, "IO failed"); \
+        else { errno = i; PyErr_SetFromErrno(PyExc_IOError); } \
         return NULL; }
 
 
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 20047c6..c25aeea 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,7 +119,10 @@ class UV(_miriad.UV):
                     assert(itype == t)
                 while True:
                     try: c, o = _miriad.hread(h, offset, itype)
-                    except(IOError): break
+                    except(IOError) as e:
+                        # Only the end of the item carries no errno
+                        if e.errno is not None: raise
+                        break
                     if itype == 'a': c = c[:o]
                     rv.append(c)
                     offset += o
@@ -169,7 +172,10 @@ class UV(_miriad.UV):
                         rv.append(c); offset += 8
                         c, o = _miriad.hread(h, offset, 'd')
                         rv.append(c); offset += 8
-                    except(IOError): break
+                    except(IOError) as e:
+                        # Only the end of the item carries no errno
+                        if e.errno is not None: raise
+                        break
             finally: _miriad.hdaccess(h)
             return rv
         else: raise ValueError('Unknown special header: ' + name)
-- 
2.43.0


From dcf81890be3ebd1793ef092f0dcd96322e2a796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 23/43] fix: appending to a data-set keeps that it mixes auto
 and cross correlations

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0ae645c..258d50b 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -827,6 +827,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
     rdhda_c(*tno,"obstype",line,"",MAXLINE);
     if(!strcmp(line,"autocorrelation"))		uv->flags |= UVF_AUTO;
     else if(!strcmp(line,"crosscorrelation"))	uv->flags |= UVF_CROSS;
+    else if(!strcmp(line,"mixed-auto-cross"))	uv->flags |= UVF_AUTO|UVF_CROSS;
     {
         int8 n;
         rdhdl_c(*tno,"ncorr",&n,-1);
-- 
2.43.0


From ccff326746133e66cd36d907c56aff7fcfdcfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 24/43] fix: calibration modules are found, and errors name
 what exists, under Python 3

---
 aipy/cal.py       | 13 ++++++++-----
 aipy/coord.py     |  4 ++--
 aipy/twodgauss.py |  3 +--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index b763540..851ce5f 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -26,8 +26,9 @@ def get_aa(*args):
         cal_key,sdf,sfreq,nchan = args
         freqs = get_freqs(sdf, sfreq, nchan)
     sys.path.append(os.getcwd())
-    exec('from %s import get_aa as _get_aa' % cal_key)
-    return _get_aa(freqs)
+    ns = {}
+    exec('from %s import get_aa' % cal_key, ns)
+    return ns['get_aa'](freqs)
 
 def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     '''Return the source catalog specified by cal_key, which should be the
@@ -38,6 +39,8 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     specified srcs, cutoff.  If no such function is found, src.get_catalog()
     is called instead.'''
     sys.path.append(os.getcwd())
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key)
-    except(ImportError): _get_catalog = src.get_catalog
-    return _get_catalog(srcs=srcs, cutoff=cutoff, catalogs=catalogs)
+    ns = {'get_catalog': src.get_catalog}
+    if not cal_key is None:
+        try: exec('from %s import get_catalog' % cal_key, ns)
+        except(ImportError): pass
+    return ns['get_catalog'](srcs=srcs, cutoff=cutoff, catalogs=catalogs)
diff --git a/aipy/coord.py b/aipy/coord.py
index d3c3fda..5c3bf0c 100644
--- a/aipy/coord.py
+++ b/aipy/coord.py
@@ -66,7 +66,7 @@ def xyz2thphi(xyz):
         try:
             return np.ma.array([th.filled(0),phi.filled(0)],
                 mask=[x.mask,x.mask], dtype=np.double)
-        except(np.core.ma.MAError):
+        except(np.ma.MAError):
             return np.ma.array([th,phi], dtype=np.double)
     return np.array([th,phi], dtype=np.double)
 
@@ -81,7 +81,7 @@ def thphi2xyz(th_phi):
         try:
             return np.ma.array([x.filled(),y.filled(),z.filled()],
                 mask=[th.mask, th.mask, th.mask], dtype=np.double)
-        except(np.core.ma.MAError):
+        except(np.ma.MAError):
             return np.ma.array([x,y,z], dtype=np.double)
     return np.array([x,y,z], dtype=np.double)
 
diff --git a/aipy/twodgauss.py b/aipy/twodgauss.py
index 285ed94..894a2cc 100644
--- a/aipy/twodgauss.py
+++ b/aipy/twodgauss.py
@@ -40,8 +40,7 @@ def twodgaussian(inpars,shape=None):
     rcen_y = center_y
     if len(inpars) > 0:
         raise ValueError("There are still input parameters:" + str(inpars) + \
-                        " and you've input: " + str(inpars_old) + \
-                        " circle=%d, rotate=%d, vheight=%d" % (circle,rotate,vheight) )
+                        " and you've input: " + str(inpars_old))
     def rotgauss(x,y):
         xp = x
         yp = y
-- 
2.43.0


From dd513fcf6b62e65cea643e750f18a442ad492610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 25/43] fix: FITS files are written with the interface the
 installed astropy has

---
 aipy/healpix.py | 18 +++++++++---------
 aipy/img.py     |  8 ++++----
 aipy/map.py     |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..b1f6c5d 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -300,15 +300,15 @@ class HealpixMap(HealpixBase):
         scheme= hdu.header['ORDERING'][:4]
         self.set_map(data, scheme=scheme)
     def _set_fits_header(self, hdr):
-        hdr.update('PIXTYPE', 'HEALPIX', 'HEALPIX pixelisation')
+        hdr['PIXTYPE'] = ('HEALPIX', 'HEALPIX pixelisation')
         scheme = self.scheme()
-        if scheme == 'NEST': scheme == 'NESTED'
-        hdr.update('ORDERING', scheme,
+        if scheme == 'NEST': scheme = 'NESTED'
+        hdr['ORDERING'] = (scheme,
             'Pixel ordering scheme, either RING or NESTED')
-        hdr.update('NSIDE', self.nside(), 'Resolution parameter for HEALPIX')
-        hdr.update('FIRSTPIX', 0, "First pixel # (0 based)")
-        hdr.update('LASTPIX', self.npix()-1, "Last pixel # (0 based)")
-        hdr.update('INDXSCHM', 'IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
+        hdr['NSIDE'] = (self.nside(), 'Resolution parameter for HEALPIX')
+        hdr['FIRSTPIX'] = (0, "First pixel # (0 based)")
+        hdr['LASTPIX'] = (self.npix()-1, "Last pixel # (0 based)")
+        hdr['INDXSCHM'] = ('IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
     def get_dtype(self):
         return self.map.dtype
     def to_fits(self, filename, format=None, clobber=True):
@@ -320,7 +320,7 @@ class HealpixMap(HealpixBase):
         hdu0 = pyfits.PrimaryHDU()
         col0 = pyfits.Column(name='signal', format=format, array=self.map)
         cols = pyfits.ColDefs([col0])
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
-        hdulist.writeto(filename,clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..9839a1d 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -391,7 +391,7 @@ def to_fits(filename, data, clobber=False,
                         phdu.header.add_history(subline)
     phdu.header['ORIGIN'] = (origin)
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
-    pyfits.writeto(filename,phdu.data,phdu.header,clobber=True)
+    pyfits.writeto(filename,phdu.data,phdu.header,overwrite=True)
 
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
@@ -483,9 +483,9 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-    for k,v in kwds.iteritems():
+    for k,v in kwds.items():
         try:
-            phdu.header.update(k,v)
+            phdu.header[k] = v
         except(ValueError):
             continue
     if history is None:
@@ -495,4 +495,4 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if len(line)>1:
             for subline in word_wrap(line,70,5,10,'#').split("\n"):
                 phdu.header.add_history(subline)
-    pyfits.writeto(outfile, data, phdu.header, clobber=True)
+    pyfits.writeto(outfile, data, phdu.header, overwrite=True)
diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..62a97f0 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -151,7 +151,7 @@ class Map(object):
         col_inds = [pyfits.Column(name='sp_index%d'%n,format=format,array=i.map)
             for n,i in enumerate(self.ind)]
         cols = pyfits.ColDefs([col0, col1] + col_inds)
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self.map._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
         if history!='':
@@ -164,4 +164,4 @@ class Map(object):
                     else:
                         for subline in img.word_wrap(line,70,5,10,'#').split("\n"):
                             hdulist[0].header.add_history(subline)
-        hdulist.writeto(filename, clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
-- 
2.43.0


From 001d6c671f2c0b2481de8ae196a14da818ce5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 26/43] fix: scripts do not rely on what Python 3 or numpy have
 removed

---
 scripts/amp_close.py         |  4 ++--
 scripts/cl_img.py            |  3 +--
 scripts/find_delay.py        |  4 ++--
 scripts/fitmdl.py            | 14 +++++++-------
 scripts/inspect_phs_close.py |  2 +-
 scripts/mk_img.py            |  2 +-
 scripts/plot_uv.py           | 14 +++++++-------
 scripts/pull_ants.py         |  2 +-
 scripts/rfi_diagnostic.py    | 17 ++++++++---------
 scripts/srclist.py           |  4 ++--
 scripts/xtalk3.py            |  4 ++--
 11 files changed, 34 insertions(+), 36 deletions(-)

diff --git a/scripts/amp_close.py b/scripts/amp_close.py
index 18f2f22..d2e3291 100755
--- a/scripts/amp_close.py
+++ b/scripts/amp_close.py
@@ -67,13 +67,13 @@ for uvfile in args:
             DD[pol] = {}
             cnt[pol] = {}
         if not (i,j) in DD[pol].keys():
-            DD[pol][(i,j)] = np.zeros(uv['nchan'],dtype=np.complex)
+            DD[pol][(i,j)] = np.zeros(uv['nchan'],dtype=complex)
             cnt[pol][(i,j)] = np.zeros(uv['nchan'])
         DD[pol][(i,j)] += np.abs(d)
         cnt[pol][(i,j)] += np.where(f,0,1)
         if not i in AntNos: AntNos.append(i)
         if not j in AntNos: AntNos.append(j)
-pols = DD.keys()
+pols = list(DD.keys())
 AntNos.sort()
 pols.sort()
 dnu = uv['sdf']
diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index 9d65f85..76a027e 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -38,8 +38,7 @@ opts, args = o.parse_args(sys.argv[1:])
 outputs = opts.output.split(',')
 keys = {}
 for arg in args: keys[arg[:-len('.dim.fits')]] = None
-keys = keys.keys()
-keys.sort()
+keys = sorted(keys.keys())
 
 # Define a quick function writing an image to a FITS file
 def to_fits(prefix,ftag,i,kwds):
diff --git a/scripts/find_delay.py b/scripts/find_delay.py
index 84e711e..ba3472e 100755
--- a/scripts/find_delay.py
+++ b/scripts/find_delay.py
@@ -70,13 +70,13 @@ for uvfile in args:
         if j in FlagAnt: continue
         if not pol in DD.keys():
             DD[pol] = {}
-        if not (i,j) in DD[pol].keys(): DD[pol][(i,j)] = np.zeros(uv['nchan'],dtype=np.complex)
+        if not (i,j) in DD[pol].keys(): DD[pol][(i,j)] = np.zeros(uv['nchan'],dtype=complex)
         #Delay transform
         d = np.ma.array(d)
         DD[pol][(i,j)] += d
         if not i in AntNos: AntNos.append(i)
         if not j in AntNos: AntNos.append(j)
-pols = DD.keys()
+pols = list(DD.keys())
 AntNos.sort()
 pols.sort()
 delays = np.linspace(-0.5/uv['sdf'],0.5/uv['sdf'],uv['nchan'])
diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 2b0530c..9e35b26 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -62,10 +62,10 @@ prms, prm_dict, shkeys = {}, {}, []
 if opts.shprms:
     shprms = map(a.scripting.parse_prms, opts.shprms.split(','))
     for s in shprms:
-        keys = s.keys(); keys.sort()
+        keys = sorted(s.keys())
         k = keys[0]
         # Only enter one instance of shared parameters (indexed under first key)
-        if prms.has_key(k): prms[k].update(s[k])
+        if k in prms: prms[k].update(s[k])
         else: prms.update({k:s[k]})
         # Add an entry to shkeys for propagating variables to other objects
         shkeys.append((keys, s[k].keys()))
@@ -73,7 +73,7 @@ if opts.shprms:
 if opts.prms:
     pd = a.scripting.parse_prms(opts.prms)
     for k in pd:
-        if prms.has_key(k): prms[k].update(pd[k])
+        if k in prms: prms[k].update(pd[k])
         else: prms[k] = pd[k]
 for prm in prms: prm_dict[prm] = prms[prm].keys()
 start_prms = aa.get_params(prm_dict)
@@ -100,7 +100,7 @@ def fit_func(prms, filelist, decimate, decphs):
     for (skey,sprm) in shkeys:
         k = skey[0]
         for k2 in skey[1:]:
-            if not prms.has_key(k2): prms[k2] = {}
+            if not k2 in prms: prms[k2] = {}
             for sp in sprm:
                 prms[k2][sp] = prms[k][sp]
     if not opts.quiet:
@@ -121,8 +121,8 @@ def fit_func(prms, filelist, decimate, decphs):
             uv.select('decimate', decimate, decphs)
             for (uvw,t,(i,j)),d,f in uv.all(raw=True):
                 bl = a.miriad.ij2bl(i,j)
-                if not dbuf.has_key(t): dbuf[t] = {}
-                if not dbuf[t].has_key(bl): dbuf[t][bl] = {}
+                if not t in dbuf: dbuf[t] = {}
+                if not bl in dbuf[t]: dbuf[t][bl] = {}
                 if not opts.sim_autos and i == j: continue
                 if uvlen(aa.get_baseline(i,j))*0.15 < opts.minuv: continue
                 d = d.take(chans)
@@ -176,7 +176,7 @@ def fit_func(prms, filelist, decimate, decphs):
 
 # Call the optimizer
 if opts.daemon:
-    import SocketServer, struct
+    import socketserver as SocketServer, struct
     class TCPServer(SocketServer.TCPServer):
         allow_reuse_address = True
     class FitHandler(SocketServer.BaseRequestHandler):
diff --git a/scripts/inspect_phs_close.py b/scripts/inspect_phs_close.py
index 461f2e5..a9fd210 100755
--- a/scripts/inspect_phs_close.py
+++ b/scripts/inspect_phs_close.py
@@ -62,7 +62,7 @@ for uvfile in args:
         if not i in AntNos: AntNos.append(i)
         if not j in AntNos: AntNos.append(j)
 delays = np.arange(-0.5/uv['sdf'],0.5/uv['sdf'],1/(uv['sdf']*uv['nchan']))
-pols = DD.keys()
+pols = list(DD.keys())
 AntNos.sort()
 pols.sort()
 del(uv)
diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 94f0618..ca5189c 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -84,7 +84,7 @@ else:
 
 if opts.list_facets:
     cat.compute(aa)
-    srcs = cat.keys(); srcs.sort()
+    srcs = sorted(cat.keys())
     for cnt, src in enumerate(cat.values()):
         cen = ephem.Equatorial(src.ra, src.dec, epoch=aa.epoch)
         cen = ephem.Equatorial(cen, epoch=ephem.J2000)
diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index badd14e..6ba2294 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -14,7 +14,7 @@ Author: Aaron Parsons, Griffin Foster
 
 from __future__ import print_function, division, absolute_import
 
-import aipy as a, numpy as np, sys, optparse
+import aipy as a, numpy as np, sys, optparse, functools
 from matplotlib import pylab as p
 
 o = optparse.OptionParser()
@@ -188,17 +188,17 @@ for uvfile in args:
             d = np.fft.fftshift(d, axes=0)
         elif opts.unmask: d = d.data
         d.shape = (1,) + d.shape
-        if not plot_x.has_key(bl): plot_x[bl] = []
+        if not bl in plot_x: plot_x[bl] = []
         plot_x[bl].append(d)
     del(uv)
 
-bls = plot_x.keys()
+bls = list(plot_x.keys())
 def sort_func(a, b):
     ai,aj,pa = map(int, a.split(','))
     bi,bj,pb = map(int, b.split(','))
     if bi > ai or (bi == ai and bj > aj) or (bi == ai and bj == aj and pb < pa): return -1
     return 1
-bls.sort(cmp=sort_func)
+bls.sort(key=functools.cmp_to_key(sort_func))
 if len(bls) == 0:
     print('No data to plot.')
     sys.exit(0)
@@ -377,7 +377,7 @@ else:
     def click(event):
         print([event.key])
         if event.key == 'm':
-            mode = raw_input('Enter new mode: ')
+            mode = input('Enter new mode: ')
             for k in plots:
                 try:
                     d = data_mode(plt_data[k], mode)
@@ -386,10 +386,10 @@ else:
                     print('Unrecognized plot mode')
             p.draw()
         elif event.key == 'd':
-            max = raw_input('Enter new max: ')
+            max = input('Enter new max: ')
             try: max = float(max)
             except(ValueError): max = None
-            drng = raw_input('Enter new drng: ')
+            drng = input('Enter new drng: ')
             try: drng = float(drng)
             except(ValueError): drng = None
             for k in plots:
diff --git a/scripts/pull_ants.py b/scripts/pull_ants.py
index 2d0042c..764a42f 100755
--- a/scripts/pull_ants.py
+++ b/scripts/pull_ants.py
@@ -36,7 +36,7 @@ for filename in args:
     uvi = a.miriad.UV(filename)
     uvo = a.miriad.UV(outfile,status='new')
     uvo.init_from_uv(uvi)
-    histstr = 'PULL ANTS: ants='%opts.refant
+    histstr = 'PULL ANTS: ants='
     for ant in ants2use:
         histstr += str(ant)+','
         if ant == ants2use[-1]: histstr += '\n'
diff --git a/scripts/rfi_diagnostic.py b/scripts/rfi_diagnostic.py
index 1ca23ba..8f21db3 100755
--- a/scripts/rfi_diagnostic.py
+++ b/scripts/rfi_diagnostic.py
@@ -9,7 +9,7 @@ from __future__ import print_function, division, absolute_import
 import numpy as np
 import aipy as a
 from matplotlib import pylab as p
-import os,sys,optparse,math
+import os,sys,optparse,math,functools
 
 #Set up the options, make sure to define them well.
 
@@ -52,13 +52,13 @@ for uvfile in args:
 		f = np.where(np.abs(d) == 0,1,f)
 		if opts.max_hold:
 			if opts.log: d = np.log10(d)
-			if not plot_y.has_key(bl): plot_y[bl] = np.zeros(uv['nchan'])
+			if not bl in plot_y: plot_y[bl] = np.zeros(uv['nchan'])
 			for I in range(uv['nchan']):
 				if d[I] >= plot_y[bl][I]: plot_y[bl][I]=d[I]
 		#This is the part that figures out fractional time spent in RFI-mode. Use xrfi filter (derivatives, not polynomial fit) and just compute (flagged_samples/total_samples) for each channel.
 		if opts.dwell:
 			#Following xrfi.py, record all datums... make a mask later.
-			if not data.has_key(bl):
+			if not bl in data:
 				data[bl]={}
 				mask[bl] = {}
 			#create data array, mask.
@@ -122,7 +122,7 @@ for uvfile in args:
 				pass
 
 			#Now, to count everything.
-			if not infected.has_key(bl):
+			if not bl in infected:
 				infected[bl] = np.zeros(uv['nchan'])
 				total[bl] = np.zeros(uv['nchan'])
 			for ct in range(len(rfi_counter)):
@@ -146,10 +146,10 @@ if opts.x_axis == 'z':
 	plot_x = (1427.1/freqs)-1.
 	xlabel = 'Redshift of EoR'
 if opts.x_axis == 'chan':
-	plot_x = np.arange(nchan)
+	plot_x = np.arange(len(freqs))
 	xlabel = 'Channel Number'
 
-bls = plot_y.keys() #This keeps track of all the baselines.
+bls = list(plot_y.keys()) #This keeps track of all the baselines.
 if len(bls) == 0:
         print('No data to plot')
         sys.exit(0)
@@ -159,7 +159,7 @@ def sort_func(a,b): #This guy will make sure that your baselines always show up
 	bi,bj = map(int,b.split(','))
 	if bi > ai or (bi == ai and bj > aj): return -1
 	return 1
-bls.sort(cmp=sort_func)
+bls.sort(key=functools.cmp_to_key(sort_func))
 
 m2 = int(math.sqrt(len(bls))) #These are to make the plots pretty -- to figure where to place subplots.
 m1 = int(math.ceil(float(len(bls))) / m2)
@@ -177,8 +177,7 @@ if opts.best:
 	hi_bl,med_bl,lo_bl = '','',''
 	for bl in plot_y: averages[bl] = np.average(plot_y[bl])
 	#I have to do this, because if the number of baselines is even, the median is not contained within averages[]
-	values = averages.values()
-	values.sort()
+	values = sorted(averages.values())
 	nmed = int(len(averages)/2)
 	hi,med,lo = np.max(values),values[nmed],np.min(values)
 	for count,bl in enumerate(averages):
diff --git a/scripts/srclist.py b/scripts/srclist.py
index 304b930..8880d64 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -112,8 +112,8 @@ else:
         prms = opts.prms.split(',')
         for s in srcs:
             p = cat.get_params({s:prms})
-            if p[s].has_key('ra'):  p[s]['ra'] = ephem.hours(p[s]['ra'])
-            if p[s].has_key('dec'): p[s]['dec'] = ephem.degrees(p[s]['dec'])
+            if 'ra' in p[s]:  p[s]['ra'] = ephem.hours(p[s]['ra'])
+            if 'dec' in p[s]: p[s]['dec'] = ephem.degrees(p[s]['dec'])
             a.fit.print_params(p)
     else:
         prms = opts.prms.split(',')
diff --git a/scripts/xtalk3.py b/scripts/xtalk3.py
index ecdfecb..b1d7aa6 100755
--- a/scripts/xtalk3.py
+++ b/scripts/xtalk3.py
@@ -51,7 +51,7 @@ if opts.reprocess:
         for bl in xtalk.files:
             dat = np.array(xtalk[bl])
             adat = np.ma.masked_equal(np.abs(dat), 0)
-            if not gain.has_key(bl): gain[bl] = []
+            if not bl in gain: gain[bl] = []
             gain[bl].append(np.average(adat[chans[0]:chans[1]]))
             dat /= gain[bl][-1]
             xsum[bl] = xsum.get(bl, 0) + dat
@@ -87,7 +87,7 @@ for filename in args:
         guess, cnt, xtalk = {}, {}, {}
         for (uvw,t,(i,j)),d,f in uv.all(raw=True):
             bl = str(a.pol.ijp2blp(i,j,uv['pol']))
-            if not guess.has_key(bl): guess[bl], cnt[bl] = 0, 0
+            if not bl in guess: guess[bl], cnt[bl] = 0, 0
             guess[bl] += np.where(f, 0, d)
             cnt[bl] += np.logical_not(f)
         del(uv)
-- 
2.43.0


From a45c4b6c03cfae66e029c4359079784d7db55abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 27/43] fix: writing a masked array without a mask writes its
 data

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index c25aeea..43fe88e 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -251,7 +251,7 @@ class UV(_miriad.UV):
         if not flags is None: flags = np.logical_not(flags)
         elif len(data.mask.shape) == 0:
             flags = np.ones(data.shape)
-            data = data.unmask()
+            data = data.data
         else:
             flags = np.logical_not(data.mask)
             #data = data.filled(0)
-- 
2.43.0


From bb5be6da18c62acb15eb67489fe0d4acd2905626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 28/43] fix: a map made from spherical harmonics is not
 smoothed by its pixels

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index b1f6c5d..0ff7fe1 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -281,7 +281,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()))
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From 7794d2366bee439ba8817e5c894c6a902ef9a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 29/43] fix: fit parameters are set where they are read from,
 and changes are reported

---
 aipy/_src/helm.py |  3 ++-
 aipy/fit.py       | 21 +++++++++++----------
 aipy/pol.py       |  5 ++---
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f19d5ba..5265eb4 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -20,7 +20,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
         self.jys = 10**(A + B*X + C*np.exp(D*X))
-    def get_params(self, prm_list=None):
+    def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {
             'jys':      float(self._jys),
@@ -31,6 +31,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
             'th':       float(self.srcshape[2]),
             'dra':      float(self.ionref[0]),
             'ddec':     float(self.ionref[1]),
+            'mfreq':    float(self.mfreq),
         }
         try: aprms['index'] = list(self.index)
         except(TypeError): aprms['index'] = float(self.index)
diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..b3e6967 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -32,7 +32,7 @@ def flatten_prms(prms, prm_list=None):
                 key_list[k] = (len(prm_list), len(prms[k]))
                 prm_list += list(prms[k])
             except(TypeError):
-                key_list[k] = (len(prm_list), 1)
+                key_list[k] = (len(prm_list), None)
                 prm_list.append(prms[k])
     return prm_list, key_list
 
@@ -45,8 +45,8 @@ def reconstruct_prms(prm_list, key_list):
         if type(v) == dict: prms[k] = reconstruct_prms(prm_list, v)
         else:
             i, L = v
-            if L > 1: prms[k] = prm_list[i:i+L]
-            else: prms[k] = prm_list[i]
+            if L is None: prms[k] = prm_list[i]
+            else: prms[k] = prm_list[i:i+L]
     return prms
 
 def print_params(prms, indent='', grad=None):
@@ -77,7 +77,7 @@ def print_params(prms, indent='', grad=None):
                 if not type(v) is list:
                     try: v = [list(v)]
                     except(TypeError): v = [v]
-                for i in len(v):
+                for i in range(len(v)):
                     print(indent, ' ', v[i], '\t<', grad[k][i], '>')
 
 
@@ -131,6 +131,8 @@ class RadioFixedBody(amp.RadioFixedBody):
         except(KeyError): pass
         try: self.ionref[1] = prms['ddec']
         except(KeyError): pass
+        try: self.mfreq = prms['mfreq']
+        except(KeyError): pass
 
 #  ____           _ _      ____                  _       _
 # |  _ \ __ _  __| (_) ___/ ___| _ __   ___  ___(_) __ _| |
@@ -255,7 +257,7 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
+            poly_azfreq = np.array(prms['bm_poly'])
             poly_azfreq.shape = self.poly.shape
             self.poly = poly_azfreq
             changed = True
@@ -270,13 +272,13 @@ class BeamAlm(amp.BeamAlm):
     def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
-        for i, a in enumerate(self.alm):
+        for i in range(len(self.alm)):
             k = 'alm%d' % i
-            data = a.get_data()
+            data = self.alm[-1-i].get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
         prms = {}
         for p in prm_list:
-            if p.startswith('*'): prms = aprms
+            if p.startswith('*'): return aprms
             try: prms[p] = aprms[p]
             except(KeyError): pass
         return prms
@@ -320,8 +322,7 @@ class Antenna(amp.Antenna):
         return prms
     def set_params(self, prms):
         """Set all parameters from a dictionary."""
-        changed = False
-        self.beam.set_params(prms)
+        changed = self.beam.set_params(prms)
         try: self.pos[0], changed = prms['x'], True
         except(KeyError): pass
         try: self.pos[1], changed = prms['y'], True
diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..f62941d 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -106,8 +106,7 @@ class Antenna(fit.Antenna):
         return prms
     def set_params(self, prms):
         """Set all parameters from a dictionary."""
-        changed = False
-        self.beam.set_params(prms)
+        changed = self.beam.set_params(prms)
         try: self.pos[0], changed = prms['x'], True
         except(KeyError): pass
         try: self.pos[1], changed = prms['y'], True
@@ -123,7 +122,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = prms['bp_i_'+p], True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 4fa5d28ffc085fbb639c278663a62d59acd5f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 30/43] fix: arrays and lists given to phasing, imaging and
 flagging are not changed

---
 aipy/img.py | 2 +-
 aipy/phs.py | 8 ++++----
 aipy/rfi.py | 1 +
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 9839a1d..4db640d 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -186,7 +186,7 @@ class Img:
         if wgts is None: return np.array((u,v,w)), data
         if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
         assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..296a30e 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -362,7 +362,7 @@ class AntennaArray(ArrayLocation):
         a1,a2,th = srcshape
         try:
             if len(u.shape) > len(a1.shape):
-                a1.shape += (1,); a2.shape += (1,); th.shape += (1,)
+                a1,a2,th = [np.reshape(p, p.shape + (1,)) for p in (a1,a2,th)]
         except(AttributeError): pass
         ru = a1 * (u*np.cos(th) - v*np.sin(th))
         rv = a2 * (u*np.sin(th) + v*np.cos(th))
@@ -382,11 +382,11 @@ class AntennaArray(ArrayLocation):
             freqs (f) along the 2nd."""
         dra,ddec = ionref
         s,f = u_sf.shape
-        try: dra.shape = (s,1)
+        try: dra = dra.reshape((s,1))
         except(AttributeError): pass
-        try: ddec.shape = (s,1)
+        try: ddec = ddec.reshape((s,1))
         except(AttributeError): pass
-        try: mfreq.shape = (s,1)
+        try: mfreq = mfreq.reshape((s,1))
         except(AttributeError): pass
         f2 = self.get_afreqs()**2 ; f2.shape = (1, f)
         return (dra*u_sf + ddec*v_sf) * mfreq**2 / f2
diff --git a/aipy/rfi.py b/aipy/rfi.py
index 49855f2..629b212 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -66,6 +66,7 @@ def remove_spikes(data, mask=None, order=6, iter=3, return_poly=False):
     if iter != 0:
         residual = np.abs(ndata - np.polyval(p, nxs))
         sig = np.sqrt(np.average(residual**2))
+        mask = mask.copy()
         mask.put(np.where(residual > sig), 1)
         p = remove_spikes(data, mask=mask, order=order,
             iter=iter-1, return_poly=True)
-- 
2.43.0


From 38d9c847dbeef993be4cf10b8b64fed2edfbb285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 31/43] fix: each catalog keeps its own measurements

---
 aipy/_src/culgoora.py | 4 +++-
 aipy/_src/helm.py     | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aipy/_src/culgoora.py b/aipy/_src/culgoora.py
index ce14442..b7365ad 100644
--- a/aipy/_src/culgoora.py
+++ b/aipy/_src/culgoora.py
@@ -19,7 +19,9 @@ except ImportError:
 import numpy as np, os
 
 class CulgooraCatalog(a.fit.SrcCatalog):
-    metadata = {}
+    def __init__(self, *srcs, **kwargs):
+        a.fit.SrcCatalog.__init__(self, *srcs, **kwargs)
+        self.metadata = {}
     def get_metadata(self):
         '''Return the actual 80 MHz and 160 MHz measurements used to compute
         the spectral index in the Culgoora catalog. Returns dictionary with
diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index 5265eb4..d0607dd 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -43,21 +43,21 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         return prms
 
 class HelmboldtCatalog(a.fit.SrcCatalog):
-    metadata = {}
+    def __init__(self, *srcs, **kwargs):
+        a.fit.SrcCatalog.__init__(self, *srcs, **kwargs)
+        self.metadata, self.rms, self.ncomp = {}, {}, {}
     def get_metadata(self):
         '''Return info from posfile about constituent measurements from which
         spectral fits were obtained.  Returns dictionary with source names
         linked to lists of (freq,flux,error) triplets. Must first run get_catalog
         to retrieve data.'''
         return self.metadata
-    rms = {}
     def get_rms(self):
         """Return a dictionary giving the Helmboldt fit rms for each source.
         rms is only computed where enought data below 325MHz is available to
         compute a spectral index or Kuehr fit. Null value is indicated with
         a rms=-1. Must first run get_catalog to retrieve data."""
         return self.rms
-    ncomp = {}
     def get_ncomp(self):
         """Return a dictionary giving the Helmboldt fit rms for each source.
         rms is only computed where enought data below 325MHz is available to
-- 
2.43.0


From 6c5b6ea93bd506a8dce873a255008450c7975401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 32/43] fix: an antenna keeps its own parameters

---
 aipy/amp.py | 7 ++++---
 aipy/fit.py | 4 ++--
 aipy/phs.py | 4 ++--
 aipy/pol.py | 4 ++--
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 9e19efc..6e27de1 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -5,6 +5,7 @@ Mostly, this means adding gain/amplitude information vs. frequency.
 
 from __future__ import print_function, division, absolute_import
 
+import copy
 import numpy as np
 import ephem
 from . import phs
@@ -234,9 +235,9 @@ class Antenna(phs.Antenna):
         pointing = antenna pointing (az,alt).  Default is zenith."""
         phs.Antenna.__init__(self, x,y,z, beam=beam, phsoff=phsoff)
         self.set_pointing(*pointing)
-        self.bp_r = bp_r
-        self.bp_i = bp_i
-        self.amp = amp
+        self.bp_r = copy.deepcopy(bp_r)
+        self.bp_i = copy.deepcopy(bp_i)
+        self.amp = copy.deepcopy(amp)
         self._update_gain()
     def _update_gain(self):
         bp = np.polyval(self.bp_r, self.beam.afreqs) + \
diff --git a/aipy/fit.py b/aipy/fit.py
index b3e6967..2e93a06 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -309,7 +309,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
@@ -333,7 +333,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
         try: self.bp_r, changed = prms['bp_r'], True
         except(KeyError): pass
diff --git a/aipy/phs.py b/aipy/phs.py
index 296a30e..bdbab43 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -4,7 +4,7 @@ phasing information.
 """
 from __future__ import print_function, division, absolute_import
 
-import ephem, math, numpy as np
+import copy, ephem, math, numpy as np
 from . import coord
 from . import const
 from .miriad import ij2bl, bl2ij
@@ -195,7 +195,7 @@ class Antenna:
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
-        self._phsoff = phsoff
+        self._phsoff = copy.deepcopy(phsoff)
         self._update_phsoff()
     def select_chans(self, active_chans=None):
         """Select only the specified channels for use in future calculations."""
diff --git a/aipy/pol.py b/aipy/pol.py
index f62941d..e242f80 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
@@ -118,7 +118,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 3000e063461c73cbd48a04b616260be18b6d875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 33/43] fix: converting pixel numbers and copying a map leave
 their source as it was

---
 aipy/healpix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 0ff7fe1..cae4bd3 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -40,7 +40,6 @@ class HealpixBase(object):
         """Translate an array of pixel numbers to index data in the scheme specified in 'scheme' ('NEST' or 'RING').  Returns px."""
         mode = {'RING':healpy.nest2ring, 'NEST':healpy.ring2nest}
         if scheme != self._scheme: px = mode[scheme](self._nside, px)
-        self._scheme = scheme
         return px
     def set_nside_scheme(self, nside=None, scheme=None):
         """Adjust Nside and Scheme ('RING' or 'NEST')."""
@@ -267,7 +266,8 @@ class HealpixMap(HealpixBase):
             hpm.set_interpol(True)
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
-            self[px] = hpm[th,phi].astype(self.get_dtype())
+            try: self[px] = hpm[th,phi].astype(self.get_dtype())
+            finally: hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From 5e3fbcc14cf44b4a429c4836f90f6e2279ac16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 34/43] fix: a record with fewer channels than the first is
 read at its own length

---
 aipy/miriad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 43fe88e..1cf37cf 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -233,6 +233,8 @@ class UV(_miriad.UV):
         'raw' causes data and flags to be returned seperately."""
         preamble, data, flags, nread = self.raw_read(self.nchan)
         if nread == 0: raise IOError("No data read")
+        # This record may have fewer channels than the first
+        data, flags = data[:nread], flags[:nread]
         flags = np.logical_not(flags)
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
-- 
2.43.0


From 2aac2ad51b321266b13eb66e1dc33e5d39638e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 35/43] fix: a variable that changes in a skipped integration
 is copied with the next one read

UV.select('decimate',...) reads over integrations; uvcopyvr copied only what
changed in the last record read, so pipe() lost the rest.
---
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 27 +++++++++++++++++++++++++--
 aipy/_miriad/miriad_wrap.cpp |  2 ++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index c318be2..66480d7 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -223,6 +223,7 @@ void uvwwrite_c (int tno, Const float *data, Const int *flags, int n);
 void uvsela_c   (int tno, Const char *object, Const char *string, int datasel);
 void uvselect_c (int tno, Const char *object, double p1, double p2, int datasel);
 void uvset_c    (int tno, Const char *object, Const char *type, int n, double p1, double p2, double p3);
+void uvcont_c   (int tno);
 void uvread_c   (int tno, double *preamble, float *data, int *flags, int n, int *nread);
 void uvwread_c  (int tno, float *data, int *flags, int n, int *nread);
 void uvflgwr_c  (int tno, Const int *flags);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 258d50b..279b691 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -291,6 +291,8 @@
 #define UVF_UPDATED_UVW 0x4000	/* Set if things needed for uvw have changed. */
 #define UVF_REDO_UVW	0x8000	/* Set if u-v-w are to be recomputed. */
 #define UVF_DOW		0x10000	/* Set if the caller wants w returned. */
+#define UVF_CONT	0x20000	/* Set if the next uvread continues the last one:
+				   variables updated by either are updated. */
 
 #define UV_ALIGN	8
 #define UV_HDR_SIZE	4
@@ -1356,6 +1358,23 @@ void uvrewind_c(int tno)
   uv->wcorr_flags.offset = 0;
 }
 /************************************************************************/
+void uvcont_c(int tno)
+/**uvcont -- The next call to uvread continues the last one.		*/
+/*:uv-i/o								*/
+/*+
+
+  For a caller that reads over records it does not want: variables updated
+  by any of the uvread calls taken together count as updated (and so are
+  copied by uvcopyvr).
+
+  Input:
+    tno		The uv data file handle.				*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  uvs[tno]->flags |= UVF_CONT;
+}
+/************************************************************************/
 void uvcopyvr_c(int tin,int tout)
 /**uvcopyvr -- Copy variables from one uv file to another.		*/
 /*&rjs                                                                  */
@@ -2859,8 +2878,12 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
 
   *nread = 0;
   more = TRUE;
-  uv->mark = uv->callno + 1;
-  uv->flags &= ~(UVF_UPDATED | UVF_COPY);
+  if(uv->flags & UVF_CONT) {
+    uv->flags &= ~UVF_CONT;
+  } else {
+    uv->mark = uv->callno + 1;
+    uv->flags &= ~(UVF_UPDATED | UVF_COPY);
+  }
 
 /* Scan the input data stream, and do any selection necessary. */
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 2c302ab..1684a6c 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -140,6 +140,8 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
         if ((self->intcnt-self->decphase) % self->decimate == 0 || nread==0) {
             break;
         }
+        // Variables that change in a skipped record change with this one
+        uvcont_c(self->tno);
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     npy_intp uvw_dims[1] = {3};
-- 
2.43.0


From 73af474115c19813712554dc2cc57102ba639c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 36/43] fix: setting the time by set_ephemtime drops what was
 computed for the time before

amp.AntennaArray recomputed eq2top_m and dropped the source cache in
set_jultime only; before any time was set, sim() failed for want of _cache
instead of saying that sim_cache() must be called.
---
 aipy/amp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 6e27de1..7c491ca 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -283,15 +283,17 @@ class AntennaArray(phs.AntennaArray):
     def __init__(self, *args, **kwargs):
         phs.AntennaArray.__init__(self, *args, **kwargs)
         self.active_pol = None
+        self._cache = None
     def set_active_pol(self, pol):
         assert(pol in ('xx','yy','xy','yx')) # the only pols supported natively, for now
         self.active_pol = pol
     def get_active_pol(self):
         if self.active_pol is None: raise RuntimeError('No active polarization set (use AntennaArray.set_active_pol)')
         return self.active_pol
-    def set_jultime(self, t=None):
-        """Set current time as a Julian date."""
-        phs.AntennaArray.set_jultime(self, t=t)
+    def set_ephemtime(self, t=None):
+        """Set current time as derived from the ephem package.  Anything
+        cached for the previous time is dropped."""
+        phs.AntennaArray.set_ephemtime(self, t=t)
         self.eq2top_m = coord.eq2top_m(-self.sidereal_time(), self.lat)
         self._cache = None
     def passband(self, i, j):
-- 
2.43.0


From cd505eb8bb1725901ddae990192119c7edc9a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 37/43] fix: data put into an ImgW reaches the W planes that
 get() keeps

---
 aipy/img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/img.py b/aipy/img.py
index 4db640d..b633a39 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -235,6 +235,7 @@ class ImgW(Img):
         plane before applying the data to the UV matrix."""
         u,v,w = uvw
         if len(u) == 0: return
+        self.wcache = {} # W planes of the old uv data
         if wgts is None:
             wgts = []
             for i in range(len(self.bm)):
-- 
2.43.0


From 8a31883f4ee7e679e2c0a8e03b4b688afb39e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 38/43] fix: keep the content of a small item that grows out of
 the header

A small item lives in the header of its data-set.  When a write beyond the
buffer made it a file of its own, the buffer holding the old content was not
marked as modified, so it was discarded and the item read back as zeros.
---
 aipy/_miriad/mir/hio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 5d7206c..b13d13b 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1169,6 +1169,10 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
     Strcpy(path,t->name);
     Strcat(path,item->name);
     dopen_c(&(item->fd),path,"write",&(item->size),iostat);
+
+/* What the header held so far is now only in the buffer. */
+
+    if(*iostat == 0 && item->io[0].length > 0) item->io[0].state = IO_MODIFIED;
     if(*iostat == 0) t->rdwr = RDWR_RDWR;
     else	     t->rdwr = RDWR_RDONLY;
     t->wriostat = *iostat;
-- 
2.43.0


From 7a00a9f0da3698ac75086633285e3ce72cb939af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:17 +0000
Subject: [PATCH 39/43] fix: count a map pixel once when several samples added
 to it share it

---
 aipy/map.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 62a97f0..8f011fb 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -98,10 +98,16 @@ class Map(object):
         ind = [i[crds] / w for i in self.ind]
         if len(ind) == 0: return fluxes
         return (fluxes, ind)
+    def _accumulate(self, hpm, crds, vals):
+        """Add vals to a HealpixMap, however many of them share a pixel."""
+        new = healpix.HealpixMap(nside=hpm.nside(), scheme=hpm.scheme(),
+            dtype=hpm.get_dtype())
+        new[crds] = vals
+        hpm.map = hpm.map + new.map
     def add(self, crds, wgts, fluxes, inds=[]):
-        self.wgt[crds] += wgts
-        self.map[crds] += fluxes * wgts
-        for n,i in enumerate(inds): self.ind[n][crds] += i * wgts
+        self._accumulate(self.wgt, crds, wgts)
+        self._accumulate(self.map, crds, fluxes * wgts)
+        for n,i in enumerate(inds): self._accumulate(self.ind[n], crds, i * wgts)
     def put(self, crds, wgts, fluxes, inds=[]):
         self.wgt[crds] = wgts
         self.map[crds] = fluxes * wgts
-- 
2.43.0


From 2c3f0158c116b98e0e0c77b6ffa996458c9496e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:17 +0000
Subject: [PATCH 40/43] fix: keep the averages of a map when its weights are
 reset to other than 1

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 8f011fb..90122db 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -113,7 +113,7 @@ class Map(object):
         self.map[crds] = fluxes * wgts
         for n,i in enumerate(inds): self.ind[n][crds] = i * wgts
     def reset_wgt(self, wgt=1):
-        w = np.where(self.wgt.map > 0, self.wgt.map, 1)
+        w = np.where(self.wgt.map > 0, self.wgt.map / wgt, 1)
         self.map.map /= w
         for i in self.ind: i.map /= w
         self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
-- 
2.43.0


From 325611a61e56739027e6c1c18f84d9db4c871b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:17 +0000
Subject: [PATCH 41/43] fix: drop the spectral indices of a map when another is
 read into it

---
 aipy/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/map.py b/aipy/map.py
index 90122db..adb542d 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -143,6 +143,7 @@ class Map(object):
             except(IndexError): break
             nind += 1
         del(hdu)
+        self.ind = []
         # Make a spectral index HPM for each additional col in fits file
         for i in range(nind):
             h = healpix.HealpixMap(*self.args, **self.kwargs)
-- 
2.43.0


From 7f97343039601c480132d4d2c62dd115a73df0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 42/43] fix: do not format a long scratch path over the buffer
 in dopen_c

---
 aipy/_miriad/mir/dio.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 61c8aa6..4576b8d 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -160,7 +160,7 @@ void dopen_c(int *fd,char *name,char *status,off64_t *size,int *iostat)
 
 ------------------------------------------------------------------------*/
 {
-  int is_scratch,pid,flags=0;
+  int is_scratch,pid,n,flags=0;
   char *s,sname[MAXPATH];
 
   is_scratch = *iostat = 0;
@@ -174,8 +174,9 @@ void dopen_c(int *fd,char *name,char *status,off64_t *size,int *iostat)
     is_scratch = 1;
     s = getenv("TMPDIR");
     pid = getpid();
-    if(s != NULL)sprintf(sname,"%s/%s.%d",s,name,pid);
-    else         sprintf(sname,"%s.%d",name,pid);
+    if(s != NULL)n = snprintf(sname,MAXPATH,"%s/%s.%d",s,name,pid);
+    else         n = snprintf(sname,MAXPATH,"%s.%d",name,pid);
+    if(n >= MAXPATH){*iostat = ENAMETOOLONG; return;}
     s = sname;
   } else bug_c('f',"dopen_c: Unrecognised status");
 #ifdef O_LARGEFILE
-- 
2.43.0


From 89eb403b12d459ddcb69bfd0faa515b847c1f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:16 +0000
Subject: [PATCH 43/43] fix: counts and lengths of arrays are whole numbers
 under true division

maxent_findvar() handed lsq() a quarter of its iterations as a float,
combine_freqs.py gave an array a length of nchan/opts.nchan, and
plot_uv.py asked range() for len(chans)/2: each fails under Python 3.
---
 aipy/deconv.py           | 2 +-
 scripts/combine_freqs.py | 4 ++--
 scripts/plot_uv.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..c8fc745 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -208,7 +208,7 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=maxiter//4, lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index 5530355..f56cfca 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -50,9 +50,9 @@ for uvfile in args:
     if nchan != opts.nchan:
         def mfunc(uv, p, d, f):
             d = np.where(f, 0, d)
-            d.shape = (opts.nchan, nchan/opts.nchan)
+            d.shape = (opts.nchan, nchan//opts.nchan)
             d = d.sum(axis=1)
-            f.shape = (opts.nchan, nchan/opts.nchan)
+            f.shape = (opts.nchan, nchan//opts.nchan)
             f = np.logical_not(f).astype(np.int_).sum(axis=1)
             d /= f.clip(1,np.inf)
             if opts.careful_flag: f = np.where(f < nchan/opts.nchan, 1, 0)
diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index 6ba2294..7f9e8e9 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -296,7 +296,7 @@ for cnt, bl in enumerate(bls):
     elif is_chan_range and not is_time_range:
         if opts.delay:
             if opts.chan_axis == 'index':
-                plot_chans = range(len(chans)/2 - len(chans), len(chans)/2)
+                plot_chans = range(len(chans)//2 - len(chans), len(chans)//2)
                 xlabel = 'Delay (bins)'
             else:
                 plot_chans = delays
-- 
2.43.0

