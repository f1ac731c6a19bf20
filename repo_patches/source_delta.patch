From 925f726420d3ef9a8856c286e6b113113ffc5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 01/19] fix: accumulate the squares when the tail statistics
 are recomputed

---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From c60e68eec5c27df8bed94098af24c7c08ddfac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 02/19] fix: refuse a container capacity that is null or too
 large to allocate

---
 src/ubend.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..a6e7acf 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,6 +14,12 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
+    ubend->data = 0x0;
+    // an empty container cannot store anything and the number of bytes to
+    // allocate must be representable
+    if ((capacity == 0) || (capacity > (~0UL) / __SIZEOF_DOUBLE__)) {
+        return -ERR_MEMORY_ALLOCATION_FAILED;
+    }
     ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
     if (ubend->data) {
         return 0;
-- 
2.43.0


From 3192cb585675cdd932027e629a422a73ababb01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 03/19] fix: refuse NaN level and q parameters

---
 src/spot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..04283bd 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,11 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    // these conditions are also false when the parameter is NaN
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q < (1. - level)) && (q > 0.0))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From 8d50fd7b1763b098280991fb7a4fde6c46c74856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 04/19] fix: do not write before a text buffer of size zero

---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 04283bd..f3c18eb 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -173,7 +173,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && size) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From b9265f80b332b21007576695203c28ad2260d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 05/19] fix: define the exponential and the logarithm for huge
 values

---
 src/xmath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..b1c23fe 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    // overflow (this also bounds the exponent computed below)
+    if (x > 1024.0 * LOG2) {
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
@@ -344,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From fddd9cfe827ef1f73cb219f6d4a75bb2c7f4b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 06/19] fix: the probability beyond a bounded tail is zero

---
 src/tail.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tail.c b/src/tail.c
index 6fcf574..57abed0 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -39,6 +39,10 @@ double tail_probability(struct Tail const *tail, double s, double d) {
         return s * xexp(-d / tail->sigma);
     } else {
         double r = d * (tail->gamma / tail->sigma);
+        // beyond the upper bound of the support (gamma < 0)
+        if (1.0 + r <= 0.0) {
+            return 0.0;
+        }
         return s * xpow(1.0 + r, -1.0 / tail->gamma);
     }
 }
-- 
2.43.0


From ea08f5158cda40209e7e9f6d0c07729d797259cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 07/19] fix: a quantile of less than five values is undefined,
 not zero

---
 src/p2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..deea2f9 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -115,8 +115,9 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
     // double d = 0.0;
     double qp;
 
+    // not enough data to compute a quantile
     if (size < 5) {
-        return 0.0;
+        return 0.0 / 0.0;
     }
     // init q with the 5 first values
     for (i = 0; i < 5; i++) {
-- 
2.43.0


From 4817f55d249cbdc9a7447e828b93dc619b2d1971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:14 +0000
Subject: [PATCH 08/19] fix: scale the root search margin to small excesses

---
 src/estimator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estimator.c b/src/estimator.c
index 700dd2d..ecf225d 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -62,7 +62,10 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double maxi = peaks->max;
     double mean = peaks_mean(peaks);
 
-    double epsilon = xmin(BRENT_DEFAULT_EPSILON, 0.5 / maxi);
+    // the margin follows the scale of small excesses, otherwise 1 + epsilon * x
+    // cannot be told from 1
+    double epsilon =
+        xmin(BRENT_DEFAULT_EPSILON / xmin(1.0, mean), 0.5 / maxi);
     double r;
     double a, b;
 
-- 
2.43.0


From 6469781c58f921010ad4422ebea31978ee51a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:52 +0000
Subject: [PATCH 09/19] fix: convert any python training sequence, and report
 what fails

PySequence_Fast may return a tuple, on which PyList_Size fails (the size
became ULONG_MAX), its result was never released, and neither the
allocation, the conversions nor the outcome of the training were checked
(an exception was set while a value was returned).
---
 python/libspotmodule.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..9197da7 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -129,7 +129,8 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
-    PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
+    // work on our own list: converting the items may run arbitrary code
+    PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
         return NULL;
     }
@@ -137,11 +138,21 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
     unsigned long size = (unsigned long)PyList_Size(seq);
 
     // allocate a new raw buffer to pass to the fit method
-    double *x = malloc(size * sizeof(double));
+    double *x = malloc((size + 1) * sizeof(double));
+    if (x == NULL) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
         // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
         x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        if ((x[i] == -1.0) && PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +163,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From e7c1d8a748cf7ebbaaef41fc57beb4cf95e5e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:52 +0000
Subject: [PATCH 10/19] fix: raise when a python argument is not a number

step, quantile and probability went on with -1.0 and returned a value
with an exception set (SystemError).
---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 9197da7..9b8ba34 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -173,6 +173,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if ((z == -1.0) && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -185,6 +188,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if ((q == -1.0) && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -198,6 +204,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if ((z == -1.0) && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From 4d4cd67b42e10cd49cbef9c8a9eaf4600e05561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:52 +0000
Subject: [PATCH 11/19] fix: release python detectors when they are deallocated

The object itself and its reference to its (heap) type were leaked.
---
 python/libspotmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 9b8ba34..03d7132 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -265,7 +265,11 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // instances of heap types own a reference to their type
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free((PyObject *)self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From 1b725e4019c5c3ac163d54097ae5051fda16657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:52 +0000
Subject: [PATCH 12/19] fix: initialise a python detector again without losing
 its memory

The buffer of the previous initialisation was leaked, and a refused
initialisation left a half initialised detector.
---
 python/libspotmodule.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 03d7132..b6cbb8d 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -113,14 +113,18 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
-                           max_excess);
+    struct Spot spot;
+    int result = spot_init(&spot, q, low, discard_anomalies, level, max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
     }
-    return result;
+    // the object may have been initialised before
+    spot_free(&(self->_spot));
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
-- 
2.43.0


From 9ef90449f9d25298904ea601089b0dcd7b4a371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:52 +0000
Subject: [PATCH 13/19] fix: refuse to use a python detector that is not
 initialised

A subclass that does not call Spot.__init__ crashed at its first reading.
---
 python/libspotmodule.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index b6cbb8d..cf3331a 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -77,6 +77,14 @@ static PyObject *Tail_as_dict(struct Tail *tail) {
 // Spot object
 //
 
+static int check_initialised(Spot *self) {
+    if (self->_spot.tail.peaks.container.data == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "Spot is not initialised");
+        return -1;
+    }
+    return 0;
+}
+
 PyDoc_STRVAR(
     Spot_init_doc,
     "Spot(q"
@@ -157,6 +165,10 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         }
     }
     Py_DECREF(seq);
+    if (check_initialised(self) < 0) {
+        free(x);
+        return NULL;
+    }
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -181,6 +193,10 @@ static PyObject *Spot_step(Spot *self, PyObject *x) {
         return NULL;
     }
 
+    if (check_initialised(self) < 0) {
+        return NULL;
+    }
+
     // libspot API call
     int result = spot_step(&(self->_spot), z);
 
-- 
2.43.0


From a4a137ce61a66512513994b1e051c5763a0d3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:27 +0000
Subject: [PATCH 14/19] fix: train a JavaScript detector on the given view, not
 on its whole buffer

A view into part of a larger buffer was copied with everything around it: wrong training data, and a write past the end of the block.
---
 wasm/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 2095cc1..a123c08 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -198,7 +198,10 @@ export class Spot {
     // reserve heap
     const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
-    libspot.HEAPU8.set(new Uint8Array(data.buffer), arrayPtr);
+    libspot.HEAPU8.set(
+      new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
+      arrayPtr
+    );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
     if (code < 0) {
-- 
2.43.0


From 1c1318b4d2125a04b2be832fe5b115b1abab3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:27 +0000
Subject: [PATCH 15/19] fix: release the training buffer of a JavaScript
 detector when the fit is refused

---
 wasm/index.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index a123c08..587dff5 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -204,11 +204,11 @@ export class Spot {
     );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
+    // release heap
+    libspot._free(arrayPtr);
     if (code < 0) {
       throw new Error(libspotError(-code));
     }
-    // release heap
-    libspot._free(arrayPtr);
     return code;
   }
 
-- 
2.43.0


From 0c62b05bdd236a12d888419774ebc22eaa237797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:27 +0000
Subject: [PATCH 16/19] fix: do not finalise a JavaScript detector that could
 not be initialised

The finaliser released a pointer read from memory that was never written.
---
 wasm/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 587dff5..a5af2f1 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -165,11 +165,13 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
-    freg.register(this, this.ptr); // kind of destructor
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
+      // nothing has been initialised: there is only the object to release
+      libspot._free(this.ptr);
       throw new Error(libspotError(-code));
     }
+    freg.register(this, this.ptr); // kind of destructor
   }
 
   anomaly_threshold() {
-- 
2.43.0


From e6a7385cbd9a6ae25f63db5f088bcd75785d89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:27 +0000
Subject: [PATCH 17/19] fix: throw when the JavaScript binding cannot get
 memory, instead of using address zero

---
 wasm/index.ts | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index a5af2f1..53320fa 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -60,13 +60,28 @@ const stringify = (raw: Uint8Array) => {
   return new TextDecoder("utf-8").decode(raw).replace(/\0/g, "");
 };
 
+/**
+ * Reserve memory on the heap of the module
+ *
+ * @param size number of bytes
+ * @returns the address of the block
+ * @throws {Error} When there is no memory left
+ */
+const reserve = (size: number): number => {
+  const ptr = libspot._malloc(size);
+  if (ptr === 0) {
+    throw new Error("Memory allocation failed");
+  }
+  return ptr;
+};
+
 /**
  *
  * @returns the version of the library
  */
 export const libspotVersion = (): string => {
   const size = 24;
-  let ptr = libspot._malloc(size);
+  let ptr = reserve(size);
   libspot.ccall("libspot_version", null, ["number", "number"], [ptr, size]);
   const version = stringify(libspot.HEAPU8.slice(ptr, ptr + size).buffer);
   libspot._free(ptr);
@@ -80,7 +95,7 @@ export const libspotVersion = (): string => {
  */
 export const libspotError = (code: number): string => {
   const size = 256;
-  let ptr = libspot._malloc(size);
+  let ptr = reserve(size);
   // fill with zeros
   libspot.HEAPU8.fill(0, ptr, ptr + size);
   libspot.ccall(
@@ -165,6 +180,9 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
+    if (this.ptr === 0) {
+      throw new Error("Memory allocation failed");
+    }
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
       // nothing has been initialised: there is only the object to release
@@ -198,7 +216,7 @@ export class Spot {
    */
   fit(data: Float64Array) {
     // reserve heap
-    const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
+    const arrayPtr = reserve(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
     libspot.HEAPU8.set(
       new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
-- 
2.43.0


From fae39cbf33336cc69dde9c8bdc1f90510167b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:24 +0000
Subject: [PATCH 18/19] fix: search the likelihood roots at the scale of the
 excesses

The margins around zero and the precision of the root search were absolute
(2e-8), while the roots scale like the inverse of the excesses. Next to zero
the likelihood equation behaves like x^2, so at +-2e-8 its sign was rounding
noise: the bracket was discarded and the maximum of the likelihood was missed
for a large part of ordinary samples (and nearly always for large-valued
data), leaving the moment or exponential fit instead.
---
 src/estimator.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/estimator.c b/src/estimator.c
index ecf225d..3d40a5e 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -62,10 +62,12 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double maxi = peaks->max;
     double mean = peaks_mean(peaks);
 
-    // the margin follows the scale of small excesses, otherwise 1 + epsilon * x
-    // cannot be told from 1
-    double epsilon =
-        xmin(BRENT_DEFAULT_EPSILON / xmin(1.0, mean), 0.5 / maxi);
+    // the precision follows the scale of the excesses
+    double tol = BRENT_DEFAULT_EPSILON / mean;
+    double epsilon = xmin(tol, 0.5 / maxi);
+    // next to zero the function behaves like x^2: closer than this (relatively
+    // to the excesses) its sign is nothing but rounding noise
+    double margin = xmin(1.0e-5 / mean, 0.5 / maxi);
     double r;
     double a, b;
 
@@ -78,18 +80,16 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double llhood, max_llhood;
     // left root -------------------------------------------------------------
     a = -1.0 / maxi + epsilon;
-    b = -epsilon;
-    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    b = -margin;
+    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[left]) {
         roots[left] = r;
     }
 
     // right root -------------------------------------------------------------
-    a = epsilon;
+    a = margin;
     b = 2.0 * (mean - mini) / (mini * mini);
-    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[right]) {
         roots[right] = r;
     }
-- 
2.43.0


From a41a6e60d9fde8b784f4160670b1292b177337c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:13 +0000
Subject: [PATCH 19/19] fix: survive a failing import of the Python module

The type was used without checking that it had been created, and the module
and the type were not released when a later step failed (the type not even
when all went well).
---
 python/libspotmodule.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index cf3331a..b09cef6 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -370,37 +370,38 @@ static PyModuleDef libspotmodule = {
 
 PyMODINIT_FUNC PyInit_libspot(void) {
     PyObject *SpotType = PyType_FromSpec(&SpotType_spec);
-    if (PyType_Ready((PyTypeObject *)SpotType) < 0) {
+    if (SpotType == NULL) {
         return NULL;
     }
 
     PyObject *m = PyModule_Create(&libspotmodule);
     if (m == NULL) {
+        Py_DECREF(SpotType);
         return NULL;
     }
 
-    Py_INCREF(SpotType);
+    // add Spot object (the reference is stolen on success only)
+    if (PyModule_AddObject(m, "Spot", SpotType) < 0) {
+        Py_DECREF(SpotType);
+        Py_DECREF(m);
+        return NULL;
+    }
 
     // inject __version__
     char buffer[64];
     libspot_version(buffer, 64);
     if (PyModule_AddStringConstant(m, "__version__", buffer) < 0) {
+        Py_DECREF(m);
         return NULL;
     }
 
     // add global constants
-    if (PyModule_AddIntConstant(m, "NORMAL", NORMAL) < 0) {
-        return NULL;
-    }
-    if (PyModule_AddIntConstant(m, "EXCESS", EXCESS) < 0) {
+    if (PyModule_AddIntConstant(m, "NORMAL", NORMAL) < 0 ||
+        PyModule_AddIntConstant(m, "EXCESS", EXCESS) < 0 ||
+        PyModule_AddIntConstant(m, "ANOMALY", ANOMALY) < 0) {
+        Py_DECREF(m);
         return NULL;
     }
-    if (PyModule_AddIntConstant(m, "ANOMALY", ANOMALY) < 0) {
-        return NULL;
-    }
-
-    // add Spot object
-    PyModule_AddObject(m, "Spot", SpotType);
 
     // set default allocators
     // libspot API call
-- 
2.43.0

