// Linked into the extension under test (never shipped): the memory seams.
//  - malloc/free of the extension and of the library (linker --wrap): ledger, canaries, failure of the n-th request
//  - the interpreter's object and mem allocators: failure of the n-th request inside a call, blocks obtained inside a call
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdint.h>
#include <string.h>

void *__real_malloc(size_t);
void __real_free(void *);

// ------------------------------------------------------------------ module memory
#define MAXB 65536
static struct { unsigned char *p; size_t n; int live; int op; } B[MAXB];
static int nb;
static long m_fail, m_failed, m_count;
static long p_fail, p_failed, p_count;
static int armed, paused, curop;
static char err[256];
#ifndef PAD
#define PAD 32
#endif

static void bad(const char *s) { if (!err[0]) strncpy(err, s, 255); }

void *__wrap_malloc(size_t n) {
    m_count++;
    if (armed && m_fail > 0 && --m_fail == 0) { m_failed++; return NULL; }
    if (n > ((size_t)1 << 33)) return NULL;     // a machine with 8 GB per block, for the reference alike
    unsigned char *p = __real_malloc(n + 2 * PAD);
    if (!p) return NULL;
    memset(p, 0xa5, PAD); memset(p + PAD, 0x5e, n); memset(p + PAD + n, 0xa5, PAD);
    int i;
    for (i = 0; i < nb; i++) if (!B[i].live && !B[i].p) break;
    if (i == MAXB) { bad("HARNESS too many blocks"); return NULL; }
    if (i == nb) nb++;
    B[i].p = p; B[i].n = n; B[i].live = 1; B[i].op = curop;
    return p + PAD;
}
static int canary(int i) {
    for (int k = 0; k < PAD; k++) if (B[i].p[k] != 0xa5 || B[i].p[PAD + B[i].n + k] != 0xa5) return 0;
    return 1;
}
void __wrap_free(void *q) {
    if (!q) return;
    for (int i = 0; i < nb; i++)
        if (B[i].p && B[i].p + PAD == (unsigned char *)q) {
            if (!canary(i)) bad("the extension wrote outside a block it allocated");
            __real_free(B[i].p);
            B[i].p = NULL; B[i].live = 0;
            return;
        }
    bad("the extension released memory it does not own (released twice, or never allocated)");
}
void *__wrap_calloc(size_t a, size_t b) {
    if (a && b > SIZE_MAX / a) return NULL;
    void *p = __wrap_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (!q) return __wrap_malloc(n);
    for (int i = 0; i < nb; i++)
        if (B[i].p && B[i].p + PAD == (unsigned char *)q) {
            void *p = __wrap_malloc(n);
            if (!p) return NULL;
            memcpy(p, q, n < B[i].n ? n : B[i].n);
            __wrap_free(q);
            return p;
        }
    bad("realloc of memory the extension does not own");
    return NULL;
}
int sim_live(void) { int c = 0; for (int i = 0; i < nb; i++) if (B[i].p) c++; return c; }
int sim_live_op(void) { for (int i = 0; i < nb; i++) if (B[i].p) return B[i].op; return -1; }
int sim_canaries(void) { for (int i = 0; i < nb; i++) if (B[i].p && !canary(i)) return 0; return 1; }

// ------------------------------------------------------------------ interpreter memory
#define TS (1 << 22)
#define TOUCH (1 << 14)
static unsigned touch[TOUCH], ntouch;      // slots written since the last forget, so that a small run costs little
static struct { void *p; int op; } T[TS];
#define TOMB ((void *)1)
static unsigned h(void *p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; return (unsigned)(x & (TS - 1)); }
static long tracked;
static void tadd(void *p, int op) { if (!p) return; if (tracked > TS / 2) { bad("HARNESS table full"); return; } unsigned i = h(p); while (T[i].p && T[i].p != TOMB) i = (i + 1) & (TS - 1); if (!T[i].p) { if (ntouch < TOUCH) touch[ntouch] = i; ntouch++; } T[i].p = p; T[i].op = op; tracked++; }
static int tdel(void *p) { if (!p) return -1; unsigned i = h(p); for (int k = 0; k < TS && T[i].p; k++, i = (i + 1) & (TS - 1)) if (T[i].p == p) { T[i].p = TOMB; tracked--; return T[i].op; } return -1; }
static PyMemAllocatorEx o_mem, o_obj;
static int shouldfail(void) {
    if (!armed || paused) return 0;
    p_count++;
    if (p_fail > 0 && --p_fail == 0) { p_failed++; return 1; }
    return 0;
}
// zeroed: CPython 3.12 reads uninitialised memory of its own when the second allocation of a bytearray fails
#define ON (armed && !paused)
static void *a_malloc(void *c, size_t n) { if (shouldfail()) return NULL; PyMemAllocatorEx *a = c; void *p = a->malloc(a->ctx, n); if (ON) { tadd(p, curop); if (p) memset(p, 0, n); } return p; }
static void *a_calloc(void *c, size_t m, size_t n) { if (shouldfail()) return NULL; PyMemAllocatorEx *a = c; void *p = a->calloc(a->ctx, m, n); if (ON) tadd(p, curop); return p; }
static void *a_realloc(void *c, void *q, size_t n) {
    if (shouldfail()) return NULL;
    PyMemAllocatorEx *a = c;
    int op = tdel(q);
    void *p = a->realloc(a->ctx, q, n);
    if (!p) { if (op >= 0) tadd(q, op); return NULL; }
    if (op >= 0) tadd(p, op); else if (!q && ON) tadd(p, curop);
    return p;
}
static void a_free(void *c, void *q) { PyMemAllocatorEx *a = c; tdel(q); a->free(a->ctx, q); }

void sim_install(void) {
    PyMem_GetAllocator(PYMEM_DOMAIN_MEM, &o_mem);
    PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &o_obj);
    PyMemAllocatorEx m = {&o_mem, a_malloc, a_calloc, a_realloc, a_free}, o = {&o_obj, a_malloc, a_calloc, a_realloc, a_free};
    PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &m);
    PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &o);
}
// ------------------------------------------------------------------ threads
// Where the extension releases the interpreter lock, another thread may run: the scheduler decides at which function entry
// or exit of the library (compiled with -finstrument-functions) the other thread's operations happen.
static int rel, gil_n;
static PyObject *gil_cb;
#define NOI __attribute__((no_instrument_function))
static void NOI point(void) {
    if (!rel || gil_n <= 0 || --gil_n || !gil_cb) return;
    int s_armed = armed, s_paused = paused, s_op = curop, s_rel = rel; long s_pf = p_fail, s_mf = m_fail;
    PyObject *t, *v, *b;
    PyErr_Fetch(&t, &v, &b);
    armed = 0; rel = 0; p_fail = m_fail = 0;
    PyObject *r = PyObject_CallObject(gil_cb, NULL);
    if (!r) { PyErr_Clear(); bad("HARNESS scheduler callback failed"); }
    Py_XDECREF(r);
    PyErr_Restore(t, v, b);
    armed = s_armed; paused = s_paused; curop = s_op; p_fail = s_pf; m_fail = s_mf; rel = s_rel;
}
void NOI __cyg_profile_func_enter(void *f, void *c) { if (rel) point(); }
void NOI __cyg_profile_func_exit(void *f, void *c) { if (rel) point(); }
PyThreadState *__wrap_PyEval_SaveThread(void) { rel++; point(); return PyThreadState_Get(); }
void __wrap_PyEval_RestoreThread(PyThreadState *t) { point(); if (rel) rel--; }
void sim_sched(PyObject *cb) { Py_XINCREF(cb); gil_cb = cb; }
void sim_switch(int n) { gil_n = n; }

// calls f(*args, **kw) with the faults armed
PyObject *sim_call(PyObject *f, PyObject *args, PyObject *kw, int op, long pf, long mf) {
    int s_armed = armed, s_paused = paused, s_op = curop; long s_pf = p_fail, s_mf = m_fail;
    p_fail = pf; m_fail = mf; curop = op; paused = 0; armed = 1;
    PyObject *r = PyObject_Call(f, args, kw == Py_None ? NULL : kw);
    armed = s_armed; paused = s_paused; curop = s_op; p_fail = s_pf; m_fail = s_mf;
    return r;
}
// the module's initialisation, with the faults armed
PyMODINIT_FUNC PyInit_libspot(void);
PyObject *sim_import(int op, long pf, long mf) {
    int s_armed = armed, s_paused = paused, s_op = curop; long s_pf = p_fail, s_mf = m_fail;
    p_fail = pf; m_fail = mf; curop = op; paused = 0; armed = 1;
    PyObject *m = PyInit_libspot();
    armed = s_armed; paused = s_paused; curop = s_op; p_fail = s_pf; m_fail = s_mf;
    if (!m && !PyErr_Occurred()) PyErr_SetString(PyExc_SystemError, "initialisation failed without raising an exception");
    if (m && PyErr_Occurred()) { Py_DECREF(m); m = NULL; }
    return m;
}
int sim_pause(int on) { int o = paused; paused = on; return o; }
long sim_pfailed(void) { return p_failed; }
long sim_mfailed(void) { return m_failed; }
long sim_pcount(void) { return p_count; }
long sim_tracked(void) { return tracked; }
// what the latest initialisation of the module keeps (op >= 1 << 20) may be state of the module
int sim_tracked_op(void) { if (tracked) for (int i = 0; i < TS; i++) if (T[i].p && T[i].p != TOMB && T[i].op < 1 << 20) return T[i].op; return -1; }
void sim_forget(void) { if (ntouch > TOUCH) memset(T, 0, sizeof T); else for (unsigned k = 0; k < ntouch; k++) { T[touch[k]].p = 0; T[touch[k]].op = 0; } ntouch = 0; tracked = 0; p_failed = m_failed = p_count = 0; err[0] = 0; }
const char *sim_error(void) { return err; }
