#!/usr/bin/env python3
"""Writes seeded/<id>/ from the table below (edits are applied to a copy of /repo to make each patch)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -O1 -std=gnu11 -w -Iinclude "$D/demo.c" src/*.c -o "$T/demo" -lm -lpthread || exit 99
timeout 60 "$T/demo"
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "spot.h"
static double det(unsigned *s) { *s = *s * 1103515245u + 12345u; return ((*s >> 8) & 0xffff) / 65536.0; }
static int feed(struct Spot *s, unsigned seed, int n, double *buf) { for (int i = 0; i < n; i++) buf[i] = det(&seed) + det(&seed) + det(&seed); return spot_fit(s, buf, n); }
#define BAD(...) do { printf(__VA_ARGS__); printf("\\n"); return 1; } while (0)
'''
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, sh=SH, files=None, pre=PRE):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=(pre + demo) if demo else None, needs=needs, breaks=breaks, sh=sh, files=files or {}))

bug("text-overrun", "C01", [("src/spot.c", "for (; i < size; i++) {\n            dst[i] = '\\0';", "for (; i <= size; i++) {\n            dst[i] = '\\0';")],
'''int main() { char b[80]; memset(b, 'x', 80); libspot_version(b, 40); if (b[40] != 'x') BAD("byte beyond the buffer overwritten"); return 0; }''',
"a buffer longer than the text, and something that notices the byte after it", "a text call writes one byte past the caller's buffer")

bug("p2-overread", "C01", [("src/p2.c", "for (unsigned long j = 5; j < size; j++) {\n        double xj = x[j];", "double xj = x[5 % size];\n    for (unsigned long j = 5; j < size; j++, xj = x[j]) {")],
'''#include <sys/mman.h>
#include <unistd.h>
int main() { long pg = sysconf(_SC_PAGESIZE); char *m = mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + pg, pg, PROT_NONE);
  set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.5, 10); double *d = (double *)(m + pg) - 20; for (int i = 0; i < 20; i++) d[i] = i * 7 % 11; return spot_fit(&s, d, 20) < 0; }''',
"a training batch whose end is the end of accessible memory", "training reads one value past the batch")

bug("refit-leak", "C02", [("src/spot.c", "    // total number of excesses\n    spot->Nt = 0;", "    // a new training starts from an empty tail\n    if (spot->Nt > 0) {\n        tail_init(&(spot->tail), spot->tail.peaks.container.capacity);\n    }\n    // total number of excesses\n    spot->Nt = 0;")],
'''static int live; static void *m(size_t n) { live++; return malloc(n); } static void f(void *p) { if (p) live--; free(p); }
int main() { double b[100]; set_allocators(m, f); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.9, 20); feed(&s, 1, 100, b); feed(&s, 2, 100, b); spot_free(&s); if (live) BAD("%d blocks leaked", live); return 0; }''',
"training the same detector twice", "retraining allocates a new buffer and leaks the old one")



bug("stale-e2", "C03", [("src/peaks.c", "    peaks->e = 0.0;\n    peaks->e2 = 0.0;\n    peaks->min = _NAN;\n    peaks->max = _NAN;\n    return", "    peaks->e = 0.0;\n    if (peaks->e2 > 0.0 || is_nan(peaks->e2)) {\n        peaks->e2 = 0.0;\n    }\n    peaks->min = _NAN;\n    peaks->max = _NAN;\n    return")],
'''int main() { double b[100]; set_allocators(malloc, free); double z[2]; for (int k = 0; k < 2; k++) { struct Spot s; memset(&s, 0, sizeof s); s.tail.peaks.e2 = k ? -5.0 : 0; spot_init(&s, 1e-3, 0, 1, 0.5, 500); feed(&s, 1, 100, b); z[k] = s.tail.peaks.e2; spot_free(&s); }
 if (z[0] != z[1]) BAD("depends on previous memory: %g %g", z[0], z[1]); return 0; }''',
"memory that happened to hold a negative number at one field", "the sum of squares is not always reset")

bug("q-edge", "C03", [("src/spot.c", "    spot->q = q;\n    spot->level = level;\n", "    spot->q = q;\n    spot->level = level < 0.999 ? level : 0.999;\n")],
'''int main() { double b[400]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-6, 0, 1, 0.9995, 10); if (s.level != 0.9995) BAD("level is %g", s.level); return 0; }''',
"a level above 0.999", "an accepted configuration is silently changed")

bug("boundary-anomaly", "C04", [("src/spot.c", "(spot->__up_down * (x - spot->anomaly_threshold) > 0)) {", "(spot->__up_down * (x - spot->anomaly_threshold) >= 0)) {")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 200, b); int r = spot_step(&s, s.anomaly_threshold); if (r != EXCESS) BAD("reading equal to the threshold judged %d", r); return 0; }''',
"a reading exactly equal to the anomaly threshold", "it is reported as an anomaly and discarded")

bug("late-anomaly", "C04", [("src/spot.c", "        spot->anomaly_threshold = spot_quantile(spot, spot->q);\n        return EXCESS;", "        spot->anomaly_threshold = spot_quantile(spot, spot->q);\n        if (spot->discard_anomalies &&\n            (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n            return ANOMALY;\n        }\n        return EXCESS;")],
'''int main() { double b[300]; set_allocators(malloc, free); for (unsigned k = 1; k < 400; k++) { struct Spot s; spot_init(&s, 1e-2, 0, 1, 0.8, 3); feed(&s, k, 60, b); unsigned sd = k; for (int i = 0; i < 60; i++) { double t = s.excess_threshold, z = s.anomaly_threshold, x = t + (z - t) * det(&sd); if (!(x <= z)) continue; int r = spot_step(&s, x); if (r == ANOMALY) BAD("reading %g below threshold %g judged anomaly", x, z); } spot_free(&s); } return 0; }''',
"a small window where adding the reading lowers the threshold below the reading itself", "a reading below the threshold in force is reported as an anomaly although it entered the model")

bug("n-32bit", "C05", [("src/spot.c", "    // increment number of data (without the anomalies)\n    spot->n++;", "    // increment number of data (without the anomalies)\n    unsigned int seen = (unsigned int)spot->n + 1;\n    spot->n = seen;")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 200, b); s.n = 0xffffffffUL; spot_step(&s, 0.0); if (s.n != 0x100000000UL) BAD("n=%lu", s.n); return 0; }''',
"more than 2^32 readings", "the number of seen data wraps to zero")

bug("fit-counts-ties", "C05", [("src/spot.c", "        if (excess > 0) {", "        if (excess >= 0) {")],
'''int main() { double d[5] = {1, 2, 3, 4, 5}; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.5, 50); spot_fit(&s, d, 5); if (s.Nt != 2) BAD("Nt=%lu", s.Nt); return 0; }''',
"training values equal to the excess threshold", "training values at the threshold are counted and stored as excesses")

bug("fit-keeps-first", "C06", [("src/spot.c", "            spot->Nt++;\n            tail_push(&(spot->tail), excess);\n        }", "            spot->Nt++;\n            if (spot->Nt <= spot->tail.peaks.container.capacity) {\n                tail_push(&(spot->tail), excess);\n            }\n        }")],
'''int main() { double b[300]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.5, 5); feed(&s, 3, 300, b); double last = NAN; for (int i = 0; i < 300; i++) if (b[i] > s.excess_threshold) last = b[i] - s.excess_threshold; for (int i = 0; i < 5; i++) if (s.tail.peaks.container.data[i] == last) return 0; BAD("the last excess is not retained"); }''',
"a training batch with more excesses than the capacity", "the first excesses of the batch are retained instead of the last")

bug("skip-repeat", "C06", [("src/tail.c", "    // push the data into the container\n", "    struct Ubend const *last = &(tail->peaks.container);\n    // a repeated value brings no information about the tail\n    if ((last->cursor > 0) && (last->data[last->cursor - 1] == x)) {\n        return;\n    }\n    // push the data into the container\n")],
'''int main() { double b[100]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 0, 0.9, 50); feed(&s, 1, 100, b); unsigned long c = s.tail.peaks.container.cursor; double x = s.excess_threshold + 0.125; spot_step(&s, x); spot_step(&s, x); if (s.tail.peaks.container.cursor != c + 2) BAD("a repeated excess was dropped"); return 0; }''',
"the same excess twice in a row (stuck sensor)", "the second one is not retained")

bug("wrap-late", "C06", [("src/ubend.c", "        ubend->cursor = 0;\n        ubend->filled = 1;\n    } else {", "        ubend->cursor = (ubend->filled && ubend->capacity > 2) ? 1 : 0;\n        ubend->filled = 1;\n    } else {")],
'''int main() { double b[100]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 0, 0.9, 4); feed(&s, 1, 100, b); for (int i = 1; i <= 40; i++) { spot_step(&s, s.excess_threshold + i); } double w[4] = {0}; int ok = 0; for (int v = 37; v <= 40; v++) for (int i = 0; i < 4; i++) if (fabs(s.tail.peaks.container.data[i] - v) < 1e-9) { ok++; break; } if (ok != 4) BAD("the last four excesses are not retained"); return 0; }''',
"more than twice the capacity of excesses", "one old excess survives every later wrap-around")



bug("anomaly-counted", "C08", [("src/spot.c", "    if ((spot->discard_anomalies) &&\n        (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n        return ANOMALY;\n    }\n\n    // increment number of data (without the anomalies)\n    spot->n++;", "    // increment number of data\n    spot->n++;\n\n    if ((spot->discard_anomalies) &&\n        (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n        return ANOMALY;\n    }")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 200, b); if (spot_step(&s, 1e9) != ANOMALY) return 0; if (s.n != 200) BAD("n=%lu", s.n); return 0; }''',
"an anomaly while discarding is on", "the anomaly is counted and shifts every later threshold")

bug("nan-forgets", "C08", [("src/spot.c", "    if (is_nan(x)) {\n        return -ERR_DATA_IS_NAN;", "    if (is_nan(x)) {\n        // missing data: the next eviction is not balanced\n        spot->tail.peaks.container.last_erased_data = _NAN;\n        return -ERR_DATA_IS_NAN;")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s, t; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 200, b); double e = s.tail.peaks.container.last_erased_data; spot_init(&t, 1e-4, 0, 1, 0.5, 10); feed(&t, 1, 200, b); e = t.tail.peaks.container.last_erased_data; spot_step(&t, NAN); if (memcmp(&e, &t.tail.peaks.container.last_erased_data, 8)) BAD("a refused reading changed the detector"); return 0; }''',
"a NaN reading after the tail has wrapped", "a refused reading changes a field of the detector")


bug("mom-unbiased", "C09", [("src/estimator.c", "    const double R = E * E / V;\n", "    const double R = E * E / (V * (double)peaks_size(peaks) / ((double)peaks_size(peaks) - 1.0));\n")],
'''#include "tail.h"
int main() { set_allocators(malloc, free); struct Tail t; for (unsigned k = 1; k < 4000; k++) { unsigned sd = k * 7919; int n = 2 + k % 5; tail_init(&t, n); for (int i = 0; i < n; i++) tail_push(&t, 0.01 + det(&sd)); tail_fit(&t); double ll = log_likelihood(&t.peaks, t.gamma, t.sigma); double E = peaks_mean(&t.peaks), V = peaks_var(&t.peaks), R = E * E / V, g = .5 * (1 - R), s = .5 * E * (1 + R); double lm = log_likelihood(&t.peaks, g, s); if (V / (E * E) > 1e-3 && lm > ll + 1e-6) BAD("moment matching is likelier: %g > %g", lm, ll); tail_free(&t); } return 0; }''',
"few retained excesses for which no root is found", "the moment-matching candidate does not match the moments of the retained excesses")

bug("zero-excess-stale", "C10", [("src/spot.c", "        tail_fit(&(spot->tail));\n        // update threshold\n        spot->anomaly_threshold = spot_quantile(spot, spot->q);\n        return EXCESS;", "        // a null excess does not move the tail\n        if (ex > 0.0) {\n            tail_fit(&(spot->tail));\n            // update threshold\n            spot->anomaly_threshold = spot_quantile(spot, spot->q);\n        }\n        return EXCESS;")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 200, b); spot_step(&s, s.excess_threshold); double z = spot_quantile(&s, 1e-4); if (fabs(z - s.anomaly_threshold) > 1e-9) BAD("threshold %g, model %g", s.anomaly_threshold, z); return 0; }''',
"a reading exactly at the excess threshold", "the threshold is not refreshed although the window and the counts changed")

bug("quantile-memo", "C10", [("src/spot.c", "double spot_quantile(struct Spot const *spot, double q) {\n    double s = (double)(spot->Nt) / (double)(spot->n);\n    return spot->excess_threshold +\n           spot->__up_down * tail_quantile(&spot->tail, s, q);", "double spot_quantile(struct Spot const *spot, double q) {\n    // the last answer is kept: thresholds are asked for again and again\n    static struct Spot const *last_spot = 0x0;\n    static unsigned long last_n = 0, last_nt = 0;\n    static double last_q = 0.0, last_z = 0.0;\n    if ((spot == last_spot) && (q == last_q) && (spot->n == last_n) &&\n        (spot->Nt == last_nt)) {\n        return last_z;\n    }\n    double s = (double)(spot->Nt) / (double)(spot->n);\n    last_spot = spot;\n    last_n = spot->n;\n    last_nt = spot->Nt;\n    last_q = q;\n    last_z = spot->excess_threshold +\n             spot->__up_down * tail_quantile(&spot->tail, s, q);\n    return last_z;")],
'''int main() { double b[100]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.8, 20); feed(&s, 1, 100, b); for (int i = 0; i < 100; i++) b[i] = b[i] * 3 + 7; spot_fit(&s, b, 100); if (!(s.anomaly_threshold >= s.excess_threshold)) BAD("z=%g t=%g", s.anomaly_threshold, s.excess_threshold); return 0; }''',
"retraining with as many values and excesses as before, or another detector at the same address", "a stale threshold is returned")

bug("keep-old-threshold", "C10", [("src/spot.c", "        // update threshold\n        spot->anomaly_threshold = spot_quantile(spot, spot->q);\n        return EXCESS;", "        // update threshold (never down to less than a tenth of a sigma)\n        double zq = spot_quantile(spot, spot->q);\n        if (!(spot->__up_down * (zq - spot->excess_threshold) < 0.1 * spot->tail.sigma)) {\n            spot->anomaly_threshold = zq;\n        }\n        return EXCESS;")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 0.09, 0, 0, 0.9, 50); feed(&s, 1, 200, b); for (int i = 0; i < 400; i++) { if (i % 12 == 0) { spot_step(&s, s.excess_threshold + 0.01 * (i % 7)); double z = spot_quantile(&s, 0.09); if (fabs(z - s.anomaly_threshold) > 1e-9) BAD("threshold %g, model %g", s.anomaly_threshold, z); } else spot_step(&s, 0); } return 0; }''',
"a configured probability close to the excess rate", "the threshold stays where it was")

bug("near-exponential", "C11", [("src/tail.c", "    double r = q / s;\n    if (tail->gamma == 0.0) {", "    double r = q / s;\n    // avoid dividing by a tiny gamma\n    if ((tail->gamma < 1e-2) && (tail->gamma > -1e-2)) {")],
'''int main() { double b[400]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 400, b); s.tail.gamma = 0.008; double z = spot_quantile(&s, 1e-6), p = spot_probability(&s, z); if (fabs(p - 1e-6) > 1e-9) BAD("probability of the 1e-6 quantile is %g", p); return 0; }''',
"a fitted shape close to zero but not zero", "quantile and probability no longer invert each other")

bug("prob-clamped-below", "C11", [("src/tail.c", "        return s * xpow(1.0 + r, -1.0 / tail->gamma);", "        double p = xpow(1.0 + r, -1.0 / tail->gamma);\n        // keep away from denormals\n        return s * (p < 1e-12 ? 1e-12 : p);")],
'''int main() { double b[400]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 400, b); s.tail.gamma = 0.1; double z = spot_quantile(&s, 1e-15), p = spot_probability(&s, z); if (fabs(p - 1e-15) > 1e-17) BAD("probability of the 1e-15 quantile is %g", p); return 0; }''',
"a very rare value", "the probability of a far value is not the model's")

bug("low-strict", "C12", [("src/spot.c", "    double ex = spot->__up_down * (x - spot->excess_threshold);\n    if (ex >= 0.0) {", "    double ex = spot->__up_down * (x - spot->excess_threshold);\n    if ((spot->low && (ex > 0.0)) || (!spot->low && (ex >= 0.0))) {")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 1, 1, 0.9, 50); feed(&s, 1, 200, b); if (spot_step(&s, s.excess_threshold) != EXCESS) BAD("reading at the threshold is not an excess in lower mode"); return 0; }''',
"lower-tail mode and a reading equal to the threshold", "the two modes judge the boundary differently")


bug("static-p2", "C13", [("src/p2.c", "    struct P2 p2;\n    init_p2(&p2, p);", "    // too large for the stack of small targets\n    static struct P2 p2;\n    init_p2(&p2, p);")],
'''#include <pthread.h>
static volatile int stop; static double want[2]; static double data[2][4000]; static int bad;
static void *w(void *a) { long k = (long)a; for (int i = 0; i < 20000 && !bad; i++) { struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); spot_fit(&s, data[k], 4000); if (s.excess_threshold != want[k]) bad = 1; spot_free(&s); } return 0; }
int main() { set_allocators(malloc, free); unsigned sd = 5; for (int k = 0; k < 2; k++) { for (int i = 0; i < 4000; i++) data[k][i] = det(&sd) * (k + 1) + 10 * k; struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); spot_fit(&s, data[k], 4000); want[k] = s.excess_threshold; spot_free(&s); } pthread_t a, b; pthread_create(&a, 0, w, (void *)0); pthread_create(&b, 0, w, (void *)1); pthread_join(a, 0); pthread_join(b, 0); if (bad) BAD("training in one thread disturbed the other"); return 0; }''',
"two detectors trained at the same time", "the markers of the training quantile are shared between threads")


bug("streak-static", "C14", [("src/spot.c", "        (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n        return ANOMALY;\n    }", "        (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n        // after a very long streak of anomalies the regime has changed\n        static unsigned int streak = 0;\n        static double last = 0.0;\n        streak = (x == last) ? streak + 1 : 0;\n        last = x;\n        if (streak < 20) {\n            return ANOMALY;\n        }\n    }")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 200, b); for (int i = 0; i < 60; i++) { int r = spot_step(&s, 1e6); if (r != ANOMALY) BAD("reading %d judged %d", i, r); } return 0; }''',
"twenty equal anomalous readings in a row", "state outside the detector decides a verdict; after a restart the verdicts differ")

bug("both-utils", "C15", [("src/xmath.c", "    if (l) {\n        libspot_ldexp = l;\n    }\n    if (f) {", "    if (l && f) {\n        libspot_ldexp = l;\n    }\n    if (f) {")],
'''static int used; static double my(double x, int n) { used++; return ldexp(x, n); }
int main() { double b[400]; set_allocators(malloc, free); set_float_utils(my, 0); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 400, b); s.tail.gamma = 0.5; spot_quantile(&s, 1e-6); if (!used) BAD("the registered ldexp is not used"); return 0; }''',
"registering only one of the two utilities", "the registration is ignored")

bug("exp-direct", "C15", [("src/xmath.c", "        return libspot_ldexp(_exp_cf_6(r), k);", "        return k < 64 ? musl_ldexp(_exp_cf_6(r), k)\n                      : libspot_ldexp(_exp_cf_6(r), k);")],
'''static int used; static double my(double x, int n) { used++; return ldexp(x, n); }
int main() { double b[400]; set_allocators(malloc, free); set_float_utils(my, 0); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 50); feed(&s, 1, 400, b); s.tail.gamma = 0.5; spot_quantile(&s, 1e-6); if (!used) BAD("the registered ldexp is not used"); return 0; }''',
"a replaced ldexp and a moderate exponent", "the built-in utility is used instead of the registered one")

bug("brent-unbounded", "C16", [("src/brent.c", "    for (unsigned long iter = 0; iter < BRENT_ITMAX; iter++) {", "    for (unsigned long iter = 0; iter < BRENT_ITMAX;\n         iter += (_fabs(c - b) > tol)) {")],
'''#include <unistd.h>
int main() { alarm(10); double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.9, 20); feed(&s, 1, 200, b); for (int i = 0; i < 30; i++) spot_step(&s, i % 3 ? s.excess_threshold : INFINITY); for (int i = 0; i < 30; i++) spot_step(&s, s.excess_threshold); for (int i = 0; i < 30; i++) spot_step(&s, s.excess_threshold + 1e-300); return 0; }''',
"a window for which the root search cannot converge (ties at zero, infinities)", "a reading never returns")


bug("free-unused", "C02", [("src/ubend.c", "void ubend_free(struct Ubend *ubend) {\n", "void ubend_free(struct Ubend *ubend) {\n    // a container that never received anything has nothing to release\n    if (ubend_size(ubend) == 0) {\n        ubend->data = 0x0;\n    }\n")],
'''static int live; static void *m(size_t n) { live++; return malloc(n); } static void f(void *p) { if (p) live--; free(p); }
int main() { set_allocators(m, f); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.5, 4); spot_free(&s); if (live) BAD("%d blocks leaked", live); return 0; }''',
"a detector freed before any excess was observed", "its buffer is never released")

bug("running-sums", "C07", [("src/peaks.c", "    /* reset accumulators */\n    peaks->e = 0.0;\n    peaks->e2 = 0.0;\n", ""), ("src/peaks.c", "        peaks->e += value;\n        peaks->e2 += value * value;\n        if (is_nan(peaks->min)", "        if (is_nan(peaks->min)")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.9, 10); feed(&s, 1, 200, b); spot_step(&s, 1e18); double e = 0; for (int i = 0; i < 30; i++) spot_step(&s, s.excess_threshold + 2 + 0.01 * i); for (int i = 0; i < 10; i++) e += s.tail.peaks.container.data[i]; if (!(fabs(s.tail.peaks.e - e) < 1e-6)) BAD("sum is %g instead of %g", s.tail.peaks.e, e); return 0; }''',
"a very large excess that has left the window", "the rounding error it caused stays in the sums for ever")

bug("max-first", "C07", [("src/peaks.c", "    if ((size == 1) || (x > peaks->max)) {\n        peaks->max = x;\n    }\n", "    if ((size == 1) || (x > peaks->max)) {\n        peaks->max = x;\n        if (erased < x && erased > peaks->min) {\n            // the new maximum settles it, no need to look at the others\n            peaks->e -= erased;\n            return;\n        }\n    }\n")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.5, 4); feed(&s, 1, 60, b); unsigned sd = 3; for (int k = 0; k < 400; k++) { spot_step(&s, s.excess_threshold + 1 + det(&sd) * 3); double e2 = 0; for (int i = 0; i < 4; i++) e2 += s.tail.peaks.container.data[i] * s.tail.peaks.container.data[i]; if (fabs(s.tail.peaks.e2 - e2) > 1e-6) BAD("sum of squares is %g instead of %g", s.tail.peaks.e2, e2); } return 0; }''',
"a new largest excess that evicts one that was neither the smallest nor the largest", "the sum of squares keeps the evicted one")

bug("few-moments", "C09", [("src/tail.c", "        // compare estimators based on their log likelihood\n", "        // a root search on a handful of values is not worth its cost\n        if ((i > 0) && (peaks_size(peaks) < 4)) {\n            break;\n        }\n        // compare estimators based on their log likelihood\n")],
'''#include "tail.h"
int main() { set_allocators(malloc, free); struct Tail t; for (unsigned k = 1; k < 4000; k++) { unsigned sd = k * 7919; int n = 3; tail_init(&t, n); for (int i = 0; i < n; i++) tail_push(&t, 0.01 + det(&sd) * det(&sd)); tail_fit(&t); double ll = log_likelihood(&t.peaks, t.gamma, t.sigma), le = log_likelihood(&t.peaks, 0, peaks_mean(&t.peaks)); if (!(ll >= le - 1e-6)) BAD("the exponential is likelier: %g > %g", le, ll); tail_free(&t); } return 0; }''',
"a window of two or three excesses for which moment matching is poor", "the kept model is less likely than the exponential")

bug("low-ties", "C12", [("src/spot.c", "        if (excess > 0) {\n            // it is a real excess", "        if (excess > 0 || (spot->low && (excess >= 0))) {\n            // it is a real excess")],
'''int main() { double b[5] = {1, 2, 3, 4, 5}, c[5] = {-1, -2, -3, -4, -5}; set_allocators(malloc, free); struct Spot s, t; spot_init(&s, 1e-3, 0, 1, 0.5, 10); spot_init(&t, 1e-3, 1, 1, 0.5, 10); spot_fit(&s, b, 5); spot_fit(&t, c, 5); if (s.Nt != t.Nt) BAD("%lu excesses, mirrored %lu", s.Nt, t.Nt); return 0; }''',
"lower-tail training data equal to the excess threshold", "the two modes train on different excesses")

bug("static-roots", "C13", [("src/estimator.c", "    int found[] = {1, 0, 0};       // true, false, false\n    double roots[] = {0., 0., 0.}; // 0., ?, ?\n", "    static int found[3];\n    static double roots[3];\n    found[0] = 1;\n    found[1] = found[2] = 0;\n    roots[0] = roots[1] = roots[2] = 0.;\n")],
'''#include <pthread.h>
static double want[2]; static double data[2][400]; static int bad;
static void *w(void *a) { long k = (long)a; for (int i = 0; i < 20000 && !bad; i++) { struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 40); spot_fit(&s, data[k], 400); if (s.anomaly_threshold != want[k]) bad = 1; spot_free(&s); } return 0; }
int main() { set_allocators(malloc, free); unsigned sd = 5; for (int k = 0; k < 2; k++) { for (int i = 0; i < 400; i++) data[k][i] = k ? -log(det(&sd) + 1e-6) * 30 : det(&sd); struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 40); spot_fit(&s, data[k], 400); want[k] = s.anomaly_threshold; spot_free(&s); } pthread_t a, b; pthread_create(&a, 0, w, (void *)0); pthread_create(&b, 0, w, (void *)1); pthread_join(a, 0); pthread_join(b, 0); if (bad) BAD("fitting in one thread disturbed the other"); return 0; }''',
"two detectors fitted at the same time", "the roots found for one detector are used for the other")

bug("periodic-refresh", "C16", [("src/spot.c", "    return NORMAL;\n}\n\ndouble spot_quantile", "    // from time to time make sure the tail is up to date\n    if ((spot->n & 255) == 0) {\n        tail_fit(&(spot->tail));\n    }\n    return NORMAL;\n}\n\ndouble spot_quantile")],
'''static int calls; static double my(double x, int *e) { calls++; return frexp(x, e); }
int main() { static double b[4000]; set_allocators(malloc, free); set_float_utils(0, my); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.5, 2000); feed(&s, 1, 4000, b); for (int i = 0; i < 1000; i++) { calls = 0; spot_step(&s, -5); if (calls > 100) BAD("a normal reading evaluates %d logarithms", calls); } return 0; }''',
"a normal reading when the count is a multiple of 256", "that reading costs as much as an excess")

bug("inf-sticky", "C17", [("src/peaks.c", "        if ((erased <= peaks->min) || (erased >= peaks->max)) {", "        if ((erased <= peaks->min) ||\n            ((erased >= peaks->max) && (erased < 1e300))) {")],
'''int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.9, 10); feed(&s, 1, 200, b); spot_step(&s, INFINITY); for (int i = 0; i < 30; i++) spot_step(&s, s.excess_threshold + 2 - 0.01 * i); if (!(s.tail.peaks.e < 100) || !(s.anomaly_threshold < 1e9)) BAD("sum is still %g, threshold %g", s.tail.peaks.e, s.anomaly_threshold); return 0; }''',
"an infinite reading in the tail followed by decreasing excesses", "the statistics do not recover when it leaves")

PYSH = """#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/vp/venv/bin/python; [ -x $PY ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=_build/python/lib timeout 120 $PY "$D/demo.py"
"""
PYPRE = """import sys, gc, random
import libspot
r = random.Random(1)
def data(n): return [r.gauss(0, 1) for _ in range(n)]
def bad(*a): print(*a); sys.exit(1)
"""
def pybug(id, prop, edits, demo, needs, breaks):
    bug(id, prop, edits, None, needs, breaks, sh=PYSH, files={"demo.py": PYPRE + demo + "\n"})
PM = "python/libspotmodule.c"

pybug("py-wrap-view", "C18", [(PM, "    PyObject *data = excesses(ubend);", "    PyObject *data = to_python_list(\n        ubend->data,\n        (ubend->cursor > 0) ? ubend->cursor\n                            : (ubend->filled ? ubend->capacity : 0));")], """
d = libspot.Spot(1e-4, level=0.5, max_excess=10, discard_anomalies=0)
d.fit(data(100))
for i in range(40):
    d.step(d.excess_threshold + 1 + r.random())
    k = len(d.as_dict()["tail"]["peaks"]["container"]["data"])
    if k != 10: bad("only", k, "of the ten retained excesses are shown")
""", "a full window whose next slot is not the first one", "as_dict() shows only part of the window")

pybug("py-int-step", "C18", [(PM, "static PyObject *Spot_step(Spot *self, PyObject *x) {\n    double z = PyFloat_AsDouble(x);", "static PyObject *Spot_step(Spot *self, PyObject *x) {\n    double z = PyLong_Check(x) ? (double)(int)PyLong_AsLong(x)\n                               : PyFloat_AsDouble(x);")], """
d = libspot.Spot(1e-4, level=0.5, max_excess=10)
d.fit(data(100))
if d.step(2**32) != libspot.ANOMALY: bad("a huge integer reading is not an anomaly")
""", "an integer reading that does not fit in 32 bits", "the reading is truncated and another verdict given")

pybug("py-shared-buffer", "C18", [(PM, "    double *x = malloc((size + 1) * sizeof(double));\n    if (x == NULL) {\n        Py_DECREF(seq);\n        return PyErr_NoMemory();\n    }\n", "    // keep it for small batches\n    static double small[256];\n    double *x = small;\n    if (size > 256) {\n        x = malloc((size + 1) * sizeof(double));\n    }\n    if (x == NULL) {\n        Py_DECREF(seq);\n        return PyErr_NoMemory();\n    }\n"),
  (PM, "        if ((x[i] == -1.0) && PyErr_Occurred()) {\n            free(x);\n", "        if ((x[i] == -1.0) && PyErr_Occurred()) {\n            if (x != small) {\n                free(x);\n            }\n"),
  (PM, "    if (check_initialised(self) < 0) {\n        free(x);\n        return NULL;\n    }\n    // libspot API call\n    int result = spot_fit(&(self->_spot), x, size);\n    // free the buffer\n    free(x);\n", "    int result = check_initialised(self);\n    if (result == 0) {\n        // libspot API call\n        result = spot_fit(&(self->_spot), x, size);\n    }\n    // free the buffer\n    if (x != small) {\n        free(x);\n    }\n    if (PyErr_Occurred()) {\n        return NULL;\n    }\n")], """
class X:
    def __init__(self, other): self.other = other
    def __float__(self):
        self.other.fit([1000.0 + i for i in range(50)]); return 0.5
a, b, c = (libspot.Spot(1e-4, level=0.5, max_excess=10) for _ in range(3))
v = data(50)
a.fit(v + [0.5]); c.fit(v + [X(b)])
if a.anomaly_threshold != c.anomaly_threshold: bad("trained on", c.anomaly_threshold, "instead of", a.anomaly_threshold)
""", "training a detector with an element whose conversion trains another detector", "the batch of the outer training is overwritten by the inner one")

pybug("py-gil-fit", "C18", [(PM, "    int result = spot_fit(&(self->_spot), x, size);\n    // free the buffer\n", "    int result;\n    // training may be long, let the other threads work\n    Py_BEGIN_ALLOW_THREADS\n    result = spot_fit(&(self->_spot), x, size);\n    Py_END_ALLOW_THREADS\n    // free the buffer\n")], """
import threading, array
d = libspot.Spot(1e-4, level=0.9, max_excess=200)
d.fit(data(1000))
before = d.Nt
big = array.array("d", [r.random() for _ in range(2000000)])
done = []
t = threading.Thread(target=lambda: (d.fit(big), done.append(1)))
seen = set()
t.start()
while not done: seen.add(d.Nt)
t.join()
if not seen <= {before, d.Nt}: bad("another thread sees a half-trained detector:", sorted(seen)[:5])
""", "another thread using the detector while it is being trained", "the other thread sees and changes a half-trained detector")

pybug("py-dict-leak", "C19", [(PM, '"{sdsdsisisdsdsksksN}"', '"{sdsdsisisdsdsksksO}"')], """
d = libspot.Spot(1e-4, level=0.5, max_excess=10)
d.fit(data(100))
gc.collect(); n = len(gc.get_objects())
for i in range(1000): d.as_dict()
gc.collect(); m = len(gc.get_objects())
if m - n > 500: bad(m - n, "objects leaked by 1000 as_dict()")
""", "calling as_dict()", "every call leaks the nested dictionaries")

pybug("py-list-null", "C19", [(PM, "        if (!num) {\n            Py_DECREF(list);\n            return NULL;\n        }\n        PyList_SetItem(list, i, num);", "        if (PyList_SetItem(list, i, num) < 0) {\n            Py_DECREF(list);\n            return NULL;\n        }")], """
import _testcapi
d = libspot.Spot(1e-4, level=0.5, max_excess=50)
d.fit(data(100))
keep = [float(i) + 0.5 for i in range(500)]   # the interpreter's spare float objects are in use
for k in range(1, 40):
    res = None
    _testcapi.set_nomemory(k, k + 1)
    try:
        res = d.excesses()
    except MemoryError:
        pass
    except SystemError:
        _testcapi.remove_mem_hooks(); bad("SystemError")
    finally:
        _testcapi.remove_mem_hooks()
    if res is not None and len(repr(res)) and "NULL" in repr(res): bad("a list with holes")
""", "an allocation failure while the list of excesses is being built", "a list with missing items is returned together with a pending MemoryError")

pybug("py-dealloc-untrained", "C19", [(PM, "    // free internal structure\n    // libspot API call\n    spot_free(&(self->_spot));\n    // instances", "    // free internal structure\n    // libspot API call\n    if (self->_spot.n > 0) {\n        spot_free(&(self->_spot));\n    }\n    // instances")], """
import resource
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4096
for i in range(50): libspot.Spot(1e-4, max_excess=20000)
a = rss()
for i in range(2000):
    d = libspot.Spot(1e-4, max_excess=3000); d = None
b = rss()
import ctypes
ctypes.CDLL(None).malloc_trim(0)
class M(ctypes.Structure): _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
mi = ctypes.CDLL(None).mallinfo2; mi.restype = M
u = mi().uordblks
for i in range(500): libspot.Spot(1e-4, max_excess=3000)
if mi().uordblks - u > 500 * 3000 * 4: bad("memory of untrained detectors is not released")
""", "dropping a detector that was never trained", "its excess buffer leaks")

JSSH = """#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/stubs"; for h in stdio.h emscripten.h; do : > "$T/stubs/$h"; done
printf 'void *malloc(__SIZE_TYPE__);\nvoid free(void *);\n' > "$T/stubs/stdlib.h"
for c in src/*.c wasm/main.c "$D/heap.c"; do
  clang --target=wasm32 -O2 -std=c99 -w -nostdlib -ffreestanding -fno-builtin -Dmain=main_ '-DVERSION="demo"' -Iinclude -isystem "$T/stubs" -c "$c" -o "$T/$(basename $c).o" || exit 99
done
wasm-ld --no-entry --export-all --initial-memory=196608 --max-memory=67108864 "$T"/*.o -o "$T/m.wasm" || exit 99
/opt/veriftools/node/node_modules/.bin/esbuild wasm/index.ts --bundle --format=esm --target=esnext '--external:*libspot.core.js' --outfile="$T/index.mjs" --log-level=warning || exit 99
cp "$D/core.mjs" "$T/libspot.core.js"; cp "$D/demo.mjs" "$T/demo.mjs"; echo '{"type":"module"}' > "$T/package.json"
cd "$T" && timeout 120 node --no-warnings --expose-gc demo.mjs
"""
JSHEAP = """// a small heap: first fit, released blocks are overwritten
typedef unsigned int u;
extern unsigned char __heap_base;
static unsigned char *top;
struct B { u n, live; struct B *next; u pad; };
static struct B *blocks;
u live_blocks;
u bad_free;
void *malloc(u n) {
  n = (n + 15) & ~15u;
  for (struct B *b = blocks; b; b = b->next) if (!b->live && b->n == n) { b->live = 1; live_blocks++; return b + 1; }
  if (!top) top = (unsigned char *)(((u)&__heap_base + 15) & ~15u);
  if (n > (32u << 20)) return 0;
  unsigned char *e = top + sizeof(struct B) + n;
  while ((u)e > __builtin_wasm_memory_size(0) * 65536u) if (__builtin_wasm_memory_grow(0, 1) == (u)-1) return 0;
  struct B *b = (struct B *)top; top = e;
  b->n = n; b->live = 1; b->next = blocks; blocks = b; live_blocks++;
  for (u i = 0; i < n; i++) ((volatile unsigned char *)(b + 1))[i] = 0x5e;
  return b + 1;
}
void free(void *p) {
  if (!p) return;
  for (struct B *b = blocks; b; b = b->next)
    if ((void *)(b + 1) == p && b->live) { b->live = 0; live_blocks--; for (u i = 0; i < b->n; i++) ((volatile unsigned char *)p)[i] = 0xdd; return; }
  bad_free++;
}
u get_live(void) { return live_blocks; }
u get_bad(void) { return bad_free; }
void *memset(void *d, int c, u n) { for (volatile char *p = d; n--;) *p++ = (char)c; return d; }
void *memcpy(void *d, const void *s, u n) { volatile char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
"""
JSCORE = """// stands in for the loader Emscripten generates
import fs from "node:fs";
export default async function loadWASM() {
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(new URL("./m.wasm", import.meta.url)), { env: {} });
  const ex = instance.exports, M = {};
  let buf = null;
  // the views are replaced whenever the memory has grown
  const views = () => { if (buf !== ex.memory.buffer) { buf = ex.memory.buffer; M.HEAPU8 = new Uint8Array(buf); M.HEAPF64 = new Float64Array(buf); } };
  const wrap = (f) => (...a) => { const r = f(...a); views(); return r; };
  views();
  for (const [k, f] of Object.entries(ex)) if (typeof f === "function") M["_" + k] = wrap(f);
  M.cwrap = (n) => M["_" + n];
  M.ccall = (n, r, t, a) => M["_" + n](...a);
  M._main_();
  globalThis.module = M;
  return M;
}
"""
JSPRE = """const lib = await import("./index.mjs");
const { Spot } = lib;
let seed = 1;
const rnd = () => { seed = (Math.imul(seed, 1103515245) + 12345) >>> 0; return ((seed >>> 8) & 0xffff) / 65536; };
const data = (n) => Float64Array.from({ length: n }, () => rnd() + rnd() + rnd());
const bad = (...a) => { console.log(...a); process.exit(1); };
const collect = async () => { for (let i = 0; i < 5; i++) { await new Promise((r) => setTimeout(r, 5)); gc(); await new Promise((r) => setTimeout(r, 5)); } };
"""
def jsbug(id, prop, edits, demo, needs, breaks):
    bug(id, prop, edits, None, needs, breaks, sh=JSSH, files={"demo.mjs": JSPRE + demo + "\n", "core.mjs": JSCORE, "heap.c": JSHEAP})
TS = "wasm/index.ts"

jsbug("js-cached-heap", "C20", [(TS, "const libspot = await loadWASM();\n", "const libspot = await loadWASM();\n// memory of the module\nconst heap = libspot.HEAPU8;\n"),
  (TS, "libspot.HEAPU8.slice(this.ptr + 32, this.ptr + 40)", "heap.slice(this.ptr + 32, this.ptr + 40)")], """
const s = new Spot({ q: 1e-4, level: 0.9 });
s.fit(data(200));
const z = s.anomaly_threshold();
const big = new Spot({ q: 1e-4, maxExcess: 100000 });
let y; try { y = s.anomaly_threshold(); } catch (e) { y = e; }
if (!(Math.abs(y - z) === 0)) bad("the threshold was", z, "and is now", String(y));
""", "the memory of the module growing", "the anomaly threshold of existing detectors cannot be read any more")

jsbug("js-disc-zero", "C20", [(TS, "const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);", "const code = spotInit(\n      this.ptr,\n      q,\n      low,\n      discardAnomalies || 1,\n      level,\n      maxExcess\n    );")], """
const s = new Spot({ q: 1e-4, level: 0.9, discardAnomalies: 0, maxExcess: 20 });
s.fit(data(200));
const z = s.anomaly_threshold();
s.step(z + 1);
if (s.anomaly_threshold() === z) bad("the anomaly was not included in the model");
""", "a detector configured to include anomalies, and an anomaly", "the anomaly is discarded all the same")

jsbug("js-layout", "C20", [("include/structs.h", "    double anomaly_threshold;", "    double threshold_swap_;"), ("include/structs.h", "    double excess_threshold;", "    double anomaly_threshold;"), ("include/structs.h", "    double threshold_swap_;", "    double excess_threshold;")], """
const s = new Spot({ q: 1e-4, level: 0.9 });
s.fit(data(200));
if (!(s.anomaly_threshold() > s.excess_threshold())) bad("thresholds", s.excess_threshold(), s.anomaly_threshold());
""", "reading the thresholds from JavaScript, which knows their offsets", "the two thresholds are exchanged")

jsbug("js-free-order", "C21", [(TS, "  spotFree(ptr); // release internal memory (created by spotInit)\n  libspot._free(ptr); // release heap allocated object (created by spotNew)\n", "  libspot._free(ptr); // release heap allocated object (created by spotNew)\n  spotFree(ptr); // release internal memory (created by spotInit)\n")], """
await collect();
const n0 = module._get_live();
(() => { for (let i = 0; i < 20; i++) new Spot({ q: 1e-4, maxExcess: 10 }).fit(data(50)); })();
await collect();
if (module._get_bad() || module._get_live() > n0) bad(module._get_bad(), "bad releases,", module._get_live() - n0, "blocks left");
""", "a detector being finalised", "its structure is read after it was released, and its excesses leak")

jsbug("js-text-leak", "C21", [(TS, "  const msg = stringify(libspot.HEAPU8.slice(ptr, ptr + size));\n  libspot._free(ptr);\n  return msg;", "  if (libspot.HEAPU8[ptr] === 0) {\n    // no message for this code\n    return \"\";\n  }\n  const msg = stringify(libspot.HEAPU8.slice(ptr, ptr + size));\n  libspot._free(ptr);\n  return msg;")], """
const s = new Spot({ q: 1e-4, level: 0.9 });
s.fit(data(200));
const n = module._get_live();
for (let i = 0; i < 100; i++) try { s.step(NaN); } catch (e) {}
if (module._get_live() > n) bad(module._get_live() - n, "blocks leaked by refused readings");
""", "a refusal that has no message (a NaN reading)", "the buffer for the text leaks at every one")

jsbug("js-held-owner", "C21", [(TS, "const freg = new FinalizationRegistry((ptr: number) => {\n", "const freg = new FinalizationRegistry((owner: { spot: object; ptr: number }) => {\n  const ptr = owner.ptr;\n"),
  (TS, "freg.register(this, this.ptr); // kind of destructor", "freg.register(this, { spot: this, ptr: this.ptr }); // kind of destructor")], """
await collect();
const n0 = module._get_live();
(() => { for (let i = 0; i < 20; i++) new Spot({ q: 1e-4, maxExcess: 10 }).fit(data(50)); })();
await collect(); await collect();
if (module._get_live() > n0) bad(module._get_live() - n0, "blocks of unreachable detectors left");
""", "a real collection of a dropped detector", "the registry itself keeps every detector reachable, none is ever released")

jsbug("js-scratch-grow", "C21", [(TS, "  fit(data: Float64Array) {\n    // reserve heap\n    const arrayPtr = reserve(data.length * data.BYTES_PER_ELEMENT);\n", "  fit(data: Float64Array) {\n    // reserve heap (and keep it for the next time)\n    if (data.length > scratch.size || scratch.ptr === 0) {\n      scratch.ptr = reserve(data.length * data.BYTES_PER_ELEMENT);\n      scratch.size = data.length;\n    }\n    const arrayPtr = scratch.ptr;\n"),
  (TS, "    // release heap\n    libspot._free(arrayPtr);\n", ""), (TS, "/**\n * Main structure to run the SPOT algorithm\n */", "const scratch = { ptr: 0, size: 0 };\n\n/**\n * Main structure to run the SPOT algorithm\n */")], """
const s = new Spot({ q: 1e-4, level: 0.9 });
s.fit(data(100));
const n = module._get_live();
for (let i = 1; i < 50; i++) s.fit(data(100 + i));
if (module._get_live() > n + 1) bad(module._get_live() - n, "blocks leaked by trainings of growing size");
""", "trainings of growing size", "the smaller buffers kept before are forgotten")

TWO = """static int twin(double k, unsigned seed, double *zs) { double b[300], r[300]; set_allocators(malloc, free); struct Spot s[2]; int bad = 0; for (int j = 0; j < 2; j++) { spot_init(&s[j], 1e-3, 0, 1, 0.9, 40); unsigned sd = seed; for (int i = 0; i < 300; i++) b[i] = (det(&sd) + det(&sd) + det(&sd)) * (j ? k : 1); spot_fit(&s[j], b, 300); zs[j] = s[j].anomaly_threshold; }
  unsigned sd = seed + 7; for (int i = 0; i < 600; i++) { double x = det(&sd) * 1.5 + det(&sd) + det(&sd); if (i % 10 == 9) x = s[0].anomaly_threshold * (1 + 1e-4 * det(&sd)); if (i % 10 == 8) x = s[0].excess_threshold * (1 - 1e-5 * det(&sd)); if (spot_step(&s[0], x) != spot_step(&s[1], x * k)) bad++; }
  if (s[0].anomaly_threshold * k != s[1].anomaly_threshold || s[0].excess_threshold * k != s[1].excess_threshold) bad++; spot_free(&s[0]); spot_free(&s[1]); return bad; }
"""
bug("unit-eps", "C22", [("src/spot.c", "(spot->__up_down * (x - spot->anomaly_threshold) > 0)) {", "(spot->__up_down * (x - spot->anomaly_threshold) > 1.0e-9)) {")],
TWO + """int main() { double z[2]; int b = 0; for (unsigned k = 1; k < 20; k++) b += twin(0x1p-30, k, z); if (b) BAD("%d verdicts differ in a smaller unit", b); return 0; }""",
"data of small magnitude", "anomalies slightly beyond the threshold are taken for excesses, depending on the unit")

bug("unit-p2", "C22", [("src/p2.c", "                if ((d >= 1 &&", "                if (p2->q[i + 1] - p2->q[i - 1] < 1.0e-12) {\n                    continue; // markers cannot be told apart\n                }\n                if ((d >= 1 &&")],
TWO + """int main() { double z[2]; int b = 0; for (unsigned k = 1; k < 20; k++) b += twin(0x1p-60, k, z); if (b) BAD("%d differences in a smaller unit", b); return 0; }""",
"training data of small magnitude", "the markers are not moved and the excess threshold differs with the unit")

bug("origin-rel", "C22", [("src/spot.c", "    double ex = spot->__up_down * (x - spot->excess_threshold);", "    double ex = spot->__up_down * (x - spot->excess_threshold);\n    // rounding of the reading itself\n    double ulp = 1.0e-10 * (x < 0 ? -x : x);\n    if (ex < 0 && ex > -ulp) {\n        ex = 0.0;\n    }")],
"""int main() { double b[300]; set_allocators(malloc, free); int r[2], j; for (j = 0; j < 2; j++) { struct Spot s; double c = j ? 1048576.0 : 0; spot_init(&s, 1e-3, 0, 1, 0.9, 40); unsigned sd = 3; for (int i = 0; i < 300; i++) b[i] = floor((det(&sd) + det(&sd) + det(&sd)) * 1048576) / 1048576 + c; spot_fit(&s, b, 300); double x = s.excess_threshold; x -= 0x1p-20; if (!j) x = s.excess_threshold - 0x1p-20; r[j] = spot_step(&s, x); spot_free(&s); }
 if (r[0] != r[1]) BAD("same reading, other origin: %d %d", r[0], r[1]); return 0; }""",
"data far from zero compared with their spread, and a reading just inside the excess threshold", "the verdict depends on the origin of the data")

bug("train-prefix", "C23", [("src/spot.c", "et = p2_quantile(1. - spot->level, data, size);", "// the markers have settled long before the end of a large batch\n        et = p2_quantile(1. - spot->level, data, size > 1000 ? 1000 : size);")],
"""int main() { static double b[10000]; set_allocators(malloc, free); double worst = 0; for (unsigned k = 1; k < 20; k++) { struct Spot s; spot_init(&s, 1e-4, 1, 1, 0.9, 100); srand(k); for (int i = 0; i < 10000; i++) { b[i] = 0; for (int j = 0; j < 6; j++) b[i] += rand() / (double)RAND_MAX; } spot_fit(&s, b, 10000); int c = 0; for (int i = 0; i < 10000; i++) c += b[i] < s.excess_threshold; double e = fabs(c - 1000.0); if (e > worst) worst = e; spot_free(&s); } if (worst > 70) BAD("%g values too many or too few beyond the threshold", worst); return 0; }""",
"lower-tail mode and a batch of more than 1000 values", "the threshold is that of the first thousand")

bug("train-warm", "C23", [("src/p2.c", "    struct P2 p2;\n    init_p2(&p2, p);\n", "    static struct P2 p2;\n    static double prepared = -1.0;\n    // the tables depend on p only\n    if (prepared != p) {\n        init_p2(&p2, p);\n        prepared = p;\n    }\n")],
"""int main() { static double b[2000]; set_allocators(malloc, free); double worst = 0; struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.9, 300); for (unsigned k = 1; k < 20; k++) { srand(k); for (int i = 0; i < 2000; i++) { b[i] = 0; for (int j = 0; j < 6; j++) b[i] += rand() / (double)RAND_MAX; } spot_fit(&s, b, 2000); int c = 0; for (int i = 0; i < 2000; i++) c += b[i] > s.excess_threshold; double e = fabs(c - 200.0); if (e > worst) worst = e; } if (worst > 40) BAD("%g values too many or too few beyond the threshold", worst); return 0; }""",
"training twice at the same level", "the ranks of the first training are carried into the second")

bug("train-high-level", "C23", [("src/p2.c", "    p2->dn[2] = p;\n", "    p2->dn[2] = p < 0.99 ? p : 0.99; // markers must stay apart\n")],
"""int main() { static double b[20000]; set_allocators(malloc, free); double m = 0; for (unsigned k = 1; k < 21; k++) { struct Spot s; spot_init(&s, 1e-4, 0, 1, 0.998, 300); srand(k); for (int i = 0; i < 20000; i++) { b[i] = 0; for (int j = 0; j < 6; j++) b[i] += rand() / (double)RAND_MAX; } spot_fit(&s, b, 20000); int c = 0; for (int i = 0; i < 20000; i++) c += b[i] > s.excess_threshold; m += c / 20.0; } if (m > 80) BAD("%g values beyond the threshold instead of 40", m); return 0; }""",
"a level above 0.99", "the threshold stays at the 99% quantile")

bug("train-high-level", "C23", [("src/p2.c", "    p2->dn[2] = p;\n", "    p2->dn[2] = p < 0.998 ? p : 0.998; // markers must stay apart\n")],
"""int main() { static double b[40000]; set_allocators(malloc, free); double m = 0; for (unsigned k = 1; k < 21; k++) { struct Spot s; spot_init(&s, 1e-5, 0, 1, 0.9995, 300); srand(k); for (int i = 0; i < 40000; i++) { b[i] = 0; for (int j = 0; j < 6; j++) b[i] += rand() / (double)RAND_MAX; } spot_fit(&s, b, 40000); int c = 0; for (int i = 0; i < 40000; i++) c += b[i] > s.excess_threshold; m += c / 20.0; } if (m > 45) BAD("%g values beyond the threshold instead of 20", m); return 0; }""",
"a level above 0.998", "the threshold stays at the 99.8% quantile")

bug("release-kept", "C02", [("src/allocator.c", "    libspot_free = f;", "    // blocks already handed out belong to the first allocator\n    if (!libspot_free) {\n        libspot_free = f;\n    }")],
"""static int n1, n2; static void f1(void *p) { n1++; free(p); } static void f2(void *p) { n2++; free(p); }
int main() { struct Spot s; set_allocators(malloc, f1); spot_init(&s, 1e-3, 0, 1, 0.9, 20); spot_free(&s); set_allocators(malloc, f2); spot_init(&s, 1e-3, 0, 1, 0.9, 20); spot_free(&s); if (n1 != 1 || n2 != 1) BAD("released %d and %d blocks through the two functions", n1, n2); return 0; }""",
"registering another pair of allocation functions when no detector is alive", "blocks of the second pair are released through the first")

bug("flag-byte", "C03", [("src/spot.c", "    if (discard_anomalies) {\n", "    if (discard_anomalies & 0xff) {\n")],
"""int main() { struct Spot s; set_allocators(malloc, free); spot_init(&s, 1e-3, 0, 256, 0.9, 20); if (!s.discard_anomalies) BAD("anomalies are not discarded"); spot_free(&s); return 0; }""",
"a true flag whose low byte is zero (flags & MASK)", "an accepted configuration is not the requested one")

bug("count-double", "C05", [("src/spot.c", "    spot->n++;\n", "    spot->n = (unsigned long)((double)spot->n + 1.0);\n")],
"""int main() { double b[200]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.9, 20); feed(&s, 1, 200, b); s.n = 1UL << 53; for (int i = 0; i < 10; i++) spot_step(&s, s.excess_threshold - 1); if (s.n != (1UL << 53) + 10) BAD("%lu readings missing", (1UL << 53) + 10 - s.n); spot_free(&s); return 0; }""",
"a stream of more than 2^53 readings", "the counter stops")

bug("warm-start", "C14", [("src/tail.c", "    double max_llhood = _NAN;\n", "    // the previous parameters are a candidate too\n    static double last_gamma = 0.0, last_sigma = 0.0;\n    double max_llhood = _NAN;\n    if ((last_sigma > 0.0) && (peaks_size(peaks) > 1)) {\n        max_llhood = log_likelihood(peaks, last_gamma, last_sigma);\n        tail->gamma = last_gamma;\n        tail->sigma = last_sigma;\n    }\n"), ("src/tail.c", "    return max_llhood;\n}", "    last_gamma = tail->gamma;\n    last_sigma = tail->sigma;\n    return max_llhood;\n}")],
"""#include <unistd.h>
#include <sys/wait.h>
/* one history; every restart happens in a process that has not used the library before */
#include <sys/mman.h>
struct image { struct Spot s; double buf[40]; } *im;
static double rd(unsigned *k) { return -log(det(k) + 1e-9); }
static void save(struct image *m, struct Spot *s) { m->s = *s; memcpy(m->buf, s->tail.peaks.container.data, sizeof m->buf); }
int main() { int bad = 0, n = 150; im = mmap(0, (n + 1) * sizeof *im, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
 for (unsigned sd = 1; sd < 30 && !bad; sd++) { int st; double x[200]; unsigned k = sd; double b[300]; for (int i = 0; i < 300; i++) b[i] = rd(&k); for (int i = 0; i < n; i++) x[i] = 1.5 + rd(&k);
  if (!fork()) { set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.8, 40); memset(s.tail.peaks.container.data, 0, 40 * 8); spot_fit(&s, b, 300); save(im, &s); for (int i = 0; i < n; i++) { spot_step(&s, x[i]); save(im + i + 1, &s); } _exit(0); }
  wait(&st);
  for (int i = 0; i < n && !bad; i++) { if (!fork()) { set_allocators(malloc, free); struct image c = im[i]; c.s.tail.peaks.container.data = c.buf; spot_step(&c.s, x[i]); _exit(c.s.anomaly_threshold != im[i + 1].s.anomaly_threshold); } wait(&st); bad |= st != 0; } }
 if (bad) BAD("the restored detector goes on with another threshold"); return 0; }""",
"a restart between training and later excesses", "the fit uses parameters remembered outside the detector")

bug("scale-static", "C13", [("src/tail.c", "    return (tail->sigma / tail->gamma) * (xpow(r, -tail->gamma) - 1);", "    static double scale;\n    scale = tail->sigma / tail->gamma;\n    double const p = xpow(r, -tail->gamma);\n    return scale * (p - 1);")],
"""static struct Spot a, c; static int hit; static double other;
static double my(double x, int *e) { if (hit) { hit = 0; other = spot_quantile(&c, 1e-5); } return frexp(x, e); }
/* the registered utility is where the other thread gets the processor */
int main() { double b[300]; set_allocators(malloc, free); spot_init(&a, 1e-4, 0, 1, 0.9, 40); spot_init(&c, 1e-4, 0, 1, 0.8, 40); feed(&a, 1, 300, b); feed(&c, 7, 300, b); double z = spot_quantile(&a, 1e-6); set_float_utils(0, my); hit = 1; double y = spot_quantile(&a, 1e-6); if (hit) BAD("not reached"); if (y != z) BAD("%.17g alone, %.17g when another detector is queried meanwhile", z, y); return 0; }""",
"a second thread querying another detector between two instructions of a query", "a query returns a value scaled with the other detector's parameters")

bug("max-diff", "C17", [("src/peaks.c", "if ((erased <= peaks->min) || (erased >= peaks->max)) {", "if ((erased - peaks->min <= 0.0) || (erased - peaks->max >= 0.0)) {")],
"""int main() { double b[300]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.9, 10); feed(&s, 1, 300, b); spot_step(&s, INFINITY); for (int i = 0; i < 10; i++) spot_step(&s, s.excess_threshold + 0.5 - 0.01 * i); if (!(s.tail.peaks.e < 10) || !(s.anomaly_threshold == s.anomaly_threshold)) BAD("sum %g, threshold %g", s.tail.peaks.e, s.anomaly_threshold); return 0; }""",
"an infinite reading that leaves the window while it is the maximum", "the statistics stay NaN for ever")

bug("inf-scale-stuck", "C17", [("src/tail.c", "    double max_llhood = _NAN;\n", "    double max_llhood = _NAN;\n    // nothing can be fitted next to an infinite scale\n    if (tail->sigma == _INFINITY) {\n        return max_llhood;\n    }\n")],
"""int main() { double b[300]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-4, 0, 0, 0.9, 10); feed(&s, 1, 300, b); spot_step(&s, INFINITY); int inf = 0; for (int k = 0; k < 8; k++) { spot_step(&s, 1e308); spot_step(&s, 1.5e308); spot_step(&s, 1e300); } for (int i = 0; i < 60; i++) spot_step(&s, s.excess_threshold + 0.01 * (1 + i % 7)); if (!(s.tail.sigma < 1) || !(s.anomaly_threshold < 100)) BAD("scale %g, threshold %g", s.tail.sigma, s.anomaly_threshold); return 0; }""",
"readings so large that the fitted scale overflows once", "the model is never fitted again")

bug("anomaly-work", "C16", [("src/spot.c", "        (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n        return ANOMALY;", "        (spot->__up_down * (x - spot->anomaly_threshold) > 0)) {\n        // make sure that the model can still be trusted\n        if (is_nan(log_likelihood(&(spot->tail.peaks), spot->tail.gamma,\n                                  spot->tail.sigma))) {\n            spot->anomaly_threshold = spot_quantile(spot, spot->q);\n        }\n        return ANOMALY;")],
"""static unsigned long calls; static double my(double x, int *e) { calls++; return frexp(x, e); }
int main() { static double b[20000]; set_allocators(malloc, free); set_float_utils(0, my); unsigned long c[2]; for (int k = 0; k < 2; k++) { struct Spot s; spot_init(&s, 1e-5, 0, 1, 0.5, k ? 5000 : 10); feed(&s, 1, 20000, b); calls = 0; if (spot_step(&s, 1e9) != ANOMALY) BAD("no anomaly"); c[k] = calls; spot_free(&s); } if (c[1] > c[0] + 10) BAD("an anomaly costs %lu logarithms with a small window, %lu with a large one", c[0], c[1]); return 0; }""",
"an anomaly met with a large window", "an anomaly costs time proportional to the window")

jsbug("js-level-or", "C20", [(TS, "const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);", "const code = spotInit(\n      this.ptr,\n      q,\n      low,\n      discardAnomalies,\n      level || 0.98,\n      maxExcess\n    );")], """
const s = new Spot({ q: 1e-3, level: 0 });
const d = data(200);
s.fit(d);
let n = 0; for (const x of d) if (x > s.excess_threshold()) n++;
if (n < 100) bad("only", n, "of 200 values lie beyond the threshold of level 0");
""", "a level of exactly zero", "the default level is used instead")

bug("stack-copy", "C02", [("src/spot.c", "    // total number of excesses\n    spot->Nt = 0;", "    // work on a private copy of the batch\n    double copy[size + 1];\n    for (unsigned long i = 0; i < size; ++i) {\n        copy[i] = data[i];\n    }\n    data = copy;\n    // total number of excesses\n    spot->Nt = 0;")],
"""int main() { static double b[2000000]; set_allocators(malloc, free); struct Spot s; spot_init(&s, 1e-3, 0, 1, 0.9, 20); return feed(&s, 1, 2000000, b) < 0; }""",
"a batch larger than the stack", "training needs memory in proportion to the batch and crashes")

def main():
    only = set(sys.argv[1:])
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        t = tempfile.mkdtemp()
        try:
            subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
            for f, a, c in b["edits"]:
                p = os.path.join(t, "r", f); s = open(p).read()
                if s.count(a) != 1:
                    print(b["id"], f, "matches", s.count(a)); break
                open(p, "w").write(s.replace(a, c))
            diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(t)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(b["sh"])
        if b["demo"]:
            open(d + "/demo.c", "w").write(b["demo"] + "\n")
        for k, v in b["files"].items():
            open(d + "/" + k, "w").write(v)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)

if __name__ == "__main__":
    main()
