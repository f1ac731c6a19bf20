// Reference: the C library itself, reached directly, and a decoder of the public structure.
#include "spot.h"
#include <stdlib.h>
#include <string.h>
static void *ref_malloc(size_t n) { return n > ((size_t)1 << 33) ? 0 : malloc(n); }
void ref_setup(void) { set_allocators(ref_malloc, free); }
unsigned long ref_sizeof(void) { return sizeof(struct Spot); }
// every public value of a structure image, as doubles and as integers
void ref_decode(const void *img, double *d, unsigned long *u) {
    struct Spot s;
    memcpy(&s, img, sizeof s);
    d[0] = s.q; d[1] = s.level; d[2] = s.anomaly_threshold; d[3] = s.excess_threshold; d[4] = s.tail.gamma; d[5] = s.tail.sigma;
    d[6] = s.tail.peaks.e; d[7] = s.tail.peaks.e2; d[8] = s.tail.peaks.min; d[9] = s.tail.peaks.max; d[10] = s.tail.peaks.container.last_erased_data; d[11] = s.__up_down;
    u[0] = s.Nt; u[1] = s.n; u[2] = (unsigned long)(long)s.low; u[3] = (unsigned long)(long)s.discard_anomalies; u[4] = s.tail.peaks.container.cursor; u[5] = s.tail.peaks.container.capacity;
    u[6] = (unsigned long)(long)s.tail.peaks.container.filled; u[7] = s.tail.peaks.container.data != 0;
}
unsigned long ref_window(const struct Spot *s, double *out, unsigned long max) {
    unsigned long n = s->tail.peaks.container.filled ? s->tail.peaks.container.capacity : s->tail.peaks.container.cursor;
    if (n > max) n = max;
    if (s->tail.peaks.container.data) memcpy(out, s->tail.peaks.container.data, n * sizeof(double)); else n = 0;
    return n;
}

// time warp: raises the counters to n and Nt (excesses can only have come and gone if the window is full)
int ref_age(struct Spot *s, unsigned long n, unsigned long Nt) {
    if (!s->tail.peaks.container.data || !s->n) return 0;
    if (!s->tail.peaks.container.filled || Nt < s->Nt) Nt = s->Nt;
    unsigned long more = Nt - s->Nt;
    if (n < s->n + more) n = s->n + more;
    s->n = n; s->Nt = Nt;
    return 1;
}
