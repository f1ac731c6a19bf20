// Reference: the C library reached directly.
#include "spot.h"
#include "stdlib.h"
void ref_setup(void) { set_allocators(malloc, free); }
struct Spot *ref_new(void) { return malloc(sizeof(struct Spot)); }
__SIZE_TYPE__ ref_sizeof(void) { return sizeof(struct Spot); }
double ref_anomaly(struct Spot *s) { return s->anomaly_threshold; }
double ref_excess(struct Spot *s) { return s->excess_threshold; }
double ref_sigma(struct Spot *s) { return s->tail.sigma; }
int ref_low(struct Spot *s) { return s->low; }
