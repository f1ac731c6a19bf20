#pragma once
// stand-in for the C library of the WebAssembly toolchain: the allocator is the simulated heap
void *malloc(__SIZE_TYPE__);
void free(void *);
void *calloc(__SIZE_TYPE__, __SIZE_TYPE__);
void *realloc(void *, __SIZE_TYPE__);
#ifndef NULL
#define NULL ((void *)0)
#endif
