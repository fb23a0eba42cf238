// Included before the code under test: block copies become visible to the
// scheduler and the crash injector, in pieces of at most 8 bytes.
#ifndef VERIF_MEMHOOK_H
#define VERIF_MEMHOOK_H
#include <string.h>
#include <stddef.h>
#ifdef __cplusplus
#include <string>
#include <algorithm>
#include <vector>
#include <iostream>
#include <stdexcept>
extern "C"
#endif
void *verif_copy(void *d, const void *s, size_t n);
#define memcpy(d, s, n) verif_copy(d, s, n)
#define memmove(d, s, n) verif_copy(d, s, n)
#endif
