/* Model of memcpy/memmove for objects made of MM_T elements: CBMC's built-in mis-models symbolic lengths on
 * arrays whose elements are wider than a byte.  Bounds of every access are checked by CBMC as in any C code.
 * Natively the C library is used. */
#include <stddef.h>
#include <stdint.h>
#ifndef MM_T
#define MM_T unsigned char
#endif
void *memcpy(void *d, const void *s, size_t n) {
    size_t k = n / sizeof(MM_T);
    for (size_t i = 0; i < k; i++) ((MM_T *)d)[i] = ((const MM_T *)s)[i];
    for (size_t i = k * sizeof(MM_T); i < n; i++) ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
    return d;
}
