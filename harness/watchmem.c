/* Model of memcpy for large buffers: the contents are followed through watched elements only (whichever the
 * solver picks, so all of them), the extent of every copy is checked against the objects it touches.  Everything
 * not watched keeps its arbitrary content.  Natively the C library is used. */
#include <stddef.h>
#include <stdint.h>
#ifndef MM_T
#define MM_T unsigned char
#endif
MM_T *vh_watch[2];
unsigned char vh_out_unknown;          /* watch 1 got its value from elsewhere than watch 0: that case is another choice of watch 0 */
void *memcpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads inside its source");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy writes inside its destination");
    for (int k = 0; k < 2; k++) {
        if (!vh_watch[k] || !__CPROVER_same_object(vh_watch[k], d)) continue;
        size_t at = (size_t)__CPROVER_POINTER_OFFSET(vh_watch[k]), from = (size_t)__CPROVER_POINTER_OFFSET(d);
        if (at < from || at + sizeof(MM_T) > from + n) continue;
        const MM_T *src = (const MM_T *)((const unsigned char *)s + (at - from));
        *vh_watch[k] = *src;
        if (k) vh_out_unknown = (src != vh_watch[0]);
    }
    return d;
}
