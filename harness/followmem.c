/* Model of memcpy for large objects: one followed byte (it moves on with every copy that takes it along) and one byte that
 * is looked at; the extent of every copy is checked against the objects it touches.  A copy over the byte looked at that
 * does not bring the followed byte there makes it arbitrary.  Natively the C library is used. */
#include <stddef.h>
#include <stdint.h>
unsigned char *vh_follow, *vh_look;
unsigned char nondet_uchar(void);
void *memcpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads inside its source");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy writes inside its destination");
    unsigned char *to = 0;
    if (vh_follow && __CPROVER_same_object(vh_follow, s)) {
        size_t at = (size_t)__CPROVER_POINTER_OFFSET(vh_follow), from = (size_t)__CPROVER_POINTER_OFFSET(s);
        if (at >= from && at - from < n) to = (unsigned char *)d + (at - from);
    }
    if (vh_look && vh_look != to && __CPROVER_same_object(vh_look, d)) {
        size_t at = (size_t)__CPROVER_POINTER_OFFSET(vh_look), from = (size_t)__CPROVER_POINTER_OFFSET(d);
        if (at >= from && at - from < n) *vh_look = nondet_uchar();
    }
    if (to) { *to = *vh_follow; vh_follow = to; }
    return d;
}
