/* Circular buffers of hundreds of elements up to beyond 2^16, elements of one or four bytes.  Bound: bufsize == SZ,
 * the position before the operations is P(0) (any of the interesting ones), fills and lengths symbolic and
 * unrestricted.  One element of the storage (any) and one of the output (any) is followed: see watchmem.c */
#include "vh.h"
#include "collections/circular_buffer.h"
#ifndef SZ
#define SZ 300
#endif
#define CAP (SZ - 1)
typedef GEL_CBUF_TYPE elem_t;
static elem_t *store, *out, *in1, *in2;       /* objects of SZ elements with arbitrary contents */
static circular_buf_t cb;
static elem_t in_elem(void) { return (elem_t)(sizeof(elem_t) == 1 ? in_u8() : in_u32()); }
#ifdef VH_CBMC
extern elem_t *vh_watch[2];
extern unsigned char vh_out_unknown;
#define FOLLOWED (!vh_out_unknown)
#else
static elem_t *vh_watch[2];
#define FOLLOWED 1
#endif
static size_t mark;            /* the queued element looked at: number mark, counted from the oldest */
static elem_t value;

static void accounting(size_t n) {
    CHECK(circular_buf_size(&cb) == n, "size is the number of queued elements");
    CHECK(!!is_circular_buf_empty(&cb) == (n == 0), "empty iff nothing is queued");
    CHECK(!!is_circular_buf_full(&cb) == (n == CAP), "full iff capacity elements are queued");
    CHECK(circular_buf_capacity(&cb) == CAP, "capacity is bufsize - 1");
}
/* fill elements queued in two parts, the oldest in slot t; element number mark is value */
static size_t start(size_t t) {
#ifdef FILLS
    size_t a = (size_t)P(1), b = (size_t)P(2);
#else
    size_t a = in_range(0, CAP), b = in_range(0, SZ);
#endif
    size_t room = CAP - a, got = b < room ? b : room;
    mark = in_range(0, CAP - 1); value = in_elem();
    size_t bytes = in_size();          /* of a size the encoder does not know: keeps the arrays symbolic */
    ASSUME(bytes == SZ * sizeof(elem_t));
    store = malloc(bytes); out = malloc(bytes); in1 = malloc(bytes); in2 = malloc(bytes);
#ifndef VH_CBMC
    for (size_t i = 0; i < SZ; i++) store[i] = in1[i] = in2[i] = (elem_t)~value;
#endif
    if (mark < a) in1[mark] = value; else in2[mark - a] = value;
    vh_watch[0] = &store[in_range(0, SZ - 1)];
    CHECK(circular_buf_init(&cb, store, SZ) == 0, "init accepts a buffer");
    if (t) {
        CHECK(circular_buf_puts(&cb, in1, t) == (int)t, "puts accepts what fits and says how many");
        CHECK(circular_buf_drop(&cb, (int)t) == (int)t, "bulk read returns how many elements there were");
    }
    accounting(0);
    CHECK(circular_buf_puts(&cb, in1, a) == (int)a, "puts accepts what fits and says how many");
    accounting(a);
    CHECK(circular_buf_puts(&cb, in2, b) == (int)got, "puts accepts what fits and says how many");
    accounting(a + got);
    
#ifndef FILLS
    if (got < b) REACH("truncated");
#endif
    return a + got;
}
static void look(int r, size_t n, size_t first) {      /* r elements returned of n queued, out[] */
    size_t w = (size_t)(vh_watch[1] - out);
    if (mark >= first && w == mark - first && (int)w < r && mark < n) {
        if (FOLLOWED) { CHECK(out[w] == value, "elements come out in order, unchanged"); REACH("looked at an element"); }
    }
}
static void clear_out(void) {
    vh_watch[1] = &out[in_range(0, SZ - 1)];
#ifdef VH_CBMC
    vh_out_unknown = 0;
    *vh_watch[1] = (elem_t)~value;
#else
    for (size_t i = 0; i < SZ; i++) out[i] = (elem_t)~value;
#endif
}
void vh_big_gets(void) {
    size_t n = start((size_t)P(0));
    int l = in_irange(0, SZ); size_t want = (size_t)l < n ? (size_t)l : n;
    clear_out();
    int r = circular_buf_gets(&cb, out, l);
    CHECK(r == (int)want, "bulk read returns how many elements there were");
    look(r, n, 0);
    accounting(n - want);
    REACH("end");
}
void vh_big_peek_drop(void) {
    size_t n = start((size_t)P(0));
    int l = in_irange(0, SZ), d = in_irange(0, SZ); size_t want = (size_t)l < n ? (size_t)l : n, gone = (size_t)d < n ? (size_t)d : n;
    clear_out();
    int r = circular_buf_peek(&cb, out, l);
    CHECK(r == (int)want, "bulk read returns how many elements there were");
    accounting(n);
    look(r, n, 0);
    CHECK(circular_buf_drop(&cb, d) == (int)gone, "bulk read returns how many elements there were");
    accounting(n - gone);
    clear_out();
    r = circular_buf_peek(&cb, out, l);
    CHECK(r == ((size_t)l < n - gone ? l : (int)(n - gone)), "bulk read returns how many elements there were");
    look(r, n, gone);
    REACH("end");
}
/* single elements around a bulk one */
void vh_big_single(void) {
    size_t n = start((size_t)P(0));
    elem_t e = in_elem(), g = 0;
    if (n < CAP) { CHECK(circular_buf_putc(&cb, e) == 0, "putc accepts while there is room"); n++; }
    else CHECK(circular_buf_putc(&cb, e) != 0, "putc refuses when full");
    accounting(n);
    if (n) { CHECK(circular_buf_getc(&cb, &g) == 0, "getc succeeds when not empty"); n--; }
    accounting(n);
    int d = in_irange(0, SZ);
    if ((size_t)d < n) REACH("some left");
    CHECK(circular_buf_drop(&cb, d) == ((size_t)d < n ? d : (int)n), "bulk read returns how many elements there were");
    accounting((size_t)d < n ? n - (size_t)d : 0);
    REACH("end");
}
