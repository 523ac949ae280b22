/* Circular buffer.  Bound: bufsize == SZ, lengths 0..SZ+1 symbolic, every element value symbolic.  The position
 * (tail, fill) of the buffer before the operations is the case split: P(0) is the tail, P(1) the fill, and the
 * cases together are all positions.  States are produced through the public API only. */
#include "vh.h"
#include "collections/circular_buffer.h"
#ifndef SZ
#define SZ 4
#endif
#define CAP (SZ - 1)
typedef GEL_CBUF_TYPE elem_t;

/* an object of its own: any access outside it is caught (by CBMC's bounds checks, natively by ASan) */
static elem_t store[SZ];
static circular_buf_t cb;

static elem_t in_elem(void) { return (elem_t)(sizeof(elem_t) == 1 ? in_u8() : sizeof(elem_t) == 4 ? in_u32() : in_u64()); }

/* the model: the elements accepted so far, [rd, wr) is what the buffer must contain */
static elem_t exp_[CAP + 3 * (SZ + 1) + 1];
static size_t rd, wr;

static void put_one(elem_t e) {
    CHECK(circular_buf_putc(&cb, e) == 0, "putc accepts while there is room");
    exp_[wr++] = e;
}
static void start(int tail, int fill) {
    for (size_t i = 0; i < SZ; i++) store[i] = in_elem();
    CHECK(circular_buf_init(&cb, store, SZ) == 0, "init accepts a buffer");
    rd = wr = 0;
    for (int i = 0; i < tail; i++) { circular_buf_putc(&cb, 0); circular_buf_getc(&cb, NULL); }
    for (int i = 0; i < fill; i++) put_one(in_elem());
}

static void accounting(void) {
    size_t n = wr - rd;
    CHECK(circular_buf_size(&cb) == n, "size is the number of queued elements");
    CHECK(!!is_circular_buf_empty(&cb) == (n == 0), "empty iff nothing is queued");
    CHECK(!!is_circular_buf_full(&cb) == (n == CAP), "full iff capacity elements are queued");
    CHECK(circular_buf_capacity(&cb) == CAP, "capacity is bufsize - 1");
}

static void drain_compare(void) {
    elem_t e;
    for (size_t i = 0; i < CAP; i++)
        if (rd < wr) {
            CHECK(circular_buf_getc(&cb, &e) == 0, "every accepted element can be read");
            CHECK(e == exp_[rd], "elements come out in order, unchanged");
            rd++;
        }
    CHECK(circular_buf_getc(&cb, &e) != 0, "nothing comes out that was not put in");
}

static void op_putc(void) {
    elem_t e = in_elem();
    int r = circular_buf_putc(&cb, e);
    if (wr - rd < CAP) { CHECK(r == 0, "putc accepts while there is room"); exp_[wr++] = e; }
    else { CHECK(r != 0, "putc refuses when full"); REACH("putc on full"); }
}
static void op_puts(void) {
    elem_t d[SZ + 1], d0[SZ + 1];
    size_t n = in_range(0, SZ + 1), room = CAP - (wr - rd), want = n < room ? n : room;
    for (size_t i = 0; i < SZ + 1; i++) d[i] = d0[i] = in_elem();
    int r = circular_buf_puts(&cb, d, n);
    CHECK(r == (int)want, "puts accepts what fits and says how many");
    if (want < n) REACH("puts truncated");
#if SZ > 2
    if (want == n && n > 0) REACH("puts complete");
#endif
    for (size_t i = 0; i < SZ + 1; i++) {
        CHECK(d[i] == d0[i], "puts does not write its source");
        if (i < want) exp_[wr + i] = d[i];
    }
    wr += want;
}
static void op_getc(void) {
    elem_t e = 0; int null = in_bool();
    int r = circular_buf_getc(&cb, null ? NULL : &e);
    if (rd == wr) CHECK(r != 0, "getc fails on empty");
    else { CHECK(r == 0, "getc succeeds when not empty"); if (!null) CHECK(e == exp_[rd], "elements come out in order, unchanged"); rd++; }
}
enum { GETS, PEEK, DROP };
static void op_bulk(int what) {
    elem_t o[SZ + 1], o0[SZ + 1];
    int l = in_irange(0, SZ + 1), have = (int)(wr - rd), want = l < have ? l : have;
    for (size_t i = 0; i < SZ + 1; i++) o[i] = o0[i] = in_elem();
    int r = what == GETS ? circular_buf_gets(&cb, o, l) : what == PEEK ? circular_buf_peek(&cb, o, l) : circular_buf_drop(&cb, l);
    CHECK(r == want, "bulk read returns how many elements there were");
#if SZ > 2
    if (want > 0 && want == have) REACH("bulk read all");
#endif
    for (int i = 0; i < SZ + 1; i++) {
        if (what != DROP && i < want) CHECK(o[i] == exp_[rd + i], "elements come out in order, unchanged");
        else CHECK(o[i] == o0[i], "nothing is written past the returned elements");
    }
    if (what != PEEK) rd += want;
}

/* C01: the order and the content; the pre-state covers all positions, so one operation followed by draining is
 * the inductive step for histories of any length */
void vh_fifo_puts(void)  { start(P(0), P(1)); op_puts(); drain_compare(); REACH("end"); }
void vh_fifo_gets(void)  { start(P(0), P(1)); op_bulk(GETS); drain_compare(); REACH("end"); }
void vh_fifo_putc(void)  { start(P(0), P(1)); op_putc(); op_getc(); drain_compare(); REACH("end"); }
void vh_fifo_reset(void) { start(P(0), P(1)); circular_buf_reset(&cb); rd = wr; accounting(); op_puts(); drain_compare(); REACH("end"); }
/* two bulk operations from every position */
void vh_fifo_puts_gets(void) { start(P(0), P(1)); op_puts(); op_bulk(GETS); drain_compare(); REACH("end"); }
void vh_fifo_gets_puts(void) { start(P(0), P(1)); op_bulk(GETS); op_puts(); drain_compare(); REACH("end"); }
void vh_fifo_gets_puts_gets(void) { start(P(0), P(1)); op_bulk(GETS); op_puts(); op_bulk(GETS); drain_compare(); REACH("end"); }

/* C02 */
void vh_accounting_put(void) { start(P(0), P(1)); accounting(); op_putc(); accounting(); op_puts(); accounting(); if (wr - rd == CAP) REACH("full"); REACH("end"); }
void vh_accounting_get(void) { start(P(0), P(1)); op_getc(); accounting(); op_bulk(GETS); accounting(); if (wr == rd) REACH("empty"); REACH("end"); }
void vh_accounting_peek_drop(void) { start(P(0), P(1)); op_bulk(PEEK); accounting(); op_bulk(DROP); accounting(); if (wr == rd) REACH("empty"); REACH("end"); }

/* C03: nothing outside the slots an operation may use is touched */
void vh_confined_put(void) {
    start(P(0), P(1));
    elem_t s0[SZ];
    for (size_t i = 0; i < SZ; i++) s0[i] = store[i];
    size_t old = wr - rd;
    op_puts();
    for (size_t i = 0; i < SZ; i++) {                  /* a slot that was queued keeps its element */
        size_t dist = (i + SZ - (size_t)P(0)) % SZ;
        if (dist < old) CHECK(store[i] == s0[i], "a producer never touches a queued element");
    }
    CHECK(cb.buffer == store && cb.bufsize == SZ, "the geometry of the buffer does not change");
    op_putc();
    REACH("end");
}
void vh_confined_get(void) {
    start(P(0), P(1));
    elem_t s0[SZ];
    for (size_t i = 0; i < SZ; i++) s0[i] = store[i];
    int what = in_irange(0, 3);
    if (what == 3) op_getc(); else op_bulk(what);
    for (size_t i = 0; i < SZ; i++) CHECK(store[i] == s0[i], "a consumer never writes the buffer");
    CHECK(cb.buffer == store && cb.bufsize == SZ, "the geometry of the buffer does not change");
    REACH("end");
}
/* lengths beyond any buffer: the whole range of the length argument */
void vh_huge_len(void) {
    start(P(0), P(1));
    static elem_t o[SZ];
    int l = in_int();
    ASSUME(l >= SZ);
    int have = (int)(wr - rd), what = in_irange(0, 2);
    int r = what == GETS ? circular_buf_gets(&cb, o, l) : what == PEEK ? circular_buf_peek(&cb, o, l) : circular_buf_drop(&cb, l);
    CHECK(r == have, "bulk read returns how many elements there were");
    if (what != DROP) for (int i = 0; i < have; i++) CHECK(o[i] == exp_[rd + i], "elements come out in order, unchanged");
    REACH("end");
}
void vh_null_args(void) {
    elem_t e[SZ]; int n = in_irange(0, SZ); elem_t *p = in_bool() ? NULL : e;
    for (size_t i = 0; i < SZ; i++) e[i] = in_elem();
    CHECK(circular_buf_init(&cb, NULL, in_size()) != 0, "init refuses a missing buffer");
    CHECK(circular_buf_init(&cb, store, 0) != 0, "init refuses a zero size");
    circular_buf_reset(NULL);
    CHECK(is_circular_buf_empty(NULL), "a missing buffer is empty");
    CHECK(!is_circular_buf_full(NULL), "a missing buffer is not full");
    CHECK(circular_buf_size(NULL) == 0 && circular_buf_capacity(NULL) == 0, "a missing buffer has no room");
    CHECK(circular_buf_putc(NULL, e[0]) < 0, "operations on a missing buffer fail");
    CHECK(circular_buf_puts(NULL, e, n) < 0, "operations on a missing buffer fail");
    CHECK(circular_buf_getc(NULL, p) < 0, "operations on a missing buffer fail");
    CHECK(circular_buf_gets(NULL, p, n) < 0, "operations on a missing buffer fail");
    CHECK(circular_buf_peek(NULL, p, n) < 0, "operations on a missing buffer fail");
    CHECK(circular_buf_drop(NULL, n) < 0, "operations on a missing buffer fail");
    REACH("end");
}

/* C05 */
void vh_peek(void) { start(P(0), P(1)); op_bulk(PEEK); accounting(); drain_compare(); REACH("end"); }
void vh_drop(void) { start(P(0), P(1)); op_bulk(DROP); accounting(); drain_compare(); REACH("end"); }
void vh_peek_then_gets(void) {          /* what peek shows is what gets takes */
    elem_t a[SZ], b[SZ];
    start(P(0), P(1));
    int l = in_irange(0, SZ), x = circular_buf_peek(&cb, a, l), y = circular_buf_gets(&cb, b, l);
    CHECK(x == y, "peek and gets agree on the count");
    for (int i = 0; i < SZ; i++) if (i < x) CHECK(a[i] == b[i], "peek and gets agree on the elements");
    REACH("end");
}
