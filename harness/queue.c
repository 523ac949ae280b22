/* Macro queue.  Bounds: capacity QCAP, every starting index (16 bit), every fill, NOPS operations, then drained. */
#include "vh.h"
#include "collections/queue.h"
#ifndef QCAP
#define QCAP 4
#endif
#ifndef NOPS
#define NOPS 2
#endif
#if QT == 1
typedef struct { uint8_t a; uint32_t b; uint16_t c[2]; } item_t;
static item_t in_item(void) { item_t x; x.a = in_u8(); x.b = in_u32(); x.c[0] = in_u16(); x.c[1] = in_u16(); return x; }
static int same(item_t x, item_t y) { return x.a == y.a && x.b == y.b && x.c[0] == y.c[0] && x.c[1] == y.c[1]; }
#elif QT == 2
typedef uint64_t item_t;
static item_t in_item(void) { return in_u64(); }
static int same(item_t x, item_t y) { return x == y; }
#else
typedef uint8_t item_t;
static item_t in_item(void) { return in_u8(); }
static int same(item_t x, item_t y) { return x == y; }
#endif
QUEUE_DECLARATION(vq, item_t, QCAP)
QUEUE_DEFINITION(vq, item_t)

static struct vq q;
static item_t model[QCAP + NOPS + QCAP + 2];
static size_t rd, wr;

static void start(void) {
    q.read_idx = in_u16();
    q.write_idx = in_u16();
    vq_init(&q);
    CHECK(vq_is_empty(&q) && vq_count(&q) == 0, "init yields an empty queue");
    item_t x = in_item();
    for (int i = 0; i < QCAP + 1; i++) { vq_enqueue(&q, &x); vq_dequeue(&q, NULL); }
    /* the indices run freely: jump to where any number of such pairs would have brought them */
    if (q.read_idx == QCAP + 1 && q.write_idx == QCAP + 1) q.read_idx = q.write_idx = in_u16();
    size_t m = in_range(0, QCAP);
    rd = wr = 0;
    for (size_t i = 0; i < QCAP; i++)
        if (i < m) {
            item_t y = in_item();
            CHECK(vq_enqueue(&q, &y) == ENQUEUE_RESULT_SUCCESS, "enqueue succeeds while there is room");
            model[wr++] = y;
        }
}
static void accounting(void) {
    CHECK(vq_count(&q) == wr - rd, "count is the number of queued items");
    CHECK(!!vq_is_empty(&q) == (wr == rd), "empty iff nothing is queued");
    CHECK(!!vq_is_full(&q) == (wr - rd == QCAP), "full iff capacity items are queued");
}
static void enq(void) {
    item_t x = in_item(), x0 = x;
    enqueue_result_t r = vq_enqueue(&q, &x);
    CHECK(same(x, x0), "enqueue does not change its argument");
    if (wr - rd == QCAP) { CHECK(r == ENQUEUE_RESULT_FULL, "enqueue refuses when full"); REACH("full"); }
    else { CHECK(r == ENQUEUE_RESULT_SUCCESS, "enqueue succeeds while there is room"); model[wr++] = x; }
}
static void deq(int drop) {
    item_t x = in_item(), x0 = x;
    dequeue_result_t r = drop == 1 ? vq_drop(&q) : vq_dequeue(&q, drop ? NULL : &x);
    if (wr == rd) {
        CHECK(r == DEQUEUE_RESULT_EMPTY, "dequeue fails when empty");
        CHECK(same(x, x0), "a refused dequeue does not touch the output");
        REACH("empty");
    } else {
        CHECK(r == DEQUEUE_RESULT_SUCCESS, "dequeue succeeds when not empty");
        if (!drop) CHECK(same(x, model[rd]), "items come out in order, unchanged");
        rd++;
    }
}
static void any_op(void) {
    int op = in_irange(0, 3);
    if (op == 0) enq(); else deq(op - 1);
}
static void drain(void) {
    item_t x;
    for (int i = 0; i < QCAP; i++)
        if (rd < wr) {
            CHECK(vq_dequeue(&q, &x) == DEQUEUE_RESULT_SUCCESS, "every queued item can be taken");
            CHECK(same(x, model[rd]), "items come out in order, unchanged");
            rd++;
        }
    CHECK(vq_dequeue(&q, &x) == DEQUEUE_RESULT_EMPTY, "nothing comes out that was not put in");
}
void vh_fifo(void) { start(); for (int i = 0; i < NOPS; i++) any_op(); drain(); REACH("end"); }
void vh_counts(void) { start(); accounting(); for (int i = 0; i < NOPS; i++) { any_op(); accounting(); } REACH("end"); }
/* large capacities: two of the items (any) are followed; between the operations the indices are moved to where the
 * enqueues and dequeues of all the other items would have brought them (only if they run freely, as seen first) */
static void acc_n(size_t n) {
    CHECK(vq_count(&q) == n, "count is the number of queued items");
    CHECK(!!vq_is_empty(&q) == (n == 0), "empty iff nothing is queued");
    CHECK(!!vq_is_full(&q) == (n == QCAP), "full iff capacity items are queued");
}
void vh_big(void) {
    item_t v = in_item(), w = in_item(), x;
    vq_init(&q);
    vq_enqueue(&q, &v); vq_dequeue(&q, NULL); vq_enqueue(&q, &v); vq_dequeue(&q, NULL);
    if (q.read_idx != 2 || q.write_idx != 2) return;
    uint16_t r = in_u16();
    size_t a = in_range(0, QCAP - 1), b = in_range(0, QCAP - 1), n = in_range(1, QCAP);
    ASSUME(a != b && a < n && b < n);
    q.read_idx = r;
    q.write_idx = (uint16_t)(r + a); acc_n(a);
    CHECK(vq_enqueue(&q, &v) == ENQUEUE_RESULT_SUCCESS, "enqueue succeeds while there is room"); acc_n(a + 1);
    q.write_idx = (uint16_t)(r + b);
    CHECK(vq_enqueue(&q, &w) == ENQUEUE_RESULT_SUCCESS, "enqueue succeeds while there is room"); acc_n(b + 1);
    q.write_idx = (uint16_t)(r + n); acc_n(n);
    if (n == QCAP) { CHECK(vq_enqueue(&q, &w) == ENQUEUE_RESULT_FULL, "enqueue refuses when full"); acc_n(n); REACH("full"); }
    q.read_idx = (uint16_t)(r + b);
    CHECK(vq_dequeue(&q, &x) == DEQUEUE_RESULT_SUCCESS && same(x, w), "items come out in order, unchanged"); acc_n(n - b - 1);
    q.read_idx = (uint16_t)(r + a);
    CHECK(vq_dequeue(&q, &x) == DEQUEUE_RESULT_SUCCESS && same(x, v), "items come out in order, unchanged"); acc_n(n - a - 1);
    q.read_idx = (uint16_t)(r + n);
    CHECK(vq_dequeue(&q, &x) == DEQUEUE_RESULT_EMPTY, "nothing comes out that was not put in");
    REACH("end");
}
