/* Macro stack.  Bounds: capacity SCAP, every fill, NOPS operations, then popped to the bottom. */
#include "vh.h"
#include "collections/stack.h"
#ifndef SCAP
#define SCAP 4
#endif
#ifndef NOPS
#define NOPS 2
#endif
#if NOPS
#define SEEN(x) REACH(x)
#else
#define SEEN(x)
#endif
#if ST == 1
typedef struct { uint8_t a; uint32_t b; uint16_t c[2]; } item_t;
static item_t in_item(void) { item_t x; x.a = in_u8(); x.b = in_u32(); x.c[0] = in_u16(); x.c[1] = in_u16(); return x; }
static int same(item_t x, item_t y) { return x.a == y.a && x.b == y.b && x.c[0] == y.c[0] && x.c[1] == y.c[1]; }
#else
typedef uint8_t item_t;
static item_t in_item(void) { return in_u8(); }
static int same(item_t x, item_t y) { return x == y; }
#endif
STACK_DECLARATION(vs, item_t, SCAP)
STACK_DEFINITION(vs, item_t)

static struct { item_t lo; struct vs s; item_t hi; } area;
static item_t lo0, hi0, model[SCAP];
static size_t n;

static void start(void) {
    area.lo = lo0 = in_item(); area.hi = hi0 = in_item();
    area.s.idx = in_u16(); area.s.num = in_u16();
    vs_init(&area.s);
    CHECK(vs_is_empty(&area.s), "init yields an empty stack");
    size_t m = in_range(0, SCAP);
    n = 0;
    for (size_t i = 0; i < SCAP; i++)
        if (i < m) {
            item_t x = in_item();
            CHECK(vs_push(&area.s, &x) == PUSH_RESULT_SUCCESS, "push succeeds while there is room");
            model[n++] = x;
        }
}
static void predicates(void) {
    CHECK(!!vs_is_empty(&area.s) == (n == 0), "empty iff nothing is stacked");
    CHECK(!!vs_is_full(&area.s) == (n == SCAP), "full iff capacity items are stacked");
    CHECK(same(area.lo, lo0) && same(area.hi, hi0), "memory around the stack is untouched");
}
static void push(void) {
    item_t x = in_item(), x0 = x;
    push_result_t r = vs_push(&area.s, &x);
    CHECK(same(x, x0), "push does not change its argument");
    if (n == SCAP) { CHECK(r == PUSH_RESULT_FULL, "push refuses when full"); SEEN("full"); }
    else { CHECK(r == PUSH_RESULT_SUCCESS, "push succeeds while there is room"); model[n++] = x; }
}
static void pop(int peek, int null) {
    item_t x = in_item(), x0 = x;
    pop_result_t r = peek ? vs_peek(&area.s, null ? NULL : &x) : vs_pop(&area.s, null ? NULL : &x);
    if (n == 0) { CHECK(r == POP_RESULT_EMPTY, "pop and peek fail when empty"); CHECK(same(x, x0), "a refused pop does not touch the output"); SEEN("empty"); }
    else {
        CHECK(r == POP_RESULT_SUCCESS, "pop and peek succeed when not empty");
        if (null) CHECK(same(x, x0), "nothing is written without an output");
        else CHECK(same(x, model[n - 1]), "the last item pushed comes first, unchanged");
        if (!peek) n--;
    }
}
static void dequeue(void) {
    vs_dequeue(&area.s);
    for (size_t i = 0; i + 1 < SCAP; i++) if (i + 1 < n) model[i] = model[i + 1];
    if (n) n--;
}
static void any_op(int with_dequeue) {
    int op = in_irange(0, 4);
    if (op == 0) push(); else if (op == 4 && with_dequeue) dequeue(); else pop(op == 1, in_bool());
    predicates();
}
static void drain(void) {
    item_t x;
    for (int i = 0; i < SCAP; i++)
        if (n) {
            CHECK(vs_pop(&area.s, &x) == POP_RESULT_SUCCESS, "every item can be popped");
            CHECK(same(x, model[n - 1]), "the last item pushed comes first, unchanged");
            n--;
        }
    CHECK(vs_pop(&area.s, &x) == POP_RESULT_EMPTY, "nothing comes out that was not put in");
}
void vh_lifo(void) { start(); predicates(); for (int i = 0; i < NOPS; i++) any_op(0); drain(); REACH("end"); }
void vh_bottom(void) {
    start();
    dequeue();
    predicates();
    for (int i = 0; i < NOPS - 1; i++) any_op(1);
    drain();
    REACH("end");
}

/* a deep stack: P(0) items pushed before, the rest is looked at P(1) items below the top */
void vh_deep(void) {
    vs_init(&area.s);
    for (int i = 0; i < P(0); i++) { item_t x = in_item(); model[n++] = x; if (vs_push(&area.s, &x) != PUSH_RESULT_SUCCESS) VH_DIE("push succeeds while there is room"); }
    predicates();
    if (P(2)) { dequeue(); predicates(); }
    push(); predicates();
    for (int i = 0; i < P(1); i++) pop(0, 1);
    pop(1, 0); pop(0, 0); predicates();
    REACH("end");
}
