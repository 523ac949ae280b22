/* Circular buffer, one producer and one consumer.  The real circular_buffer.c is instrumented textually on every run:
 * vh_touch() runs before every access to a field of the shared structure, to an element and before every memcpy.  While
 * an operation of one side is executing, vh_touch() may (symbolically) let the other side run: it takes or adds any
 * number of elements, at up to NENV of these points.  Single element operations stand for the other side's operations:
 * C01/C05 decide that bulk ones have the same effect.  Bound: bufsize SZ, all positions (P(0) tail, P(1) fill), NENV. */
#include "vh.h"
#include "collections/circular_buffer.h"
#ifndef SZ
#define SZ 3
#endif
#ifndef NENV
#define NENV 2
#endif
#define CAP (SZ - 1)
static uint8_t store[SZ];
static circular_buf_t cb;
static uint8_t stream[CAP + (SZ + 1) + NENV * CAP + 2];       /* everything ever offered, in order */
static size_t rd, wr;                                          /* read so far; accepted so far (producer env and start) */
static int budget, in_env;
static enum { NOBODY, CONSUMER, PRODUCER } env;

void vh_touch(void) {
    if (env == NOBODY || in_env || budget == 0) return;
    if (!in_bool()) return;
    in_env = 1; budget--;
    int k = in_irange(1, CAP);
    for (int i = 0; i < CAP; i++)
        if (i < k) {
            uint8_t e;
            if (env == CONSUMER) {
                if (circular_buf_getc(&cb, &e) == 0) {
                    CHECK(rd < sizeof stream && e == stream[rd], "the consumer reads the accepted elements in order, each once, fully stored");
                    rd++;
                    REACH("the other side runs");
                }
            } else {
                e = in_u8();
                if (circular_buf_putc(&cb, e) == 0) { stream[wr++] = e; REACH("the other side runs"); }
            }
        }
    in_env = 0;
}
static void start(void) {
    env = NOBODY; rd = wr = 0; budget = NENV; in_env = 0;
    circular_buf_init(&cb, store, SZ);
    for (int i = 0; i < P(0); i++) { circular_buf_putc(&cb, 0); circular_buf_getc(&cb, NULL); }
    for (int i = 0; i < P(1); i++) { uint8_t e = in_u8(); circular_buf_putc(&cb, e); stream[wr++] = e; }
}
static void drain(void) {
    uint8_t e;
    env = NOBODY;
    CHECK(circular_buf_size(&cb) == wr - rd, "size is accepted minus read");
    for (int i = 0; i < CAP; i++)
        if (rd < wr) {
            CHECK(circular_buf_getc(&cb, &e) == 0 && e == stream[rd], "every accepted element is read once, in order, with its value");
            rd++;
        }
    CHECK(circular_buf_getc(&cb, &e) != 0, "nothing else is in the buffer");
}
void vh_produce_bulk(void) {
    uint8_t d[SZ + 1];
    start();
    size_t n = in_range(0, SZ + 1), room = CAP - wr;
    for (size_t i = 0; i < SZ + 1; i++) { d[i] = in_u8(); stream[wr + i] = d[i]; }
    env = CONSUMER;
    int r = circular_buf_puts(&cb, d, n);
    env = NOBODY;
    CHECK(r >= 0 && (size_t)r <= n, "a bulk write accepts at most what it was given");
    CHECK((size_t)r >= (n < room ? n : room), "room that was there is used");
    wr += r;
    CHECK(rd <= wr, "the consumer never reads more than was accepted");
    drain();
    REACH("end");
}
void vh_produce_one(void) {
    start();
    size_t room = CAP - wr;
    uint8_t e = in_u8();
    stream[wr] = e;
    env = CONSUMER;
    int full = is_circular_buf_full(&cb);
    size_t size_hi = wr - rd;
    int r = circular_buf_putc(&cb, e);
    env = NOBODY;
    CHECK(room == 0 || !full, "with room the producer never sees a full buffer");
    CHECK(full || size_hi < CAP || rd > 0, "a full buffer is seen as full");
    if (room) CHECK(r == 0, "with room a single write succeeds");
    if (r == 0) wr++;
    drain();
    REACH("end");
}
void vh_consume_bulk(void) {
    uint8_t o[SZ + 1], o0[SZ + 1];
    start();
    size_t have = wr;
    int l = in_irange(0, SZ + 1), what = in_irange(0, 2);
    for (int i = 0; i < SZ + 1; i++) o[i] = o0[i] = in_u8();
    env = PRODUCER;
    int r = what == 0 ? circular_buf_gets(&cb, o, l) : what == 1 ? circular_buf_peek(&cb, o, l) : circular_buf_drop(&cb, l);
    env = NOBODY;
    CHECK(r >= 0 && r <= l, "a bulk read delivers at most what was asked for");
    CHECK(r >= (l < (int)have ? l : (int)have) && r <= (int)wr, "what was there is delivered, never more than was stored");
    for (int i = 0; i < SZ + 1; i++)
        if (what < 2 && i < r) CHECK(o[i] == stream[i], "every element delivered is the stored one, in order");
        else CHECK(o[i] == o0[i], "nothing else is written");
    if (what != 1) rd += r;
    drain();
    REACH("end");
}
void vh_consume_one(void) {
    start();
    size_t have = wr;
    uint8_t e = 0;
    env = PRODUCER;
    int empty = is_circular_buf_empty(&cb);
    int r = circular_buf_getc(&cb, &e);
    env = NOBODY;
    CHECK(have == 0 || !empty, "with elements the consumer never sees an empty buffer");
    if (have) CHECK(r == 0, "with elements a single read succeeds");
    if (r == 0) { CHECK(wr > 0 && e == stream[0], "the oldest element is read"); rd++; }
    drain();
    REACH("end");
}
void vh_sizes(void) {
    start();
    env = in_bool() ? CONSUMER : PRODUCER;
    size_t before = wr - rd, s = circular_buf_size(&cb), after = wr - rd;
    if (env == CONSUMER) CHECK(s <= before && s >= after, "the size seen by the producer is one the buffer had");
    else CHECK(s >= before && s <= after, "the size seen by the consumer is one the buffer had");
    env = NOBODY;
    drain();
    REACH("end");
}
