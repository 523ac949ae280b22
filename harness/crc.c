/* Checksums.  Bounds: blocks of BLEN symbolic bytes, any initial value; long blocks with constant content except the last
 * byte (counters and lengths).  Oracle: bit by bit polynomial division. */
#include "vh.h"
#if W == 16
#include "crc/crc16-ccitt.h"
typedef uint16_t crc_t;
#define POLY 0x1021u
#define IN_CRC in_u16
static crc_t run(const uint8_t *b, size_t n, crc_t init) { return crc16_ccitt(b, (unsigned)n, init); }
#else
#include "crc/crc32.h"
typedef uint32_t crc_t;
#define POLY 0x04c11db7u
#define IN_CRC in_u32
static crc_t run(const uint8_t *b, size_t n, crc_t init) { return crc32(b, n, init); }
#endif
#ifndef BLEN
#define BLEN 3
#endif
static crc_t divide(const uint8_t *b, size_t n, crc_t r) {
    for (size_t i = 0; i < n; i++)
        for (int k = 7; k >= 0; k--) {
            crc_t top = (r >> (W - 1)) & 1, bit = (b[i] >> k) & 1;
            r = (crc_t)(r << 1);
            if (top != bit) r ^= (crc_t)POLY;
        }
    return r;
}
#define NB (BLEN ? BLEN : 1)
void vh_polynomial(void) {
    uint8_t b[NB], b0[NB];
    crc_t init = IN_CRC();
    for (int i = 0; i < NB; i++) b[i] = b0[i] = in_u8();
    crc_t r = run(b, BLEN, init);
    CHECK(r == divide(b0, BLEN, init), "the checksum is the remainder of the polynomial division");
    for (int i = 0; i < NB; i++) CHECK(b[i] == b0[i], "the block is only read");
    CHECK(run(b, 0, init) == init, "an empty block returns the initial value");
    CHECK(run(b, BLEN, init) == r, "the same block gives the same checksum");
    REACH("end");
}
/* the step for every position follows from segmentation: one byte after an arbitrary prefix value */
static uint8_t big[LONG];
void vh_long_block(void) {
    big[0] = 0x5a; big[LONG / 2] = 0xc3;
    crc_t init = (crc_t)-1, r = divide(big, LONG - 1, init);
    uint8_t last = in_u8();
    big[LONG - 1] = last;
    CHECK(run(big, LONG, init) == divide(&last, 1, r), "the checksum of a long block covers all of it");
    REACH("end");
}
/* more than 64 KiB: zero bytes from the value 0 leave 0 behind, so only the last byte counts */
static struct { uint8_t zero[LONG - 1], last; } huge;
void vh_very_long(void) {
    huge.last = in_u8();
    CHECK(run((const uint8_t *)&huge, LONG, 0) == divide(&huge.last, 1, 0), "the checksum of a block of more than 64 KiB covers all of it");
    REACH("end");
}
void vh_segments(void) {
    uint8_t b[NB];
    crc_t init = IN_CRC();
    for (int i = 0; i < NB; i++) b[i] = in_u8();
    size_t k = P(0), l = P(1);
    crc_t whole = run(b, BLEN, init);
    CHECK(run(b + k, BLEN - k, run(b, k, init)) == whole, "a block in two pieces has the checksum of the whole");
    CHECK(run(b + l, BLEN - l, run(b + k, l - k, run(b, k, init))) == whole, "a block in three pieces has the checksum of the whole");
    REACH("end");
}
/* bursts of at most W bits, starting at bit P(0) of the block: the same block with and without them */
void vh_burst(void) {
    uint8_t b[NB], c[NB];
    crc_t init = IN_CRC(), pattern = IN_CRC();
    ASSUME(pattern != 0);
    for (int i = 0; i < NB; i++) c[i] = b[i] = in_u8();
    for (int i = 0; i < W; i++) {
        int at = P(0) + i;
        if (at < 8 * BLEN) c[at / 8] ^= (uint8_t)(((pattern >> (W - 1 - i)) & 1) << (7 - at % 8));
        else ASSUME(((pattern >> (W - 1 - i)) & 1) == 0);
    }
    CHECK(run(b, BLEN, init) != run(c, BLEN, init), "a burst of at most the checksum's width changes the checksum");
    REACH("end");
}
/* any one or two bits: the first one at P(0) */
void vh_two_bits(void) {
    uint8_t b[NB], c[NB];
    crc_t init = IN_CRC();
    for (int i = 0; i < NB; i++) c[i] = b[i] = in_u8();
    int at = P(0), other = in_irange(P(0), 8 * BLEN - 1);
    for (int i = 0; i < NB; i++) {
        if (at / 8 == i) c[i] ^= (uint8_t)(0x80u >> (at % 8));
        if (other != at && other / 8 == i) c[i] ^= (uint8_t)(0x80u >> (other % 8));
    }
    CHECK(run(b, BLEN, init) != run(c, BLEN, init), "changing one or two bits changes the checksum");
    REACH("end");
}
