/* Wear levelled memory on a storage stand-in.  Bounds: N blocks of BLOCK bytes, WRITES writes; the rotation starts at any
 * marker, and the storage before it holds markers that do not follow each other (a fresh storage: all alike), or the
 * markers that a full turn left. */
#include "vh.h"
#include "wearleveling/wearleveling.h"
#ifndef N
#define N 3
#endif
#ifndef BLOCK
#define BLOCK 2
#endif
#ifndef WRITES
#define WRITES 3
#endif
#if N > 1
#define NREACH(x) REACH(x)
#else
#define NREACH(x) ((void)0)
#endif
static uint8_t marker[N], data[N][BLOCK];
static int fail_read, fail_write, fail_marker = -1, marker_error, writes, reads, torn;
static size_t wrote_block; static uint8_t wrote_marker;
static int read_block(size_t block, uint8_t *buffer, size_t len) {
    CHECK(block < N && len <= BLOCK, "reads stay inside the storage");
    reads++;
    if (fail_read) return fail_read;
    for (size_t i = 0; i < BLOCK; i++) if (i < len) buffer[i] = data[block][i];
    return 0;
}
static int write_block(size_t block, uint8_t m, uint8_t *buffer, size_t len) {
    CHECK(block < N && len <= BLOCK, "writes stay inside the storage");
    writes++; wrote_block = block; wrote_marker = m;
    if (fail_write) {                                /* nothing or some of the data is written, the marker is not */
        for (size_t i = 0; i < BLOCK; i++) if ((int)i < torn) data[block][i] = buffer[i];
        return fail_write;
    }
    for (size_t i = 0; i < BLOCK; i++) if (i < len) data[block][i] = buffer[i];
    marker[block] = m;
    return 0;
}
static int read_marker(size_t block, uint8_t *m) {
    CHECK(block < N, "markers are read inside the storage");
    if ((int)block == fail_marker) return marker_error;
    *m = marker[block];
    return 0;
}
static wear_leveled_memory_t w;
static size_t active; static uint8_t am;            /* what a run of the rotation must have reached */
static uint8_t buf[BLOCK + 1], live[BLOCK];

/* a storage after any number of writes: all markers alike (fresh), or written up to block P(0) in the current turn (with
 * any marker phase) while the rest is from the turn before, or still fresh */
static void storage_after_writes(void) {
    for (int i = 0; i < N; i++) for (int b = 0; b < BLOCK; b++) data[i][b] = in_u8();
    active = P(0);
    uint8_t last = in_u8();
    int fresh = P(1);
    am = last;
    for (int i = 0; i < N; i++)
        marker[i] = (uint8_t)(last - active + i - ((size_t)i > active ? N : 0));
    if (fresh == 1) for (int i = 0; i < N; i++) if ((size_t)i > active) marker[i] = marker[0];
    for (int b = 0; b < BLOCK; b++) live[b] = data[active][b];
}
static int start(void) { memset(&w, 0xA5, sizeof w); return wearleveling_init(&w, read_block, write_block, read_marker, N); }
static void reads_live(void) {
    for (int b = 0; b <= BLOCK; b++) buf[b] = 0x77;
    size_t len = BLOCK;
    CHECK(wearleveling_read(&w, buf, len) == 0, "reading succeeds");
    for (int b = 0; b < BLOCK; b++) CHECK(buf[b] == live[b], "the last data written is read");
    CHECK(buf[BLOCK] == 0x77, "nothing beyond the length is read");
}
static void write_any(void) {
    uint8_t d[BLOCK], before[N][BLOCK], mk[N];
    int same = 1;
    for (int b = 0; b < BLOCK; b++) { d[b] = in_u8(); buf[b] = d[b]; if (d[b] != live[b]) same = 0; }
    for (int i = 0; i < N; i++) { mk[i] = marker[i]; for (int b = 0; b < BLOCK; b++) before[i][b] = data[i][b]; }
    writes = 0;
    CHECK(wearleveling_write(&w, buf, BLOCK) == 0, "writing succeeds");
    for (int b = 0; b < BLOCK; b++) CHECK(buf[b] == d[b], "the data given is left alone");
    if (same) { CHECK(writes == 0, "unchanged data is not written"); NREACH("unchanged data"); }
    else {
        active = active == N - 1 ? 0 : active + 1; am++;
        CHECK(writes == 1 && wrote_block == active, "changed data goes to the next block");
        CHECK(wrote_marker == am, "with the next marker");
        if (am == 0) NREACH("the marker wraps");
    }
    for (int b = 0; b < BLOCK; b++) live[b] = d[b];
    for (int i = 0; i < N; i++) if ((size_t)i != active) {
        CHECK(marker[i] == mk[i], "no other marker is touched");
        for (int b = 0; b < BLOCK; b++) CHECK(data[i][b] == before[i][b], "no other block is touched");
    }
}
void vh_rotation(void) {
    storage_after_writes();
    CHECK(start() == 0, "initialising succeeds");
    CHECK(writes == 0, "initialising writes nothing");
    reads_live();
    for (int i = 0; i < WRITES; i++) { write_any(); reads_live(); }
    REACH("end");
}
void vh_restart(void) {
    storage_after_writes();
    start(); reads_live();
    for (int i = 0; i < WRITES; i++) {
        write_any();
        if (in_bool()) { CHECK(start() == 0, "a restart succeeds"); REACH("restarted"); }
        reads_live();
    }
    CHECK(start() == 0, "a restart succeeds");
    reads_live();
    write_any();
    CHECK(start() == 0, "a restart succeeds");
    reads_live();
    if (N > 1 && active < (size_t)P(0)) NREACH("gone around");
}
/* a fresh storage, all markers alike */
void vh_fresh(void) {
    uint8_t f = in_u8();
    for (int i = 0; i < N; i++) { marker[i] = f; for (int b = 0; b < BLOCK; b++) data[i][b] = in_u8(); }
    active = 0; am = f;
    CHECK(start() == 0, "initialising succeeds");
    for (int b = 0; b < BLOCK; b++) live[b] = data[0][b];
    reads_live();
    for (int i = 0; i < P(0); i++) { write_any(); }
    CHECK(start() == 0, "a restart succeeds");
    reads_live();
    REACH("end");
}
void vh_faults(void) {
    storage_after_writes();
    int e = in_int();
    ASSUME(e != 0);
    if (P(2) == 0) {
        fail_marker = in_irange(0, N - 1); marker_error = e;
        int needed = fail_marker <= (int)active + (active + 1 < N);
        int r = start();
        CHECK(IMPLIES(needed, r == e), "an error while initialising is reported");
        CHECK(IMPLIES(!needed, r == e || r == 0), "initialising fails only with the error of the storage");
        fail_marker = -1;
        CHECK(start() == 0, "initialising succeeds afterwards");
        reads_live();
        REACH("a marker could not be read");
        return;
    }
    CHECK(start() == 0, "initialising succeeds");
    uint8_t d[BLOCK], old[BLOCK]; int same = 1;
    for (int b = 0; b < BLOCK; b++) { d[b] = in_u8(); buf[b] = d[b]; old[b] = live[b]; if (d[b] != live[b]) same = 0; }
    if (P(2) == 1) {
        fail_read = e; writes = 0;
        CHECK(wearleveling_read(&w, buf, BLOCK) == e, "an error while reading is returned");
        for (int b = 0; b < BLOCK; b++) buf[b] = d[b];
        CHECK(wearleveling_write(&w, buf, BLOCK) == e, "an error while comparing is returned");
        CHECK(writes == 0, "nothing is written after an error");
        fail_read = 0;
    } else {
        fail_write = e; torn = in_irange(0, BLOCK);
        int r = wearleveling_write(&w, buf, BLOCK);
        CHECK(r == (same ? 0 : e), "an error while writing is returned");
        fail_write = 0;
        if (!same) REACH("a write failed");
    }
    if (N > 1) {                                     /* with one block, an interrupted write has nowhere else to go */
        if (in_bool()) { CHECK(start() == 0, "a restart succeeds"); NREACH("power was lost"); }
        reads_live();
        write_any(); reads_live();
        CHECK(start() == 0, "a restart succeeds");
        reads_live();
    }
    REACH("end");
}
/* many blocks: P(0) active, P(1) fresh beyond it, P(2) its marker */
void vh_big(void) {
    active = P(0); am = (uint8_t)P(2);
    for (int i = 0; i < N; i++) marker[i] = (uint8_t)(am - active + i - ((size_t)i > active ? N : 0));
    if (P(1)) for (int i = 0; i < N; i++) if ((size_t)i > active) marker[i] = marker[0];
    for (int b = 0; b < BLOCK; b++) live[b] = data[active][b] = in_u8();
    CHECK(start() == 0, "initialising succeeds");
    reads_live();
    for (int i = 0; i < 2; i++) {
        uint8_t d = in_u8();
        ASSUME(d != live[0]);
        live[0] = buf[0] = d;
        writes = 0;
        CHECK(wearleveling_write(&w, buf, BLOCK) == 0, "writing succeeds");
        active = active == N - 1 ? 0 : active + 1; am++;
        CHECK(writes == 1 && wrote_block == active && wrote_marker == am, "changed data goes to the next block with the next marker");
        reads_live();
        CHECK(start() == 0, "a restart succeeds");
        reads_live();
    }
    REACH("end");
}
/* long blocks: only the byte at P(1) changes */
void vh_long_blocks(void) {
    int k = P(1);
    active = P(0); am = (uint8_t)P(2);
    for (int i = 0; i < N; i++) marker[i] = (uint8_t)(am - active + i - ((size_t)i > active ? N : 0));
    for (int b = 0; b < BLOCK; b++) data[active][b] = buf[b] = live[b] = b == k ? in_u8() : (uint8_t)(b * 7);
    CHECK(start() == 0, "initialising succeeds");
    uint8_t d = in_u8();
    int same = d == live[k];
    buf[k] = d;
    writes = 0;
    CHECK(wearleveling_write(&w, buf, BLOCK) == 0, "writing succeeds");
    CHECK(writes == !same, "changed data is written, unchanged data is not");
    for (int b = 0; b <= BLOCK; b++) buf[b] = 0x77;
    CHECK(wearleveling_read(&w, buf, BLOCK) == 0, "reading succeeds");
    CHECK(buf[k] == d && buf[BLOCK] == 0x77, "the last data written is read");
    CHECK(buf[0] == (k == 0 ? d : 0) && buf[BLOCK - 1] == (k == BLOCK - 1 ? d : (uint8_t)(BLOCK * 7 - 7)), "the last data written is read");
    REACH("end");
}
