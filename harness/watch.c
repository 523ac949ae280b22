/* watcher.  Bounds: two entries of SZ1 and SZ2 bytes, ROUNDS processing rounds; the model is stated in virtual time. */
#include "vh.h"
#include "data_structures/watcher.h"
#ifndef SZ1
#define SZ1 1
#endif
#ifndef SZ2
#define SZ2 3
#endif
#ifndef ROUNDS
#define ROUNDS 3
#endif
#define N 2
#ifndef SPAN
#define SPAN 16
#endif
static uint8_t m0[SZ1], m1[SZ2], s0[SZ1], s1[SZ2];
static int d0, d1;
static unsigned calls[N], wrong;
static void cb0(void *mem, void *data) { if (mem == m0 && data == &d0) calls[0]++; else wrong++; }
static void cb1(void *mem, void *data) { if (mem == m1 && data == &d1) calls[1]++; else wrong++; }
static watcher_t list[N + 1];
static unsigned long delay[N];

static void build(void) {
    watcher_t l[] = {WATCHER_DELAYED_ARRAY(m0, SZ1, cb0, (void *)&d0, delay[0]), WATCHER_DELAYED_ARRAY(m1, SZ2, cb1, (void *)&d1, delay[1]), WATCHER_NULL};
    for (int i = 0; i <= N; i++) list[i] = l[i];
}
static void contents(void) {                 /* anything may have been written meanwhile */
    for (int i = 0; i < SZ1; i++) m0[i] = in_u8();
    for (int i = 0; i < SZ2; i++) m1[i] = in_u8();
}
static int diff0(void) { int r = 0; for (int i = 0; i < SZ1; i++) r |= m0[i] != s0[i]; return r; }
static int diff1(void) { int r = 0; for (int i = 0; i < SZ2; i++) r |= m1[i] != s1[i]; return r; }
static void save(void) { memcpy(s0, m0, SZ1); memcpy(s1, m1, SZ2); }
static void same_contents(void) { CHECK(!diff0() && !diff1(), "the watched memory is not written"); }

void vh_undelayed(void) {
    delay[0] = delay[1] = 0;
    build(); contents(); save();
    watcher_list_init(list);
    for (int r = 0; r < ROUNDS; r++) {
        contents();
        int c0 = diff0(), c1 = diff1();
        calls[0] = calls[1] = wrong = 0;
        int res = watcher_process_changes(list, (unsigned long)in_u64());
        CHECK(wrong == 0, "a callback gets its entry's memory and data");
        CHECK(calls[0] == (unsigned)c0 && calls[1] == (unsigned)c1, "the callback runs once exactly when a watched byte changed");
        CHECK(!!res == (c0 || c1), "processing reports whether something changed");
        save();
        if (c0 && !c1) REACH("only the first changed");
        if (!c0 && c1) REACH("only the second changed");
    }
    watcher_process_changes(list, 0);
    same_contents();
    REACH("end");
}
/* one entry with a delay next to one without; times never run backwards and pass less than half the range at a time */
struct model { int pending; unsigned long last, wait; };        /* last: when it changed last */
static unsigned step(struct model *m, int changed, unsigned long now) {
    if (changed) { if (m->wait == 0) return 1; m->pending = 1; m->last = now; return 0; }
    if (m->pending && now - m->last >= m->wait) { m->pending = 0; return 1; }
    return 0;
}
#define HALF (~0UL >> 1)
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
#define WAITS 65536UL                          /* delays have 16 bits in this configuration */
#else
#define WAITS HALF
#endif
void vh_delayed(void) {
    delay[0] = (unsigned long)in_u64(); delay[1] = P(0) ? (unsigned long)in_u64() : 0;
    ASSUME(delay[0] >= 1 && delay[0] < WAITS && delay[1] < WAITS && (!P(0) || delay[1] >= 1));
    /* P(1): 0 any times and delays; otherwise times up to 2^SPAN ticks around one of the interesting points */
    unsigned long base = P(1) == 1 ? 0UL - (1UL << (SPAN - 1)) : P(1) == 2 ? HALF - (1UL << (SPAN - 1)) : (1UL << 32) - (1UL << (SPAN - 1));
    if (P(1)) ASSUME(delay[0] < (2UL << SPAN) && delay[1] < (2UL << SPAN));
    build(); contents(); save();
    watcher_list_init(list);
    unsigned long now = (unsigned long)in_u64(), t = 0;
    if (P(1)) { ASSUME(now < (1UL << SPAN)); t = now; now = base + t; }
    struct model a = {0, 0, delay[0]}, b = {0, 0, delay[1]};
    for (int r = 0; r < ROUNDS; r++) {
        contents();
        unsigned long prev = now;
        now = (unsigned long)in_u64();
        if (P(1)) { ASSUME(now < (1UL << SPAN) && now >= t); t = now; now = base + t; }
        else ASSUME(now - prev < HALF && (!a.pending || (now - a.last < HALF && now - a.last >= now - prev)) && (!b.pending || (now - b.last < HALF && now - b.last >= now - prev)));
        int c0 = diff0(), c1 = diff1();
        unsigned w0 = step(&a, c0, now), w1 = step(&b, c1, now);
        calls[0] = calls[1] = wrong = 0;
        int res = watcher_process_changes(list, now);
        CHECK(wrong == 0, "a callback gets its entry's memory and data");
        CHECK(calls[0] == w0 && calls[1] == w1, "a delayed callback runs once, when the value was stable for the delay");
        CHECK(!!res == (c0 || c1), "processing reports whether something changed");
        save();
        if (w0) REACH("fires after the delay");
        if (w0 && now < a.last) REACH("fires across the wrap around");
        if (a.pending && r > 0 && !c0) REACH("waits");
    }
    REACH("end");
}
/* an arbitrary history, then a pure check, then a clear (or an initialisation): nothing before it is reported */
void vh_clearing(void) {
    delay[0] = (unsigned long)in_u64(); delay[1] = 0;
    ASSUME(delay[0] < WAITS);
    build(); contents(); save();
    watcher_list_init(list);
    unsigned long now = (unsigned long)in_u64();
    contents();
    watcher_process_changes(list, now); save();
    contents();
    watcher_t before[N];
    for (int i = 0; i < N; i++) before[i] = list[i];
    calls[0] = calls[1] = wrong = 0;
    int c = diff0() || diff1();
    CHECK(!!watcher_check_for_changes(list) == c, "checking reports exactly whether something changed");
    CHECK(calls[0] + calls[1] + wrong == 0, "checking calls nothing");
    CHECK(!!watcher_check_for_changes(list) == c, "checking changes nothing");
    if (c) REACH("changed"); else REACH("unchanged");
    unsigned long dt = (unsigned long)in_u64();
    ASSUME(dt < HALF / 2);
    now += dt;
    int again = in_bool();
    if (again) { build(); watcher_list_init(list); } else watcher_clear_changes(list, now);
    CHECK(calls[0] + calls[1] + wrong == 0, "clearing calls nothing");
    save();
    CHECK(!watcher_check_for_changes(list), "after clearing nothing has changed");
    struct model a = {0, 0, delay[0]}, b = {0, 0, 0};
    for (int r = 0; r < 2; r++) {
        if (in_bool()) contents();
        unsigned long prev = now;
        now = (unsigned long)in_u64();
        ASSUME(now - prev < HALF / 4);
        unsigned w0 = step(&a, diff0(), now), w1 = step(&b, diff1(), now);
        int any = diff0() || diff1();
        calls[0] = calls[1] = wrong = 0;
        CHECK(!!watcher_process_changes(list, now) == any, "after clearing only later changes are reported");
        CHECK(wrong == 0 && calls[0] == w0 && calls[1] == w1, "after clearing only later changes lead to callbacks");
        save();
        if (w0 && delay[0]) REACH("a later change is reported");
    }
    same_contents();
    REACH("end");
}
void watcher_trigger_all_cb(watcher_t *list);
void vh_trigger(void) {
    delay[0] = (unsigned long)in_u64(); delay[1] = 0;
    ASSUME(delay[0] < WAITS);
    build(); contents();
    watcher_list_init(list); save();
    contents();
    int c = diff0() || diff1(), what = in_irange(0, 3);
    calls[0] = calls[1] = wrong = 0;
    if (what == 0) watcher_trigger_all(list); else if (what == 1) watcher_trigger_all_cb(list); else watcher_trigger_cb(list, what - 2);
    CHECK(wrong == 0 && calls[0] == (what < 2 || what == 2) && calls[1] == (what < 2 || what == 3), "triggering calls each callback once, whatever the content");
    CHECK(!!watcher_check_for_changes(list) == c, "triggering does not forget changes");
    REACH("end");
}

/* large entries: byte P(0) of the first and byte P(1) of the second change, or one or none of them */
void vh_large(void) {
    delay[0] = delay[1] = 0;
    build();
    for (int i = 0; i < SZ1; i++) m0[i] = (uint8_t)i;
    for (int i = 0; i < SZ2; i++) m1[i] = (uint8_t)(i * 3);
    watcher_list_init(list);
    for (int r = 0; r < ROUNDS; r++) {
        size_t i = (size_t)P(0), j = (size_t)P(1);
        uint8_t v = in_u8(), w = in_u8();
        int c0 = m0[i] != v, c1 = m1[j] != w;
        m0[i] = v; m1[j] = w;
        calls[0] = calls[1] = wrong = 0;
        CHECK(!!watcher_check_for_changes(list) == (c0 || c1), "checking reports exactly whether something changed");
        int res = watcher_process_changes(list, (unsigned long)in_u64());
        CHECK(wrong == 0, "a callback gets its entry's memory and data");
        CHECK(calls[0] == (unsigned)c0 && calls[1] == (unsigned)c1, "the callback runs once exactly when a watched byte changed");
        CHECK(!!res == (c0 || c1), "processing reports whether something changed");
        CHECK(m0[i] == v && m1[j] == w, "the watched memory is not written");
        CHECK(!watcher_check_for_changes(list), "a change is reported once");
        if (c0 && !c1) REACH("a change far inside");
    }
    REACH("end");
}

/* a long list: ENTRIES entries of one byte each, only those at P(0) and P(1) change, all others watch one quiet byte */
#ifdef ENTRIES
static uint8_t quiet, loud0, loud1;
static int qcalls, n0, n1;
static void lcb(void *mem, void *data) { if (mem == data && mem == &quiet) qcalls++; else if (mem == data && mem == &loud0) n0++; else if (mem == data && mem == &loud1) n1++; else wrong++; }
static watcher_t llist[ENTRIES + 1];
void vh_long_list(void) {
    int i = P(0), j = P(1), how = P(2);
    for (int k = 0; k < ENTRIES; k++) {
        uint8_t *m = k == i ? &loud0 : k == j ? &loud1 : &quiet;
        watcher_t w = WATCHER(m, lcb, (void *)m);
        llist[k] = w;
    }
    watcher_t end = WATCHER_NULL;
    llist[ENTRIES] = end;
    watcher_list_init(llist);
    loud0 = in_u8(); loud1 = in_u8();
    int c0 = loud0 != 0, c1 = loud1 != 0;
    CHECK(!!watcher_check_for_changes(llist) == (c0 || c1), "checking reports exactly whether something changed");
    if (how == 0) CHECK(!!watcher_process_changes(llist, 1) == (c0 || c1), "processing reports whether something changed");
    else if (how == 1) watcher_clear_changes(llist, 1);
    else watcher_trigger_all(llist);
    CHECK(wrong == 0, "a callback gets its entry's memory and data");
    CHECK(n0 == (how == 0 ? c0 : how == 2) && n1 == (how == 0 ? c1 : how == 2), "the callback runs exactly for the entries concerned");
    CHECK(qcalls == (how == 2 ? ENTRIES - 2 : 0), "no other callback runs");
    CHECK(!!watcher_check_for_changes(llist) == (how == 2 && (c0 || c1)), "a change is reported once");
    REACH("end");
}
#endif
