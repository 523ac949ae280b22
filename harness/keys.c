/* Keypad against a model: at most one key is being followed at a time, from its press to its release.  Bounds: NK keys,
 * STEPS scans; the timestamps are BASE + t with t up to 2^SPAN (P(0) says where in the range). */
#include "vh.h"
#include "keypad/keypad.h"
#ifndef NK
#define NK 2
#endif
#ifndef STEPS
#define STEPS 5
#endif
#ifndef SPAN
#define SPAN 8
#endif
typedef unsigned long ul;
static ul base, t, click, longclick, period;
static keypad_key_t keys[NK + 1];
static struct { int active, held, last; ul t0, tp; } m = {.active = -1};

/* P(3): all times are multiples of 2^P(3), so that they may be long */
static ul small(void) { return ((ul)in_u32() & ((1UL << SPAN) - 1)) << P(3); }
static void setup(int reset) {
    ul mid = 1UL << (SPAN - 1 + P(3));
    base = P(0) == 0 ? 0 : P(0) == 1 ? 0UL - mid : P(0) == 2 ? (~0UL >> 1) - mid : (1UL << 32) - mid;
#ifdef STRIDE
    click = 2; longclick = 5; period = 3;
#else
    click = small(); longclick = small(); period = small();
    ASSUME(click < longclick);
#endif
    if (reset) keypad_reset_keys(keys);
}
#ifdef STRIDE                                                /* few different times */
static ul now(void) { t += in_u8() & STRIDE; return base + t; }
#else
static ul now(void) { ul n = small(); ASSUME(n >= t); t = n; return base + t; }
#endif
static int expired(ul start, ul delay) { return t - start > delay; }

static keypad_update_t model(int key) {      /* key: which one is scanned, or -1 */
    keypad_update_t e = {0};
    int a = m.active;
    if (a < 0 && key < 0) return e;
    if (a < 0 || (!m.held && key == a)) {                    /* a new press */
        m.active = key; m.held = 1; m.last = KEY_PRESS; m.t0 = t;
        e.event = KEY_PRESS; e.code = keys[key].code;
        return e;
    }
    e.code = keys[a].code;
    if (m.held && key != a) {                                /* let go */
        m.held = 0; m.t0 = t;
        if (m.last == KEY_PRESS) { m.active = -1; e.event = KEY_RELEASE; }
    } else if (!m.held) {
        if (expired(m.t0, click)) { m.active = -1; e.event = KEY_RELEASE; }
    } else if (m.last == KEY_PRESS && expired(m.t0, click)) { m.last = e.event = KEY_CLICK; m.tp = t; }
    else if (m.last != KEY_LONGCLICK && expired(m.t0, longclick)) { m.last = e.event = KEY_LONGCLICK; m.t0 = m.tp = t; }
    else if (m.last == KEY_LONGCLICK && expired(m.tp, period)) { e.event = KEY_LONGPRESS; m.tp = t; }
    else if (m.last == KEY_CLICK && expired(m.tp, period)) { e.event = KEY_PRESSING; m.tp = t; }
    return e;
}
static int last_key = -1;
static keypad_event_t scan(int key, ul value) {
    ul n = now();
    keypad_update_t e = keypad_routine(keys, click, longclick, period, n, value);
    keypad_update_t x = model(key);
    CHECK(e.event == x.event, "the event is due, and no other");
    if (x.event != KEY_NOTHING) CHECK(e.code == x.code, "the event has the code of its key");
    for (int i = 0; i < NK; i++) {
        if (i != key) CHECK(!keypad_get_key_state(&keys[i]), "a key that was not scanned is not pressed");
        else if (m.active == i) CHECK(keypad_get_key_state(&keys[i]), "a key that is being followed and was scanned is pressed");
    }
    return e.event;
}
/* P(1): which key each scan shows, in base NK + 1 (0: none) */
void vh_follow(void) {
    int seq = P(1), any = 0;
    for (int i = 0; i < NK; i++) { keys[i].bitvalue = 1UL << i; keys[i].code = 10 + i; }
    setup(P(2));
    for (int i = 0; i < STEPS; i++) {
        int k = seq % (NK + 1) - 1;
        seq /= NK + 1;
        any |= 1 << scan(k, k < 0 ? 0 : 1UL << k);
    }
    if (any & 1 << KEY_PRESSING) REACH("pressing");
    if (any & 1 << KEY_CLICK) REACH("click");
    if (any & 1 << KEY_LONGCLICK) REACH("long click");
    if (any & 1 << KEY_LONGPRESS) REACH("long press");
    if (any & 1 << KEY_RELEASE) REACH("release");
}
/* any table of distinct keys, any scan values (P(1): which key they match); a reset on the way before scan P(2) */
void vh_table(void) {
    int seq = P(1);
    for (int i = 0; i < NK; i++) {
        keys[i].bitvalue = (ul)in_u64(); keys[i].code = in_int();
        ASSUME(keys[i].bitvalue);
        for (int j = 0; j < i; j++) ASSUME(keys[i].bitvalue != keys[j].bitvalue);
    }
    setup(in_bool());
    for (int i = 0; i < STEPS; i++) {
        if (i == P(2)) {
            keypad_reset_keys(keys);
            m.active = -1;
            for (int j = 0; j < NK; j++) CHECK(!keypad_get_key_state(&keys[j]), "after a reset no key is pressed");
        }
        int k = seq % (NK + 1) - 1;
        seq /= NK + 1;
        ul v = k < 0 ? (ul)in_u64() : keys[k].bitvalue;
        if (k < 0) for (int j = 0; j < NK; j++) ASSUME(keys[j].bitvalue != v);
        scan(k, v);
    }
    if (m.active == NK - 1) REACH("the last key");
    if (m.active == 0) REACH("the first key");
    if (m.active < 0) REACH("none");
}
