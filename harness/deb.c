/* Debounce filter and pulse counter.  Bounds: STEPS samples of all 32 lines from any set state, one debounce value per
 * run (P(0); P(0) = 9 stands for every value from 9 on up to INT_MAX, larger than the number of samples), any line looked at. */
#include "vh.h"
#include <limits.h>
#include "debounce/debounce.h"
#undef NTH
#include "debounce/pulsecounter.h"
#ifndef STEPS
#define STEPS 5
#endif
#define BIT(x, i) (((unsigned int)(x) >> (i)) & 1u)
struct line { unsigned level, run; };
/* the debounced level follows after d+1 consecutive samples that differ from it */
static int step(struct line *l, unsigned sample, unsigned d) {
    if (sample == l->level) { l->run = 0; return 0; }
    if (++l->run == d + 1) { l->level = sample; l->run = 0; return 1; }
    return 0;
}
static int deb(void) { return P(0) < 9 ? P(0) : in_irange(9, INT_MAX); }

static debounce_filter_t f;
void vh_sequence(void) {
    unsigned set = in_u32(), line = in_irange(0, 31);
    int d = deb();
    debounce_filter_init(&f);
    debounce_filter_set(&f, set);
    struct line m = {BIT(set, line), 0};
    for (int s = 0; s < STEPS; s++) {
        unsigned in = in_u32(), before = debounce_value(&f);
        unsigned r = debounce_filter(&f, in, d);
        int ch = step(&m, BIT(in, line), d);
        CHECK(BIT(debounce_value(&f), line) == m.level, "an input changes at the (d+1)-th consecutive differing sample, never sooner or later");
        CHECK((unsigned)debounce_read(&f, line) == m.level, "reading one input agrees with the whole value");
        CHECK(!!r == (before != debounce_value(&f)), "the result tells whether some input changed");
        if (ch) REACH("an input changes");
    }
    REACH("end");
}
/* arbitrary history, then init or set, then a few samples: a clean start */
void vh_clean(void) {
    unsigned line = in_irange(0, 31), set = 0;
    f.old_input = in_u32(); f.buffered = in_u32(); f.debounce_count[line] = in_u32();
    int d = deb(), viaset = in_bool();
    debounce_filter_init(&f);
    CHECK(debounce_value(&f) == 0, "initialising sets all inputs to zero");
    if (viaset) {
        unsigned h = in_u32();
        int hd = in_irange(0, INT_MAX);
        debounce_filter(&f, h, hd); debounce_filter(&f, in_u32(), hd);
        set = in_u32();
        debounce_filter_set(&f, set);
        CHECK(debounce_value(&f) == set, "setting the filter sets exactly the given value");
    }
    struct line m = {BIT(set, line), 0};
    for (int s = 0; s < 3; s++) {
        unsigned in = in_u32();
        debounce_filter(&f, in, d);
        step(&m, BIT(in, line), d);
        CHECK(BIT(debounce_value(&f), line) == m.level, "setting or initialising forgets partial counts");
    }
    size_t i = in_size();
    unsigned v = debounce_value(&f);
    int r = debounce_read(&f, i);
    if (i >= 32) { CHECK(r == -1, "a read out of range is refused"); REACH("out of range"); }
    else CHECK(r >= 0 && (unsigned)r == BIT(v, i), "reading bit i agrees with the whole value");
    REACH("end");
}
/* lines fed one at a time, in any order, mixed with whole words */
void vh_single(void) {
    unsigned set = in_u32(), line = in_irange(0, 31);
    int d = deb();
    debounce_filter_init(&f);
    debounce_filter_set(&f, set);
    struct line m = {BIT(set, line), 0};
    for (int s = 0; s < STEPS; s++) {
        unsigned before = debounce_value(&f), r;
        if (P(1) == 0 || (P(1) == 1 && s % 2 == 0)) {
            unsigned l = in_irange(0, 31), in = in_u32();
            r = debounce_filter_single(&f, in, l, d);
            if (l == line) { step(&m, in != 0, d); REACH("the same line"); }
            CHECK(((before ^ debounce_value(&f)) & ~(1u << l)) == 0, "feeding one input changes no other");
        } else { unsigned in = in_u32(); r = debounce_filter(&f, in, d); step(&m, BIT(in, line), d); }
        CHECK(BIT(debounce_value(&f), line) == m.level, "the value of an input depends on its own samples only");
        CHECK(!!r == (before != debounce_value(&f)), "the result tells whether the input changed");
    }
    REACH("end");
}

static pulse_filter_t p;
void vh_pulses(void) {
    unsigned init = in_u32(), line = in_irange(0, 31), count = in_irange(0, INT_MAX - STEPS);
    int d = deb(), low = P(1);
    pulse_filter_init(&p, low ? COUNT_LOW_PULSE : COUNT_HIGH_PULSE, init);
    p.count[line] = count;                                  /* counted before */
    struct line m = {BIT(init, line), 0};
    for (int s = 0; s < STEPS; s++) {
        unsigned in = in_u32(), before[32]; int any = 0;
        for (int i = 0; i < 32; i++) before[i] = pulse_count(&p, i);
        int r = pulse_filter(&p, in, d);
        for (int i = 0; i < 32; i++) any |= before[i] != (unsigned)pulse_count(&p, i);
        if (step(&m, BIT(in, line), d)) {
            if (m.level == (unsigned)low) { count++; REACH("counted"); CHECK(r, "the result is true when a counter increased"); }
            else REACH("the other edge");
        }
        CHECK((unsigned)pulse_count(&p, line) == count, "exactly the edge ending a pulse of the polarity is counted, once");
        CHECK((unsigned)pulse_level(&p, line) == m.level, "the level follows after d+1 differing samples");
        CHECK(!!r == any, "the result tells whether any counter increased");
    }
    REACH("end");
}
void vh_pulse_start(void) {
    unsigned line = in_irange(0, 31), other = in_irange(0, 31);
    p.type = in_bool(); p.old_input = in_u32();
    for (int i = 0; i < 32; i++) { p.filters[i] = in_u32(); p.count[i] = in_u32(); }
    unsigned init = in_u32(), low = in_bool(), count = 0;
    int d = deb();
    pulse_filter_init(&p, low ? COUNT_LOW_PULSE : COUNT_HIGH_PULSE, init);
    struct line m = {BIT(init, line), 0};
    CHECK(pulse_count(&p, line) == 0 && (unsigned)pulse_level(&p, line) == m.level, "initialisation gives zero counts and the given levels");
    for (int s = 0; s < 3; s++) {
        unsigned in = in_u32();
        pulse_filter(&p, in, d);
        if (step(&m, BIT(in, line), d) && m.level == low) count++;
        CHECK((unsigned)pulse_count(&p, line) == count && (unsigned)pulse_level(&p, line) == m.level, "there is no partial debounce state at the start");
    }
    int i = in_int();
    unsigned bc = pulse_count(&p, other), bl = pulse_level(&p, other);
    int rc = pulse_count(&p, i), rl = pulse_level(&p, i);
    if (i < 0 || i >= 32) { CHECK(rc == -1 && rl == -1, "an index out of range is refused"); REACH("out of range"); }
    pulse_clear(&p, i);
    CHECK((unsigned)pulse_count(&p, other) == (i == (int)other ? 0 : bc) && (unsigned)pulse_level(&p, other) == bl, "clearing zeroes one counter and nothing else");
    REACH("end");
}
/* long counts: P(0) samples are not enough, one more is; a glitch at sample P(2) (0: none) starts over; P(3): 0 whole words,
 * 1 one line, 2 pulses */
void vh_long_hold(void) {
    int d = P(0), line = P(1), glitch = P(2), how = P(3);
    unsigned last = in_bool();
    if (how < 2) debounce_filter_init(&f); else pulse_filter_init(&p, COUNT_LOW_PULSE, 0);
    struct line m = {0, 0};
    for (int s = 1; s <= d + glitch + 2; s++) {
        unsigned x = s != glitch, in = s == d + glitch + 2 ? last : x;
        if (how == 0) debounce_filter(&f, in << line, d); else if (how == 1) debounce_filter_single(&f, in, line, d); else pulse_filter(&p, in << line, d);
        step(&m, in, d);
        if (how < 2) CHECK(debounce_value(&f) == m.level << line, "an input changes at the (d+1)-th consecutive differing sample, never sooner or later");
        else CHECK((unsigned)pulse_level(&p, line) == m.level && pulse_count(&p, line) == (int)m.level, "the level follows after d+1 differing samples");
        if (s == d + glitch) CHECK(m.level == 0, "not sooner");
    }
    CHECK(m.level == 1, "not later");
    REACH("end");
}
