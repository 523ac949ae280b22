/* Stopwatch and timer against a model in running time.  Bounds: STEPS operations.  The clock moves forward by less than
 * half its range in total; the timestamps are BASE + t with t up to 2^SPAN ticks (P(0): where in the range the base lies,
 * 0 = anywhere, with t up to half the range). */
#include "vh.h"
#include "timer/stopwatch.h"
#include "timer/timer.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef SPAN
#define SPAN 10
#endif
/* all times are multiples of 2^SH, so that they may be long */
#ifndef SH
#define SH 0
#endif
typedef unsigned long ul;
#define HALF (~0UL >> 1)
static ul base, t, limit;
static void clock_start(void) {
    limit = P(0) ? 1UL << (SPAN + SH) : HALF / 2;
    base = P(0) == 0 ? (ul)in_u64() : P(0) == 1 ? 0UL - limit / 2 : P(0) == 2 ? HALF - limit / 2 : P(0) == 3 ? (1UL << 32) - limit / 2 : 0;
    t = 0;
}
static ul any(void) { return P(0) ? ((ul)in_u32() << SH) & (limit - 1) : (ul)in_u64(); }
static ul now(void) { ul n = any(); ASSUME(n >= t && n < limit); t = n; return base + t; }
static ul duration(void) { ul d = any(); if (P(0)) return 2 * d + ((ul)in_bool() << SH); ASSUME(d < HALF); return d; }

static struct { int state; ul acc, from, total; } m;       /* acc: ran before; from: running since (model time) */
static ul m_elapsed(void) { return m.state == TIMER_COUNTING ? m.acc + (t - m.from) : m.acc; }
static stopwatch_t sw;

static void queries(void) {
    ul n = now(), e = m_elapsed();
    CHECK(stopwatch_get_state(&sw) == m.state, "the state is as the operations say");
    CHECK(stopwatch_get_elapsed(&sw, n) == e, "the elapsed time is exactly the time it was running");
    CHECK(stopwatch_get_total_time(&sw) == m.total, "the period is the one that was set");
#ifdef REACHED
    CHECK(stopwatch_get_remaining(&sw, n) == (e < m.total ? m.total - e : 0), "the remaining time is the period minus the elapsed time, or zero");
    CHECK(!!stopwatch_is_timer_reached(&sw, n) == (m.state != TIMER_STOPPED && e >= m.total), "reached exactly when nothing remains, never when stopped");
    if (m.state == TIMER_COUNTING && e >= m.total && m.acc < m.total) REACH("reached while counting");
    if (m.state == TIMER_PAUSED && e >= m.total) REACH("reached while paused");
    if (m.state == TIMER_STOPPED && e >= m.total) REACH("stopped");
#endif
}
static void operate(int i) {
    int op = i == 0 ? P(1) : i == 1 ? P(2) : in_irange(0, 6), r;
    ul n = now();
    if (op == 0) {
        r = stopwatch_start(&sw, n);
        CHECK(r == (m.state == TIMER_COUNTING ? -1 : 0), "only a counting stopwatch cannot be started");
        if (m.state != TIMER_COUNTING) { m.from = t; m.state = TIMER_COUNTING; }
    } else if (op == 1) {
        r = stopwatch_pause(&sw, n);
        CHECK(r == (m.state == TIMER_COUNTING ? 0 : -1), "only a counting stopwatch can be paused");
        if (m.state == TIMER_COUNTING) { m.acc += t - m.from; m.state = TIMER_PAUSED; }
    } else if (op == 2) { stopwatch_stop(&sw); m.state = TIMER_STOPPED; m.acc = 0; }
    else if (op == 3) { CHECK(stopwatch_restart(&sw, n) == 0, "a restart succeeds"); m.acc = 0; m.from = t; m.state = TIMER_COUNTING; }
    else if (op == 4) {
        ul d = duration();
        CHECK(stopwatch_set(&sw, d) == (m.state == TIMER_STOPPED ? 0 : -1), "only a stopped stopwatch can be set");
        if (m.state == TIMER_STOPPED) m.total = d;
    } else if (op == 5) { ul d = duration(); stopwatch_change(&sw, d, n); m.total = d; m.acc = 0; m.from = t; m.state = TIMER_COUNTING; }
    else {
        ul e = duration();
        CHECK(stopwatch_set_elapsed(&sw, e) == (m.state == TIMER_STOPPED ? 0 : -1), "only a stopped stopwatch can be given an elapsed time");
        if (m.state == TIMER_STOPPED) m.acc = e;
    }
}
void vh_watch(void) {
    clock_start();
    sw.starting_time = in_u64(); sw.elapsed_time = in_u64(); sw.total_time = in_u64(); sw.state = in_irange(0, 2);
    if (in_bool()) stopwatch_init(&sw); else { stopwatch_t z = STOPWATCH_NULL; sw = z; }
    m.state = TIMER_STOPPED; m.acc = m.total = 0;
    for (int i = 0; i < STEPS; i++) { operate(i); queries(); }
    REACH("end");
}
/* any times at all: set and start, (pause), (start again), (look) */
void vh_watch_full(void) {
    ul d = (ul)in_u64(), s1 = (ul)in_u64(), p1 = (ul)in_u64(), s2 = (ul)in_u64(), n = (ul)in_u64(), e;
    int mode = P(1);
    ASSUME(d < HALF);
    stopwatch_init(&sw);
    stopwatch_setngo(&sw, d, s1);
    if (mode == 0) { ASSUME(n - s1 < HALF); e = n - s1; }
    else {
        ASSUME(p1 - s1 < HALF / 2);
        e = p1 - s1;
        CHECK(stopwatch_pause(&sw, p1) == 0, "a counting stopwatch can be paused");
        if (mode == 2) {
            ASSUME(n - s2 < HALF / 2);
            CHECK(stopwatch_start(&sw, s2) == 0, "a paused stopwatch can be started");
            e += n - s2;
        }
    }
    CHECK(stopwatch_get_elapsed(&sw, n) == e, "the elapsed time is exactly the time it was running");
#ifdef REACHED
    CHECK(stopwatch_get_remaining(&sw, n) == (e < d ? d - e : 0), "the remaining time is the period minus the elapsed time, or zero");
    CHECK(!!stopwatch_is_timer_reached(&sw, n) == (e >= d), "reached exactly when nothing remains");
    if (e == d && d) REACH("exactly at the end");
#endif
    if (n < s1) REACH("across the wrap around");
    REACH("end");
}

/* ---- timer */
static gel_timer_t tm; static unsigned fired, wrong; static int token, user;
static int autoreload;
static void callback(gel_timer_t *x, void *u, void *arg) {
    fired++;
    if (x != &tm || u != &user || arg != &token) wrong++;
    if (in_bool()) { autoreload = in_bool(); gel_timer_set_autoreload(x, autoreload); }     /* the callback may decide it */
}
static void manage(void) {
    ul n = now(), e = m_elapsed();
    int due = m.state != TIMER_STOPPED && e >= m.total;
    fired = wrong = 0;
    uint8_t r = gel_timer_manage_callback(&tm, n, &user);
    CHECK(fired == (unsigned)due && !wrong, "the callback runs exactly when the running time has reached the period, with its arguments");
    CHECK(!!r == due, "managing tells whether the callback ran");
    if (due) {
        REACH("fires");
        m.acc = 0; m.from = t; m.state = autoreload ? TIMER_COUNTING : TIMER_STOPPED;
        if (autoreload) REACH("reloads");
    }
}
static void t_remaining(void) {
    ul n = now(), e = m_elapsed();
    CHECK(gel_timer_get_remaining(&tm, n) == (e < m.total ? m.total - e : 0), "the remaining time counts running time only");
}
void vh_timer(void) {
    clock_start();
    tm.autoreload = in_u8(); tm.stopwatch.state = in_irange(0, 2); tm.stopwatch.elapsed_time = in_u64();
    m.total = duration();
    ul d = m.total, n = now();
    CHECK(gel_timer_init(&tm, d, n, callback, &token) == &tm, "initialising returns the timer");
    m.state = TIMER_COUNTING; m.acc = 0; m.from = t; autoreload = 0;
    if (P(1)) { autoreload = P(1) - 1; gel_timer_set_autoreload(&tm, autoreload); }
    for (int i = 0; i < STEPS; i++) {
        int op = i == 0 ? P(2) : i == 1 ? P(3) : in_irange(0, 5);
        n = now();
        if (op == 0) { gel_timer_pause(&tm, n); if (m.state == TIMER_COUNTING) { m.acc += t - m.from; m.state = TIMER_PAUSED; } }
        else if (op == 1) { gel_timer_resume(&tm, n); if (m.state != TIMER_COUNTING) { m.from = t; m.state = TIMER_COUNTING; } }
        else if (op == 2) { gel_timer_reset(&tm, n); if (m.state != TIMER_STOPPED) { m.acc = 0; m.from = t; } }
        else if (op == 3) { d = duration(); gel_timer_change_period(&tm, d, n); if (m.state != TIMER_STOPPED) { m.acc = 0; m.from = t; m.total = d; } }
        else if (op == 4) { gel_timer_stop(&tm); m.state = TIMER_STOPPED; m.acc = 0; }
        else manage();
        if (i + 1 < STEPS) t_remaining();
    }
    manage(); t_remaining();
    REACH("end");
}
