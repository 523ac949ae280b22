/* Circular event log against the full history of saved events.  Bounds: capacity CAP, P(0) saves (each may be made to fail
 * with -DFAULTS), any window.  The storage stand-ins check every request they get. */
#include "vh.h"
#include "circular_event_log/circular_event_log.h"
#ifndef CAP
#define CAP 3
#endif
#ifndef ES
#define ES 2
#endif
#ifndef MAXN
#define MAXN (2 * CAP + 3)
#endif
static uint8_t storage[CAP * ES], out[(CAP + 1) * ES], history[MAXN][ES], ev[ES];
static size_t saved;
static int fail_save, fail_first, fail_second, loads;
#ifdef BIG
static size_t req_start[3], req_number[3], req_at[3];
#endif
static int save_event(uint8_t *e, size_t position) {
    CHECK(position < CAP, "an event is stored inside the storage");
    CHECK(e == ev, "the event to be saved is the one given");
    if (fail_save) return fail_save;
    for (int i = 0; i < ES; i++) storage[position * ES + i] = e[i];
    return 0;
}
static int load_events(uint8_t *e, size_t number, size_t start) {
    CHECK(number <= CAP && start <= CAP && number <= CAP - start, "only stored events are read");
    CHECK(e >= out && (size_t)(e - out) + number * ES <= CAP * ES, "events are read into the buffer of the caller");
    loads++;
    int f = loads == 1 ? fail_first : loads == 2 ? fail_second : 0;
#ifdef BIG
    if (loads > 2) VH_DIE("at most two reads");
#endif
    if (f) return f < 0 ? f : 0;
#ifdef BIG
    req_start[loads - 1] = start; req_number[loads - 1] = number; req_at[loads - 1] = e - out;
#else
    for (size_t i = 0; i < CAP * ES; i++) if (i < number * ES) e[i] = storage[start * ES + i];
#endif
    return (int)number;
}
static circular_event_log_t lg = {.max_events = CAP, .event_size = ES, .save_new_event = save_event, .load_events = load_events};
static size_t total(void) { return saved < CAP ? saved : CAP; }

static void save(void) {
    for (int i = 0; i < ES; i++) ev[i] = in_u8();
    int r = circular_event_log_new_event(&lg, ev);
    CHECK(r == fail_save, "saving says what the storage said");
    if (fail_save == 0) { for (int i = 0; i < ES; i++) history[saved][i] = ev[i]; saved++; }
    CHECK(circular_event_log_total_events(lg) == total(), "the total is the number saved, up to the capacity");
}
static void load(void) {
    size_t n = in_size(), jump = in_size();
    size_t expected = jump >= total() ? 0 : n < total() - jump ? n : total() - jump;
    for (size_t i = 0; i < sizeof out; i++) out[i] = 0x77;
    loads = 0;
    int r = circular_event_log_load_last_events(lg, out, n, jump);
    if ((loads > 0 && fail_first) || (loads > 1 && fail_second)) {
        CHECK(r <= 0 || (size_t)r < expected || expected == 0, "a failed read is not passed off as complete");
        if (loads == 1 && fail_first < 0) CHECK(r == fail_first, "the error of a read is returned");
        if (loads == 2 && fail_second < 0) CHECK(r == fail_second, "the error of the second read is returned");
        
#if defined(FAULTS) && CAP > 1
        if (loads == 2) REACH("the second read failed");
#endif
    } else {
        CHECK(r >= 0 && (size_t)r == expected, "as many events as asked for, or as there are");
        for (size_t i = 0; i < CAP; i++)
            for (int b = 0; b < ES; b++) if (i < expected) CHECK(out[i * ES + b] == history[saved - jump - expected + i][b], "the events before the latest ones, oldest first");
        for (size_t i = 0; i < sizeof out; i++) if (i >= expected * ES) CHECK(out[i] == 0x77, "no byte beyond the events is written");
#if CAP > 1
        if (loads == 2) REACH("the window wraps");
        if (expected && jump) REACH("some skipped");
#endif
        if (expected == CAP) REACH("everything");
    }
}
void vh_windows(void) {
    for (int i = 0; i < P(0); i++) save();
    load();
}
void vh_faults(void) {
    for (int i = 0; i < P(0); i++) { fail_save = in_bool() ? in_i8() : 0; save(); }
    if (saved < (size_t)P(0)) REACH("a save failed");
    fail_save = 0;
    fail_first = in_bool() ? in_i8() : 0; fail_second = in_bool() ? in_i8() : 0;
    load();
    if (in_bool()) { save(); REACH("saved again"); }
    fail_first = fail_second = 0;
    load();
}
#ifdef BIG
/* a large log: P(0) saves; the requests say where each event comes from */
void vh_large(void) {
    for (int i = 0; i < P(0); i++) { CHECK(circular_event_log_new_event(&lg, ev) == 0, "saved"); saved++; }
    CHECK(circular_event_log_total_events(lg) == total(), "the total is the number saved, up to the capacity");
    size_t n = in_size(), jump = in_size();
    size_t expected = jump >= total() ? 0 : n < total() - jump ? n : total() - jump;
    int r = circular_event_log_load_last_events(lg, out, n, jump);
    CHECK(r >= 0 && (size_t)r == expected, "as many events as asked for, or as there are");
    size_t i = in_u16();
    ASSUME(i < expected);
    size_t place = (saved - jump - expected + i) % CAP;
    int from = 0;
    for (int k = 0; k < 2; k++)
        if (k < loads && i * ES >= req_at[k] && i * ES < req_at[k] + req_number[k] * ES) { from++; CHECK(req_start[k] + i - req_at[k] / ES == place && req_at[k] % ES == 0, "the events before the latest ones, oldest first"); }
    CHECK(from == 1, "every event of the window is read once");
    if (loads == 2) REACH("the window wraps");
    REACH("end");
}
#endif

/* any capacity up to 2^WIDE, any position, windows of up to 70000 events; the storage stand-ins record the requests.
 * P(0): an event is saved first */
#ifndef WIDE
#define WIDE 20
#endif
#define MASK ((1UL << WIDE) - 1)
static uint8_t far[70000 * ES];                              /* only its addresses matter */
static size_t any_max, any_pos, r_start[2], r_number[2]; static uint8_t *r_at[2]; static int calls;
static int any_save(uint8_t *e, size_t position) { CHECK(e == ev && position == any_pos, "an event is stored at the next position"); return 0; }
static int any_load(uint8_t *e, size_t number, size_t start) {
    CHECK(start <= any_max && number <= any_max - start, "only stored events are read");
    if (calls < 2) { r_start[calls] = start; r_number[calls] = number; r_at[calls] = e; }
    calls++;
    return (int)number;
}
void vh_any_size(void) {
    any_max = in_u64() & MASK; any_pos = in_u64() & MASK;
    int full = in_bool();
    ASSUME(any_max >= 1 && any_pos < any_max);
    circular_event_log_t g = {.next_position = any_pos, .max_events = any_max, .event_size = ES, .full_circle = full, .save_new_event = any_save, .load_events = any_load};
    if (P(0)) {
        CHECK(circular_event_log_new_event(&g, ev) == 0, "saved");
        if (any_pos + 1 == any_max) { any_pos = 0; full = 1; REACH("full circle"); } else any_pos++;
        CHECK(g.next_position == any_pos, "the next event goes to the next place, from the last to the first");
    }
    size_t have = full ? any_max : any_pos;
    CHECK(circular_event_log_total_events(g) == have, "the total is the number saved, up to the capacity");
    size_t n = in_u64(), jump = in_u64(), i = in_u64();
    size_t expected = jump >= have ? 0 : n < have - jump ? n : have - jump;
    ASSUME(expected <= 70000);
    int r = circular_event_log_load_last_events(g, far, n, jump);
    CHECK(r >= 0 && (size_t)r == expected, "as many events as asked for, or as there are");
    ASSUME(i < expected && calls <= 2);
    size_t back = jump + expected - i, place = any_pos >= back ? any_pos - back : any_pos + any_max - back;
    int from = 0;
    for (int k = 0; k < 2; k++)
        if (k < calls) { size_t at = (size_t)(r_at[k] - far); if (i * ES >= at && i * ES < at + r_number[k] * ES) { from++; CHECK(r_start[k] * ES + i * ES - at == place * ES, "the events before the latest ones, oldest first"); } }
    CHECK(from == 1, "every event of the window is read once");
    if (calls == 2) REACH("the window wraps");
    REACH("end");
}
