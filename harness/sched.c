/* Scheduler.  Bounds: NE entries (of every content within a day, ends up to the second day), every day and second. */
#include "vh.h"
#include "scheduler/scheduler.h"
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
#ifndef NE
#define NE 3
#endif
#else
#define NE GEL_SCHEDULER_MAX_ENTRIES
#endif
#define DAY 86400u
int           scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info);
int           scheduler_current_value(scheduler_t *scheduler, struct tm *tm_info, int *value);
int           scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start);
int           scheduler_get_first_available_entry(scheduler_t *scheduler);
uint16_t      scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info);
unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info);
unsigned long scheduler_get_current_remaining_duration(scheduler_t *scheduler, struct tm *tm_info);
size_t        scheduler_get_max_schedule_entries(scheduler_t *scheduler);

static scheduler_t s;
static scheduler_entry_t e[NE];                  /* what was set */
static struct tm now;
static uint32_t second;

static scheduler_entry_t in_entry(void) {
    scheduler_entry_t x;
    memset(&x, 0, sizeof x);
    x.enabled = in_u8(); x.days = in_u8(); x.start_second = in_u32(); x.end_second = in_u32(); x.value = in_int();
    return x;
}
static int same(const scheduler_entry_t *a, const scheduler_entry_t *b) {
    return a->enabled == b->enabled && a->days == b->days && a->start_second == b->start_second && a->end_second == b->end_second && a->value == b->value;
}
static void start(void) {
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    scheduler_init(&s, NE);
#else
    for (int i = 0; i < NE; i++) s.entries[i] = in_entry();
    scheduler_init(&s);
#endif
}
static void fill(void) {
    start();
    for (int i = 0; i < NE; i++) {
        e[i] = in_entry();
        e[i].start_second &= 0x1ffff; e[i].end_second &= 0x3ffff;          /* no more than needed: easier for the solver */
        ASSUME(e[i].start_second < DAY && e[i].end_second <= 2 * DAY);
        CHECK(scheduler_set_entry(&s, i, e[i]) == 0, "an entry can be set");
    }
}
/* P(0): 0..23 the hour, with any minute and second; 100 + k: one of some moments, with any second of its minute */
static void set_clock(void) {
    static const int moments[][2] = {{0, 0}, {13, 17}, {23, 59}, {5, 59}, {18, 12}};
    now.tm_wday = in_irange(0, 6); now.tm_sec = in_u8() & 63; ASSUME(now.tm_sec < 60);
    if (P(0) < 24) { now.tm_hour = P(0); now.tm_min = in_u8() & 63; ASSUME(now.tm_min < 60); }
    else { now.tm_hour = moments[P(0) - 100][0]; now.tm_min = moments[P(0) - 100][1]; }
    now.tm_mday = in_int(); now.tm_mon = in_int(); now.tm_year = in_int(); now.tm_yday = in_int(); now.tm_isdst = in_int();
    second = now.tm_hour * 3600u + now.tm_min * 60u + now.tm_sec;
}
static int active(const scheduler_entry_t *x) {
    if (x->enabled == 0 || ((x->days >> now.tm_wday) & 1) == 0) return 0;
    if (x->end_second > DAY) return second < x->end_second - DAY || second >= x->start_second;
    return second >= x->start_second && second < x->end_second;
}
static unsigned days(uint8_t d) { return (d & 1) + (d >> 1 & 1) + (d >> 2 & 1) + (d >> 3 & 1) + (d >> 4 & 1) + (d >> 5 & 1) + (d >> 6 & 1); }
static void unchanged(void) { for (int i = 0; i < NE; i++) CHECK(same(scheduler_get_entry(&s, i), &e[i]), "looking does not change the entries"); }

void vh_activity(void) {
    fill(); set_clock();
    uint16_t map = scheduler_get_active_entries_map(&s, &now);
    int any = 0;
    for (int i = 0; i < NE; i++) {
        int a = active(&e[i]);
        any |= a;
        CHECK(((map >> i) & 1) == a, "an entry is active exactly on its days and times");
        if (!a) CHECK(scheduler_get_schedule_remaining_duration(&s, i, &now) == 0, "an entry that is not active has no remaining time");
        if (a && e[i].end_second > DAY && second < e[i].start_second) REACH("after midnight");
        if (a && e[i].end_second > DAY && second >= e[i].start_second) REACH("before midnight");
        if (a && e[i].end_second == second + 1) REACH("last second");
    }
    CHECK((map >> NE) == 0, "the map has no bits for entries that do not exist");
    CHECK(!!scheduler_is_active(&s, &now) == any, "the scheduler is active exactly when an entry is");
    unchanged();
    REACH("end");
}
/* P(1), P(2): how many days the first two entries have (today among them); others have one to three */
static const uint8_t masks[] = {0, 1, 0x41, 0x13, 0x55, 0x6d, 0x5f, 0x7f};
static uint8_t mask(int n, int today) { unsigned m = masks[n]; return (uint8_t)((m << today | m >> (7 - today)) & 0x7f); }
static int nth_days(int i) { return i == 0 ? P(1) : i == 1 ? P(2) : 1 + i % 3; }
static int in_span(int i) {
    uint32_t len = e[i].end_second - e[i].start_second;
    return (int)len * nth_days(i);
}
static void fill_days(void) {
    int today = (P(1) + P(2)) % 7;
    set_clock(); now.tm_wday = today;
    start();
    for (int i = 0; i < NE; i++) {
        e[i].enabled = in_u8(); e[i].days = mask(nth_days(i), today); e[i].value = in_int();
        e[i].start_second = in_u32() & 0x1ffff; e[i].end_second = in_u32() & 0x3ffff;
        ASSUME(e[i].start_second < DAY && e[i].end_second <= 2 * DAY && e[i].start_second <= e[i].end_second);
        CHECK(scheduler_set_entry(&s, i, e[i]) == 0, "an entry can be set");
    }
}
void vh_selection(void) {
    fill_days();
    int best = -1, value = in_int(), value0 = value;
    for (int i = 0; i < NE; i++)
        if (active(&e[i]) && (best < 0 || in_span(i) < in_span(best) || (in_span(i) == in_span(best) && e[i].value > e[best].value))) {
            if (best >= 0 && in_span(i) == in_span(best)) REACH("a tie decided by the value");
            best = i;
        }
    int got = scheduler_get_active_entry_number(&s, &now);
    CHECK((got < 0) == (best < 0), "an entry is selected exactly when one is active");
    CHECK(got == best, "the shortest active entry is selected, then the largest value, then the first");
    unchanged();
    REACH("end");
}
void vh_current(void) {
    fill_days();
    int value = in_int(), value0 = value, got = scheduler_get_active_entry_number(&s, &now);
    CHECK(got >= -1 && got < NE, "the selected entry exists");
    ASSUME(got >= -1 && got < NE);
    CHECK(!!scheduler_is_active(&s, &now) == (got >= 0), "the scheduler is active exactly when an entry is selected");
    int null = in_bool(), r = scheduler_current_value(&s, &now, null ? NULL : &value);
    CHECK(!!r == (got >= 0), "there is a current value exactly when an entry is active");
    CHECK(value == (got >= 0 && !null ? e[got].value : value0), "the current value is the selected entry's");
    unsigned long left = scheduler_get_current_remaining_duration(&s, &now);
    if (got < 0) CHECK(left == 0, "nothing remains when no entry is active");
    else if (e[got].end_second <= DAY || (second >= e[got].start_second && e[got].end_second - DAY <= e[got].start_second)) CHECK(left == e[got].end_second - second, "the current remaining duration leads to the end of the selected entry");
    else CHECK(left == scheduler_get_schedule_remaining_duration(&s, got, &now), "the current remaining duration is the selected entry's");
    unchanged();
    REACH("end");
}
void vh_remaining(void) {
    fill(); set_clock();
    int i = in_irange(0, NE - 1);
    ASSUME(e[i].end_second <= DAY || e[i].end_second - DAY <= e[i].start_second);
    unsigned long left = scheduler_get_schedule_remaining_duration(&s, i, &now);
    if (!active(&e[i])) CHECK(left == 0, "an entry that is not active has no remaining time");
    else if (e[i].end_second <= DAY || second >= e[i].start_second) CHECK(left == e[i].end_second - second, "the remaining duration leads exactly to the end of the entry");
    else { CHECK(left == e[i].end_second - DAY - second, "the remaining duration leads exactly to the end of the entry"); REACH("after midnight"); }
    size_t out = in_size(); ASSUME(out >= NE);
    CHECK(scheduler_get_schedule_remaining_duration(&s, out, &now) == 0, "a missing entry has no remaining duration");
    unchanged();
    REACH("end");
}
void vh_duration(void) {
    scheduler_entry_t x = in_entry();
    ASSUME(x.start_second <= x.end_second);
    CHECK(scheduler_get_entry_duration(&x) == x.end_second - x.start_second, "the duration is the distance from start to end");
    CHECK(scheduler_get_entry_duration(NULL) == 0, "a missing entry has no duration");
    REACH("end");
}
void vh_serialization(void) {
    uint8_t b[15], b0[15]; scheduler_entry_t x = in_entry(), x0 = x, y = in_entry();
    for (int i = 0; i < 15; i++) b[i] = b0[i] = in_u8();
    ASSUME(x.value >= 0 && x.value <= 255);
    CHECK(SCHEDULER_ENTRY_SERIALIZED_SIZE == 11, "the declared size");
    CHECK(scheduler_entry_serialize(b + 2, &x) == 11, "serializing takes the declared number of bytes");
    CHECK(same(&x, &x0), "serializing does not change the entry");
    CHECK(b[2] == x.enabled && b[3] == x.days && b[12] == (uint8_t)x.value, "the layout is fixed");
    for (int i = 0; i < 4; i++) CHECK(b[4 + i] == (uint8_t)(x.start_second >> (8 * i)) && b[8 + i] == (uint8_t)(x.end_second >> (8 * i)), "the layout is fixed");
    CHECK(b[0] == b0[0] && b[1] == b0[1] && b[13] == b0[13] && b[14] == b0[14], "no other byte is written");
    CHECK(scheduler_entry_deserialize(&y, b + 2) == 11, "deserializing takes the declared number of bytes");
    CHECK(same(&x, &y), "an entry survives serialization");
    for (int i = 0; i < 15; i++) b[i] = b0[i] = in_u8();
    CHECK(scheduler_entry_deserialize(&y, b + 2) == 11, "deserializing takes the declared number of bytes");
    for (int i = 0; i < 15; i++) CHECK(b[i] == b0[i], "deserializing only reads the buffer");
    for (int i = 2; i < 13; i++) b[i] = in_u8();
    CHECK(scheduler_entry_serialize(b + 2, &y) == 11, "serializing takes the declared number of bytes");
    for (int i = 0; i < 15; i++) CHECK(b[i] == b0[i], "a deserialized entry serializes to the same bytes");
    REACH("end");
}
static int find_enabled(size_t from, int want) {
    for (size_t i = 0; i < NE; i++) if (i >= from && (e[i].enabled != 0) == want) return (int)i;
    return -1;
}
static void state(void) {
    for (int i = 0; i < NE; i++) {
        const scheduler_entry_t *x = scheduler_get_entry(&s, i);
        CHECK(x && same(x, &e[i]), "exactly the entry concerned changes");
        CHECK(!!scheduler_is_schedule_entry_enabled(&s, i) == !!e[i].enabled, "an entry is enabled as it was set");
        CHECK(scheduler_get_entry_mut(&s, i) == x, "both accessors give the same entry");
    }
    size_t from = in_size();
    CHECK(scheduler_get_next_enabled_entry(&s, from) == find_enabled(from, 1), "the next enabled entry is the lowest one from the start, or none");
    CHECK(scheduler_get_first_available_entry(&s) == find_enabled(0, 0), "the first available entry is the lowest one that is not enabled, or none");
}
void vh_accessors(void) {
    scheduler_entry_t zero; memset(&zero, 0, sizeof zero);
    start();
    CHECK(scheduler_get_max_schedule_entries(&s) == NE, "the number of entries is the configured one");
    for (int i = 0; i < NE; i++) e[i] = zero;
    state();
    for (int i = 0; i < NE; i++) { scheduler_entry_t x = in_entry(); CHECK(scheduler_set_entry(&s, i, x) == 0, "an entry can be set"); e[i] = x; }
    state();
    size_t i = in_size(); int op = in_irange(0, 2), r = 0;
    if (op == 0) { scheduler_entry_t x = in_entry(); r = scheduler_set_entry(&s, i, x); if (i < NE) e[i] = x; }
    else if (op == 1) { r = scheduler_disable_schedule_entry(&s, i); if (i < NE) e[i].enabled = 0; }
    else { scheduler_zero_entry(&s, i); if (i < NE) e[i] = zero; }
    if (i >= NE) {
        CHECK(op == 2 || r != 0, "an index out of range is refused");
        CHECK(!scheduler_get_entry(&s, i) && !scheduler_get_entry_mut(&s, i), "there is no entry out of range");
        REACH("out of range");
    } else CHECK(r == 0, "a valid index succeeds");
    state();
    REACH("end");
}
void vh_overlaps(void) {
    fill();
    scheduler_entry_t x = in_entry(), x0 = x;
    ASSUME(x.start_second < x.end_second && x.end_second <= DAY);
    size_t lo = 0, hi = 0;
    for (int i = 0; i < NE; i++) {
        ASSUME(e[i].start_second < e[i].end_second && e[i].end_second <= DAY);
        if (!e[i].enabled || !(e[i].days & x.days & 0x7f)) { ASSUME(!((e[i].days & x.days) & 0x80)); continue; }
        if (e[i].start_second < x.end_second && x.start_second < e[i].end_second) lo++;
        if (e[i].start_second <= x.end_second && x.start_second <= e[i].end_second) hi++;
    }
    size_t r = scheduler_are_there_overlapping_entries(&s, &x);
    CHECK(r >= lo, "every enabled entry that shares an instant is counted");
    CHECK(r <= hi, "an entry that is disabled, shares no day or lies apart is not counted");
    CHECK(same(&x, &x0), "looking does not change the entry");
    if (lo == NE) REACH("all overlap");
    if (hi == 0) REACH("none overlaps");
    unchanged();
    REACH("end");
}

/* many entries (more than 255): all zero but those at P(0) and P(1), P(2) the operation, its index is in_range of both */
void vh_many(void) {
    scheduler_entry_t zero; memset(&zero, 0, sizeof zero);
    size_t a = P(0), b = P(1), from = P(3);
    start();
    CHECK(scheduler_get_max_schedule_entries(&s) == NE, "the number of entries is the configured one");
    for (size_t i = 0; i < NE; i++) { const scheduler_entry_t *x = scheduler_get_entry(&s, i); CHECK(x && same(x, &zero), "entries are zero at first"); }
    scheduler_entry_t x = in_entry(), y = in_entry();
    CHECK(scheduler_set_entry(&s, a, x) == 0 && scheduler_set_entry(&s, b, y) == 0, "an entry can be set");
    if (P(2) == 1) { CHECK(scheduler_disable_schedule_entry(&s, a) == 0, "a valid index succeeds"); x.enabled = 0; }
    if (P(2) == 2) { scheduler_zero_entry(&s, a); x = zero; }
    for (size_t i = 0; i < NE; i++) {
        const scheduler_entry_t *z = scheduler_get_entry(&s, i);
        CHECK(same(z, i == b ? &y : i == a ? &x : &zero), "exactly the entry concerned changes");
    }
    CHECK(!scheduler_get_entry(&s, NE) && scheduler_set_entry(&s, NE, x) != 0, "an index out of range is refused");
    int lo = (int)(a < b ? a : b), hi = (int)(a < b ? b : a), le = a < b ? x.enabled != 0 : y.enabled != 0, he = a < b ? y.enabled != 0 : x.enabled != 0;
    CHECK(scheduler_get_next_enabled_entry(&s, from) == (le && (size_t)lo >= from ? lo : he && (size_t)hi >= from ? hi : -1), "the next enabled entry is the lowest one from the start, or none");
    REACH("end");
}
