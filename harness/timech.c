/* timecheck.h for one timestamp width.  No bounds on the values; the statement is about times less than half the range apart. */
#include "vh.h"
#ifdef TS
#define GEL_CUSTOM_TIMESTAMP_TYPE TS
#define BITS ((int)(sizeof(TS) * 8))
#else
#define BITS ((int)(sizeof(unsigned long) * 8))
#endif
#include "timer/timecheck.h"
#define HALF ((timestamp_t)((timestamp_t)1 << (BITS - 1)))
static timestamp_t in_ts(void) { return (timestamp_t)in_u64(); }

/* t happens dt ticks after s */
void vh_order(void) {
    timestamp_t s = in_ts(), dt = in_ts(), t;
    ASSUME(dt < HALF);
    t = (timestamp_t)(s + dt);
    CHECK(!!(time_after(t, s)) == (dt > 0), "a later time is after an earlier one, the same time is not");
    CHECK(!(time_after(s, t)), "an earlier time is not after a later one");
    CHECK(!!(time_before(s, t)) == (dt > 0) && !(time_before(t, s)), "before is the converse of after");
    CHECK(!!(time_after_or_equal(t, s)), "a later or the same time is after or equal");
    CHECK(!!(time_after_or_equal(s, t)) == (dt == 0), "an earlier time is not after or equal");
    CHECK(time_interval(s, t) == dt && time_interval(t, s) == dt, "the interval is the distance, whatever the order");
    if (t < s) REACH("across the wrap around");
    REACH("end");
}
void vh_expiry(void) {
    timestamp_t s = in_ts(), dt = in_ts(), delay = in_ts(), t;
    ASSUME(dt < HALF && delay < HALF);
    t = (timestamp_t)(s + dt);
    CHECK(!!is_loosely_expired(s, t, delay) == (dt >= delay), "loose expiry holds from exactly the delay on");
    CHECK(!!is_strictly_expired(s, t, delay) == (dt > delay), "strict expiry holds from one tick later on");
    CHECK(!!is_expired(s, t, delay) == (dt >= delay), "expiry holds from exactly the delay on");
    if (dt == delay) REACH("exactly the delay");
    if (t < s) REACH("across the wrap around");
    REACH("end");
}
/* the current time may still be before the start */
void vh_not_yet(void) {
    timestamp_t s = in_ts(), early = in_ts(), delay = in_ts(), t;
    ASSUME(early > 0 && early < HALF && delay < HALF && early + delay < HALF);
    t = (timestamp_t)(s - early);
    CHECK(!is_loosely_expired(s, t, delay) && !is_strictly_expired(s, t, delay) && !is_expired(s, t, delay), "nothing expires before its start");
    if (t > s) REACH("across the wrap around");
    REACH("end");
}
/* macros with expressions: arguments of low precedence, evaluated as the caller's type */
void vh_expressions(void) {
    timestamp_t s = in_ts(), dt = in_ts(), a = in_ts(), t, z; int c = in_bool();
    ASSUME(dt < HALF && dt > 0);
    t = (timestamp_t)(s + dt);
    CHECK(!!(time_after(c ? t : s, c ? s : t)) == c, "after takes any expression");
    CHECK(!!(time_before(c ? s : t, c ? t : s)) == c, "before takes any expression");
    CHECK(!!(time_after_or_equal(c ? t : s, c ? s : t)) == c, "after-or-equal takes any expression");
    z = (timestamp_t)(s & a);
    (void)z;
    CHECK(!(time_after(s, s)) && !(time_before(s, s)) && (time_after_or_equal(s, s)) && time_interval(s, s) == 0, "a time is not after itself");
    REACH("end");
}
