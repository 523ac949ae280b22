/* PID controller against a model that keeps the whole history of inputs.  Bounds: STEPS operations (new inputs, setpoint
 * changes, clearing), values of BITS bits and either sign, gains from the table (P(0)); the window sizes are those of the
 * configuration (small ones in conf/pid). */
#include "vh.h"
#include "gel_conf.h"
#include "pid/pid.h"
#ifndef STEPS
#define STEPS 5
#endif
#ifndef BITS
#define BITS 10
#endif
#define WINDOW GEL_PID_INTEGRAL_HISTORY_SIZE
#define DELTA GEL_PID_DERIVATIVE_DELTA
static const float gains[][3] = {{1, 1, 1}, {0.5f, 2, 0.25f}, {-3, 0, 1.5f}, {0, -1, 0.1f}, {100, 0.01f, -2}};
typedef pid_control_type_t val_t;
static val_t value(void) { int v = (int)(in_u32() & ((2u << BITS) - 1)) - (1 << BITS); 
#ifdef FRACTION
    return (val_t)v / 4;                          /* exact, and so are sums of a few */
#else
    return (val_t)v;
#endif
}

static struct { int n, from; val_t contrib[STEPS + 1], seen[STEPS + 1], in, sp; int sign, acl, lo_on, hi_on, d_on; int lo, hi, d; } m;
static pid_ctrl_t c;
static float kp, ki, kd;
static val_t magnitude(val_t e) { return e < 0 ? -e : e; }
static void m_add(val_t v) {
    if (m.n) m.seen[m.n - 1] = m.sp - m.in;           /* how the error stood when the next input came */
    m.in = v;
    val_t e = m.sp - m.in, k = e;
    int s = e > 0 ? 1 : e < 0 ? -1 : m.sign;
    if (s != m.sign) { m.sign = s; if (m.acl) m.from = m.n; }
    if (e > 0 && m.lo_on && magnitude(e) >= m.lo) k = 0;
    if (e < 0 && m.hi_on && magnitude(e) >= m.hi) k = 0;
    m.contrib[m.n++] = k;
}
static val_t m_sum(void) {
    val_t s = 0;
    int first = m.n - WINDOW > m.from ? m.n - WINDOW : m.from;
    for (int i = 0; i < STEPS + 1; i++) if (i >= first && i < m.n) s += m.contrib[i];
    return s;
}
static val_t m_difference(void) {
    if (m.n < 2) return 0;
    int ago = m.n - 1 - DELTA;
    if (ago < 0) ago = 0;
    val_t e = m.sp - m.in;
    if (m.d_on && magnitude(e) > m.d) return 0;
    return e - m.seen[ago];
}
static void start(void) {
    memset(&c, 0xA5, sizeof c);
    pid_init(&c);
    kp = gains[P(0)][0]; ki = gains[P(0)][1]; kd = gains[P(0)][2];
    pid_ctrl_tune(&c, kp, ki, kd);
}
static void operate(int op) {
    if (op == 0) { val_t v = value(); pid_add_input(&c, v); m_add(v); }
    else if (op == 1) { m.sp = value(); pid_set_sp(&c, m.sp); }
    else { pid_clear_integral_history(&c); m.from = m.n; }
}
/* P(1): the sequence of operations in base 3 */
static int next_op(int i) { int k = P(1); for (int j = 0; j < i; j++) k /= 3; return k % 3; }
static void terms(int p, int i, int d) {
    if (p) {
        CHECK(pid_current_error(&c) == m.sp - m.in, "the error is setpoint minus last input");
        CHECK(pid_compute_p(&c) == (pid_output_type_t)(kp * (m.sp - m.in)), "the proportional term is gain times error");
    }
    if (i) { pid_output_type_t s = m_sum(); s *= ki; CHECK(pid_compute_i(&c) == s, "the integral term is gain times the sum over the window"); }
    if (d) CHECK(pid_compute_d(&c) == (pid_output_type_t)(kd * m_difference()), "the derivative term is gain times the difference to the error some inputs ago");
}
void vh_sum_of_terms(void) {
    start();
    for (int i = 0; i < STEPS; i++) operate(next_op(i));
    pid_output_type_t p = pid_compute_p(&c), t = pid_compute_i(&c), d = pid_compute_d(&c);
    CHECK(pid_compute(&c) == p + t + d, "the output is the sum of the terms");
    REACH("end");
}
void vh_proportional(void) {
    start();
    m.in = value(); m.sp = value();
    if (P(1)) { pid_set_sp(&c, m.sp); pid_add_input(&c, m.in); } else { pid_add_input(&c, m.in); pid_set_sp(&c, m.sp); }
    CHECK(pid_current_error(&c) == m.sp - m.in, "the error is setpoint minus last input");
    CHECK(pid_compute_p(&c) == (pid_output_type_t)(kp * (m.sp - m.in)), "the proportional term is gain times error");
    REACH("end");
}
void vh_integral(void) {
    start();
    for (int i = 0; i < STEPS; i++) { operate(next_op(i)); if (P(2)) terms(0, 1, 0); else pid_compute(&c); }
    terms(0, 1, 0);
    if (m.n > WINDOW) REACH("more inputs than the window");
    if (m.from > 0) REACH("cleared on the way");
}
void vh_derivative(void) {
    start();
    for (int i = 0; i < STEPS; i++) { operate(next_op(i)); if (P(2)) terms(0, 0, 1); else pid_compute(&c); }
    terms(0, 0, 1);
    if (m.n > DELTA) REACH("as many inputs as the distance");
    if (m.n == 1) REACH("a single input");
}
/* P(2): flags: 1 auto clear, 2 low threshold, 4 high threshold, 8 derivative threshold */
static void thresholds(void) {
    m.lo = in_u32() & ((1u << BITS) - 1); m.hi = in_u32() & ((1u << BITS) - 1); m.d = in_u32() & ((1u << BITS) - 1);
    m.acl = P(2) & 1; m.lo_on = (P(2) & 2) != 0; m.hi_on = (P(2) & 4) != 0; m.d_on = (P(2) & 8) != 0;
    pid_set_integral_low_threshold(&c, m.lo); pid_set_integral_high_threshold(&c, m.hi); pid_set_derivative_threshold(&c, m.d, (val_t)in_u8());
    pid_enable_integral_low_threshold(&c, m.lo_on); pid_enable_integral_high_threshold(&c, m.hi_on);
    pid_enable_derivative_threshold(&c, m.d_on); pid_set_auto_integral_clear(&c, m.acl);
}
void vh_limited(void) {
    start(); thresholds();
    int zeroed = 0;
    for (int i = 0; i < STEPS; i++) {
        operate(next_op(i));
        if (m.n && m.contrib[m.n - 1] == 0 && m.sp != m.in) zeroed = 1;
    }
    terms(0, P(3) == 0, P(3) == 1);
    if (zeroed) REACH("an error over its threshold");
    if (m.acl && m.from > 1) REACH("cleared by a change of sign");
    if (m.d_on && magnitude(m.sp - m.in) > m.d) REACH("no derivative");
    REACH("end");
}
/* many inputs, all but the one at place P(1) given: the window and distance of the configuration as they are */
void vh_long_run(void) {
    start();
    for (int i = 0; i < STEPS; i++) {
        val_t v = (i * 37 + 11) % 29 - 13;
        if (i == P(1)) v = value();
        pid_add_input(&c, v); m_add(v);
    }
    terms(0, P(2) == 0, P(2) == 1);
    REACH("end");
}
