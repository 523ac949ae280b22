/* Parameters of every type.  P(0): the type (0..9 as in parameter_type_t); the values, limits, defaults and steps are any. */
#include "vh.h"
#include "parameter/parameter.h"

#if GEL_PARAMETER_MAX_SIZE >= 8
#define SIZE8(X) X(6, uint64_t, u64, PARAMETER_TYPE_UINT64) X(7, int64_t, i64, PARAMETER_TYPE_INT64)
#define DBL(X)   X(9, double, d, PARAMETER_TYPE_DOUBLE)
#else
#define SIZE8(X)
#define DBL(X)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
#define SIZE4(X) X(4, uint32_t, u32, PARAMETER_TYPE_UINT32) X(5, int32_t, i32, PARAMETER_TYPE_INT32)
#define FLT(X)   X(8, float, f, PARAMETER_TYPE_FLOAT)
#else
#define SIZE4(X)
#define FLT(X)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 2
#define SIZE2(X) X(2, uint16_t, u16, PARAMETER_TYPE_UINT16) X(3, int16_t, i16, PARAMETER_TYPE_INT16)
#else
#define SIZE2(X)
#endif
#define INTS(X) X(0, uint8_t, u8, PARAMETER_TYPE_UINT8) X(1, int8_t, i8, PARAMETER_TYPE_INT8) SIZE2(X) SIZE4(X) SIZE8(X)
#define FLOATS(X) FLT(X) DBL(X)
#define ALL(X) INTS(X) FLOATS(X)

#define IS_NAN(x) ((x) != (x))
typedef __int128 big;
typedef union { uint8_t b[8]; uint64_t u; } slot_t;
static uint8_t raw(void) { return in_u8(); }
static void fill(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = raw(); }
#define ANY(T) ({ T x_; if (sizeof(T) == 1) { uint8_t r_ = in_u8(); memcpy(&x_, &r_, sizeof(T)); } else if (sizeof(T) == 2) { uint16_t r_ = in_u16(); memcpy(&x_, &r_, sizeof(T)); } \
    else if (sizeof(T) == 4) { uint32_t r_ = in_u32(); memcpy(&x_, &r_, sizeof(T)); } else { uint64_t r_ = in_u64(); memcpy(&x_, &r_, sizeof(T)); } x_; })

#define CALL(N, T, F, E) case N: FN(F)(); break;
#define SWITCH(LIST) switch (P(0)) { LIST(CALL) default: ASSUME(0); }
static int arg_target[4];
#if defined(PART_6) || defined(PART_8)
static void runtime(parameter_handle_t *h, void *arg) { (void)h; (void)arg; }
#endif
#define TIMES2(...) __VA_ARGS__, __VA_ARGS__,
#define TIMES5(...) TIMES2(__VA_ARGS__) TIMES2(__VA_ARGS__) __VA_ARGS__,
#define TIMES10(...) TIMES5(__VA_ARGS__) TIMES5(__VA_ARGS__)
#define TIMES50(...) TIMES10(__VA_ARGS__) TIMES10(__VA_ARGS__) TIMES10(__VA_ARGS__) TIMES10(__VA_ARGS__) TIMES10(__VA_ARGS__)
#define TIMES200(...) TIMES50(__VA_ARGS__) TIMES50(__VA_ARGS__) TIMES50(__VA_ARGS__) TIMES50(__VA_ARGS__)
#define DATA ((GEL_PARAMETER_USER_DATA)(uintptr_t)77)

#ifdef PART_1
/* ---------------------------------------------------------------- R01: P(1) dynamic limits, P(2) multiplier (-99: any) */
#define MULT() (P(2) == -99 ? in_irange(-1000, 1000) : P(2) == 98 ? INT32_MAX : P(2) == 99 ? INT32_MIN : P(2))
#define OP(N, T, F, E)                                                                                              \
    static void op_##F(void) {                                                                                      \
        struct { T before, v, after; } s = {1, ANY(T), 2};                                                          \
        T lo = ANY(T), hi = ANY(T), dlo = ANY(T), dhi = ANY(T), step = N >= 6 && (P(2) > 9 || P(2) == -99) ? (T)in_u8() : ANY(T); \
        parameter_handle_t h = PARAMETER_FULL(&s.v, P(1) & 1 ? &dlo : NULL, P(1) & 2 ? &dhi : NULL, lo, hi, 0, step, 0, DATA, NULL, NULL), h0 = h; \
        T elo = P(1) & 1 ? dlo : lo, ehi = P(1) & 2 ? dhi : hi, old = s.v, olo = dlo, ohi = dhi;                    \
        int mod = MULT();                                                                                           \
        big delta = (big)step * mod, x = old + delta;                                                               \
        if (N == 7) ASSUME(delta >= INT64_MIN && delta <= INT64_MAX);                                               \
        CHECK(parameter_operator(&h, mod) == 0, "a parameter is accepted");                                         \
        int inside = x >= (big)elo && x <= (big)ehi;                                                                \
        if (inside) { CHECK((big)s.v == x, "a result inside the limits is stored exactly"); REACH("inside"); }      \
        else if (mod > 0) { CHECK(s.v == elo, "an increment leaving the range wraps to the lower limit"); if (P(2) > 0) REACH("wraps up"); } \
        else if (mod < 0) { CHECK(s.v == ehi, "a decrement leaving the range wraps to the upper limit"); REACH("wraps down"); } \
        else CHECK(s.v == old, "a zero multiple changes nothing");                                                  \
        if (mod && elo <= ehi) CHECK(s.v >= elo && s.v <= ehi, "the value stays inside the limits");                \
        CHECK(s.before == 1 && s.after == 2 && dlo == olo && dhi == ohi, "nothing else is written");                \
        CHECK(h.type == h0.type && h.pointer == h0.pointer && h.pmin == h0.pmin && h.pmax == h0.pmax && h.min.F == lo && h.max.F == hi && h.step.F == step, "the parameter is not changed"); \
    }
INTS(OP)
/* floating point: given multiplier, step and old value (P(3)), any limits */
static const double olds[] = {0, 1.5, -0.1, 1e38, -3e38, 1e308, 7};
#define FOP(N, T, F, E)                                                                                             \
    static void op_##F(void) {                                                                                      \
        struct { T before, v, after; } s = {1, P(3) < 7 ? (T)olds[P(3)] : ANY(T), 2};                               \
        T lo = ANY(T), hi = ANY(T), dlo = ANY(T), dhi = ANY(T), step = P(3) % 3 == 0 ? (T)0.1 : P(3) % 3 == 1 ? 1 : (T)3e38; \
        parameter_handle_t h = PARAMETER_FULL(&s.v, P(1) & 1 ? &dlo : NULL, P(1) & 2 ? &dhi : NULL, lo, hi, 0, step, 0, DATA, NULL, NULL); \
        T elo = P(1) & 1 ? dlo : lo, ehi = P(1) & 2 ? dhi : hi, old = s.v;                                          \
        int mod = MULT();                                                                                           \
        T x = old + step * mod;                                                                                     \
        ASSUME(elo == elo && ehi == ehi && elo <= ehi);                                                             \
        CHECK(parameter_operator(&h, mod) == 0, "a parameter is accepted");                                         \
        if (x >= elo && x <= ehi) { CHECK(s.v == x, "a result inside the limits is stored exactly"); REACH("inside"); } \
        else if (mod > 0) { CHECK(s.v == elo, "an increment leaving the range wraps to the lower limit"); if (P(2) > 0) REACH("wraps up"); } \
        else if (mod < 0) { CHECK(s.v == ehi, "a decrement leaving the range wraps to the upper limit"); REACH("wraps down"); } \
        CHECK(s.before == 1 && s.after == 2, "nothing else is written");                                            \
    }
FLOATS(FOP)
#define FN(F) op_##F
void vh_operate(void) {
    CHECK(parameter_operator(NULL, in_int()) == -1, "a missing parameter is refused");
    SWITCH(ALL)
}
#undef FN
#endif
#ifdef PART_2
/* ---------------------------------------------------------------- R02, R03: parameters of types P(0), P(1), P(2) (10: none); P(3) dynamic limits */
static parameter_handle_t table[3];
static int bad[3];
#define CELLS(N, T, F, E) static struct { uint64_t before; T v, lo, hi; uint64_t after; } cell_##F[3]; static T old_##F[3], def_##F[3];
ALL(CELLS)
#define MAKE(N, T, F, E)                                                                                            \
    if (type == N) {                                                                                                \
        T lo = i ? 10 : ANY(T), hi = i ? 100 : ANY(T), def = ANY(T), v = ANY(T), dl = i ? 20 : ANY(T), dh = i ? 120 : ANY(T); \
        cell_##F[i].v = old_##F[i] = v; cell_##F[i].lo = dl; cell_##F[i].hi = dh; def_##F[i] = def;                 \
        table[i] = PARAMETER_FULL(&cell_##F[i].v, P(3) & 1 ? &cell_##F[i].lo : NULL, P(3) & 2 ? &cell_##F[i].hi : NULL, lo, hi, def, 1, level, DATA, NULL, NULL); \
        T elo = P(3) & 1 ? dl : lo, ehi = P(3) & 2 ? dh : hi;                                                       \
        ASSUME(!IS_NAN(elo) && !IS_NAN(ehi) && !IS_NAN(def));                                                       \
        bad[i] = !(v >= elo && v <= ehi);                                                                           \
    }
static void make(int i, int type) {
    static const unsigned levels[] = {0x80000000u, 0, 5};
    unsigned level = P(1) < 10 ? levels[i] : in_u32();     /* any level for a single parameter */
    ALL(MAKE)
}
#define SAME(a, b) ((a) == (b) || (IS_NAN(a) && IS_NAN(b)))
#define LOOK(N, T, F, E)                                                                                            \
    if (type == N) {                                                                                                \
        T v = cell_##F[i].v;                                                                                        \
        if (i < n && (reset_all || bad[i])) CHECK(SAME(v, def_##F[i]), "the default is stored");                    \
        else CHECK(SAME(v, old_##F[i]), "a parameter that is not to be reset is left as it was");                   \
        CHECK(cell_##F[i].before == 0 && cell_##F[i].after == 0, "nothing else is written");                        \
    }
static void look(int i, int type, int n, int reset_all) { ALL(LOOK) }
static int build(void) {
    int types[] = {P(0), P(1), P(2)}, n = 0;
    for (int i = 0; i < 3; i++) if (types[i] < 10) { make(i, types[i]); n = i + 1; }
    return n;
}
void vh_ranges(void) {
    int n = build(), count = 0;
    for (int i = 0; i < n; i++) count += bad[i];
    CHECK(parameter_check_ranges(table, n) == count, "the number of parameters reset is returned");
    look(0, P(0), n, 0); look(1, P(1), n, 0); look(2, P(2), n, 0);
    if (count == n) REACH("all out of range");
    if (count == 0) REACH("all in range");
}
void vh_defaults(void) {
    int n = build();
    parameter_reset_to_defaults(table, n);
    look(0, P(0), n, 1); look(1, P(1), n, 1); look(2, P(2), n, 1);
    REACH("end");
}
#ifdef LONG
/* a list of 260, all in range and at their defaults (with P(2) instead all out of range) but for the entries P(0) and
 * P(1), which have any value */
static uint8_t calm = 50, lively[2], cells[LONG];
#define QUIET {.type = PARAMETER_TYPE_UINT8, .pointer = &calm, .min = {.u8 = 10}, .max = {.u8 = 100}, .defaultv = {.u8 = 50}, .step = {.u8 = 1}, .access_level = 1}
static parameter_handle_t longer[LONG] = {TIMES200(QUIET) TIMES50(QUIET) TIMES10(QUIET)};
/* what R04 says of a lookup in this list: there the function itself is encoded */
#ifdef VH_CBMC
parameter_handle_t *parameter_get_handle(parameter_handle_t *ps, size_t length, size_t num, unsigned int al) {
    __CPROVER_assert(num < length, "lookup inside the list");
    return (al & 1) && num < length ? &ps[num] : NULL;
}
#endif
static void look_up(void) {
    if (P(2)) for (int i = 0; i < LONG; i++) longer[i].pointer = &cells[i];
    lively[0] = in_u8(); lively[1] = in_u8();
    longer[P(0)].pointer = &lively[0]; longer[P(0)].defaultv.u8 = 20;
    longer[P(1)].pointer = &lively[1]; longer[P(1)].defaultv.u8 = 30;
}
static void others(void) {
    if (P(2)) for (int i = 0; i < LONG; i++) CHECK(cells[i] == (i == P(0) || i == P(1) ? 0 : 50), "all others have their default");
}
void vh_long_ranges(void) {
    look_up();
    uint8_t a = lively[0], b = lively[1];
    int wrong_a = a < 10 || a > 100, wrong_b = b < 10 || b > 100;
    CHECK(parameter_check_ranges(longer, LONG) == wrong_a + wrong_b + (P(2) ? LONG - 2 : 0), "the number of parameters reset is returned");
    CHECK(lively[0] == (wrong_a ? 20 : a) && lively[1] == (wrong_b ? 30 : b) && calm == 50, "exactly those out of range get their default");
    others();
    REACH("end");
}
void vh_long_defaults(void) {
    look_up();
    parameter_reset_to_defaults(longer, LONG);
    CHECK(lively[0] == 20 && lively[1] == 30 && calm == 50, "the default is stored");
    others();
    REACH("end");
}
#endif
#endif
#ifdef PART_4
/* a list of 300: the first 200 have level 1, the next 99 level 2, the last 4; P(0) the levels asked for, P(1) the number */
static uint8_t lv[3];
#define ENTRY(k, level) {.type = PARAMETER_TYPE_UINT8, .pointer = &lv[k], .min = {.u8 = 10}, .max = {.u8 = 100}, .defaultv = {.u8 = 50}, .step = {.u8 = 1}, .access_level = level}
static parameter_handle_t longer[300] = {TIMES200(ENTRY(0, 1)) TIMES50(ENTRY(1, 2)) TIMES10(ENTRY(1, 2)) TIMES10(ENTRY(1, 2)) TIMES10(ENTRY(1, 2)) TIMES10(ENTRY(1, 2)) TIMES5(ENTRY(1, 2)) TIMES2(ENTRY(1, 2)) TIMES2(ENTRY(1, 2)) ENTRY(2, 4)};
void vh_long_list(void) {
    unsigned al = P(0) | in_u32() << 3;
    size_t len = 300, first = P(0) & 1 ? 0 : P(0) & 2 ? 200 : 299, count = (P(0) & 1 ? 200 : 0) + (P(0) & 2 ? 99 : 0) + (P(0) & 4 ? 1 : 0), num = P(1);
    size_t expected = first + num;
    if (P(0) == 5 && num == 200) expected = 299;
    CHECK(parameter_get_count(longer, len, al) == count, "the count is the number of visible parameters");
    parameter_handle_t *h = parameter_get_handle(longer, len, num, al);
    CHECK(h == (num >= count ? NULL : &longer[expected]), "the lookup returns the visible parameter of that number, or none");
    REACH("end");
}
static parameter_handle_t table[4];
static unsigned later[4]; static int calls[4], wrong;
static void runtime(parameter_handle_t *h, void *arg) {
    int i = (int)(h - table);
    if (i < 0 || i >= 4 || arg != &arg_target[i]) { wrong = 1; return; }
    calls[i]++;
    h->access_level = later[i];
}
void vh_visible(void) {
    static uint8_t v[4];
    unsigned al = in_u32(), level[4];
    int n = P(0), count = 0;
    size_t num = in_u8(), expected = 4, seen = 0;
    for (int i = 0; i < n; i++) {
        int rt = P(1) >> i & 1;
        level[i] = in_u32(); later[i] = in_u32();
        table[i] = PARAMETER_FULL(&v[i], NULL, NULL, 0, 1, 0, 1, level[i], DATA, rt ? runtime : NULL, &arg_target[i]);
        unsigned l = rt ? later[i] : level[i];
        if (l == 0 || (l & al)) { if (seen++ == num && expected == 4) expected = i; }
    }
    int count_first = in_bool();
    if (count_first) CHECK(parameter_get_count(table, n, al) == seen, "the count is the number of visible parameters");
    if (num < (size_t)n) {
        parameter_handle_t *h = parameter_get_handle(table, n, num, al);
        CHECK(h == (expected == 4 ? NULL : &table[expected]), "the lookup returns the visible parameter of that number, or none");
        for (int i = 0; i < n; i++) if ((P(1) >> i & 1) && (size_t)i <= expected) CHECK(calls[i] >= 1, "callbacks are run before visibility is decided");
        if (expected == 4) REACH("none"); else if (seen < (size_t)n) REACH("some");
    }
    if (!count_first) CHECK(parameter_get_count(table, n, al) == seen, "the count is the number of visible parameters");
    for (int i = 0; i < n; i++) if (P(1) >> i & 1) CHECK(calls[i] >= 1, "every callback is run");
    CHECK(!wrong, "callbacks get their parameter and argument");
    if (n && count_first) CHECK(parameter_get_user_data(&table[n - 1]) == DATA, "the user data is the one given");
}
#endif
#ifdef PART_5
/* ---------------------------------------------------------------- R05 */
#define CONV(N, T, F, E)                                                                                            \
    static void conv_##F(void) {                                                                                    \
        T v = ANY(T), old = v;                                                                                      \
        parameter_handle_t h = PARAMETER(&v, 0, 1, 0, DATA, 0);                                                     \
        if ((big)v <= INT64_MAX) CHECK(parameter_to_long(&h) == (long)v, "the long is the value, with its sign");   \
        if (v >= 0) { CHECK(parameter_to_index(&h) == (size_t)v, "the index is the value"); REACH("index"); }       \
        CHECK(!!parameter_to_bool(&h) == (v != 0), "true exactly when not zero");                                   \
        CHECK(v == old, "converting changes nothing");                                                              \
        REACH("end");                                                                                               \
    }
INTS(CONV)
#define FN(F) conv_##F
void vh_convert(void) {
    CHECK(parameter_to_long(NULL) == 0 && parameter_to_index(NULL) == 0 && parameter_to_bool(NULL) == 0, "a missing parameter converts to zero");
    SWITCH(INTS)
}
#undef FN
#endif
#ifdef PART_6
/* ---------------------------------------------------------------- R06: P(1) 0 clone, 1 clone with buffer, 2 copy; P(2) other type */
#define SAME_HANDLE(a, b, F) ((a).type == (b).type && (a).pmin == (b).pmin && (a).pmax == (b).pmax && memcmp(&(a).min.F, &(b).min.F, sizeof (a).min.F) == 0 && \
    memcmp(&(a).max.F, &(b).max.F, sizeof (a).min.F) == 0 && memcmp(&(a).defaultv.F, &(b).defaultv.F, sizeof (a).min.F) == 0 && \
    memcmp(&(a).step.F, &(b).step.F, sizeof (a).min.F) == 0 && (a).access_level == (b).access_level && (a).data == (b).data && (a).runtime == (b).runtime && (a).arg == (b).arg)
#define CLONE(N, T, F, E)                                                                                           \
    static void clone_##F(void) {                                                                                   \
        T v = ANY(T), keep, dl, dh;                                                                                 \
        memcpy(&keep, &v, sizeof v);                                                                                \
        struct { uint64_t before; slot_t s; uint64_t after; } d = {5, {.u = in_u64()}, 6};                          \
        slot_t s0 = d.s;                                                                                            \
        parameter_handle_t h = PARAMETER_FULL(&v, &dl, &dh, ANY(T), ANY(T), ANY(T), ANY(T), in_u32(), DATA, runtime, &arg_target[1]), c; \
        if (P(1) == 0) { parameter_clone(&c, &h, d.s.b); CHECK(SAME_HANDLE(c, h, F), "a clone has the attributes of its source"); CHECK(c.pointer == d.s.b, "a clone has its own storage"); } \
        else if (P(1) == 1) { c = parameter_clone_with_buffer(&h, d.s.b); CHECK(SAME_HANDLE(c, h, F), "a clone has the attributes of its source"); CHECK(c.pointer == d.s.b, "a clone has its own storage"); } \
        else { c = h; c.pointer = d.s.b; CHECK(parameter_copy_value(&c, &h) == 0, "copying between equal types succeeds"); } \
        for (size_t i = 0; i < 8; i++) CHECK(d.s.b[i] == (i < sizeof(T) ? ((uint8_t *)&keep)[i] : s0.b[i]), "exactly the value is transferred"); \
        CHECK(d.before == 5 && d.after == 6 && memcmp(&v, &keep, sizeof v) == 0, "nothing else is written");        \
        CHECK(h.pointer == &v, "the source keeps its storage");                                                     \
        REACH("end");                                                                                               \
    }
ALL(CLONE)
#define FN(F) clone_##F
void vh_cloning(void) { SWITCH(ALL) }
#undef FN
void vh_copy_refused(void) {
    parameter_handle_t a = {0}, b = {0};
    slot_t x = {.u = in_u64()}, y = {.u = in_u64()}, x0 = x, y0 = y;
    a.type = (parameter_type_t)P(0); b.type = (parameter_type_t)P(1);
    a.pointer = x.b; b.pointer = y.b;
    CHECK(parameter_copy_value(&a, &b) == -1, "copying between different types is refused");
    CHECK(parameter_copy_value(NULL, &b) == -1 && parameter_copy_value(&a, NULL) == -1, "missing parameters are refused");
    CHECK(x.u == x0.u && y.u == y0.u, "nothing is written");
    parameter_handle_t a0 = a;
    parameter_clone(&a, NULL, x.b); parameter_clone(NULL, &a, x.b); parameter_clone(&a, &b, NULL);
    CHECK(a.type == a0.type && a.pointer == a0.pointer && x.u == x0.u && y.u == y0.u, "cloning with something missing does nothing");
    REACH("end");
}
#endif
#ifdef PART_7
/* ---------------------------------------------------------------- R07: P(1) dynamic limits */
#define TOTAL(N, T, F, E)                                                                                           \
    static void total_##F(void) {                                                                                   \
        T v = 0, lo = ANY(T), hi = ANY(T), dlo = ANY(T), dhi = ANY(T);                                              \
        parameter_handle_t h = PARAMETER_DLIMITS(&v, P(1) & 1 ? &dlo : NULL, P(1) & 2 ? &dhi : NULL, lo, hi, 0, DATA, 0); \
        T elo = P(1) & 1 ? dlo : lo, ehi = P(1) & 2 ? dhi : hi;                                                     \
        ASSUME(elo <= ehi);                                                                                         \
        big n = (big)ehi - (big)elo + 1;                                                                            \
        ASSUME(n <= (big)SIZE_MAX);                                                                                 \
        CHECK((big)parameter_get_total_values(&h) == n, "the number of values is the size of the range");           \
        if (sizeof(T) > 1 && n > 256) REACH("more than a byte");                                                    \
        REACH("end");                                                                                               \
    }
INTS(TOTAL)
#define FN(F) total_##F
void vh_totals(void) { CHECK(parameter_get_total_values(NULL) == 0, "a missing parameter has no values"); SWITCH(INTS) }
#undef FN
#endif
#ifdef PART_8
/* ---------------------------------------------------------------- R08 */
#define EQ(a, b) (memcmp(&(a), &(b), sizeof(a)) == 0)
#define CTOR(N, T, F, E)                                                                                            \
    static void ctor_##F(void) {                                                                                    \
        T v, lo = ANY(T), hi = ANY(T), def = ANY(T), step = ANY(T), one = 1, dl, dh;                                \
        ASSUME(!IS_NAN(lo) && !IS_NAN(hi) && !IS_NAN(def) && !IS_NAN(step));                                        \
        unsigned level = in_u32();                                                                                  \
        parameter_handle_t h = PARAMETER(&v, lo, hi, def, DATA, level);                                             \
        CHECK(h.type == E && h.pointer == &v && h.pmin == NULL && h.pmax == NULL && EQ(h.min.F, lo) && EQ(h.max.F, hi) && EQ(h.defaultv.F, def) && EQ(h.step.F, one) && h.access_level == level && h.data == DATA && h.runtime == NULL, "PARAMETER"); \
        h = PARAMETER_STEP(&v, lo, hi, def, step, DATA, level);                                                     \
        CHECK(h.type == E && h.pointer == &v && h.pmin == NULL && h.pmax == NULL && EQ(h.min.F, lo) && EQ(h.max.F, hi) && EQ(h.defaultv.F, def) && EQ(h.step.F, step) && h.access_level == level && h.data == DATA && h.runtime == NULL, "PARAMETER_STEP"); \
        h = PARAMETER_DLIMITS(&v, &dl, &dh, lo, hi, def, DATA, level);                                              \
        CHECK(h.type == E && h.pointer == &v && h.pmin == &dl && h.pmax == &dh && EQ(h.min.F, lo) && EQ(h.max.F, hi) && EQ(h.defaultv.F, def) && EQ(h.step.F, one) && h.access_level == level && h.data == DATA && h.runtime == NULL, "PARAMETER_DLIMITS"); \
        h = PARAMETER_FULL(&v, &dl, &dh, lo, hi, def, step, level, DATA, runtime, &arg_target[2]);                  \
        CHECK(h.type == E && h.pointer == &v && h.pmin == &dl && h.pmax == &dh && EQ(h.min.F, lo) && EQ(h.max.F, hi) && EQ(h.defaultv.F, def) && EQ(h.step.F, step) && h.access_level == level && h.data == DATA && h.runtime == runtime && h.arg == &arg_target[2], "PARAMETER_FULL"); \
        h = PARAMETER_C99(E, &v, &dl, &dh, lo, hi, def, step, level, DATA, runtime, &arg_target[2]);                \
        CHECK(h.type == E && h.pointer == &v && h.pmin == &dl && h.pmax == &dh && EQ(h.min.F, lo) && EQ(h.max.F, hi) && EQ(h.defaultv.F, def) && EQ(h.step.F, step) && h.access_level == level && h.data == DATA && h.runtime == runtime && h.arg == &arg_target[2], "PARAMETER_C99"); \
        if ((long long)-2 == -2) {                                                                                  \
            /* limits given as plain integer constants and expressions */                                           \
            h = PARAMETER(&v, 1 + 1, sizeof(T) > 1 ? 100 : 99, 7, DATA, 0);                                         \
            T two = 2, hundred = sizeof(T) > 1 ? 100 : 99, seven = 7;                                               \
            CHECK(EQ(h.min.F, two) && EQ(h.max.F, hundred) && EQ(h.defaultv.F, seven), "constants of another type"); \
        }                                                                                                           \
        REACH("end");                                                                                               \
    }
ALL(CTOR)
#define FN(F) ctor_##F
void vh_construct(void) { SWITCH(ALL) }
#endif
#ifdef PART_9
/* ---------------------------------------------------------------- R09: the C library's formatter is replaced by one that records what it is given */
#include <stdarg.h>
static int prints; static const char *got_format; static char *got_buffer; static int64_t got_int; static double got_double;
#define RECORD(s, format)                                                                                           \
    va_list ap;                                                                                                     \
    va_start(ap, format);                                                                                           \
    prints++; got_buffer = s; got_format = format;                                                                  \
    if (P(0) <= 5) { if (P(0) == 4) got_int = va_arg(ap, unsigned); else got_int = va_arg(ap, int); }               \
    else if (P(0) <= 7) got_int = va_arg(ap, int64_t);                                                              \
    else got_double = va_arg(ap, double);                                                                           \
    va_end(ap);                                                                                                     \
    s[0] = 'x'; s[1] = 0;                                                                                           \
    return 1;
int vh_sprintf(char *s, const char *format, ...) { RECORD(s, format) }
int vh_snprintf(char *s, size_t n, const char *format, ...) { (void)n; RECORD(s, format) }
#define FORMAT(N, T, F, E)                                                                                          \
    static void format_##F(void) {                                                                                  \
        T v = ANY(T), old; char out[4] = {1, 2, 3, 4}, format[4] = "%?";                                            \
        memcpy(&old, &v, sizeof v);                                                                                 \
        parameter_handle_t h = PARAMETER(&v, 0, 1, 0, DATA, 0), h0 = h;                                             \
        prints = 0;                                                                                                 \
        parameter_to_string_format(NULL, out, format);                                                              \
        CHECK(prints == 0 && out[0] == 1 && out[1] == 2 && out[2] == 3, "a missing parameter prints nothing");      \
        parameter_to_string_format(&h, out, format);                                                                \
        CHECK(prints == 1, "the value is printed once");                                                            \
        CHECK(got_buffer == out && got_format == format, "the caller's buffer and format are used");                \
        if (N >= 8) { double want = (double)v; CHECK(memcmp(&want, &got_double, sizeof want) == 0 || (IS_NAN(want) && IS_NAN(got_double)), "the value is what is printed"); } \
        else CHECK(got_int == (int64_t)v, "the value is what is printed, with its sign");                           \
        CHECK(out[0] == 'x' && out[1] == 0 && out[2] == 3 && out[3] == 4, "only the text is written");              \
        CHECK(memcmp(&v, &old, sizeof v) == 0 && h.pointer == h0.pointer && h.type == h0.type, "printing changes nothing"); \
        REACH("end");                                                                                               \
    }
ALL(FORMAT)
#define FN(F) format_##F
void vh_format(void) { SWITCH(ALL) }
#undef FN
#endif
