/* Maybe.  Bounds: every value and every function result for four types; the functions passed are arbitrary tables. */
#include "vh.h"
#include "data_structures/maybe.h"
typedef struct { uint8_t a; uint32_t b; } pair_t;
static int pair_eq(pair_t x, pair_t y) { return x.a == y.a && x.b == y.b; }
static int num_eq64(uint64_t x, uint64_t y) { return x == y; }
static pair_t in_pair(void) { pair_t p; p.a = in_u8(); p.b = in_u32(); return p; }

#define SUITE(TYPE, GEN, SAME)                                                                                     \
    MAYBE_DECLARATION(TYPE)                                                                                        \
    MAYBE_DEFINITION(TYPE)                                                                                         \
    static TYPE TYPE##_arg, TYPE##_ret; static MAYBE(TYPE) TYPE##_mret; static int TYPE##_calls;                   \
    static TYPE TYPE##_fn(TYPE x) { TYPE##_calls++; TYPE##_arg = x; return TYPE##_ret; }                           \
    static MAYBE(TYPE) TYPE##_mfn(TYPE x) { TYPE##_calls++; TYPE##_arg = x; return TYPE##_mret; }                  \
    static void TYPE##_suite(void) {                                                                               \
        TYPE v = GEN(), d = GEN(); TYPE##_ret = GEN(); TYPE w = GEN();                                             \
        MAYBE(TYPE) j = maybe_##TYPE##_return(v), n = maybe_##TYPE##_nothing(), s = MAYBE_NOTHING, r;              \
        CHECK(maybe_##TYPE##_is_just(&j) && !maybe_##TYPE##_is_just(&n) && !maybe_##TYPE##_is_just(&s), "returned values are present, nothing is absent"); \
        CHECK(SAME(maybe_##TYPE##_with_default(&j, d), v), "a present value wins over the default");               \
        CHECK(SAME(maybe_##TYPE##_with_default(&n, d), d), "an absent value yields the default");                  \
        TYPE##_mret = in_bool() ? maybe_##TYPE##_return(w) : maybe_##TYPE##_nothing();                             \
        TYPE##_calls = 0;                                                                                          \
        r = maybe_##TYPE##_map(n, TYPE##_fn);                                                                      \
        CHECK(TYPE##_calls == 0 && !maybe_##TYPE##_is_just(&r), "map leaves an absent value absent");              \
        r = maybe_##TYPE##_bind(n, TYPE##_mfn);                                                                    \
        CHECK(TYPE##_calls == 0 && !maybe_##TYPE##_is_just(&r), "bind leaves an absent value absent");             \
        r = maybe_##TYPE##_map(j, TYPE##_fn);                                                                      \
        CHECK(TYPE##_calls == 1 && SAME(TYPE##_arg, v), "map applies the function once to the value");             \
        CHECK(maybe_##TYPE##_is_just(&r) && SAME(maybe_##TYPE##_with_default(&r, d), TYPE##_ret), "map yields the result of the function"); \
        r = maybe_##TYPE##_bind(j, TYPE##_mfn);                                                                    \
        CHECK(TYPE##_calls == 2 && SAME(TYPE##_arg, v), "bind applies the function once to the value");            \
        CHECK(!!maybe_##TYPE##_is_just(&r) == !!maybe_##TYPE##_is_just(&TYPE##_mret), "bind is present iff the function's result is"); \
        if (maybe_##TYPE##_is_just(&r)) { CHECK(SAME(maybe_##TYPE##_with_default(&r, d), w), "bind yields the result of the function"); REACH(#TYPE " present"); } \
        CHECK(SAME(maybe_##TYPE##_with_default(&j, d), v), "map and bind leave their argument alone");             \
    }
SUITE(uint8_t, in_u8, num_eq64)
SUITE(int32_t, in_i32, num_eq64)
SUITE(uint64_t, in_u64, num_eq64)
SUITE(pair_t, in_pair, pair_eq)
void vh_laws(void) { uint8_t_suite(); int32_t_suite(); uint64_t_suite(); pair_t_suite(); REACH("end"); }
