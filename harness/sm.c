/* State machine generator.  Bounds: NS states, STEPS events, handlers answering anything; two machines, several event types. */
#include "vh.h"
#include "state_machine/state_machine.h"
#ifndef NS
#define NS 4
#endif
#ifndef STEPS
#define STEPS 4
#endif
typedef struct { int v; } model_t;
#if EV == 1
typedef struct { uint8_t a; uint32_t b; } event_t;
static event_t in_event(void) { event_t e; e.a = in_u8(); e.b = in_u32(); return e; }
static int same(event_t x, event_t y) { return x.a == y.a && x.b == y.b; }
#else
typedef uint64_t event_t;
static event_t in_event(void) { return in_u64(); }
static int same(event_t x, event_t y) { return x == y; }
#endif
DEFINE_STATE_MACHINE(vs, event_t, model_t)

static unsigned calls[NS]; static int answer, wrong; static event_t sent; static model_t model, *given; static int effect;
static int handle(int s, model_t *m, event_t e) {
    calls[s]++;
    if (m != given || !same(e, sent)) wrong = 1;
    if (m) m->v = effect;
    return answer;
}
#define H(n) static int h##n(model_t *m, event_t e) { return handle(n, m, e); }
H(0) H(1) H(2) H(3)
void vh_moves(void) {
    static vs_event_manager_t m[] = {h0, h1, h2, h3}, m0[] = {h0, h1, h2, h3};
    vs_state_machine_t sm = {.managers = m, .state = (unsigned)in_irange(0, NS - 1)}, other = {.managers = m, .state = (unsigned)in_irange(0, NS - 1)};
    unsigned state = sm.state, ostate = other.state;
    for (int s = 0; s < STEPS; s++) {
        for (int i = 0; i < NS; i++) calls[i] = 0;
        answer = in_int(); ASSUME(answer < NS);
        wrong = 0; sent = in_event(); given = in_bool() ? &model : NULL; effect = in_int();
        int r = vs_sm_send_event(&sm, given, sent);
        for (int i = 0; i < NS; i++) CHECK(calls[i] == (i == (int)state), "exactly the current state's handler is called, once");
        CHECK(!wrong, "the handler gets the given model and event");
        CHECK(!given || model.v == effect, "what the handler did to the model stays");
        if (answer >= 0) { CHECK(r == 1, "a non-negative result is reported as a change"); state = (unsigned)answer; REACH("moves"); }
        else { CHECK(r == 0, "a negative result is not a change"); REACH("stays"); }
        CHECK(sm.state == state, "the state is what the handler said, or as it was");
        CHECK(other.state == ostate, "other machines are not concerned");
    }
    for (int i = 0; i < NS; i++) CHECK(m[i] == m0[i], "the table is not changed");
    CHECK(sm.managers == m, "the table is not changed");
    REACH("end");
}
/* a table of 300 states; only the handlers of two of them, P(0) and P(1), may be called */
#ifdef MANY
static int h_no(model_t *m, event_t e) { (void)m; (void)e; wrong = 1; return -1; }
void vh_many_states(void) {
    static vs_event_manager_t m[300];
    for (int i = 0; i < 300; i++) m[i] = i == P(0) ? h0 : i == P(1) ? h1 : h_no;
    vs_state_machine_t sm = {.managers = m, .state = (unsigned)P(0)};
    sent = in_event(); given = &model;
    int to[] = {P(1), in_irange(-3, -1), P(0), P(0), P(1)}, at = 0;
    for (int s = 0; s < 5; s++) {
        calls[0] = calls[1] = 0; answer = to[s];
        int r = vs_sm_send_event(&sm, given, sent);
        CHECK(!wrong && calls[at] == 1 && calls[!at] == 0, "exactly the current state's handler is called, once");
        if (answer >= 0) at = answer == P(1);
        CHECK(r == (answer >= 0) && sm.state == (unsigned)(at ? P(1) : P(0)), "the state is what the handler said, or as it was");
    }
    REACH("end");
}
#endif
