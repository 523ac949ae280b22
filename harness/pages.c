/* Page manager against a model stack of page instances.  The callbacks check what they are called with.  P(0): the
 * operations in base 10, lowest digit first; P(1), P(2): which callbacks pages of kind 0 and 1 have (1 create, 2 destroy,
 * 4 open, 8 close, 16 update); P(3): the kinds of the pages shown, in base 2.  Model, extra arguments, ids, events and
 * answers are any.  G selects what is checked: 1 balance, 2 stack discipline, 3 events and updates. */
#include "vh.h"
#include "pagemanager/page_manager.h"
#ifndef STEPS
#define STEPS 5
#endif
#define C1(c, m) do { if (G == 1) CHECK(c, m); } while (0)
#define C2(c, m) do { if (G == 2) CHECK(c, m); } while (0)
#define C3(c, m) do { if (G == 3) CHECK(c, m); } while (0)
#define MAXI (STEPS + 1)
static struct { int kind, data, alive, open; void *extra; } inst[MAXI];
static int ninst, stack[MAXI], depth;                       /* stack[depth - 1] is shown */
static int mask[2], ids[2], model_arg, event_arg, answer, view, updates, events, created;
static int new_kind; static void *new_extra;
static page_manager_t pm;
static int extras[2];

static int instance(int kind, int data, int open) {          /* which instance a callback speaks of */
    for (int i = 0; i < MAXI; i++)
        if (i < ninst && inst[i].kind == kind && inst[i].data == data && inst[i].alive && (open < 0 || inst[i].open == open)) return i;
    return -1;
}
static pman_page_data_t on_create(int k, pman_model_t model, void *extra) {
    C1(k == new_kind && created == 0, "exactly the new page is created");
    C1(extra == new_extra, "a page is created with its extra argument");
    C1(model == model_arg, "a page is created with the model");
    created++;
    return 1000 + ninst - 1;
}
static void on_destroy(int k, pman_page_data_t data, void *extra) {
    int i = instance(k, data, (mask[k] & 12) == 12 ? 0 : -1);
    if (!(mask[k] & 1)) i = -2;                              /* pages without data of their own are alike */
    C1(i != -1, "only a live page that is not open is destroyed, with its data");
    if (i == -2) { C1(data == PMAN_DATA_NULL, "a page that creates nothing has no data");
        for (int j = 0; j < MAXI; j++) if (i == -2 && j < ninst && inst[j].kind == k && inst[j].alive && inst[j].extra == extra && !((mask[k] & 12) == 12 && inst[j].open)) i = j;
        C1(i != -2, "only a live page that is not open is destroyed, with its extra argument"); }
    if (i < 0) return;
    C1(inst[i].extra == extra, "a page is destroyed with its extra argument");
    inst[i].alive = 0;
}
static void on_open(int k, pman_model_t model, pman_page_data_t data) {
    int i = instance(k, data, (mask[k] & 12) == 12 ? 0 : -1);
    C1(i >= 0, "only a live page that is not open is opened, with its data");
    C1(model == model_arg, "a page is opened with the model");
    for (int j = 0; j < MAXI; j++) if (j < ninst && (mask[inst[j].kind] & 12) == 12) C1(!inst[j].open, "no page is opened while another is open");
    if (i < 0) return;
    if (!(mask[k] & 1)) { i = -1; for (int j = 0; j < MAXI; j++) if (j < ninst && inst[j].kind == k && inst[j].alive) i = j; if (i < 0) return; }
    inst[i].open = 1;
}
static void on_close(int k, pman_page_data_t data) {
    int i = instance(k, data, (mask[k] & 12) == 12 ? 1 : -1);
    C1(i >= 0, "only the open page is closed, with its data");
    if (i < 0) return;
    inst[i].open = 0;
}
static int shown(int k, int data) { return depth > 0 && inst[stack[depth - 1]].kind == k && inst[stack[depth - 1]].data == data; }
static pman_view_t on_update(int k, pman_model_t model, pman_page_data_t data) {
    C3(shown(k, data), "only the current page is updated, with its data");
    C3(model == model_arg, "the update gets the model");
    updates++;
    return view;
}
static pman_message_t on_event(int k, pman_model_t model, pman_page_data_t data, pman_event_t event) {
    C2(shown(k, data), "the current page is the one on top of the stack, with its data");
    C3(shown(k, data), "only the current page receives events, with its data");
    C3(model == model_arg && event == event_arg, "the handler gets the model and the event");
    events++;
    return answer;
}
#define KIND(K)                                                                                                     \
    static pman_page_data_t create_##K(pman_model_t m, void *x) { return on_create(K, m, x); }                      \
    static void destroy_##K(pman_page_data_t d, void *x) { on_destroy(K, d, x); }                                   \
    static void open_##K(pman_model_t m, pman_page_data_t d) { on_open(K, m, d); }                                  \
    static void close_##K(pman_page_data_t d) { on_close(K, d); }                                                   \
    static pman_view_t update_##K(pman_model_t m, pman_page_data_t d) { return on_update(K, m, d); }                \
    static pman_message_t event_##K(pman_model_t m, pman_page_data_t d, pman_event_t e) { return on_event(K, m, d, e); }
KIND(0)
KIND(1)
static pman_page_t page(int k) {
    pman_page_t p = {.id = ids[k], .data = in_int(), .extra = in_bool() ? &extras[0] : NULL};
    if (mask[k] & 1) p.create = k ? create_1 : create_0;
    if (mask[k] & 2) p.destroy = k ? destroy_1 : destroy_0;
    if (mask[k] & 4) p.open = k ? open_1 : open_0;
    if (mask[k] & 8) p.close = k ? close_1 : close_0;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    if (mask[k] & 16) p.update = k ? update_1 : update_0;
#endif
    p.process_event = k ? event_1 : event_0;
    return p;
}
static void push_new(int k, void *extra) {
    inst[ninst].kind = k; inst[ninst].alive = 1; inst[ninst].extra = extra;
    inst[ninst].data = mask[k] & 1 ? 1000 + ninst : PMAN_DATA_NULL;
    new_kind = k; new_extra = extra;
    stack[depth++] = ninst++;
}
static void check_state(void) {
    for (int i = 0; i < MAXI; i++) {
        if (i >= ninst) continue;
        int k = inst[i].kind, on = 0;
        for (int j = 0; j < MAXI; j++) if (j < depth && stack[j] == i) on = 1;
        int same = 0;                                        /* pages without data are only counted */
        for (int j = 0; j < MAXI; j++) if (j < ninst && j != i && inst[j].kind == k && !(mask[k] & 1)) same = 1;
        if (same) continue;
        if (mask[k] & 2) { if (on) C1(inst[i].alive, "a page that stays is not destroyed"); else C1(!inst[i].alive, "a page leaving for good is destroyed"); }
        if ((mask[k] & 12) == 12) C1(inst[i].open == (depth > 0 && stack[depth - 1] == i), "exactly the current page is open");
    }
}
static void operate(int op, int k) {
    pman_view_t v = 0;
    int navigated = 1, before = depth, want = op != 8;
    void *x = in_bool() ? &extras[in_bool()] : NULL;
    model_arg = in_int(); view = in_int();
    updates = created = 0; new_kind = -1;
    if (op <= 5) {
        pman_page_t p = page(k);
        if (!(op & 1)) x = NULL;
        if (op >= 4) depth = 0;
        if (op == 2 || op == 3) depth = depth ? depth - 1 : 0;
        push_new(k, x);
        v = op == 0 ? pman_change_page(&pm, model_arg, p) : op == 1 ? pman_change_page_extra(&pm, model_arg, p, x) : op == 2 ? pman_swap_page(&pm, model_arg, p)
            : op == 3 ? pman_swap_page_extra(&pm, model_arg, p, x) : op == 4 ? pman_rebase_page(&pm, model_arg, p) : pman_rebase_page_extra(&pm, model_arg, p, x);
        C1(created == (mask[k] & 1), "a new page is created once");
    } else if (op == 6) {
        if (!depth) return;
        navigated = depth > 1;
        if (depth > 1) depth--;
        v = pman_back(&pm, model_arg);
        if (!navigated) REACH("back on the last page");
    } else if (op == 7) {
        int id = in_int();
        uint8_t found = in_u8();
        depth = depth ? depth - 1 : 0;
        while (depth && ids[inst[stack[depth - 1]].kind] != id) depth--;
        v = pman_reset_to_page(&pm, model_arg, id, &found);
        C2(found == (depth > 0), "resetting says whether the page was found");
        if (depth && before > 2 && depth < before - 1) REACH("several pages dropped");
        navigated = depth > 0;
    } else {
        if (!depth) return;
        v = pman_page_update(&pm, model_arg);
    }
    int top = depth ? inst[stack[depth - 1]].kind : 0;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    int expected = navigated && depth && (mask[top] & 16);
#else
    int expected = 0;
#endif
    C3(updates == expected, "the current page is updated once after navigation or on request, and no other");
    C3(v == (expected ? view : PMAN_VIEW_NULL), "the view of the update is returned");
    check_state();
    if (depth) {
        event_arg = in_int(); answer = in_int(); model_arg = in_int(); events = updates = 0;
        pman_message_t a = pman_process_page_event(&pm, model_arg, event_arg);
        C2(events == 1, "the current page is there");
        C3(events == 1 && updates == 0, "an event goes to one handler");
        C3(a == answer, "the answer of the handler is returned");
    }
    (void)want;
}
void vh_navigate(void) {
    mask[0] = P(1); mask[1] = P(2); ids[0] = in_int(); ids[1] = in_int();
    memset(&pm, 0xA5, sizeof pm);
    pman_init(&pm);
    int ops = P(0), kinds = P(3);
    for (int i = 0; i < STEPS; i++) { operate(ops % 10, kinds & 1); ops /= 10; kinds >>= 1; }
    REACH("end");
}
/* a tall stack: P(0) pages are shown one after the other; then (P(1) 0) back to the first one step by step, (1) a reset to
 * the page with the id P(2), (2) everything is replaced */
#ifdef TALL
static int t_top, t_gone, t_opened;
static pman_page_data_t t_create(pman_model_t m, void *x) { (void)m; (void)x; return 1000 + t_top; }
static void t_destroy(pman_page_data_t d, void *x) { (void)x; t_gone++; C1(d == 1000 + t_top - (t_gone - 1), "the pages leave from the top"); }
static void t_open(pman_model_t m, pman_page_data_t d) { (void)m; t_opened = d; }
static void t_close(pman_page_data_t d) { C1(d == t_opened, "only the open page is closed, with its data"); }
static pman_message_t t_event(int m, pman_page_data_t d, pman_event_t e) { (void)m; events++; answer = d; event_arg = e; return 5; }
static int t_shown(void) { events = 0; pman_process_page_event(&pm, 0, 7); return events == 1 ? answer : -1; }
void vh_tall(void) {
    static pman_page_t p;
    int n = P(0);
    p.create = t_create; p.destroy = t_destroy; p.open = t_open; p.close = t_close; p.process_event = t_event;
    pman_init(&pm);
    for (t_top = 0; t_top < n; t_top++) { p.id = t_top * 3 + 1; pman_change_page(&pm, 0, p); C1(t_opened == 1000 + t_top && !t_gone, "the new page is open, no page leaves"); }
    t_top--;
    C2(t_shown() == 1000 + n - 1, "the current page is the one on top of the stack, with its data");
    if (P(1) == 0) {
        for (int i = n - 2; i >= 0; i--) {
            pman_back(&pm, 0);
            if (i % 16 == 0 || i > n - 3 || i < 2) C2(t_shown() == 1000 + i, "the current page is the one on top of the stack, with its data");
            C1(t_gone == n - 1 - i && t_opened == 1000 + i, "one page leaves, the one below is open");
        }
    } else if (P(1) == 1) {
        uint8_t found = in_u8();
        pman_reset_to_page(&pm, 0, P(2) * 3 + 1, &found);
        C2(found == 1, "resetting says whether the page was found");
        C2(t_shown() == 1000 + P(2), "the current page is the one on top of the stack, with its data");
        C1(t_gone == n - 1 - P(2), "all pages above are destroyed");
    } else {
        int keep = t_top;
        p.create = NULL; p.id = in_int();
        pman_rebase_page(&pm, 0, p);
        C1(t_gone == keep + 1, "all pages are destroyed");
        C2(t_shown() == PMAN_DATA_NULL, "the current page is the one on top of the stack, with its data");
    }
    REACH("end");
}
#endif
