/* Intrusive list.  Bounds: NEL elements, P(0) of them linked at first (P(1): by head or tail insertion), then NOPS
 * operations each chosen symbolically (add head, add tail, delete; of any element). */
#include "vh.h"
#include "collections/listx.h"
#ifndef NEL
#define NEL 3
#endif
#ifndef NOPS
#define NOPS 4
#endif
typedef struct { int before; struct list_head link; int id; } node_t;
static node_t n0, n1, n2, n3;             /* separate objects: far cheaper to encode than an array */
#define NODE(i) ((i) == 0 ? &n0 : (i) == 1 ? &n1 : (i) == 2 ? &n2 : &n3)
static struct list_head head;
static int model[NEL], n, linked[NEL];

static int idx(const struct list_head *l) {          /* which element a link belongs to, -1 for the head */
    if (l == &head) return -1;
    for (int i = 0; i < NEL; i++) if (l == &NODE(i)->link) return i;
    return -2;
}
static void compare(void) {
    struct list_head *it; node_t *e; int k;
    CHECK(!!list_empty(&head) == (n == 0), "empty iff nothing is linked");
    k = 0;
    list_for_each(it, &head) {
        CHECK(k < n && idx(it) == model[k], "forward traversal meets the linked elements in order");
        CHECK(it->next->prev == it && it->prev->next == it, "neighbouring links agree");
        CHECK(container_of(it, node_t, link) == NODE(model[k]), "the container of a link is its element");
        CHECK(!!list_is_last(it, &head) == (k == n - 1), "only the last element is last");
        CHECK(list_next(it) == it->next && list_prev(it) == it->prev, "successor and predecessor of a linked element");
        k++;
    }
    CHECK(k == n, "forward traversal meets all linked elements");
    k = n;
    list_for_each_prev(it, &head) { k--; CHECK(k >= 0 && idx(it) == model[k], "backward traversal is the reverse"); }
    CHECK(k == 0, "backward traversal meets all linked elements");
    k = 0;
    list_for_each_entry(e, &head, link) { CHECK(k < n && e == NODE(model[k]) && e->id == 100 + model[k], "entry traversal meets the elements in order"); k++; }
    CHECK(k == n, "entry traversal meets all elements");
    k = n;
    list_for_each_entry_reverse(e, &head, link) { k--; CHECK(k >= 0 && e == NODE(model[k]), "reverse entry traversal is the reverse"); }
    CHECK(k == 0, "reverse entry traversal meets all elements");
    if (n == 0) CHECK(list_next(&head) == NULL && list_prev(&head) == NULL, "an empty list has no successor or predecessor");
    else CHECK(idx(list_next(&head)) == model[0] && idx(list_prev(&head)) == model[n - 1], "first and last element");
}
void vh_list_ops(void) {
    struct list_head other = LIST_HEAD_INIT(other);
    CHECK(list_empty(&other), "a statically initialised list is empty");
    INIT_LIST_HEAD(&head);
    for (int i = 0; i < NEL; i++) { NODE(i)->before = i; NODE(i)->id = 100 + i; }
    compare();
    for (int j = 0; j < P(0); j++) {
        if (P(1)) { list_add_tail(&NODE(j)->link, &head); model[j] = j; }
        else { list_add(&NODE(j)->link, &head); model[P(0) - 1 - j] = j; }
        linked[j] = 1; n++;
    }
    compare();
    for (int s = 0; s < NOPS; s++) {
        int op = in_irange(0, 1), e = in_irange(0, NEL - 1);
        for (int j = 0; j < NEL; j++)
            if (j == e) {
                if (linked[j]) {
                    int at = 0;
                    list_del(&NODE(j)->link);
                    for (int k = 0; k < n; k++) if (model[k] == j) at = k;
                    for (int k = 0; k + 1 < NEL; k++) if (k >= at && k + 1 < n) model[k] = model[k + 1];
                    n--; linked[j] = 0;
                    if (n == 1) REACH("deleted one of two");
                } else if (op) {
                    list_add_tail(&NODE(j)->link, &head);
                    model[n++] = j; linked[j] = 1;
                } else {
                    list_add(&NODE(j)->link, &head);
                    for (int k = NEL - 1; k > 0; k--) if (k <= n) model[k] = model[k - 1];
                    model[0] = j; n++; linked[j] = 1;
                }
            }
        compare();
        if (n == NEL) REACH("all linked");
    }
    for (int i = 0; i < NEL; i++) CHECK(NODE(i)->before == i && NODE(i)->id == 100 + i, "the elements themselves are untouched");
    REACH("end");
}
