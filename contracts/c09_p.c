/* C09: doubly linked circular list.  A universe of NN nodes in an arbitrary well-formed state (any
 * partition into circular lists).  Each operation reads and writes at most five nodes, so one more
 * node than that makes the result independent of how many further nodes exist. */
#include "vp.h"
#include "src/collections/list.c"
#ifndef NN
#define NN 6
#endif
typedef struct embc_list_s l_t;
static l_t node[NN + 2];   /* NN: fresh, initialized but in no list */
static uint8_t nx[NN], pv[NN], ex[NN], ep[NN];
static l_t * N(uint8_t i) { return &node[i]; }
static void setup(void) {
    for (int i = 0; i < NN; ++i) { nx[i] = nd_range(0, NN - 1); pv[i] = nd_range(0, NN - 1); }
    for (int i = 0; i < NN; ++i) REQUIRE(pv[nx[i]] == i);
    for (int i = 0; i < NN; ++i) { REQUIRE(nx[pv[i]] == i); node[i].next = &node[nx[i]]; node[i].prev = &node[pv[i]]; ex[i] = nx[i]; ep[i] = pv[i]; }
}
static void e_remove(uint8_t x) { ex[ep[x]] = ex[x]; ep[ex[x]] = ep[x]; ex[x] = ep[x] = x; }
static void e_after(uint8_t p, uint8_t x) { e_remove(x); uint8_t q = ex[p]; ex[p] = x; ep[x] = p; ex[x] = q; ep[q] = x; }
static void e_before(uint8_t p, uint8_t x) { e_remove(x); uint8_t q = ep[p]; ep[p] = x; ex[x] = p; ep[x] = q; ex[q] = x; }
#define SAME_AS_SPEC(msg) for (int i = 0; i < NN; ++i) ENSURE(node[i].next == &node[ex[i]] && node[i].prev == &node[ep[i]], msg)
#define SETUP() setup(); uint8_t a = nd_range(0, NN - 1), b = nd_range(0, NN - 1)

VP_HARNESS(h_edit) {
    SETUP(); REQUIRE(a != b);
#if OP == 0
    embc_list_add_head(N(a), N(b)); e_after(a, b);
#elif OP == 1
    embc_list_add_tail(N(a), N(b)); e_before(a, b);
#elif OP == 2
    embc_list_insert_before(N(a), N(b)); e_before(a, b);
#elif OP == 3
    embc_list_insert_after(N(a), N(b)); e_after(a, b);
#elif OP == 4
    embc_list_remove(N(a)); e_remove(a);
#elif OP == 5
    embc_list_initialize(N(a)); REQUIRE(nx[a] == a);
#endif
    SAME_AS_SPEC("exactly the documented links change; every list stays circular and complete");
    REACH();
}
VP_HARNESS(h_ends) {
    SETUP();
    ENSURE(embc_list_is_empty(N(a)) == (nx[a] == a), "empty query");
    l_t * h = embc_list_peek_head(N(a)), * t = embc_list_peek_tail(N(a));
    if (nx[a] == a) ENSURE(h == NULL && t == NULL, "an empty list has no ends");
    else ENSURE(h == N(nx[a]) && t == N(pv[a]), "peeking returns the first and last item");
    SAME_AS_SPEC("queries change nothing");
    ENSURE(embc_list_peek_head(NULL) == NULL && embc_list_peek_tail(NULL) == NULL && embc_list_remove_head(NULL) == NULL && embc_list_remove_tail(NULL) == NULL, "a null list has no items");
    bool head = nd_bool();
    l_t * r = head ? embc_list_remove_head(N(a)) : embc_list_remove_tail(N(a));
    if (nx[a] == a) ENSURE(r == NULL, "nothing to remove");
    else { ENSURE(r == (head ? h : t), "the end item is returned"); e_remove(head ? nx[a] : pv[a]); }
    SAME_AS_SPEC("the removed item is unlinked, the rest keeps its order");
    REACH();
}
/* position of b in the list a by the specification; -1 when absent */
static int pos(uint8_t a, uint8_t b) { uint8_t k = nx[a]; int r = -1; for (int i = 0; i < NN; ++i) { if (k == a) break; if (k == b) { r = i; break; } k = nx[k]; } return r; }
VP_HARNESS(h_append) {
    SETUP(); REQUIRE(a != b && pos(a, b) < 0);
    embc_list_append(N(a), N(b));
    if (nx[b] != b) { uint8_t f = nx[b], l = pv[b], t = pv[a]; ex[t] = f; ep[f] = t; ex[l] = a; ep[a] = l; ex[b] = ep[b] = b; }
    SAME_AS_SPEC("all items are moved to the end of the target in order, the source is empty");
    REACH();
}
VP_HARNESS(h_queries) {
    SETUP(); int ps = pos(a, b); int len = 0; { uint8_t k = nx[a]; for (int i = 0; i < NN; ++i) { if (k == a) break; ++len; k = nx[k]; } }
    ENSURE(embc_list_length(N(a)) == len, "the length is the number of items");
    ENSURE(embc_list_index_of(N(a), N(b)) == ps, "index of an item, or -1");
    ENSURE(embc_list_contains(N(a), N(b)) == (ps >= 0), "membership");
    embc_size_t i = (embc_size_t) nd_i64(); l_t * r = embc_list_index(N(a), i);
    if (i < 0 || i >= len) ENSURE(r == NULL, "no item beyond the end");
    else ENSURE(r != NULL && r != N(a) && embc_list_index_of(N(a), r) == i, "the item at that position");
    SAME_AS_SPEC("queries change nothing");
    REACH();
}
/* iteration: visits exactly the sequence; the safe variants allow removing the current item */
VP_HARNESS(h_iterate) {
    SETUP(); uint8_t k; l_t * it; int n = 0; bool rm = nd_bool(), ins = nd_bool();
    uint8_t s[NN]; { k = nx[a]; for (int i = 0; i < NN; ++i) { if (k == a) break; s[n++] = k; k = nx[k]; } }
    int c = 0;
#if DIR == 0
    embc_list_foreach_unsafe(N(a), it) { ENSURE(c < n && it == N(s[c]), "forward order"); ++c; }
#elif DIR == 1
    embc_list_foreach_reverse_unsafe(N(a), it) { ENSURE(c < n && it == N(s[n - 1 - c]), "reverse order"); ++c; }
#elif DIR == 2
    embc_list_foreach(N(a), it) { ENSURE(c < n && it == N(s[c]), "forward order"); if (rm && (c & 1) == ins) { embc_list_remove(it); e_remove(s[c]); } ++c; }
#else
    embc_list_foreach_reverse(N(a), it) { ENSURE(c < n && it == N(s[n - 1 - c]), "reverse order"); if (rm && (c & 1) == ins) { embc_list_remove(it); e_remove(s[n - 1 - c]); } ++c; }
#endif
    ENSURE(c == n, "every item is visited once");
    SAME_AS_SPEC("only removals change the list");
    REACH();
}
struct entry_s { uint32_t v; struct embc_list_s item; uint8_t w; };
VP_HARNESS(h_entry) {
    struct entry_s e; embc_list_initialize(&e.item);
    ENSURE(embc_list_entry(&e.item, struct entry_s, item) == &e && e.item.next == &e.item && e.item.prev == &e.item, "entry of an item; an initialized item is unlinked");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
