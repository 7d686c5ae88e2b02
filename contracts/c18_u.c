/* C18, C19: the event queue with any number of pending events and recycled records.
 * schedule, cancel: the pending list is seen through the records one arbitrary loop iteration k reaches (records 0, k-1, k,
 * k+1; EO stands for every other one and is never changed); g_j is an arbitrary record.
 * process: every iteration sees the head of the queue, its successor, the tail of the recycled records; the callback may
 * replace the queue by any other well-formed one. */
#include <stdint.h>
#include <stdbool.h>
#define calloc vp_calloc
#include <stdlib.h>
void * vp_calloc(size_t n, size_t m);
#include "vp.h"
struct embc_evm_s; struct event_s; extern struct embc_evm_s evm; extern struct event_s E0, EM, EC, EN, EO, SP, SQ, ST, ENEW, EA, EB;
#define QH (&evm.events_pending)
#define QF (&evm.events_free)
static intptr_t g_n, g_k, g_i, g_j; static bool g_hj;
#define ADDR(i) ((i) == g_n || (i) < 0 ? QH : (i) == g_k ? &EC.node : (i) == g_k + 1 ? &EN.node : (i) == g_k - 1 ? &EM.node : (i) == 0 ? &E0.node : &EO.node)
#define AFTER(i) ((i) < g_n ? ADDR((i) + 1) : ADDR(0))
#define LIST_INV (0 <= g_i && g_i <= g_n && node == ADDR(g_i) && next__ == AFTER(g_i) && (g_i <= g_j || !g_hj))
#define LIST_STEP() { __CPROVER_assume(g_i == g_k); __CPROVER_assert(node == &EC.node && next__ == AFTER(g_k), "iteration k is at record k"); node = &EC.node; g_i = g_i + 1; }
#define LIST_END() { __CPROVER_assume(g_i < g_n || g_k == g_n); }
static int64_t g_now; static struct event_s * g_run; static int g_calls; static void run(void * u, int32_t id);
#define WF1(E) ((E).node.prev == QH && ((E).node.next == QH ? QH->prev == &(E).node : (E).node.next == &EN.node && EN.node.prev == &(E).node && (QH->prev == &EN.node || QH->prev == &EO.node)) && (E).cbk_fn == run)
#define Q_INV (QH->next == QH ? QH->prev == QH : QH->next == &EA.node ? WF1(EA) : QH->next == &EB.node && WF1(EB))
#define F_INV (QF->prev == QF ? QF->next == QF : QF->prev == &EA.node ? EA.node.next == QF && QH->next != &EA.node : QF->prev == &EB.node ? EB.node.next == QF && QH->next != &EB.node : QF->prev == &ST.node && ST.node.next == QF)
#define PROC_INV (Q_INV && F_INV && count == g_calls && g_calls >= 0 && g_calls < 0x7ffffff0)
#define REST(E) { (E).node.prev = QH; (E).node.next = (E).node.next == QH ? QH : &EN.node; EN.node.prev = &(E).node; QH->prev = (E).node.next == QH ? &(E).node : QH->prev == &EN.node ? &EN.node : &EO.node; (E).cbk_fn = run; }
#define PROC_STEP() { __CPROVER_assume(g_calls < 0x7fffff00); QF->prev = QF->prev == QF ? QF : QF->prev == &EA.node ? &EA.node : QF->prev == &EB.node ? &EB.node : &ST.node; \
    if (QH->next == &EA.node) { g_run = &EA; QH->next = &EA.node; REST(EA) } else { g_run = &EB; QH->next = &EB.node; REST(EB) } } /* restates the invariant */
#include "src/collections/list.c"
#include "src/event_manager.c"
struct embc_evm_s evm; struct event_s E0, EM, EC, EN, EO, SP, SQ, ST, ENEW, EA, EB;
static bool g_oom; static int g_allocs;
void * vp_calloc(size_t n, size_t m) {
    ++g_allocs; ENSURE(n * m == sizeof(struct event_s), "room for an event"); if (g_oom) return 0;
    ENEW.event_id = 0; ENEW.timestamp = 0; ENEW.cbk_fn = 0; ENEW.cbk_user_data = 0; ENEW.node.next = ENEW.node.prev = 0; return &ENEW;
}
static struct event_s ec0, em0, en0; static int32_t c0; static int g_nf; static struct embc_list_s * tail0, * head0;
static void cb(void * u, int32_t id) { (void) u; (void) id; }
static void setup(void) {
    g_n = nd_i64(); g_k = nd_i64(); g_j = nd_i64(); g_i = 0; g_hj = nd_bool(); vp_fatal_expected = 0;
    REQUIRE(0 <= g_n && g_n < (1ll << 56) && 0 <= g_k && g_k <= g_n && 0 <= g_j && g_j < g_n);
    evm.event_counter = c0 = nd_i32(); REQUIRE(c0 >= 0);
    QH->next = ADDR(0); QH->prev = ADDR(g_n - 1);   /* the last record: k - 1 in the iteration that matters (k == n) */
    EM.node.next = ADDR(g_k); EM.node.prev = ADDR(g_k - 2); EC.node.next = ADDR(g_k + 1); EC.node.prev = ADDR(g_k - 1);
    EN.node.next = ADDR(g_k + 2); EN.node.prev = &EC.node; E0.node.next = ADDR(1); E0.node.prev = QH; EO.node.next = EO.node.prev = &EO.node;
    REQUIRE(g_k >= g_n || (EC.timestamp > 0 && EC.event_id > 0));
    /* recycled records: none, one (SP), or more (SP first, ST last) */
    g_nf = nd_range(0, 3);
    QF->next = g_nf ? &SP.node : QF; QF->prev = g_nf == 0 ? QF : g_nf == 1 ? &SP.node : &ST.node;
    SP.node.prev = QF; SP.node.next = g_nf == 1 ? QF : g_nf == 2 ? &ST.node : &SQ.node; ST.node.next = QF; ST.node.prev = g_nf == 2 ? &SP.node : &SQ.node; SQ.node.prev = g_nf == 3 ? &SP.node : &SQ.node; SQ.node.next = &SQ.node;
    g_allocs = 0; g_oom = nd_bool(); ec0 = EC; em0 = EM; en0 = EN; tail0 = QF->prev; head0 = QF->next;
}
#define KEPT(a, b) ((a).event_id == (b).event_id && (a).timestamp == (b).timestamp && (a).cbk_fn == (b).cbk_fn && (a).cbk_user_data == (b).cbk_user_data)
VP_HARNESS(h_schedule) {
    setup(); int64_t ts = nd_i64(); static char u; if (g_j == g_k) g_hj = ts < EC.timestamp;   /* g_hj: record j is later than ts */
    int32_t id = embc_evm_schedule(&evm, ts, cb, &u);
    if (ts <= 0) ENSURE(id == 0 && g_i == 0 && QH->next == ADDR(0) && evm.event_counter == c0 && !g_allocs, "times that are not positive are ignored");
    else if (id == 0) ENSURE(g_nf == 0 && g_oom && QH->next == ADDR(0) && evm.event_counter == c0, "refused only without memory, nothing changes");
    else {
        struct event_s * e = g_nf ? &SP : &ENEW;
        ENSURE(id > 0 && evm.event_counter == id && (c0 == INT32_MAX || id == c0 + 1), "a new positive handle, larger than all given before until the counter is used up");
        ENSURE(e->event_id == id && e->timestamp == ts && e->cbk_fn == cb && e->cbk_user_data == &u, "the event is kept as scheduled");
        ENSURE(g_k == g_n || ts < EC.timestamp, "inserted before an event that is later, or at the end");
        ENSURE(!(g_n > 0 && g_j < g_k && g_hj), "after every event that is not later");
        ENSURE(e->node.prev == ADDR(g_k - 1) && e->node.next == ADDR(g_k) && e->node.prev->next == &e->node && e->node.next->prev == &e->node, "linked between its two neighbours");
        ENSURE(g_k == 0 || QH->next == ADDR(0), "the events before it are kept"); ENSURE(g_k == g_n || (EC.node.next == ADDR(g_k + 1) && KEPT(EC, ec0) && QH->prev == ADDR(g_n - 1)), "the events after it are kept");
        ENSURE(KEPT(EM, em0) && KEPT(EN, en0), "other events unchanged");
        ENSURE(g_nf ? g_allocs == 0 && QF->next == (g_nf == 1 ? QF : g_nf == 2 ? &ST.node : &SQ.node) && QF->next->prev == QF : g_allocs == 1 && QF->next == QF && QF->prev == QF, "one recycled record is used, or one is allocated");
    }
    REACH();
}
VP_HARNESS(h_cancel) {
    setup(); int32_t id = nd_i32(); if (g_j == g_k) g_hj = id == EC.event_id;   /* g_hj: record j has the handle */
    ENSURE(embc_evm_cancel(&evm, id) == 0, "status");
    if (QF->prev != tail0) {
        ENSURE(g_k < g_n && EC.event_id == id && QF->prev == &EC.node && EC.node.next == QF && EC.node.prev == (tail0 == QF ? QF : tail0) && tail0->next == &EC.node, "the record with the handle is recycled");
        ENSURE(QF->next == (g_nf ? head0 : &EC.node), "after the other recycled records");
        ENSURE(ADDR(g_k - 1)->next == ADDR(g_k + 1) && ADDR(g_k + 1)->prev == ADDR(g_k - 1), "it is taken out of the queue");
        ENSURE(g_k == 0 || QH->next == ADDR(0), "the events before it are kept");
    } else ENSURE(!(g_n > 0 && g_hj) && QH->next == ADDR(0) && QF->next == head0, "no event has the handle: nothing changes");
    ENSURE(KEPT(EC, ec0) && KEPT(EM, em0) && KEPT(EN, en0) && evm.event_counter == c0 && !g_allocs, "no event changes"); REACH();
}
/* ---- process */
static void havoc_queue(struct event_s * other) {   /* any well-formed queue: empty, or headed by a record that is not the running one */
    EN.node.next = nd_bool() ? QH : &EN.node; other->timestamp = nd_i64(); other->event_id = nd_i32(); other->cbk_user_data = (void *) (uintptr_t) nd_u64();
    if (nd_bool()) { QH->next = QH->prev = QH; }
    else { QH->next = &other->node; other->node.prev = QH; other->cbk_fn = run; if (nd_bool()) { other->node.next = QH; QH->prev = &other->node; } else { other->node.next = &EN.node; EN.node.prev = &other->node; QH->prev = nd_bool() ? &EN.node : &EO.node; } }
    if (nd_bool()) QF->next = QF->prev = QF; else { QF->prev = &ST.node; ST.node.next = QF; QF->next = &SP.node; SP.node.prev = QF; }
    evm.event_counter = nd_i32();
}
static struct event_s run0; static struct embc_list_s * succ0;
static void run(void * u, int32_t id) {
    ENSURE(g_run != 0 && g_run->timestamp <= g_now, "never early");
    ENSURE(g_run->event_id == id && g_run->cbk_user_data == u, "the earliest event runs, with its handle and data");
    ENSURE(QH->next != &g_run->node && QH->prev != &g_run->node && QH->next->prev == QH && (QH->next == QH || QH->next == &EN.node), "it left the queue before it runs, the others stay");
    ENSURE(QF->prev != &g_run->node, "its record is not reused while it runs");
    ++g_calls; havoc_queue(g_run == &EA ? &EB : &EA);
}
VP_HARNESS(h_process) {
    vp_fatal_expected = 0; g_calls = 0; g_run = 0; g_now = nd_i64(); EN.node.next = EN.node.prev = QH; havoc_queue(&EA);
    int32_t r = embc_evm_process(&evm, g_now);
    ENSURE(r == g_calls, "number of events run");
    ENSURE(QH->next == QH || (QH->next == &EA.node ? EA.timestamp : EB.timestamp) > g_now, "every due event ran"); REACH();
}
