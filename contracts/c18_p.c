/* C18, C19: the event manager.  Arbitrary well-formed states (NP pending events ordered by time, distinct handles, NF recycled
 * records) and one operation, compared with an ordered reference queue. */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#include "src/collections/list.c"
#include "src/event_manager.c"
#ifndef NP
#define NP 3
#endif
#ifndef NF
#define NF 1
#endif
#define M (NP + 4)
static struct embc_evm_s evm; static struct event_s pend[NP + 1], spare[NF + 1];
static int64_t q_ts[M]; static int32_t q_id[M]; static void * q_user[M]; static int q_n;   /* reference queue */
static char user[M]; static int g_calls; static int64_t g_now; static int g_op; static int64_t g_ts; static int32_t g_id, g_new;
static void cbk(void * u, int32_t id);
static void setup(void) {
    evm.event_counter = nd_i32(); REQUIRE(evm.event_counter >= NP && evm.event_counter < INT32_MAX);
    embc_list_initialize(&evm.events_pending); embc_list_initialize(&evm.events_free);
    q_n = NP; g_calls = 0;
    for (int i = 0; i < NP; ++i) {
        struct event_s * e = &pend[i];
        e->event_id = q_id[i] = nd_i32(); e->timestamp = q_ts[i] = nd_i64(); e->cbk_fn = cbk; e->cbk_user_data = q_user[i] = &user[i];
        REQUIRE(q_id[i] > 0 && q_id[i] <= evm.event_counter && q_ts[i] > 0 && (i == 0 || q_ts[i - 1] <= q_ts[i]));
        for (int k = 0; k < i; ++k) REQUIRE(q_id[k] != q_id[i]);
        e->node.prev = i ? &pend[i - 1].node : &evm.events_pending; e->node.next = i < NP - 1 ? &pend[i + 1].node : &evm.events_pending;
    }
    for (int i = 0; i < NF; ++i) { spare[i].event_id = nd_i32(); REQUIRE(spare[i].event_id >= 0 && spare[i].event_id <= evm.event_counter); for (int k = 0; k < NP; ++k) REQUIRE(spare[i].event_id != q_id[k]); spare[i].timestamp = nd_i64(); spare[i].cbk_fn = 0; spare[i].cbk_user_data = 0;
        spare[i].node.prev = i ? &spare[i - 1].node : &evm.events_free; spare[i].node.next = i < NF - 1 ? &spare[i + 1].node : &evm.events_free; }
    if (NP) { evm.events_pending.next = &pend[0].node; evm.events_pending.prev = &pend[NP - 1 < 0 ? 0 : NP - 1].node; }
    if (NF) { evm.events_free.next = &spare[0].node; evm.events_free.prev = &spare[NF - 1 < 0 ? 0 : NF - 1].node; }
}
static void q_add(int64_t ts, int32_t id, void * u) {
    int k = q_n; for (int i = 0; i < M - 1; ++i) { if (k == 0 || q_ts[k - 1] <= ts) break; q_ts[k] = q_ts[k - 1]; q_id[k] = q_id[k - 1]; q_user[k] = q_user[k - 1]; --k; }
    q_ts[k] = ts; q_id[k] = id; q_user[k] = u; ++q_n;
}
static void q_del(int at) { for (int i = 0; i < M - 1; ++i) { if (i >= at) { q_ts[i] = q_ts[i + 1]; q_id[i] = q_id[i + 1]; q_user[i] = q_user[i + 1]; } } --q_n; }
static int q_find(int32_t id) { int r = -1; for (int i = 0; i < M; ++i) if (i < q_n && q_id[i] == id) r = i; return r; }
static void * q_ev[M];
static struct event_s * slot(int i) { return i < NP ? &pend[i] : &spare[0]; }
static void same(void) {
#if NF
    /* every record is one of the static ones: compare all links directly */
    struct embc_list_s * head = &evm.events_pending;
    ENSURE(q_n <= NP + 1, "room");
    for (int k = 0; k < NP + 1; ++k) { q_ev[k] = 0; for (int i = 0; i < NP + 1; ++i) if (k < q_n && slot(i)->event_id == q_id[k]) q_ev[k] = slot(i); if (k < q_n) ENSURE(q_ev[k] != 0, "no event lost"); }
    for (int i = 0; i < NP + 1; ++i) {
        struct event_s * e = slot(i); bool in = false; struct embc_list_s * pv = head, * nx = head; int at = -1;
        for (int k = 0; k < NP + 1; ++k) if (k < q_n && q_ev[k] == (void *) e) { in = true; at = k; }
        if (!in) continue;
        if (at > 0) pv = &((struct event_s *) q_ev[at - 1])->node;
        if (at + 1 < q_n) nx = &((struct event_s *) q_ev[at + 1])->node;
        ENSURE(e->node.next == nx && e->node.prev == pv, "pending events in time order, equal times in scheduling order; none lost, none added");
        ENSURE(e->event_id == q_id[at] && e->timestamp == q_ts[at] && e->cbk_user_data == q_user[at] && e->cbk_fn == cbk, "event unchanged");
    }
    if (q_n == 0) ENSURE(head->next == head && head->prev == head, "empty");
    else ENSURE(head->next == &((struct event_s *) q_ev[0])->node && head->prev == &((struct event_s *) q_ev[q_n - 1])->node, "head of the list");
#else
    struct embc_list_s * n = evm.events_pending.next, * p = &evm.events_pending;
    for (int i = 0; i < M; ++i) {
        if (i >= q_n) break;
        ENSURE(n != &evm.events_pending, "no event lost"); struct event_s * e = EVGET(n);
        ENSURE(e->event_id == q_id[i] && e->timestamp == q_ts[i] && e->cbk_user_data == q_user[i] && e->cbk_fn == cbk, "pending events in time order, equal times in scheduling order");
        ENSURE(n->prev == p, "list well formed"); p = n; n = n->next;
    }
    ENSURE(n == &evm.events_pending && n->prev == p, "no event added");
#endif
    int64_t t = nd_i64(); REQUIRE(t >= 0);
    ENSURE(embc_evm_time_next(&evm) == (q_n ? q_ts[0] : EMBC_TIME_MIN), "time of the earliest event");
    ENSURE(embc_evm_interval_next(&evm, t) == (q_n == 0 ? -1 : q_ts[0] <= t ? 0 : q_ts[0] - t), "remaining time of the earliest event");
}
static int32_t schedule(int64_t ts, void * u) {
    int32_t c = evm.event_counter, id = embc_evm_schedule(&evm, ts, cbk, u);
    if (ts <= 0) { ENSURE(id == 0, "times that are not positive are ignored"); }
    else if (id) { ENSURE(id > 0 && id > c && q_find(id) < 0, "a new positive handle, larger than all given before"); ENSURE(evm.event_counter >= id, "handles never return"); q_add(ts, id, u); }
    else { ENSURE(NF == 0, "refused only without memory"); }
    return id;
}
static void cancel(int32_t id) { ENSURE(embc_evm_cancel(&evm, id) == 0, "status"); int k = q_find(id); if (k >= 0) q_del(k); }
static void cbk(void * u, int32_t id) {
    ++g_calls;
    ENSURE(q_n > 0 && q_id[0] == id && q_user[0] == u, "the earliest event runs, with its handle and data");
    ENSURE(q_ts[0] <= g_now, "never early");
    q_del(0);
    if (g_op == 1) { g_op = 0; schedule(g_ts, &user[NP]); }
    else if (g_op == 2) { g_op = 0; cancel(g_id); }
    else if (g_op == 3) { g_op = 0; cancel(id); }
}
VP_HARNESS(h_schedule) { setup(); schedule(nd_i64(), &user[NP]); same(); REACH(); }
VP_HARNESS(h_cancel) { setup(); int32_t id = nd_i32(); cancel(id); same(); REACH(); }
VP_HARNESS(h_process) {
    setup(); g_now = nd_i64(); REQUIRE(g_now >= 0); g_op = OP; g_ts = nd_i64(); g_id = nd_i32();
    int r = embc_evm_process(&evm, g_now);
    ENSURE(r == g_calls, "number of events processed");
    ENSURE(q_n == 0 || q_ts[0] > g_now, "every due event ran");
    same(); REACH();
}
VP_HARNESS(h_wrap) {   /* handles stay positive when the counter is used up */
    setup(); evm.event_counter = nd_i32(); REQUIRE(evm.event_counter >= 0); int64_t ts = nd_i64(); REQUIRE(ts > 0);
    int32_t id = embc_evm_schedule(&evm, ts, cbk, user);
    ENSURE(id > 0 || NF == 0, "positive handle"); REACH();
}
VP_HARNESS(h_life) {
    struct embc_evm_s * e = embc_evm_allocate();
    if (e) {
        ENSURE(embc_evm_time_next(e) == EMBC_TIME_MIN && embc_evm_interval_next(e, nd_i64()) == -1 && embc_evm_process(e, nd_i64()) == 0 && embc_evm_cancel(e, nd_i32()) == 0, "starts empty");
        int32_t a = embc_evm_schedule(e, 1, cbk, user);
        if (nd_bool()) (void) embc_evm_cancel(e, a);
        embc_evm_free(e);
    }
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
