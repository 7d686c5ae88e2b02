/* C20: whole machines with handlers that raise events, compared with a reference machine. */
#include "vp.h"
#include "embc/fsm.h"
#ifndef NT
#define NT 12
#define NS 5
#define MAXEV 400
#define RAISE 300
#endif
#define MAXCALL (8 * MAXEV)
static struct embc_fsm_s fsm; static struct embc_fsm_state_s st[NS]; static struct embc_fsm_transition_s tr[NT]; static int ns, nt;
/* call log of the code, and the outcomes decided at each call */
static struct { int kind, idx, ev, state, ret, nraise; embc_fsm_event_t raise[2]; } lg[MAXCALL]; static int nl, raised, outstanding;
static embc_fsm_state_t called(struct embc_fsm_s * s, int kind, int idx, int ev) {
    ENSURE(s == &fsm, "self"); REQUIRE(nl < MAXCALL);
    int r = 0; if (kind == 0) { uint32_t k = nd_range(0, 9); r = k < 4 ? EMBC_STATE_ANY : k < 7 ? EMBC_STATE_SKIP : k < 8 ? EMBC_STATE_NULL : (int) nd_range(0, ns - 1); } else r = nd_i8();
    lg[nl].kind = kind; lg[nl].idx = idx; lg[nl].ev = ev; lg[nl].state = fsm.state; lg[nl].ret = r; lg[nl].nraise = 0;
    int me = nl++; uint32_t k = nd_range(0, 5); if (k > 2) k = 0;
    while (k-- && raised < RAISE && ((fsm.events.head + 1) & EMBC_FSM_EVENT_FIFO_MASK) != fsm.events.tail) {
        embc_fsm_event_t e = nd_range(0, 4) - 1; if (e < 0) e = EMBC_EVENT_RESET; lg[me].raise[lg[me].nraise++] = e; ++raised; int before = nl, sb = fsm.state;
        if (e == EMBC_EVENT_RESET) embc_fsm_reset(&fsm); else embc_fsm_event(&fsm, e);
        ENSURE(nl == before && fsm.state == sb, "events raised by handlers wait until the current event is done"); }
    return r;
}
#define H(i) static embc_fsm_state_t g##i(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, 0, i, e); } \
    static embc_fsm_state_t x##i(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, 1, i, e); } \
    static embc_fsm_state_t n##i(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, 2, i, e); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11)
static const embc_fsm_handler G[] = {g0, g1, g2, g3, g4, g5, g6, g7, g8, g9, g10, g11}, X[] = {x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11}, E[] = {n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11};
/* reference machine replaying the log */
static int r_state, r_pos; static embc_fsm_event_t rq[MAXCALL]; static int rh, rt;
static int expect(int kind, int idx, int ev) {
    ENSURE(r_pos < nl && lg[r_pos].kind == kind && lg[r_pos].idx == idx && lg[r_pos].ev == ev && lg[r_pos].state == r_state, "the handler the table demands is called next, in the right state");
    for (int i = 0; i < lg[r_pos].nraise; ++i) { rq[rt++] = lg[r_pos].raise[i]; }
    return lg[r_pos++].ret;
}
static void r_event(int ev) {
    for (int i = 0; i < nt; ++i) {
        if ((tr[i].current != r_state && tr[i].current != EMBC_STATE_ANY) || (tr[i].event != ev && tr[i].event != EMBC_EVENT_ANY)) continue;
        int next = tr[i].next;
        if (tr[i].handler) { int k = expect(0, i, ev); if (k == EMBC_STATE_SKIP) continue; if (k == EMBC_STATE_NULL) return; if (k != EMBC_STATE_ANY) next = k; }
        if (next == EMBC_STATE_NULL) return;
        if (r_state >= 0 && st[r_state].on_exit) expect(1, r_state, EMBC_EVENT_EXIT);
        r_state = next; if (st[next].on_enter) expect(2, next, EMBC_EVENT_ENTER);
        return;
    }
}
static void r_run(int ev) { rq[rt++] = ev; while (rh < rt) r_event(rq[rh++]); }
VP_HARNESS(b_fsm) {
    ns = nd_range(1, NS); nt = nd_range(1, NT); nl = raised = 0; r_state = EMBC_STATE_NULL; r_pos = rh = rt = 0;
    for (int i = 0; i < ns; ++i) { st[i].state = i; st[i].name = nd_bool() ? "n" : 0; st[i].on_exit = nd_bool() ? X[i] : 0; st[i].on_enter = nd_bool() ? E[i] : 0; }
    for (int i = 0; i < nt; ++i) {
        tr[i].current = nd_range(0, 2) == 0 ? EMBC_STATE_ANY : (int) nd_range(0, ns - 1); tr[i].event = nd_range(0, 3) == 0 ? EMBC_EVENT_ANY : (int) nd_range(0, 3);
        tr[i].next = nd_range(0, 7) == 0 ? EMBC_STATE_NULL : (int) nd_range(0, ns - 1); tr[i].handler = nd_bool() ? G[i] : 0;
    }
    int z = nd_range(0, nt - 1); tr[z].current = EMBC_STATE_ANY; tr[z].event = EMBC_EVENT_RESET; tr[z].handler = 0; tr[z].next = nd_range(0, ns - 1);
    for (int i = 0; i < z; ++i) { if (tr[i].event == EMBC_EVENT_ANY) tr[i].event = 0; }
    fsm.states = st; fsm.states_count = ns; fsm.transitions = tr; fsm.transitions_count = nt; fsm.name = 0; fsm.event_name_fn = 0; fsm.state = nd_i8();
    embc_fsm_initialize(&fsm); r_run(EMBC_EVENT_RESET); ENSURE(fsm.state == r_state && r_pos == nl, "after reset");
    uint32_t n = nd_range(0, 60);
    while (n-- && rt < MAXEV && nl < MAXEV * 4) { int ev = (int) nd_range(0, 4) - 1; if (ev < 0) { ev = EMBC_EVENT_RESET; embc_fsm_reset(&fsm); } else embc_fsm_event(&fsm, ev); r_run(ev); ENSURE(fsm.state == r_state, "state"); ENSURE(r_pos == nl, "no handler is called in vain"); }
}
VP_MAIN(b_fsm)
