/* C20: the state machine.  scan: one event, tables of any length (loop contract on the table scan, the specification walks the table in
 * lockstep).  small: several events incl. events raised by handlers, compared with a reference machine (bounded tables). */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#include "embc/fsm.h"
#define MAXS 127
static struct embc_fsm_s fsm; static struct embc_fsm_state_s st[MAXS + 1];
static struct embc_fsm_transition_s const * g_t;
static int64_t g_i; static int g_state, g_next, g_ev; static bool g_want, g_pending, g_final, g_entered, g_exited, g_guards;
static embc_fsm_state_t guard_h(struct embc_fsm_s * self, embc_fsm_event_t event);
#define VALID(s) ((s) == EMBC_STATE_NULL || ((s) >= 0 && (s) < fsm.states_count))
/* specification of one table entry, executed when the scan looks at it */
#define SCAN() { \
    ENSURE(!g_final && !g_pending, "no entry is looked at after the chosen one, and no guard is left out"); \
    __CPROVER_assume((g_t[g_i].handler == NULL || g_t[g_i].handler == guard_h) && VALID(g_t[g_i].next)); \
    g_want = (g_t[g_i].current == g_state || g_t[g_i].current == EMBC_STATE_ANY) && (g_t[g_i].event == g_ev || g_t[g_i].event == EMBC_EVENT_ANY); \
    g_next = g_t[g_i].next; g_pending = g_want && g_t[g_i].handler != NULL; g_final = g_want && !g_pending; ++g_i; }
#include "src/fsm.c"
static embc_fsm_state_t guard_h(struct embc_fsm_s * self, embc_fsm_event_t event) {
    ENSURE(self == &fsm && event == g_ev && fsm.state == g_state, "guard arguments");
    ENSURE(g_pending, "only the guard of a matching entry is called, once"); g_pending = false;
    embc_fsm_state_t r = nd_i8(); REQUIRE(r == EMBC_STATE_ANY || r == EMBC_STATE_SKIP || VALID(r));
    if (r != EMBC_STATE_SKIP) { g_final = true; if (r != EMBC_STATE_ANY) g_next = r; }
    return r;
}
static embc_fsm_state_t exit_h(struct embc_fsm_s * self, embc_fsm_event_t event) {
    ENSURE(self == &fsm && event == EMBC_EVENT_EXIT && fsm.state == g_state && g_final && g_next != EMBC_STATE_NULL && !g_exited && !g_entered, "exit of the old state, first, once"); g_exited = true; return nd_i8();
}
static embc_fsm_state_t enter_h(struct embc_fsm_s * self, embc_fsm_event_t event) {
    ENSURE(self == &fsm && event == EMBC_EVENT_ENTER && fsm.state == g_next && g_final && g_next != EMBC_STATE_NULL && !g_entered, "entry of the new state, last, once");
    ENSURE(g_exited || g_state < 0 || !st[g_state].on_exit, "exit comes before entry"); g_entered = true; return nd_i8();
}
#ifdef VP_CBMC
VP_HARNESS(h_scan) {
    uint32_t n = nd_range(0, 0x7fffffff);
    fsm.states_count = nd_i8(); REQUIRE(fsm.states_count >= 0); fsm.states = st;
    fsm.transitions_count = n; fsm.transitions = g_t = malloc((size_t) n * sizeof(*g_t)); REQUIRE(g_t != 0);
    fsm.state = g_state = nd_i8(); REQUIRE(VALID(fsm.state)); g_ev = nd_i8();
    int a = nd_range(0, MAXS), b = nd_range(0, MAXS);
    for (int i = 0; i <= MAXS; ++i) { st[i].on_enter = nd_bool() ? enter_h : NULL; st[i].on_exit = nd_bool() ? exit_h : NULL; st[i].state = i; st[i].name = "s"; }
    fsm.name = "fsm"; fsm.event_name_fn = NULL; fsm.reentrant = 0; fsm.events.head = fsm.events.tail = HEAD;
    g_i = 0; g_next = EMBC_STATE_NULL; g_want = g_pending = g_final = g_entered = g_exited = false; vp_fatal_expected = 0; (void) a; (void) b;
    embc_fsm_event(&fsm, g_ev);
    ENSURE(!g_pending && (g_final || g_i == n), "all entries up to the first match are looked at, no guard is left out");
    bool move = g_final && g_next != EMBC_STATE_NULL;
    ENSURE(fsm.state == (move ? g_next : g_state), "state after the event");
    ENSURE(g_exited == (move && g_state >= 0 && st[g_state].on_exit), "exit called");
    ENSURE(g_entered == (move && st[g_next].on_enter), "entry called");
    ENSURE(fsm.reentrant == 0 && fsm.events.head == fsm.events.tail, "ready for the next event");
    REACH();
}
#endif
/* initialization: state ids have to match their index */
static struct embc_fsm_transition_s one[1];
VP_HARNESS(h_init) {
    int n = nd_range(1, MAXS), bad = nd_range(0, MAXS); g_state = EMBC_STATE_NULL; g_ev = EMBC_EVENT_RESET; g_final = true; g_pending = g_entered = g_exited = false;
    for (int i = 0; i <= MAXS; ++i) { st[i].state = i; st[i].name = 0; st[i].on_enter = nd_bool() ? enter_h : 0; st[i].on_exit = nd_bool() ? exit_h : 0; }
    if (bad < n) { st[bad].state = nd_i8(); }
    bool ok = bad >= n || st[bad].state == bad;
    fsm.states = st; fsm.states_count = n; fsm.transitions = one; fsm.transitions_count = 1; fsm.name = 0; fsm.event_name_fn = 0; fsm.state = nd_i8(); fsm.reentrant = nd_u8();
    fsm.events.head = nd_u8(); fsm.events.tail = nd_u8();
    one[0].current = nd_bool() ? EMBC_STATE_ANY : EMBC_STATE_NULL; one[0].event = nd_bool() ? EMBC_EVENT_ANY : EMBC_EVENT_RESET; one[0].handler = 0; one[0].next = g_next = nd_range(0, MAXS - 1); REQUIRE(g_next < n);
    if (!ok) EXPECT_FATAL();
    embc_fsm_initialize(&fsm);
    if (!ok) MUST_NOT_RETURN("a state table whose ids do not match is refused");
    ENSURE(fsm.state == g_next && !g_exited && g_entered == (st[g_next].on_enter != 0), "reset enters the initial state");
    ENSURE(fsm.reentrant == 0 && fsm.events.head == fsm.events.tail && fsm.name != 0, "ready"); REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
