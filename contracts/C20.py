F = 'src/fsm.c'
WH = W(F, 'handle_event', 0, '__CPROVER_assigns(idx, g_i, g_want, g_next, g_pending, g_final, g_entered, g_exited, vp_nd_rec, fsm.state) '
       '__CPROVER_loop_invariant(0 <= idx && idx <= (int64_t) fsm.transitions_count && g_i == idx && !g_final && !g_pending && !g_entered && !g_exited && fsm.state == g_state) '
       '__CPROVER_decreases((int64_t) fsm.transitions_count - idx)', 'SCAN()')
PROOFS = [
    P('scan_%d' % h, 'c20_p.c', 'h_scan', ['embc_fsm_event', 'handle_event', 'transition', 'events_push', 'events_pop', 'events_not_empty'], weave=[WH], loops=True, unwind=129, flags=['--unwindset', 'embc_fsm_event.0:3'], defs=['HEAD=%d' % h]) for h in (0, 7)] + [
    P('initialize', 'c20_p.c', 'h_init', ['embc_fsm_initialize', 'embc_fsm_event', 'handle_event', 'transition'], unwind=129, flags=['--unwindset', 'embc_fsm_event.0:3,handle_event.0:3'], defs=['HEAD=0'], replay=True),
]
BOUNDED = [B('machines', 'c20_b.c', 'b_fsm', ['src/fsm.c'])]
EXPLAIN = ('The specification looks at the transition table in lockstep with the scan loop (loop invariant), for tables of any length and content, any state, event and guard outcome: '
           'guards are asked in table order and only for matching entries, the first one that does not decline decides, exit precedes the state change precedes entry.  Initialization is decided for all state tables. '
           'Whole machines with events raised inside handlers are compared with a reference machine natively.')
ASSUMPTIONS = ['tables name existing states (or the documented special values)', 'at most 7 events are waiting at a time (the queue is documented to assert otherwise)', 'in the scan proof handlers do not raise events; the native harness lets them']
