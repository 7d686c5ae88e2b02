F = 'src/event_manager.c'
LI = '__CPROVER_assigns(node, next__, %s, g_i) __CPROVER_loop_invariant(LIST_INV) __CPROVER_decreases(g_n - g_i)'
SC = W(F, 'embc_evm_schedule', 0, LI % 'ev_next', '{ LIST_STEP() }', after='{ LIST_END() }')
CA = W(F, 'embc_evm_cancel', 0, LI % 'ev', '{ LIST_STEP() }', after='{ LIST_END() }')
PR = W(F, 'embc_evm_process', 0, '__CPROVER_assigns(node, ev, count, g_calls, g_run, evm, EA, EB, EN, ST, SP, vp_nd_rec) __CPROVER_loop_invariant(PROC_INV)', '{ PROC_STEP() }')
UNB = [
    P('schedule_any_length', 'c18_u.c', 'h_schedule', ['embc_evm_schedule', 'embc_list_insert_before', 'embc_list_add_tail', 'embc_list_remove_head'], weave=[SC], loops=True),
    P('cancel_any_length', 'c18_u.c', 'h_cancel', ['embc_evm_cancel', 'embc_list_remove', 'embc_list_add_tail'], weave=[CA], loops=True),
    P('process_any_length', 'c18_u.c', 'h_process', ['embc_evm_process', 'embc_list_peek_head', 'embc_list_remove', 'embc_list_add_tail'], weave=[PR], loops=True),
]
S = 'c18_p.c'
BD = 'at most 3 pending events and one recycled record'
PROOFS = UNB + [P('handle_%d_%d' % (n, f), S, 'h_schedule', ['embc_evm_schedule'], unwind=9, replay=True, defs=['NP=%d' % n, 'NF=%d' % f, 'OP=0'], bounded=BD) for n in (0, 1, 2, 3) for f in (0, 1)] + [
    P('cancel_%d' % n, S, 'h_cancel', ['embc_evm_cancel'], unwind=9, replay=True, defs=['NP=%d' % n, 'OP=0'], bounded=BD) for n in (0, 1, 2, 3)] + [
    P('cancel_in_callback_%d' % n, S, 'h_process', ['embc_evm_process', 'embc_evm_cancel'], unwind=9, replay=True, defs=['NP=%d' % n, 'OP=%d' % o], bounded=BD + ', one reentrant operation',
      flags=['--unwindset', 'embc_evm_process.0:%d,embc_evm_cancel.0:%d' % (n + 2, n + 2)]) for n, o in ((1, 2), (1, 3))] + [
    P('wrap_%d' % n, S, 'h_wrap', ['embc_evm_schedule'], unwind=9, replay=True, defs=['NP=%d' % n, 'OP=0'], bounded=BD) for n in (0, 1)]
BOUNDED = [B('event_histories', 'c18_b.c', 'b_evm', ['src/event_manager.c', 'src/collections/list.c'])]
EXPLAIN = ('For queues of any length: a new handle is positive and larger than every handle given before; cancelling recycles exactly the record with the handle, or changes nothing; a processed event leaves the queue before it runs, so its handle is stale from then on, and its record is not reused while it runs (loop invariants over one arbitrary iteration and one arbitrary earlier record). '
           'The same against a reference queue by complete unwinding up to the stated size; long histories with stale handles natively.')
ASSUMPTIONS = ['in the any-length groups the records that the arbitrary iteration does not reach are represented by one object that it must not touch', 'fewer than 2^31 - 1 events are scheduled before a handle value may repeat']
