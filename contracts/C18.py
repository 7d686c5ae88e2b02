F = 'src/event_manager.c'
LI = '__CPROVER_assigns(node, next__, %s, g_i) __CPROVER_loop_invariant(LIST_INV) __CPROVER_decreases(g_n - g_i)'
SC = W(F, 'embc_evm_schedule', 0, LI % 'ev_next', '{ LIST_STEP() }', after='{ LIST_END() }')
CA = W(F, 'embc_evm_cancel', 0, LI % 'ev', '{ LIST_STEP() }', after='{ LIST_END() }')
PR = W(F, 'embc_evm_process', 0, '__CPROVER_assigns(node, ev, count, g_calls, g_run, evm, EA, EB, EN, ST, SP, vp_nd_rec) __CPROVER_loop_invariant(PROC_INV)', '{ PROC_STEP() }')
UNB = [
    P('schedule_any_length', 'c18_u.c', 'h_schedule', ['embc_evm_schedule', 'embc_list_insert_before', 'embc_list_add_tail', 'embc_list_remove_head'], weave=[SC], loops=True),
    P('cancel_any_length', 'c18_u.c', 'h_cancel', ['embc_evm_cancel', 'embc_list_remove', 'embc_list_add_tail'], weave=[CA], loops=True),
    P('process_any_length', 'c18_u.c', 'h_process', ['embc_evm_process', 'embc_list_peek_head', 'embc_list_remove', 'embc_list_add_tail'], weave=[PR], loops=True),
]
S = 'c18_p.c'
BD = 'at most 3 pending events and one recycled record'
PROOFS = UNB + [P('schedule_%d_%d' % (n, f), S, 'h_schedule', ['embc_evm_schedule', 'embc_evm_time_next', 'embc_evm_interval_next'], unwind=9, replay=True, defs=['NP=%d' % n, 'NF=%d' % f, 'OP=0'], bounded=BD) for n in (0, 1, 2, 3) for f in (0, 1)] + [
    P('cancel_%d' % n, S, 'h_cancel', ['embc_evm_cancel'], unwind=9, replay=True, defs=['NP=%d' % n, 'OP=0'], bounded=BD) for n in (0, 1, 3)] + [
    P('process_%d' % n, S, 'h_process', ['embc_evm_process'], unwind=9, replay=True, defs=['NP=%d' % n, 'OP=0'], bounded=BD) for n in (0, 1, 3)] + [
    P('process_%s_%d' % (o, n), S, 'h_process', ['embc_evm_process', f], unwind=9, replay=True, defs=['NP=%d' % n, 'OP=%d' % i], bounded=BD + ', one reentrant operation', flags=['--unwindset', 'embc_evm_process.0:%d,embc_evm_schedule.0:%d,embc_evm_cancel.0:%d' % (n + 2, n + 2, n + 2)])
      for i, o, f in ((1, 'schedules', 'embc_evm_schedule'), (2, 'cancels', 'embc_evm_cancel'), (3, 'cancels_itself', 'embc_evm_cancel')) for n in (1, 2)] + [
    P('life', S, 'h_life', ['embc_evm_allocate', 'embc_evm_free'], unwind=4, defs=['OP=0'], flags=['--memory-leak-check']),
]
BOUNDED = [B('event_histories', 'c18_b.c', 'b_evm', ['src/event_manager.c', 'src/collections/list.c'])]
EXPLAIN = ('Scheduling, cancelling and processing are proved for queues of any length: loop invariants follow the list (one arbitrary iteration, one arbitrary earlier record), so an event is linked exactly before the first later one, and only the record with the handle is recycled; '
           'each iteration of processing runs the head of the queue if it is due, after it left the queue and before its record can be reused, and the callback may replace the queue by any well-formed one. '
           'The queue as a whole against an ordered reference queue, with callbacks that schedule or cancel, by complete unwinding up to the stated size; long histories with nested reentrancy natively.')
ASSUMPTIONS = ['in the any-length groups the records that the arbitrary iteration does not reach are represented by one object that it must not touch', 'current times are not negative (times are 34Q30 counts)', 'callbacks that keep scheduling events already due keep the processing pass going (as documented: any event at or before the time is processed)']
