S = 'c26_p.c'
ST = {'full': ('ST_FULL', range(-3, 3)), 'second_missing': ('ST_A', range(-3, 1)), 'second_missing_third_pending': ('ST_A3', range(-3, 1)), 'third_missing': ('ST_B', range(-3, 0)), 'third_missing_fourth_pending': ('ST_B4', range(-3, 0)), 'two_missing': ('ST_C', range(-3, 0))}
FN = ['rx_hook_fn', 'rx_insert', 'rx_complete', 'rx_complete_queued', 'rx_complete_queued_or_set_timeout', 'rx_timeout_set', 'timer_schedule', 'timer_start', 'timer_cancel', 'send_frame_ack', 'embc_framer_construct_ack_from_header', 'embc_framer_construct_ack']
K = dict(unwind=18, flags=['--max-field-sensitivity-array-size', '256', '--object-bits', '12'], nobody=['embc_framer_initialize', 'embc_framer_register_rx_hook', 'embc_framer_register_port_callbacks'])
PROOFS = [P('data_%s_%s%d' % (k, 'm' if d < 0 else 'p', abs(d)), S, 'h_data', FN, defs=['STATE=%s' % st, 'D=(%d)' % d], **K) for k, (st, ds) in ST.items() for d in ds]
PROOFS += [P('resync_%s' % k, S, 'h_resync', ['rx_hook_fn', 'rx_purge_queued'], defs=['STATE=%s' % st, 'D=0'], **K) for k, (st, ds) in ST.items()]
PROOFS += [P('timeout_%s' % k, S, 'h_rx_timeout', ['timer_callback', 'rx_complete_queued'], defs=['STATE=%s' % st, 'D=0'], **K) for k, (st, ds) in ST.items() if st != 'ST_FULL']
PROOFS += [P('invalid_port', S, 'h_port', ['rx_hook_fn'], unwindset=['h_port.0:242'], defs=['STATE=ST_C', 'D=0'], **K), P('port', S, 'h_deliver', ['rx_complete'], **K)]
BOUNDED = [B('histories', 'c26_b.c', 'b_history', ['src/stream/framer.c', 'src/memory/buffer.c', 'src/collections/list.c', 'src/crc.c'])]
EXPLAIN = ('Frames are numbered without wrapping. A peer that keeps at most three frames unacknowledged can leave a receiver only in one of six window states (which of the last four frames arrived, which of them are held back); for each of them, every frame such a peer can send next (loss, repetition and reordering choose among them) and all sixteen identifiers, '
           'with any payload, the frame is added exactly when new, everything deliverable is delivered to its port once in transmit order, what is held back has a timeout running, the acknowledgement names the frame and tells which neighbours arrived, and the result is again one of the six states; by induction this covers histories of every length. '
           'A link reset by the peer starts from the first state; a reception timeout delivers what is held back, in order.')
ASSUMPTIONS = ['only frames that validate reach this level (C24, C25); lists and buffers satisfy their specification (C09, C05)', 'the history starts with a link reset by the peer; the peer keeps to the window and reception does not time out', 'the ports used in the window groups follow from the identifier and port 0 carries one kind of message; every port is delivered to in its own group', 'checksums are uninterpreted (C01)']
