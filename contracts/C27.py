S = 'c27_p.c'
K = dict(unwind=18, flags=['--max-field-sensitivity-array-size', '64', '--object-bits', '14'], nobody=['embc_framer_initialize', 'embc_framer_register_rx_hook', 'embc_framer_register_port_callbacks'])
CORE = ['transmit_queued', 'transmit_tx_buf', 'timer_schedule', 'timer_start', 'timer_cancel', 'tx_complete', 'tx_complete_buffer']
FN = {'h_ack': ['rx_hook_fn', 'handle_ack', 'tx_confirmed', 'find_tx', 'tx_complete_in_order'] + CORE, 'h_nack': ['handle_ack', 'find_tx', 'tx_error', 'tx_complete_in_order'] + CORE, 'h_timeout_tx': ['timer_callback', 'tx_error', 'tx_complete_in_order'] + CORE, 'h_returned': ['embc_framer_hal_tx_done'], 'h_send': ['embc_framer_send', 'embc_framer_alloc'] + CORE, 'h_resync': ['embc_framer_resync', 'tx_purge_queued', 'embc_framer_send_payload'] + CORE}
def G(name, h, n, qn, s0=None, s1=None, o=0, **d):
    defs = ['N=%d' % n, 'QN=%d' % qn] + ['%s=%s' % x for x in d.items()] + (['WITH_O'] if o else [])
    if s0 is not None: defs += ['S0=%d' % s0, 'S1=%d' % s1]; name += '_%d' % s0
    return P('%s_%d%s%s' % (name, n, '_gap%d' % d['GAP'] if 'GAP' in d else '', '_o' if o else ''), S, h, FN[h], defs=defs, tier='thorough' if o else 'quick', **K)
PROOFS = []
for h, nm in (('h_timeout_tx', 'timeout'), ('h_ack', 'ack'), ('h_nack', 'nack')):
    PROOFS += [G(nm, h, 3, 1, s, s + 4, o) for o in (0, 1) for s in range(0, 32, 4) if (s < 24 or o)] + [G(nm, h, 2, 0), G(nm, h, 1, 0)]
PROOFS += [G('ack', 'h_ack', 3, 0, 0, 4, GAP=1), G('ack', 'h_ack', 3, 0, 0, 4, GAP=2), G('ack', 'h_ack', 0, 0), G('timeout_q2', 'h_timeout_tx', 3, 2, 0, 2, BASE0=3, BASE1=4)]
PROOFS += [G('send', 'h_send', 3, q, 16 * q, 16 * q + 16, o) for q in (0, 1) for o in (0, 1)] + [G('send', 'h_send', n, 0) for n in (0, 1, 2)]
PROOFS += [G('returned', 'h_returned', 3, 1, s, s + 16, o) for s in (0, 16) for o in (0, 1)] + [G('returned', 'h_returned', n, 0) for n in (1, 2)]
PROOFS += [G('resync', 'h_resync', 3, 2, s, s + 16, o) for s in (0, 16) for o in (0, 1)] + [G('resync', 'h_resync', n, 0) for n in (0, 1, 2)]
PROOFS += [P('retries', S, 'h_retries', ['tx_error'], defs=['N=1', 'QN=0'], **K)]
SRC = ['src/stream/framer.c', 'src/memory/buffer.c', 'src/collections/list.c', 'src/crc.c']
BOUNDED = [B('histories', 'c27_b.c', 'b_history', SRC), B('link', 'c27_b.c', 'b_link', SRC)]
EXPLAIN = ('One event (send, timer, acknowledgement, negative or malformed acknowledgement, buffer returned by the HAL, link reset) on every reachable transmitter state: zero to three active frames, each at the HAL, awaiting acknowledgement, or acknowledged (the oldest never), with frames queued when the window is full, on the real code with arbitrary contents. '
           'After each event: every frame is kept or completed once to its owner; success only when named by an acknowledgement and with nothing before it outstanding, failure only at the sixteenth retry after a timeout or negative acknowledgement; at most three frames outstanding; queued frames first sent in order as soon as the window allows; timed out frames retransmitted (or still at the HAL) with 250 ms more; frames not concerned undisturbed; contents never written; '
           'buffers owned by the HAL once and freed exactly when completed and returned; the timer runs for the earliest timeout. By induction this covers histories of every length.')
ASSUMPTIONS = ['lists and buffers satisfy their specification (C09, C05); checksums are uninterpreted (C01)', 'frame identifiers around the wrap (15, 0, 1) represent the others; retry counts 3, 15 and 16 represent the others, all seventeen in the group retries', 'ports do not call back into the framer inside a completion in the proofs (they do in the native histories)', 'memory is not exhausted', 'frames outstanding span fewer than sixteen identifiers']
