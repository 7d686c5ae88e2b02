S = 'c23_p.c'; N = 'embc_pattern_32a_rx_next'
WJ = W('src/pattern_32a.c', 'resync', 0, '__CPROVER_assigns(delta) __CPROVER_loop_invariant((delta & 0xffff) == g_cd && (delta >> 16) <= g_J && g_J <= 32 && sp_old == g_pe && sp_now == g_ps) __CPROVER_decreases(33 * 65536 - (int64_t) delta)')
PROOFS = [
    P('synchronized', S, 'h_sync', [N], unwind=34, replay=True),
    P('first_word', S, 'h_first', [N], unwind=34, replay=True),
] + [P('pair_%s_%d' % (n, k), S, 'h_pair', [N, 'resync', 'shift_position', 'is_counter_value'], weave=[WJ], loops=True, pre_unwind=['shift_position.0:34', 'pos.0:34'], defs=['STATE=ST_' + n.upper(), 'KIND=%d' % k]) for n in ('unsync2', 'word2') for k in (0, 1, 2)] + [
    P('unique', S, 'h_unique', [N]), P('exists', S, 'h_exists', [N]),
    P('buffer', 'c23_q.c', 'h_buffer', ['embc_pattern_32a_rx_buffer'], replace=[N], loops=True, weave=[W('src/pattern_32a.c', 'embc_pattern_32a_rx_buffer', 0,
      '__CPROVER_assigns(i, g_k, *self) __CPROVER_loop_invariant(i <= sz && g_k == i && sz == g_n) __CPROVER_decreases(sz - i)')]),
    P('initialize', S, 'h_init', ['embc_pattern_32a_rx_initialize'], unwind=34, replay=True),
]
BOUNDED = [B('words', 'c23_b.c', 'b_rx', ['src/pattern_32a.c'])]
EXPLAIN = ('Triples for one received word from every receiver state (every synchronized position, any counts, any word): counted once; the continuation adds nothing; anything else is one error and a resynchronization; '
           'a counter word next to a shift word synchronizes behind it, and the difference of positions is added to missing or duplicate words, the smaller one, exactly. Buffers of any size hand over each word in order (loop invariant).')
ASSUMPTIONS = ['counters do not wrap (64 bit)', 'positions before the first synchronization count from the start of the pattern']
