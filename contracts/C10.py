F = 'src/collections/intmap.c'
INV = ' __CPROVER_loop_invariant(CHAIN_INV%s) __CPROVER_decreases(g_n - g_i)'
G = W(F, 'embc_intmap_get', 0, '__CPROVER_assigns(item, g_i)' + INV % '', '{ CHAIN_STEP() }')
PL = W(F, 'embc_intmap_put', 0, '__CPROVER_assigns(item, previous, g_i)' + INV % ' && previous == LINK(g_i)', '{ CHAIN_STEP_P() }', after='{ CHAIN_END_P() }')
RM = W(F, 'embc_intmap_remove', 0, '__CPROVER_assigns(item, previous, g_i)' + INV % ' && previous == LINK(g_i)', '{ CHAIN_STEP_P() }')
PROOFS = [
    P('get_any_length', 'c10_u.c', 'h_get', ['embc_intmap_get', 'compute_bin'], weave=[G], loops=True),
    P('put_any_length', 'c10_u.c', 'h_put', ['embc_intmap_put'], weave=[PL], loops=True, nobody=['resize']),
    P('remove_any_length', 'c10_u.c', 'h_remove', ['embc_intmap_remove'], weave=[RM], loops=True, pre_unwind=['embc_intmap_remove.0:2']),
    P('get', 'c10_p.c', 'h_get', ['embc_intmap_get', 'embc_intmap_length'], unwind=6, bounded='chains of at most 3 entries'),
    P('put', 'c10_p.c', 'h_put', ['embc_intmap_put'], unwind=6, bounded='chains of at most 3 entries'),
    P('put_resize', 'c10_p.c', 'h_put', ['embc_intmap_put', 'resize'], unwind=10, defs=['MASK=1', 'K=4'], bounded='4 entries in 2 bins, any keys'),
    P('remove', 'c10_p.c', 'h_remove', ['embc_intmap_remove'], unwind=6, bounded='chains of at most 3 entries'),
    P('free', 'c10_p.c', 'h_free', ['embc_intmap_free', 'embc_intmap_new'], unwind=10, bounded='at most 3 entries'),
] + [P('iterate_%s' % s, 'c10_p.c', 'h_iter', ['embc_intmap_iterator_new', 'embc_intmap_iterator_next', 'embc_intmap_iterator_free', 'itermap_iterator_next_advance'],
      unwind=6, defs=['MASK=1', 'ITOP=%d' % i], bounded='at most 3 entries in 2 bins, any keys') for i, s in enumerate(['plain', 'remove', 'put'])] + [
    P('null', 'c10_p.c', 'h_null', ['embc_intmap_*'], unwind=6),
]
BOUNDED = [B('intmap_histories', 'c10_b.c', 'b_intmap', ['src/collections/intmap.c'])]
EXPLAIN = ('Lookup, insertion and removal are proved for maps with any number of bins and chains of any length: loop invariants follow the chain, one arbitrary iteration and one arbitrary earlier node stand for all; '
           'the entry found is the one with the key, it alone is replaced, unlinked or released, and a new entry goes to the end of its chain only when no entry has the key. '
           'Rehashing, iteration and destruction are decided by complete unwinding over every well-formed map up to the stated size, observed through the lookup of an arbitrary key with the allocator balance; longer ones natively.')
ASSUMPTIONS = ['in the any-length groups a node other than the four around the arbitrary iteration is represented by one object that the iteration must not touch (chains are acyclic: a node belongs to one position)', 'the allocator succeeds (failure is fatal by contract, see C31)', 'a map is not destroyed while an iterator is active']
