F = 'src/collections/hashmap.c'
INV = ' __CPROVER_loop_invariant(CHAIN_INV%s) __CPROVER_decreases(g_n - g_i)'
G = W(F, 'embc_hashmap_get', 0, '__CPROVER_assigns(item, g_i)' + INV % '', '{ CHAIN_STEP() }')
PL = W(F, 'embc_hashmap_put', 0, '__CPROVER_assigns(item, previous, g_i)' + INV % ' && previous == LINK(g_i)', '{ CHAIN_STEP_P() }', after='{ CHAIN_END_P() }')
BD = 'chains of at most 3 entries'
PROOFS = [
    P('get_any_chain', 'c11_u.c', 'h_get', ['embc_hashmap_get'], weave=[G], loops=True),
    P('put_any_chain', 'c11_u.c', 'h_put', ['embc_hashmap_put'], weave=[PL], loops=True),
    P('get', 'c11_p.c', 'h_get', ['embc_hashmap_get', 'embc_hashmap_length'], unwind=10, bounded=BD),
    P('put', 'c11_p.c', 'h_put', ['embc_hashmap_put'], unwind=10, bounded=BD),
    P('free', 'c11_p.c', 'h_free', ['embc_hashmap_free', 'embc_hashmap_new'], unwind=10, bounded=BD),
    P('null', 'c11_p.c', 'h_null', ['embc_hashmap_get', 'embc_hashmap_put'], unwind=10),
]
BOUNDED = [B('hashmap_histories', 'c11_b.c', 'b_hashmap', ['src/collections/hashmap.c'])]
EXPLAIN = ('Lookup and insertion are proved for maps with any number of bins and chains of any length over abstract keys (any equality, equal keys have equal hashes): loop invariants follow the chain, one arbitrary iteration and one arbitrary earlier node stand for all. '
           'Destruction, and once more all operations against a reference map, by complete unwinding over every well-formed map up to 3 entries; longer ones natively.')
ASSUMPTIONS = ['in the any-length groups a node other than the four around the arbitrary iteration is represented by one object that the iteration must not touch (chains are acyclic: a node belongs to one position)', 'keys do not change while stored', 'the allocator succeeds (failure is fatal by contract, see C31)', 'embc_hashmap_remove and the iterator are declared but not implemented in this tree, so they are out of scope']
