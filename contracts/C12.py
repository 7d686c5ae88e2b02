F = 'src/collections/strmap.c'
INV = ' __CPROVER_loop_invariant(CHAIN_INV%s) __CPROVER_decreases(g_n - g_i)'
G = W(F, 'embc_strmap_get', 0, '__CPROVER_assigns(item, g_i)' + INV % '', '{ CHAIN_STEP() }')
PL = W(F, 'embc_strmap_put', 0, '__CPROVER_assigns(item, previous, g_i)' + INV % ' && previous == LINK(g_i)', '{ CHAIN_STEP_P() }', after='{ CHAIN_END_P() }')
RM = W(F, 'embc_strmap_remove', 0, '__CPROVER_assigns(item, previous, g_i)' + INV % ' && previous == LINK(g_i)', '{ CHAIN_STEP_P() }')
BD = 'at most 2 entries before the operation, strings of at most 2 characters (any bytes)'
HASH = W('src/collections/strmap.c', 'compute_hash', 0, '''__CPROVER_assigns(key, hash, c)
 __CPROVER_loop_invariant(__CPROVER_same_object(key, g_s) && __CPROVER_POINTER_OFFSET(key) >= 0 && __CPROVER_POINTER_OFFSET(key) <= g_L)
 __CPROVER_decreases(g_L - __CPROVER_POINTER_OFFSET(key))''')
PROOFS = [
    P('get_any_chain', 'c12_u.c', 'h_get', ['embc_strmap_get'], weave=[G], loops=True, replace=['compute_hash']),
    P('put_any_chain', 'c12_u.c', 'h_put', ['embc_strmap_put'], weave=[PL], loops=True, replace=['compute_hash']),
    P('remove_any_chain', 'c12_u.c', 'h_remove', ['embc_strmap_remove'], weave=[RM], loops=True, replace=['compute_hash']),
    P('get', 'c12_p.c', 'h_get', ['embc_strmap_get', 'compute_hash', 'is_key_equiv'], unwind=6, bounded=BD),
    P('put', 'c12_p.c', 'h_put', ['embc_strmap_put'], unwind=6, bounded=BD),
    P('remove', 'c12_p.c', 'h_remove', ['embc_strmap_remove'], unwind=6, bounded=BD),
    P('free', 'c12_p.c', 'h_free', ['embc_strmap_free'], unwind=6, bounded=BD),
    P('get_3', 'c12_p.c', 'h_get', ['embc_strmap_get', 'compute_hash', 'is_key_equiv'], unwind=6, defs=['SL=3'], tier='thorough', bounded='strings of at most 3 characters'),
    P('new', 'c12_p.c', 'h_new', ['embc_strmap_new'], unwind=66),
    P('hash_safety', 'c12_p.c', 'h_hash', ['compute_hash'], weave=[HASH], loops=True),
    P('equal_any_length', 'c12_q.c', 'h_equiv', ['is_key_equiv']),
    P('put_any_length', 'c12_q.c', 'h_put_any', ['embc_strmap_put'], replace=['compute_hash'], loops=True, pre_unwind=['h_put_any.0:5', 'embc_strmap_put.0:3']),
    P('get_any_length', 'c12_q.c', 'h_get_any', ['embc_strmap_get', 'is_key_equiv'], replace=['compute_hash'], loops=True, pre_unwind=['h_get_any.0:5', 'embc_strmap_get.0:3']),
]
BOUNDED = [B('strmap_histories', 'c12_b.c', 'b_strmap', ['src/collections/strmap.c'])]
EXPLAIN = ('Lookup, insertion and removal are proved for maps with any number of bins, chains of any length and strings of any length: loop invariants follow the chain, one arbitrary iteration and one arbitrary earlier node stand for all; '
           'equal contents decide equivalence, a new entry keeps a full copy of its key, colliding hashes do not alias (C library string functions through their specification, the hash through a contract). '
           'The hash loop stays inside strings of any length by loop invariant. Destruction, and once more all operations on concrete strings with real hash collisions, by complete unwinding up to the stated size; longer ones natively.')
ASSUMPTIONS = ['in the any-length groups a node other than the four around the arbitrary iteration is represented by one object that the iteration must not touch (chains are acyclic: a node belongs to one position)', 'strings are terminated', 'the allocator succeeds (failure is fatal by contract, see C31)']
