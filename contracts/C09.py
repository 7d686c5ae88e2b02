OPS = ['embc_list_add_head', 'embc_list_add_tail', 'embc_list_insert_before', 'embc_list_insert_after', 'embc_list_remove', 'embc_list_initialize']
PROOFS = [P(f[10:], 'c09_p.c', 'h_edit', [f], unwind=8, defs=['OP=%d' % i], replay=True) for i, f in enumerate(OPS)] + [
    P('ends', 'c09_p.c', 'h_ends', ['embc_list_is_empty', 'embc_list_peek_head', 'embc_list_peek_tail', 'embc_list_remove_head', 'embc_list_remove_tail'], unwind=8, replay=True),
    P('append', 'c09_p.c', 'h_append', ['embc_list_append'], unwind=8, replay=True),
    P('queries', 'c09_p.c', 'h_queries', ['embc_list_length', 'embc_list_index_of', 'embc_list_index', 'embc_list_contains'], unwind=8, replay=True,
      bounded='lists of at most 5 items'),
] + [P('iterate_%s' % n, 'c09_p.c', 'h_iterate', [f], unwind=8, defs=['DIR=%d' % i, 'NN=5'], replay=True, bounded='lists of at most 4 items')
     for i, (n, f) in enumerate([('unsafe', 'embc_list_foreach_unsafe'), ('reverse_unsafe', 'embc_list_foreach_reverse_unsafe'), ('safe', 'embc_list_foreach'), ('reverse', 'embc_list_foreach_reverse')])] + [
    P('entry', 'c09_p.c', 'h_entry', ['embc_list_entry'], replay=True),
]
BOUNDED = [B('list_histories', 'c09_b.c', 'b_list', ['src/collections/list.c'])]
EXPLAIN = ('Every O(1) operation over every well-formed state of six nodes (any partition into circular lists): each touches at most five nodes, so the sixth, '
           'arbitrary, untouched node stands for any number of others. Traversals by complete unwinding over lists of at most 5 items, longer ones natively.')
ASSUMPTIONS = ['an item is not inserted relative to itself, and a list is not appended to itself', 'iteration bodies remove at most the current item']
