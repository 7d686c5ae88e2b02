PROOFS = [
    P('index', 'c05_p.c', 'h_index', ['size_to_index_'], unwind=13),
] + [P('alloc_class%d' % i, 'c05_p.c', 'h_alloc', ['embc_buffer_alloc', 'embc_buffer_alloc_unsafe', 'alloc_'], unwind=13, defs=['IDX=%d' % i],
       replace=['size_to_index_']) for i in range(11)] + [
    P('alloc_refused', 'c05_p.c', 'h_alloc_refused', ['embc_buffer_alloc', 'embc_buffer_alloc_unsafe'], unwind=13),
    P('free', 'c05_p.c', 'h_free', ['embc_buffer_free', 'embc_buffer_free_'], unwind=13),
    P('free_foreign', 'c05_p.c', 'h_free_foreign', ['embc_buffer_free_'], unwind=13),
] + [P('initialize_%s' % n, 'c05_p.c', 'h_init', ['embc_buffer_allocator_initialize', 'embc_buffer_allocator_instance_size'], unwind=12,
       defs=['SIZES=' + z], bounded='configuration {%s} only' % z) for n, z in [('a', '2,1'), ('b', '0,2,1'), ('c', '0,1')]
]
BOUNDED = [B('allocator_histories', 'c05_b.c', 'b_alloc', ['src/memory/buffer.c'])]
EXPLAIN = ('Allocation and release as single-step triples on an arbitrary circular free list (local frame: head, first two, last and one inner element); '
           'with the list lemma (removing the head of a circular list removes exactly one element) no buffer is ever handed out twice.')
ASSUMPTIONS = ['at most 11 size classes (capacity is a 16-bit field; the interface documents 8)', 'callers free each buffer once']
