PROOFS = [
    P('alloc', 'c06_p.c', 'h_alloc', ['embc_pool_alloc', 'embc_pool_alloc_unsafe', 'embc_pool_is_empty'], unwind=30),
    P('alloc_empty', 'c06_p.c', 'h_alloc_empty', ['embc_pool_alloc'], unwind=30),
    P('free', 'c06_p.c', 'h_free', ['embc_pool_free'], unwind=30),
    P('misuse', 'c06_p.c', 'h_misuse', ['embc_pool_*'], unwind=30),
    P('size', 'c06_p.c', 'h_size', ['embc_pool_size'], unwind=30),
] + [P('initialize_%d_%d' % (c, s), 'c06_p.c', 'h_init', ['embc_pool_initialize', 'embc_pool_instance_size'], unwind=30, replay=True,
       defs=['COUNT=%d' % c, 'SIZE=%d' % s], bounded='configuration %d blocks of %d bytes' % (c, s)) for c, s in [(1, 1), (3, 9), (4, 8), (2, 30)]]
BOUNDED = [B('pool_histories', 'c06_b.c', 'b_pool', ['src/memory/pool.c'])]
EXPLAIN = 'alloc and free as single-step triples on an arbitrary free list of any length; the announced size for every configuration; initialization for listed configurations and random ones natively.'
ASSUMPTIONS = ['a block is freed once, by its owner', 'count times element size fits in 31 bits']
