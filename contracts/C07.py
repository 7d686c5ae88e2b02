PROOFS = [
    P('alloc', 'c07_p.c', 'h_alloc', ['embc_object_pool_alloc'], unwind=30),
    P('alloc_empty', 'c07_p.c', 'h_alloc_empty', ['embc_object_pool_alloc'], unwind=30),
    P('incr', 'c07_p.c', 'h_incr', ['embc_object_pool_incr', 'get_obj_header'], unwind=30),
    P('decr', 'c07_p.c', 'h_decr', ['embc_object_pool_decr', 'get_obj_header'], unwind=30),
    P('misuse', 'c07_p.c', 'h_misuse', ['embc_object_pool_incr', 'embc_object_pool_decr', 'embc_object_pool_finalize'], unwind=30),
    P('args', 'c07_p.c', 'h_args', ['embc_object_pool_initialize'], unwind=30, replay=True),
    P('size', 'c07_p.c', 'h_size', ['embc_object_pool_size'], unwind=30, replay=True),
] + [P('initialize_%d_%d' % (c, s), 'c07_p.c', 'h_init', ['embc_object_pool_initialize', 'embc_object_pool_instance_size'], unwind=30, replay=True,
       defs=['COUNT=%d' % c, 'SIZE=%d' % s], bounded='configuration %d objects of %d bytes' % (c, s)) for c, s in [(1, 1), (3, 9), (2, 30)]]
BOUNDED = [B('object_pool_histories', 'c07_b.c', 'b_opool', ['src/memory/object_pool.c'])]
EXPLAIN = ('alloc, incr and decr as single-step triples on an arbitrary free list of any length, any reference count 1..65535, with and without callbacks; '
           'callbacks check that the object is owned while they run. Initialization for listed configurations and random ones natively.')
ASSUMPTIONS = ['callbacks do not release the object they were called for', 'count times element size fits in 31 bits', 'little-endian layout of the status word over the free-list link (as on the build host)']
