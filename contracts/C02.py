N = ['u8', 'u16_be', 'u16_le', 'u32_be', 'u32_le', 'u64_be', 'u64_le']
PROOFS = [P('%s_%s' % (d, n), 'c02_p.c', 'h_%s_%s' % (d[:3], n), ['embc_bbuf_unsafe_%s_%s' % (d, n)],
            enforce='embc_bbuf_unsafe_%s_%s' % (d, n)) for n in N for d in ('encode', 'decode')] + [
    P('roundtrip', 'c02_p.c', 'h_roundtrip', ['embc_bbuf_unsafe_*', 'EMBC_BBUF_ENCODE_*', 'EMBC_BBUF_DECODE_*'], unwind=12, replay=True)]
BOUNDED = [B('roundtrip', 'c02_p.c', 'h_roundtrip', [], iters=20000, secs=1)]
EXPLAIN = 'Function contracts (dfcc) with frames for each encoder/decoder, and loop-free triples over all values for the macros.'
ASSUMPTIONS = ['the caller provides room for the width, as the interface documents']
