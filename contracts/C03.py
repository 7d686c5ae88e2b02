T = ['u8', 'u16_le', 'u16_be', 'u32_le', 'u32_be', 'u64_le', 'u64_be']
PROOFS = []
for t in T:
    for d in ('write', 'read'):
        PROOFS += [P('%s_%s' % (d, t), 'c03_p.c', 'h_%s_%s' % (d, t), ['embc_buffer_%s_%s' % (d, t)], unwind=10),
                   P('%s_%s_refused' % (d, t), 'c03_p.c', 'h_%s_%s_refused' % (d, t), ['embc_buffer_%s_%s' % (d, t)], unwind=10)]
for h, f in [('write', 'embc_buffer_write'), ('write_refused', 'embc_buffer_write'), ('read', 'embc_buffer_read'), ('read_refused', 'embc_buffer_read'),
             ('cursor_set', 'embc_buffer_cursor_set'), ('cursor_set_refused', 'embc_buffer_cursor_set'), ('queries', 'embc_buffer_*_remaining'),
             ('reset_clear', 'embc_buffer_reset')]:
    PROOFS.append(P(h, 'c03_p.c', 'h_' + h, [f] + (['embc_buffer_clear'] if h == 'reset_clear' else []), unwind=10))
BOUNDED = [B('buffer_histories', 'c03_b.c', 'b_buffer', ['src/memory/buffer.c'])]
EXPLAIN = 'Triples over an arbitrary well-formed buffer of any capacity 0..65535 with arbitrary contents; one arbitrary byte index stands for all of them.'
ASSUMPTIONS = ['the buffer is well formed on entry: cursor <= length <= capacity, reserve <= capacity (every operation proved to keep it)',
               'memcpy/memset behave as in C (CBMC library model)', 'source and destination memory do not overlap the buffer']
