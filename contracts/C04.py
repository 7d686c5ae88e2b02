F = 'src/memory/buffer.c'
ER = W(F, 'embc_buffer_erase', 0, '''__CPROVER_assigns(k, __CPROVER_object_whole(buffer->data))
 __CPROVER_loop_invariant(start <= k && k <= buffer->length - length
   && (g_j < start || g_j >= k ? buffer->data[g_j] == (g_j < start || g_j >= k ? g_v1 : g_v2) : buffer->data[g_j] == g_v2)
   && (g_j + length < buffer->length && g_j + length >= k ? buffer->data[g_j + length] == g_v2 : 1))
 __CPROVER_decreases(buffer->length - length - k)''')
ST = W(F, 'write_str_', 0, '''__CPROVER_assigns(str, buffer->cursor, __CPROVER_object_whole(buffer->data))
 __CPROVER_loop_invariant(buffer->cursor >= g_c0 && (buffer->cursor <= capacity || buffer->cursor == g_c0)
   && buffer->cursor - g_c0 <= g_slen && str == g_str + (buffer->cursor - g_c0)
   && (g_k >= g_c0 && g_k < buffer->cursor ? (buffer->data[g_k] == (uint8_t) g_str[g_k - g_c0] && g_str[g_k - g_c0] != 0)
                                           : (g_k >= buffer->capacity || buffer->data[g_k] == g_old)))
 __CPROVER_decreases(capacity - buffer->cursor)''')
PROOFS = [
    P('erase', 'c04_p.c', 'h_erase', ['embc_buffer_erase'], weave=[ER], loops=True),
    P('erase_refused', 'c04_p.c', 'h_erase_refused', ['embc_buffer_erase'], weave=[ER], loops=True),
    P('str_truncate', 'c04_p.c', 'h_str_truncate', ['embc_buffer_write_str_truncate', 'write_str_'], weave=[ST], loops=True),
    P('str', 'c04_p.c', 'h_str', ['embc_buffer_write_str', 'write_str_'], weave=[ST], loops=True),
    P('str_fits', 'c04_p.c', 'h_str_fits', ['embc_buffer_write_str'], unwind=7, replay=False),
    P('copy', 'c04_p.c', 'h_copy', ['embc_buffer_copy'], unwind=3),
    P('copy_refused', 'c04_p.c', 'h_copy_refused', ['embc_buffer_copy'], unwind=3),
    P('static', 'c04_p.c', 'h_static', ['EMBC_BUFFER_STATIC_DEFINE', 'EMBC_BUFFER_STATIC_INITIALIZE'], unwind=100),
]
BOUNDED = [B('buffer_histories', 'c03_b.c', 'b_buffer', ['src/memory/buffer.c'], defs=['EXTRA'])]
EXPLAIN = 'Loop invariants over one arbitrary index for erase and string append; lengths, indices and contents are free.'
ASSUMPTIONS = ['buffers are well formed on entry (C03 proves every operation keeps this)', 'memcpy behaves as in C (CBMC library model)',
               'source and destination of a copy are different buffers', 'strings shorter than 2^31 bytes']
