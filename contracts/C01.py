def inv(T, bits):
    return ('__CPROVER_assigns(crc, data, byte, mask, j, g_ref, g_i) ' if bits != 16 else
            '__CPROVER_assigns(crc, data, g_ref, g_i) ') + (
    '__CPROVER_loop_invariant(g_i <= g_len && data == g_data + g_i && data_end == g_data + g_len && crc == (%s) g_ref) '
    '__CPROVER_decreases(g_len - g_i)' % T)
def mk(bits, fn, T):
    return P('crc%d_every_length' % bits, 'c01_p.c', 'h_crc%d' % bits, [fn], loops=True,
             weave=[W('src/crc.c', fn, 0, inv(T, bits), 'GHOST%d' % bits)],
             pre_unwind=[fn + '.0:9'] if bits != 16 else [], dfcc=True)
PROOFS = [
    mk(8, 'embc_crc_ccitt_8', 'uint8_t'), mk(16, 'embc_crc_ccitt_16', 'uint16_t'), mk(32, 'embc_crc32', 'uint32_t'),
    P('empty', 'c01_p.c', 'h_empty', ['embc_crc_ccitt_8', 'embc_crc_ccitt_16', 'embc_crc32'], unwind=10, replay=True),
    P('short_inputs', 'c01_p.c', 'h_short', ['embc_crc_ccitt_8', 'embc_crc_ccitt_16', 'embc_crc32'], unwind=10, replay=True,
      bounded='lengths 1..3, complete for those'),
]
BOUNDED = [B('crc_long', 'c01_b.c', 'b_crc', ['src/crc.c'])]
EXPLAIN = 'Loop invariant: after k bytes the register equals the bitwise polynomial division of the first k bytes; the length is a free 32-bit value.'
ASSUMPTIONS = ['the buffer is a single valid object of the stated length']
