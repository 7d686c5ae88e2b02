S = 'c22_p.c'; F = 'src/pattern_32a.c'; TB = 'embc_pattern_32a_tx_buffer'
LB = [
    W(F, TB, 0, '__CPROVER_assigns(i, self->counter, __CPROVER_object_upto(g_buf, g_len)) '
      '__CPROVER_loop_invariant(i <= (uint64_t) sz + 1 && (i & 1) == ((1 - g_off) & 1) && (i >= 1 || g_off) && self->counter == (uint16_t) (g_c0 + (i - (1 - g_off)) / 2)) '
      '__CPROVER_loop_invariant(!(g_w < i && g_w < sz && (g_w & 1) != g_off) || g_buf[g_w] == ((((uint32_t) (uint16_t) ~(g_c0 + (g_w - (1 - g_off)) / 2)) << 16) | (uint16_t) (g_c0 + (g_w - (1 - g_off)) / 2))) '
      '__CPROVER_decreases((int64_t) sz + 1 - i)'),
    W(F, TB, 1, '__CPROVER_assigns(i, self->shift32, __CPROVER_object_upto(g_buf, g_len), g_n, g_q, g_p, g_nw, g_qw, g_pw) '
      '__CPROVER_loop_invariant(i <= (uint64_t) sz + 1 && (uint64_t) i == g_off + 2ull * g_n && g_p < 33 && g_p0 + g_n == 33 * g_q + g_p && g_q <= g_n && self->shift32 == SH(g_p)) '
      '__CPROVER_loop_invariant(!(g_w < i && (g_w & 1) == g_off) || (g_off + 2ull * g_nw == g_w && g_qw <= g_nw && g_pw < 33 && g_p0 + g_nw == 33 * g_qw + g_pw && (g_w >= sz || g_buf[g_w] == SH(g_pw)))) '
      '__CPROVER_loop_invariant(!(g_w < sz && (g_w & 1) != g_off) || g_buf[g_w] == ((((uint32_t) (uint16_t) ~(g_c0 + (g_w - (1 - g_off)) / 2)) << 16) | (uint16_t) (g_c0 + (g_w - (1 - g_off)) / 2))) '
      '__CPROVER_decreases((int64_t) sz + 1 - i)', 'SHIFT()'),
]
PROOFS = [
    P('next', S, 'h_next', ['embc_pattern_32a_tx_next'], replay=True),
    P('initialize', S, 'h_init', ['embc_pattern_32a_tx_initialize'], replay=True),
    P('period', S, 'h_period', ['embc_pattern_32a_tx_next']),
    P('buffer', S, 'h_buffer', [TB], weave=LB, loops=True),
    P('buffer_small', S, 'h_small', [TB, 'embc_pattern_32a_tx_next'], unwind=9, replay=True, bounded='at most 6 words'),
]
BOUNDED = [B('sequences', 'c22_b.c', 'b_tx', ['src/pattern_32a.c'])]
EXPLAIN = ('Every position k of the documented period is mapped to its generator state; one step from position k gives the documented word and position k + 1 (all k), and the states of one period are pairwise distinct. '
           'Buffer generation is decided by loop invariants for every size and start, for an arbitrary word of the buffer.')
ASSUMPTIONS = ['buffers are aligned and at least size bytes long']
