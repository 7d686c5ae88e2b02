F = 'src/cstr.c'
U = 'embc_cstr_to_u32'
U, I, S = 'embc_cstr_to_u32', 'embc_cstr_to_i32', 'embc_cstr_to_i32s'
STEP = 'STEPU(g_r, *src, g_ex) ++g_pos;'
def L(f, k, extra='', inv=(), ghost=STEP):
    return W(F, f, k, '__CPROVER_assigns(src, g_pos, g_r.q, g_r.v, g_r.fr%s) ' % extra + ' '.join('__CPROVER_loop_invariant(%s)' % i for i in ('INSTR(src)',) + tuple(inv)) +
             ' __CPROVER_decreases(g_L - g_pos)', ghost, 'CATCH_UP(src);')
LU = [
    L(U, 0, inv=['g_r.v == 0', 'ST(0, src)']),
    L(U, 1, ', v, nibble', ['v == g_r.v', 'g_r.q != HEX0 || v == 0', 'ST(1, src)'], 'if ((cHEX >> CLS[(uint8_t) *src]) & 1) { %s }' % STEP),
    L(U, 2, ', v', ['v == g_r.v', 'ST(2, src)', "g_r.q == DEC || g_r.q == ZERO || (v == 0 && (*src != '0' || src[1] != 'x'))"]),
    L(U, 3, '', ['v == g_r.v', 'ST(3, src)'])]
LI = [L(I, 0, inv=['g_r.q == SLEAD && g_r.v == 0'])] + LU
LS = [L(S, 0, inv=['g_r.q == FSIGN && g_r.v == 0 && g_r.fr == 0']),
      L(S, 1, ', v, decimal, digits', ['v == g_r.v && v <= max', 'ST(4, src)', '(decimal < 0) == (g_r.q == FSIGN || g_r.q == FINT || g_r.q == FINTD)', 'decimal < 0 ? (decimal == -1 && g_r.fr == 0) : (g_r.fr == decimal && decimal <= g_ex)',
         '(digits != 0) == (g_r.q == FINTD || g_r.q == FFRACD)'], 'if (((cDIG | (decimal < 0 ? cDOT : 0)) >> CLS[(uint8_t) *src]) & 1) { %s }' % STEP),
      L(S, 2, inv=['ST(5, src)', 'v == g_r.v && g_r.fr == (decimal < 0 ? 0 : decimal)']),
      W(F, S, 3, '__CPROVER_assigns(v, decimal, g_sv, g_k) __CPROVER_loop_invariant(v == g_sv && v <= max && g_k >= 0 && (g_k != 0 || g_sv == g_r.v) && decimal >= 0 && (int64_t) decimal == (int64_t) g_r.fr + g_k && decimal <= exponent) __CPROVER_decreases((int64_t) exponent - decimal)',
        'g_sv = PUSH(g_sv, 10u, 0u); ++g_k;', 'CATCH_UP(src); g_sv = g_r.v; g_k = 0;')]
PROOFS = [
    P('append_dec', 'c14_p.c', 'h_append', ['append_digit'], enforce='append_digit', defs=['RADIX=10']),
    P('append_hex', 'c14_p.c', 'h_append', ['append_digit'], enforce='append_digit', defs=['RADIX=16']),
    P('u32', 'c14_p.c', 'h_u32', ['embc_cstr_to_u32'], weave=LU, loops=True, replace=['append_digit'], defs=['UNINTERPRETED']),
    P('i32', 'c14_p.c', 'h_i32', ['embc_cstr_to_i32', 'embc_cstr_to_u32'], weave=LI, loops=True, replace=['append_digit'], defs=['UNINTERPRETED']),
    P('i32s', 'c14_p.c', 'h_i32s', ['embc_cstr_to_i32s'], weave=LS, loops=True, replace=['append_digit'], defs=['UNINTERPRETED']),
    P('null', 'c14_p.c', 'h_null', ['embc_cstr_to_u32', 'embc_cstr_to_i32', 'embc_cstr_to_i32s'], unwind=15, replay=True),
    P('u32_short', 'c14_p.c', 'h_u32_short', ['embc_cstr_to_u32', 'append_digit'], unwind=13, replay=True, defs=['N=4'], bounded='strings of at most 4 characters'),
    P('i32_short', 'c14_p.c', 'h_i32_short', ['embc_cstr_to_i32'], unwind=13, replay=True, defs=['N=4'], bounded='strings of at most 4 characters'),
    P('i32s_short', 'c14_p.c', 'h_i32s_short', ['embc_cstr_to_i32s'], unwind=13, replay=True, defs=['N=3'], bounded='strings of at most 3 characters'),
]
BOUNDED = [B('numbers', 'c14_b.c', 'b_num', ['src/cstr.c'])]
EXPLAIN = ('A reference automaton (states, next-state table, exact value) runs in lockstep with the parsing loops: loop invariants tie the position, the value and the '
           'automaton state, so acceptance and value are decided for strings of every length and content; append_digit is proved exact for both number bases and its '
           'contract is what the loops use.  The same automaton is compared with the code on all strings of at most 4 characters and, natively, on random longer ones.')
ASSUMPTIONS = ['strings are terminated and shorter than 1000001 characters (size of the symbolic object; the loop argument does not depend on it)',
               'the lockstep groups leave the digit-append function uninterpreted, so they hold in particular for the exact one that append_digit is proved to compute']
