F = 'src/cstr.c'
TWO = '''__CPROVER_assigns(%s)
 __CPROVER_loop_invariant(__CPROVER_same_object(%s, g_a) && __CPROVER_same_object(%s, g_b))
 __CPROVER_loop_invariant(OFF(%s) == OFF(%s) && OFF(%s) >= 0 && OFF(%s) <= g_L && OFF(%s) <= g_N)
 %s
 __CPROVER_decreases(g_L + 1 - OFF(%s))'''
def two(a, b, inv, ex=''):
    return TWO % (a + ', ' + b + ', g_p' + ex, a, b, a, b, a, a, a, inv, a)
COPY = W(F, 'embc_cstr_copy', 0, two('src', 'tgt', '''__CPROVER_loop_invariant(OFF(tgt) < g_N && tgt_end == g_b + (g_N - 1))
 __CPROVER_loop_invariant(g_j >= OFF(src) || (g_a[g_j] != 0 && g_b[g_j] == g_a[g_j]))
 __CPROVER_loop_invariant(g_k < OFF(tgt) || g_b[g_k] == g_tk)''', ', __CPROVER_object_upto(g_b, (__CPROVER_size_t) (tgt_end - g_b))'), '{ g_p = OFF(src); }')
CASE = W(F, 'embc_cstr_casecmp', 0, two('s1', 's2', '__CPROVER_loop_invariant(g_j >= OFF(s1) || (g_a[g_j] != 0 && g_b[g_j] != 0 && UP(g_a[g_j]) == UP(g_b[g_j])))', ', c1, c2'), '{ g_p = OFF(s1); }')
PRE = W(F, 'embc_cstr_starts_with', 0, two('s', 'prefix', '__CPROVER_loop_invariant(g_j >= OFF(s) || (g_a[g_j] != 0 && g_b[g_j] == g_a[g_j]))'), '{ g_p = OFF(s); }')
UPP = W(F, 'embc_cstr_toupper', 0, '''__CPROVER_assigns(s, g_p, __CPROVER_object_upto(g_b, (__CPROVER_size_t) g_L))
 __CPROVER_loop_invariant(__CPROVER_same_object(s, g_b) && OFF(s) >= 0 && OFF(s) <= g_L && g_p == OFF(s))
 __CPROVER_loop_invariant(g_j < OFF(s) ? (g_bj != 0 && g_b[g_j] == UP(g_bj)) : g_b[g_j] == g_bj)
 __CPROVER_decreases(g_L - OFF(s))''', '{ g_p = OFF(s) + 1; }')
PROOFS = [
    P('copy', 'c13_p.c', 'h_copy', ['embc_cstr_copy'], weave=[COPY], loops=True),
    P('null_arguments', 'c13_p.c', 'h_copy_args', ['embc_cstr_*'], unwind=20, replay=True),
    P('casecmp', 'c13_p.c', 'h_casecmp', ['embc_cstr_casecmp', '_toupper'], weave=[CASE], loops=True),
    P('starts_with', 'c13_p.c', 'h_starts', ['embc_cstr_starts_with'], weave=[PRE], loops=True),
    P('toupper', 'c13_p.c', 'h_toupper', ['embc_cstr_toupper', '_toupper'], weave=[UPP], loops=True, defs=['MAXL=1000000']),
    P('to_bool', 'c13_p.c', 'h_bool', ['embc_cstr_to_bool', 'embc_cstr_to_index', 'embc_cstr_copy', 'embc_cstr_toupper'], unwind=20, replay=True),
    P('to_index', 'c13_p.c', 'h_index', ['embc_cstr_to_index'], unwind=5, replay=True, bounded='tables of at most 3 entries, strings of at most 2 characters'),
]
BOUNDED = [B('cstr_random', 'c13_b.c', 'b_cstr', ['src/cstr.c'])]
EXPLAIN = ('Loop invariants over an arbitrary character position for strings of any length; boolean parsing is complete because only the first 16 characters are ever read '
           '(complete unwinding over all contents).')
ASSUMPTIONS = ['strings are terminated and source and destination do not overlap', 'strings up to 1000000 characters (1000 for upper-casing; object size limit of the model)',
  'for characters outside ASCII only equality, not the order, is specified', 'the float parser is disabled in the build configuration and out of scope']
