S = 'c30_p.c'; R = dict(unwind=12, replay=True); U = ['seconds', 'milliseconds', 'microseconds', 'nanoseconds']
PROOFS = [
    P('leading_zeros', S, 'h_clz', ['embc_clz'], **R),
    P('power_of_two', S, 'h_pow2', ['embc_upper_power_of_two'], **R),
    P('round_signed', S, 'h_round_signed', ['EMBC_ROUND_UP_TO_MULTIPLE'], bounded='-300 <= x <= 300, m <= 300', **R),
    P('round_unsigned', S, 'h_round_unsigned', ['EMBC_ROUND_UP_TO_MULTIPLE'], solver='cvc5', **R),
    P('operand_expressions', S, 'h_hygiene', ['EMBC_ROUND_UP_TO_MULTIPLE', 'EMBC_TIME_TO_COUNTER', 'EMBC_COUNTER_TO_TIME'], **R),
    P('sign_abs_range', S, 'h_sign', ['EMBC_SIGNUM', 'EMBC_TIME_ABS', 'EMBC_RESTRICT_TO_RANGE'], **R),
    P('constants', S, 'h_constants', ['EMBC_TIME_SECOND'], **R),
    P('time_to_counter', S, 'h_to_counter', ['EMBC_TIME_TO_COUNTER', 'EMBC_TIME_TO_COUNTER_ROUND_UP', 'EMBC_TIME_TO_COUNTER_ROUND_DOWN'], solver='cvc5', **R),
    P('counter_to_time', S, 'h_from_counter', ['EMBC_COUNTER_TO_TIME'], solver='cvc5', **R),
    P('memory_helpers', S, 'h_memory', ['embc_memcpy', 'embc_memset'], bounded='sizes up to 9 bytes', **R),
    P('floating_seconds', S, 'h_float', ['EMBC_TIME_TO_F64', 'EMBC_F64_TO_TIME'], **R),
] + [P('units_to_time_%s' % n, S, 'h_from_units', ['EMBC_%s_TO_TIME' % n.upper()], defs=['VP_K=%d' % k], solver='cvc5', **R) for k, n in enumerate(U)] + [
    P('time_to_%s' % n, S, 'h_to_units', ['EMBC_TIME_TO_%s' % n.upper()], defs=['VP_K=%d' % k], solver='cvc5', **R) for k, n in enumerate(U)]
BOUNDED = [B('rounding', 'c30_b.c', 'b_round', [])]
EXPLAIN = ('Each function or macro is evaluated on its full stated domain and compared with the mathematical definition computed in 128-bit integers: floor, nearest and ceiling as inequalities on the exact product, quotients as inequalities on the exact numerator.')
ASSUMPTIONS = ['the defining identity of C division, 0 <= n - (n / m) * m < m for n >= 0 and its mirror image (C99 6.5.5)', 'right shift of negative values is arithmetic, as in every compiler the project supports', 'counter frequencies are 32-bit and positive; counter values are non-negative and below 2**33 so that the shift is representable']
