S = 'c29_p.c'
PROOFS = [
    P('code_names', S, 'h_name', ['embc_error_code_name'], unwind=62, replay=True),
    P('code_descriptions', S, 'h_text', ['embc_error_code_description'], unwind=62, replay=True),
    P('code_values', S, 'h_values', ['EMBC_ERROR_CODES'], unwind=2, replay=True),
    P('level_names', S, 'h_level', ['embc_log_level_str', 'embc_log_level_char'], unwind=62, replay=True),
    P('handler', S, 'h_handler', ['embc_log_initialize', 'embc_log_finalize', 'embc_log_printf_default'], unwind=2, replay=True),
] + [P('log_macros_level_%d' % l, S, 'h_macros', ['EMBC_LOG', '_EMBC_LOG_DISPATCH', 'EMBC_LOG_CHECK_STATIC'], defs=['LOG_AT=%d' % l], unwind=62, replay=True) for l in (10, 6, 1)]
BOUNDED = [B('printed_lines', 'c29_b.c', 'b_log', ['src/log.c'])]
EXPLAIN = ('Both name functions are evaluated on the full range of int against a literal table of the 26 documented codes, both level tables on every level, and every log macro (one and several arguments) at three configured levels; '
           'the default line layout is compared natively.')
ASSUMPTIONS = ['the printf-style handler supplied by the application formats its arguments as printf does']
