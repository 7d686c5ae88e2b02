S = 'c31_p.c'; R = dict(unwind=10, replay=True)
PROOFS = [
    P('dbc', S, 'h_dbc', ['EMBC_DBC_ASSERT', 'EMBC_DBC_RANGE_INT', 'EMBC_ASSERT', 'EMBC_ASSERT_ALLOC'], **R),
    P('dbc_unsigned', S, 'h_dbc_u32', ['EMBC_DBC_RANGE_INT', 'EMBC_DBC_LT'], **R),
    P('fatal', S, 'h_fatal', ['EMBC_FATAL', 'EMBC_DBC_ASSERT'], expect_reach=False, **R),
    P('argchk', S, 'h_argchk', ['EMBC_ARGCHK_ASSERT', 'EMBC_ARGCHK_RANGE_INT'], **R),
    P('error_returns', S, 'h_return', ['EMBC_RETURN_ON_ERROR', 'EMBC_RETURN_ON_ERROR_MSG', 'EMBC_EXIT_ON_ERROR', 'EMBC_EXIT_WITH_ERROR'], **R),
    P('allocator', S, 'h_alloc', ['embc_allocator_set', 'embc_alloc', 'embc_alloc_clr', 'embc_free'], **R),
    P('no_allocator', S, 'h_none', ['embc_allocator_set', 'alloc_default', 'free_default'], expect_reach=False, **R),
    P('before_install', S, 'h_initial', ['embc_alloc', 'embc_free', 'alloc_default', 'free_default'], expect_reach=False, **R),
]
BOUNDED = []
EXPLAIN = ('Every checking macro is expanded on free 64-bit (and unsigned 32-bit) operands that count their evaluations: it is fatal, or returns the parameter error, exactly when its condition is violated, and evaluates each operand once. '
           'Allocation and release are forwarded to the allocator installed last, with the exact size and pointer; failures and a missing allocator are fatal.')
ASSUMPTIONS = ['embc_fatal, supplied by the application, does not return']
