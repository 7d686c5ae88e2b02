S = 'c21_p.c'
G = ['embc_lfsr_next_u1', 'embc_lfsr_next_u8', 'embc_lfsr_next_u16', 'embc_lfsr_next_u32']
PROOFS = [
    P('generate', S, 'h_gen', G, unwind=17, replay=True),
    P('initialize', S, 'h_init', ['embc_lfsr_initialize', 'embc_lfsr_seed_u16'], unwind=17, replay=True),
    P('follow', S, 'h_follow', ['embc_lfsr_follow_u8'], unwind=17, replay=True),
    P('resynchronize', S, 'h_resync', ['embc_lfsr_follow_u8'], unwind=17, replay=True),
    P('period', S, 'h_period', ['embc_lfsr_next_u1'], unwind=18, replay=True),
    P('null', S, 'h_null', G + ['embc_lfsr_initialize', 'embc_lfsr_seed_u16', 'embc_lfsr_follow_u8'], unwind=17, replay=True),
]
BOUNDED = []
EXPLAIN = ('Pre- and postconditions of every function over all states and inputs (all loops have constant bounds and are unwound completely); the period is a lemma of linear algebra over GF(2) on the documented '
           'feedback function, which the step function is proved to compute; resynchronization is a triple over arbitrary receiver states and stream positions.')
ASSUMPTIONS = ['fewer than 2^30 errors are counted (the counter is an int)', 'receivers only hold the resynchronization counts 0, 8 and 16 that the functions establish']
