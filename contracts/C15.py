PROOFS = [P('hex', 'c15_p.c', 'h_hex', ['embc_cstr_hex_to_u4', 'embc_cstr_u4_to_hex'], unwind=20, replay=True)]
BOUNDED = [B('hex_random', 'c15_p.c', 'h_hex', [], iters=20000, secs=1)]
EXPLAIN = 'Both functions over their complete input domain.'
