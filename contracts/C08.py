F = 'src/memory/block.c'
SCAN = W(F, 'embc_mblock_alloc_unsafe', 0, '''__CPROVER_assigns(idx_search, idx_start, free_count, g_w)
 __CPROVER_loop_invariant(0 <= idx_search && idx_search <= s->block_count && 0 <= free_count && free_count < blocks && free_count <= idx_search
   && (free_count == 0 ? idx_start == idx_invalid : idx_start == idx_search - free_count)
   && (g_j >= idx_search - free_count && g_j < idx_search ? g_bj == 0 : 1)
   && g_w < g_r + g_nb && g_w < idx_search && g_w >= -1 && (g_w >= 0 ? BIT(s, g_w) : 1)
   && (idx_search <= g_r + g_nb ? g_w == idx_search - free_count - 1 : g_w >= g_r))
 __CPROVER_decreases(s->block_count - idx_search)''', 'GHOST_SCAN')
MARK = W(F, 'embc_mblock_alloc_unsafe', 1, '''__CPROVER_assigns(idx_alloc, __CPROVER_object_from(s->bitmap))
 __CPROVER_loop_invariant(idx_start <= idx_alloc && idx_alloc <= idx_search + 1
   && BIT(s, g_j) == (g_j >= idx_start && g_j < idx_alloc ? 1 : g_bj))
 __CPROVER_decreases(idx_search + 1 - idx_alloc)''')
FREE = W(F, 'embc_mblock_free', 0, '''__CPROVER_assigns(idx, __CPROVER_object_from(s->bitmap))
 __CPROVER_loop_invariant(idx_start <= idx && idx <= idx_start + blocks
   && BIT(s, g_j) == (g_j >= idx_start && g_j < idx ? 0 : g_bj) && (g_j >= idx_start && g_j < idx ? g_bj == 1 : 1))
 __CPROVER_decreases(idx_start + blocks - idx)''')
PROOFS = []
for n in (1, 8, 12):
    PROOFS += [
    P('alloc_%d' % n, 'c08_p.c', 'h_alloc', ['embc_mblock_alloc_unsafe'], weave=[SCAN, MARK], loops=True, replace=['size_to_blocks'], defs=['BS=%d' % n]),
    P('free_%d' % n, 'c08_p.c', 'h_free', ['embc_mblock_free'], weave=[FREE], loops=True, replace=['size_to_blocks'], defs=['BS=%d' % n]),
    P('blocks_%d' % n, 'c08_p.c', 'h_blocks', ['size_to_blocks'], unwind=3, replay=True, defs=['BS=%d' % n]),
    P('free_bad_%d' % n, 'c08_p.c', 'h_free_bad', ['embc_mblock_free'], weave=[FREE], loops=True, replace=['size_to_blocks'], defs=['BS=%d' % n]),
    P('init_%d' % n, 'c08_p.c', 'h_init', ['embc_mblock_initialize', 'embc_mblock_instance_size'], unwind=3, defs=['BS=%d' % n]),
    ]
PROOFS += [
    P('misuse', 'c08_p.c', 'h_misuse', ['embc_mblock_*'], unwind=3),
    P('asserting', 'c08_p.c', 'h_assert', ['embc_mblock_alloc'], replace=['embc_mblock_alloc_unsafe']),
]
BOUNDED = [B('mblock_histories', 'c08_b.c', 'b_mblock', ['src/memory/block.c'])]
EXPLAIN = ('Loop contracts over an arbitrary bitmap (any contents): the search loop carries a witness block for every candidate run, so a null result proves that no '
           'free run is long enough; marking and freeing change exactly the addressed bits. Block sizes 1, 8 and 12; every other size natively.')
ASSUMPTIONS = ['at most 4000 blocks in the loop proofs (keeps the model of the bitmap small); sizes and bitmap contents are free', 'block sizes 1, 8, 12 stand for all (the size enters only through size_to_blocks and the address computation)']
