D = ['NMAX=1000000000']
COMPACT = W('src/cli.c', 'embc_cli_compact', 0, """__CPROVER_assigns(i, offset, isWhite, __CPROVER_object_upto(self->cmdline, 64), g_cnt, g_white, g_done, g_val)
 __CPROVER_loop_invariant(i >= 0 && i <= self->cmdlen && i <= 64 && offset == g_cnt && offset >= 0 && offset <= i && isWhite == g_white && !g_done)
 __CPROVER_loop_invariant(g_cnt <= g_w || self->cmdline[g_w] == g_val)
 __CPROVER_loop_invariant(offset == 0 || isWhite == (self->cmdline[offset - 1] == ' '))
 __CPROVER_loop_invariant(offset == 0 || self->cmdline[offset - 1] != '\t')
 __CPROVER_loop_invariant(__CPROVER_forall { int k_; (0 <= k_ && k_ < 64) ==> (k_ < i || self->cmdline[k_] == old.cmdline[k_]) })
 __CPROVER_decreases(self->cmdlen - i)""", 'if (i < 64) { REF(old.cmdline[i]) }')
PROOFS = [
    P('char', 'c16_p.c', 'h_char', ['embc_cli_insert_char', 'embc_cli_backspace', 'embc_cli_process_char'], unwind=68, replay=True, defs=D),
    P('enter', 'c16_p.c', 'h_enter', ['embc_cli_insert_char', 'embc_cli_process_line', 'embc_cli_compact'], weave=[COMPACT], loops=True, pre_unwind=['h_enter.0:67', 'make.0:67','make.1:67'], defs=D + ['LOOPS']),
    P('init', 'c16_p.c', 'h_init', ['embc_cli_initialize'], unwind=68, replay=True, defs=D),
]
BOUNDED = [B('keystrokes', 'c16_b.c', 'b_cli', ['src/cli.c', 'src/cstr.c'])]
EXPLAIN = ('Representation: the buffer holds the first 64 characters of the logical line and cmdlen its length.  One key from an arbitrary state (any line length, any content, '
           'arbitrary observed position) keeps that relation; enter from an arbitrary state executes exactly the compacted line, via a loop invariant that runs a reference '
           'compaction in lockstep, observed at an arbitrary output position.  By induction over the keystrokes this covers every character sequence.')
ASSUMPTIONS = ['the line handler and the print function do not call back into the editor', 'line length below 10^9 characters']
