F = ['embc_cli_line_parser', '_is_delimiter', 'embc_cstr_copy']
PROOFS = [P('short', 'c17_p.c', 'h_short', F, unwind=12, replay=True, defs=['N=7', 'LEN=10', 'K=1'], bounded='lines of at most 7 characters, any content')] + [
    P('words_%d' % k, 'c17_p.c', 'h_many', F, unwind=72, replay=True, defs=['N=7', 'LEN=10', 'K=%d' % k], bounded='%d to %d words' % (k, k + 1)) for k in (15, 16)] + [
    P('length_%d' % k, 'c17_p.c', 'h_long', F, unwind=72, replay=True, defs=['N=7', 'LEN=%d' % k, 'K=1'], bounded='one line of %d characters' % k) for k in (65, 66, 67)] + [
    P('copy', 'c17_p.c', 'h_copy', ['embc_cstr_copy'], unwind=72, replay=True, defs=['N=7', 'LEN=10', 'K=1']),
]
BOUNDED = [B('arguments', 'c17_b.c', 'b_args', ['src/cli.c', 'src/cstr.c'])]
EXPLAIN = ('The private copy is decided for lines of every length (complete unwinding over the fixed buffer).  Splitting is decided for all contents of short lines and around the '
           'limits on words and line length, with an arbitrary character observed in its argument; longer lines are searched natively against a reference splitter.')
ASSUMPTIONS = ['the handler may modify its arguments; it does not call back into the editor']
