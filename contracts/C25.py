S = 'c25_p.c'; FR = 'src/stream/framer.c'
RS = W(FR, 'framer_resync', 0, '__CPROVER_assigns(RESYNC_ASSIGNS) __CPROVER_loop_invariant(RESYNC_INV) __CPROVER_decreases(count - i)', 'RESYNC_GHOST', 'RESYNC_BEFORE')
RB = W(FR, 'embc_framer_hal_rx_buffer', 0, '__CPROVER_assigns(i, g_i) __CPROVER_loop_invariant(i <= length && g_i == i) __CPROVER_decreases(length - i)')
FN = ['embc_framer_hal_rx_byte', 'framer_resync', 'is_header_valid', 'frame_payload_length', 'send_frame_ack', 'construct_nack', 'embc_framer_construct_ack_from_header', 'embc_framer_construct_ack', 'embc_buffer_write_u8', 'embc_buffer_write', 'embc_buffer_cursor_set', 'embc_buffer_reset']
ST = dict(weave=[RS], loops=True, replace=['embc_framer_validate'], unwind=8, flags=['--object-bits', '10', '--sat-solver', 'cadical'], nobody=['embc_framer_initialize', 'embc_framer_register_rx_hook'])
PROOFS = [
    P('start_unsynchronized', S, 'h_byte', FN, defs=['STATE=ST_SOF_UNSYNC', 'LAST=0'], **ST),
    P('start', S, 'h_byte', FN, defs=['STATE=ST_SOF', 'LAST=0'], **ST),
    P('header_unsynchronized', S, 'h_byte', FN, defs=['STATE=ST_HEADER_UNSYNC', 'LAST=0'], **ST),
    P('header', S, 'h_byte', FN, defs=['STATE=ST_HEADER', 'LAST=0'], **ST),
    P('header_unsynchronized_last', S, 'h_byte', FN, defs=['STATE=ST_HEADER_UNSYNC', 'LAST=1'], **ST),
    P('header_last', S, 'h_byte', FN, defs=['STATE=ST_HEADER', 'LAST=1'], **ST),
    P('payload', S, 'h_byte', FN, defs=['STATE=ST_PAYLOAD_AND_FOOTER', 'LAST=0'], **ST),
    P('payload_last', S, 'h_byte', FN, defs=['STATE=ST_PAYLOAD_AND_FOOTER', 'LAST=1'], **ST),
    P('buffer', S, 'h_buffer', ['embc_framer_hal_rx_buffer'], weave=[RB], loops=True, replace=['embc_framer_hal_rx_byte'], defs=['BYTES'], unwind=3),
    P('initialize', S, 'h_init', ['embc_framer_initialize'], unwind=18),
]
BOUNDED = [B('streams', 'c25_b.c', 'b_stream', ['src/stream/framer.c', 'src/memory/buffer.c', 'src/collections/list.c', 'src/crc.c'])]
EXPLAIN = ('One received byte in every receiver state, with every buffer content: the receiver stays well-formed, no check fires and no access leaves a buffer, no buffer leaks, and the loop that searches the receive buffer for frames (loop contract, no bound) delivers exactly frames that validate, whole, in stream order, each byte at most once. '
           'One arbitrary stream position is tracked: it is given up only after it was found not to start an intact frame, or inside a delivered frame, so nothing intact is skipped; by induction this covers streams of every length. A buffer of bytes is received as its bytes.')
ASSUMPTIONS = ['frame validation and checksums satisfy their specification (C24, C01)', 'removing bytes from the front of a buffer satisfies its specification (C04)', 'the HAL returns acknowledgement buffers before the next one; memory is not exhausted', 'start of frame bytes repeated before a header are dropped, so a frame whose identifier byte equals the start of frame (not part of the format) is excluded']
