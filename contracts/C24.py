S = 'c24_p.c'; IN = ['h_validate.0:8', 'embc_framer_initialize.0:4', 'embc_framer_initialize.1:4', 'embc_framer_initialize.2:17']
C = dict(unwind=18, replay=True)
PROOFS = [
    P('validate', S, 'h_validate', ['embc_framer_validate', 'is_header_valid'], unwind=8, replay=True),
    P('construct_frame', S, 'h_frame', ['embc_framer_construct_frame'], **C),
    P('construct_ack', S, 'h_ack', ['embc_framer_construct_ack'], **C),
    P('send_own_buffer', S, 'h_send', ['embc_framer_send', 'embc_framer_alloc', 'transmit_queued'], **C),
    P('send_other_buffer', S, 'h_send', ['embc_framer_send', 'embc_framer_alloc'], defs=['TRACK=0'], **C),
    P('send_short_reserve', S, 'h_send', ['embc_framer_send', 'embc_framer_alloc'], defs=['TRACK=4'], **C),
    P('send_payload', S, 'h_payload', ['embc_framer_send_payload'], **C),
    P('misuse', S, 'h_misuse', ['embc_framer_construct_frame', 'embc_framer_send', 'embc_framer_send_payload'], expect_reach=False, **C),
]
BOUNDED = [B('frames', 'c24_b.c', 'b_frames', ['src/stream/framer.c', 'src/memory/buffer.c', 'src/collections/list.c', 'src/crc.c'])]
EXPLAIN = ('Validation of a buffer of every length and content returns exactly the documented status, accepts exactly the documented format and never reads beyond the buffer; '
           'data and acknowledgement frames for every field value and every payload of 0 to 240 bytes are laid out byte by byte as documented, their checksums are computed over their final bytes, and they satisfy the acceptance condition. Checksums are uninterpreted (C01 decides them).')
ASSUMPTIONS = ['the checksum functions depend only on their arguments (C01)', 'buffers as specified by C03 and C05; enough memory']
