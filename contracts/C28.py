S = 'c28_p.c'; R = dict(unwind=9, replay=True, defs=['memcpy=vp_memcpy'], srcs=['src/stream/async_source.c', 'src/stream/async_sink.c', 'src/stream/async.c'])
PROOFS = [
    P('source_write_request', S, 'h_write_request', ['embc_stream_source send'], **R),
    P('source_write_response', S, 'h_write_response', ['embc_stream_source send', 'close_file'], **R),
    P('source_other', S, 'h_source_other', ['embc_stream_source send', 'close_file'], **R),
    P('source_open', S, 'h_open', ['embc_stream_source_open', 'embc_stream_source_open_ex', 'embc_stream_source_initialize', 'embc_stream_source_configure', 'embc_stream_source_set_consumer', 'embc_stream_source_get_producer'], **R),
    P('close_helper', S, 'h_close_helper', ['embc_stream_close'], **R),
    P('sink_write', S, 'h_sink_write', ['embc_stream_sink send', 'send_write_request', 'embc_stream_sink_get_consumer', 'embc_stream_sink_set_write_fn'], **R),
    P('sink_other', S, 'h_sink_other', ['embc_stream_sink send', 'send_event', 'embc_stream_sink_initialize', 'embc_stream_sink_set_producer'], **R),
    P('sink_receive', S, 'h_receive', ['embc_stream_sink_receive', 'send_event', 'send_write_request'], **R),
    P('transfer_step', S, 'h_transfer', ['embc_stream_source send', 'embc_stream_sink send', 'close_file', 'send_write_request'], **R),
    P('misuse', S, 'h_misuse', ['embc_stream_source_configure', 'embc_stream_sink_receive'], expect_reach=False, **R),
]
BOUNDED = [B('transfers', 'c28_b.c', 'b_transfer', ['src/stream/async_source.c', 'src/stream/async_sink.c', 'src/stream/async.c'])]
EXPLAIN = ('Every transaction type is handed to a source and a sink in arbitrary states (any offsets, sizes, buffers and callbacks, satisfying rx <= tx <= length and offset <= length) and the transactions sent, bytes copied and state changes are exactly as specified; the state invariant is preserved. '
           'One step of a connected transfer from an arbitrary consistent state either moves the next bytes, completes both ends once, or fails both ends once when the sink is full, which by induction covers transfers of every size.')
ASSUMPTIONS = ['memcpy copies its bytes (specification stub, one arbitrary byte tracked)', 'a peer acknowledges no more bytes than were sent', 'buffers are below 2 GiB']
