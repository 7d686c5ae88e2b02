/* C28: stream source and sink.  Copies go through their specification, tracked for one arbitrary byte. */
#include <string.h>   /* memcpy is renamed vp_memcpy by the group's definitions, in every file */
#include "vp.h"
#include "embc.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
static struct embc_stream_source_s s; static struct embc_stream_sink_s k;
#define vp_field s.transaction_buffer
static const void * g_src; static void * g_dst; static size_t g_n; static int g_copies; static uint32_t g_q;   /* the byte of the copy that is carried out */
void * vp_memcpy(void * d, const void * f, size_t n) {
#ifdef VP_CBMC
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(f, n), "copy stays inside both objects");
    if (d == (void *) &vp_field) { for (unsigned i = 0; i < sizeof(void *); ++i) if (i < n && i == g_q) ((uint8_t *) d)[i] = ((const uint8_t *) f)[i]; }
    else if (g_q < n) ((uint8_t *) d)[g_q] = ((const uint8_t *) f)[g_q];
#else
    __builtin_memmove(d, f, n);
#endif
    g_src = f; g_dst = d; g_n = n; ++g_copies; return d;
}
typedef struct embc_stream_transaction_s T_t;
static struct embc_stream_consumer_s cons; static struct embc_stream_producer_s prod;
static T_t log_c[4], log_p[4]; static int n_c, n_p, done_s, done_k, writes; static uint8_t done_status; static uint32_t done_len; static const uint8_t * done_buf, * write_buf; static uint32_t write_len;
static void rec_c(struct embc_stream_consumer_s * c, T_t * t) { ENSURE(c == &cons, "consumer"); ENSURE(n_c < 4, "bounded number of transactions"); log_c[n_c++] = *t; }
static void rec_p(struct embc_stream_producer_s * p, T_t * t) { ENSURE(p == &prod, "producer"); ENSURE(n_p < 4, "bounded number of transactions"); log_p[n_p++] = *t; }
static void s_done(void * u, uint8_t st) { ENSURE(u == &done_s, "user data"); ++done_s; done_status = st; }
static void k_done(void * u, uint8_t const * b, uint32_t n) { ENSURE(u == &done_k, "user data"); ++done_k; done_buf = b; done_len = n; }
static void k_write(void * u, uint8_t const * b, uint32_t n) { ENSURE(u == &writes, "user data"); ++writes; write_buf = b; write_len = n; }
static void init(void) { vp_fatal_expected = 0; n_c = n_p = done_s = done_k = writes = g_copies = 0; g_src = NULL; g_dst = NULL; g_n = 0; cons.send = rec_c; prod.send = rec_p; g_q = nd_u32(); memset(&s, 0, sizeof(s)); memset(&k, 0, sizeof(k)); }
static uint8_t * mem(uint32_t n) { uint8_t * p = malloc(n); REQUIRE(p != NULL); return p; }
#define MAXLEN 0x7fffffffu   /* objects larger than 2 GiB do not exist on the targets */
static T_t transaction(uint8_t type) { T_t t; memset(&t, 0, sizeof(t)); t.type = type; t.status = nd_u8(); t.file_id = nd_u8(); t.producer_transaction_id = nd_u8(); t.consumer_transaction_id = nd_u8(); t.length = nd_u16(); t.data.u32 = nd_u32(); return t; }
/* an arbitrary source: reachable by any number of transactions */
static void any_source(const bool own) {
    if (own) { uint16_t tl = nd_u16(); REQUIRE(tl > 0); embc_stream_source_initialize(&s, mem(tl), tl); } else embc_stream_source_initialize(&s, NULL, 0);
    embc_stream_source_set_consumer(&s, &cons);
    uint32_t n = nd_u32(); REQUIRE(n > 0 && n <= MAXLEN); embc_stream_source_configure(&s, mem(n), n, s_done, &done_s); if (nd_bool()) s.done_fn = NULL;
    s.tx_offset = nd_u32(); s.rx_offset = nd_u32(); s.is_open = nd_bool(); REQUIRE(s.rx_offset <= s.tx_offset && s.tx_offset <= n);
}
#define SAME() (s.source_length == o.source_length && s.source_buffer == o.source_buffer && s.consumer == &cons && s.done_fn == o.done_fn && s.transaction_length == o.transaction_length)
static void write_request(const bool own, const bool given) {
    init(); any_source(own); struct embc_stream_source_s o = s; T_t t = transaction(EMBC_STREAM_EVENT_WRITE_REQUEST); uint32_t agreed, left = s.source_length - s.tx_offset; uint16_t mtu = nd_u16();
    if (given) { REQUIRE(t.length); t.data.event_write_request_consumer_buffer.ptr = mem(t.length); agreed = t.length; } else { t.length = 0; t.data.event_write_request_producer_buffer.mtu = mtu; agreed = own ? s.transaction_length : sizeof(void *); if (mtu && mtu < agreed) agreed = mtu; }
    T_t r = t; s.producer.send(embc_stream_source_get_producer(&s), &t); uint32_t sz = left < agreed ? left : agreed;
    if (!o.is_open || left == 0) ENSURE(n_c == 0 && g_copies == 0 && s.tx_offset == o.tx_offset, "nothing is sent when closed or when all data is sent");
    else {
        ENSURE(n_c == 1 && log_c[0].type == EMBC_STREAM_IOCTL_WRITE && log_c[0].length == sz && sz > 0, "one piece, no larger than agreed"); ENSURE(s.tx_offset == o.tx_offset + sz, "the following bytes come next");
        ENSURE(g_copies == 1 && g_src == o.source_buffer + o.tx_offset && g_n == sz && log_c[0].data.ioctl_write.ptr == g_dst, "exactly the next source bytes");
        ENSURE(g_dst == (r.length ? (void *) r.data.event_write_request_consumer_buffer.ptr : s.transaction_length ? (void *) o.transaction_buffer : (void *) &s.transaction_buffer), "in the agreed buffer"); ENSURE(log_c[0].consumer_transaction_id == r.consumer_transaction_id && log_c[0].file_id == r.file_id, "identifiers of the request");
    }
    ENSURE(s.rx_offset == o.rx_offset && SAME() && s.is_open == o.is_open && done_s == 0, "nothing else changes");
}
#define SPLIT2(f) do { if (nd_bool()) { if (nd_bool()) f(0, 0); else f(0, 1); } else if (nd_bool()) f(1, 0); else f(1, 1); } while (0)
VP_HARNESS(h_write_request) { SPLIT2(write_request); REACH(); }
VP_HARNESS(h_write_response) {
    init(); if (nd_bool()) any_source(true); else any_source(false); struct embc_stream_source_s o = s; T_t t = transaction(EMBC_STREAM_IOCTL_WRITE); REQUIRE(!s.is_open || t.length <= s.tx_offset - s.rx_offset); T_t r = t; s.producer.send(&s.producer, &t);
    if (!o.is_open) ENSURE(n_c == 0 && s.rx_offset == o.rx_offset, "ignored when closed");
    else if (r.status) ENSURE(n_c == 1 && log_c[0].type == EMBC_STREAM_IOCTL_CLOSE && log_c[0].status == r.status && !s.is_open, "an error closes the file with that error");
    else { ENSURE(s.rx_offset == o.rx_offset + r.length, "acknowledged"); bool all = s.rx_offset == s.source_length; ENSURE(n_c == all && s.is_open == !all, "closed exactly when every byte is acknowledged"); if (all) ENSURE(log_c[0].type == EMBC_STREAM_IOCTL_CLOSE && log_c[0].status == 0 && log_c[0].length == 0, "success"); }
    ENSURE(s.tx_offset == o.tx_offset && SAME() && done_s == 0 && g_copies == 0 && s.rx_offset <= s.tx_offset, "nothing else changes"); REACH();
}
VP_HARNESS(h_source_other) {
    init(); if (nd_bool()) any_source(true); else any_source(false); struct embc_stream_source_s o = s; uint8_t type = nd_u8(); REQUIRE(type != EMBC_STREAM_EVENT_WRITE_REQUEST && type != EMBC_STREAM_IOCTL_WRITE); T_t t = transaction(type), r = t; s.producer.send(&s.producer, &t);
    if (type == EMBC_STREAM_EVENT_ABORT) { ENSURE(n_c == o.is_open && !s.is_open && done_s == 0, "an abort closes an open file once"); if (n_c) ENSURE(log_c[0].type == EMBC_STREAM_IOCTL_CLOSE && log_c[0].status == EMBC_ERROR_ABORTED, "aborted"); }
    else if (type == EMBC_STREAM_IOCTL_CLOSE) { ENSURE(n_c == 0 && !s.is_open && done_s == (o.done_fn != NULL), "completion is reported"); if (done_s) ENSURE(done_status == r.status, "with the status of the close"); }
    else ENSURE(n_c == 0 && done_s == 0 && s.is_open == o.is_open, "other transactions are ignored");
    ENSURE(s.tx_offset == o.tx_offset && s.rx_offset == o.rx_offset && SAME() && g_copies == 0, "nothing else changes"); REACH();
}
VP_HARNESS(h_open) {
    init(); if (nd_bool()) any_source(true); else any_source(false); struct embc_stream_source_s o = s; bool ex = nd_bool(); uint16_t l = nd_u16(); if (ex) embc_stream_source_open_ex(&s, &l, l); else embc_stream_source_open(&s);
    ENSURE(n_c == 1 && log_c[0].type == EMBC_STREAM_IOCTL_OPEN && log_c[0].status == 0 && log_c[0].length == (ex ? l : 0) && log_c[0].data.ptr == (ex ? (void *) &l : NULL), "opened"); ENSURE(s.tx_offset == 0 && s.rx_offset == 0 && s.is_open && SAME() && done_s == 0, "from the first byte"); REACH();
}
VP_HARNESS(h_close_helper) { init(); uint8_t f = nd_u8(), st = nd_u8(); embc_stream_close(&cons, f, st); ENSURE(n_c == 1 && log_c[0].type == EMBC_STREAM_IOCTL_CLOSE && log_c[0].file_id == f && log_c[0].status == st && log_c[0].length == 0, "close"); REACH(); }
/* an arbitrary sink */
static void any_sink(const bool has_p, const bool dst) {
    uint16_t tl = nd_u16(); REQUIRE(tl); embc_stream_sink_initialize(&k, mem(tl), tl); if (nd_bool()) { k.transaction_buffer = NULL; k.transaction_length = 0; }
    if (has_p) embc_stream_sink_set_producer(&k, &prod); else embc_stream_sink_set_producer(&k, NULL); embc_stream_sink_set_write_fn(&k, k_write, &writes); if (nd_bool()) k.write_fn = NULL;
    uint32_t n = nd_u32(); REQUIRE(n > 0 && n <= MAXLEN); if (dst) embc_stream_sink_receive(&k, mem(n), n, k_done, &done_k); else embc_stream_sink_receive(&k, NULL, 0, k_done, &done_k); if (nd_bool()) k.done_fn = NULL; ENSURE(n_p == 0, "no event before open");
    k.offset = nd_u32(); k.mode = nd_range(0, 1); n_p = 0; REQUIRE(k.offset <= k.dst_length);
}
static void check_request(T_t * t) { ENSURE(t->type == EMBC_STREAM_EVENT_WRITE_REQUEST && t->status == 0, "asks for data"); if (k.transaction_buffer) ENSURE(t->length == k.transaction_length && t->data.event_write_request_consumer_buffer.ptr == k.transaction_buffer, "in the buffer of the sink"); else ENSURE(t->length == 0 && t->data.event_write_request_producer_buffer.mtu == 16 && t->data.event_write_request_producer_buffer.transactions_max == 1, "in pieces of at most 16 bytes"); }
#define KSAME() (k.dst_buffer == o.dst_buffer && k.dst_length == o.dst_length && k.done_fn == o.done_fn && k.write_fn == o.write_fn && k.transaction_buffer == o.transaction_buffer && k.transaction_length == o.transaction_length && k.offset <= k.dst_length)
static void do_sink_write(const bool has_p, const bool dst) {
    init(); any_sink(has_p, dst); T_t t = transaction(EMBC_STREAM_IOCTL_WRITE); t.data.ioctl_write.ptr = mem(t.length); T_t r = t; bool fits = k.dst_buffer && t.length <= k.dst_length - k.offset; REQUIRE(g_q < 0xffff); uint8_t v = 0, keep = 0; uint32_t at = nd_u32();
    if (g_q < t.length) v = t.data.ioctl_write.ptr[g_q]; if (k.dst_buffer && at < k.dst_length) keep = k.dst_buffer[at]; struct embc_stream_sink_s o = k; k.consumer.send(embc_stream_sink_get_consumer(&k), &t);
    ENSURE(k.offset == o.offset + (fits ? r.length : 0) && g_copies == fits, "stored exactly when it fits"); if (fits) { ENSURE(g_dst == o.dst_buffer + o.offset && g_src == r.data.ioctl_write.ptr && g_n == r.length, "after the bytes received so far"); if (g_q < r.length) ENSURE(o.dst_buffer[o.offset + g_q] == v, "the received byte"); }
    if (o.dst_buffer && at < o.dst_length && (!fits || at < o.offset || at >= o.offset + r.length)) ENSURE(o.dst_buffer[at] == keep, "no other byte is written");
    ENSURE(writes == (o.write_fn != NULL), "write callback"); if (writes) ENSURE(write_buf == r.data.ioctl_write.ptr && write_len == r.length, "with the received bytes");
    ENSURE(n_p == (has_p ? 2 : 0), "response and request"); if (has_p) { ENSURE(log_p[0].type == EMBC_STREAM_IOCTL_WRITE && log_p[0].length == r.length && log_p[0].producer_transaction_id == r.producer_transaction_id, "response"); ENSURE(log_p[0].status == (fits || !o.dst_buffer ? r.status : EMBC_ERROR_FULL), "data that does not fit is refused"); check_request(&log_p[1]); }
    ENSURE(KSAME() && k.mode == o.mode && done_k == 0, "nothing else changes");
}
VP_HARNESS(h_sink_write) { SPLIT2(do_sink_write); REACH(); }
static void do_sink_other(const bool has_p, const bool dst) {
    init(); any_sink(has_p, dst); struct embc_stream_sink_s o = k; uint8_t type = nd_u8(); REQUIRE(type != EMBC_STREAM_IOCTL_WRITE); T_t t = transaction(type), r = t; k.consumer.send(&k.consumer, &t);
    if (type == EMBC_STREAM_IOCTL_OPEN) {
        ENSURE(k.offset == 0 && k.mode == 1 && n_p == (has_p ? 2 : 0) && done_k == 0, "opened"); if (has_p) { ENSURE(log_p[0].type == EMBC_STREAM_IOCTL_OPEN && log_p[0].file_id == 1 && log_p[0].status == r.status, "response"); if (o.dst_buffer) check_request(&log_p[1]); else ENSURE(log_p[1].type == EMBC_STREAM_EVENT_DISCONNECT, "nowhere to store data"); }
    } else if (type == EMBC_STREAM_IOCTL_CLOSE) {
        ENSURE(k.offset == o.offset && k.mode == 0 && n_p == has_p && done_k == (o.done_fn != NULL), "completion is reported"); if (done_k) ENSURE(done_buf == o.dst_buffer && done_len == o.offset, "with the bytes received"); if (has_p) ENSURE(log_p[0].type == EMBC_STREAM_IOCTL_CLOSE && log_p[0].status == r.status, "response");
    } else ENSURE(k.offset == o.offset && k.mode == o.mode && n_p == 0 && done_k == 0, "other transactions are ignored");
    ENSURE(KSAME() && g_copies == 0 && writes == 0, "nothing else changes");
}
VP_HARNESS(h_sink_other) { SPLIT2(do_sink_other); REACH(); }
static void do_receive(const bool has_p, const bool dst) {
    init(); any_sink(has_p, dst); struct embc_stream_sink_s o = k; uint32_t n = nd_u32(); REQUIRE(n > 0 && n <= MAXLEN); uint8_t * d = NULL; if (nd_bool()) d = mem(n); embc_stream_sink_receive(&k, d, d ? n : 0, k_done, &done_k);
    ENSURE(k.dst_buffer == d && k.dst_length == (d ? n : 0) && k.offset == 0 && k.done_fn == k_done && k.mode == o.mode && done_k == 0 && g_copies == 0, "receives into the new buffer");
    if (!has_p) ENSURE(n_p == 0, "nobody to inform"); else if (o.dst_buffer && !d) ENSURE(n_p == 1 && log_p[0].type == EMBC_STREAM_EVENT_DISCONNECT, "disconnected"); else if (!o.dst_buffer && d && o.mode) { ENSURE(n_p == 2 && log_p[0].type == EMBC_STREAM_EVENT_CONNECT, "connected"); check_request(&log_p[1]); } else ENSURE(n_p == 0, "no event");
}
VP_HARNESS(h_receive) { SPLIT2(do_receive); REACH(); }
/* source and sink connected; the next write request is held back, so this is one step of any transfer.
 * Invariant: everything sent is acknowledged and stored: tx == rx == offset. */
static int requests; static T_t request;
static void hold(struct embc_stream_producer_s * p, T_t * t) { (void) p; if (t->type == EMBC_STREAM_EVENT_WRITE_REQUEST) { ++requests; request = *t; } else s.producer.send(&s.producer, t); }
static void transfer(const bool own, const bool buf) {
    init(); prod.send = hold; requests = 0; any_source(own); s.done_fn = s_done; s.is_open = true; s.consumer = &k.consumer; REQUIRE(s.tx_offset == s.rx_offset && s.tx_offset < s.source_length);
    uint16_t tl = nd_u16(); REQUIRE(tl); if (buf) embc_stream_sink_initialize(&k, mem(tl), tl); else embc_stream_sink_initialize(&k, NULL, 0); embc_stream_sink_set_producer(&k, &prod); uint32_t n = nd_u32(); REQUIRE(n > 0 && n <= MAXLEN); embc_stream_sink_receive(&k, mem(n), n, k_done, &done_k);
    T_t op = transaction(EMBC_STREAM_IOCTL_OPEN); k.consumer.send(&k.consumer, &op); /* the sink asks for data */
    ENSURE(k.mode == 1, "open"); k.offset = s.tx_offset; REQUIRE(k.offset <= k.dst_length); struct embc_stream_source_s o = s; uint8_t v = 0; REQUIRE(g_q < 0xffff); if (g_q < o.source_length - o.tx_offset) v = o.source_buffer[o.tx_offset + g_q];
    ENSURE(requests == 1, "held back"); requests = 0; T_t t = request; s.producer.send(&s.producer, &t); uint32_t left = o.source_length - o.tx_offset, agreed = buf ? tl : own ? (o.transaction_length < 16 ? o.transaction_length : 16) : sizeof(void *), sz = left < agreed ? left : agreed;
    if (sz <= n - o.tx_offset) {
        ENSURE(k.offset == o.tx_offset + sz && s.tx_offset == k.offset, "the next bytes arrive"); if (g_q < sz) ENSURE(k.dst_buffer[o.tx_offset + g_q] == v, "unchanged");
        if (sz == left) ENSURE(done_s == 1 && done_k == 1 && done_status == 0 && done_len == o.source_length && done_buf == k.dst_buffer && !s.is_open, "complete, reported once on both ends"); else ENSURE(done_s == 0 && done_k == 0 && s.is_open && s.rx_offset == s.tx_offset && requests == 1, "the transfer goes on");
    } else ENSURE(k.offset == o.tx_offset && done_s == 1 && done_status == EMBC_ERROR_FULL && done_k == 1 && done_len == o.tx_offset && !s.is_open, "a transfer larger than the sink fails");
}
VP_HARNESS(h_transfer) { SPLIT2(transfer); REACH(); }
VP_HARNESS(h_misuse) { init(); EXPECT_FATAL(); uint32_t z = nd_range(0, 10); uint8_t b[1]; T_t t = transaction(0); switch (z) { case 0: embc_stream_source_initialize(NULL, b, 1); break; case 1: embc_stream_source_set_consumer(NULL, &cons); break; case 2: embc_stream_source_get_producer(NULL); break; case 3: embc_stream_source_configure(&s, NULL, 1, 0, 0); break; case 4: embc_stream_source_configure(&s, b, 0, 0, 0); break;
    case 5: embc_stream_sink_initialize(NULL, b, 1); break; case 6: embc_stream_sink_get_consumer(NULL); break; case 7: embc_stream_sink_set_producer(NULL, 0); break; case 8: embc_stream_sink_set_write_fn(NULL, 0, 0); break; case 9: embc_stream_sink_receive(NULL, b, 1, 0, 0); break; default: embc_stream_sink_initialize(&k, NULL, 0); k.consumer.send(NULL, &t); } MUST_NOT_RETURN("misuse is detected"); }
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
