/* C28 native: whole transfers between a source and a sink with random sizes, buffers and delivery order, compared with the data sent. */
#include "vp.h"
#include "embc.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
typedef struct embc_stream_transaction_s T_t;
static struct embc_stream_source_s s; static struct embc_stream_sink_s k; static struct embc_stream_consumer_s cq; static struct embc_stream_producer_s pq;
static struct { int dir; T_t t; } q[4096]; static unsigned qh, qt; static bool deferred; static int ds, dk, closes, wsum; static uint8_t ds_status; static uint32_t dk_len, written; static uint8_t * src; static bool wbad, closed_then_io;
static void to_k(T_t * t) { if (t->type == EMBC_STREAM_IOCTL_CLOSE) ++closes; else if (closes && t->type == EMBC_STREAM_IOCTL_WRITE) closed_then_io = true; k.consumer.send(&k.consumer, t); }
static void csend(struct embc_stream_consumer_s * c, T_t * t) { (void) c; if (deferred) { ENSURE(qt < 4096, "bounded traffic"); q[qt].dir = 0; q[qt++].t = *t; } else to_k(t); }
static void psend(struct embc_stream_producer_s * p, T_t * t) { (void) p; if (deferred) { ENSURE(qt < 4096, "bounded traffic"); q[qt].dir = 1; q[qt++].t = *t; } else s.producer.send(&s.producer, t); }
static void sdone(void * u, uint8_t st) { (void) u; ++ds; ds_status = st; }
static void kdone(void * u, uint8_t const * b, uint32_t n) { (void) u; (void) b; ++dk; dk_len = n; }
static void kwrite(void * u, uint8_t const * b, uint32_t n) { (void) u; if (memcmp(b, src + written, n)) wbad = true; written += n; }
VP_HARNESS(b_transfer) {
    uint32_t n = nd_range(1, 400), cap = nd_bool() ? n : nd_range(1, 450); uint16_t sl = nd_bool() ? nd_range(1, 40) : 0, kl = nd_bool() ? nd_range(1, 40) : 0; deferred = nd_bool(); bool wfn = nd_bool(), late = nd_bool(); int abort_at = nd_bool() ? (int) nd_range(0, 60) : -1;
    src = malloc(n); uint8_t * dst = malloc(cap), * sb = sl ? malloc(sl) : NULL, * kb = kl ? malloc(kl) : NULL; for (uint32_t i = 0; i < n; ++i) src[i] = nd_u8(); memset(dst, 0xa5, cap);
    cq.send = csend; pq.send = psend; embc_stream_source_initialize(&s, sb, sl); embc_stream_sink_initialize(&k, kb, kl); embc_stream_source_set_consumer(&s, &cq); embc_stream_sink_set_producer(&k, &pq);
    embc_stream_source_configure(&s, src, n, sdone, NULL); embc_stream_sink_set_write_fn(&k, wfn ? kwrite : NULL, NULL); uint32_t files = nd_range(1, 2);
    for (uint32_t f = 0; f < files; ++f) {
        bool abrt = false; qh = qt = 0; ds = dk = closes = 0; written = 0; wbad = closed_then_io = false; if (!late) embc_stream_sink_receive(&k, dst, cap, kdone, NULL); else embc_stream_sink_receive(&k, NULL, 0, kdone, NULL); embc_stream_source_open(&s); bool first = true;
        for (int step = 0; ; ++step) {
            if (deferred && step == abort_at && !ds && !closes) { T_t t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_EVENT_ABORT; abrt = true; for (unsigned i = qh; i < qt; ++i) if (q[i].t.type == EMBC_STREAM_IOCTL_CLOSE) abrt = false; s.producer.send(&s.producer, &t); }
            if (qh == qt) { if (late && first) { first = false; embc_stream_sink_receive(&k, dst, cap, kdone, NULL); continue; } break; }
            T_t t = q[qh].t; if (q[qh++].dir) s.producer.send(&s.producer, &t); else to_k(&t);
        }
        ENSURE(ds == 1 && dk == 1 && closes == 1, "a transfer completes exactly once on both ends"); ENSURE(!closed_then_io, "nothing is written after close"); ENSURE(dk_len <= n && dk_len <= cap && memcmp(src, dst, dk_len) == 0, "the sink holds what the source sent");
        if (abrt) ENSURE(ds_status == EMBC_ERROR_ABORTED, "aborted"); else if (n <= cap) ENSURE(ds_status == 0 && dk_len == n, "the sink receives exactly the source"); else ENSURE(ds_status == EMBC_ERROR_FULL, "overflow is reported");
        if (wfn) ENSURE(!wbad && written <= n && (abrt || n > cap || written == n), "write callback");
        for (uint32_t i = dk_len; i < cap; ++i) ENSURE(dst[i] == 0xa5, "no other byte is written"); memset(dst, 0xa5, cap);
    }
    free(src); free(dst); free(sb); free(kb);
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
