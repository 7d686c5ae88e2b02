/* C26 native: a peer that keeps at most three frames unacknowledged, over a link that loses, duplicates, reorders and damages frames in the window; real checksums, received as bytes. */
#include "vp.h"
#include "embc.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "embc/time.h"
#include "c01_ref.h"
static uint8_t r8(const uint8_t * p, int n) { uint8_t c = 0xff; while (n--) c = ref_step8(c, *p++); return ~c; }
static uint32_t r32(const uint8_t * p, int n) { uint32_t c = ~0u; while (n--) c = ref_step32(c, *p++); return ~c; }
#define M 120
static uint8_t fr[M][256]; static unsigned flen[M]; static int next, acks, a_port, a_mid, a_id, a_status; static uint16_t a_mask; static struct embc_framer_s * f; static int64_t now, tmo; static bool ton; static void (* tfn)(void *, uint32_t); static void * tu; static struct embc_buffer_s * held[8]; static int nheld; static uint32_t tid; static int dropped[32];
static void tx(void * h, struct embc_buffer_s * b) { (void) h; ++acks; uint32_t c; memcpy(&c, b->data + 9, 4); ENSURE(b->length == 14 && b->data[0] == 0xAA && b->data[4] == 1 && b->data[7] == r8(b->data, 7) && c == r32(b->data, 9), "the acknowledgement is a valid frame"); a_id = b->data[1]; a_port = b->data[2]; a_mid = b->data[3]; a_mask = b->data[5] | b->data[6] << 8; a_status = b->data[8]; ENSURE(nheld < 8, "traffic"); held[nheld++] = b; }
static int64_t tm_(void * h) { (void) h; return now; }
static int32_t ts(void * h, int64_t t, void (* cb)(void *, uint32_t), void * u, uint32_t * id) { (void) h; ENSURE(!ton, "one timer"); ton = true; tmo = t; tfn = cb; tu = u; *id = ++tid; return 0; }
static int32_t tc(void * h, uint32_t id) { (void) h; ENSURE(ton && id == tid, "cancels its timer"); ton = false; return 0; }
static void rx(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) { ENSURE(u == &dropped[port], "the port"); ENSURE(next < M, "only what was sent"); uint8_t * d = fr[next]; ENSURE(port == d[2] && mid == d[3] && def == (d[5] | d[6] << 8) && embc_buffer_length(b) - b->cursor == d[4] && memcmp(b->data + b->cursor, d + 8, d[4]) == 0, "once, in transmit order"); ++next; embc_buffer_free(b); }
static void seal(uint8_t * d, int id, int port, int mid, int def, int L) { d[0] = 0xAA; d[1] = id; d[2] = port; d[3] = mid; d[4] = L; d[5] = def; d[6] = def >> 8; d[7] = r8(d, 7); for (int i = 0; i < L; ++i) d[8 + i] = nd_u8(); uint32_t c = r32(d, 8 + L); memcpy(d + 8 + L, &c, 4); d[12 + L] = 0xAA; }
static void feed(uint8_t * d, unsigned n) { embc_framer_hal_rx_buffer(f, d, n); while (nheld) embc_framer_hal_tx_done(f, held[--nheld]); }
VP_HARNESS(b_history) {
    embc_size_t sizes[] = {20, 2, 2, 20}; struct embc_buffer_allocator_s * a = embc_buffer_allocator_new(sizes, 4); struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.tx_fn = tx; c.time_get = tm_; c.timer_set_fn = ts; c.timer_cancel_fn = tc;
    f = vp_alloc(embc_framer_instance_size()); ton = false; nheld = 0; now = 1000; next = 0; embc_framer_initialize(f, a, &c); for (int i = 1; i < 16; ++i) { struct embc_framer_port_callbacks_s pc = {&dropped[i], rx, NULL}; embc_framer_register_port_callbacks(f, i, &pc); }
    int id0 = nd_range(0, 15), n = nd_range(1, M); uint8_t t[256]; if (nd_bool()) { seal(t, nd_range(0, 15), 1, 0, 0, 4); t[20] = 0; int k = next; seal(fr[0], t[1], 1, 0, 0, 4); memcpy(fr[0], t, 17); feed(t, 17); ENSURE(next == k, "what is pending waits"); }
    for (int i = 0; i < n; ++i) { int L = nd_range(0, 9) ? nd_range(0, 12) : nd_range(0, 240); seal(fr[i], (id0 + 1 + i) & 15, nd_range(1, 15), nd_u8(), nd_u16(), L); flen[i] = L + 13; }
    next = 0; seal(t, id0, 0, nd_u8(), 2, 0); acks = 0; feed(t, 13); ENSURE(acks == 1 && a_id == (0x80 | id0) && a_status == 0, "the link reset is acknowledged");
    bool got[M] = {false}; int r = 0, o = 0;   /* r: after the last received; o: first not received */
    for (int step = 0; step < 3000 && o < n; ++step) {
        int lo = r - 3 > 0 ? r - 3 : 0, hi = o + 2 < n - 1 ? o + 2 : n - 1, s = nd_range(0, 3) == 0 ? o : nd_range(lo, hi); if (s < lo) s = lo; now += nd_range(0, 2) ? 0 : EMBC_TIME_MILLISECOND * 10; if (ton && now >= tmo) { ton = false; tfn(tu, tid); }
        if (nd_range(0, 5) == 0) { memcpy(t, fr[s], flen[s]); t[nd_range(8, flen[s] - 2)] ^= 1 << nd_range(0, 7); int k = next; feed(t, flen[s]); feed((uint8_t[300]) {0}, 260); ENSURE(next == k, "a damaged frame is not delivered"); continue; }
        acks = 0; bool dup = got[s]; int k = next; feed(fr[s], flen[s]); got[s] = true; if (s >= r) r = s + 1; while (o < n && got[o]) ++o; if (dup) ENSURE(next == k, "a duplicate is discarded");
        ENSURE(acks == 1 && a_id == (0x80 | fr[s][1]) && a_port == fr[s][2] && a_mid == fr[s][3] && a_status == 0, "the frame is acknowledged"); for (int j = -2; j <= 2; ++j) if (s - j >= -1) ENSURE(((a_mask >> (8 - j)) & 1) == (s - j == -1 || (s - j < r && got[s - j])), "the acknowledgement tells which frames around it were received"); ENSURE(next == o || r > o, "delivered when nothing is missing"); ENSURE(next <= o && next >= o - 2, "delivered in order, late by two frames at most"); if (next < r) ENSURE(ton && tmo <= now + EMBC_TIME_SECOND, "pending frames are flushed in bounded time");
    }
    ENSURE(o < n || next == n, "everything is delivered"); vp_free(f); vp_free(a);
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
