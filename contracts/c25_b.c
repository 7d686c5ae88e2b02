/* C25 native: random streams of intact, damaged, nested and cut frames with noise, in random chunks; delivered frames are compared with a left-to-right parse of the whole stream. */
#include "vp.h"
#include "embc.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "c01_ref.h"
static uint8_t r8(const uint8_t * p, int n) { uint8_t c = 0xff; while (n--) c = ref_step8(c, *p++); return ~c; }
static uint32_t r32(const uint8_t * p, int n) { uint32_t c = ~0u; while (n--) c = ref_step32(c, *p++); return ~c; }
static uint8_t st[6000], ret[64][256]; static unsigned n, nref, len_ref[64], got; static struct embc_buffer_s * held[4096]; static unsigned nheld; static bool bad; static int pings;
static void tx(void * h, struct embc_buffer_s * b) { (void) h; ENSURE(nheld < 4096, "traffic"); held[nheld++] = b; }
static int64_t tm(void * h) { (void) h; return 0; }
static int32_t ts(void * h, int64_t t, void (* f)(void *, uint32_t), void * u, uint32_t * id) { (void) h; (void) t; (void) f; (void) u; *id = 1; return 0; }
static int32_t tc(void * h, uint32_t id) { (void) h; (void) id; return 0; }
static void hook(void * u, struct embc_buffer_s * b) { (void) u; ENSURE(got < nref, "only intact frames of the stream are delivered"); ENSURE(embc_buffer_length(b) == len_ref[got] && b->cursor == 0 && memcmp(b->data, ret[got], len_ref[got]) == 0, "the delivered frame is the next intact frame of the stream"); ++got; embc_buffer_free(b); }
static void prx(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) { (void) u; (void) mid; (void) def; ENSURE(port < 16 && b->cursor == 8 && b->length >= 8 && b->length <= 248, "delivered to a port"); embc_buffer_free(b); }
static unsigned frame(uint8_t * p, int depth) {
    unsigned L = nd_range(0, 3) == 0 ? nd_range(0, 240) : nd_range(0, 20); uint8_t type = nd_range(0, 2) == 0 ? 0x80 : 0; p[0] = 0xAA; p[1] = type | nd_range(0, 15); p[2] = nd_range(0, 20); p[3] = nd_u8(); if (type && nd_bool()) L = 1; p[4] = L; p[5] = nd_range(0, 9); p[6] = nd_range(0, 3) ? 0 : nd_range(0, 2); p[7] = r8(p, 7);
    for (unsigned i = 0; i < L; ++i) p[8 + i] = nd_range(0, 7) == 0 ? 0xAA : nd_u8(); bool nest = depth < 2 && nd_range(0, 3) == 0; unsigned k = 0; if (nest) { uint8_t t[800]; k = frame(t, depth + 1); if (k <= L + 5) { unsigned o = nd_bool() ? L + 5 - k : nd_range(0, L + 5 - k); uint32_t c; if (o + k <= L) { memcpy(p + 8 + o, t, k); goto crc; c = 0; (void) c; } memcpy(p + 8 + o, t, k); return L + 13; } }
crc: { uint32_t c = r32(p, 8 + L); for (int i = 0; i < 4; ++i) p[8 + L + i] = c >> (8 * i); p[12 + L] = nd_range(0, 9) ? 0xAA : nd_u8(); }
    uint32_t dmg = nd_range(0, 5); if (dmg == 0) p[nd_range(0, L + 12)] ^= 1 << nd_range(0, 7); if (dmg == 1) return nd_range(1, L + 13); if (dmg == 2 && depth == 0) { p[4] = nd_u8(); p[7] = r8(p, 7); } return L + 13;
}
VP_HARNESS(b_stream) {
    bool hooked = nd_bool(); embc_size_t sizes[] = {60, 2, 2, 60}; struct embc_buffer_allocator_s * a = embc_buffer_allocator_new(sizes, 4); struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.tx_fn = tx; c.time_get = tm; c.timer_set_fn = ts; c.timer_cancel_fn = tc;
    struct embc_framer_s * f = vp_alloc(embc_framer_instance_size()); embc_framer_initialize(f, a, &c); if (hooked) embc_framer_register_rx_hook(f, hook, NULL); struct embc_framer_port_callbacks_s pc = {NULL, prx, NULL}; for (int i = 0; i < 16; ++i) if (nd_bool()) embc_framer_register_port_callbacks(f, i, &pc);
    n = nref = got = nheld = 0; bad = false; pings = 0; uint32_t parts = nd_range(1, 12); for (uint32_t i = 0; i < parts; ++i) { if (nd_range(0, 2) == 0) { uint32_t k = nd_range(0, 12); while (k--) st[n++] = nd_range(0, 3) ? nd_u8() : 0xAA; } n += frame(st + n, 0); } memset(st + n, 0, 300); n += 300;
    for (unsigned i = 0; i < n; ) {   /* the intact frames, from left to right */
        if (st[i] == 0xAA && n - i >= 8 && st[i + 7] == r8(st + i, 7)) { unsigned L = st[i + 4]; if (st[i + 1] == 0xAA) bad = true; if (L <= 240 && n - i >= L + 13) { uint32_t x = r32(st + i, 8 + L), y; memcpy(&y, st + i + 8 + L, 4); if (x == y) { REQUIRE(nref < 64); len_ref[nref] = L + 13; memcpy(ret[nref++], st + i, L + 13); if (!(st[i + 1] & 0x80) && st[i + 2] == 0 && st[i + 6] == 0 && (st[i + 5] == 4 || st[i + 5] == 6)) ++pings; i += L + 13; continue; } } }
        ++i;
    }
    REQUIRE(!bad);   /* a frame identifier byte equal to the start of frame is not part of the format */
    for (unsigned i = 0; i < n; ) { unsigned k = nd_range(0, 2) ? nd_range(0, 40) : 1; if (k > n - i) k = n - i; if (k == 1 && nd_bool()) embc_framer_hal_rx_byte(f, st[i]); else embc_framer_hal_rx_buffer(f, st + i, k); i += k; while (nheld && (nheld > 20 || nd_bool())) { struct embc_buffer_s * b = held[0]; memmove(held, held + 1, --nheld * sizeof(*held)); embc_framer_hal_tx_done(f, b); } }
    while (nheld) { struct embc_buffer_s * b = held[0]; memmove(held, held + 1, --nheld * sizeof(*held)); embc_framer_hal_tx_done(f, b); }
    if (hooked) ENSURE(got == nref, "every intact frame is delivered"); if (!hooked) embc_framer_resync(f); /* drops everything that is queued */ int keep = hooked ? 1 : 2; for (int i = 0; i < 60; ++i) embc_buffer_alloc(a, 14); for (int i = 0; i < 60 - keep; ++i) embc_buffer_alloc(a, 253);   /* fatal when a buffer leaked */
    vp_free(f); vp_free(a);
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
