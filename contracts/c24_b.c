#include "vp.h"
#include "embc.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "c01_ref.h"
static uint8_t r8(const uint8_t * p, int n) { uint8_t c = 0xff; while (n--) c = ref_step8(c, *p++); return ~c; }
static uint32_t r32(const uint8_t * p, int n) { uint32_t c = ~0u; while (n--) c = ref_step32(c, *p++); return ~c; }
static int32_t ref(const uint8_t * p, unsigned n) {
    if (n < 8) return EMBC_ERROR_EMPTY; if (p[0] != 0xAA || p[7] != r8(p, 7)) return EMBC_ERROR_IO; if (p[4] > 240) return EMBC_ERROR_TOO_BIG; if (n < p[4] + 13u) return EMBC_ERROR_TOO_SMALL;
    uint32_t c; memcpy(&c, p + 8 + p[4], 4); return c == r32(p, 8 + p[4]) ? 0 : EMBC_ERROR_MESSAGE_INTEGRITY;
}
static void tx(void * h, struct embc_buffer_s * b) { (void) h; (void) b; }
static int64_t tm(void * h) { (void) h; return 0; }
static int32_t ts(void * h, int64_t t, void (* f)(void *, uint32_t), void * u, uint32_t * id) { (void) h; (void) t; (void) f; (void) u; *id = 1; return 0; }
static int32_t tc(void * h, uint32_t id) { (void) h; (void) id; return 0; }
VP_HARNESS(b_frames) {
    embc_size_t sizes[] = {4, 4, 4, 4}; struct embc_buffer_allocator_s * a = embc_buffer_allocator_new(sizes, 4);
    struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.tx_fn = tx; c.time_get = tm; c.timer_set_fn = ts; c.timer_cancel_fn = tc;
    struct embc_framer_s * f = vp_alloc(embc_framer_instance_size()); embc_framer_initialize(f, a, &c);
    for (int k = 0; k < 20; ++k) {
        uint8_t want[260], pay[256]; int L = nd_bool() ? nd_range(0, 240) : nd_range(0, 9); uint8_t id = nd_u8(), port = nd_range(0, 15), mid = nd_u8(), st = nd_u8(); uint16_t def = nd_u16(); nd_bytes(pay, L); bool ack = nd_range(0, 3) == 0;
        struct embc_buffer_s * b; if (ack) { port = nd_u8(); L = 1; pay[0] = st; b = embc_framer_construct_ack(f, id, port, mid, def, st); } else b = embc_framer_construct_frame(f, id, port, mid, def, pay, L);
        want[0] = 0xAA; want[1] = (id & 15) | (ack ? 0x80 : 0); want[2] = port; want[3] = mid; want[4] = L; want[5] = def; want[6] = def >> 8; want[7] = r8(want, 7); memcpy(want + 8, pay, L); uint32_t x = r32(want, 8 + L); for (int i = 0; i < 4; ++i) want[8 + L + i] = x >> (8 * i); want[12 + L] = 0xAA;
        ENSURE(embc_buffer_length(b) == L + 13 && 0 == memcmp(b->data, want, L + 13), "frame bytes"); embc_buffer_free(b);
        for (int q = 0; q < 6; ++q) {
            unsigned n = q < 2 ? L + 13 : nd_bool() ? nd_range(0, L + 13) : L + 13 + nd_range(0, 20); uint8_t * p = malloc(n); for (unsigned i = 0; i < n; ++i) p[i] = i < L + 13u ? want[i] : 0x55;
            if (q) { int m = nd_range(0, 3); while (m-- && n) { p[nd_bool() ? nd_range(0, n - 1) : nd_range(0, n < 8 ? n - 1 : 7)] ^= 1 << nd_range(0, 7); } if (n > 7 && nd_range(0, 2) == 0) p[7] = r8(p, 7); }
            uint16_t len = 0x7777; int32_t r = embc_framer_validate(p, n, nd_bool() ? &len : 0); int32_t e = ref(p, n); ENSURE(r == e, "validation result"); if (len != 0x7777) ENSURE(len == p[4] + 13, "frame size"); if (!q) ENSURE(r == 0, "a constructed frame validates"); free(p);
        }
    }
    vp_free(f); vp_free(a);
}
VP_MAIN(b_frames)
