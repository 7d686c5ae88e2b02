/* C25: one received byte, on an arbitrary reachable receiver.  Positions count bytes from the start of the receive
 * buffer; one arbitrary position g_q is tracked: it is consumed only as part of a delivered frame (fate 2) or after it
 * was found not to start a frame (fate 1).  Frame validation goes through its specification (C24). */
#include <string.h>
static void * vp_memcpy(void * d, const void * s, size_t n);
static void * vp_memset(void * d, int v, size_t n) { return memset(d, v, n); }
#define memcpy vp_memcpy
#include "vp.h"
#define embc_buffer_alloc real_buffer_alloc_
#define embc_buffer_free real_buffer_free_
#define embc_buffer_erase real_buffer_erase_
#include "src/memory/buffer.c"
#undef embc_buffer_alloc
#undef embc_buffer_free
#undef embc_buffer_erase
#undef memcpy
typedef struct embc_buffer_s B_t;
static void e_free(B_t * b); static void e_erase(B_t * b, embc_size_t start, embc_size_t end);
static inline void embc_buffer_free(B_t * b) { e_free(b); }
static inline void embc_buffer_erase(B_t * b, embc_size_t s, embc_size_t e) { e_erase(b, s, e); }
B_t * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size);
#include "embc.h"
#include "embc/ec.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
static uint8_t rd[256], nd[256], ad[32]; static B_t rb, nb, ab; static bool n_live, a_live, r_live; static struct embc_buffer_manager_s mgr;
#define SETB(p, dat, cap, len) { B_t t_ = {.data = dat, .capacity = cap, .cursor = len, .length = len, .reserve = 0, .buffer_id = 0, .flags = 0, .manager = &mgr, .item = {&(p).item, &(p).item}}; memcpy((void *) &(p), &t_, sizeof(t_)); }
static const uint8_t * g_src; static uint32_t g_i;
static uint32_t g_total, g_q, g_base, g_pos, g_end; static int g_fate, g_frames, g_nacks; static uint8_t g_v; static int32_t g_rc; static uint16_t g_vlen; static uint8_t g_c8; static bool g_order, g_content;
static void * vp_memcpy(void * d, const void * s, size_t n) {   /* copies; only the tracked byte matters */
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copy stays inside both objects");
    if (g_q >= g_base) { const uint8_t * p = rd + (g_q - g_base); if (__CPROVER_same_object(s, p) && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(s)) { size_t o = __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(s); if (o < n) ((uint8_t *) d)[o] = *p; } }
    return d;
}
B_t * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size) {
    (void) self;
    if (size == 14) { ENSURE(!a_live, "acknowledgements are handed to the HAL before the next one"); a_live = true; SETB(ab, ad, 14, 0); return &ab; }
    ENSURE(size == 253, "receive buffers hold the largest frame"); ENSURE(!n_live, "at most one frame besides the receive buffer"); n_live = true; SETB(nb, nd, 253, 0); return &nb;
}
static void e_free(B_t * b) { if (b == &nb) { ENSURE(n_live, "freed once"); n_live = false; } else if (b == &rb) { ENSURE(r_live, "freed once"); r_live = false; } else { ENSURE(b == &ab && a_live, "freed once"); a_live = false; } }
static void e_erase(B_t * b, embc_size_t start, embc_size_t end) {   /* C04: the rest moves to the front */
    ENSURE(b == &rb && start == 0 && rb.length > 0 && end <= rb.length, "erases received bytes"); ENSURE(b->cursor == b->length, "cursor at the end");
    uint32_t n = rb.length - end; uint8_t d0 = rd[end], d4 = rd[end + 4 < 256 ? end + 4 : 0], dq = 0; bool has = g_q >= g_base + end && g_q < g_base + rb.length; if (has) dq = rd[g_q - g_base];
    if (g_q >= g_base && g_q < g_base + end) ENSURE(g_fate != 0 || (g_rc == 0 && g_q >= g_pos && g_q < g_pos + g_vlen /* about to be delivered */), "no position is given up before it was found not to start a frame");
    __CPROVER_havoc_object(rd); if (n > 0) rd[0] = d0; if (n > 4) rd[4] = d4; g_base += end; if (has) rd[g_q - g_base] = dq; rb.length = n; rb.cursor = n;
}
uint8_t embc_crc_ccitt_8(uint8_t crc, uint8_t const * data, uint32_t length) { (void) crc; __CPROVER_assert(__CPROVER_r_ok(data, length), "readable"); uint8_t v = nd_u8(); if (data == rd) g_c8 = v; return v; }
uint32_t embc_crc32(uint32_t crc, uint8_t const * data, uint32_t length) { (void) crc; __CPROVER_assert(__CPROVER_r_ok(data, length), "readable"); return nd_u32(); }
#define BAD(r) ((r) == EMBC_ERROR_IO || (r) == EMBC_ERROR_TOO_BIG || (r) == EMBC_ERROR_MESSAGE_INTEGRITY)
int32_t embc_framer_validate(uint8_t const * buffer, uint16_t n, uint16_t * length)
__CPROVER_requires(n <= 253 && __CPROVER_r_ok(buffer, n) && __CPROVER_rw_ok(length, 2))
__CPROVER_assigns(*length, g_rc, g_vlen, g_pos, g_fate)
__CPROVER_ensures((__CPROVER_return_value == EMBC_ERROR_EMPTY) == (n < 8))
__CPROVER_ensures(__CPROVER_return_value == EMBC_ERROR_EMPTY || __CPROVER_return_value == EMBC_ERROR_IO || __CPROVER_return_value == EMBC_ERROR_TOO_BIG || __CPROVER_return_value == EMBC_ERROR_TOO_SMALL || __CPROVER_return_value == EMBC_ERROR_MESSAGE_INTEGRITY || __CPROVER_return_value == 0)
__CPROVER_ensures(n < 8 || __CPROVER_return_value == EMBC_ERROR_IO || buffer[0] == 0xAA)
__CPROVER_ensures(n < 8 || __CPROVER_return_value == EMBC_ERROR_IO || (__CPROVER_return_value == EMBC_ERROR_TOO_BIG) == (buffer[4] > 240))
__CPROVER_ensures(n < 8 || __CPROVER_return_value == EMBC_ERROR_IO || __CPROVER_return_value == EMBC_ERROR_TOO_BIG || (*length == buffer[4] + 13 && (__CPROVER_return_value == EMBC_ERROR_TOO_SMALL) == (n < *length)))
__CPROVER_ensures(g_rc == __CPROVER_return_value && g_vlen == *length && g_pos == g_base + (uint32_t) __CPROVER_POINTER_OFFSET(buffer))
__CPROVER_ensures(g_fate == (g_pos == g_q && BAD(__CPROVER_return_value) ? 1 : OLD(g_fate)));
#define IN_BUFFER (g_q >= g_base)
#define QI (g_q - g_base)
/* loop invariant of framer_resync: every byte before the scan position has its fate */
#define RESYNC_INV (rb.cursor == rb.length && rb.length == count && count <= 253 && (i >= 1 || g_frames > 0) && i <= count && (self->rx_state == ST_SOF_UNSYNC || self->rx_state == ST_SOF) \
    && !n_live && !a_live && r_live && g_base <= 253 && g_total <= 253 && g_base + count == g_total && g_end <= g_base && g_order && g_content && (g_frames > 0 || g_base == 0) && g_frames >= 0 && g_frames <= 20 && g_frames * 13 <= (int) g_base \
    && (g_q >= g_base ? (QI < i ? g_fate != 0 : g_fate == 0) && (QI >= count || rd[QI] == g_v) : g_fate != 0))
#define RESYNC_ASSIGNS i, sz, count, length, self->rx_state, self->rx_remaining, self->status, rb.length, rb.cursor, __CPROVER_object_whole(rd), __CPROVER_object_whole(nd), __CPROVER_object_whole(&nb), n_live, g_base, g_pos, g_end, g_fate, g_frames, g_rc, g_vlen, g_order, g_content, vp_nd_rec
#define RESYNC_GHOST if (IN_BUFFER && QI == i && i < count && rd[i] != 0xAA) g_fate = 1;
#define RESYNC_BEFORE { if (g_q == 0 && g_fate == 0) { ENSURE(rd[0] != 0xAA || rd[4] > 240 || rd[7] != g_c8, "only a byte that does not start a frame is skipped"); g_fate = 1; } }
#include "src/stream/framer.c"
static struct embc_framer_s f;
static void hook(void * u, B_t * b) {   /* a frame is delivered */
    ENSURE(u == &g_frames, "user data"); ENSURE(g_rc == 0 && b->length == g_vlen && b->cursor == 0 && b->reserve == 0, "only a frame that validates is delivered, whole");
    g_order = g_order && g_pos >= g_end; g_end = g_pos + g_vlen; ++g_frames;
    if (g_q >= g_pos && g_q < g_end) { ENSURE(g_fate == 0 || g_q != g_pos, "not rejected before"); g_content = g_content && b->data[g_q - g_pos] == g_v; g_fate = 2; }
    e_free(b);
}
static void hal_tx(void * h, B_t * b) { (void) h; ENSURE(b == &ab, "a negative acknowledgement"); ++g_nacks; e_free(b); }
static int64_t hal_time(void * h) { (void) h; return nd_i64(); }
static void setup(void) {
    vp_fatal_expected = 0; n_live = a_live = false; r_live = true; g_base = g_pos = g_end = g_total = 0; g_fate = g_frames = g_nacks = 0; g_rc = 0; g_vlen = 0; g_order = g_content = true; g_v = 0; g_q = 0;
    memset(&f, 0, sizeof(f)); f.rx_hook_fn = hook; f.rx_hook_user_data = &g_frames; f.hal_cbk.tx_fn = hal_tx; f.hal_cbk.time_get = hal_time;
}
#define SYNC(s) ((s) == ST_SOF || (s) == ST_HEADER)
/* what holds between bytes */
static bool inv(B_t * b, const uint8_t * d) {
    if (f.rx_buffer != b || b->cursor != b->length || b->length > 252 || b->capacity < 253 || b->reserve != 0) return false;
    switch (f.rx_state) {
        case ST_SOF: case ST_SOF_UNSYNC: return b->length == 0 || (b->length == 1 && d[0] == 0xAA);
        case ST_HEADER: case ST_HEADER_UNSYNC: return f.rx_remaining >= 1 && b->length >= 1 && (b->length + f.rx_remaining == 8 || (b->length + f.rx_remaining == 7 && d[0] != 0xAA));
        case ST_PAYLOAD_AND_FOOTER: return f.rx_remaining >= 1 && b->length >= 8 && d[0] == 0xAA && d[4] <= 240 && b->length + f.rx_remaining == d[4] + 13;
        default: return false;
    }
}
/* one group per state, with the last byte of a header or frame apart */
#ifndef STATE
#define STATE ST_SOF
#define LAST 0
#endif
VP_HARNESS(h_byte) {
    setup(); uint16_t n = nd_range(0, 252); SETB(rb, rd, 253 + nd_range(0, 3), n); __CPROVER_havoc_object(rd); f.rx_buffer = &rb;
    f.rx_state = STATE; f.rx_remaining = nd_u16(); if (LAST) f.rx_remaining = 1; else REQUIRE(f.rx_remaining > 1);
    f.rx_frame_id = nd_range(0, 15); f.rx_frame_bitmask = nd_u16(); REQUIRE(inv(&rb, rd));
    uint8_t byte = nd_u8(); g_total = n + 1; g_q = nd_range(0, 252); REQUIRE(g_q <= n); g_v = g_q < n ? rd[g_q] : byte; uint8_t st = f.rx_state; bool skip_sof = (st == ST_SOF || st == ST_SOF_UNSYNC) && n == 1 && byte == 0xAA;
    embc_framer_hal_rx_byte(&f, byte);
    if (f.rx_buffer == &rb) {
        ENSURE(inv(&rb, rd) && !n_live && r_live, "the receiver stays well-formed");
        if (skip_sof) ENSURE(rb.length == 1, "repeated start of frame bytes are dropped");
        else if ((st == ST_SOF || st == ST_SOF_UNSYNC) && byte == 0xAA && n == 0) ENSURE(rb.length == 1 && g_frames == 0, "start of frame");
        else { ENSURE(g_base + rb.length == n + 1u, "every byte is kept or consumed"); if (g_q >= g_base) ENSURE(rd[g_q - g_base] == g_v, "kept unchanged"); else ENSURE(g_fate != 0, "consumed only with a reason"); }
    } else { ENSURE(f.rx_buffer == &nb && inv(&nb, nd) && n_live && !r_live && nb.length == 0, "a new receive buffer"); ENSURE(g_frames == 1 && g_pos == 0 && g_end == n + 1u && g_fate == 2 && st == ST_PAYLOAD_AND_FOOTER, "the complete frame was delivered"); }
    ENSURE(g_content && g_order, "delivered frames are the received bytes, in order"); ENSURE(!a_live && g_nacks <= 1, "no buffer is leaked"); REACH();
}
/* buffers are received byte by byte */
#ifdef BYTES
void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte)
__CPROVER_requires(self == &f && byte == g_src[g_i]) __CPROVER_assigns(g_i) __CPROVER_ensures(g_i == OLD(g_i) + 1);
#endif
VP_HARNESS(h_buffer) {
    setup(); uint32_t n = nd_u32(); REQUIRE(n <= 0x7fffffff); uint8_t * p = malloc(n); REQUIRE(p != NULL); g_src = p; g_i = 0; embc_framer_hal_rx_buffer(&f, n ? p : NULL, n); ENSURE(g_i == n, "every byte once, in order"); REACH();
}
VP_HARNESS(h_init) {
    setup(); struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.tx_fn = hal_tx; c.time_get = hal_time; c.timer_set_fn = (void *) 1; c.timer_cancel_fn = (void *) 1;
    embc_framer_initialize(&f, (struct embc_buffer_allocator_s *) &f, &c); ENSURE(inv(&nb, nd) && n_live && f.rx_state == ST_SOF_UNSYNC, "initialized"); REACH();
}
