/* C26: one received data frame, on an arbitrary reachable receive window.  Frames are numbered without wrapping: g_r is the next
 * expected frame, g_d the next frame to deliver.  A peer that keeps at most three frames unacknowledged sends frame s only
 * when s <= (oldest frame not received) + 2, so every frame before g_r-3 was received and the window is in one of six states. */
#define NB 8
#include "fr.h"
static uint8_t g_c8; static uint32_t g_c32;
uint8_t embc_crc_ccitt_8(uint8_t crc, uint8_t const * data, uint32_t length) { (void) crc; (void) data; (void) length; return g_c8; }
uint32_t embc_crc32(uint32_t crc, uint8_t const * data, uint32_t length) { (void) crc; (void) data; (void) length; return g_c32; }
#include "src/stream/framer.c"
static struct embc_framer_s f; static int g_next, g_delivered, g_seq[NB]; static int g_user;
#define BASE 64   /* g_r = BASE + (its id): any number with that id */
#ifndef NR
#define NR 16
#endif
static void rx(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) {
    ENSURE(u == &g_user, "user data"); int s = -1; for (int i = 0; i < NB; ++i) if (b == &fb[i] && fb_live[i]) s = g_seq[i];
    ENSURE(s == g_next, "delivered once, in transmit order"); ++g_next; ++g_delivered;
    ENSURE(port == b->data[2] && mid == b->data[3] && def == (b->data[5] | b->data[6] << 8), "to its port"); ENSURE(b->cursor == 8 && b->length == b->data[4] + 8 && b->reserve == 5, "the payload"); fb_free(b);
}
static uint8_t a_id, a_port, a_mid, a_status, a_len; static uint16_t a_mask; static int acks;
static void ack(void * h, struct embc_buffer_s * b) { (void) h; ++acks; a_id = b->data[1]; a_port = b->data[2]; a_mid = b->data[3]; a_len = b->data[4]; a_mask = b->data[5] | b->data[6] << 8; a_status = b->data[8]; fb_free(b); }
static struct embc_buffer_s * frame(int seq) {   /* (port and identifier are concrete so that the paths are; h_deliver has them all) */
    int i = fb_n; struct embc_buffer_s * b = embc_buffer_alloc(NULL, 253); uint8_t * d = fb_mem(i), L = nd_range(0, 240); d[0] = 0xAA; d[1] = seq & 15; d[2] = seq * 7 & 15; d[3] = nd_u8(); d[4] = L; d[5] = nd_u8(); d[6] = nd_u8(); if (d[2] == 0) { d[5] = 1; d[6] = seq & 1; } b->length = b->cursor = L + 13; b->cursor = 0; g_seq[i] = seq; return b;
}
static void setup(void) {
    fb_init(); fb_extra = 0; hal_init(); memset(&f, 0, sizeof(f)); g_c8 = nd_u8(); g_c32 = nd_u32(); g_delivered = acks = 0; f.hal_cbk = fr_hal(); f.hal_cbk.tx_fn = ack; f.next_timeout = f.rx_next_timeout = EMBC_TIME_MAX; f.rx_frame_bitmask_outstanding = 0xE0; h_time = nd_range(0, 0x7fffffff); for (int i = 0; i < NB; ++i) g_seq[i] = -1;
    embc_list_initialize(&f.rx_pending); embc_list_initialize(&f.tx_buffers_free); embc_list_initialize(&f.tx_buffers_active); embc_list_initialize(&f.tx_queue); for (int i = 0; i < 16; ++i) { f.port_cbk[i].port = &g_user; f.port_cbk[i].rx_fn = rx; }
}
/* states: bit 0..3: frames r-1..r-4 received; bit 4..7: pending (received, not delivered) */
#define ST_FULL 0x0f      /* everything received and delivered */
#define ST_A 0x1d         /* r-2 missing */
#define ST_A3 0x5d        /* r-2 missing, r-3 not yet delivered */
#define ST_B 0x3b         /* r-3 missing */
#define ST_B4 0xbb        /* r-3 missing, r-4 not yet delivered */
#define ST_C 0x19         /* r-3 and r-2 missing */
#define STATES(x) ((x) == ST_FULL || (x) == ST_A || (x) == ST_A3 || (x) == ST_B || (x) == ST_B4 || (x) == ST_C)
#ifndef STATE
#define STATE ST_FULL
#define D 0
#endif
static uint8_t state_of(int r) {   /* the window that the receiver holds, as a state; 0 if it is malformed */
    uint16_t m = f.rx_frame_bitmask; uint8_t x = (m >> 7 & 1) | (m >> 6 & 1) << 1 | (m >> 5 & 1) << 2 | (m >> 4 & 1) << 3; if ((m & 0x1f) != 0x1f || (m & ~0xff) || f.rx_frame_id != (r & 15)) return 0;
    struct embc_list_s * it = f.rx_pending.next; int last = 0, n = 0; for (int i = 0; i < 5; ++i) if (it != &f.rx_pending) { struct embc_buffer_s * b = embc_list_entry(it, struct embc_buffer_s, item); int s = -1; for (int j = 0; j < NB; ++j) if (b == &fb[j] && fb_live[j]) s = g_seq[j]; if (s <= last || r - s < 1 || r - s > 4) return 0; x |= 0x10 << (r - s - 1); last = s; ++n; it = it->next; }
    if (it != &f.rx_pending || n != fb_count) return 0; return x;
}
#define RECEIVED(x, r, s) ((r) - (s) > 4 || ((r) - (s) >= 1 && (((x) >> ((r) - (s) - 1)) & 1)))
static uint8_t build(int r) {   /* a receiver in STATE */
    f.rx_frame_id = r & 15; f.rx_frame_bitmask = 0x1f | (STATE & 1) << 7 | (STATE & 2) << 5 | (STATE & 4) << 3; g_next = r;
    if (STATE & 0x80) { embc_list_add_tail(&f.rx_pending, &frame(r - 4)->item); g_next = r - 4; }
    if (STATE & 0x40) { embc_list_add_tail(&f.rx_pending, &frame(r - 3)->item); if (g_next == r) g_next = r - 3; }
    if (STATE & 0x20) embc_list_add_tail(&f.rx_pending, &frame(r - 2)->item);
    if (STATE & 0x10) embc_list_add_tail(&f.rx_pending, &frame(r - 1)->item);
    if (g_next == r || !(STATE & 0xC0)) g_next = !(STATE & 4) ? r - 3 : !(STATE & 2) ? r - 2 : r;
    if (STATE & 0x10) { f.rx_next_timeout = f.next_timeout = h_time + 1; f.timer_id = 7; h_timer_on = true; } else if (nd_bool()) { f.rx_next_timeout = f.next_timeout = h_time + 1; f.timer_id = 7; h_timer_on = true; }
    return STATE;
}
static void data(const int r) {
    setup(); int s = r + (D); uint8_t x = build(r); bool dup = RECEIVED(x, r, s); struct embc_buffer_s * b = frame(s); uint8_t * d = fb_mem(fb_n - 1); uint8_t port = d[2], mid = d[3]; int n0 = g_next, cnt = fb_count;
    rx_hook_fn(&f, b);
    int r2 = s >= r ? s + 1 : r; uint8_t y = state_of(r2);
    ENSURE(STATES(y), "the receive window stays well-formed");
    for (int k = 1; k <= 4; ++k) ENSURE(RECEIVED(y, r2, r2 - k) == (r2 - k == s || RECEIVED(x, r, r2 - k)), "exactly this frame is added");
    int oldest = RECEIVED(y, r2, r2 - 3) ? RECEIVED(y, r2, r2 - 2) ? r2 : r2 - 2 : r2 - 3; ENSURE(y == ST_FULL ? g_next == r2 : (g_next == oldest || g_next == oldest - 1) && g_next <= r2 - 2, "what was not delivered is pending"); ENSURE(y != ST_FULL || fb_count == 0, "everything is delivered when nothing is missing");
    ENSURE(g_next - n0 == g_delivered && (!dup || (g_delivered == 0 && fb_count == cnt - 1)), "a duplicate is discarded");
    ENSURE(acks == 1 && a_id == (0x80 | (s & 15)) && a_port == port && a_mid == mid && a_len == 1 && a_status == 0, "the frame is acknowledged"); for (int k = -2; k <= 2; ++k) ENSURE(((a_mask >> (8 - k)) & 1) == (s - k < r2 && RECEIVED(y, r2, s - k)), "the acknowledgement tells which frames around it were received");
    if (y != ST_FULL) ENSURE(f.rx_next_timeout <= h_time + EMBC_FRAMER_RX_TIMEOUT && h_timer_on && f.next_timeout <= f.rx_next_timeout, "pending frames are flushed in bounded time");
}
VP_HARNESS(h_data) { for (int r = BASE; r < BASE + NR; ++r) data(r); REACH(); }
VP_HARNESS(h_resync) {   /* link reset by the peer */
    setup(); int r = BASE + 5; build(r); struct embc_buffer_s * b = frame(BASE + nd_range(0, 15)); uint8_t * d = fb_mem(fb_n - 1), id = d[1]; d[2] = 0; d[5] = 2; d[6] = 0; rx_hook_fn(&f, b);
    ENSURE(fb_count == 0 && g_delivered == 0 && state_of(BASE + id + 1) == ST_FULL, "starts over after that frame"); ENSURE(acks == 1 && a_id == (0x80 | id) && a_status == 0, "acknowledged"); REACH();
}
VP_HARNESS(h_port) {   /* frames for ports that do not exist are dropped without effect */
    setup(); int r = BASE + 5; uint8_t x = build(r); int n0 = fb_n, c = fb_count; for (int p = 16; p < 256; ++p) { fb_n = n0; struct embc_buffer_s * b = frame(r); uint8_t * d = fb_mem(n0); d[1] = nd_u8(); d[2] = p; rx_hook_fn(&f, b); ENSURE(fb_count == c, "dropped"); }
    ENSURE(state_of(r) == x && g_delivered == 0 && acks == 0, "no effect"); REACH();
}
static int t_port[16];
static void rx_p(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) { ENSURE(u == &t_port[port], "the port's own callback"); rx(&g_user, port, mid, def, b); }
VP_HARNESS(h_deliver) {   /* every port gets its own frames */
    setup(); for (int p = 0; p < 16; ++p) { f.port_cbk[p].port = &t_port[p]; f.port_cbk[p].rx_fn = rx_p; }
    for (int p = 0; p < 16; ++p) { fb_n = 0; g_next = p; struct embc_buffer_s * b = frame(p); uint8_t * d = fb_mem(0); d[2] = p; d[5] = nd_u8(); d[6] = nd_u8(); rx_complete(&f, b); ENSURE(g_delivered == p + 1, "delivered"); } REACH();
}
static int t_last, t_n;
static void rx_t(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) { int s = -1; for (int i = 0; i < NB; ++i) if (b == &fb[i] && fb_live[i]) s = g_seq[i]; ENSURE(s > t_last, "in transmit order"); t_last = s; ++t_n; g_next = s; rx(u, port, mid, def, b); }
VP_HARNESS(h_rx_timeout) {   /* reception timed out: what is pending is delivered */
    setup(); int r = BASE + 14; build(r); t_last = t_n = 0; int c = fb_count; for (int i = 0; i < 16; ++i) f.port_cbk[i].rx_fn = rx_t; f.rx_next_timeout = f.next_timeout = h_time; f.timer_id = 7; h_timer_on = false; timer_callback(&f, 7);
    ENSURE(t_n == c && fb_count == 0 && embc_list_is_empty(&f.rx_pending), "everything pending is delivered"); ENSURE(f.rx_next_timeout == EMBC_TIME_MAX && !h_timer_on && f.next_timeout == EMBC_TIME_MAX, "no timeout remains"); REACH();
}
