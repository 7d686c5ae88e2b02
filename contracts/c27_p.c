/* C27: one event on an arbitrary reachable transmitter.  Frames carry a sequence number without wrapping (g_seq); a pre-state is
 * N active frames, each awaiting acknowledgement (A), at the HAL (T), acknowledged (D) or acknowledged and still at the HAL (O), and QN queued. */
#ifndef N
#define N 3
#define QN 1
#endif
#define NB (N + QN + 2)
#define NTX 1
#define FB_CAP 32
#include "fr.h"
static uint8_t g_c8; static uint32_t g_c32;
uint8_t embc_crc_ccitt_8(uint8_t crc, uint8_t const * data, uint32_t length) { (void) crc; (void) data; (void) length; return g_c8; }
uint32_t embc_crc32(uint32_t crc, uint8_t const * data, uint32_t length) { (void) crc; (void) data; (void) length; return g_c32; }
#include "src/stream/framer.c"
static struct embc_framer_s f; static int g_user[16];
enum { A, T, D, O };
#ifndef GAP
#define GAP 0
#endif
#define NOW 1000000000LL
#define LEN 17
/* frames of the pre-state: 0..N-1 active, N..N+QN-1 queued */
static int p_n, p_seq[6], p_st[6], p_ret[6], p_done[6], p_sent[6]; static int64_t p_due[6]; static bool p_held[6], p_named[6], p_mic[6], p_expired[6], p_purge; static uint8_t p_c[6][LEN]; static int n_done, last_ok, last_any, first_next, new_sent;
static int find(struct embc_buffer_s * b) { int k = -1; for (int i = 0; i < NB; ++i) if (b == &fb[i]) k = i; return k; }
static void tx(void * h, struct embc_buffer_s * b) {
    (void) h; int i = find(b); ENSURE(i >= 0 && fb_live[i], "a frame"); if (i >= p_n) { ++new_sent; return; }
    ENSURE(!p_held[i] && !p_done[i], "the HAL owns a frame once"); p_held[i] = true; ++p_sent[i]; if (i >= N) { ENSURE(i == first_next, "first sent in order"); ++first_next; }
}
static void done(void * u, uint8_t port, uint8_t mid, uint16_t def, int32_t st) {
    int i = -1; for (int k = 0; k < N + QN; ++k) if ( mid == (p_seq[k] & 0xff) && !p_done[k]) { i = k; break; }
    ENSURE(i >= 0, "each send is completed once"); ENSURE(u == &g_user[port] && port == p_c[i][2] && mid == p_c[i][3] && def == (p_c[i][5] | p_c[i][6] << 8), "to its owner"); p_done[i] = 1; ++n_done;
    if (st == 0) { ENSURE(i < N && (p_named[i] || p_st[i] == D || p_st[i] == O), "success only when acknowledged"); for (int k = 0; k < i; ++k) ENSURE(p_done[k], "completed in order"); }
    else { ENSURE(p_purge || (i < N && p_ret[i] >= EMBC_FRAMER_MAX_RETRIES && ((p_expired[i] && st == EMBC_ERROR_TIMED_OUT) || (p_mic[i] && st == EMBC_ERROR_MESSAGE_INTEGRITY))), "failure only after the allowed retries"); ENSURE(!p_purge || st == EMBC_ERROR_ABORTED || p_st[i] == D || p_st[i] == O, "aborted"); }
}
static struct embc_buffer_s * mk(int seq) {
    int i = fb_n; struct embc_buffer_s * b = embc_buffer_alloc(NULL, 253); uint8_t * d = fb_mem(i); d[0] = 0xAA; d[1] = seq & 15; d[2] = seq * 7 & 15; d[3] = seq; d[4] = 4; d[5] = nd_u8(); d[6] = nd_u8(); d[7] = nd_u8(); for (int k = 8; k < LEN; ++k) d[k] = nd_u8(); b->length = b->cursor = LEN; p_seq[i] = seq; for (int k = 0; k < LEN; ++k) p_c[i][k] = d[k]; p_st[i] = -1; p_ret[i] = 0; p_done[i] = p_sent[i] = 0; p_held[i] = p_named[i] = p_mic[i] = p_expired[i] = false; p_due[i] = 0; return b;
}
static void setup(void) {
    fb_init(); fb_extra = 3; hal_init(); memset(&f, 0, sizeof(f)); g_c8 = nd_u8(); g_c32 = nd_u32(); f.hal_cbk = fr_hal(); f.hal_cbk.tx_fn = tx; f.next_timeout = f.rx_next_timeout = EMBC_TIME_MAX; h_time = NOW; p_purge = false; n_done = new_sent = 0; first_next = N;
    embc_list_initialize(&f.rx_pending); embc_list_initialize(&f.tx_buffers_free); embc_list_initialize(&f.tx_buffers_active); embc_list_initialize(&f.tx_queue); for (int i = 0; i < 16; ++i) { f.port_cbk[i].port = &g_user[i]; f.port_cbk[i].tx_done_fn = done; } for (int i = 0; i < 3; ++i) embc_list_initialize(&f.tx_buffers[i].item);
}
/* due: how many of the frames not acknowledged have timed out, as a bit mask; ret: retries of each */
static void build(int base, const int * st, int due, int ret) {
    int seq = base; p_n = N + QN;
    for (int i = 0; i < N; ++i) { struct embc_buffer_s * b = mk(seq); seq += 1 + (GAP >> i & 1); struct tx_buf_s * t = &f.tx_buffers[i]; t->b = b; p_st[i] = st[i]; p_ret[i] = ret; p_held[i] = st[i] == T || st[i] == O; t->status = st[i] == A ? TX_STATUS_AWAIT_ACK : st[i] == T ? TX_STATUS_TRANSMITTING : TX_STATUS_ACKED; t->hal_owned = p_held[i]; t->retries = ret; p_expired[i] = st[i] < D && (due >> i & 1); t->timeout = p_due[i] = (due >> i & 1) ? NOW - i : NOW + 10 + i; embc_list_add_tail(&f.tx_buffers_active, &t->item); }
    for (int i = N; i < 3; ++i) embc_list_add_tail(&f.tx_buffers_free, &f.tx_buffers[i].item);
    for (int i = 0; i < QN; ++i) embc_list_add_tail(&f.tx_queue, &mk(seq++)->item);
    f.tx_next_frame_id = seq & 15; for (int i = 0; i < N; ++i) if (st[i] < D && p_due[i] < f.next_timeout) f.next_timeout = p_due[i]; if (f.next_timeout != EMBC_TIME_MAX) { f.timer_id = 7; h_timer_on = true; h_timeout = f.next_timeout; }
}
#define SENDS 1
static struct tx_buf_s * slot(int i) { struct tx_buf_s * t = NULL; for (int k = 0; k < 3; ++k) if (f.tx_buffers[k].b == &fb[i] && f.tx_buffers[k].status != TX_STATUS_EMPTY) t = &f.tx_buffers[k]; return t; }
/* what holds after every event; returned_: buffer that the HAL gave back in this event; fresh: frames added by it */
static void check(int returned, int fresh) {
    int last = -1, act = 0, que = 0, seen = 0; struct embc_list_s * it = f.tx_buffers_active.next; bool head_acked = false; int64_t due = EMBC_TIME_MAX;
    for (int z = 0; z < 4; ++z) if (it != &f.tx_buffers_active) { struct tx_buf_s * t = embc_list_entry(it, struct tx_buf_s, item); int i = find(t->b); ENSURE(i > last && i < fb_n && fb_live[i], "active frames are in send order"); last = i; if (t->status == TX_STATUS_ACKED && act == 0) head_acked = true; ++act; if (i < p_n) { ENSURE(!p_done[i], "a completed frame is forgotten"); ++seen; ENSURE((p_st[i] == D || p_st[i] == O || p_named[i]) || t->status != TX_STATUS_ACKED, "acknowledged only when named"); ENSURE(t->hal_owned == p_held[i] && !(t->status == TX_STATUS_AWAIT_ACK && p_held[i]) && !(t->status == TX_STATUS_TRANSMITTING && !p_held[i]), "HAL ownership"); if (i >= N) ENSURE(p_sent[i] == 1 && t->retries == 0 && t->timeout == NOW + EMBC_FRAMER_TIMEOUT, "sent with its timeout"); }
        ENSURE(t->status == TX_STATUS_TRANSMITTING || t->status == TX_STATUS_AWAIT_ACK || t->status == TX_STATUS_ACKED, "status"); if (t->status != TX_STATUS_ACKED && t->timeout < due) due = t->timeout; it = it->next; }
    ENSURE(it == &f.tx_buffers_active && act <= 3, "at most the window is outstanding"); ENSURE(!head_acked, "acknowledged frames are completed as soon as they are in order");
    it = f.tx_queue.next; for (int z = 0; z < QN + 1; ++z) if (it != &f.tx_queue) { int i = find(embc_list_entry(it, struct embc_buffer_s, item)); ENSURE(i > last && fb_live[i], "the queue is in send order"); last = i; ++que; if (i < p_n) { ENSURE(i >= N && p_sent[i] == 0 && !p_done[i], "queued frames are not sent"); ++seen; } it = it->next; }
    ENSURE(it == &f.tx_queue && (que == 0 || act == 3), "frames wait only when the window is full"); int fr = 0; it = f.tx_buffers_free.next; for (int z = 0; z < 4; ++z) if (it != &f.tx_buffers_free) { ++fr; it = it->next; } ENSURE(it == &f.tx_buffers_free && fr + act == 3, "every slot is free or active");
    ENSURE(seen + n_done == p_n && act + que == seen + fresh, "each frame is kept or completed"); ENSURE(f.next_timeout == due && h_timer_on == (due != EMBC_TIME_MAX) && (due == EMBC_TIME_MAX || h_timeout == due), "the timer runs for the earliest timeout");
    for (int i = 0; i < N + QN; ++i) { ENSURE(fb_live[i] == (!p_done[i] || p_held[i]), "a frame is freed when completed and returned"); if (fb_live[i]) { uint8_t * d = fb_mem(i); bool same = fb[i].length == LEN && fb[i].cursor == LEN; for (int k = 1; k < 9; ++k) same = same && d[k] == p_c[i][k]; same = same && d[12] == p_c[i][12] && d[16] == p_c[i][16]; ENSURE(same, "contents do not change"); } }
}
/* frame i was not concerned by the event, unless it is the oldest and a later one was acknowledged */
static void undisturbed(int i, bool retransmit) {
    if (p_done[i]) return; struct tx_buf_s * t = slot(i); ENSURE(t != NULL, "kept"); if (retransmit && p_sent[i]) { ENSURE(p_st[i] == A && t->timeout == NOW + EMBC_FRAMER_TIMEOUT && t->retries == p_ret[i] && p_sent[i] == 1, "retransmitted"); return; }
    ENSURE(p_sent[i] == 0 && t->retries == p_ret[i] && (p_st[i] >= D || t->timeout == p_due[i]), "not disturbed"); if (!p_named[i]) ENSURE(t->status == (p_st[i] == A ? TX_STATUS_AWAIT_ACK : p_st[i] == T ? TX_STATUS_TRANSMITTING : TX_STATUS_ACKED), "status not disturbed");
}
/* every state of the active frames: the oldest is not acknowledged */
#if N == 0
#define STATES(s) for (int s = 0; s < 1; ++s)
#elif N == 1
#define STATES(s) for (int s = 0; s < 2; ++s)
#elif N == 2
#define STATES(s) for (int s = 0; s < 8; ++s)
#else
#define STATES(s) for (int s = S0; s < S1; ++s) if (SKIP(s)) continue; else
#endif
#ifndef S0
#define S0 0
#define S1 32
#endif
#define HAS_O(s) (((s) >> 1 & 3) == O || ((s) >> 3 & 3) == O)
#if N == 3 && defined(WITH_O)   /* acknowledged frames still at the HAL */
#define SKIP(s) (!HAS_O(s))
#elif N == 3
#define SKIP(s) HAS_O(s)
#else
#define SKIP(s) 0
#endif
#define ST(s) const int st[3] = {(s) & 1, (s) >> 1 & 3, (s) >> 3 & 3}
#ifndef BASE0
#define BASE0 15
#define BASE1 16
#endif
static struct embc_buffer_s * ack(uint8_t id, uint16_t mask, uint8_t status, int len) { struct embc_buffer_s * b = embc_buffer_alloc(NULL, 253); uint8_t * d = fb_mem(fb_n - 1); d[0] = 0xAA; d[1] = 0x80 | id; d[2] = nd_range(0, 15); d[2] = 3; d[3] = nd_u8(); d[4] = len; d[5] = mask; d[6] = mask >> 8; d[7] = nd_u8(); d[8] = status; b->length = len + 13; return b; }
VP_HARNESS(h_ack) {   /* an acknowledgement: every outstanding frame, the frames before it marked or not, and identifiers that are not outstanding */
    for (int base = BASE0; base < BASE1; ++base) STATES(s) for (int d = 0; d < 8; ++d) for (int m = 0; m < 4; ++m) {
        int off = d < 6 ? d : d == 6 ? 8 : 15, x = -1, q = 0; for (int i = 0; i < N; ++i) { if (q == off) x = i; q += 1 + (GAP >> i & 1); } if (x < 0 && (m > 0 || (d > 0 && d < 5))) continue; if (x >= 0 && m >= 1 << x) continue;
        setup(); ST(s); build(base, st, 0, 3); int id = base + off; uint16_t mask = m & 1 ? 0xfe2a : 0x0115; for (int i = 0; i < x; ++i) if (m >> (x - 1 - i) & 1) mask |= 0x100 >> (id - p_seq[i]); else mask &= ~(0x100 >> (id - p_seq[i]));
        if (x >= 0) { p_named[x] = true; for (int i = 0; i < x; ++i) if ((m >> (x - 1 - i) & 1) && p_st[i] == A) p_named[i] = true; }
        rx_hook_fn(&f, ack(id & 15, mask, 0, 1)); check(-1, 0); for (int i = 0; i < N; ++i) undisturbed(i, x > i);
    } REACH();
}
VP_HARNESS(h_nack) {   /* a negative acknowledgement: for a frame, general, or malformed */
    for (int base = BASE0; base < BASE1; ++base) STATES(s) for (int d = 0; d < 10; ++d) for (int ret = 15; ret <= 16; ++ret) {
        ST(s); if (ret == 15 && (d >= 6 || (d < 3 && st[d] != A))) continue; if ((d >= 3 && d < 6 && !GAP) || (N == 3 && d >= 8) || (N == 2 && d >= 6 && s >= 4)) continue;
        setup(); build(base, st, 0, ret); int id = d < 6 ? base + d : base + 8, x = -1; for (int i = 0; i < N; ++i) if (p_seq[i] == id) x = i; uint16_t mask = d == 7 ? 0 : 0x100; int len = d == 8 ? 0 : d == 9 ? 2 : 1; if (d >= 7) { id = base; x = -1; } if (x >= 0 && p_st[x] == A) p_mic[x] = true;
        struct embc_buffer_s * a = ack(id & 15, mask, d >= 8 ? 0 : EMBC_ERROR_MESSAGE_INTEGRITY, len); rx_hook_fn(&f, a); check(-1, 0);
        for (int i = 0; i < N; ++i) if (p_mic[i]) { if (ret == 16) ENSURE(p_done[i], "failed after the allowed retries"); else { struct tx_buf_s * t = slot(i); ENSURE(p_sent[i] == 1 && t->retries == ret + 1 && t->timeout == NOW + EMBC_FRAMER_TIMEOUT && t->status == TX_STATUS_TRANSMITTING, "retransmitted"); } } else undisturbed(i, false);
    } REACH();
}
VP_HARNESS(h_timeout_tx) {   /* the timer: any set of frames has timed out */
    for (int base = BASE0; base < BASE1; ++base) STATES(s) for (int due = 0; due < (1 << N); ++due) for (int ret = 15; ret <= 16; ++ret) {
        ST(s); bool skip = due == 0 && ret == 16; for (int i = 0; i < N; ++i) if (st[i] >= D && (due >> i & 1)) skip = true; if (skip) continue;
        setup(); build(base, st, due, ret); h_timer_on = false; timer_callback(&f, 7); check(-1, 0);
        for (int i = 0; i < N; ++i) if (p_expired[i]) { if (ret == 16) ENSURE(p_done[i], "failed after the allowed retries"); else { struct tx_buf_s * t = slot(i); ENSURE(t != NULL && t->retries == ret + 1 && t->timeout == NOW + EMBC_FRAMER_TIMEOUT && t->status == TX_STATUS_TRANSMITTING && p_held[i] && p_sent[i] == (p_st[i] == A), "retransmitted unless still at the HAL"); } } else undisturbed(i, false);
    } REACH();
}
VP_HARNESS(h_retries) {   /* the number of retries */
    for (int ret = 0; ret <= 16; ++ret) for (int k = 0; k < 2; ++k) { setup(); const int st[3] = {A, A, A}; build(5, st, 1 - k, ret); p_expired[0] = !k; p_mic[0] = k; if (k) rx_hook_fn(&f, ack(5, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY, 1)); else { h_timer_on = false; timer_callback(&f, 7); } check(-1, 0); ENSURE(p_done[0] == (ret == 16) && (ret == 16 || slot(0)->retries == ret + 1), "sixteen retries"); } REACH();
}
VP_HARNESS(h_returned) {   /* the HAL returns a frame */
    STATES(s) for (int i = 0; i < N; ++i) { setup(); ST(s); build(BASE0, st, 0, 3); if (!p_held[i]) continue; p_held[i] = false; embc_framer_hal_tx_done(&f, &fb[i]); check(i, 0); for (int k = 0; k < N; ++k) if (k != i) undisturbed(k, false); struct tx_buf_s * t = slot(i); ENSURE(t && !p_sent[i] && t->timeout == p_due[i] && t->retries == 3 && t->status == (p_st[i] == T ? TX_STATUS_AWAIT_ACK : TX_STATUS_ACKED), "awaits acknowledgement"); }
    STATES(s) { setup(); ST(s); build(BASE0, st, 0, 3); struct embc_buffer_s * b = mk(BASE0 + 9); int c = fb_count; embc_framer_hal_tx_done(&f, b); ENSURE(fb_count == c - 1, "a frame completed meanwhile is freed"); struct embc_buffer_s * a = ack(BASE0 & 15, 0x100, 0, 1); embc_framer_hal_tx_done(&f, a); ENSURE(fb_count == c - 1, "an acknowledgement is freed"); check(-1, 0); for (int k = 0; k < N; ++k) undisturbed(k, false); } REACH();
}
VP_HARNESS(h_send) {   /* a send, from a frame buffer or from any other buffer */
    STATES(s) for (int k = 0; k < 2; ++k) {
        setup(); ST(s); build(BASE0, st, 0, 3); uint8_t L = 6, port = 9, mid = nd_u8(); uint16_t def = nd_u16(); int i = fb_n; struct embc_buffer_s * b; if (k) { b = embc_buffer_alloc(NULL, 6); b->length = b->cursor = L; } else { b = embc_framer_alloc(&f); b->length = b->cursor = L + 8; } uint8_t * d = fb_mem(i) + (k ? 0 : 8), c[6]; for (int j = 0; j < 6; ++j) d[j] = c[j] = nd_u8(); uint8_t id = f.tx_next_frame_id;
        embc_framer_send(&f, port, mid, def, b); if (k) ENSURE(!fb_live[i], "the caller's buffer is freed"); i = i + k; uint8_t * e = fb_mem(i); check(-1, 1); for (int z = 0; z < N; ++z) undisturbed(z, false); ENSURE(new_sent == (N < 3) && (N < 3) == (slot(i) != NULL), "sent at once when the window allows");
        bool same = fb[i].length == L + 13 && e[0] == 0xAA && e[1] == id && e[2] == port && e[3] == mid && e[4] == L && e[5] == (def & 0xff) && e[6] == def >> 8 && e[7] == g_c8 && e[14] == (uint8_t) g_c32 && e[17] == (uint8_t) (g_c32 >> 24) && e[18] == 0xAA; for (int j = 0; j < 6; ++j) same = same && e[8 + j] == c[j]; ENSURE(same, "the frame"); ENSURE(f.tx_next_frame_id == ((id + 1) & 15), "numbered in order");
    } REACH();
}
VP_HARNESS(h_resync) {   /* a link reset by the application: everything is aborted */
    STATES(s) { setup(); ST(s); build(BASE0, st, 0, 3); p_purge = true; uint8_t id = f.tx_next_frame_id; embc_framer_resync(&f); for (int i = 0; i < N + QN; ++i) ENSURE(p_done[i] == 1, "aborted"); check(-1, 1); uint8_t * e = fb_mem(fb_n - 1); ENSURE(new_sent == 1 && e[1] == id && e[2] == 0 && e[5] == EMBC_FRAMER_PORT0_RESYNC && e[6] == 0 && e[4] == 0, "the peer is told"); } REACH();
}
