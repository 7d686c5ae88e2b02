/* C27 native: random histories of sends, timers, HAL completions and adversarial acknowledgements; two framers over a lossy link. */
#include "vp.h"
#include "embc.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "embc/time.h"
#include "c01_ref.h"
#define MS (EMBC_TIME_SECOND / 1000)
static uint8_t r8(const uint8_t * p, int n) { uint8_t c = 0xff; while (n--) c = ref_step8(c, *p++); return ~c; }
static uint32_t r32(const uint8_t * p, int n) { uint32_t c = ~0u; while (n--) c = ref_step32(c, *p++); return ~c; }
#define M 400
static int64_t now; static struct embc_framer_s * f; static struct { int64_t tmo; bool on; void (* fn)(void *, uint32_t); void * u; uint32_t id; } tmr[2];
static struct embc_buffer_s * held[64]; static int nheld;
static int nsent, nfirst, ndone; static uint8_t st[M], bytes[M][280]; static unsigned len[M]; static int64_t t_first[M], t_last[M]; static int nacks[M], later[M]; static bool named[M], aborting, rst[M], resend; static int port_of[M], id_of[M]; static int user[16];
enum { QUEUED, OUT, DONE };
static int outstanding(void) { int k = 0; for (int i = 0; i < nsent; ++i) k += st[i] == OUT; return k; }
static int64_t tm_(void * h) { (void) h; return now; }
static int32_t ts(void * h, int64_t t, void (* cb)(void *, uint32_t), void * u, uint32_t * id) { int k = *(int *) h; ENSURE(!tmr[k].on, "one timer"); tmr[k].on = true; tmr[k].tmo = t; tmr[k].fn = cb; tmr[k].u = u; *id = ++tmr[k].id; return 0; }
static int32_t tc(void * h, uint32_t id) { int k = *(int *) h; ENSURE(tmr[k].on && id == tmr[k].id, "cancels its timer"); tmr[k].on = false; return 0; }
static void tx(void * h, struct embc_buffer_s * b) {
    (void) h; ENSURE(!(b->data[1] & 0x80), "a data frame"); for (int i = 0; i < nheld; ++i) ENSURE(held[i] != b, "the HAL owns a frame once"); ENSURE(nheld < 64, "traffic"); held[nheld++] = b; int s = -1;
    for (int i = 0; i < nsent; ++i) if (st[i] == OUT && t_first[i] >= 0 && (b->data[1] == id_of[i])) s = i;
    if (s >= 0) { ENSURE(b->length == len[s] && memcmp(b->data, bytes[s], len[s]) == 0, "retransmitted with unchanged contents"); ENSURE(now >= t_last[s] + 249 * MS || nacks[s] > 0 || later[s] > 0, "retransmitted after the timeout"); later[s] = 0; t_last[s] = now; return; }
    s = nfirst++; ENSURE(s < nsent && st[s] == QUEUED, "first sent in order"); st[s] = OUT; ENSURE(outstanding() <= 3, "at most the window is outstanding"); t_first[s] = t_last[s] = now; uint8_t * d = bytes[s]; uint32_t c; memcpy(&c, b->data + b->length - 5, 4);
    ENSURE(b->length == len[s] && b->data[0] == 0xAA && b->data[1] == id_of[s] && memcmp(b->data + 2, d + 2, 5) == 0 && b->data[7] == r8(b->data, 7) && memcmp(b->data + 8, d + 8, len[s] - 13) == 0 && c == r32(b->data, len[s] - 5) && b->data[len[s] - 1] == 0xAA, "the frame"); memcpy(d, b->data, len[s]);
}
static void send_one(int port, bool frame_buf);
static void done(void * u, uint8_t port, uint8_t mid, uint16_t def, int32_t rc) {
    int s = -1; for (int i = 0; i < nsent; ++i) if (st[i] != DONE && bytes[i][3] == mid && bytes[i][2] == port && bytes[i][5] == (def & 0xff) && bytes[i][6] == def >> 8) { s = i; break; }
    ENSURE(s >= 0, "each send is completed once"); ENSURE(u == &user[port], "to its owner"); int was = st[s]; st[s] = DONE; ++ndone;
    if (rc == 0) { ENSURE(was == OUT && named[s], "success only when acknowledged"); for (int i = 0; i < s; ++i) ENSURE(st[i] == DONE, "completed in order"); }
    else if (aborting) ENSURE(rc == EMBC_ERROR_ABORTED, "aborted"); else ENSURE(was == OUT && !named[s] && (now - t_first[s]) / (249 * MS) + nacks[s] >= 17 && (rc == EMBC_ERROR_TIMED_OUT || (nacks[s] && rc == EMBC_ERROR_MESSAGE_INTEGRITY)), "failure only after the allowed retries");
    if (rc == 0 && resend && nsent < M && nd_range(0, 3) == 0) send_one(nd_range(1, 15), nd_bool());
}
static void done0(void * u, uint8_t port, uint8_t mid, uint16_t def, int32_t rc) { done(u, port, mid, def, rc); }
static struct embc_buffer_allocator_s * al; static int next_id;
static void record(int s, int port, int mid, int def, const uint8_t * d, int L) { st[s] = QUEUED; named[s] = false; nacks[s] = later[s] = 0; t_first[s] = -1; id_of[s] = next_id; next_id = (next_id + 1) & 15; uint8_t * e = bytes[s]; e[0] = 0xAA; e[1] = id_of[s]; e[2] = port; e[3] = mid; e[4] = L; e[5] = def; e[6] = def >> 8; if (L) memcpy(e + 8, d, L); len[s] = L + 13; }
static void send_one(int port, bool frame_buf) {
    uint8_t d[256]; int L = nd_range(0, 9) ? nd_range(0, 8) : nd_range(0, 240), def = nd_u16(), mid = nsent & 0xff; if (port == 0) def = 0x100 | (def & 0xfe00) | 3; for (int i = 0; i < L; ++i) d[i] = nd_u8(); struct embc_buffer_s * b = NULL; if (frame_buf) b = embc_framer_alloc(f); else if (L > 0 && nd_bool()) b = embc_buffer_alloc(al, L); int s = nsent++; record(s, port, mid, def, d, L);
    if (b) { embc_buffer_write(b, d, L); embc_framer_send(f, port, mid, def, b); } else embc_framer_send_payload(f, port, mid, def, d, L);
}
static void feed(uint8_t id, uint8_t port, uint8_t mid, uint16_t mask, uint8_t status, bool bad, int L) { uint8_t d[32]; d[0] = 0xAA; d[1] = 0x80 | id; d[2] = port; d[3] = mid; d[4] = L; d[5] = mask; d[6] = mask >> 8; d[7] = r8(d, 7); d[8] = status; d[9] = 0; uint32_t c = r32(d, 8 + L); memcpy(d + 8 + L, &c, 4); d[12 + L] = 0xAA; (void) bad; embc_framer_hal_rx_buffer(f, d, 13 + L); }
static void fire(int k) { if (tmr[k].on && now >= tmr[k].tmo) { tmr[k].on = false; tmr[k].fn(tmr[k].u, tmr[k].id); ENSURE(!tmr[k].on || tmr[k].tmo > now, "the timer makes progress"); } }
static void give_back(void) { int i = nd_range(0, nheld - 1); struct embc_buffer_s * b = held[i]; held[i] = held[--nheld]; embc_framer_hal_tx_done(f, b); }
static void settled(void) { int q = 0, live = 0; for (int i = 0; i < nsent; ++i) { q += st[i] == QUEUED; if (st[i] == OUT && !named[i]) ++live; } ENSURE(q == 0 || outstanding() == 3, "waits only when the window is full"); ENSURE(live == 0 || (tmr[0].on && tmr[0].tmo <= now + 251 * MS), "outstanding frames have a timeout"); int first = -1; for (int i = nsent - 1; i >= 0; --i) if (st[i] == OUT) first = i; ENSURE(first < 0 || !named[first], "acknowledged frames are completed in order at once"); }
VP_HARNESS(b_history) {
    embc_size_t sizes[] = {20, 2, 2, 450}; static int zero; al = embc_buffer_allocator_new(sizes, 4); struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.hal = &zero; c.tx_fn = tx; c.time_get = tm_; c.timer_set_fn = ts; c.timer_cancel_fn = tc; memset(tmr, 0, sizeof(tmr));
    f = vp_alloc(embc_framer_instance_size()); now = 1000 * MS; nheld = nsent = nfirst = ndone = next_id = 0; aborting = false; resend = nd_bool(); embc_framer_initialize(f, al, &c); for (int i = 0; i < 16; ++i) { struct embc_framer_port_callbacks_s pc = {&user[i], NULL, i ? done : done0}; embc_framer_register_port_callbacks(f, i, &pc); }
    int quiet = nd_range(0, 2), n = nd_range(1, 150);
    for (int k = 0; k < n; ++k) {
        uint32_t op = nd_range(0, 9);
        if (op < 3 && nsent < M / 2) send_one(nd_range(0, 15), nd_bool());
        else if (op < 5) { if (nheld) give_back(); }
        else if (op < 6 || (quiet == 2 && op < 9)) { now += nd_range(0, 2) ? nd_range(0, 60) * MS : 251 * MS; fire(0); if (quiet == 2) while (nheld) give_back(); }
        else if (op < 9) {   /* an acknowledgement */
            int s = -1; uint8_t id = nd_range(0, 15); int o[3], no = 0; for (int i = 0; i < nsent; ++i) if (st[i] == OUT) o[no++] = i; if (no && nd_range(0, 3)) id = id_of[o[nd_range(0, no - 1)]]; for (int i = 0; i < no; ++i) if (id_of[o[i]] == id) s = o[i]; uint32_t kind = nd_range(0, 7); uint16_t mask = nd_u16();
            if (kind == 0) feed(id, nd_range(0, 15), nd_u8(), mask, 0, false, nd_bool() ? 0 : 2); else if (kind == 1) feed(id, 0, 0, 0, EMBC_ERROR_SYNCHRONIZATION, false, 1);
            else if (kind < 4) { bool h = false; for (int i = 0; i < nheld; ++i) h = h || (s >= 0 && held[i]->data[1] == id && held[i]->length == len[s] && memcmp(held[i]->data, bytes[s], len[s]) == 0); if (s >= 0 && !h && !named[s]) ++nacks[s]; feed(id, nd_range(0, 15), nd_u8(), mask | 0x100, EMBC_ERROR_MESSAGE_INTEGRITY, false, 1); }
            else { if (nd_bool()) mask = 0x1ff; if (s >= 0) { named[s] = true; for (int i = 0; i < no; ++i) if (o[i] < s) { int dl = (id - id_of[o[i]]) & 15; bool h = false; for (int j = 0; j < nheld; ++j) h = h || (held[j]->data[1] == id_of[o[i]] && memcmp(held[j]->data, bytes[o[i]], len[o[i]]) == 0); if (!h && dl <= 8 && (mask >> (8 - dl) & 1)) named[o[i]] = true; else ++later[o[i]]; } } feed(id, nd_range(0, 15), nd_u8(), mask, 0, false, 1); }
        } else if (nd_range(0, 9) == 0) { aborting = true; bool rs = resend; resend = false; int s = nsent++, d0 = ndone; record(s, 0, 0, 2, NULL, 0); int k0 = s; nfirst = s; embc_framer_resync(f); for (int i = 0; i < k0; ++i) ENSURE(st[i] == DONE, "a link reset aborts everything"); (void) d0; aborting = false; resend = rs; }
        settled();
    }
    resend = false; for (int k = 0; k < 3000 && ndone < nsent; ++k) { while (nheld) give_back(); int s = -1; for (int i = nsent - 1; i >= 0; --i) if (st[i] == OUT) s = i; if (s >= 0) { named[s] = true; feed(id_of[s], 0, 0, 0x100, 0, false, 1); } settled(); } while (nheld) give_back();
    ENSURE(ndone == nsent, "every send is completed"); ENSURE(!tmr[0].on, "no timer is left"); for (int i = 0; i < 449; ++i) embc_buffer_alloc(al, 253); vp_free(f); vp_free(al);
}
/* two framers */
#define LM 200
static struct embc_framer_s * fr2[2]; static struct embc_buffer_s * q2[2][64]; static int nq2[2]; static struct { uint8_t d[256]; unsigned n; int64_t at; } air[2][64]; static int nair[2]; static int s2[2], r2[2], d2[2]; static uint8_t pay[2][LM][64]; static int plen[2][LM]; static int loss[2][16][3]; static int lossy;
static void tx2(void * h, struct embc_buffer_s * b) { int k = *(int *) h; ENSURE(nq2[k] < 64, "traffic"); q2[k][nq2[k]++] = b; }
static void rx2(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) { int k = *(int *) u; int s = r2[k]++; ENSURE(s < s2[1 - k] && port == 1 + s % 15 && mid == (s & 0xff) && def == s * 257 % 65521 && embc_buffer_length(b) - b->cursor == plen[1 - k][s] && memcmp(b->data + b->cursor, pay[1 - k][s], plen[1 - k][s]) == 0, "payloads arrive once, in order, unchanged"); embc_buffer_free(b); }
static void done2(void * u, uint8_t port, uint8_t mid, uint16_t def, int32_t rc) { int k = *(int *) u; int s = d2[k]++; ENSURE(rc == 0 && port == 1 + s % 15 && mid == (s & 0xff) && def == s * 257 % 65521, "sends complete in order"); ENSURE(r2[1 - k] > s - 3, "only what arrived is complete"); }
VP_HARNESS(b_link) {
    static int ix[2] = {0, 1}; embc_size_t sizes[] = {40, 2, 2, 300}; struct embc_buffer_allocator_s * a2[2]; memset(tmr, 0, sizeof(tmr)); now = 1000 * MS; lossy = nd_range(0, 3); int lost[2][4] = {{0}}; uint8_t lastlost[2] = {99, 99};
    for (int k = 0; k < 2; ++k) { a2[k] = embc_buffer_allocator_new(sizes, 4); struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.hal = &ix[k]; c.tx_fn = tx2; c.time_get = tm_; c.timer_set_fn = ts; c.timer_cancel_fn = tc; fr2[k] = vp_alloc(embc_framer_instance_size()); nq2[k] = nair[k] = s2[k] = r2[k] = d2[k] = 0; embc_framer_initialize(fr2[k], a2[k], &c); for (int i = 1; i < 16; ++i) { struct embc_framer_port_callbacks_s pc = {&ix[k], rx2, done2}; embc_framer_register_port_callbacks(fr2[k], i, &pc); } }
    int credit[2][16]; for (int k = 0; k < 2; ++k) for (int i = 0; i < 16; ++i) credit[k][i] = 1; (void) lost; (void) lastlost; int n = nd_range(1, 60), both = nd_bool(), started = 0;
    for (int step = 0; step < 20000; ++step) {
        if (step == 0) { embc_framer_resync(fr2[0]); embc_framer_resync(fr2[1]); }
        if (!started && step > 40 && nq2[0] + nq2[1] + nair[0] + nair[1] == 0) started = 1;   /* the link is up */
        if (started) for (int k = 0; k < 1 + both; ++k) if (s2[k] < n && s2[k] < d2[k] + 8 && nd_range(0, 3) == 0) { int s = s2[k]++, L = nd_range(0, 40); plen[k][s] = L; for (int i = 0; i < L; ++i) pay[k][s][i] = nd_u8(); embc_framer_send_payload(fr2[k], 1 + s % 15, s & 0xff, s * 257 % 65521, pay[k][s], L); }
        for (int k = 0; k < 2; ++k) {
            if (nq2[k] && nair[k] < 8) { struct embc_buffer_s * b = q2[k][0]; memmove(q2[k], q2[k] + 1, --nq2[k] * sizeof(b)); int id = b->data[1] & 15, isack = b->data[1] >> 7; bool lose = false; if (started && lossy && nd_range(0, 5) < (uint32_t) lossy) { if (!isack && credit[k][id] > 0) { --credit[k][id]; lose = true; } else if (isack) lose = nd_bool(); } if (!isack && !lose) credit[k][id] = 1; if (!lose) { air[k][nair[k]].n = b->length; memcpy(air[k][nair[k]].d, b->data, b->length); air[k][nair[k]].at = now + MS; ++nair[k]; } else if (nd_bool()) { air[k][nair[k]].n = b->length; memcpy(air[k][nair[k]].d, b->data, b->length); air[k][nair[k]].d[nd_range(8, b->length - 2)] ^= 1 << nd_range(0, 7); air[k][nair[k]].at = now + MS; ++nair[k]; } embc_framer_hal_tx_done(fr2[k], b); }
            if (nair[k]) { embc_framer_hal_rx_buffer(fr2[1 - k], air[k][0].d, air[k][0].n); memmove(&air[k][0], &air[k][1], --nair[k] * sizeof(air[k][0])); }
        }
        now += nd_range(0, 2) * MS; if (nq2[0] + nq2[1] + nair[0] + nair[1] == 0 && nd_bool()) { int64_t t = -1; for (int k = 0; k < 2; ++k) if (tmr[k].on && (t < 0 || tmr[k].tmo < t)) t = tmr[k].tmo; if (t > now) now = t; } fire(0); fire(1);
        if (started && r2[1] == n && d2[0] == n && (!both || (r2[0] == n && d2[1] == n)) && nq2[0] + nq2[1] + nair[0] + nair[1] == 0) break;
    }
    ENSURE(d2[0] == n && r2[1] == n && (!both || (d2[1] == n && r2[0] == n)), "everything is delivered and completed"); for (int k = 0; k < 2; ++k) { vp_free(fr2[k]); vp_free(a2[k]); }
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
