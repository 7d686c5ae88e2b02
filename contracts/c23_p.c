/* C23: the pattern receiver, one word at a time from any receiver state. */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#ifndef STATE
#define STATE ST_WORD2
#define KIND 0
#endif
static uint32_t g_pe, g_ps, g_cd, g_J;   /* expected and received shift position, counter difference, and the number of counter periods between them */
#include "src/pattern_32a.c"
#define SH(p) ((p) ? 1u << ((p) - 1) : 0u)
#define CNT(c) ((((uint32_t) (uint16_t) ~(c)) << 16) | (uint16_t) (c))
static struct embc_pattern_32a_rx_s rx, o; static uint32_t P_, C_; static bool T_;
static bool cntform(uint32_t v) { return (v >> 16) == (uint16_t) ~v; }
static uint32_t pos(uint32_t v) { uint32_t r = 33; for (uint32_t i = 0; i < 33; ++i) if (v == SH(i)) r = i; return r; }   /* 33: not a shift word */
static void make(int state) {
    P_ = nd_range(0, 32); C_ = nd_u16(); T_ = nd_bool();
    memset(&rx, 0, sizeof(rx)); rx.tx.shift32 = SH(P_); rx.tx.counter = C_; rx.tx.toggle = T_ ? TOGGLE_COUNT : TOGGLE_SHIFT;
    rx.receive_count = nd_u64(); rx.missing_count = nd_u64(); rx.duplicate_count = nd_u64(); rx.error_count = nd_u64(); rx.resync_count = nd_u32(); rx.syncword1 = nd_u32(); rx.state = state; o = rx;
}
static bool tx_is(uint32_t p, uint32_t c, bool t) { return rx.tx.shift32 == SH(p) && rx.tx.counter == (uint16_t) c && rx.tx.toggle == (t ? TOGGLE_COUNT : TOGGLE_SHIFT); }
#define NXT(p) ((p) == 32 ? 0 : (p) + 1)
VP_HARNESS(h_sync) {
    make(ST_SYNC); uint32_t v = nd_u32(), want = T_ ? CNT(C_) : SH(P_);
    embc_pattern_32a_rx_next(&rx, v);
    bool ok = v == want; int e = ok ? 0 : 1;
    ENSURE(rx.receive_count == o.receive_count + 1, "every word is counted once");
    ENSURE(rx.missing_count == o.missing_count && rx.duplicate_count == o.duplicate_count, "nothing skipped or repeated yet");
    ENSURE(rx.error_count == o.error_count + e && rx.resync_count == o.resync_count + e, "an error exactly when the word is not the continuation");
    if (ok) ENSURE(rx.state == ST_SYNC && (T_ ? tx_is(P_, C_ + 1, false) : tx_is(NXT(P_), C_, true)), "expects the next word");
    else ENSURE(rx.state == ST_WORD2 && rx.syncword1 == v && tx_is(P_, C_, T_), "resynchronizes");
    REACH();
}
VP_HARNESS(h_first) {
    make(ST_UNSYNC); uint32_t v = nd_u32(); embc_pattern_32a_rx_next(&rx, v);
    ENSURE(rx.receive_count == o.receive_count + 1 && rx.missing_count == o.missing_count && rx.duplicate_count == o.duplicate_count && rx.error_count == o.error_count && rx.resync_count == o.resync_count, "first word is only counted");
    ENSURE(rx.state == ST_UNSYNC2 && rx.syncword1 == v && tx_is(P_, C_, T_), "first word remembered"); REACH();
}
/* two words: in sequence kind iff one is a counter word and the other a shift word */
VP_HARNESS(h_pair) {
    make(STATE); uint32_t v1 = rx.syncword1, v2 = nd_u32();
    bool c1 = cntform(v1), c2 = cntform(v2); uint32_t p = pos(c1 ? v2 : v1); bool ok = c1 != c2 && p < 33;
    REQUIRE(ok == (KIND > 0)); if (KIND == 1) REQUIRE(!c1); if (KIND == 2) REQUIRE(c1);
    uint32_t c = (c1 ? v1 : v2) & 0xffff, incr = T_ != c1, pe = P_, ce = C_;
    if (incr) { if (T_) ce = (ce + 1) & 0xffff; else pe = NXT(pe); }
    g_pe = pe; g_ps = p; g_cd = (c - ce) & 0xffff; g_J = nd_range(0, 32); if (ok) REQUIRE((g_pe + g_cd + (g_J << 16)) % 33 == g_ps);   /* h_exists: there is always one */
    embc_pattern_32a_rx_next(&rx, v2);
    ENSURE(rx.receive_count == o.receive_count + 1 && rx.resync_count == o.resync_count, "every word is counted once");
    if (!ok) {
        ENSURE(rx.error_count == o.error_count + 1 && rx.missing_count == o.missing_count && rx.duplicate_count == o.duplicate_count, "one more error");
        ENSURE(rx.state == ST_WORD2 && rx.syncword1 == v2, "keeps looking");
    } else {
    ENSURE(rx.state == ST_SYNC && tx_is(NXT(p), c + 1, c1), "synchronized behind the second word");
    if (STATE == ST_UNSYNC2) ENSURE(rx.missing_count == 0 && rx.duplicate_count == 0 && rx.error_count == 0, "the first synchronization starts the counts");
    else {
        ENSURE(rx.error_count == o.error_count, "no error");
        uint64_t m = rx.missing_count - o.missing_count, d = rx.duplicate_count - o.duplicate_count;
        ENSURE(m == 0 || d == 0, "skipped or repeated, not both");
        ENSURE(m <= EMBC_PATTERN_32A_PERIOD / 2 && d < EMBC_PATTERN_32A_PERIOD / 2, "the closest explanation");
        /* skip: words from the expected position (P_, C_, T_) to the one before v1 */
        uint32_t skip = d ? EMBC_PATTERN_32A_PERIOD - (uint32_t) d : (uint32_t) m;
        ENSURE((skip & 1) == incr, "parity");
        uint32_t h = (skip - incr) / 2;
        ENSURE(((ce + h) & 0xffff) == c, "counter position"); ENSURE((pe + h) % 33 == p, "shift position");
    } }
    REACH();
}
VP_HARNESS(h_unique) {   /* a position difference below the period is determined by its parity, counter and shift parts */
    uint32_t a = nd_range(0, 33 * 65536 - 1), b = nd_range(0, 33 * 65536 - 1); REQUIRE((a & 0xffff) == (b & 0xffff) && a % 33 == b % 33); ENSURE(a == b, "unique"); REACH();
}
VP_HARNESS(h_exists) { uint32_t pe = nd_range(0, 32), ps = nd_range(0, 32), q = nd_range(0, 1985), r = nd_range(0, 32), j = (16 * (ps + 66 - pe - r)) % 33, t = pe + r + 31 * j; ENSURE(t % 33 == ps && t < 33 * 40, "exists");
    ENSURE(pe + (33 * q + r) + (j << 16) == t + 33 * (q + 1985 * j), "same value as t modulo 33"); REACH(); }
VP_HARNESS(h_init) {
    make(nd_range(0, 3)); embc_pattern_32a_rx_initialize(&rx);
    ENSURE(rx.receive_count == 0 && rx.missing_count == 0 && rx.duplicate_count == 0 && rx.error_count == 0 && rx.resync_count == 0 && rx.state == ST_UNSYNC && tx_is(0, 0, false), "initial state"); REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
