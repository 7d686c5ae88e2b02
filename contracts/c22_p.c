/* C22: the pattern generator.  f(k): generator state before word k; word(k): the documented word k. */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#include "embc/pattern_32a.h"
static struct embc_pattern_32a_tx_s tx; static uint32_t * g_buf;
static uint32_t g_w, g_n, g_q, g_p, g_nw, g_qw, g_pw; static uint16_t g_c0; static uint32_t g_p0, g_off; static uint64_t g_len;
#define SH(p) ((p) ? 1u << ((p) - 1) : 0u)
/* the shift values in order: position g_p after g_n of them, from position g_p0, with g_p0 + g_n == 33 * g_q + g_p */
#define SHIFT() { if (g_off + 2ull * g_n == g_w) { g_nw = g_n; g_qw = g_q; g_pw = g_p; } ++g_n; if (++g_p == 33) { g_p = 0; ++g_q; } }
#include "src/pattern_32a.c"
#define CNT(c) ((((uint32_t) (uint16_t) ~(c)) << 16) | (uint16_t) (c))
static struct embc_pattern_32a_tx_s f(uint32_t k) {
    struct embc_pattern_32a_tx_s r; memset(&r, 0, sizeof(r)); uint32_t s = ((k + 1) / 2) % 33;
    r.shift32 = SH(s); r.counter = (uint16_t) (k / 2); r.toggle = k & 1 ? TOGGLE_COUNT : TOGGLE_SHIFT; return r;
}
static uint32_t word(uint32_t k) { uint32_t s = (k / 2) % 33; return k & 1 ? CNT(k / 2) : SH(s); }
static bool eq(struct embc_pattern_32a_tx_s a, struct embc_pattern_32a_tx_s b) { return a.shift32 == b.shift32 && a.counter == b.counter && a.toggle == b.toggle; }
VP_HARNESS(h_next) {
    uint32_t k = nd_range(0, EMBC_PATTERN_32A_PERIOD - 1); tx = f(k);
    uint32_t v = embc_pattern_32a_tx_next(&tx);
    ENSURE(v == word(k), "word k of the documented sequence"); ENSURE(eq(tx, f((k + 1) % EMBC_PATTERN_32A_PERIOD)), "position k + 1"); REACH();
}
VP_HARNESS(h_init) { tx.shift32 = nd_u32(); tx.counter = nd_u16(); tx.toggle = nd_u8(); embc_pattern_32a_tx_initialize(&tx); ENSURE(eq(tx, f(0)), "starts at position 0"); REACH(); }
VP_HARNESS(h_period) {   /* positions of one period have distinct states (so no shorter period) */
    uint32_t a = nd_range(0, EMBC_PATTERN_32A_PERIOD - 1), b = nd_range(0, EMBC_PATTERN_32A_PERIOD - 1); REQUIRE(a < b);
    ENSURE(EMBC_PATTERN_32A_PERIOD == 33 * 65536 * 2, "documented period");
    ENSURE(!eq(f(a), f(b)), "no shorter period"); REACH();
}
#ifdef VP_CBMC
VP_HARNESS(h_buffer) {
    uint32_t size = nd_u32(); uint32_t sz = size / 4; g_len = (uint64_t) sz * 4;
    g_buf = malloc(g_len); REQUIRE(g_buf != 0);
    g_p0 = g_p = nd_range(0, 32); g_c0 = nd_u16(); g_n = g_q = g_nw = g_qw = g_pw = 0; bool cnt = nd_bool(); g_off = cnt ? 1 : 0; g_w = nd_range(0, 0x3fffffff);
    tx.shift32 = SH(g_p0); tx.counter = g_c0; tx.toggle = cnt ? TOGGLE_COUNT : TOGGLE_SHIFT;
    embc_pattern_32a_tx_buffer(&tx, g_buf, size);
    uint32_t ns = cnt ? sz / 2 : sz - sz / 2, nc = sz - ns;
    if (g_w < sz) {
        if ((g_w & 1) == g_off) { ENSURE((g_w - g_off) / 2 == g_nw && g_p0 + g_nw == 33 * g_qw + g_pw && g_pw < 33, "shift position"); ENSURE(g_buf[g_w] == SH(g_pw), "shift word"); }
        else { uint32_t m = (g_w - (1 - g_off)) / 2; ENSURE(g_buf[g_w] == CNT(g_c0 + m), "counter word"); }
    }
    ENSURE(g_n == ns && g_p0 + ns == 33 * g_q + g_p && g_p < 33 && tx.shift32 == SH(g_p) && tx.counter == (uint16_t) (g_c0 + nc), "position after the buffer");
    ENSURE(tx.toggle == ((sz & 1) ? (cnt ? TOGGLE_SHIFT : TOGGLE_COUNT) : (cnt ? TOGGLE_COUNT : TOGGLE_SHIFT)), "next kind of word"); REACH();
}
#endif
VP_HARNESS(h_small) {   /* buffer against single steps */
    static uint32_t b[8]; uint32_t sz = nd_range(0, 6), g = nd_u32(); struct embc_pattern_32a_tx_s t; uint32_t p = nd_range(0, 32);
    memset(&t, 0, sizeof(t)); t.shift32 = SH(p); t.counter = nd_u16(); t.toggle = nd_bool() ? TOGGLE_COUNT : TOGGLE_SHIFT; tx = t; for (int i = 0; i < 8; ++i) b[i] = g;
    embc_pattern_32a_tx_buffer(&tx, b, sz * 4 + nd_range(0, 3));
    for (uint32_t i = 0; i < 8; ++i) ENSURE(b[i] == (i < sz ? embc_pattern_32a_tx_next(&t) : g), "same words as single steps, nothing beyond");
    ENSURE(eq(t, tx), "same position"); REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
