/* C21: LFSR x16 + x14 + x13 + x11 + 1. */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#include "src/lfsr.c"
static struct embc_lfsr_s s;
static uint16_t T(uint16_t v) { return (uint16_t) ((v >> 1) | (((v ^ (v >> 2) ^ (v >> 3) ^ (v >> 5)) & 1) << 15)); }   /* the documented polynomial */
static uint16_t steps(uint16_t v, int n) { while (n--) v = T(v); return v; }
static void any(void) { s.value = nd_u16(); s.error_count = nd_i32(); uint32_t r = nd_range(0, 2); s.resync_bit_count = 8 * r; REQUIRE(s.error_count >= 0 && s.error_count < 1000000000); }
#define G(v) ((v) ? (v) : 1)
VP_HARNESS(h_gen) {
    any(); struct embc_lfsr_s o = s; uint16_t v = G(o.value);
    int k = nd_range(0, 3);
    if (k == 0) { int b = embc_lfsr_next_u1(&s); v = T(v); ENSURE(b == v >> 15, "bit"); }
    else if (k == 1) { uint8_t b = embc_lfsr_next_u8(&s); v = steps(v, 8); ENSURE(b == v >> 8, "byte: eight bits, first one least significant"); }
    else if (k == 2) { uint16_t b = embc_lfsr_next_u16(&s); v = steps(v, 16); ENSURE(b == v, "word"); }
    else { uint32_t b = embc_lfsr_next_u32(&s); uint16_t w = steps(v, 16); v = steps(w, 16); ENSURE(b == (((uint32_t) w << 16) | v), "double word, first word most significant"); }
    ENSURE(s.value == v && v != 0, "state, never zero");
    ENSURE(s.error_count == o.error_count && s.resync_bit_count == o.resync_bit_count, "receiver state untouched"); REACH();
}
VP_HARNESS(h_init) {
    any(); struct embc_lfsr_s o = s; embc_lfsr_initialize(&s);
    ENSURE(s.value == 0xACE1 && s.error_count == 0 && s.resync_bit_count == 16, "initial state");
    uint16_t d = nd_u16(); s = o; embc_lfsr_seed_u16(&s, d);
    ENSURE(s.value == G(d) && s.error_count == o.error_count && s.resync_bit_count == o.resync_bit_count, "seed"); REACH();
}
VP_HARNESS(h_follow) {
    any(); struct embc_lfsr_s o = s; uint8_t d = nd_u8(); int r = embc_lfsr_follow_u8(&s, d);
    uint16_t n = steps(G(o.value), 8);
    if (o.resync_bit_count) ENSURE(r == 0 && s.value == ((o.value >> 8) | (d << 8)) && s.resync_bit_count == o.resync_bit_count - 8 && s.error_count == o.error_count, "resynchronizing from received data");
    else if (d == n >> 8) ENSURE(r == 0 && s.value == n && s.resync_bit_count == 0 && s.error_count == o.error_count, "expected byte: no error");
    else ENSURE(r == -1 && s.value == d << 8 && s.resync_bit_count == 8 && s.error_count == o.error_count + 1, "any other byte: one error, resynchronize");
    REACH();
}
VP_HARNESS(h_resync) {   /* after any history, five bytes of a valid stream suffice */
    any(); uint16_t v = nd_u16(); REQUIRE(v != 0); struct embc_lfsr_s g; g.value = v; g.resync_bit_count = g.error_count = 0;
    int r = 0; for (int i = 0; i < 4; ++i) r += embc_lfsr_follow_u8(&s, embc_lfsr_next_u8(&g));
    ENSURE(r >= -2 && s.resync_bit_count == 0 && s.value == g.value, "resynchronized");
    ENSURE(embc_lfsr_follow_u8(&s, embc_lfsr_next_u8(&g)) == 0 && s.value == g.value, "and stays so"); REACH();
}
/* lemma: the period of T is 65535 on every nonzero state: T is linear, T^65535 = I and T^(65535/p) moves every nonzero state for each prime p of 65535 = 3 * 5 * 17 * 257 */
typedef struct { uint16_t c[16]; } mat;
static uint16_t app(const mat * m, uint16_t v) { uint16_t r = 0; for (int i = 0; i < 16; ++i) if ((v >> i) & 1) r ^= m->c[i]; return r; }
static void power(mat * r, uint32_t n) {
    mat b, t; for (int i = 0; i < 16; ++i) { r->c[i] = 1 << i; b.c[i] = T(1 << i); }
    for (int k = 0; k < 16; ++k) { if ((n >> k) & 1) { for (int i = 0; i < 16; ++i) t.c[i] = app(&b, r->c[i]); *r = t; } for (int i = 0; i < 16; ++i) t.c[i] = app(&b, b.c[i]); b = t; }
}
VP_HARNESS(h_period) {
    uint16_t a = nd_u16(), b = nd_u16(), v = nd_u16(); REQUIRE(v != 0); mat m;
    ENSURE(T(a ^ b) == (T(a) ^ T(b)), "linear");
    power(&m, 65535); ENSURE(app(&m, v) == v, "every state returns after 65535 steps");
    power(&m, 65535 / 3); ENSURE(app(&m, v) != v, "not earlier (3)"); power(&m, 65535 / 5); ENSURE(app(&m, v) != v, "not earlier (5)");
    power(&m, 65535 / 17); ENSURE(app(&m, v) != v, "not earlier (17)"); power(&m, 65535 / 257); ENSURE(app(&m, v) != v, "not earlier (257)");
    s.value = v; (void) embc_lfsr_next_u1(&s); ENSURE(s.value == T(v) && LFSR16_LENGTH == 65535, "the code takes the steps of T"); REACH();
}
VP_HARNESS(h_null) {
    int k = nd_range(0, 7); if (k == 7) { REACH(); return; } EXPECT_FATAL();
    switch (k) { case 0: embc_lfsr_initialize(0); break; case 1: embc_lfsr_seed_u16(0, nd_u16()); break; case 2: (void) embc_lfsr_next_u1(0); break; case 3: (void) embc_lfsr_next_u8(0); break;
        case 4: (void) embc_lfsr_next_u16(0); break; case 5: (void) embc_lfsr_next_u32(0); break; default: (void) embc_lfsr_follow_u8(0, nd_u8()); break; }
    MUST_NOT_RETURN("a null instance is refused");
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
