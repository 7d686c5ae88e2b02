/* C01: CRC-8/16/32 equal the polynomial reference for every buffer of every length. */
#include "vp.h"
#include "c01_ref.h"
/* ghost state of the fold: data already consumed and the reference register after it */
static const uint8_t *g_data; static uint32_t g_len; static uint32_t g_i; static uint32_t g_ref; static uint32_t g_dead;
#define GHOST8  { g_ref = ref_step8((uint8_t) g_ref, g_data[g_i]); g_i = g_i + 1; }
#define GHOST16 { g_ref = ref_step16((uint16_t) g_ref, g_data[g_i]); g_i = g_i + 1; }
#define GHOST32 { g_ref = ref_step32(g_ref, g_data[g_i]); g_i = g_i + 1; }
#include "src/crc.c"

#define SETUP() \
    uint32_t n = nd_u32(); \
    uint8_t *buf = malloc(n); \
    REQUIRE(buf != 0); \
    g_data = buf; g_len = n; g_i = 0;

#ifdef VP_CBMC
VP_HARNESS(h_crc8) {
    SETUP();
    REQUIRE(n > 0);
    uint8_t c0 = nd_u8();
    g_ref = (uint8_t) ~c0;
    uint8_t r = embc_crc_ccitt_8(c0, buf, n);
    ENSURE(g_i == n, "CRC-8 consumes every byte exactly once, in order");
    ENSURE(r == (uint8_t) ~g_ref, "CRC-8 equals the polynomial reference");
    REACH();
}
VP_HARNESS(h_crc16) {
    SETUP();
    REQUIRE(n > 0);
    uint16_t c0 = nd_u16();
    g_ref = (uint16_t) ~c0;
    uint16_t r = embc_crc_ccitt_16(c0, buf, n);
    ENSURE(g_i == n, "CRC-16 consumes every byte exactly once, in order");
    ENSURE(r == (uint16_t) ~g_ref, "CRC-16 equals the polynomial reference");
    REACH();
}
VP_HARNESS(h_crc32) {
    SETUP();
    REQUIRE(n > 0);
    uint32_t c0 = nd_u32();
    g_ref = ~c0;
    uint32_t r = embc_crc32(c0, buf, n);
    ENSURE(g_i == n, "CRC-32 consumes every byte exactly once, in order");
    ENSURE(r == ~g_ref, "CRC-32 equals the polynomial reference");
    REACH();
}
#endif
VP_HARNESS(h_empty) {
    uint8_t b[1] = {0};
    uint32_t c = nd_u32(); uint32_t n = nd_u32(); bool null = nd_bool();
    REQUIRE(null || n == 0);
    uint8_t *p = b; if (null) p = NULL;
    ENSURE(embc_crc_ccitt_8((uint8_t) c, p, n) == (uint8_t) c, "CRC-8 of nothing is the running value");
    ENSURE(embc_crc_ccitt_16((uint16_t) c, p, n) == (uint16_t) c, "CRC-16 of nothing is the running value");
    ENSURE(embc_crc32(c, p, n) == c, "CRC-32 of nothing is the running value");
    REACH();
}
/* full unwinding for short inputs, used to obtain replayable inputs */
VP_HARNESS(h_short) {
    uint8_t b[3]; nd_bytes(b, 3);
    uint32_t n = nd_range(1, 3);
    uint32_t c = nd_u32();
    uint8_t r8 = ~(uint8_t) c; uint16_t r16 = ~(uint16_t) c; uint32_t r32 = ~c;
    for (uint32_t i = 0; i < n; ++i) { r8 = ref_step8(r8, b[i]); r16 = ref_step16(r16, b[i]); r32 = ref_step32(r32, b[i]); }
    ENSURE(embc_crc_ccitt_8((uint8_t) c, b, n) == (uint8_t) ~r8, "CRC-8 equals the polynomial reference");
    ENSURE(embc_crc_ccitt_16((uint16_t) c, b, n) == (uint16_t) ~r16, "CRC-16 equals the polynomial reference");
    ENSURE(embc_crc32(c, b, n) == ~r32, "CRC-32 equals the polynomial reference");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
