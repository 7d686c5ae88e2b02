/* C01, public interface, long buffers and chaining: native search for failing inputs. */
#include "vp.h"
#include "c01_ref.h"
#include "embc/crc.h"
VP_HARNESS(b_crc) {
    uint32_t n = nd_range(0, 9) ? nd_range(0, 40) : (nd_bool() ? nd_range(65000, 140000) : nd_range(200, 1100));
    uint8_t *b = malloc(n ? n : 1);
    uint32_t x = nd_u32() | 1;
    for (uint32_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; b[i] = x >> 24; }
    uint32_t c = nd_u32(); uint32_t k = nd_range(0, n);
    uint8_t r8 = ~(uint8_t) c; uint16_t r16 = ~(uint16_t) c; uint32_t r32 = ~c;
    for (uint32_t i = 0; i < n; ++i) { r8 = ref_step8(r8, b[i]); r16 = ref_step16(r16, b[i]); r32 = ref_step32(r32, b[i]); }
    r8 = ~r8; r16 = ~r16; r32 = ~r32;
    ENSURE(embc_crc_ccitt_8(c, b, n) == r8, "CRC-8 equals the polynomial reference");
    ENSURE(embc_crc_ccitt_16(c, b, n) == r16, "CRC-16 equals the polynomial reference");
    ENSURE(embc_crc32(c, b, n) == r32, "CRC-32 equals the polynomial reference");
    ENSURE(embc_crc_ccitt_8(embc_crc_ccitt_8(c, b, k), b + k, n - k) == r8, "CRC-8 chains");
    ENSURE(embc_crc_ccitt_16(embc_crc_ccitt_16(c, b, k), b + k, n - k) == r16, "CRC-16 chains");
    ENSURE(embc_crc32(embc_crc32(c, b, k), b + k, n - k) == r32, "CRC-32 chains");
    free(b);
}
VP_MAIN(b_crc)
