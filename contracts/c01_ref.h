/* Specification functions: one bit of the reflected CRC division, written from the polynomials
 * x^8+x^2+x+1 (0x07), x^16+x^12+x^5+1 (0x1021) and the IEEE 802.3 polynomial (0x04C11DB7). */
#ifndef C01_REF_H_
#define C01_REF_H_
static inline uint32_t ref_rev(uint32_t v, int bits) {
    uint32_t r = 0;
    for (int i = 0; i < bits; ++i) if (v & (1u << i)) r |= 1u << (bits - 1 - i);
    return r;
}
#define R8 0xE0u
#define R16 0x8408u
#define R32 0xEDB88320u
#define RB(c, R) (((c) & 1u) ? (((c) >> 1) ^ (R)) : ((c) >> 1))
static inline uint32_t ref_bits(uint32_t c, uint32_t R) {
    c = RB(c, R); c = RB(c, R); c = RB(c, R); c = RB(c, R);
    c = RB(c, R); c = RB(c, R); c = RB(c, R); c = RB(c, R);
    return c;
}
static inline uint8_t ref_step8(uint8_t c, uint8_t b) { return (uint8_t) ref_bits((uint8_t) (c ^ b), R8); }
/* CRC-16 here is the left-shifting variant: register shifted left, polynomial 0x1021 */
static inline uint16_t ref_step16(uint16_t c, uint8_t b) {
    uint32_t x = (uint16_t) (c ^ ((uint16_t) b << 8));
#define LB(x) (((x) & 0x8000u) ? ((((x) << 1) ^ 0x1021u) & 0xffffu) : (((x) << 1) & 0xffffu))
    x = LB(x); x = LB(x); x = LB(x); x = LB(x); x = LB(x); x = LB(x); x = LB(x); x = LB(x);
    return (uint16_t) x;
}
static inline uint32_t ref_step32(uint32_t c, uint8_t b) { return ref_bits(c ^ b, R32); }
#endif
