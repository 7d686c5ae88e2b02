/* C02: byte-order encode/decode of 8..64-bit values. */
#include "vp.h"
#include "embc/bbuf.h"

#ifdef VP_CBMC
#define ENC(name, T, N, PRED) \
void embc_bbuf_unsafe_encode_##name(uint8_t ** buffer, T value) \
__CPROVER_requires(__CPROVER_is_fresh(buffer, sizeof(*buffer)) && __CPROVER_is_fresh(*buffer, N)) \
__CPROVER_assigns(*buffer, __CPROVER_object_upto(*buffer, N)) \
__CPROVER_ensures(*buffer == __CPROVER_old(*buffer) + N) \
__CPROVER_ensures(PRED(__CPROVER_old(*buffer), value)); \
VP_HARNESS(h_enc_##name) { uint8_t **b; T v; embc_bbuf_unsafe_encode_##name(b, v); REACH(); }
#define DEC(name, T, N, PRED) \
T embc_bbuf_unsafe_decode_##name(uint8_t const ** buffer) \
__CPROVER_requires(__CPROVER_is_fresh(buffer, sizeof(*buffer)) && __CPROVER_is_fresh(*buffer, N)) \
__CPROVER_assigns(*buffer) \
__CPROVER_ensures(*buffer == __CPROVER_old(*buffer) + N) \
__CPROVER_ensures(PRED(__CPROVER_old(*buffer), __CPROVER_return_value)); \
VP_HARNESS(h_dec_##name) { uint8_t const **b; embc_bbuf_unsafe_decode_##name(b); REACH(); }
#else
#define ENC(name, T, N, PRED)
#define DEC(name, T, N, PRED)
#endif
/* specification: byte i of the encoding */
#define BYTE(v, k) ((uint8_t) (((uint64_t) (v)) >> (8 * (k))))
#define IS8(p, v) ((p)[0] == BYTE(v, 0))
#define IS16BE(p, v) ((p)[0] == BYTE(v, 1) && (p)[1] == BYTE(v, 0))
#define IS16LE(p, v) ((p)[1] == BYTE(v, 1) && (p)[0] == BYTE(v, 0))
#define IS32BE(p, v) ((p)[0] == BYTE(v, 3) && (p)[1] == BYTE(v, 2) && (p)[2] == BYTE(v, 1) && (p)[3] == BYTE(v, 0))
#define IS32LE(p, v) ((p)[3] == BYTE(v, 3) && (p)[2] == BYTE(v, 2) && (p)[1] == BYTE(v, 1) && (p)[0] == BYTE(v, 0))
#define IS64BE(p, v) ((p)[0] == BYTE(v, 7) && (p)[1] == BYTE(v, 6) && (p)[2] == BYTE(v, 5) && (p)[3] == BYTE(v, 4) && \
                      (p)[4] == BYTE(v, 3) && (p)[5] == BYTE(v, 2) && (p)[6] == BYTE(v, 1) && (p)[7] == BYTE(v, 0))
#define IS64LE(p, v) ((p)[7] == BYTE(v, 7) && (p)[6] == BYTE(v, 6) && (p)[5] == BYTE(v, 5) && (p)[4] == BYTE(v, 4) && \
                      (p)[3] == BYTE(v, 3) && (p)[2] == BYTE(v, 2) && (p)[1] == BYTE(v, 1) && (p)[0] == BYTE(v, 0))
#define ALL(X) X(u8, uint8_t, 1, IS8) X(u16_be, uint16_t, 2, IS16BE) X(u16_le, uint16_t, 2, IS16LE) \
    X(u32_be, uint32_t, 4, IS32BE) X(u32_le, uint32_t, 4, IS32LE) X(u64_be, uint64_t, 8, IS64BE) X(u64_le, uint64_t, 8, IS64LE)
ALL(ENC)
ALL(DEC)

/* whole-buffer triples and round trips, replayable; covers the macros as well */
#define TRIP(NAME, name, T, N, PRED) { \
    uint8_t a[N + 2], o[N + 2]; \
    for (int i = 0; i < N + 2; ++i) { a[i] = o[i] = fill[i]; } \
    T v = (T) x; uint8_t *p = a + 1; \
    embc_bbuf_unsafe_encode_##name(&p, v); \
    ENSURE(p == a + 1 + N, #name ": the encode cursor advances by the width"); \
    ENSURE(PRED((a + 1), v), #name ": encoded byte order"); \
    ENSURE(a[0] == o[0] && a[N + 1] == o[N + 1], #name ": neighbouring bytes untouched"); \
    uint8_t const *q = a + 1; \
    T w = embc_bbuf_unsafe_decode_##name(&q); \
    ENSURE(w == v && q == a + 1 + N, #name ": decode is the inverse of encode"); \
    for (int i = 0; i < N + 2; ++i) { a[i] = o[i]; } \
    EMBC_BBUF_ENCODE_##NAME(a + 1, v); \
    ENSURE(PRED((a + 1), v), #NAME ": macro encoded byte order"); \
    ENSURE(a[0] == o[0] && a[N + 1] == o[N + 1], #NAME ": macro leaves neighbouring bytes untouched"); \
    p = a + 1; \
    T y = EMBC_BBUF_DECODE_##NAME(p); \
    ENSURE(y == v, #NAME ": macro decode is the inverse of encode"); \
    uint8_t const *r = fill; \
    T z = embc_bbuf_unsafe_decode_##name(&r); \
    ENSURE(PRED(fill, z) && r == fill + N, #name ": decoded value of arbitrary bytes"); \
    p = fill; \
    T z2 = EMBC_BBUF_DECODE_##NAME(p); \
    ENSURE(z2 == z, #NAME ": macro decode agrees"); \
}
VP_HARNESS(h_roundtrip) {
    uint64_t x = nd_u64();
    uint8_t fill[10]; nd_bytes(fill, 10);
    TRIP(U8, u8, uint8_t, 1, IS8)
    TRIP(U16_BE, u16_be, uint16_t, 2, IS16BE)
    TRIP(U16_LE, u16_le, uint16_t, 2, IS16LE)
    TRIP(U32_BE, u32_be, uint32_t, 4, IS32BE)
    TRIP(U32_LE, u32_le, uint32_t, 4, IS32LE)
    TRIP(U64_BE, u64_be, uint64_t, 8, IS64BE)
    TRIP(U64_LE, u64_le, uint64_t, 8, IS64LE)
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
