/* C30: bit, rounding and time arithmetic over the whole domain, against the mathematical definition in wider integers */
#include "vp.h"
#include "embc/platform/stdlib.h"
#include "embc/cdef.h"
#include "embc/time.h"
typedef __int128 W_t;
#ifndef VP_K
#define VP_K 0
#endif
#define S30 ((W_t) 1 << 30)
#define FITS(w) ((w) >= -(W_t) 0x7fffffffffffffff - 1 && (w) <= (W_t) 0x7fffffffffffffff)
VP_HARNESS(h_clz) {
    uint32_t x = nd_u32(), r = embc_clz(x);
    ENSURE(r <= 32, "range"); ENSURE(r == 32 ? x == 0 : ((x >> (31 - r)) == 1), "exactly the leading zero bits"); REACH();
}
VP_HARNESS(h_pow2) {
    uint32_t x = nd_u32(); REQUIRE(x >= 1 && x <= 0x80000000u); uint32_t r = embc_upper_power_of_two(x);
    ENSURE(r != 0 && (r & (r - 1)) == 0 && r >= x && (r >> 1) < x, "smallest power of two not below x"); REACH();
}
/* the remainder n - (n / m) * m of C division has magnitude below m and the sign of n (C99 6.5.5): given to the solver instead of rediscovered */
VP_HARNESS(h_round_signed) {   /* proved for small operands only: signed division defeats the solvers; the whole domain is sampled natively */
    int32_t x = (int32_t) nd_u32(), m = (int32_t) nd_u32();
#ifdef VP_CBMC
    REQUIRE(m >= 1 && m <= 300 && x >= -300 && x <= 300);
#else
    if (nd_bool()) { x /= 1 << nd_range(0, 30); m /= 1 << nd_range(0, 30); } int64_t xx = x; if (nd_bool() && m) xx = (int64_t) x / m * m + (int32_t) nd_range(0, 2) - 1; REQUIRE(xx >= -0x7fffffff && xx <= 0x7fffffff); x = (int32_t) xx; REQUIRE(m >= 1 && (int64_t) (x < 0 ? -(int64_t) x : x) + m - 1 <= 0x7fffffff);
#endif
    int32_t r = EMBC_ROUND_UP_TO_MULTIPLE(x, m); ENSURE(r % m == 0, "a multiple"); ENSURE(x >= 0 ? r >= x && r - x < m : r <= x && x - r < m, "nearest, away from zero"); REACH();
}
VP_HARNESS(h_round_unsigned) {
    uint32_t x = nd_u32(), m = nd_u32(); REQUIRE(m >= 1 && x <= 0xffffffffu - (m - 1)); uint32_t n = x + ((0 < x) - (x < 0)) * (m - 1), q = n / m, t = n - q * m; REQUIRE(t < m && q * m <= n);
    uint32_t r = EMBC_ROUND_UP_TO_MULTIPLE(x, m); ENSURE(r == q * m, "a multiple"); ENSURE(r >= x && r - x < m, "nearest, up"); if (m == 4 && x == 5) REACH();
}
VP_HARNESS(h_hygiene) {   /* operands that are expressions */
    uint32_t a = nd_range(0, 7), b = nd_range(1, 7), x = nd_range(0, 500); uint32_t m = a + b; ENSURE(EMBC_ROUND_UP_TO_MULTIPLE(x, a + b) == EMBC_ROUND_UP_TO_MULTIPLE(x, m), "expression operand"); ENSURE(EMBC_ROUND_UP_TO_MULTIPLE(a | x, m) == EMBC_ROUND_UP_TO_MULTIPLE((a | x), m), "expression operand");
    int32_t t = (int32_t) nd_range(0, 1 << 20); ENSURE(EMBC_TIME_TO_COUNTER(t, a + b) == EMBC_TIME_TO_COUNTER(t, m) && EMBC_TIME_TO_COUNTER_ROUND_UP(t, a + b) == EMBC_TIME_TO_COUNTER_ROUND_UP(t, m) && EMBC_TIME_TO_COUNTER_ROUND_DOWN(t, a + b) == EMBC_TIME_TO_COUNTER_ROUND_DOWN(t, m), "expression frequency");
    ENSURE(EMBC_COUNTER_TO_TIME(x + a, a + b) == EMBC_COUNTER_TO_TIME((x + a), m), "expression operand"); ENSURE(EMBC_RESTRICT_TO_RANGE(a ? x : b, a, a + b) == EMBC_RESTRICT_TO_RANGE((a ? x : b), a, m), "expression operand"); REACH();
}
VP_HARNESS(h_sign) {
    int64_t x = nd_i64(); ENSURE(EMBC_SIGNUM(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign"); int64_t t = nd_i64(); REQUIRE(t >= -0x7fffffffffffffffll); int64_t r = EMBC_TIME_ABS(t); ENSURE(r >= 0 && (r == t || r == -t), "absolute value");
    int64_t lo = nd_i64(), hi = nd_i64(); REQUIRE(lo <= hi); r = EMBC_RESTRICT_TO_RANGE(x, lo, hi); ENSURE(r >= lo && r <= hi && (x < lo ? r == lo : x > hi ? r == hi : r == x), "restricted to the range"); REACH();
}
VP_HARNESS(h_constants) {
    ENSURE(EMBC_TIME_Q == 30 && EMBC_TIME_SECOND == 1073741824ll && EMBC_TIME_MILLISECOND == 1073741 && EMBC_TIME_MICROSECOND == 1073 && EMBC_TIME_NANOSECOND == 1, "second and fractions");
    ENSURE(EMBC_TIME_MINUTE == 60 * EMBC_TIME_SECOND && EMBC_TIME_HOUR == 3600 * EMBC_TIME_SECOND && EMBC_TIME_DAY == 86400 * EMBC_TIME_SECOND && EMBC_TIME_WEEK == 604800 * EMBC_TIME_SECOND && EMBC_TIME_YEAR == 31536000 * EMBC_TIME_SECOND && EMBC_TIME_MONTH == 2628000 * EMBC_TIME_SECOND, "longer units");
    ENSURE(EMBC_TIME_MAX == 0x7fffffffffffffffll && EMBC_TIME_MIN == -0x7fffffffffffffffll - 1 && EMBC_TIME_EPOCH_UNIX_OFFSET_SECONDS == 1514764800, "limits and epoch"); REACH();
}
/* time to counts; z is the frequency */
#define FLOOR(r, n) (((W_t) (r)) * S30 <= (W_t) (n) && (W_t) (n) < ((W_t) (r) + 1) * S30)
#define LIM ((int64_t) 0x7fffffffffffffff)
VP_HARNESS(h_to_counter) {
    int64_t x = nd_i64(), z = nd_u32(), n; REQUIRE(z > 0); REQUIRE(!__builtin_mul_overflow(x, z, &n)); REQUIRE(n <= LIM - (1 << 30));
    int64_t r = EMBC_TIME_TO_COUNTER(x, z); ENSURE(FLOOR(r, n + (1 << 29)), "nearest count");
    r = EMBC_TIME_TO_COUNTER_ROUND_UP(x, z); ENSURE(FLOOR(r, n + ((1 << 30) - 1)), "rounded up"); r = EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z); ENSURE(FLOOR(r, n), "rounded down"); REACH();
}
VP_HARNESS(h_to_units) {
    int64_t x = nd_i64(); uint32_t k = VP_K; int64_t z = k == 0 ? 1 : k == 1 ? 1000 : k == 2 ? 1000000 : 1000000000, n; REQUIRE(!__builtin_mul_overflow(x, z, &n)); REQUIRE(n <= LIM - (1 << 29));
    int64_t r = k == 0 ? EMBC_TIME_TO_SECONDS(x) : k == 1 ? EMBC_TIME_TO_MILLISECONDS(x) : k == 2 ? EMBC_TIME_TO_MICROSECONDS(x) : EMBC_TIME_TO_NANOSECONDS(x); ENSURE(FLOOR(r, n + (1 << 29)), "nearest unit"); REACH();
}
/* counts to time: truncated quotient */
VP_HARNESS(h_from_counter) { int64_t x = nd_i64(); int64_t z = nd_u32(); REQUIRE(z > 0 && x >= 0 && x < ((int64_t) 1 << 33)); int64_t r = EMBC_COUNTER_TO_TIME(x, z); ENSURE(r == (x * (1ll << 30)) / z, "time of the count"); REACH(); }
VP_HARNESS(h_from_units) {
    int64_t x = nd_i64(); REQUIRE(x >= 0 && x < ((int64_t) 1 << 33)); uint32_t k = VP_K; int64_t r = k == 0 ? EMBC_SECONDS_TO_TIME(x) : k == 1 ? EMBC_MILLISECONDS_TO_TIME(x) : k == 2 ? EMBC_MICROSECONDS_TO_TIME(x) : EMBC_NANOSECONDS_TO_TIME(x);
    int64_t z = k == 0 ? 1 : k == 1 ? 1000 : k == 2 ? 1000000 : 1000000000; ENSURE(r == (x << 30) / z, "time of the units"); REACH();
}
VP_HARNESS(h_memory) {
    uint8_t a[9], b[9]; uint32_t n = nd_range(0, 9), q = nd_range(0, 8); for (int i = 0; i < 9; ++i) { a[i] = nd_u8(); b[i] = nd_u8(); } uint8_t o = b[q]; int v = nd_u8();
    embc_memcpy(b, a, n); ENSURE(b[q] == (q < n ? a[q] : o), "copied exactly"); o = a[q]; embc_memset(a, v, n); ENSURE(a[q] == (q < n ? v : o), "filled exactly"); REACH();
}
VP_HARNESS(h_float) {   /* exact for times a double can hold; the conversion back truncates toward zero */
    int64_t x = nd_i64(); REQUIRE(x >= -((int64_t) 1 << 52) && x <= ((int64_t) 1 << 52)); double d = EMBC_TIME_TO_F64(x); ENSURE(EMBC_F64_TO_TIME(d) == x, "there and back"); double e = d * 1073741824.0; ENSURE(e == (double) x, "in seconds"); REACH();
}
#if defined(VP_NATIVE) && !defined(C30_B)
VP_MAIN(VP_ENTRY)
#endif
