/* C14: number parsing against a reference automaton that runs in lockstep with the loops (any length). */
#include <stdint.h>
#include <stdbool.h>
#include "c14_ref.h"
static const char * g_s; static int64_t g_L, g_pos; static int32_t g_ex; static struct ref g_r; static uint64_t g_sv; static int32_t g_k;
#include "vp.h"
#define OFF(p) ((int64_t) __CPROVER_POINTER_OFFSET(p))
#define CATCH1(p) if (g_s + g_pos != (p) && g_pos < g_L && g_s[g_pos]) { STEP(g_r, g_s[g_pos], g_ex); ++g_pos; }
#define CATCH_UP(p) { CATCH1(p) CATCH1(p) CATCH1(p) }
#define INSTR(p) (g_pos >= 0 && g_pos <= g_L && (p) == g_s + g_pos)
/* classes of the next character that parsing loop k can meet in each state (one dereference per invariant) */
enum { cWS = 1, c0 = 2, cD = 4, cX = 8, cH = 16, cDOT = 32, cSG = 64, cOT = 128, cN = 256, ALL = 511, cDIG = c0 | cD, cHEX = cDIG | cH };
static const uint16_t CAN[6][13] = {
    {[LEAD] = ALL, [SLEAD] = ALL & ~cWS & ~cSG},
    {[HEX] = ALL, [HEX0] = ALL & ~cWS & ~cN},
    {[DEC] = ALL, [ZERO] = ALL & ~cX, [LEAD] = ALL & ~cWS & ~cN, [SLEAD] = ALL & ~cWS & ~cSG & ~cN},
    {[TRAIL] = ALL, [DEC] = ALL & ~cDIG, [ZERO] = ALL & ~cDIG & ~cX, [HEX] = ALL & ~cHEX, [HEX0] = ALL & ~cHEX & ~cWS & ~cN, [LEAD] = ALL & ~cWS & ~cN & ~cDIG, [SLEAD] = ALL & ~cWS & ~cSG & ~cN & ~cDIG},
    {[FSIGN] = ALL & ~cWS & ~cSG, [FINT] = ALL, [FINTD] = ALL, [FFRAC] = ALL, [FFRACD] = ALL},
    {[TRAIL] = ALL, [FINTD] = ALL & ~cDIG & ~cDOT, [FFRACD] = ALL & ~cDIG}};
#define ST(k, p) (g_r.q >= 0 && g_r.q < 13 && ((CAN[k][g_r.q] >> CLS[(uint8_t) *(p)]) & 1))
#ifdef VP_CBMC
static int append_digit(uint32_t * value, uint32_t radix, uint32_t digit, uint32_t max)
__CPROVER_requires(__CPROVER_rw_ok(value, 4) && (radix == 10 || radix == 16) && digit < radix && max >= 0x7fffffff)
__CPROVER_assigns(*value)
__CPROVER_ensures((__CPROVER_return_value != 0) == (PUSH(__CPROVER_old(*value), radix, digit) > max))
__CPROVER_ensures(__CPROVER_return_value != 0 || *value == PUSH(__CPROVER_old(*value), radix, digit));
#endif
#include "src/cstr.c"
#ifndef RADIX
#define RADIX 10
#endif
#ifdef VP_CBMC
VP_HARNESS(h_append) {
    uint32_t v = nd_u32();
    (void) append_digit(&v, RADIX, nd_u32(), nd_u32());
    REACH();
}
#endif
#ifndef N
#define N 6
#endif
#ifndef EXPMAX
#define EXPMAX 11
#endif
#define TEXT() char s[N + 3]; for (int i = 0; i < N; ++i) s[i] = nd_i8(); s[N] = s[N + 1] = s[N + 2] = 0
#ifdef VP_CBMC
#define ANY(q) g_L = nd_range(0, 1000000); char * s = malloc(g_L + 1); REQUIRE(s != 0); s[g_L] = 0; g_s = s; g_pos = 0; g_r = ref_start(q); g_ex = 0; g_sv = 0; g_k = 0
/* what is known when the function returns: nothing after the position reached can repair a malformed or oversized number */
#define ended() (g_pos >= g_L || !g_s[g_pos])
VP_HARNESS(h_u32) {
    ANY(LEAD); uint32_t v0 = nd_u32(), v = v0;
    int r = embc_cstr_to_u32(s, &v);
    CATCH_UP(NULL); uint64_t e = ref_end(g_r, 0);
    ENSURE(r == 0 || r == 1, "documented status");
    ENSURE(r || (ended() && e <= UINT32_MAX && v == e), "accepted only when well formed and representable, with the exact value");
    ENSURE(!r || (v == v0 && (g_r.q == FAIL || g_r.v > UINT32_MAX || (ended() && e > UINT32_MAX))), "refused only when malformed or not representable, output unmodified");
    REACH();
}
VP_HARNESS(h_i32) {
    ANY(SLEAD); int32_t v0 = nd_i32(), v = v0;
    int r = embc_cstr_to_i32(s, &v);
    CATCH_UP(NULL); uint64_t e = ref_end(g_r, 0), lim = g_r.neg ? 0x80000000ull : 0x7fffffffull;
    ENSURE(r || (ended() && e <= lim && v == (g_r.neg ? -(int64_t) e : (int64_t) e)), "accepted only when well formed and representable, with the exact value");
    ENSURE(!r || (v == v0 && (g_r.q == FAIL || g_r.v > lim || (ended() && e > lim))), "refused only when malformed or not representable, output unmodified");
    REACH();
}
VP_HARNESS(h_i32s) {
    ANY(FSIGN); int32_t v0 = nd_i32(), v = v0; g_ex = nd_i32(); bool nul = nd_bool();
    int r = embc_cstr_to_i32s(s, g_ex, nul ? NULL : &v);
    if (g_ex < 0) { ENSURE(r != 0 && v == v0, "a negative exponent is refused"); }
    else {
        CATCH_UP(NULL); uint64_t e = ref_end(g_r, g_ex), lim = g_r.neg ? 0x80000000ull : 0x7fffffffull;
        if (e <= BIG && g_k == 0) g_sv = e;
        ENSURE(r || (ended() && e <= BIG && (g_sv == 0 || g_k == g_ex - g_r.fr) && g_sv <= lim && v == (nul ? v0 : g_r.neg ? -(int64_t) g_sv : (int64_t) g_sv)), "accepted only when well formed and representable, with the exact scaled value");
        ENSURE(!r || (v == v0 && (g_r.q == FAIL || g_r.v > lim || (ended() && e > BIG) || (ended() && g_k <= g_ex - g_r.fr && g_sv > lim))), "refused only when malformed or not representable, output unmodified");
    }
    REACH();
}
#endif
VP_HARNESS(h_u32_short) {
    TEXT(); uint32_t v0 = nd_u32(), v = v0; uint64_t e = ref_end(ref_run(LEAD, s, N, 0), 0);
    int r = embc_cstr_to_u32(s, &v);
    ENSURE((r == 0) == (e <= UINT32_MAX), "accepted exactly when well formed and representable");
    ENSURE(v == (r ? v0 : e), "the exact value, unmodified on error");
    REACH();
}
VP_HARNESS(h_i32_short) {
    TEXT(); int32_t v0 = nd_i32(), v = v0; struct ref q = ref_run(SLEAD, s, N, 0); uint64_t e = ref_end(q, 0);
    int r = embc_cstr_to_i32(s, &v);
    ENSURE((r == 0) == (e <= (q.neg ? 0x80000000ull : 0x7fffffffull)), "accepted exactly when well formed and representable");
    ENSURE(v == (r ? v0 : q.neg ? -(int64_t) e : (int64_t) e), "the exact value, unmodified on error");
    REACH();
}
VP_HARNESS(h_i32s_short) {
    TEXT(); int32_t v0 = nd_i32(), v = v0, exponent = nd_range(0, EXPMAX); struct ref q = ref_run(FSIGN, s, N, exponent); uint64_t e = ref_fixed(q, exponent);
    int r = embc_cstr_to_i32s(s, exponent, &v);
    ENSURE((r == 0) == (e <= (q.neg ? 0x80000000ull : 0x7fffffffull)), "accepted exactly when well formed and representable");
    ENSURE(v == (r ? v0 : q.neg ? -(int64_t) e : (int64_t) e), "the exact scaled value, extra digits dropped, unmodified on error");
    REACH();
}
VP_HARNESS(h_null) {
    uint32_t v = nd_u32(), v0 = v; int32_t e = nd_i32();
    ENSURE(embc_cstr_to_u32(NULL, &v) != 0 && embc_cstr_to_i32(NULL, (int32_t *) &v) != 0 && embc_cstr_to_i32s(NULL, e, (int32_t *) &v) != 0 && v == v0, "null text is an error");
    ENSURE(embc_cstr_to_u32("1", NULL) != 0 && embc_cstr_to_i32("1", NULL) != 0, "null output is an error");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
