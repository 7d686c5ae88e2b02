/* C31: checking macros over all values; the allocator */
#define VP_NO_ALLOC
#include "vp.h"
#include "src/platform.c"
#include "embc/platform/stdlib.h"
#include "embc/dbc.h"
#include "embc/argchk.h"
#include "embc/cdef.h"
#include "embc/ec.h"
static int g_n, g_m;
#define X (++g_n, x)
#define Y (++g_m, y)
/* one macro: fatal exactly when the condition is violated, arguments evaluated once */
#define D(ok, use, stmt) { bool ok_ = (ok); vp_fatal_expected = !ok_; g_n = g_m = 0; stmt; ENSURE(ok_, "violation detected"); ENSURE(g_n == 1 && g_m == (use), "arguments evaluated once"); }
VP_HARNESS(h_dbc) {
    vp_fatal_expected = 0; int64_t x = nd_i64(), y = nd_i64(), z = nd_i64(); bool c = nd_bool(); void * p = nd_bool() ? NULL : (void *) &y; g_n = g_m = 0;
    switch (nd_range(0, 19)) {
        case 0: D(x != 0, 0, EMBC_DBC_TRUE(X)) break; case 1: D(x == 0, 0, EMBC_DBC_FALSE(X)) break; case 2: D(p != NULL, 0, EMBC_DBC_NOT_NULL((++g_n, p))) break;
        case 3: D(x == y, 1, EMBC_DBC_EQUAL(X, Y)) break; case 4: D(x > y, 1, EMBC_DBC_GT(X, Y)) break; case 5: D(x >= y, 1, EMBC_DBC_GTE(X, Y)) break; case 6: D(x != y, 1, EMBC_DBC_NE(X, Y)) break;
        case 7: D(x < y, 1, EMBC_DBC_LT(X, Y)) break; case 8: D(x <= y, 1, EMBC_DBC_LTE(X, Y)) break; case 9: D(x > 0, 0, EMBC_DBC_GT_ZERO(X)) break; case 10: D(x >= 0, 0, EMBC_DBC_GTE_ZERO(X)) break;
        case 11: D(x != 0, 0, EMBC_DBC_NE_ZERO(X)) break; case 12: D(x < 0, 0, EMBC_DBC_LT_ZERO(X)) break; case 13: D(x <= 0, 0, EMBC_DBC_LTE_ZERO(X)) break;
        case 14: D(x >= y && x <= z, 1, EMBC_DBC_RANGE_INT(X, Y, z)) break; case 15: D(x != 0, 0, EMBC_DBC_REQUIRE(X)) break; case 16: D(x != 0, 0, EMBC_ASSERT(X)) break; case 17: D(p != NULL, 0, EMBC_ASSERT_ALLOC((++g_n, p))) break;
        case 18: D(c || x, 0, EMBC_ASSERT((++g_n, c) || x)) break; default: D(!c || x > y, 0, EMBC_DBC_REQUIRE(!(++g_n, c) || x > y)) break;
    }
    REACH();
}
VP_HARNESS(h_dbc_u32) {   /* unsigned and narrow operands */
    vp_fatal_expected = 0; uint32_t x = nd_u32(), y = nd_u32(); uint8_t b = nd_u8(); g_n = g_m = 0;
    switch (nd_range(0, 3)) { case 0: D(x >= 16 && x <= y, 1, EMBC_DBC_RANGE_INT(X, 16, Y)) break; case 1: D(b <= 15, 0, EMBC_DBC_RANGE_INT((++g_n, b), 0, 15)) break; case 2: D(x < y, 1, EMBC_DBC_LT(X, Y)) break; default: D(x > 0, 0, EMBC_DBC_GT_ZERO(X)) break; }
    REACH();
}
VP_HARNESS(h_fatal) { vp_fatal_expected = 1; if (nd_bool()) EMBC_FATAL("x"); else EMBC_DBC_ASSERT(g_n != g_n, "y"); MUST_NOT_RETURN("a fatal error does not return"); }
#define A(name, stmt) static int name(int64_t x, int64_t y, int64_t z, void * p) { (void) x; (void) y; (void) z; (void) p; stmt; return 77; }
A(a0, EMBC_ARGCHK_TRUE(X)) A(a1, EMBC_ARGCHK_FALSE(X)) A(a2, EMBC_ARGCHK_NOT_NULL((++g_n, p))) A(a3, EMBC_ARGCHK_GT_ZERO(X)) A(a4, EMBC_ARGCHK_GTE_ZERO(X)) A(a5, EMBC_ARGCHK_NE_ZERO(X)) A(a6, EMBC_ARGCHK_LT_ZERO(X)) A(a7, EMBC_ARGCHK_LTE_ZERO(X))
A(a8, EMBC_ARGCHK_RANGE_INT(X, Y, z)) A(a9, EMBC_ARGCHK_REQUIRE(X)) A(a10, EMBC_ARGCHK_ASSERT(X, "m")) A(a11, EMBC_ARGCHK_REQUIRE((++g_n, x) == 1 || y))
VP_HARNESS(h_argchk) {
    vp_fatal_expected = 0; int64_t x = nd_i64(), y = nd_i64(), z = nd_i64(); void * p = nd_bool() ? NULL : (void *) &y; g_n = g_m = 0; int r; bool ok;
#define R(k, ok_) case k: r = a##k(x, y, z, p); ok = ok_; break;
    switch (nd_range(0, 11)) { R(0, x != 0) R(1, x == 0) R(2, p != NULL) R(3, x > 0) R(4, x >= 0) R(5, x != 0) R(6, x < 0) R(7, x <= 0) R(8, x >= y && x <= z) R(9, x != 0) R(10, x != 0) default: r = a11(x, y, z, p); ok = x == 1 || y; }
    ENSURE(r == (ok ? 77 : 5), "the parameter error is returned exactly on violation"); ENSURE(g_n == 1, "argument evaluated once"); REACH();
}
A(e0, EMBC_RETURN_ON_ERROR(X)) A(e1, EMBC_RETURN_ON_ERROR_MSG(X, "m"))
static int e2(int32_t x) { int r = 0; EMBC_EXIT_ON_ERROR(X); return 77; exit: return r - 1; }
static int e3(int32_t x) { int r = 0; EMBC_EXIT_WITH_ERROR(r, X); return 77; exit: return r; }
const char * embc_error_code_name(int ec) { (void) ec; return "name"; }
VP_HARNESS(h_return) {
    int32_t x = (int32_t) nd_u32(); g_n = 0; uint32_t k = nd_range(0, 3); int r = k == 0 ? e0(x, 0, 0, 0) : k == 1 ? e1(x, 0, 0, 0) : k == 2 ? e2(x) : e3(x);
    ENSURE(r == (x == 0 ? 77 : k == 2 ? -1 : x), "errors are propagated, success continues"); ENSURE(g_n == 1, "evaluated once"); REACH();
}
/* allocator */
static embc_size_t g_size; static void * g_ret, * g_freed; static int g_allocs, g_frees; static int g_which;
static void * al(embc_size_t s) { ++g_allocs; g_size = s; g_which = 1; return g_ret; }
static void * al2(embc_size_t s) { ++g_allocs; g_size = s; g_which = 2; return g_ret; }
static void fr(void * p) { ++g_frees; g_freed = p; g_which = 1; }
static void fr2(void * p) { ++g_frees; g_freed = p; g_which = 2; }
VP_HARNESS(h_alloc) {
    vp_fatal_expected = 0; g_allocs = g_frees = 0; g_which = 0; static uint8_t mem[8]; g_ret = nd_bool() ? NULL : mem; embc_size_t n = (embc_size_t) nd_u64(); bool second = nd_bool(); uint32_t k = nd_range(0, 2);
    embc_allocator_set(al, fr); if (second) embc_allocator_set(al2, fr2);
    if (k == 0) { vp_fatal_expected = g_ret == NULL; void * p = embc_alloc(n); ENSURE(g_ret != NULL, "exhausted memory is fatal"); ENSURE(p == g_ret && g_allocs == 1 && g_size == n && g_which == 1 + second, "forwarded to the installed allocator with the requested size"); }
    else if (k == 1) { n = nd_range(0, 8); uint32_t q = nd_range(0, 7); mem[q] = 9; vp_fatal_expected = g_ret == NULL; void * p = embc_alloc_clr(n); ENSURE(p == mem && g_allocs == 1 && g_size == n && g_which == 1 + second && mem[q] == (q < (uint32_t) n ? 0 : 9), "forwarded, and exactly the memory cleared"); }
    else { vp_fatal_expected = g_ret == NULL; embc_free(g_ret); ENSURE(g_ret != NULL, "freeing nothing is fatal"); ENSURE(g_frees == 1 && g_freed == g_ret && g_which == 1 + second, "forwarded to the installed allocator"); }
    REACH();
}
VP_HARNESS(h_none) {   /* before any allocator is installed, and after it is removed */
    static uint8_t mem[8]; g_ret = mem; if (nd_bool()) embc_allocator_set(al, fr);
    bool ha = nd_bool(), hf = nd_bool(); REQUIRE(!ha || !hf); embc_allocator_set(ha ? al : NULL, hf ? fr : NULL);
    EXPECT_FATAL(); g_allocs = g_frees = 0; bool a = nd_bool();
    if (a) { REQUIRE(!ha); embc_alloc(nd_range(0, 8)); } else { REQUIRE(!hf); embc_free(mem); }
    MUST_NOT_RETURN("no memory without an allocator");
}
VP_HARNESS(h_initial) { EXPECT_FATAL(); if (nd_bool()) embc_alloc(nd_u32()); else embc_free(&g_n); MUST_NOT_RETURN("no memory before an allocator is installed"); }
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
