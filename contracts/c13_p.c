/* C13: C string helpers, strings of any length. */
#include <stdint.h>
#include <stdbool.h>
static const char * g_a; static char * g_b; static int64_t g_j, g_L, g_N; static char g_bj; static int g_neq, g_zero;
static int64_t g_p, g_k; static char g_tk;
#include "vp.h"
#define OFF(p) ((int64_t) __CPROVER_POINTER_OFFSET(p))
#define UP(c) ((char) (((c) >= 'a' && (c) <= 'z') ? (c) - 'a' + 'A' : (c)))
#include "src/cstr.c"
#ifndef MAXL
#define MAXL 1000000
#endif
#define STR(name, L) char * name = malloc((L) + 1); REQUIRE(name != 0); name[L] = 0

#ifdef VP_CBMC
VP_HARNESS(h_copy) {
    int64_t L = nd_range(0, MAXL); STR(src, L); int64_t N = nd_range(1, MAXL);
    char * tgt = malloc(N); REQUIRE(tgt != 0);
    g_a = src; g_b = tgt; g_L = L; g_N = N; g_j = nd_range(0, MAXL); REQUIRE(g_j < N && g_j <= L); g_p = 0; 
    g_k = nd_range(0, MAXL); REQUIRE(g_k < N); g_tk = tgt[g_k];
    char sj = src[g_j];
    int r = embc_cstr_copy(tgt, src, N);
    ENSURE(r == 0 || r == 1, "documented status");
    ENSURE(g_p >= 0 && g_p < N && g_p <= L && tgt[g_p] == 0, "the destination is terminated inside its size");
    if (g_j < g_p) ENSURE(tgt[g_j] == sj && sj != 0, "every byte before the terminator is the source byte");
    if (r == 0) ENSURE(src[g_p] == 0, "success: the whole string was copied");
    else ENSURE(g_p == N - 1 && src[g_p] != 0, "truncated exactly when the source does not fit");
    ENSURE(src[g_j] == sj, "the source is untouched");
    if (g_k > g_p) ENSURE(tgt[g_k] == g_tk, "nothing after the terminator is written");
    REACH();
}
#endif
VP_HARNESS(h_copy_args) {
    char t[2] = {'x', 'y'}; int64_t n = (int64_t) nd_i64(); bool nul = nd_bool(), ns = nd_bool();
    if (nul || n <= 0) { ENSURE(embc_cstr_copy(nul ? NULL : t, ns ? NULL : "ab", n) == -1 && t[0] == 'x' && t[1] == 'y', "nonsensical arguments are refused without access"); }
    else { ENSURE(embc_cstr_copy(t, NULL, n) == 0 && t[0] == 0 && t[1] == 'y', "a null source is the empty string"); }
    ENSURE(embc_cstr_casecmp(NULL, ns ? NULL : "a") == -1 && embc_cstr_casecmp("a", NULL) == 1, "null strings compare as documented");
    ENSURE(embc_cstr_starts_with(NULL, "a") == NULL, "null string");
    ENSURE(embc_cstr_starts_with(t, NULL) == t, "null prefix");
    ENSURE(embc_cstr_toupper(NULL) == 1, "null string");
    int idx = 7; const char * tab[1] = {NULL}; bool bv = ns;
    ENSURE(embc_cstr_to_index(NULL, tab, &idx) == 2 && embc_cstr_to_index("a", NULL, &idx) == 2 && embc_cstr_to_index("a", tab, NULL) == 2 && idx == 7, "null arguments");
    ENSURE(embc_cstr_to_bool(NULL, &bv) == 1 && embc_cstr_to_bool("1", NULL) == 1 && bv == ns, "null arguments");
    REACH();
}
#ifdef VP_CBMC
VP_HARNESS(h_casecmp) {
    int64_t L = nd_range(0, MAXL), N = nd_range(0, MAXL); STR(a, L); STR(b, N);
    g_a = a; g_b = b; g_L = L; g_N = N; g_j = nd_range(0, MAXL); REQUIRE(g_j <= L && g_j <= N); g_p = 0;
    int r = embc_cstr_casecmp(a, b);
    ENSURE(g_p >= 0 && g_p <= L && g_p <= N, "stays inside both strings");
    if (g_j < g_p) ENSURE(UP(a[g_j]) == UP(b[g_j]) && a[g_j] != 0 && b[g_j] != 0, "all characters before the deciding one are equal ignoring case");
    char x = UP(a[g_p]), y = UP(b[g_p]);
    if (a[g_p] == 0 && b[g_p] == 0) ENSURE(r == 0, "equal");
    else {
        ENSURE(x != y, "the deciding character differs");
        if ((x | y) >= 0) ENSURE(r == (x < y ? -1 : 1), "ordered by the first difference");
        else ENSURE(r == -1 || r == 1, "different");
    }
    REACH();
}
VP_HARNESS(h_starts) {
    int64_t L = nd_range(0, MAXL), N = nd_range(0, MAXL); STR(a, L); STR(b, N);
    g_a = a; g_b = b; g_L = L; g_N = N; g_j = nd_range(0, MAXL); REQUIRE(g_j <= L && g_j <= N); g_p = 0;
    const char * r = embc_cstr_starts_with(a, b);
    ENSURE(g_p >= 0 && g_p <= L && g_p <= N, "stays inside both strings");
    if (g_j < g_p) ENSURE(a[g_j] == b[g_j] && a[g_j] != 0, "all characters before the deciding one are equal");
    if (b[g_p] == 0) ENSURE(r == a + g_p, "match: points behind the prefix");
    else ENSURE(r == NULL && a[g_p] != b[g_p], "no match exactly when a prefix character differs");
    REACH();
}
VP_HARNESS(h_toupper) {
    int64_t L = nd_range(0, MAXL); STR(s, L);
    g_b = s; g_L = L; g_j = nd_range(0, MAXL); REQUIRE(g_j <= L); g_p = 0; g_bj = s[g_j];
    ENSURE(embc_cstr_toupper(s) == 0, "success");
    ENSURE(g_p >= 0 && g_p <= L && s[g_p] == 0, "stops at the terminator");
    if (g_j < g_p) ENSURE(g_bj != 0 && s[g_j] == UP(g_bj), "every letter is upper-cased, everything else kept");
    else ENSURE(s[g_j] == g_bj, "nothing behind the terminator is touched");
    REACH();
}
#endif
#define NB 18
static bool ieq(const char * s, const char * w) { for (int i = 0; i < 10; ++i) { char c = UP(s[i]); if (c != w[i]) return false; if (!c) return true; } return false; }
VP_HARNESS(h_bool) {
    char s[NB]; for (int i = 0; i < NB - 1; ++i) s[i] = nd_i8(); s[NB - 1] = 0;
    bool v0 = nd_bool(), v = v0;
    int r = embc_cstr_to_bool(s, &v);
    bool t = ieq(s, "ON") || ieq(s, "1") || ieq(s, "ENABLE") || ieq(s, "TRUE"), f = ieq(s, "OFF") || ieq(s, "0") || ieq(s, "DISABLE") || ieq(s, "FALSE");
    ENSURE((r == 0) == (t || f), "accepted exactly for the documented words");
    ENSURE(v == (t ? true : f ? false : v0), "the documented value, unmodified on error");
    REACH();
}
#define TS 3
VP_HARNESS(h_index) {
    char w[3][TS], s[TS]; const char * tab[4]; int n = nd_range(0, 3), idx = 99, e = -1;
    for (int i = 0; i < 3; ++i) { for (int q = 0; q < TS - 1; ++q) w[i][q] = nd_i8(); w[i][TS - 1] = 0; tab[i] = i < n ? w[i] : NULL; } tab[3] = NULL;
    for (int q = 0; q < TS - 1; ++q) s[q] = nd_i8(); s[TS - 1] = 0;
    for (int i = 2; i >= 0; --i) if (i < n && s[0] == w[i][0] && (s[0] == 0 || (s[1] == w[i][1]))) e = i;
    int r = embc_cstr_to_index(s, tab, &idx);
    ENSURE(e < 0 ? (r == 1 && idx == 99) : (r == 0 && idx == e), "index of the first equal entry, unmodified when absent");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
