/* C12: string map. */
static const char * g_s; static long g_L;   /* unbounded string for the hash proof */
#include "vp.h"
#include "src/collections/strmap.c"
#ifndef SL
#define SL 2
#endif
#ifndef MASK
#define MASK 1
#endif
#define K 2
static struct embc_strmap_s * m; static int n; static void * val[K + 1]; static struct entry_s * en[K + 1];
static char str[K + 3][SL + 1];   /* entries, one slot for a new one, then the argument (AR) and the probe (PR) */
#define AR (K + 1)
#define PR (K + 2)
static int len(const char * s) { int r = SL; for (int i = SL - 1; i >= 0; --i) if (!s[i]) r = i; return r; }
static bool same(const char * a, const char * b) { bool r = true, stop = false; for (int i = 0; i < SL; ++i) { if (!stop && a[i] != b[i]) r = false; if (!a[i] || !b[i]) stop = true; } return r; }
static void build(void) {
    vp_alloc_reset(); vp_fatal_expected = 0;
    for (int i = 0; i < K + 3; ++i) { for (int q = 0; q < SL; ++q) str[i][q] = nd_i8(); str[i][SL] = 0; }
    m = vp_alloc(sizeof(*m)); m->hashtable_mask = MASK;
    m->hashtable = vp_alloc((MASK + 1) * sizeof(struct entry_s *));
    for (int i = 0; i <= MASK; ++i) m->hashtable[i] = NULL;
    n = nd_range(0, K); m->length = n;
    for (int i = 0; i < n; ++i) {
        for (int q = 0; q < i; ++q) REQUIRE(!same(str[q], str[i]));
        val[i] = (void *) (uintptr_t) nd_u64();
        en[i] = vp_alloc(sizeof(struct entry_s) + SL); en[i]->hash = compute_hash(str[i]); en[i]->value = val[i]; en[i]->next = NULL;
        for (int q = 0; q <= SL; ++q) en[i]->key[q] = str[i][q];
        struct entry_s ** p = &m->hashtable[en[i]->hash & MASK];
        for (int q = 0; q < K; ++q) if (*p) p = &(*p)->next;
        *p = en[i];
    }
}
static int find(const char * s) { int r = -1; for (int i = 0; i < n; ++i) if (same(str[i], s)) r = i; return r; }
static void * const DIRTY = (void *) 0x77;
#define PROBE() { void * v = DIRTY; int i = find(str[PR]); int r = embc_strmap_get(m, str[PR], &v); \
    ENSURE(i < 0 ? (r == 1 && v == 0) : (r == 0 && v == val[i]), "every string maps to the value last stored under equal contents, absent strings are absent"); \
    ENSURE(embc_strmap_length(m) == n, "the size is the number of distinct strings"); }
VP_HARNESS(h_get) {
    build();
    int i = find(str[AR]); void * v = DIRTY; bool nul = nd_bool();
    int r = embc_strmap_get(m, str[AR], nul ? NULL : &v);
    ENSURE(r == (i < 0), "found exactly when present");
    ENSURE(v == (nul ? DIRTY : i < 0 ? 0 : val[i]), "the stored value");
    ENSURE(vp_live == n + 2, "lookup allocates nothing");
    REACH();
}
VP_HARNESS(h_put) {
    build();
    void * w = (void *) (uintptr_t) nd_u64(); int i = find(str[AR]); void * old = DIRTY; bool nul = nd_bool();
    ENSURE(embc_strmap_put(m, str[AR], w, nul ? NULL : &old) == 0, "stored");
    ENSURE(old == (nul ? DIRTY : i < 0 ? 0 : val[i]), "the previous value is returned");
    if (i < 0) { for (int q = 0; q <= SL; ++q) str[n][q] = str[AR][q]; val[n] = w; ++n; } else val[i] = w;
    for (int q = 0; q < SL; ++q) str[AR][q] ^= 1;     /* the map keeps its own copy of the key */
    ENSURE(vp_live == n + 2, "one allocation per entry");
    PROBE()
    REACH();
}
VP_HARNESS(h_remove) {
    build();
    int i = find(str[AR]); void * old = DIRTY; bool nul = nd_bool();
    int r = embc_strmap_remove(m, str[AR], nul ? NULL : &old);
    ENSURE(r == (i < 0), "removed exactly when present");
    if (i >= 0) { ENSURE(old == (nul ? DIRTY : val[i]), "the removed value is returned"); --n; for (int q = 0; q <= SL; ++q) str[i][q] = str[n][q]; val[i] = val[n]; }
    ENSURE(vp_live == n + 2, "the entry is released");
    PROBE()
    REACH();
}
VP_HARNESS(h_free) {
    build();
    embc_strmap_free(m);
    ENSURE(vp_live == 0, "everything is released");
    embc_strmap_free(NULL);
    ENSURE(embc_strmap_length(NULL) == 0, "a null map is empty");
    REACH();
}
VP_HARNESS(h_new) {
    vp_alloc_reset(); vp_fatal_expected = 0;
    m = embc_strmap_new(); n = 0;
    ENSURE(m != 0 && vp_live == 2, "a new map");
    for (int q = 0; q < SL; ++q) str[PR][q] = nd_i8(); str[PR][SL] = 0;
    PROBE()
    embc_strmap_free(m);
    ENSURE(vp_live == 0, "everything is released");
    REACH();
}
VP_HARNESS(h_hash) {   /* any length: stays inside the string, no overflow */
    g_L = nd_range(0, 1000000); char * s = malloc(g_L + 1); REQUIRE(s != 0); s[g_L] = 0; g_s = s;
    compute_hash(s);
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
