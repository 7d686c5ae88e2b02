/* C11: generic hash map.  Key objects carry an arbitrary equivalence class; every class has an
 * arbitrary hash, so any agreeing pair of hash and equality functions is covered. */
#include "vp.h"
#include "src/collections/hashmap.c"
#define K 3
#define MASK 7
static struct { uint8_t cls; } ko[K + 2];
static embc_size_t H[K + 2];
static embc_size_t hashf(void * v) { return H[((uint8_t *) v)[0]]; }
static bool eqf(void * a, void * b) { return ((uint8_t *) a)[0] == ((uint8_t *) b)[0]; }
static struct embc_hashmap_s * m; static int n; static void * val[K + 1]; static struct entry_s * en[K + 1];
static int cls_of[K + 1];
static void build(void) {
    vp_alloc_reset(); vp_fatal_expected = 0;
    for (int i = 0; i < K + 2; ++i) { H[i] = nd_i64(); ko[i].cls = nd_range(0, K + 1); }
    m = vp_alloc(sizeof(*m)); m->hash = hashf; m->equiv = eqf; m->hashtable_mask = MASK;
    m->hashtable = vp_alloc((MASK + 1) * sizeof(struct entry_s *));
    for (int i = 0; i <= MASK; ++i) m->hashtable[i] = NULL;
    n = nd_range(0, K); m->length = n;
    for (int i = 0; i < n; ++i) {
        for (int q = 0; q < i; ++q) REQUIRE(ko[q].cls != ko[i].cls);
        cls_of[i] = ko[i].cls; val[i] = (void *) (uintptr_t) nd_u64();
        en[i] = vp_alloc(sizeof(struct entry_s)); en[i]->key = &ko[i]; en[i]->hash = H[ko[i].cls]; en[i]->value = val[i]; en[i]->next = NULL;
        struct entry_s ** p = &m->hashtable[en[i]->hash & MASK];
        for (int q = 0; q < K; ++q) if (*p) p = &(*p)->next;
        *p = en[i];
    }
}
static int find(uint8_t c) { int r = -1; for (int i = 0; i < n; ++i) if (cls_of[i] == c) r = i; return r; }
static void * const DIRTY = (void *) 0x77;
#define PROBE() { ko[K + 1].cls = nd_range(0, K + 1); void * v = DIRTY; int i = find(ko[K + 1].cls); int r = embc_hashmap_get(m, &ko[K + 1], &v); \
    ENSURE(i < 0 ? (r == EMBC_ERROR_NOT_FOUND && v == 0) : (r == 0 && v == val[i]), "every key maps to the value last stored under an equal key, absent keys are absent"); \
    ENSURE(embc_hashmap_length(m) == n, "the size is the number of distinct keys"); }
VP_HARNESS(h_get) {
    build();
    uint8_t c = ko[K].cls; int i = find(c); void * v = DIRTY; bool nul = nd_bool();
    int r = embc_hashmap_get(m, &ko[K], nul ? NULL : &v);
    ENSURE((i < 0) ? r == EMBC_ERROR_NOT_FOUND : r == 0, "found exactly when present");
    ENSURE(v == (nul ? DIRTY : i < 0 ? 0 : val[i]), "the stored value");
    ENSURE(vp_live == n + 2, "lookup allocates nothing");
    PROBE()
    REACH();
}
VP_HARNESS(h_put) {
    build();
    uint8_t c = ko[K].cls; void * w = (void *) (uintptr_t) nd_u64(); int i = find(c); void * old = DIRTY; bool nul = nd_bool();
    ENSURE(embc_hashmap_put(m, &ko[K], w, nul ? NULL : &old) == 0, "stored");
    ENSURE(old == (nul ? DIRTY : i < 0 ? 0 : val[i]), "the previous value is returned");
    if (i < 0) { cls_of[n] = c; val[n] = w; ++n; } else val[i] = w;
    ENSURE(vp_live == n + 2, "one allocation per entry");
    PROBE()
    REACH();
}
VP_HARNESS(h_free) {
    build();
    embc_hashmap_free(m);
    ENSURE(vp_live == 0, "everything is released");
    embc_hashmap_free(NULL);
    ENSURE(embc_hashmap_length(NULL) == 0, "a null map is empty");
    bool nh = nd_bool(), ne = nd_bool();
    m = embc_hashmap_new(nh ? NULL : hashf, ne ? NULL : eqf); n = 0;
    ENSURE((m == NULL) == (nh || ne) && vp_live == (m ? 2 : 0), "a map needs both functions");
    if (m) { PROBE() embc_hashmap_free(m); }
    ENSURE(vp_live == 0, "everything is released");
    REACH();
}
VP_HARNESS(h_null) {
    void * v; REACH(); EXPECT_FATAL();
    if (nd_bool()) embc_hashmap_get(NULL, &v, &v); else embc_hashmap_put(NULL, &v, &v, 0);
    MUST_NOT_RETURN("a null map is refused");
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
