/* C10: integer map.  Arbitrary well-formed maps with up to K entries, any keys and values; chain
 * order is entry order, which loses nothing because entries are interchangeable. */
#include "vp.h"
#include "src/collections/intmap.c"
#ifndef MASK
#define MASK 3
#endif
#ifndef ITOP
#define ITOP 0
#endif
#ifndef K
#define K 3
#endif
static struct embc_intmap_s * m;
static embc_size_t key[K + 1]; static void * val[K + 1]; static int n; static struct entry_s * en[K + 1];
static void link_entry(int i) {
    struct entry_s ** p = &m->bins[compute_bin(m, key[i])];
    for (int q = 0; q < K; ++q) if (*p) p = &(*p)->next;
    *p = en[i];
}
static void build(int lo) {
    vp_alloc_reset(); vp_fatal_expected = 0;
    m = vp_alloc(sizeof(*m)); m->hash_mask = MASK; m->iterators = NULL;
    m->bins = vp_alloc((MASK + 1) * sizeof(struct entry_s *));
    for (int i = 0; i <= MASK; ++i) m->bins[i] = NULL;
    n = nd_range(lo, K); m->length = n;
    for (int i = 0; i < n; ++i) {
        key[i] = nd_i64(); val[i] = (void *) (uintptr_t) nd_u64();
        for (int q = 0; q < i; ++q) REQUIRE(key[q] != key[i]);
        en[i] = vp_alloc(sizeof(struct entry_s)); en[i]->key = key[i]; en[i]->value = val[i]; en[i]->next = NULL;
        link_entry(i);
    }
}
static int find(embc_size_t k) { int r = -1; for (int i = 0; i < n; ++i) if (key[i] == k) r = i; return r; }
static void * const DIRTY = (void *) 0x77;
#define PROBE() { embc_size_t pk = nd_i64(); void * v = DIRTY; int i = find(pk); int r = embc_intmap_get(m, pk, &v); \
    ENSURE(i < 0 ? (r == EMBC_ERROR_NOT_FOUND && v == 0) : (r == 0 && v == val[i]), "every key maps to the value last stored, absent keys are absent"); \
    ENSURE(embc_intmap_length(m) == n, "the size is the number of keys"); }
VP_HARNESS(h_get) {
    build(0);
    embc_size_t k = nd_i64(); int i = find(k); void * v = DIRTY; bool nul = nd_bool();
    int r = embc_intmap_get(m, k, nul ? NULL : &v);
    ENSURE((i < 0) ? r == EMBC_ERROR_NOT_FOUND : r == 0, "found exactly when present");
    ENSURE(v == (nul ? DIRTY : i < 0 ? 0 : val[i]), "the stored value");
    ENSURE(embc_intmap_length(m) == n && vp_live == n + 2, "lookup changes nothing");
    PROBE()
    REACH();
}
VP_HARNESS(h_put) {
    build(MASK == 3 ? 0 : 2);
    embc_size_t k = nd_i64(); void * w = (void *) (uintptr_t) nd_u64(); int i = find(k); void * old = DIRTY; bool nul = nd_bool();
    ENSURE(embc_intmap_put(m, k, w, nul ? NULL : &old) == 0, "stored");
    ENSURE(old == (nul ? DIRTY : i < 0 ? 0 : val[i]), "the previous value is returned");
    if (i < 0) { key[n] = k; val[n] = w; ++n; } else val[i] = w;
    ENSURE(vp_live == n + 2, "one allocation per entry, none lost");
#if MASK == 1
    ENSURE(m->hash_mask > 1, "the crowded map was resized");
#endif
    PROBE()
    REACH();
}
VP_HARNESS(h_remove) {
    build(0);
    embc_size_t k = nd_i64(); int i = find(k); void * old = DIRTY; bool nul = nd_bool();
    int r = embc_intmap_remove(m, k, nul ? NULL : &old);
    ENSURE(r == (i < 0 ? EMBC_ERROR_NOT_FOUND : 0), "removed exactly when present");
    if (i >= 0) { ENSURE(old == (nul ? DIRTY : val[i]), "the removed value is returned"); --n; key[i] = key[n]; val[i] = val[n]; }
    ENSURE(vp_live == n + 2, "the entry is released");
    PROBE()
    REACH();
}
VP_HARNESS(h_free) {
    build(0);
    embc_intmap_free(m);
    ENSURE(vp_live == 0, "everything is released");
    embc_intmap_free(NULL);
    ENSURE(embc_intmap_length(NULL) == 0, "a null map is empty");
    m = embc_intmap_new(); n = 0;
    ENSURE(m != 0 && vp_live == 2, "a new map");
    PROBE()
    embc_intmap_free(m);
    ENSURE(vp_live == 0, "everything is released");
    REACH();
}
/* a whole traversal, with one removal or insertion between two steps */
VP_HARNESS(h_iter) {
    build(0);
    int seen[K + 1] = {0}; int gone = -1, added = -1; int at = nd_range(0, K); int op = ITOP; embc_size_t k2 = nd_i64();
    struct embc_intmap_iterator_s * it = embc_intmap_iterator_new(m);
    int n0 = n, c = 0, r = 0;
    for (int s = 0; s < K + 2; ++s) {
        if (s == at && op == 1) { int i = find(k2); void * o; if (i >= 0) { gone = i; embc_intmap_remove(m, k2, &o); } }
        if (s == at && op == 2) { if (find(k2) < 0) { key[n] = k2; val[n] = DIRTY; added = n; ++n; } else val[find(k2)] = DIRTY; embc_intmap_put(m, k2, DIRTY, NULL); }
        embc_size_t kk = 0; void * v = 0;
        r = embc_intmap_iterator_next(it, &kk, &v);
        if (r) { ENSURE(r == EMBC_ERROR_NOT_FOUND, "end of iteration"); break; }
        int i = find(kk); ENSURE(i >= 0 && v == val[i] && !seen[i] && i != gone, "a present key with its value, not visited before");
        seen[i] = 1 + s;
    }
    ENSURE(r == EMBC_ERROR_NOT_FOUND, "the iteration ends");
    for (int i = 0; i < n0; ++i) if (i != gone) ENSURE(seen[i] && (i == added || 1), "every key that stays present is visited");
    { embc_size_t kk; void * v; ENSURE(embc_intmap_iterator_next(it, &kk, &v) == EMBC_ERROR_NOT_FOUND, "still at the end"); }
    embc_intmap_iterator_free(it);
    ENSURE(m->iterators == NULL && vp_live == n - (gone >= 0) + 2, "the iterator is released and unregistered");
    embc_intmap_iterator_free(NULL);
    REACH();
}
VP_HARNESS(h_null) {
    uint32_t w = nd_range(0, 6); embc_size_t k; void * v; struct embc_intmap_iterator_s it; it.next_item = NULL;
    REACH(); EXPECT_FATAL();
    switch (w) {
        case 0: embc_intmap_get(NULL, 1, &v); break;
        case 1: embc_intmap_put(NULL, 1, 0, 0); break;
        case 2: embc_intmap_remove(NULL, 1, 0); break;
        case 3: embc_intmap_iterator_new(NULL); break;
        case 4: embc_intmap_iterator_next(NULL, &k, &v); break;
        case 5: embc_intmap_iterator_next(&it, NULL, &v); break;
        default: embc_intmap_iterator_next(&it, &k, NULL); break;
    }
    MUST_NOT_RETURN("null arguments are refused");
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
