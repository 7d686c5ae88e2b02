#include "vp.h"
#include "embc.h"
#include "embc/collections/intmap.h"
EMBC_INTMAP_DECLARE(mysym, embc_size_t)
EMBC_INTMAP_DEFINE_STRUCT(mysym)
#define calloc(n, s) vp_alloc_zero((n) * (s))
#define free(p) vp_free(p)
static void * vp_alloc_zero(size_t n) { void * p = vp_alloc(n); memset(p, 0, n); return p; }
EMBC_INTMAP_DEFINE(mysym, embc_size_t)
#undef calloc
#undef free
static embc_size_t K[512]; static uintptr_t V[512]; static uint32_t seen[512][2]; static int n;
static int find(embc_size_t k) { for (int i = 0; i < n; ++i) if (K[i] == k) return i; return -1; }
VP_HARNESS(b_intmap) {
    vp_alloc_reset(); n = 0;
    bool typed = nd_bool();
    struct mysym_s * w = typed ? mysym_new() : 0;
    struct embc_intmap_s * m = typed ? w->intmap : embc_intmap_new();
    uint32_t big = nd_range(0, 3), steps = nd_range(1, big ? 60 : 300), stride = 1u << nd_range(0, 8), span = nd_range(2, big ? 24 : 200);
    struct embc_intmap_iterator_s * it[2] = {0, 0}; uint32_t born[2] = {0, 0}; struct mysym_iterator_s * ti = 0;
    for (uint32_t s = 1; s <= steps; ++s) {
        embc_size_t k = nd_range(0, 9) ? (embc_size_t) nd_range(0, span) * stride - (nd_bool() ? 0 : 5) : nd_i64();
        uint32_t op = nd_range(0, 19); int i = find(k); void * o = (void *) 0x77;
        if (op < 10) {
            uintptr_t v = nd_u64() | 1; if (n >= 500) continue;
            ENSURE(0 == (typed ? mysym_put(w, k, v, (embc_size_t *) &o) : embc_intmap_put(m, k, (void *) v, &o)), "stored");
            ENSURE(o == (i < 0 ? 0 : (void *) V[i]), "previous value");
            if (i < 0) { i = n++; K[i] = k; seen[i][0] = seen[i][1] = 2; }
            V[i] = v;
        } else if (op < 13) {
            int r = typed ? mysym_remove(w, k, (embc_size_t *) &o) : embc_intmap_remove(m, k, &o);
            ENSURE(r == (i < 0 ? EMBC_ERROR_NOT_FOUND : 0), "removed exactly when present");
            if (i >= 0) { ENSURE(o == (void *) V[i], "removed value"); --n; K[i] = K[n]; V[i] = V[n]; seen[i][0] = seen[n][0]; seen[i][1] = seen[n][1]; }
        } else if (op < 16) {
            int r = typed ? mysym_get(w, k, (embc_size_t *) &o) : embc_intmap_get(m, k, &o);
            ENSURE(i < 0 ? (r == EMBC_ERROR_NOT_FOUND && !o) : (r == 0 && o == (void *) V[i]), "lookup");
        } else {
            int a = nd_range(0, 1);
            if (!it[a]) {
                if (a == 0 && typed && nd_bool()) { ti = mysym_iterator_new(w); it[0] = ti->iter; }
                else { it[a] = embc_intmap_iterator_new(m); }
                born[a] = s; for (int q = 0; q < n; ++q) seen[q][a] = 0;
            } else {
                int cnt = nd_range(1, 30);
                while (cnt--) {
                    embc_size_t kk; void * v; int r = (a == 0 && ti) ? mysym_iterator_next(ti, &kk, (embc_size_t *) &v) : embc_intmap_iterator_next(it[a], &kk, &v);
                    if (r) {
                        ENSURE(r == EMBC_ERROR_NOT_FOUND, "end");
                        for (int q = 0; q < n; ++q) ENSURE(seen[q][a] != 0, "every key present all along is visited");
                        if (a == 0 && ti) { mysym_iterator_free(ti); ti = 0; } else { embc_intmap_iterator_free(it[a]); }
                        it[a] = 0; break;
                    }
                    int q = find(kk); ENSURE(q >= 0 && v == (void *) V[q] && seen[q][a] != 1, "a present key, once, with its value");
                    seen[q][a] = 1;
                }
            }
        }
        ENSURE(embc_intmap_length(m) == n && (!typed || mysym_length(w) == n), "size");
    }
    for (int i = 0; i < n; ++i) { void * v; ENSURE(embc_intmap_get(m, K[i], &v) == 0 && v == (void *) V[i], "every key keeps its value"); }
    if (ti) { mysym_iterator_free(ti); it[0] = 0; }
    for (int a = 0; a < 2; ++a) if (it[a]) embc_intmap_iterator_free(it[a]);
    if (typed) mysym_free(w); else embc_intmap_free(m);
    ENSURE(vp_live == 0, "every allocation is released");
}
VP_MAIN(b_intmap)
