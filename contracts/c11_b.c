#include "vp.h"
#include "embc.h"
#include "embc/collections/hashmap.h"
static uint32_t mode;
struct key_s { uint32_t id, junk; };
static embc_size_t hf(void * v) { uint32_t i = ((struct key_s *) v)->id; return mode == 0 ? 5 : mode == 1 ? i & 3 : mode == 2 ? (embc_size_t) (i * 0x9E3779B97F4A7C15ull) : (embc_size_t) (i & 1) - 1 - (i << 4); }
static bool ef(void * a, void * b) { return ((struct key_s *) a)->id == ((struct key_s *) b)->id; }
VP_HARNESS(b_hashmap) {
    vp_alloc_reset(); mode = nd_range(0, 3);
    struct embc_hashmap_s * m = embc_hashmap_new(hf, ef);
    static struct key_s ks[400]; static uintptr_t V[200]; static uint8_t has[200]; memset(has, 0, sizeof(has));
    uint32_t steps = nd_range(1, 150), span = nd_range(1, 100), cnt = 0, nk = 0;
    for (uint32_t s = 0; s < steps; ++s) {
        struct key_s * k = &ks[nk++]; k->id = nd_range(0, span); k->junk = s; void * o = (void *) 0x77; bool nul = nd_range(0, 5) == 0;
        if (nd_bool()) {
            uintptr_t v = nd_u64();
            ENSURE(0 == embc_hashmap_put(m, k, (void *) v, nul ? 0 : &o), "stored");
            if (!nul) ENSURE(o == (has[k->id] ? (void *) V[k->id] : 0), "previous value");
            cnt += !has[k->id]; has[k->id] = 1; V[k->id] = v;
        } else {
            int r = embc_hashmap_get(m, k, nul ? 0 : &o);
            ENSURE(r == (has[k->id] ? 0 : EMBC_ERROR_NOT_FOUND), "found exactly when present");
            if (!nul) ENSURE(o == (has[k->id] ? (void *) V[k->id] : 0), "value");
        }
        ENSURE(embc_hashmap_length(m) == cnt, "size");
    }
    for (uint32_t i = 0; i <= span; ++i) { struct key_s k = {i, 0}; void * o; int r = embc_hashmap_get(m, &k, &o); ENSURE(has[i] ? (!r && o == (void *) V[i]) : r == EMBC_ERROR_NOT_FOUND, "final contents"); }
    embc_hashmap_free(m);
    ENSURE(vp_live == 0, "every allocation is released");
}
VP_MAIN(b_hashmap)
