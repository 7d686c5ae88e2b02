#include "vp.h"
#include "embc.h"
#include "embc/collections/strmap.h"
#define NS 60
VP_HARNESS(b_strmap) {
    vp_alloc_reset();
    struct embc_strmap_s * m = embc_strmap_new();
    static char * S[NS]; static uintptr_t V[NS]; static uint8_t has[NS]; int ns = nd_range(1, NS), n = 0;
    uint32_t kind = nd_range(0, 4);
    for (int i = 0; i < ns; ++i) {
        int l = kind == 0 ? nd_range(0, 3) : kind == 1 ? nd_range(0, 40) : kind == 2 ? 2 * nd_range(0, 8) : kind == 4 ? 16 * nd_range(0, 20) + 4 : nd_range(0, 300);
        S[i] = malloc(l + 1); S[i][l] = 0; V[i] = 0; has[i] = 0;
        for (int q = 0; q < l; ++q) { char c = nd_i8(); S[i][q] = c ? c : 1; }
        if (kind == 2) for (int q = 0; q + 1 < l; q += 2) { bool z = nd_bool(); S[i][q] = z ? 'A' : 'B'; S[i][q + 1] = z ? 'z' : 'Y'; }   /* djb2 collisions */
        if (kind == 4 && l > 2) { memset(S[i], 'x', l); bool z = nd_bool(); S[i][l - 2] = z ? 'A' : 'B'; S[i][l - 1] = z ? 'z' : 'Y'; }   /* long common prefix, colliding end */
        if (kind == 0 && nd_bool()) for (int q = 0; q < l; ++q) S[i][q] = 'a' + (S[i][q] & 1);
        for (int q = 0; q < i; ++q) if (!strcmp(S[q], S[i])) { free(S[i]); ns = i; break; }
    }
    uint32_t steps = nd_range(1, 120);
    for (uint32_t s = 0; ns && s < steps; ++s) {
        int i = nd_range(0, ns - 1); char * k = strdup(S[i]); void * o = (void *) 0x77; bool nul = nd_range(0, 5) == 0; uint32_t op = nd_range(0, 3);
        if (op < 2) {
            uintptr_t v = nd_u64();
            ENSURE(0 == embc_strmap_put(m, k, (void *) v, nul ? 0 : &o), "stored");
            if (!nul) ENSURE(o == (has[i] ? (void *) V[i] : 0), "previous value");
            n += !has[i]; has[i] = 1; V[i] = v;
        } else if (op == 2) {
            int r = embc_strmap_get(m, k, nul ? 0 : &o);
            ENSURE(r == !has[i], "found exactly when present");
            if (!nul) ENSURE(o == (has[i] ? (void *) V[i] : 0), "value");
        } else {
            int r = embc_strmap_remove(m, k, nul ? 0 : &o);
            ENSURE(r == !has[i], "removed exactly when present");
            if (!nul && has[i]) ENSURE(o == (void *) V[i], "removed value");
            n -= has[i]; has[i] = 0;
        }
        free(k);
        ENSURE(embc_strmap_length(m) == n, "size");
    }
    for (int i = 0; i < ns; ++i) { void * o; int r = embc_strmap_get(m, S[i], &o); ENSURE(has[i] ? (!r && o == (void *) V[i]) : r != 0, "final contents"); }
    embc_strmap_free(m);
    ENSURE(vp_live == 0, "every allocation is released");
    for (int i = 0; i < ns; ++i) free(S[i]);
}
VP_MAIN(b_strmap)
