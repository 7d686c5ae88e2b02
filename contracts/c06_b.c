#include "vp.h"
#include "embc/memory/pool.h"
VP_HARNESS(b_pool) {
    int32_t c = nd_range(1, nd_bool() ? 5 : 40), s = nd_range(1, nd_bool() ? 20 : 300);
    int32_t sz = embc_pool_instance_size(c, s);
    uint8_t * mem = malloc(sz); memset(mem, 0x33, sz);
    struct embc_pool_s * p = (void *) mem;
    ENSURE(0 == embc_pool_initialize(p, c, s), "initialization succeeds");
    uint8_t * out[64]; uint8_t tag[64]; int n = 0;
    int steps = nd_range(1, 80);
    for (int i = 0; i < steps; ++i) {
        ENSURE(embc_pool_is_empty(p) == (n == c), "empty query");
        if (nd_range(0, 2)) {
            uint8_t * b = 0; bool uns = nd_bool();
            int f = uns ? FATAL(b = embc_pool_alloc_unsafe(p)) : FATAL(b = embc_pool_alloc(p));
            if (n == c) { ENSURE(uns ? (!f && !b) : f, "exhausted pool"); continue; }
            ENSURE(!f && b && ((uintptr_t) b % sizeof(void *)) == 0, "aligned block");
            ENSURE(b >= mem && b + s <= mem + sz, "inside the memory");
            for (int k = 0; k < n; ++k) ENSURE(out[k] + s <= b || b + s <= out[k], "disjoint blocks");
            tag[n] = i; memset(b, tag[n], s); out[n++] = b;
        } else if (n) {
            int k = nd_range(0, n - 1);
            for (int q = 0; q < s; ++q) ENSURE(out[k][q] == tag[k], "contents of an owned block are untouched");
            embc_pool_free(p, out[k]); --n; out[k] = out[n]; tag[k] = tag[n];
        }
    }
    embc_pool_finalize(p);
    free(mem);
}
VP_MAIN(b_pool)
