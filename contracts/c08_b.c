#include "vp.h"
#include "embc/memory/block.h"
VP_HARNESS(b_mblock) {
    int32_t bs = nd_range(1, nd_bool() ? 4 : 70), bc = nd_range(0, nd_bool() ? 12 : 130);
    int32_t sz = bs * bc + nd_range(0, bs - 1); if (sz == 0) sz = 1;
    bc = sz / bs;
    int32_t is = embc_mblock_instance_size(sz, bs);
    struct embc_mblock_s * s = malloc(is); memset(s, 0xEE, is);
    uint8_t * mem = malloc(sz);
    ENSURE(0 == embc_mblock_initialize(s, mem, sz, bs), "initialization succeeds");
    uint8_t used[256]; memset(used, 0, sizeof(used));
    struct { int32_t at, nb, size; } out[256]; int n = 0;
    int steps = nd_range(1, 60);
    for (int i = 0; i < steps; ++i) {
        uint32_t w = nd_range(0, 7);
        if (w < 5) {
            int32_t size = nd_range(0, 20) ? nd_range(1, bs * (nd_bool() ? 3 : 12)) : (nd_i32() & 0x7fffffff);
            if (size <= 0) size = 1;
            int64_t nb = ((int64_t) size + bs - 1) / bs; int fits = 0, run = 0;
            for (int k = 0; k < bc; ++k) { run = used[k] ? 0 : run + 1; if (run >= nb) fits = 1; }
            uint8_t * p = 0; bool uns = nd_bool();
            int f = uns ? FATAL(p = embc_mblock_alloc_unsafe(s, size)) : FATAL(p = embc_mblock_alloc(s, size));
            if (!fits) { ENSURE(uns ? (!f && !p) : f, "no free run is long enough"); continue; }
            ENSURE(!f && p, "a free run is long enough");
            ENSURE(p >= mem && p + size <= mem + sz && (p - mem) % bs == 0, "block aligned and inside the memory");
            int32_t at = (p - mem) / bs;
            for (int k = 0; k < nb; ++k) { ENSURE(!used[at + k], "no live allocation is overlapped"); used[at + k] = 1; }
            out[n].at = at; out[n].nb = nb; out[n++].size = size;
        } else if (w < 7) {
            if (!n) continue;
            int k = nd_range(0, n - 1);
            ENSURE(!FATAL(embc_mblock_free(s, mem + out[k].at * bs, out[k].size)), "a live allocation can be freed");
            for (int q = 0; q < out[k].nb; ++q) used[out[k].at + q] = 0;
            out[k] = out[--n];
        } else if (bc) {   /* free something not completely allocated: caught; the history ends */
            int32_t off = nd_range(0, sz - 1), size = nd_range(1, bs * 4), nb = (size + bs - 1) / bs, at = off / bs, bad = 0;
            for (int k = 0; k < nb; ++k) if (at + k >= bc || !used[at + k]) bad = 1;
            if (!bad) continue;
            ENSURE(FATAL(embc_mblock_free(s, mem + off, size)), "freeing blocks that are not allocated is caught");
            break;
        }
    }
    free(mem); free(s);
}
VP_MAIN(b_mblock)
