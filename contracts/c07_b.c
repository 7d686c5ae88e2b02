#include "vp.h"
#include "embc/memory/object_pool.h"
static int nc, nd; static void * co, * dobj;
static void ctor(void * o) { ++nc; co = o; *(uint8_t *) o = 0xC3; }
static void dtor(void * o) { ++nd; dobj = o; }
VP_HARNESS(b_opool) {
    int32_t c = nd_range(1, nd_bool() ? 4 : 30), s = nd_range(1, nd_bool() ? 20 : 200);
    bool hc = nd_bool(), hd = nd_bool();
    int32_t sz = embc_object_pool_instance_size(c, s);
    uint8_t * mem = malloc(sz); memset(mem, 0xbf, sz);
    struct embc_object_pool_s * p = (void *) mem;
    ENSURE(0 == embc_object_pool_initialize(p, c, s, hc ? ctor : 0, hd ? dtor : 0), "initialization succeeds");
    struct { uint8_t * o; int ref; uint8_t tag; } out[64], last; int n = 0; last.o = 0; nc = nd = 0;
    int steps = nd_range(1, 80);
    for (int i = 0; i < steps; ++i) {
        uint32_t w = nd_range(0, 9); int c0 = nc, d0 = nd;
        if (w < 4) {
            uint8_t * o = 0; int f = FATAL(o = embc_object_pool_alloc(p));
            ENSURE(f == (n == c), "refused exactly when every object is live");
            if (f) continue;
            ENSURE(o >= mem && o + s <= mem + sz, "inside the memory");
            ENSURE(nc == c0 + hc && nd == d0 && (!hc || co == o), "constructed once");
            if (hc) ENSURE(*o == 0xC3, "constructor result kept"); else for (int q = 0; q < s; ++q) ENSURE(o[q] == 0, "zeroed");
            for (int k = 0; k < n; ++k) ENSURE(out[k].o + s <= o || o + s <= out[k].o, "disjoint live objects");
            out[n].o = o; out[n].ref = 1; out[n].tag = i; memset(o, i, s); ++n;
            if (last.o == o) last.o = 0;
        } else if (w == 4 && last.o) {
            ENSURE(FATAL(nd_bool() ? (void) embc_object_pool_decr(last.o) : embc_object_pool_incr(last.o)), "a released object is not live");
            ENSURE(nd == d0, "no second destruction");
        } else if (n) {
            int k = nd_range(0, n - 1);
            for (int q = 0; q < s; ++q) ENSURE(out[k].o[q] == out[k].tag, "contents of a live object are untouched");
            int many = nd_range(0, 15) == 0 ? nd_range(1, 700) : 1;
            if (w < 7) { for (int q = 0; q < many && out[k].ref < 65535; ++q) { embc_object_pool_incr(out[k].o); ++out[k].ref; } ENSURE(nc == c0 && nd == d0, "no callbacks"); }
            else {
                for (; many > 1 && out[k].ref > 1; --many) { --out[k].ref; ENSURE(!embc_object_pool_decr(out[k].o) && nd == d0, "live until the last reference"); }
                bool r = embc_object_pool_decr(out[k].o); --out[k].ref;
                ENSURE(r == (out[k].ref == 0), "released exactly with the last reference");
                ENSURE(nc == c0 && nd == d0 + (r && hd) && (!(r && hd) || dobj == out[k].o), "destructed exactly once");
                if (r) { last = out[k]; out[k] = out[--n]; }
            }
        }
    }
    embc_object_pool_finalize(p);
    free(mem);
}
VP_MAIN(b_opool)
