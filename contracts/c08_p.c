/* C08: bitmap block allocator.  Any number of blocks, any bitmap contents. */
#include <stdint.h>
static int32_t g_j;            /* an arbitrary block */
static int g_bj;               /* its bit before the operation */
static int32_t g_r, g_w, g_nb; /* an arbitrary candidate run [g_r, g_r+g_nb) and the last allocated block seen before its end */
#include "vp.h"
#define BIT(s, i) (((s)->bitmap[(i) >> 3] >> ((i) & 7)) & 1)
#define GHOST_SCAN { if (BIT(s, idx_search) && idx_search < g_r + g_nb) g_w = idx_search; }
#include "src/memory/block.c"
#define SETUP() \
    int32_t bc = nd_i32(), bs = BS; \
    REQUIRE(bc >= 0 && bc <= MAXBC); \
    uint32_t bytes = ((uint32_t) bc + 7) / 8; \
    struct mblock_s * s = malloc(sizeof(struct mblock_s) + bytes); \
    REQUIRE(s != 0); \
    s->mem_size = bc * bs + (int32_t) nd_range(0, bs - 1); s->block_size = bs; s->block_count = bc; \
    uint8_t * mem = malloc(s->mem_size); REQUIRE(mem != 0); s->mem = mem; \
    struct mblock_s s0 = *s; \
    struct embc_mblock_s * self = (struct embc_mblock_s *) s; \
    g_j = nd_i32(); REQUIRE(g_j >= 0 && (g_j < bc || bc == 0)); g_bj = bc ? BIT(s, g_j) : 0;
#define SAME() (s->mem == s0.mem && s->mem_size == s0.mem_size && s->block_size == s0.block_size && s->block_count == s0.block_count)
#ifndef MAXBC
#define MAXBC 4000
#endif
#ifndef BS
#define BS 8
#endif

VP_HARNESS(h_blocks) {   /* contract of the size conversion, every size */
    struct mblock_s s; s.block_size = BS; int32_t size = nd_i32();
    REQUIRE(s.block_size > 0);
    int64_t n = size_to_blocks(&s, size);
    if (size <= 0) ENSURE(n <= 0, "nothing needs no blocks");
    else ENSURE(n * s.block_size >= size && (n - 1) * s.block_size < size, "just enough blocks");
    REACH();
}
#ifdef VP_CBMC
static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size)
__CPROVER_requires(s->block_size > 0)
__CPROVER_assigns()
__CPROVER_ensures(size > 0 ? __CPROVER_return_value == g_nb : __CPROVER_return_value <= 0);
#endif
VP_HARNESS(h_alloc) {
    SETUP()
    int32_t size = nd_i32(); REQUIRE(size > 0);
    g_nb = nd_i32(); REQUIRE(g_nb > 0 && g_nb <= size);       /* what h_blocks proves of the conversion */
    g_r = nd_i32(); REQUIRE(g_r >= 0 && (g_nb > bc ? g_r == 0 : g_r <= bc - g_nb)); g_w = -1;
    uint8_t * p = embc_mblock_alloc_unsafe(self, size);
    ENSURE(SAME(), "the managed area is unchanged");
    if (p) {
        int64_t off = p - mem; int64_t at = off / bs;
        ENSURE(off >= 0 && off % bs == 0 && at + g_nb <= bc, "the range handed out is block aligned and inside the memory");
        if (g_j >= at && g_j < at + g_nb) ENSURE(g_bj == 0 && BIT(s, g_j) == 1, "the range was free and is now allocated");
        else ENSURE(BIT(s, g_j) == g_bj, "other blocks keep their state");
    } else {
        if (bc) ENSURE(BIT(s, g_j) == g_bj, "a failed allocation changes nothing");
        if (g_nb <= bc && g_r <= bc - g_nb) ENSURE(g_w >= g_r && g_w < g_r + g_nb && BIT(s, g_w), "allocation fails only when no free run is long enough");
    }
    REACH();
}
VP_HARNESS(h_free) {
    SETUP()
    int32_t size = nd_i32(); REQUIRE(size > 0 && bc > 0);
    g_nb = nd_i32(); REQUIRE(g_nb > 0 && g_nb <= size && g_nb <= bc);
    int32_t at = nd_i32(); REQUIRE(at >= 0 && at <= bc - g_nb);
    g_r = at;
    EXPECT_FATAL();
    embc_mblock_free(self, mem + at * bs, size);
    ENSURE(SAME(), "the managed area is unchanged");
    if (g_j >= at && g_j < at + g_nb) ENSURE(g_bj == 1 && BIT(s, g_j) == 0, "freed blocks were allocated and are now free");
    else ENSURE(BIT(s, g_j) == g_bj, "other blocks keep their state");
    REACH();
}

/* freeing anything that is not completely allocated is caught */
VP_HARNESS(h_free_bad) {
    SETUP()
    int32_t size = nd_i32(), off = nd_i32(); REQUIRE(size > 0 && bc > 0 && off >= 0 && off < s->mem_size);
    g_nb = nd_i32(); REQUIRE(g_nb > 0 && g_nb <= size);
    int32_t at = off / bs; g_r = at;
    REQUIRE((int64_t) at + g_nb > bc || (g_j >= at && g_j < at + g_nb && g_bj == 0));
    REACH(); EXPECT_FATAL();
    embc_mblock_free(self, mem + off, size);
    MUST_NOT_RETURN("freeing blocks that are not allocated is refused");
}
VP_HARNESS(h_misuse) {
    int32_t a = nd_i32(), b = nd_i32(); uint32_t w = nd_range(0, 5); struct mblock_s m; uint8_t mem[4];
    struct embc_mblock_s * self = (struct embc_mblock_s *) &m;
    REQUIRE(a <= 0 || b <= 0 || w > 1);  REQUIRE(w < 3 || w == 4 || a <= 0);
    REACH(); EXPECT_FATAL();
    switch (w) {
        case 0: embc_mblock_instance_size(a, b); break;
        case 1: embc_mblock_initialize(self, mem, a, b); break;
        case 2: embc_mblock_initialize(nd_bool() ? NULL : self, NULL, 4, 4); break;
        case 3: embc_mblock_alloc_unsafe(self, a); break;
        case 4: embc_mblock_alloc_unsafe(NULL, 1); break;
        default: embc_mblock_alloc(self, a); break;
    }
    MUST_NOT_RETURN("misuse is refused");
}
VP_HARNESS(h_init) {
    int32_t sz = nd_i32(); REQUIRE(sz > 0 && sz <= 100000);
    int32_t is = embc_mblock_instance_size(sz, BS);
    int32_t bc = sz / BS;
    ENSURE(is >= (int32_t) offsetof(struct mblock_s, bitmap) + (bc + 7) / 8 && is >= (int32_t) sizeof(struct mblock_s), "the announced instance size holds one bit per block");
    struct mblock_s * s = malloc(is); REQUIRE(s != 0); uint8_t * mem = malloc(sz); REQUIRE(mem != 0);
    ENSURE(embc_mblock_initialize((struct embc_mblock_s *) s, mem, sz, BS) == 0, "initialization succeeds");
    ENSURE(s->mem == mem && s->mem_size == sz && s->block_size == BS && s->block_count == bc, "the managed area is the one given");
    int32_t j = nd_i32(); REQUIRE(j >= 0 && j < bc);
    ENSURE(BIT(s, j) == 0, "every block starts free");
    REACH();
}
#ifdef VP_CBMC
#define SAFE_ALLOC void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) __CPROVER_requires(self != 0 && size > 0) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == g_ret);
static void * g_ret;
SAFE_ALLOC
VP_HARNESS(h_assert) {
    struct mblock_s m; uint8_t mem[4]; int32_t size = nd_i32(); REQUIRE(size > 0);
    g_ret = nd_bool() ? mem : NULL;
    vp_fatal_expected = 0;
    if (g_ret == NULL) EXPECT_FATAL();
    void * p = embc_mblock_alloc((struct embc_mblock_s *) &m, size);
    ENSURE(p != NULL && p == g_ret, "the asserting variant returns the allocation, never null");
    REACH();
}
#endif
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
