/* C06: fixed-block pool. */
#include "vp.h"
#include "src/memory/pool.c"
typedef struct embc_pool_element_s el_t;
static struct { el_t h; uint8_t data[24]; } eA, eB, eX;
#define SETUP() \
    struct embc_pool_s pool; \
    pool.magic = MAGIC; uint32_t n = nd_range(0, 2); \
    el_t * far = (el_t *) &eX; \
    eA.h.next = n > 1 ? &eB.h : 0; eB.h.next = nd_bool() ? far : 0; pool.free_head = n > 0 ? &eA.h : 0; \
    el_t B0 = eB.h; uint8_t raw[sizeof(eA)]; memcpy(raw, &eA, sizeof(eA)); uint32_t j = nd_range(0, 23);

VP_HARNESS(h_alloc) {
    SETUP()
    bool uns = nd_bool();
    REQUIRE(uns || n > 0);
    ENSURE(embc_pool_is_empty(&pool) == (n == 0), "the empty query");
    void * p = uns ? embc_pool_alloc_unsafe(&pool) : embc_pool_alloc(&pool);
    if (n == 0) { ENSURE(p == NULL && pool.free_head == NULL, "an empty pool hands out nothing"); }
    else {
        ENSURE(p == (void *) eA.data, "a free block is handed out");
        ENSURE(pool.free_head == (n > 1 ? &eB.h : NULL), "the free list loses exactly that block");
    }
    ENSURE(eB.h.next == B0.next && pool.magic == MAGIC, "the rest of the free list is unchanged");
    ENSURE(eA.data[j] == raw[sizeof(el_t) + j], "block contents untouched");
    REACH();
}
VP_HARNESS(h_alloc_empty) {
    SETUP() REQUIRE(n == 0);
    REACH(); EXPECT_FATAL();
    embc_pool_alloc(&pool);
    MUST_NOT_RETURN("allocation from an empty pool is refused");
}
VP_HARNESS(h_free) {
    SETUP()
    struct { el_t h; uint8_t data[24]; } out; nd_bytes(out.data, 24); uint8_t o = out.data[j];
    embc_pool_free(&pool, out.data);
    ENSURE(pool.free_head == &out.h && out.h.next == (n > 0 ? &eA.h : NULL), "the freed block is on the free list in front of the others");
    ENSURE(eA.h.next == (n > 1 ? &eB.h : NULL) && eB.h.next == B0.next && pool.magic == MAGIC, "the rest of the free list is unchanged");
    ENSURE(out.data[j] == o, "block contents untouched");
    ENSURE(embc_pool_alloc_unsafe(&pool) == (void *) out.data, "the freed block is available again");
    REACH();
}
VP_HARNESS(h_misuse) {
    int32_t c = nd_i32(), s = nd_i32(); uint32_t w = nd_range(0, 5); struct embc_pool_s pool; pool.magic = nd_u32();
    REQUIRE(w != 0 || c <= 0 || s <= 0); REQUIRE(w != 5 || pool.magic != MAGIC);
    REACH(); EXPECT_FATAL();
    switch (w) {
        case 0: embc_pool_initialize(&pool, c, s); break;
        case 1: embc_pool_initialize(NULL, 1, 1); break;
        case 2: embc_pool_alloc(NULL); break;
        case 3: embc_pool_alloc_unsafe(NULL); break;
        case 4: embc_pool_free(nd_bool() ? NULL : &pool, NULL); break;
        default: embc_pool_finalize(&pool); break;
    }
    MUST_NOT_RETURN("misuse is refused");
}
#ifndef COUNT
#define COUNT 3
#define SIZE 9
#endif
/* size arithmetic for every configuration whose total fits */
VP_HARNESS(h_size) {
    int32_t c = nd_range(1, 0xffff), s = nd_range(1, 0x7fffffff);
    struct embc_pool_size_s z = embc_pool_size(c, s);
    ENSURE(z.block_data >= s && z.block_data < (int64_t) s + 8 && z.block_data % 8 == 0, "blocks hold the requested size, rounded up to pointer alignment");
    ENSURE(z.block_hdr >= sizeof(el_t) && z.block_hdr % 8 == 0 && z.pool_hdr >= sizeof(struct embc_pool_s) && z.pool_hdr % 8 == 0, "headers fit and are aligned");
    ENSURE(z.element_sz == z.block_hdr + z.block_data, "element size");
    REACH();
}
VP_HARNESS(h_init) {
    int32_t sz = embc_pool_instance_size(COUNT, SIZE);
    uint8_t * mem = malloc(sz); REQUIRE(mem != 0);
    struct embc_pool_s * p = (struct embc_pool_s *) mem;
    ENSURE(embc_pool_initialize(p, COUNT, SIZE) == 0, "initialization succeeds");
    int64_t b[COUNT];
    for (int i = 0; i < COUNT; ++i) {
        ENSURE(!embc_pool_is_empty(p), "the announced number of blocks is available");
        uint8_t * q = embc_pool_alloc(p); ENSURE(q != 0, "a block is handed out"); b[i] = q - mem;
        ENSURE(b[i] >= (int64_t) sizeof(struct embc_pool_s) && b[i] + SIZE <= sz && b[i] % 8 == 0, "blocks are inside the memory and aligned");
        for (int k = 0; k < i; ++k) ENSURE(b[i] - b[k] >= SIZE || b[k] - b[i] >= SIZE, "blocks are disjoint");
    }
    ENSURE(embc_pool_is_empty(p) && embc_pool_alloc_unsafe(p) == NULL, "no more than the announced number of blocks");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
