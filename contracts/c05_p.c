/* C05: the buffer allocator. */
#include "vp.h"
#include "src/memory/buffer.c"
#include "buf.h"
#define NPOOL 11
/* An arbitrary allocator state.  Every pool's free list is an arbitrary well-formed circular list; what an
 * operation can reach of it is the head and the first two and the last elements, which are explicit here, the
 * rest of the list lies behind `far` nodes.  A and B are well-formed free buffers of the chosen pool. */
struct slot { struct embc_buffer_s b; uint8_t pad[16]; };
static struct slot sA, sB, sT;           /* first, second and last free buffer */
static struct embc_list_s far1;          /* a node in the middle of the list   */
#define NEXT(n) ((n)->next)
static void mkbuf(struct embc_buffer_s * b, struct pool_s * p) {
    struct embc_buffer_s x = {.data = (uint8_t *) b + HDR_SZ, .capacity = (uint16_t) p->payload_size, .cursor = nd_u16(), .length = nd_u16(),
        .reserve = nd_u16(), .buffer_id = nd_u16(), .flags = nd_u16(), .manager = &p->manager, .item = {0, 0}};
    memcpy(b, &x, sizeof(x));
}
static struct { struct embc_buffer_allocator_s a; struct pool_s p[NPOOL]; } g_mem;
static struct embc_buffer_allocator_s * mkalloc(uint32_t npool) {
    struct embc_buffer_allocator_s * a = &g_mem.a;
    a->size_max = ((embc_size_t) 32) << (npool - 1);
    for (int i = 0; i < NPOOL; ++i) {
        struct pool_s * p = &g_mem.p[i];
        ((struct embc_buffer_manager_s *) &p->manager)->free = embc_buffer_free_;
        p->magic = EMBC_BUFFER_MAGIC;
        p->payload_size = 32 << i;
        p->buffers.next = p->buffers.prev = &p->buffers;
    }
    return a;
}
/* links pool p's free list: n = 0, 1, 2, 3 (exactly A,B,T) or 4 (A,B,...,T) */
static void mklist(struct pool_s * p, uint32_t n) {
    struct embc_list_s * h = &p->buffers, * A = &sA.b.item, * B = &sB.b.item, * T = &sT.b.item;
    mkbuf(&sA.b, p); mkbuf(&sB.b, p); mkbuf(&sT.b, p);
    if (n == 0) { h->next = h->prev = h; }
    if (n == 1) { h->next = h->prev = A; A->next = A->prev = h; }
    if (n == 2) { h->next = A; A->next = B; B->next = h; h->prev = B; B->prev = A; A->prev = h; }
    if (n == 3) { h->next = A; A->next = B; B->next = T; T->next = h; h->prev = T; T->prev = B; B->prev = A; A->prev = h; }
    if (n == 4) { h->next = A; A->next = B; B->next = &far1; far1.prev = B; far1.next = T; T->prev = &far1; T->next = h; h->prev = T; B->prev = A; A->prev = h; }
}
static uint32_t ref_index(int64_t size) { uint32_t i = 0; while (((int64_t) 32 << i) < size) ++i; return i; }

/* contract of the size-class selection, proved in h_index, used by h_alloc (one group per class) */
#ifndef IDX
#define IDX 0
#endif
VP_HARNESS(h_index) {
    uint32_t npool = nd_range(1, NPOOL);
    g_mem.a.size_max = ((embc_size_t) 32) << (npool - 1);
    int64_t size = nd_i64();
    REQUIRE(size > 0 && size <= g_mem.a.size_max);
    ENSURE(size_to_index_(&g_mem.a, size) == ref_index(size), "the smallest sufficient size class is selected");
    REACH();
}
#ifdef VP_CBMC
static embc_size_t size_to_index_(struct embc_buffer_allocator_s * self, embc_size_t size)
__CPROVER_requires(size > 0 && size <= self->size_max && ref_index(size) == IDX)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == IDX);
#endif
VP_HARNESS(h_alloc) {
    uint32_t npool = nd_range(1, NPOOL);
    struct embc_buffer_allocator_s * a = mkalloc(npool);
    int64_t size = nd_i64();
    REQUIRE(size > 0 && size <= ((int64_t) 32 << (npool - 1)));
    const uint32_t idx = IDX;
    REQUIRE(ref_index(size) == IDX);
    struct pool_s * p = &g_mem.p[idx];
    uint32_t n = nd_range(0, 4);
    mklist(p, n);
    p->alloc_current = nd_range(0, 1000); p->alloc_max = nd_range(0, 2000);
    embc_size_t cur = p->alloc_current;
    struct embc_list_s B0 = sB.b.item, T0 = sT.b.item, F0 = far1;
    bool uns = nd_bool();
    if (!uns) REQUIRE(n > 0);
    struct embc_buffer_s * b = uns ? embc_buffer_alloc_unsafe(a, size) : embc_buffer_alloc(a, size);
    for (int i = 0; i < NPOOL; ++i) {
        struct pool_s * o = &g_mem.p[i];
        if (i != idx) ENSURE(o->buffers.next == &o->buffers && o->buffers.prev == &o->buffers && o->payload_size == 32 << i && o->magic == EMBC_BUFFER_MAGIC, "other size classes are untouched");
    }
    if (n == 0) {
        ENSURE(b == 0, "an exhausted size class hands out nothing");
        ENSURE(p->buffers.next == &p->buffers && p->buffers.prev == &p->buffers, "an exhausted free list stays empty");
    } else {
        ENSURE(b == &sA.b, "the buffer handed out comes off the free list of the smallest sufficient class");
        ENSURE(b->capacity >= size && b->capacity == (uint32_t) 32 << idx, "capacity is sufficient");
        ENSURE(b->data == (uint8_t *) b + HDR_SZ && b->manager == &p->manager, "storage and owner are intact");
        ENSURE(b->cursor == 0 && b->length == 0 && b->reserve == 0 && b->flags == 0 && b->buffer_id == 0, "the buffer is handed out empty");
        ENSURE(b->item.next == &b->item && b->item.prev == &b->item, "the buffer handed out is in no list");
        struct embc_list_s * second = n == 1 ? &p->buffers : &sB.b.item;
        ENSURE(p->buffers.next == second && second->prev == &p->buffers, "the free list loses exactly its first element");
        ENSURE(p->buffers.prev == (n == 1 ? &p->buffers : n == 2 ? &sB.b.item : &sT.b.item), "the end of the free list is unchanged");
        if (n >= 2) ENSURE(sB.b.item.next == B0.next, "rest of the free list unchanged");
        if (n >= 3) ENSURE(sT.b.item.next == T0.next && sT.b.item.prev == T0.prev, "rest of the free list unchanged");
        if (n >= 4) ENSURE(far1.next == F0.next && far1.prev == F0.prev, "rest of the free list unchanged");
        ENSURE(p->alloc_current == cur + 1 && p->alloc_max >= p->alloc_current, "accounting");
    }
    ENSURE(p->payload_size == 32 << idx && p->magic == EMBC_BUFFER_MAGIC, "the size class is unchanged");
    REACH();
}
VP_HARNESS(h_alloc_refused) {
    uint32_t npool = nd_range(1, NPOOL);
    struct embc_buffer_allocator_s * a = mkalloc(npool);
    int64_t size = nd_i64();
    bool empty = nd_bool(), uns = nd_bool();
    REQUIRE(size <= 0 || size > ((int64_t) 32 << (npool - 1)) || (empty && !uns));
    REACH();
    EXPECT_FATAL();
    if (uns) embc_buffer_alloc_unsafe(a, size); else embc_buffer_alloc(a, size);
    MUST_NOT_RETURN("a request that cannot be met is refused");
}
VP_HARNESS(h_free) {
    uint32_t idx = nd_range(0, NPOOL - 1);
    struct embc_buffer_allocator_s * a = mkalloc(NPOOL);
    struct pool_s * p = &g_mem.p[idx];
    uint32_t n = nd_range(0, 4);
    mklist(p, n);
    p->alloc_current = nd_range(1, 1000);
    embc_size_t cur = p->alloc_current;
    /* the outstanding buffer */
    struct { struct slot s; } area[3];
    struct embc_buffer_s * b = &area[1].s.b;
    mkbuf(b, p);
    b->item.next = b->item.prev = &b->item;
    p->memory_start = (uint8_t *) area; p->memory_end = (uint8_t *) (area + 3);
    struct embc_list_s A0 = sA.b.item, B0 = sB.b.item, T0 = sT.b.item, F0 = far1; struct embc_list_s * last = p->buffers.prev; struct embc_list_s * first = p->buffers.next;
    embc_buffer_free(b);
    ENSURE(p->buffers.prev == &b->item && b->item.next == &p->buffers && b->item.prev == last && last->next == &b->item, "the freed buffer is back on its own free list");
    ENSURE(p->buffers.next == (n == 0 ? &b->item : first), "the head of the free list is unchanged");
    if (n >= 1) ENSURE(sA.b.item.prev == A0.prev && (n == 1 || sA.b.item.next == A0.next), "rest of the free list unchanged");
    if (n >= 2) ENSURE(sB.b.item.prev == B0.prev && (n == 2 || sB.b.item.next == B0.next), "rest of the free list unchanged");
    if (n >= 3) ENSURE(sT.b.item.prev == T0.prev, "rest of the free list unchanged");
    if (n >= 4) ENSURE(far1.next == F0.next && far1.prev == F0.prev, "rest of the free list unchanged");
    ENSURE(p->alloc_current == cur - 1, "accounting");
    ENSURE(b->data == (uint8_t *) b + HDR_SZ && b->manager == &p->manager && b->capacity == (uint32_t) 32 << idx, "storage and owner are intact");
    REACH();
}
VP_HARNESS(h_free_foreign) {
    struct embc_buffer_allocator_s * a = mkalloc(NPOOL);
    struct pool_s * p = pool_get(a, nd_range(0, NPOOL - 1));
    uint8_t * area = malloc(512); REQUIRE(area != 0);
    uint32_t lo = nd_range(0, 512), hi = nd_range(0, 512), at = nd_range(0, 400);
    REQUIRE(at < lo || at >= hi);
    p->memory_start = area + lo; p->memory_end = area + hi;
    struct embc_buffer_s * b = (struct embc_buffer_s *) (area + at);
    REACH();
    EXPECT_FATAL();
    p->manager.free(&p->manager, b);
    MUST_NOT_RETURN("a buffer that is not the allocator's is refused");
}
/* initialization, small configurations, complete unwinding */
#ifndef SIZES
#define SIZES 1
#endif
VP_HARNESS(h_init) {
    embc_size_t sizes[] = {SIZES}; const uint32_t len = sizeof(sizes) / sizeof(sizes[0]);
    embc_size_t sz = embc_buffer_allocator_instance_size(sizes, len);
    embc_size_t want = MGR_SZ + POOL_SZ * (embc_size_t) len;
    for (uint32_t i = 0; i < len; ++i) want += sizes[i] * (HDR_SZ + (32 << i));
    ENSURE(sz == want, "the instance size covers bookkeeping and every buffer");
    uint8_t * mem = malloc(sz); REQUIRE(mem != 0);
    struct embc_buffer_allocator_s * a = (struct embc_buffer_allocator_s *) mem;
    embc_buffer_allocator_initialize(a, sizes, len);
    ENSURE(a->size_max == 32 << (len - 1), "largest request");
    uint8_t * at = mem + MGR_SZ + POOL_SZ * len;
    for (uint32_t i = 0; i < len; ++i) {
        struct pool_s * p = pool_get(a, i);
        ENSURE(p->payload_size == 32 << i && p->magic == EMBC_BUFFER_MAGIC && p->manager.free == embc_buffer_free_ && p->memory_start == at && p->alloc_current == 0, "size class");
        struct embc_list_s * it = &p->buffers;
        for (int k = 0; k < sizes[i]; ++k) {
            struct embc_buffer_s * b = (struct embc_buffer_s *) at;
            ENSURE(it->next == &b->item && b->item.prev == it, "each buffer is on the free list once");
            ENSURE(b->data == at + HDR_SZ && b->capacity == 32 << i && b->manager == &p->manager && b->cursor == 0 && b->length == 0 && b->reserve == 0, "a fresh buffer");
            it = &b->item; at += HDR_SZ + (32 << i);
        }
        ENSURE(it->next == &p->buffers && p->buffers.prev == it && p->memory_end == at, "the free list ends after the last buffer");
    }
    ENSURE(at == mem + sz, "buffers tile the memory exactly");
    REACH();
}
