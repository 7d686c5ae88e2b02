/* C07: reference counted object pool. */
#include "vp.h"
#include "src/memory/object_pool.c"
typedef struct embc_object_pool_element_s el_t;
#define DATA 24
typedef struct { el_t h; uint8_t data[DATA]; } slot_t;
static slot_t eA, eB, eX, out, other;
static struct embc_object_pool_s pool;
static int ctor_n, dtor_n; static void * ctor_obj, * dtor_obj; static int cb_ok;
/* the object is owned by exactly the callback's caller: not on the free list while a callback runs */
static void ctor(void * obj) { ++ctor_n; ctor_obj = obj; if (pool.free_head == (el_t *) obj - 1 || ((el_t *) obj - 1)->d.alloc.status != STATUS_ALLOC || ((el_t *) obj - 1)->d.alloc.count != 1) cb_ok = 0; ((uint8_t *) obj)[0] = 0x5a; }
static void dtor(void * obj) { ++dtor_n; dtor_obj = obj; if (pool.free_head == (el_t *) obj - 1) cb_ok = 0; }
#define SETUP() \
    uint32_t n = nd_range(0, 2); bool has_c = nd_bool(), has_d = nd_bool(); \
    pool.magic = MAGIC; pool.obj_size = nd_range(1, DATA); pool.constructor = has_c ? ctor : NULL; pool.destructor = has_d ? dtor : NULL; \
    ctor_n = dtor_n = 0; cb_ok = 1; ctor_obj = dtor_obj = NULL; vp_fatal_expected = 0; \
    eA.h.pool = eB.h.pool = out.h.pool = other.h.pool = &pool; \
    eA.h.d.next = n > 1 ? &eB.h : NULL; eB.h.d.next = nd_bool() ? &eX.h : NULL; pool.free_head = n > 0 ? &eA.h : NULL; \
    nd_bytes(eA.data, DATA); nd_bytes(out.data, DATA); \
    out.h.d.alloc.status = STATUS_ALLOC; uint16_t cnt = nd_u16(); REQUIRE(cnt > 0); out.h.d.alloc.count = cnt; \
    other.h.d.alloc.status = STATUS_ALLOC; other.h.d.alloc.count = 3; \
    el_t * Bn = eB.h.d.next; uint32_t j = nd_range(0, DATA - 1); uint8_t aj = eA.data[j], oj = out.data[j];
#define REST() ENSURE(eB.h.d.next == Bn && pool.magic == MAGIC && eB.h.pool == &pool && out.h.pool == &pool && eA.h.pool == &pool, "the rest of the free list and the pool links are unchanged"); \
    ENSURE(other.h.d.alloc.status == STATUS_ALLOC && other.h.d.alloc.count == 3 && other.h.pool == &pool, "other live objects are unchanged"); \
    ENSURE(pool.constructor == (has_c ? ctor : NULL) && pool.destructor == (has_d ? dtor : NULL), "pool configuration unchanged")

VP_HARNESS(h_alloc) {
    SETUP() REQUIRE(n > 0);
    uint8_t * p = embc_object_pool_alloc(&pool);
    ENSURE(p == eA.data, "a free object is handed out");
    ENSURE(pool.free_head == (n > 1 ? &eB.h : NULL), "the free list loses exactly that object");
    ENSURE(eA.h.d.alloc.status == STATUS_ALLOC && eA.h.d.alloc.count == 1, "the object is live with one owner");
    ENSURE(ctor_n == (has_c ? 1 : 0) && (!has_c || ctor_obj == p) && dtor_n == 0 && cb_ok, "the constructor runs exactly once, on the object, before it is returned");
    if (has_c) ENSURE(eA.data[j] == (j == 0 ? 0x5a : aj), "contents are what the constructor left");
    else ENSURE(eA.data[j] == (j < pool.obj_size ? 0 : aj), "without a constructor the object is zeroed");
    ENSURE(out.data[j] == oj && out.h.d.alloc.count == cnt && out.h.d.alloc.status == STATUS_ALLOC, "live objects are untouched");
    REST();
    REACH();
}
VP_HARNESS(h_alloc_empty) {
    SETUP() REQUIRE(n == 0);
    REACH(); EXPECT_FATAL();
    embc_object_pool_alloc(&pool);
    MUST_NOT_RETURN("allocation from an empty pool is refused");
}
VP_HARNESS(h_incr) {
    SETUP() REQUIRE(cnt < 65535);
    embc_object_pool_incr(out.data);
    ENSURE(out.h.d.alloc.status == STATUS_ALLOC && out.h.d.alloc.count == cnt + 1, "one more reference");
    ENSURE(pool.free_head == (n > 0 ? &eA.h : NULL) && ctor_n == 0 && dtor_n == 0 && out.data[j] == oj, "nothing else happens");
    REST();
    REACH();
}
VP_HARNESS(h_decr) {
    SETUP()
    bool r = embc_object_pool_decr(out.data);
    ENSURE(r == (cnt == 1), "true exactly for the last reference");
    if (cnt > 1) {
        ENSURE(out.h.d.alloc.status == STATUS_ALLOC && out.h.d.alloc.count == cnt - 1 && dtor_n == 0, "one reference less, still live");
        ENSURE(pool.free_head == (n > 0 ? &eA.h : NULL), "free list unchanged");
    } else {
        ENSURE(dtor_n == (has_d ? 1 : 0) && (!has_d || dtor_obj == out.data) && cb_ok, "the destructor runs exactly once, before the object is recycled");
        ENSURE(pool.free_head == &out.h && out.h.d.next == (n > 0 ? &eA.h : NULL), "the object is available again, in front of the others");
    }
    ENSURE(out.data[j] == oj && ctor_n == 0, "contents untouched");
    if (n > 0) ENSURE(eA.h.d.next == (n > 1 ? &eB.h : NULL), "the free list keeps its order");
    REST();
    REACH();
}
/* an object on the free list (any position) or with an exhausted count is refused */
VP_HARNESS(h_misuse) {
    SETUP() uint32_t w = nd_range(0, 3);
    REQUIRE(w > 1 || n > 0);
    slot_t * s = n > 1 && nd_bool() ? &eB : &eA;
    if (w == 2) out.h.d.alloc.count = 65535;
    if (w == 3) pool.magic = 0;
    REACH(); EXPECT_FATAL();
    switch (w) {
        case 0: embc_object_pool_incr(s->data); break;
        case 1: embc_object_pool_decr(s->data); break;
        case 2: embc_object_pool_incr(out.data); break;
        default: embc_object_pool_finalize(nd_bool() ? NULL : &pool); break;
    }
    MUST_NOT_RETURN("releasing or referencing an object that is not live is caught");
}
VP_HARNESS(h_args) {
    int32_t c = nd_i32(), s = nd_i32(); bool nul = nd_bool(); struct embc_object_pool_s m; m.magic = 5;
    REQUIRE(nul || c <= 0 || s <= 0);
    ENSURE(embc_object_pool_initialize(nul ? NULL : &m, c, s, 0, 0) != 0 && m.magic == 5, "bad arguments are refused without touching the pool");
    REACH();
}
#ifndef COUNT
#define COUNT 3
#define SIZE 9
#endif
VP_HARNESS(h_size) {
    int32_t c = nd_range(1, 0xffff), s = nd_range(1, 0x7ffffff0);
    struct embc_object_pool_size_s z = embc_object_pool_size(c, s);
    ENSURE(z.obj_data >= s && z.obj_data < (int64_t) s + 8 && z.obj_data % 8 == 0, "objects hold the requested size, rounded up");
    ENSURE(z.obj_hdr >= sizeof(el_t) && z.obj_hdr % 8 == 0 && z.pool_hdr >= sizeof(struct embc_object_pool_s) && z.pool_hdr % 8 == 0, "headers fit and are aligned");
    ENSURE(z.element_sz == z.obj_hdr + z.obj_data, "element size");
    REACH();
}
VP_HARNESS(h_init) {
    int32_t sz = embc_object_pool_instance_size(COUNT, SIZE);
    uint8_t * mem = malloc(sz); REQUIRE(mem != 0);
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) mem;
    ENSURE(embc_object_pool_initialize(p, COUNT, SIZE, NULL, dtor) == 0, "initialization succeeds");
    ENSURE(p->constructor == NULL && p->destructor == dtor, "callbacks are stored");
    int64_t b[COUNT]; uint8_t * q = 0;
    for (int i = 0; i < COUNT; ++i) {
        ENSURE(p->free_head != NULL, "the announced number of objects is available");
        q = embc_object_pool_alloc(p); ENSURE(q != 0, "an object is handed out"); b[i] = q - mem;
        ENSURE(b[i] >= (int64_t) sizeof(struct embc_object_pool_s) && b[i] + SIZE <= sz && b[i] % 8 == 0, "objects are inside the memory and aligned");
        for (int k = 0; k < i; ++k) ENSURE(b[i] - b[k] >= SIZE || b[k] - b[i] >= SIZE, "objects are disjoint");
    }
    ENSURE(p->free_head == NULL, "no more than the announced number of objects");
    dtor_n = 0;
    ENSURE(embc_object_pool_decr(q) && dtor_n == 1 && p->free_head != NULL, "a released object returns to its own pool");
    ENSURE(embc_object_pool_alloc(p) == (void *) q, "and is handed out again");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
