/* C05: random allocate/free histories against a set model (native). */
#include "vp.h"
#include "embc/memory/buffer.h"
#define MAXB 64
VP_HARNESS(b_alloc) {
    vp_alloc_reset();
    embc_size_t sizes[12]; uint32_t len = nd_range(1, nd_bool() ? 8 : 11);
    int total = 0;
    for (uint32_t i = 0; i < len; ++i) { sizes[i] = nd_range(0, i > 7 ? 1 : 3); total += sizes[i]; }
    embc_size_t sz = embc_buffer_allocator_instance_size(sizes, len);
    uint8_t * mem = malloc(sz); memset(mem, 0x5a, sz);
    struct embc_buffer_allocator_s * a = (void *) mem;
    if (nd_bool()) embc_buffer_allocator_initialize(a, sizes, len);
    else { free(mem); a = embc_buffer_allocator_new(sizes, len); mem = (uint8_t *) a; }
    struct embc_buffer_s * out[MAXB]; int nout = 0, cls[MAXB]; int used[12] = {0};
    int steps = nd_range(1, 60);
    for (int s = 0; s < steps; ++s) {
        if (nd_range(0, 2) && nout < MAXB) {
            embc_size_t size; uint32_t c = nd_range(0, len - 1);
            switch (nd_range(0, 5)) {
                case 0: size = 32 << c; break;
                case 1: size = (32 << c) + 1; break;
                case 2: size = nd_range(1, 32 << c); break;
                case 3: size = (embc_size_t) nd_i32(); break;
                case 4: size = nd_range(0, 40); break;
                default: size = ((embc_size_t) nd_u32() << 16) + nd_range(0, 3); break;
            }
            bool uns = nd_bool(); struct embc_buffer_s * b = 0;
            int f = uns ? FATAL(b = embc_buffer_alloc_unsafe(a, size)) : FATAL(b = embc_buffer_alloc(a, size));
            if (size <= 0 || size > (32 << (len - 1))) { ENSURE(f, "an impossible request is refused"); continue; }
            int i = 0; while ((32 << i) < size) ++i;
            if (used[i] == sizes[i]) { if (uns) ENSURE(!f && !b, "exhausted: null"); else ENSURE(f, "exhausted: fatal"); continue; }
            ENSURE(!f && b, "a request that can be met is met");
            ENSURE(b->capacity >= size, "capacity is sufficient");
            ENSURE(b->capacity == 32 << i, "smallest sufficient class");
            ENSURE(b->cursor == 0 && b->length == 0 && b->reserve == 0, "handed out empty");
            ENSURE((uint8_t *) b >= mem && b->data >= mem && b->data + b->capacity <= mem + sz, "inside the allocator's memory");
            for (int k = 0; k < nout; ++k) {
                uint8_t * o0 = (uint8_t *) out[k], * o1 = out[k]->data + out[k]->capacity;
                ENSURE(b->data + b->capacity <= o0 || (uint8_t *) b >= o1, "disjoint from every outstanding buffer");
            }
            memset(b->data, 0xEE, b->capacity);
            b->cursor = b->length = b->capacity; b->reserve = 1; b->flags = 3; b->buffer_id = 4;
            used[i]++; cls[nout] = i; out[nout++] = b;
        } else if (nout) {
            int k = nd_range(0, nout - 1);
            embc_buffer_free(out[k]); used[cls[k]]--;
            out[k] = out[--nout]; cls[k] = cls[nout];
        }
    }
    /* everything comes back */
    while (nout) { --nout; embc_buffer_free(out[nout]); }
    for (uint32_t i = 0; i < len; ++i)
        for (int k = 0; k < sizes[i]; ++k) { struct embc_buffer_s * b = 0; ENSURE(!FATAL(b = embc_buffer_alloc(a, 32 << i)) && b->capacity == 32 << i, "freed buffers are available again"); }
    embc_buffer_allocator_finalize(a);
    if (vp_live) embc_free(a); else free(mem);
}
VP_MAIN(b_alloc)
