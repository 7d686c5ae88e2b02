/* The framer with its collaborators through their contracts: buffers come from a small pool that tracks ownership
 * (each alloc a fresh buffer of at least the requested capacity, each buffer freed at most once; C05), checksums are
 * uninterpreted functions of the bytes they cover (C01), the HAL records what it is given. */
#ifndef FR_H_
#define FR_H_
#include "vp.h"
#define embc_buffer_alloc real_buffer_alloc_
#define embc_buffer_free real_buffer_free_
#include "src/memory/buffer.c"
#undef embc_buffer_alloc
#undef embc_buffer_free
static void fb_free(struct embc_buffer_s * b);
static inline void embc_buffer_free(struct embc_buffer_s * b) { fb_free(b); }
struct embc_buffer_s * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size);
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#ifndef NB
#define NB 6
#endif
#ifndef FB_CAP
#define FB_CAP 256
#endif
static uint8_t fb_d0[FB_CAP], fb_d1[FB_CAP], fb_d2[FB_CAP], fb_d3[FB_CAP], fb_d4[FB_CAP], fb_d5[FB_CAP], fb_d6[FB_CAP], fb_d7[FB_CAP];
static uint8_t * fb_mem(int i) { return i == 0 ? fb_d0 : i == 1 ? fb_d1 : i == 2 ? fb_d2 : i == 3 ? fb_d3 : i == 4 ? fb_d4 : i == 5 ? fb_d5 : i == 6 ? fb_d6 : fb_d7; }
static struct embc_buffer_s fb[NB]; static bool fb_live[NB]; static int fb_n, fb_count; static uint8_t fb_extra;
#define FB_SET(p, t) { for (size_t z_ = 0; z_ < 1; ++z_) memcpy((void *) (p), &(t), sizeof(t)); }
static void fb_free(struct embc_buffer_s * b) {
    bool ok = false;
    for (int i = 0; i < NB; ++i) if (b == &fb[i] && fb_live[i]) { fb_live[i] = false; --fb_count; ok = true; }
    ENSURE(ok, "only a buffer that is owned is freed, once");
}
static struct embc_buffer_manager_s fb_manager;
struct embc_buffer_s * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size) {
    (void) self; REQUIRE(fb_n < NB); ENSURE(size > 0 && size <= 253, "buffer size"); int i = fb_n++;
    struct embc_buffer_s * b = &fb[i]; *(uint8_t **) &b->data = fb_mem(i); *(uint16_t *) &b->capacity = (uint16_t) (size + fb_extra); b->cursor = b->length = b->reserve = 0; b->buffer_id = 0; b->flags = 0; *(struct embc_buffer_manager_s **) &b->manager = &fb_manager; b->item.next = b->item.prev = &b->item; fb_live[i] = true; ++fb_count; return &fb[i];
}
static void fb_init(void) { fb_n = fb_count = 0; fb_extra = nd_range(0, 3); for (int i = 0; i < NB; ++i) fb_live[i] = false; vp_fatal_expected = 0; }
/* HAL */
#ifndef NTX
#define NTX 4
#endif
static struct embc_buffer_s * h_tx[NTX]; static int h_ntx; static int64_t h_time; static int h_timer_set, h_timer_cancel; static int64_t h_timeout; static void (* h_timer_fn)(void *, uint32_t); static void * h_timer_user; static bool h_timer_on;
static void hal_tx(void * hal, struct embc_buffer_s * b) { (void) hal; ENSURE(b != NULL, "buffer"); REQUIRE(h_ntx < NTX); h_tx[h_ntx++] = b; }
static int64_t hal_time(void * hal) { (void) hal; return h_time; }
static int32_t hal_timer_set(void * hal, int64_t t, void (* f)(void *, uint32_t), void * u, uint32_t * id) { (void) hal; ENSURE(!h_timer_on, "only one timer at a time"); h_timer_on = true; h_timeout = t; h_timer_fn = f; h_timer_user = u; *id = 7; ++h_timer_set; return 0; }
static int32_t hal_timer_cancel(void * hal, uint32_t id) { (void) hal; ENSURE(h_timer_on && id == 7, "cancels the timer that is set"); h_timer_on = false; ++h_timer_cancel; return 0; }
static void hal_init(void) { h_ntx = 0; h_timer_on = false; h_timer_set = h_timer_cancel = 0; h_time = 0; h_timeout = 0; h_timer_fn = NULL; h_timer_user = NULL; for (int i = 0; i < NTX; ++i) h_tx[i] = NULL; }
static struct embc_framer_hal_callbacks_s fr_hal(void) { struct embc_framer_hal_callbacks_s c; memset(&c, 0, sizeof(c)); c.hal = NULL; c.tx_fn = hal_tx; c.time_get = hal_time; c.timer_set_fn = hal_timer_set; c.timer_cancel_fn = hal_timer_cancel; return c; }
#endif
