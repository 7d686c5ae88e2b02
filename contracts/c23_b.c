#include "vp.h"
#include "embc/pattern_32a.h"
#define PER 4325376u
static uint32_t ref(uint64_t k) { uint32_t h = (uint32_t) ((k % PER) / 2), s = h % 33, c = h & 0xffff; return k & 1 ? ((~c << 16) | c) : s ? 1u << (s - 1) : 0; }
static struct embc_pattern_32a_rx_s rx; static uint64_t n_rx;
static void feed(const uint32_t * w, uint32_t n) {
    n_rx += n; if (nd_bool()) embc_pattern_32a_rx_buffer(&rx, w, 4 * n + nd_range(0, 3)); else for (uint32_t i = 0; i < n; ++i) embc_pattern_32a_rx_next(&rx, w[i]);
    ENSURE(rx.receive_count == n_rx, "every word counted once");
}
static bool counts(uint64_t m, uint64_t d, uint64_t e, uint64_t r) { return rx.missing_count == m && rx.duplicate_count == d && rx.error_count == e && rx.resync_count == r; }
VP_HARNESS(b_rx) {
    for (size_t i = 0; i < sizeof(rx); ++i) ((uint8_t *) &rx)[i] = nd_u8();
    embc_pattern_32a_rx_initialize(&rx); n_rx = 0;
    uint64_t k = nd_range(0, PER - 1), m = 0, d = 0, e = 0, r = 0; uint32_t buf[512];
    uint32_t ops = nd_range(1, 8);
    while (ops--) {
        uint32_t n = nd_range(2, 300); for (uint32_t i = 0; i < n; ++i) buf[i] = ref(k + i); feed(buf, n); k += n;
        ENSURE(counts(m, d, e, r), "error-free continuation adds no counts");
        uint32_t kind = nd_range(0, 2), j;
        if (kind == 0) { j = nd_range(0, 3) ? nd_range(1, 200) : nd_range(1, PER / 2); k += j; m += j; ++e; ++r; }
        else if (kind == 1) { j = nd_range(0, 3) ? nd_range(1, 200) : nd_range(1, PER / 2 - 1); k += PER - j; d += j; ++e; ++r; }
        else { uint32_t g = nd_u32(); bool shift = (g & (g - 1)) == 0, cnt = (g >> 16) == (uint16_t) ~g; if (shift || cnt) continue; feed(&g, 1); ++k; ++r; e += 2; m += 1; }
        /* the words that resynchronize */
        for (uint32_t i = 0; i < 3; ++i) buf[i] = ref(k + i);
        feed(buf, 3); k += 3; ENSURE(counts(m, d, e, r), "skipped and repeated words are attributed");
    }
}
VP_MAIN(b_rx)
