#include "vp.h"
#include "embc/pattern_32a.h"
static uint32_t ref(uint64_t k) { uint32_t h = (uint32_t) ((k % 4325376) / 2), s = h % 33, c = h & 0xffff; return k & 1 ? ((~c << 16) | c) : s ? 1u << (s - 1) : 0; }
VP_HARNESS(b_tx) {
    struct embc_pattern_32a_tx_s t; embc_pattern_32a_tx_initialize(&t); uint64_t k = 0;
    uint32_t ops = nd_range(1, 6);
    while (ops--) {
        uint32_t n = nd_range(0, 3) ? nd_range(0, 200) : nd_range(0, 9) ? nd_range(0, 70000) : nd_range(0, 4400000);
        if (nd_bool()) { for (uint32_t i = 0; i < n; ++i) ENSURE(embc_pattern_32a_tx_next(&t) == ref(k + i), "word"); }
        else { uint32_t * b = malloc(4 * (size_t) n + 4); b[n] = 0x5a5a1234; embc_pattern_32a_tx_buffer(&t, b, 4 * n); for (uint32_t i = 0; i < n; ++i) ENSURE(b[i] == ref(k + i), "buffer word"); ENSURE(b[n] == 0x5a5a1234, "no write outside"); free(b); }
        k += n;
    }
}
VP_MAIN(b_tx)
