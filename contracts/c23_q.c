/* C23: embc_pattern_32a_rx_buffer hands every word of the buffer, in order, to embc_pattern_32a_rx_next (used through this contract). */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#include "embc/pattern_32a.h"
static uint32_t * g_b; static uint32_t g_k, g_n; static struct embc_pattern_32a_rx_s rx;
void embc_pattern_32a_rx_next(struct embc_pattern_32a_rx_s * self, uint32_t value)
    __CPROVER_requires(self == &rx && g_k < g_n && value == g_b[g_k])
    __CPROVER_assigns(g_k, *self) __CPROVER_ensures(g_k == __CPROVER_old(g_k) + 1);
#include "src/pattern_32a.c"
VP_HARNESS(h_buffer) {
    uint32_t size = nd_u32(); g_n = size / 4; g_k = 0; g_b = malloc((size_t) g_n * 4); REQUIRE(g_b != 0);
    embc_pattern_32a_rx_buffer(&rx, g_b, size);
    ENSURE(g_k == g_n, "every word of the buffer is received, in order"); REACH();
}
