/* C04: erase, string append and buffer-to-buffer copy. */
#include <stdint.h>
/* ghosts used by the woven loop contracts */
static uint8_t g_v1, g_v2; static long g_j, g_start, g_len0;
static char const * g_str; static uint32_t g_slen; static uint32_t g_c0; static uint8_t g_old; static uint32_t g_k;
static void fatal_hook(void);
#define VP_FATAL_HOOK fatal_hook
#include "vp.h"
#include "src/memory/buffer.c"
#include "buf.h"
static struct embc_buffer_s const * g_b; static struct embc_buffer_s const * g_o; static uint8_t const * g_pk; static uint8_t g_vk;
static struct embc_buffer_s const * g_sb; static long g_room;
static void fatal_hook(void) {
    if (g_sb) ENSURE((long) g_sb->cursor - g_c0 == g_room && g_str[g_room] != 0, "a string is refused only when it does not fit");
    if (g_b) {
        ENSURE(BUF_SAME(g_b, *g_o), "a refused operation leaves the buffer as it was");
        if (g_pk) ENSURE(*g_pk == g_vk, "a refused operation leaves the data as it was");
    }
}
#define WATCH() g_pk = 0; g_sb = 0; uint32_t k = nd_u32(); g_b = b; g_o = &b_o; if (k < b_cap) { g_pk = &b_mem[k]; g_vk = b_mem[k]; }
#define SKOLEM() uint32_t k = nd_u32(); uint8_t old = 0; if (k < b_cap) old = b_mem[k];

VP_HARNESS(h_erase) {
    BUF_MAKE(b)
    int64_t start = nd_i64(), end = nd_i64(), j = nd_i64();
    REQUIRE(start >= 0 && start < b_o.length && end >= 0 && end <= b_o.length);
    long n = end > start ? end - start : 0;
    REQUIRE(j >= 0 && j < b_o.length);
    g_j = j; g_start = start; g_len0 = n;
    g_v1 = b_mem[j]; g_v2 = 0;
    if (j + n < b_o.length) g_v2 = b_mem[j + n];
    embc_buffer_erase(b, start, end);
    ENSURE(BUF_SAME_ID(b, b_o), "erase leaves identity, reserve and links alone");
    ENSURE(b->length == b_o.length - n, "erase removes exactly the range");
    ENSURE(b->cursor == (b_o.cursor >= end ? b_o.cursor - n : (b_o.cursor > start && n > 0 ? start : b_o.cursor)) || (n == 0 && b->cursor == b_o.cursor), "the cursor keeps its place in the contents");
    ENSURE(BUF_WF(b), "erase keeps the buffer well formed");
    if (j < b->length) ENSURE(b_mem[j] == (j < start ? g_v1 : g_v2), "bytes before the range stay, bytes after it move down");
    REACH();
}
VP_HARNESS(h_erase_refused) {
    BUF_MAKE(b)
    int64_t start = nd_i64(), end = nd_i64();
    REQUIRE(!(start >= 0 && start < b_o.length && end >= 0 && end <= b_o.length));
    REACH();
    WATCH() EXPECT_FATAL();
    embc_buffer_erase(b, start, end);
    MUST_NOT_RETURN("an erase range outside the contents is refused");
}
/* an arbitrary string: L bytes before a guaranteed terminator (there may be an earlier one) */
#define STRING() \
    g_b = 0; g_pk = 0; g_sb = 0; g_room = ROOM(b_o) < 0 ? 0 : ROOM(b_o); \
    uint32_t L = nd_u32(); REQUIRE(L < 0x7fffffff); \
    char * s = malloc((size_t) L + 1); REQUIRE(s != 0); s[L] = 0; \
    g_str = s; g_slen = L; g_c0 = b_o.cursor; \
    uint32_t k = nd_u32(); REQUIRE(k < b_cap || b_cap == 0); g_old = b_cap ? b_mem[k] : 0; g_k = k;
#define STR_POST(ok) \
    long n = (long) b->cursor - b_o.cursor; \
    long room = ROOM(b_o) < 0 ? 0 : ROOM(b_o); \
    ENSURE(BUF_SAME_ID(b, b_o), "string write leaves identity, reserve and links alone"); \
    ENSURE(n >= 0 && n <= room && n <= L, "string write stays inside the room and the string"); \
    ENSURE(b->length == (b_o.length > b->cursor ? b_o.length : b->cursor), "length extends only when the cursor passes it"); \
    ENSURE(BUF_WF(b), "string write keeps the buffer well formed"); \
    ENSURE((ok) == (s[n] == 0), "success means the whole string was written"); \
    if (!(ok)) ENSURE(n == room, "a truncated string fills the room"); \
    if (b_cap) { \
        if (k >= b_o.cursor && k < b_o.cursor + n) ENSURE(b_mem[k] == (uint8_t) s[k - b_o.cursor] && s[k - b_o.cursor] != 0, "the string bytes land at the cursor"); \
        else ENSURE(b_mem[k] == g_old, "bytes outside the written range are untouched"); \
    }
VP_HARNESS(h_str_truncate) {
    BUF_MAKE(b) STRING()
    bool ok = embc_buffer_write_str_truncate(b, s);
    STR_POST(ok)
    REACH();
}
VP_HARNESS(h_str) {
    BUF_MAKE(b) STRING()
    EXPECT_FATAL(); g_sb = b;
    embc_buffer_write_str(b, s);
    g_sb = 0;
    STR_POST(true)
    REACH();
}
VP_HARNESS(h_str_fits) {   /* a string that fits is not refused (short strings, complete unwinding) */
    BUF_MAKE(b)
    uint32_t L = nd_range(0, 4); char s[5]; nd_bytes(s, 5); s[L] = 0;
    REQUIRE((L <= 0 || s[0]) && (L <= 1 || s[1]) && (L <= 2 || s[2]) && (L <= 3 || s[3]));
    REQUIRE(ROOM(b_o) >= (long) L);
    embc_buffer_write_str(b, s);
    ENSURE(b->cursor == b_o.cursor + L, "a string that fits is written whole");
    REACH();
}
VP_HARNESS(h_copy) {
    BUF_MAKE(b) BUF_MAKE(q) SKOLEM()
    uint32_t kq = nd_u32(); uint8_t oldq = 0; if (kq < q_cap) oldq = q_mem[kq];
    int64_t n = nd_i64();
    REQUIRE(n <= AVAIL(q_o) && n <= ROOM(b_o) && (n > 0 || ROOM(b_o) >= 0));
    embc_buffer_copy(b, q, n);
    if (n < 0) n = 0;
    ENSURE(BUF_SAME_ID(b, b_o) && b->cursor == b_o.cursor + n, "copy advances the destination cursor by exactly the size");
    ENSURE(b->length == (b_o.length > b_o.cursor + n ? b_o.length : b_o.cursor + n), "length extends only when the cursor passes it");
    ENSURE(BUF_WF(b) && BUF_WF(q), "copy keeps both buffers well formed");
    ENSURE(BUF_SAME_ID(q, q_o) && q->length == q_o.length, "copy leaves the source contents alone");
    if (kq < q_cap) ENSURE(q_mem[kq] == oldq, "copy leaves the source data alone");
    if (k < b_cap) {
        if (k >= b_o.cursor && k < b_o.cursor + n) ENSURE(b_mem[k] == q_mem[q_o.cursor + (k - b_o.cursor)], "copied bytes come from the source cursor");
        else ENSURE(b_mem[k] == old, "bytes outside the written range are untouched");
    }
    REACH();
}
VP_HARNESS(h_copy_refused) {
    BUF_MAKE(b) BUF_MAKE(q)
    int64_t n = nd_i64();
    REQUIRE(n > 0 && (n > AVAIL(q_o) || n > ROOM(b_o)));
    REACH();
    WATCH() EXPECT_FATAL();
    embc_buffer_copy(b, q, n);
    MUST_NOT_RETURN("a copy that does not fit is refused");
}
VP_HARNESS(h_static) {
    EMBC_BUFFER_STATIC_DEFINE(d, 20);
    EMBC_BUFFER_STATIC_DECLARE(e, 33);
    { uint8_t junk[sizeof(e)]; nd_bytes(junk, sizeof(e)); memcpy(&e, junk, sizeof(e)); }
    EMBC_BUFFER_STATIC_INITIALIZE(e);
    ENSURE(d.data == d_mem_ && d.capacity == 20 && d.cursor == 0 && d.length == 0 && d.reserve == 0, "static definition is an empty buffer");
    ENSURE(e.data == e_mem_ && e.capacity == 33 && e.cursor == 0 && e.length == 0 && e.reserve == 0 && e.flags == 0 && e.buffer_id == 0, "static initialization is an empty buffer");
    ENSURE(d.item.next == &d.item && d.item.prev == &d.item && e.item.next == &e.item && e.item.prev == &e.item, "static buffers are in no list");
    embc_buffer_free(&e);
    REACH();
}
