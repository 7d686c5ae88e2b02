/* C03: bounded reads and writes of a buffer. */
static void fatal_hook(void);
#define VP_FATAL_HOOK fatal_hook
#include "vp.h"
#include "src/memory/buffer.c"
#include "buf.h"

/* when an operation is refused, nothing may have been modified */
static struct embc_buffer_s const * g_b; static struct embc_buffer_s const * g_o; static uint8_t const * g_pk; static uint8_t g_vk;
static void fatal_hook(void) {
    if (g_b) {
        ENSURE(BUF_SAME(g_b, *g_o), "a refused operation leaves the buffer as it was");
        if (g_pk) ENSURE(*g_pk == g_vk, "a refused operation leaves the data as it was");
    }
}
#define WATCH() uint32_t k = nd_u32(); g_b = b; g_o = &b_o; if (k < b_cap) { g_pk = &b_mem[k]; g_vk = b_mem[k]; }

/* typed writes: value v of N bytes, byte i of the encoding is ENCB(v, N, i) */
#define LEB(v, N, i) ((uint8_t) ((uint64_t) (v) >> (8 * (i))))
#define BEB(v, N, i) ((uint8_t) ((uint64_t) (v) >> (8 * ((N) - 1 - (i)))))
#define WRITE_POST(N, BYTEAT) \
    ENSURE(BUF_SAME_ID(b, b_o), "write leaves identity, reserve and links alone"); \
    ENSURE(b->cursor == b_o.cursor + (N), "write advances the cursor by exactly the size"); \
    ENSURE(b->length == (b_o.length > b_o.cursor + (N) ? b_o.length : b_o.cursor + (N)), "length extends only when the cursor passes it"); \
    ENSURE(BUF_WF(b), "write keeps the buffer well formed"); \
    if (k < b_o.capacity) { \
        if (k >= b_o.cursor && k < b_o.cursor + (N)) ENSURE(b_mem[k] == (BYTEAT), "written bytes land at the cursor"); \
        else ENSURE(b_mem[k] == old, "bytes outside the written range are untouched"); \
    }
#define SKOLEM() uint32_t k = nd_u32(); uint8_t old = 0; if (k < b_cap) old = b_mem[k];
#define WR(name, T, N, ENCB) \
VP_HARNESS(h_write_##name) { \
    BUF_MAKE(b) SKOLEM() T v = (T) nd_u64(); \
    REQUIRE(ROOM(b_o) >= (N)); \
    embc_buffer_write_##name(b, v); \
    WRITE_POST(N, ENCB(v, N, k - b_o.cursor)) \
    REACH(); \
} \
VP_HARNESS(h_write_##name##_refused) { \
    BUF_MAKE(b) T v = (T) nd_u64(); \
    REQUIRE(ROOM(b_o) < (N)); \
    REACH(); \
    WATCH() EXPECT_FATAL(); \
    embc_buffer_write_##name(b, v); \
    MUST_NOT_RETURN("a write without room is refused"); \
}
#define RD(name, T, N, ENCB) \
VP_HARNESS(h_read_##name) { \
    BUF_MAKE(b) SKOLEM() \
    REQUIRE(AVAIL(b_o) >= (N)); \
    T v = embc_buffer_read_##name(b); \
    ENSURE(BUF_SAME_ID(b, b_o) && b->length == b_o.length, "read changes only the cursor"); \
    ENSURE(b->cursor == b_o.cursor + (N), "read advances the cursor by exactly the size"); \
    ENSURE(BUF_WF(b), "read keeps the buffer well formed"); \
    if (k < b_cap) ENSURE(b_mem[k] == old, "read modifies no data"); \
    for (int i = 0; i < (N); ++i) ENSURE(b_mem[b_o.cursor + i] == ENCB(v, N, i), "read returns the bytes at the cursor"); \
    REACH(); \
} \
VP_HARNESS(h_read_##name##_refused) { \
    BUF_MAKE(b) \
    REQUIRE(AVAIL(b_o) < (N)); \
    REACH(); \
    WATCH() EXPECT_FATAL(); \
    embc_buffer_read_##name(b); \
    MUST_NOT_RETURN("a read past the length is refused"); \
}
#define ALL(X) X(u8, uint8_t, 1, LEB) X(u16_le, uint16_t, 2, LEB) X(u16_be, uint16_t, 2, BEB) X(u32_le, uint32_t, 4, LEB) \
    X(u32_be, uint32_t, 4, BEB) X(u64_le, uint64_t, 8, LEB) X(u64_be, uint64_t, 8, BEB)
ALL(WR)
ALL(RD)

VP_HARNESS(h_write) {
    BUF_MAKE(b) SKOLEM()
    int64_t n = nd_i64();
    REQUIRE(n <= ROOM(b_o));
    uint8_t * src = malloc(n > 0 ? n : 0);
    REQUIRE(src != 0);
    embc_buffer_write(b, src, n);
    if (n < 0) n = 0;
    WRITE_POST(n, src[k - b_o.cursor])
    REACH();
}
VP_HARNESS(h_write_refused) {
    BUF_MAKE(b)
    int64_t n = nd_i64();
    REQUIRE(n > 0 && n > ROOM(b_o));
    uint8_t src[1];
    REACH();
    WATCH() EXPECT_FATAL();
    embc_buffer_write(b, src, n);
    MUST_NOT_RETURN("a write without room is refused");
}
VP_HARNESS(h_read) {
    BUF_MAKE(b) SKOLEM()
    int64_t n = nd_i64(); uint32_t j = nd_u32();
    REQUIRE(n <= AVAIL(b_o));
    uint8_t * dst = malloc(n > 0 ? n : 0);
    REQUIRE(dst != 0);
    embc_buffer_read(b, dst, n);
    if (n < 0) n = 0;
    ENSURE(BUF_SAME_ID(b, b_o) && b->length == b_o.length, "read changes only the cursor");
    ENSURE(b->cursor == b_o.cursor + n, "read advances the cursor by exactly the size");
    if (k < b_cap) ENSURE(b_mem[k] == old, "read modifies no data");
    if (j < n) ENSURE(dst[j] == b_mem[b_o.cursor + j], "read returns the bytes at the cursor");
    REACH();
}
VP_HARNESS(h_read_refused) {
    BUF_MAKE(b)
    int64_t n = nd_i64();
    REQUIRE(n > 0 && n > AVAIL(b_o));
    uint8_t dst[1];
    REACH();
    WATCH() EXPECT_FATAL();
    embc_buffer_read(b, dst, n);
    MUST_NOT_RETURN("a read past the length is refused");
}
VP_HARNESS(h_cursor_set) {
    BUF_MAKE(b) SKOLEM()
    int64_t i = nd_i64();
    REQUIRE(i >= 0 && i <= b_o.length);
    embc_buffer_cursor_set(b, i);
    ENSURE(BUF_SAME_ID(b, b_o) && b->length == b_o.length && b->cursor == i, "cursor_set moves only the cursor");
    if (k < b_cap) ENSURE(b_mem[k] == old, "cursor_set modifies no data");
    REACH();
}
VP_HARNESS(h_cursor_set_refused) {
    BUF_MAKE(b)
    int64_t i = nd_i64();
    REQUIRE(i < 0 || i > b_o.length);
    REACH();
    WATCH() EXPECT_FATAL();
    embc_buffer_cursor_set(b, i);
    MUST_NOT_RETURN("a cursor outside the contents is refused");
}
VP_HARNESS(h_queries) {
    BUF_MAKE(b) SKOLEM()
    ENSURE(embc_buffer_capacity(b) == b_o.capacity && embc_buffer_length(b) == b_o.length && embc_buffer_cursor_get(b) == b_o.cursor, "queries report the fields");
    ENSURE(embc_buffer_write_remaining(b) == ROOM(b_o) && embc_buffer_read_remaining(b) == AVAIL(b_o), "remaining sizes");
    ENSURE(BUF_SAME(b, b_o), "queries modify nothing");
    if (k < b_cap) ENSURE(b_mem[k] == old, "queries modify no data");
    REACH();
}
VP_HARNESS(h_reset_clear) {
    BUF_MAKE(b) SKOLEM()
    bool clr = nd_bool();
    if (clr) embc_buffer_clear(b); else embc_buffer_reset(b);
    ENSURE(BUF_SAME_ID(b, b_o) && b->length == 0 && b->cursor == 0, "reset empties the buffer");
    if (k < b_cap) ENSURE(b_mem[k] == (clr ? 0 : old), "reset keeps the storage, clear zeroes all of it");
    REACH();
}
