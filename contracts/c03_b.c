/* C03/C04: random histories of buffer operations against a plain byte-array model (native). */
#include "vp.h"
#include "embc/memory/buffer.h"
#include "embc/dbc.h"
static uint8_t m_data[400]; static uint32_t m_cap, m_cur, m_len, m_res;
static void check(struct embc_buffer_s * b, struct embc_buffer_s * o, const char * what) {
    ENSURE(b->cursor == m_cur, "cursor as specified");
    ENSURE(b->length == m_len, "length as specified");
    ENSURE(b->data == o->data && b->capacity == o->capacity && b->buffer_id == o->buffer_id && b->flags == o->flags &&
           b->manager == o->manager && b->item.next == o->item.next && b->item.prev == o->item.prev && b->reserve == m_res, "identity kept");
    ENSURE(0 == memcmp(b->data, m_data, m_len), "contents as specified");
    (void) what;
}
static void put(uint8_t v) { m_data[m_cur++] = v; if (m_cur > m_len) m_len = m_cur; }
#ifdef EXTRA
#define OPS 13
#else
#define OPS 9
#endif
VP_HARNESS(b_buffer) {
    m_cap = nd_bool() ? nd_range(0, 24) : nd_range(0, 300);
    uint8_t * mem = malloc(m_cap ? m_cap : 1);
    struct embc_buffer_s o = {.data = mem, .capacity = m_cap, .cursor = 0, .length = 0, .reserve = 0, .buffer_id = 7, .flags = 9,
        .manager = &embc_buffer_manager_static};
    o.item.next = &o.item; o.item.prev = &o.item;
    struct embc_buffer_s bb = o, * b = &bb;
    m_cur = m_len = m_res = 0;
    int steps = nd_range(1, 14);
    for (int i = 0; i < steps; ++i) {
        long room = (long) m_cap - m_cur - m_res, avail = (long) m_len - m_cur;
        int f, n; uint64_t v; uint8_t tmp[400]; 
        switch (nd_range(0, OPS)) {
            case 0: m_res = b->reserve = nd_range(0, m_cap); break;
            case 1: { /* typed write */
                int w = nd_range(0, 6); v = nd_u64();
                static const int N[] = {1, 2, 2, 4, 4, 8, 8}; n = N[w];
                switch (w) {
                    case 0: f = FATAL(embc_buffer_write_u8(b, v)); break;
                    case 1: f = FATAL(embc_buffer_write_u16_le(b, v)); break;
                    case 2: f = FATAL(embc_buffer_write_u16_be(b, v)); break;
                    case 3: f = FATAL(embc_buffer_write_u32_le(b, v)); break;
                    case 4: f = FATAL(embc_buffer_write_u32_be(b, v)); break;
                    case 5: f = FATAL(embc_buffer_write_u64_le(b, v)); break;
                    default: f = FATAL(embc_buffer_write_u64_be(b, v)); break;
                }
                ENSURE(f == (n > room), "typed write is refused exactly when there is no room");
                if (!f) for (int k = 0; k < n; ++k) put(v >> (8 * ((w & 1) || w == 0 ? k : n - 1 - k)));
                break; }
            case 2: { /* typed read */
                int w = nd_range(0, 6); v = 0;
                static const int N[] = {1, 2, 2, 4, 4, 8, 8}; n = N[w];
                switch (w) {
                    case 0: f = FATAL(v = embc_buffer_read_u8(b)); break;
                    case 1: f = FATAL(v = embc_buffer_read_u16_le(b)); break;
                    case 2: f = FATAL(v = embc_buffer_read_u16_be(b)); break;
                    case 3: f = FATAL(v = embc_buffer_read_u32_le(b)); break;
                    case 4: f = FATAL(v = embc_buffer_read_u32_be(b)); break;
                    case 5: f = FATAL(v = embc_buffer_read_u64_le(b)); break;
                    default: f = FATAL(v = embc_buffer_read_u64_be(b)); break;
                }
                ENSURE(f == (n > avail), "typed read is refused exactly when it passes the length");
                if (!f) {
                    for (int k = 0; k < n; ++k)
                        ENSURE((uint8_t) (v >> (8 * ((w & 1) || w == 0 ? k : n - 1 - k))) == m_data[m_cur + k], "typed read value");
                    m_cur += n;
                }
                break; }
            case 3: { /* bulk write */
                n = nd_bool() ? nd_range(0, 12) : nd_range(0, 310);
                uint8_t * src = malloc(n ? n : 1);
                nd_bytes(src, n < 6 ? n : 6); for (int k = 6; k < n; ++k) src[k] = src[k - 1] * 5 + 1;
                f = FATAL(embc_buffer_write(b, src, n));
                ENSURE(f == (n > 0 && n > room), "bulk write is refused exactly when there is no room");
                if (!f) for (int k = 0; k < n; ++k) put(src[k]);
                free(src);
                break; }
            case 4: { /* bulk read */
                n = nd_bool() ? nd_range(0, 12) : nd_range(0, 310);
                uint8_t * dst = malloc(n ? n : 1);
                f = FATAL(embc_buffer_read(b, dst, n));
                ENSURE(f == (n > 0 && n > avail), "bulk read is refused exactly when it passes the length");
                if (!f) { ENSURE(n == 0 || 0 == memcmp(dst, m_data + m_cur, n), "bulk read value"); m_cur += n; }
                free(dst);
                break; }
            case 5: { /* seek */
                long idx = nd_bool() ? (long) nd_range(0, m_len) : (long) nd_i32() * (nd_bool() ? 65536 : 1);
                f = FATAL(embc_buffer_cursor_set(b, idx));
                ENSURE(f == (idx < 0 || idx > (long) m_len), "seek is refused exactly outside the contents");
                if (!f) m_cur = idx;
                break; }
            case 6: ENSURE(embc_buffer_capacity(b) == m_cap && embc_buffer_length(b) == m_len && embc_buffer_cursor_get(b) == m_cur &&
                           embc_buffer_write_remaining(b) == room && embc_buffer_read_remaining(b) == avail, "queries"); break;
            case 7: embc_buffer_reset(b); m_cur = m_len = 0; break;
            case 8: embc_buffer_clear(b); m_cur = m_len = 0;
                    for (uint32_t k = 0; k < m_cap; ++k) ENSURE(mem[k] == 0, "clear zeroes the storage"); break;
            case 9: if (0) { memcpy(tmp, m_data, 1); } break;
#ifdef EXTRA
            case 10: case 11: { /* erase */
                long s = nd_bool() ? (long) nd_range(0, m_len) : (nd_bool() ? (long) nd_range(0, 400) - 50 : (long) nd_i32() * 65536);
                long e = nd_bool() ? (long) nd_range(0, m_len) : (nd_bool() ? (long) nd_range(0, 400) - 50 : (long) nd_i32() * 65536 + nd_range(0, 4));
                f = FATAL(embc_buffer_erase(b, s, e));
                ENSURE(f == (s < 0 || s > (long) m_len - 1 || e < 0 || e > (long) m_len), "erase is refused exactly when an index is out of range");
                if (!f && e > s) {
                    memmove(m_data + s, m_data + e, m_len - e);
                    m_len -= e - s;
                    if ((long) m_cur >= e) m_cur -= e - s; else if ((long) m_cur > s) m_cur = s;
                }
                break; }
            case 12: { /* strings */
                char str[64]; n = nd_range(0, 40);
                for (int k = 0; k < n; ++k) str[k] = (char) nd_range(1, 255);
                str[n] = 0;
                char * h = strdup(str);
                if (room < 0) room = 0;
                long w = n < room ? n : room;
                if (nd_bool()) {
                    bool ok = embc_buffer_write_str_truncate(b, h);
                    ENSURE(ok == (n <= room), "string write reports truncation exactly when bytes were dropped");
                    for (int k = 0; k < w; ++k) put(h[k]);
                } else {
                    f = FATAL(embc_buffer_write_str(b, h));
                    ENSURE(f == (n > room), "string write is refused exactly when it does not fit");
                    if (f) { free(h); free(mem); return; }
                    for (int k = 0; k < w; ++k) put(h[k]);
                }
                free(h);
                break; }
            case 13: { /* copy from a second buffer */
                uint8_t sm[40]; uint32_t sc = nd_range(0, 40);
                struct embc_buffer_s s = {.data = sm, .capacity = 40, .cursor = 0, .length = sc, .manager = &embc_buffer_manager_static};
                s.cursor = nd_range(0, sc);
                for (int k = 0; k < 40; ++k) sm[k] = k * 3 + i;
                n = nd_range(0, 41);
                f = FATAL(embc_buffer_copy(b, &s, n));
                if (n > 0) ENSURE(f == (n > (long) s.length - s.cursor || n > room), "copy is refused exactly when it does not fit");
                if (!f) for (int k = 0; k < n; ++k) put(sm[s.cursor + k]);
                for (int k = 0; k < 40; ++k) ENSURE(sm[k] == (uint8_t) (k * 3 + i), "copy leaves the source alone");
                break; }
#endif
            default: break;
        }
        check(b, &o, "");
    }
    free(mem);
}
VP_MAIN(b_buffer)
