/* C24: frame format.  Checksums are uninterpreted: the stubs check which bytes they are given and return any value. */
#include "fr.h"
static const uint8_t * g_b; static uint32_t g_len; static uint8_t g_c8, g_head[7], g_snap; static uint32_t g_c32, g_w, g_n32; static int g_k8, g_k32, g_build;
uint8_t embc_crc_ccitt_8(uint8_t crc, uint8_t const * data, uint32_t length) {
    ENSURE(crc == 0 && length == 7 && (g_build || data == g_b), "the header checksum covers the first seven bytes");
    if (g_build) { g_b = data; for (int i = 0; i < 7; ++i) g_head[i] = data[i]; } else ENSURE(g_len >= 8, "header present");
    ++g_k8; return g_c8;
}
uint32_t embc_crc32(uint32_t crc, uint8_t const * data, uint32_t length) {
    ENSURE(crc == 0 && data == g_b, "the frame checksum starts at the start of frame"); g_n32 = length; ++g_k32;
    if (g_build) { if (g_w < length) g_snap = data[g_w]; } else ENSURE(length <= g_len, "the frame checksum stays inside the buffer");
    return g_c32;
}
#include "src/stream/framer.c"
#define VALID(p, n) /* the documented format */ \
    ((n) >= 8 && (p)[0] == 0xAA && (p)[7] == g_c8 && (p)[4] <= 240 && (n) >= (p)[4] + 13u && ((uint32_t) (p)[(p)[4] + 8] | (uint32_t) (p)[(p)[4] + 9] << 8 | (uint32_t) (p)[(p)[4] + 10] << 16 | (uint32_t) (p)[(p)[4] + 11] << 24) == g_c32)
VP_HARNESS(h_validate) {
    vp_fatal_expected = 0; uint16_t n = nd_u16(); uint8_t * p = malloc(n); REQUIRE(p != 0); g_b = p; g_len = n; g_build = 0; g_c8 = nd_u8(); g_c32 = nd_u32(); g_k8 = g_k32 = 0; g_n32 = 0;
    if (n) p[0] = nd_bool() ? 0xAA : nd_u8(); if (n > 4) p[4] = nd_u8(); if (n > 7) p[7] = nd_bool() ? g_c8 : nd_u8();
    uint16_t len = 0x7777; bool nul = nd_bool(); int32_t r = embc_framer_validate(p, n, nul ? NULL : &len);
    ENSURE((r == 0) == VALID(p, n), "accepted exactly when start, header checksum, length and frame checksum match");
    if (n < 8) ENSURE(r == EMBC_ERROR_EMPTY, "header incomplete");
    else if (p[0] != 0xAA || p[7] != g_c8) ENSURE(r == EMBC_ERROR_IO, "header invalid");
    else if (p[4] > 240) ENSURE(r == EMBC_ERROR_TOO_BIG, "payload too long");
    else {
        if (n < p[4] + 13) ENSURE(r == EMBC_ERROR_TOO_SMALL, "frame incomplete"); else ENSURE(r == 0 || r == EMBC_ERROR_MESSAGE_INTEGRITY, "checksum decides");
        if (!nul) ENSURE(len == p[4] + 13, "frame size");
        if (n >= p[4] + 13) ENSURE(g_k32 == 1 && g_n32 == p[4] + 8u, "the frame checksum covers header and payload");
    }
    REACH(); free(p);
}
static struct embc_framer_s f;
static void setup(void) {
    fb_init(); hal_init(); g_build = 1; g_b = NULL; g_c8 = nd_u8(); g_c32 = nd_u32(); g_k8 = g_k32 = 0; g_n32 = 0; g_snap = 0; g_w = nd_range(0, 252);
    struct embc_framer_hal_callbacks_s c = fr_hal(); embc_framer_initialize(&f, (struct embc_buffer_allocator_s *) &f, &c);
}
static void check(struct embc_buffer_s * b, uint8_t id, uint8_t port, uint8_t mid, uint16_t def, uint8_t L) {
    uint8_t * d = b->data;
    ENSURE(d[0] == 0xAA && d[1] == id && d[2] == port && d[3] == mid && d[4] == L && d[5] == (def & 0xff) && d[6] == (def >> 8), "header fields");
    ENSURE(g_k8 == 1 && g_k32 == 1 && g_b == d && d[7] == g_c8, "header checksum"); for (int i = 0; i < 7; ++i) ENSURE(d[i] == g_head[i], "of the final header");
    ENSURE(b->length == L + 13 && b->reserve == 0, "frame size"); ENSURE(g_n32 == L + 8u, "checksum covers header and payload"); if (g_w < L + 8u) ENSURE(g_snap == d[g_w], "of the final bytes");
    ENSURE(d[L + 8] == (g_c32 & 0xff) && d[L + 9] == ((g_c32 >> 8) & 0xff) && d[L + 10] == ((g_c32 >> 16) & 0xff) && d[L + 11] == (g_c32 >> 24) && d[L + 12] == 0xAA, "frame checksum and end of frame");
    ENSURE(VALID(d, b->length), "it validates");
}
VP_HARNESS(h_frame) {
    setup(); uint8_t L = nd_range(0, 240), id = nd_u8(), port = nd_range(0, 15), mid = nd_u8(); uint16_t def = nd_u16(); static uint8_t pay[240]; uint32_t q = nd_range(0, 239); uint8_t v = pay[q] = nd_u8();
    struct embc_buffer_s * b = embc_framer_construct_frame(&f, id, port, mid, def, L || nd_bool() ? pay : NULL, L);
    check(b, id & 15, port, mid, def, L); if (q < L) ENSURE(b->data[8 + q] == v, "payload"); ENSURE(fb_count == 2, "one buffer");
    REACH();
}
VP_HARNESS(h_ack) {
    setup(); uint8_t id = nd_u8(), port = nd_u8(), mid = nd_u8(), st = nd_u8(); uint16_t mask = nd_u16();
    struct embc_buffer_s * b = embc_framer_construct_ack(&f, id, port, mid, mask, st);
    check(b, 0x80 | (id & 15), port, mid, mask, 1); ENSURE(b->data[8] == st, "status"); ENSURE(fb_count == 2, "one buffer");
    REACH();
}
#ifdef TRACK
#define COPY 1
#else
#define COPY 0
#endif
VP_HARNESS(h_send) {   /* the next data frame, from a buffer of the framer or any other buffer */
    setup(); uint8_t L = nd_range(0, 240), port = nd_range(0, 15), mid = nd_u8(), id = nd_range(0, 15); uint16_t def = nd_u16(); static uint8_t pay[240]; uint32_t q = nd_range(0, 239); uint8_t v = pay[q] = nd_u8(); f.tx_next_frame_id = id;
    struct embc_buffer_s * s, * b;
#ifndef TRACK
    s = embc_framer_alloc(&f); embc_buffer_write(s, pay, L); if (nd_bool()) embc_buffer_cursor_set(s, 8);
    ENSURE(embc_buffer_write_remaining(s) >= 240 - L || s->cursor == 8, "room for a full payload");
#else
    s = embc_buffer_alloc(NULL, 240);  s->length = L; s->cursor = nd_range(0, 240); REQUIRE(s->cursor <= L); s->data[q] = v; s->reserve = TRACK;
#endif
    embc_framer_send(&f, port, mid, def, s);
    ENSURE(h_ntx == 1, "transmitted"); b = h_tx[0]; check(b, id, port, mid, def, L); if (q < L) ENSURE(b->data[8 + q] == v, "payload");
    ENSURE(fb_count == 2 && (!COPY ? b == s : !fb_live[s - fb]), "one buffer besides the receive buffer"); ENSURE(f.tx_next_frame_id == ((id + 1) & 15), "next frame identifier");
    REACH();
}
VP_HARNESS(h_payload) {
    setup(); uint8_t L = nd_range(0, 240), port = nd_range(0, 15), mid = nd_u8(), id = nd_range(0, 15); uint16_t def = nd_u16(); static uint8_t pay[240]; uint32_t q = nd_range(0, 239); uint8_t v = pay[q] = nd_u8(); f.tx_next_frame_id = id;
    embc_framer_send_payload(&f, port, mid, def, L || nd_bool() ? pay : NULL, L);
    ENSURE(h_ntx == 1 && fb_count == 2, "transmitted"); check(h_tx[0], id, port, mid, def, L); if (q < L) ENSURE(h_tx[0]->data[8 + q] == v, "payload");
    REACH();
}
VP_HARNESS(h_misuse) {
    setup(); static uint8_t pay[256]; uint32_t k = nd_range(0, 3); EXPECT_FATAL(); uint8_t port = nd_range(16, 255);
    if (k == 0) embc_framer_construct_frame(&f, 0, port, 0, 0, pay, nd_range(0, 240));
    else if (k == 1) embc_framer_send_payload(&f, port, 0, 0, pay, nd_range(0, 240));
    else if (k == 2) embc_framer_send_payload(&f, nd_range(0, 15), 0, 0, pay, nd_range(241, 255));
    else { struct embc_buffer_s * s = embc_framer_alloc(&f); embc_framer_send(&f, port, 0, 0, s); }
    MUST_NOT_RETURN("invalid port or payload size is refused");
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
