#include "vp.h"
#include "src/cstr.c"
static int ref(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
VP_HARNESS(h_hex) {
    char c = nd_i8(); uint8_t v = nd_u8(); static const char D[] = "0123456789ABCDEF";
    int e = ref((uint8_t) c); uint8_t r = embc_cstr_hex_to_u4(c); char h = embc_cstr_u4_to_hex(v);
    ENSURE(r == (e < 0 ? 0 : e), "the digit value, 0 for anything else");
    ENSURE(h == (v < 16 ? D[v] : '0'), "the upper-case digit, '0' for anything else");
    if (v < 16) ENSURE(embc_cstr_hex_to_u4(h) == v, "back and forth is the identity");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
