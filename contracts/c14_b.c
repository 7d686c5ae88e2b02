#include "vp.h"
#include "c14_ref.h"
#include "embc/cstr.h"
VP_HARNESS(b_num) {
    char s[80]; int n = 0; uint32_t kind = nd_range(0, 5);
    if (kind < 2) { int l = nd_range(0, 14); for (; n < l; ++n) { s[n] = " 0123456789-+.xXaAfFgG\t,"[nd_range(0, 23)]; } }
    else {
        int w = nd_range(0, 3); while (w--) s[n++] = " \t\n\v"[nd_range(0, 3)];
        if (nd_bool()) s[n++] = nd_bool() ? '-' : '+';
        if (kind == 2) n += sprintf(s + n, "0x%llx", (unsigned long long) nd_u64() >> nd_range(0, 60));
        else if (kind == 3) { static const char * E[] = {"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967305", "42949672950", "214748364.7", "214748364.8", "21474836.48", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "18446744073709551616", "0000000000000000000017"}; n += sprintf(s + n, "%s", E[nd_range(0, 15)]); }
        else { int k = nd_range(0, 12); while (k--) s[n++] = '0' + nd_range(0, 9); if (nd_bool()) { s[n++] = '.'; k = nd_range(0, 10); while (k--) s[n++] = '0' + nd_range(0, 9); } if (kind == 5 && nd_bool()) s[n++] = nd_bool() ? '.' : ' '; if (kind == 5 && nd_bool()) s[n++] = '0' + nd_range(0, 9); }
        w = nd_range(0, 3); while (w--) s[n++] = " \t\r\f"[nd_range(0, 3)];
    }
    char * t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; memset(s + n, 0, sizeof(s) - n);
    uint32_t u0 = nd_u32(), u = u0; int32_t v0 = nd_i32(), v = v0, x = v0, ex = nd_range(0, 11);
    uint64_t e = ref_end(ref_run(LEAD, s, n, 0), 0); int r = embc_cstr_to_u32(t, &u);
    ENSURE((r == 0) == (e <= UINT32_MAX) && u == (r ? u0 : e), "unsigned");
    struct ref q = ref_run(SLEAD, s, n, 0); uint64_t lim = q.neg ? 0x80000000ull : 0x7fffffffull;
    e = ref_end(q, 0); r = embc_cstr_to_i32(t, &v);
    ENSURE((r == 0) == (e <= lim) && v == (r ? v0 : q.neg ? -(int64_t) e : (int64_t) e), "signed");
    q = ref_run(FSIGN, s, n, ex); lim = q.neg ? 0x80000000ull : 0x7fffffffull; e = ref_fixed(q, ex); r = embc_cstr_to_i32s(t, ex, &x);
    ENSURE((r == 0) == (e <= lim) && x == (r ? v0 : q.neg ? -(int64_t) e : (int64_t) e), "fixed point");
    free(t);
}
VP_MAIN(b_num)
