/* C12, strings of any length: the C library string functions are used through their specification
 * over two strings A and B given by their lengths and the position D of their first difference
 * (D == G_NONE when the contents are equal). */
#include <stddef.h>
#include "c12_str.h"
#include "vp.h"
static void * vp_memset(void * p, int c, size_t n);
static void * vp_memcpy(void * d, const void * s, size_t n);
#define memset vp_memset
#define memcpy vp_memcpy
#include "embc.h"
static embc_size_t compute_hash(const char * key) __CPROVER_requires(key == g_a) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (embc_size_t) g_hash);
#include "src/collections/strmap.c"
VP_HARNESS(h_equiv) {
    g_la = nd_range(0, 1000000); g_lb = nd_range(0, 1000000); g_d = nd_range(0, 1000000); g_eq = nd_bool();
    REQUIRE(g_eq ? g_la == g_lb : (g_d <= g_la && g_d <= g_lb));   /* the terminators take part */
    char * a = malloc(g_la + 1), * b = malloc(g_lb + 1); REQUIRE(a && b); g_a = a; g_b = b;
    ENSURE(is_key_equiv(a, b) == (g_eq != 0), "two keys are equivalent exactly when their contents are equal, whatever their length"); REACH();
}
/* the C library copy and fill, recorded */
static void * g_fill_p, * g_copy_p; static size_t g_fill_n, g_copy_n;
static void * vp_memset(void * p, int c, size_t n) {
    __CPROVER_assert(__CPROVER_w_ok(p, n) && c == 0 && n >= sizeof(struct entry_s), "fill stays inside the object");
    struct entry_s * e = p; e->hash = 0; e->value = NULL; e->next = NULL; g_fill_p = p; g_fill_n = n; return p;
}
static void * vp_memcpy(void * d, const void * s, size_t n) {
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n) && s == (const void *) g_a, "copy stays inside both objects");
    g_copy_p = d; g_copy_n = n; return d;
}
static struct entry_s * tab[4];
VP_HARNESS(h_put_any) {   /* a new entry keeps a complete private copy of a key of any length */
    vp_live = 0; g_la = nd_range(0, 1000000); g_hash = nd_i32(); g_eq = 0; g_b = NULL;
    char * a = malloc(g_la + 1); REQUIRE(a != 0); g_fill_p = g_copy_p = NULL; g_fill_n = g_copy_n = 0; g_a = a;
    struct embc_strmap_s m; m.hashtable = tab; m.hashtable_mask = 3; m.length = nd_range(0, 100); embc_size_t l = m.length; for (int i = 0; i < 4; ++i) tab[i] = NULL;
    void * v = (void *) (uintptr_t) nd_u64(), * old = &m;
    ENSURE(embc_strmap_put(&m, a, v, &old) == 0, "stored"); ENSURE(old == NULL && m.length == l + 1 && vp_live == 1, "one new entry");
    struct entry_s * e = tab[g_hash & 3]; ENSURE(e != NULL && e->value == v && e->next == NULL, "in its bin"); ENSURE(g_copy_p == e->key && (g_copy_n == g_la + 1 || (g_copy_n == g_la && g_fill_p == e && g_fill_n > offsetof(struct entry_s, key) + g_la)), "every character of the key is copied and its end is set");
    REACH();
}
VP_HARNESS(h_get_any) {   /* one entry with any key, looked up by any key */
    g_la = nd_range(0, 1000); g_lb = nd_range(0, 1000); g_d = nd_range(0, 1000); g_eq = nd_bool(); g_hash = nd_i32();
    REQUIRE(g_eq ? g_la == g_lb : (g_d <= g_la && g_d <= g_lb));
    char * a = malloc(g_la + 1); struct entry_s * e = malloc(sizeof(struct entry_s) + g_lb); REQUIRE(a && e); g_a = a; g_b = e->key;
    struct embc_strmap_s m; m.hashtable = tab; m.hashtable_mask = 3; m.length = 1; for (int i = 0; i < 4; ++i) tab[i] = NULL;
    e->next = NULL; e->value = (void *) (uintptr_t) nd_u64(); e->hash = g_eq || nd_bool() ? g_hash : nd_i32(); tab[e->hash & 3] = e; void * v = &m;
    int r = embc_strmap_get(&m, a, &v); ENSURE(g_eq ? r == 0 && v == e->value : r == 1 && v == NULL, "found exactly when the contents are equal, also when the hashes collide"); REACH();
}
