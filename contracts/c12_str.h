/* The C library string functions, through their specification over two strings A and B given by their lengths and the
 * position g_d of their first difference (g_eq: equal contents). */
static const char * g_a, * g_b; static size_t g_la, g_lb, g_d; static int g_eq; static int g_hash, g_hashed;
#define G_SPEC(x, y) __CPROVER_assert(((x) == g_a && (y) == g_b) || ((x) == g_b && (y) == g_a), "the keys are compared from their start")
int strcmp(const char * x, const char * y) { G_SPEC(x, y); int r; __CPROVER_assume((r == 0) == (g_eq != 0)); return r; }
int strncmp(const char * x, const char * y, size_t n) { G_SPEC(x, y); int r; __CPROVER_assume((r == 0) == (g_eq || g_d >= n)); return r; }
int memcmp(const void * x, const void * y, size_t n) {
    G_SPEC((const char *) x, (const char *) y); __CPROVER_assert(n <= g_la + 1 && n <= g_lb + 1, "comparison stays inside both strings");
    int r; __CPROVER_assume((r == 0) == ((g_eq && n <= g_la + 1) || g_d >= n)); return r;
}
size_t strlen(const char * x) { __CPROVER_assert(x == g_a || x == g_b, "length of a key"); return x == g_a ? g_la : g_lb; }
