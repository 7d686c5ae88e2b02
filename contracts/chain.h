/* A chain of any length n (n unbounded), seen through the nodes that one arbitrary loop iteration k can reach.
 * ADDR(i) is the address of node i.  Only the nodes 0, k-1, k, k+1, k+2 are materialised; every other node is
 * never dereferenced in iteration k, and k is arbitrary, so every iteration is covered.  g_j is an arbitrary
 * node, g_hj says whether it matches the key searched for ("no node before the current one matches"). */
static intptr_t g_n, g_k, g_i, g_j; static bool g_hj;
struct entry_s; extern struct entry_s E0, EM, EC, EN, EO, ENEW; static struct entry_s ** g_slot;   /* defined by CHAIN_SETUP() */
#define ADDR(i) ((i) == g_n ? (struct entry_s *) 0 : (i) == g_k ? &EC : (i) == g_k + 1 ? &EN : (i) == g_k - 1 ? &EM : (i) == 0 ? &E0 : &EO)
#define LINK(i) ((i) == 0 ? g_slot : (i) == g_k ? &EM.next : (i) == g_k + 1 ? &EC.next : (i) == g_k + 2 ? &EN.next : (i) == 1 ? &E0.next : &EO.next)
#define CHAIN_INV (0 <= g_i && g_i <= g_n && item == ADDR(g_i) && (g_i <= g_j || !g_hj))
#define CHAIN_STEP() { __CPROVER_assume(g_i == g_k); __CPROVER_assert(item == &EC, "iteration k is at node k"); item = &EC; g_i = g_i + 1; }
#define CHAIN_STEP_P() { CHAIN_STEP() __CPROVER_assert(previous == LINK(g_k), "previous is the link to node k"); previous = g_k == 0 ? g_slot : &EM.next; }
#define CHAIN_END_P() { __CPROVER_assume(g_k == g_n); __CPROVER_assert(previous == LINK(g_n), "previous is the last link"); previous = g_n == 0 ? g_slot : &EM.next; }
#define CHAIN_SETUP() struct entry_s E0, EM, EC, EN, EO, ENEW; static void chain_setup(bool hit_k) { \
    g_n = nd_i64(); g_k = nd_i64(); g_j = nd_i64(); g_hj = nd_bool(); g_i = 0; \
    REQUIRE(0 <= g_n && g_n < (1ll << 56) && 0 <= g_k && g_k <= g_n && 0 <= g_j && g_j < g_n); \
    if (g_j == g_k) g_hj = hit_k; \
    EM.next = ADDR(g_k); EC.next = ADDR(g_k + 1); EN.next = g_k + 2 < g_n ? &EO : 0; E0.next = &EO; EO.next = &EO; \
}
