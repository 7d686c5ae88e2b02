/* C11: the operations of the generic hash map on chains of any length (see chain.h), with any number of bins.
 * The key searched for has an arbitrary hash; the equality function agrees with the hash. */
#define VP_NO_ALLOC
#include "vp.h"
#include "chain.h"
#include "src/collections/hashmap.c"
CHAIN_SETUP()
static int g_allocs, g_frees;
void * embc_alloc(embc_size_t n) { ++g_allocs; ENSURE(n == sizeof(struct entry_s), "room for an entry"); return &ENEW; }
void embc_free(void * p) { ++g_frees; }
static struct embc_hashmap_s map; static char kobj; static embc_size_t g_hash; static bool g_eqk;
static embc_size_t hash_fn(void * k) { ENSURE(k == &kobj, "hash of the key"); return g_hash; }
static bool eq_fn(void * a, void * b) { ENSURE((a == EC.key && b == &kobj) || (b == EC.key && a == &kobj), "the entry is compared with the key"); return g_eqk; }
static void * oldv; static struct entry_s ec0; static struct entry_s * head0; static embc_size_t len0;
static void setup(void) {
    vp_fatal_expected = 0; g_allocs = 0; g_frees = 0; g_hash = nd_i64(); g_eqk = nd_bool();
    REQUIRE(!g_eqk || EC.hash == g_hash);   /* equal keys have equal hashes, stored with the entry */
    chain_setup(g_eqk);
    map.hash = hash_fn; map.equiv = eq_fn;
    map.hashtable_mask = nd_i64(); REQUIRE(map.hashtable_mask >= 0 && map.hashtable_mask < (1ll << 40) && (map.hashtable_mask & (map.hashtable_mask + 1)) == 0);
    map.hashtable = malloc((map.hashtable_mask + 1) * sizeof(struct entry_s *)); __CPROVER_assume(map.hashtable != 0);
    map.length = nd_i64(); REQUIRE(map.length >= g_n && map.length < (1ll << 56)); len0 = map.length;
    g_slot = &map.hashtable[g_hash & map.hashtable_mask]; *g_slot = ADDR(0); head0 = *g_slot; ec0 = EC; oldv = (void *) 0x77;
}
VP_HARNESS(h_get) {
    setup(); bool nul = nd_bool(); int r = embc_hashmap_get(&map, &kobj, nul ? 0 : &oldv);
    ENSURE(r == 0 || r == EMBC_ERROR_NOT_FOUND, "status");
    if (r == 0) ENSURE(g_k < g_n && g_eqk && oldv == (nul ? (void *) 0x77 : EC.value), "the value stored under an equal key");
    else ENSURE(!(g_n > 0 && g_hj) && oldv == (nul ? (void *) 0x77 : 0), "no entry has an equal key");
    ENSURE(EC.key == ec0.key && EC.value == ec0.value && EC.next == ec0.next && EC.hash == ec0.hash && *g_slot == head0 && map.length == len0 && !g_allocs && !g_frees, "lookup changes nothing"); REACH();
}
VP_HARNESS(h_put) {
    setup(); bool nul = nd_bool(); void * w = (void *) (uintptr_t) nd_u64();
    int r = embc_hashmap_put(&map, &kobj, w, nul ? 0 : &oldv);
    ENSURE(r == 0 && !g_frees, "stored");
    if (!g_allocs) {
        ENSURE(g_k < g_n && g_eqk && oldv == (nul ? (void *) 0x77 : ec0.value) && EC.value == w && EC.hash == ec0.hash && EC.next == ec0.next && *g_slot == head0 && map.length == len0, "exactly the value of the equal key is replaced");
    } else {
        ENSURE(g_allocs == 1 && !(g_n > 0 && g_hj) && oldv == (nul ? (void *) 0x77 : 0), "a key that was absent");
        ENSURE(ENEW.key == &kobj && ENEW.hash == g_hash && ENEW.value == w && ENEW.next == 0 && *LINK(g_n) == &ENEW && map.length == len0 + 1, "a new entry at the end of the chain");
        ENSURE(g_n == 0 || (*g_slot == head0), "the chain is kept");
    }
    REACH();
}
