/* C10: the operations of the integer map on chains of any length (see chain.h), with any number of bins. */
#define VP_NO_ALLOC
#include "vp.h"
#include "chain.h"
#include "src/collections/intmap.c"
CHAIN_SETUP()
#ifndef MISS
#define MISS 0
#endif
static int g_allocs, g_frees; static void * g_freed;
void * embc_alloc(embc_size_t n) { ++g_allocs; ENSURE(n == sizeof(struct entry_s), "room for an entry"); return &ENEW; }
void embc_free(void * p) { ++g_frees; g_freed = p; }
static struct embc_intmap_s map; static struct embc_intmap_iterator_s itd; static embc_size_t g_key;
static void * oldv; static struct entry_s ec0; static struct entry_s * head0; static embc_size_t len0;
static void setup(void) {
    g_key = nd_i64(); vp_fatal_expected = 0; g_allocs = 0; g_frees = 0; g_freed = 0;
    chain_setup(EC.key == g_key);
    map.hash_mask = nd_i64(); REQUIRE(map.hash_mask >= 0 && map.hash_mask < (1ll << 40) && (map.hash_mask & (map.hash_mask + 1)) == 0);
    map.bins = malloc((map.hash_mask + 1) * sizeof(struct entry_s *)); __CPROVER_assume(map.bins != 0);
    map.length = nd_i64(); REQUIRE(map.length >= g_n && map.length < (1ll << 56)); len0 = map.length; map.iterators = 0;
    g_slot = &map.bins[g_key & map.hash_mask]; *g_slot = ADDR(0); head0 = *g_slot; ec0 = EC; oldv = (void *) 0x77;
}
#define SAME_NODE() ENSURE(EC.key == ec0.key && EC.value == ec0.value && EC.next == ec0.next, "the entry is unchanged")
VP_HARNESS(h_get) {
    setup(); bool nul = nd_bool(); int r = embc_intmap_get(&map, g_key, nul ? 0 : &oldv);
    ENSURE(r == 0 || r == EMBC_ERROR_NOT_FOUND, "status");
    if (r == 0) ENSURE(g_k < g_n && EC.key == g_key && oldv == (nul ? (void *) 0x77 : EC.value), "the value stored under the key");
    else ENSURE(!(g_n > 0 && g_hj) && oldv == (nul ? (void *) 0x77 : 0), "no entry has the key");
    SAME_NODE(); ENSURE(*g_slot == head0 && map.length == len0 && !g_allocs && !g_frees, "lookup changes nothing"); REACH();
}
VP_HARNESS(h_put) {
    setup(); map.iterators = nd_bool() ? &itd : 0; REQUIRE(map.iterators || map.length < 2 * map.hash_mask);
    bool nul = nd_bool(); void * w = (void *) (uintptr_t) nd_u64();
    REQUIRE(!MISS || g_k == g_n);
    int r = embc_intmap_put(&map, g_key, w, nul ? 0 : &oldv);
    ENSURE(r == 0, "stored");
    if (!g_allocs) {
        ENSURE(g_k < g_n && ec0.key == g_key && oldv == (nul ? (void *) 0x77 : ec0.value) && EC.value == w && EC.key == g_key && EC.next == ec0.next && *g_slot == head0 && map.length == len0, "exactly the value of the key is replaced");
    } else {
        ENSURE(g_allocs == 1 && !(g_n > 0 && g_hj) && oldv == (nul ? (void *) 0x77 : 0), "a key that was absent");
        ENSURE(ENEW.key == g_key && ENEW.value == w && ENEW.next == 0 && *LINK(g_n) == &ENEW && map.length == len0 + 1, "a new entry at the end of the chain");
        ENSURE(g_n == 0 || (*g_slot == head0), "the chain is kept");
    }
    ENSURE(!g_frees, "nothing is released"); REACH();
}
VP_HARNESS(h_remove) {
    setup(); bool nul = nd_bool(); REQUIRE(!MISS || g_k == g_n); struct entry_s em0 = EM;
    int r = embc_intmap_remove(&map, g_key, nul ? 0 : &oldv);
    ENSURE(r == 0 || r == EMBC_ERROR_NOT_FOUND, "status");
    if (r == 0) {
        ENSURE(g_k < g_n && ec0.key == g_key && oldv == (nul ? (void *) 0x77 : ec0.value), "the entry with the key, its value returned");
        ENSURE(*LINK(g_k) == ec0.next && map.length == len0 - 1 && g_frees == 1 && g_freed == &EC, "it is unlinked and released, no other");
        ENSURE(g_k == 0 || (*g_slot == head0 && EM.key == em0.key && EM.value == em0.value), "the other entries are kept");
    } else { ENSURE(!(g_n > 0 && g_hj) && map.length == len0 && !g_frees && *g_slot == head0, "no entry has the key: nothing changes"); SAME_NODE(); }
    ENSURE(!g_allocs, "nothing is allocated"); REACH();
}
