/* C12: the operations of the string map on chains of any length (see chain.h), with any number of bins.
 * String contents enter through strcmp (any verdict on the tracked entry), strlen and the hash (any value; equal strings have equal hashes). */
#define VP_NO_ALLOC
#include <stddef.h>
#include "c12_str.h"
#include "vp.h"
#include "chain.h"
#include "embc.h"
static embc_size_t compute_hash(const char * key) __CPROVER_requires(key == g_a) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (embc_size_t) g_hash);
#include "src/collections/strmap.c"
CHAIN_SETUP()
static struct entry_s * g_new; static int g_allocs, g_frees; static void * g_freed; static embc_size_t g_len;
void * embc_alloc(embc_size_t n) { ++g_allocs; ENSURE(n >= (embc_size_t) offsetof(struct entry_s, key) + g_len + 1 && n >= (embc_size_t) sizeof(struct entry_s), "room for an entry and its key"); g_new = malloc(n); __CPROVER_assume(g_new != 0); return g_new; }
void embc_free(void * p) { ++g_frees; g_freed = p; }
static struct embc_strmap_s map; static char kobj[8];
static void * oldv; static struct entry_s ec0; static struct entry_s * head0; static embc_size_t len0;
static void setup(int len) {
    g_len = len;   /* the private copy of keys of any length: c12_q.c */
    vp_fatal_expected = 0; g_allocs = 0; g_frees = 0; g_hash = nd_i32(); g_eq = nd_bool(); g_a = kobj; g_b = EC.key; g_la = g_len; g_lb = nd_range(0, 1000000); g_d = nd_range(0, 1000000); REQUIRE(g_eq ? g_la == g_lb : (g_d <= g_la && g_d <= g_lb)); g_new = 0; g_freed = 0;
    REQUIRE(!(g_eq != 0) || EC.hash == (embc_size_t) g_hash);   /* equal keys have equal hashes, stored with the entry */
    chain_setup((g_eq != 0));
    map.hashtable_mask = nd_i64(); REQUIRE(map.hashtable_mask >= 0 && map.hashtable_mask < (1ll << 40) && (map.hashtable_mask & (map.hashtable_mask + 1)) == 0);
    map.hashtable = malloc((map.hashtable_mask + 1) * sizeof(struct entry_s *)); __CPROVER_assume(map.hashtable != 0);
    map.length = nd_i64(); REQUIRE(map.length >= g_n && map.length < (1ll << 56)); len0 = map.length;
    g_slot = &map.hashtable[(embc_size_t) g_hash & map.hashtable_mask]; *g_slot = ADDR(0); head0 = *g_slot; ec0 = EC; oldv = (void *) 0x77;
}
VP_HARNESS(h_get) {
    setup(nd_range(0, 1000000)); bool nul = nd_bool(); int r = embc_strmap_get(&map, kobj, nul ? 0 : &oldv);
    ENSURE(r == 0 || r == 1, "status");
    if (r == 0) ENSURE(g_k < g_n && (g_eq != 0) && oldv == (nul ? (void *) 0x77 : EC.value), "the value stored under an equal key");
    else ENSURE(!(g_n > 0 && g_hj) && oldv == (nul ? (void *) 0x77 : 0), "no entry has an equal key");
    ENSURE(EC.value == ec0.value && EC.next == ec0.next && EC.hash == ec0.hash && *g_slot == head0 && map.length == len0 && !g_allocs && !g_frees, "lookup changes nothing"); REACH();
}
VP_HARNESS(h_put) {
    setup(0); bool nul = nd_bool(); void * w = (void *) (uintptr_t) nd_u64();
    int r = embc_strmap_put(&map, kobj, w, nul ? 0 : &oldv);
    ENSURE(r == 0 && !g_frees, "stored");
    if (!g_allocs) {
        ENSURE(g_k < g_n && (g_eq != 0) && oldv == (nul ? (void *) 0x77 : ec0.value) && EC.value == w && EC.hash == ec0.hash && EC.next == ec0.next && *g_slot == head0 && map.length == len0, "exactly the value of the equal key is replaced");
    } else {
        ENSURE(g_allocs == 1 && !(g_n > 0 && g_hj) && oldv == (nul ? (void *) 0x77 : 0), "a key that was absent");
        ENSURE(g_new->hash == (embc_size_t) g_hash && g_new->value == w && g_new->next == 0 && *LINK(g_n) == g_new && map.length == len0 + 1, "a new entry at the end of the chain");
        ENSURE(g_n == 0 || (*g_slot == head0), "the chain is kept");
    }
    REACH();
}
VP_HARNESS(h_remove) {
    setup(nd_range(0, 1000000)); bool nul = nd_bool();
    int r = embc_strmap_remove(&map, kobj, nul ? 0 : &oldv);
    ENSURE(r == 0 || r == 1, "status");
    if (r == 0) {
        ENSURE(g_k < g_n && (g_eq != 0) && oldv == (nul ? (void *) 0x77 : ec0.value), "the entry with an equal key, its value returned");
        ENSURE(*LINK(g_k) == ec0.next && map.length == len0 - 1 && g_frees == 1 && g_freed == &EC, "it is unlinked and released, no other");
        ENSURE(g_k == 0 || *g_slot == head0, "the other entries are kept");
    } else ENSURE(!(g_n > 0 && g_hj) && map.length == len0 && !g_frees && *g_slot == head0 && EC.next == ec0.next, "no entry has an equal key: nothing changes");
    ENSURE(!g_allocs, "nothing is allocated"); REACH();
}
