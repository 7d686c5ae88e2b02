#include "vp.h"
#include "embc/collections/list.h"
#define NL 3
#define NI 40
static struct embc_list_s L[NL], I[NI];
static int m[NL][NI], mn[NL];
static void m_rm(int x) { for (int l = 0; l < NL; ++l) for (int k = 0; k < mn[l]; ++k) if (m[l][k] == x) { memmove(&m[l][k], &m[l][k + 1], (mn[l] - k - 1) * sizeof(int)); --mn[l]; return; } }
static void m_ins(int l, int k, int x) { memmove(&m[l][k + 1], &m[l][k], (mn[l] - k) * sizeof(int)); m[l][k] = x; ++mn[l]; }
static int m_find(int x, int * l) { for (*l = 0; *l < NL; ++*l) for (int k = 0; k < mn[*l]; ++k) if (m[*l][k] == x) return k; return -1; }
static void check(void) {
    uint8_t in[NI] = {0};
    for (int l = 0; l < NL; ++l) {
        struct embc_list_s * p = &L[l];
        for (int k = 0; k < mn[l]; ++k) { in[m[l][k]] = 1; ENSURE(p->next == &I[m[l][k]] && p->next->prev == p, "the list holds exactly the documented sequence"); p = p->next; }
        ENSURE(p->next == &L[l] && L[l].prev == p, "the list is circular");
        ENSURE(embc_list_length(&L[l]) == mn[l] && embc_list_is_empty(&L[l]) == !mn[l], "length");
        ENSURE(embc_list_peek_head(&L[l]) == (mn[l] ? &I[m[l][0]] : 0) && embc_list_peek_tail(&L[l]) == (mn[l] ? &I[m[l][mn[l] - 1]] : 0), "ends");
        int c = 0; struct embc_list_s * it;
        embc_list_foreach_reverse_unsafe(&L[l], it) { ++c; ENSURE(c <= mn[l] && it == &I[m[l][mn[l] - c]], "reverse order"); }
        ENSURE(c == mn[l], "all visited"); c = 0;
        embc_list_foreach_unsafe(&L[l], it) { ENSURE(c < mn[l] && it == &I[m[l][c]], "forward order"); ++c; }
        ENSURE(c == mn[l], "all visited");
    }
    for (int i = 0; i < NI; ++i) if (!in[i]) ENSURE(I[i].next == &I[i] && I[i].prev == &I[i], "items in no list are unlinked");
}
VP_HARNESS(b_list) {
    int ni = nd_range(1, nd_bool() ? 5 : NI), steps = nd_range(1, 60);
    for (int l = 0; l < NL; ++l) { embc_list_initialize(&L[l]); mn[l] = 0; }
    for (int i = 0; i < NI; ++i) embc_list_initialize(&I[i]);
    for (int s = 0; s < steps; ++s) {
        int l = nd_range(0, NL - 1), x = nd_range(0, ni - 1), y = nd_range(0, ni - 1), q; struct embc_list_s * it;
        switch (nd_range(0, 11)) {
            case 0: case 1: embc_list_add_head(&L[l], &I[x]); m_rm(x); m_ins(l, 0, x); break;
            case 2: case 3: embc_list_add_tail(&L[l], &I[x]); m_rm(x); m_ins(l, mn[l], x); break;
            case 4: embc_list_remove(&I[x]); m_rm(x); break;
            case 5: it = embc_list_remove_head(&L[l]); ENSURE(it == (mn[l] ? &I[m[l][0]] : 0), "head"); if (it) m_rm(m[l][0]); break;
            case 6: it = embc_list_remove_tail(&L[l]); ENSURE(it == (mn[l] ? &I[m[l][mn[l] - 1]] : 0), "tail"); if (it) m_rm(m[l][mn[l] - 1]); break;
            case 7: if (x == y || m_find(y, &q) < 0) break; embc_list_insert_before(&I[y], &I[x]); m_rm(x); { int k = m_find(y, &q); m_ins(q, k, x); } break;
            case 8: if (x == y || m_find(y, &q) < 0) break; embc_list_insert_after(&I[y], &I[x]); m_rm(x); { int k = m_find(y, &q); m_ins(q, k + 1, x); } break;
            case 9: { int t = nd_range(0, NL - 1); if (t == l) break; embc_list_append(&L[t], &L[l]); for (int k = 0; k < mn[l]; ++k) m[t][mn[t]++] = m[l][k]; mn[l] = 0; break; }
            case 10: { int k = m_find(x, &q), idx = (k >= 0 && q == l) ? k : -1; ENSURE(embc_list_index_of(&L[l], &I[x]) == idx && embc_list_contains(&L[l], &I[x]) == (idx >= 0), "index and membership");
                int64_t i = (int64_t) nd_range(0, 50) - 2; ENSURE(embc_list_index(&L[l], i) == (i >= 0 && i < mn[l] ? &I[m[l][i]] : 0), "item at index"); break; }
            default: { int c = 0, n = mn[l], seq[NI]; uint32_t mask = nd_u32(); memcpy(seq, m[l], sizeof(seq)); bool rev = nd_bool();
                if (rev) { embc_list_foreach_reverse(&L[l], it) { ++c; ENSURE(c <= n && it == &I[seq[n - c]], "reverse order with removal"); if (mask >> (c & 31) & 1) { embc_list_remove(it); m_rm(seq[n - c]); } } }
                else { embc_list_foreach(&L[l], it) { ENSURE(c < n && it == &I[seq[c]], "order with removal"); if (mask >> (c & 31) & 1) { embc_list_remove(it); m_rm(seq[c]); } ++c; } }
                ENSURE(c == n, "each item visited once"); }
        }
        check();
    }
}
VP_MAIN(b_list)
