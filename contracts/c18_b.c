#include "vp.h"
#include "embc/event_manager.h"
#include "embc/time.h"
#define MAXE 400
static struct embc_evm_s * evm; static struct { int64_t ts; int32_t id; uint64_t seq; } q[MAXE]; static int n; static uint64_t seq; static int64_t now; static int32_t last_id, ids[2000]; static int nids, calls, depth;
static int head(void) { int h = -1; for (int i = 0; i < n; ++i) if (h < 0 || q[i].ts < q[h].ts || (q[i].ts == q[h].ts && q[i].seq < q[h].seq)) h = i; return h; }
static int find(int32_t id) { for (int i = 0; i < n; ++i) if (q[i].id == id) return i; return -1; }
static void drop(int k) { q[k] = q[--n]; }
static void op(bool inside);
static void cbk(void * u, int32_t id) {
    int h = head(); ENSURE(h >= 0 && q[h].id == id && u == (void *) (uintptr_t) q[h].seq && q[h].ts <= now, "the earliest due event runs, once");
    drop(h); ++calls; ++depth; if (depth < 3) { uint32_t k = nd_range(0, 2); while (k--) op(true); } --depth;
}
static void op(bool inside) {
    uint32_t k = nd_range(0, 9);
    if (k < 5 && n < MAXE && nids < 2000) {
        int64_t ts = nd_range(0, 20) == 0 ? -(int64_t) nd_range(0, 3) : now + (int64_t) nd_range(0, 12) - 3; if (inside && ts <= now && nd_range(0, 3)) ts = now + 1 + nd_range(0, 3);
        int32_t id = embc_evm_schedule(evm, ts, cbk, (void *) (uintptr_t) ++seq);
        if (ts <= 0) { ENSURE(id == 0, "ignored"); } else { ENSURE(id > last_id, "new handle"); last_id = id; ids[nids++] = id; q[n].ts = ts; q[n].id = id; q[n++].seq = seq; }
    } else if (k < 7) { int32_t id = nids && nd_bool() ? ids[nd_range(0, nids - 1)] : n && nd_bool() ? q[nd_range(0, n - 1)].id : (int32_t) nd_range(0, 50) - 2; ENSURE(embc_evm_cancel(evm, id) == 0, "status"); int f = find(id); if (f >= 0) drop(f); }
    else if (k < 9 && !inside) { now += nd_range(0, 6); calls = 0; int r = embc_evm_process(evm, now); ENSURE(r == calls, "count"); int h = head(); ENSURE(h < 0 || q[h].ts > now, "every due event ran"); }
    int h = head(); if (!inside || 1) { ENSURE(embc_evm_time_next(evm) == (h < 0 ? EMBC_TIME_MIN : q[h].ts), "next time"); ENSURE(embc_evm_interval_next(evm, now) == (h < 0 ? -1 : q[h].ts <= now ? 0 : q[h].ts - now), "next interval"); }
}
VP_HARNESS(b_evm) {
    evm = embc_evm_allocate(); n = nids = 0; last_id = 0; now = 5; depth = 0; seq = 0;
    uint32_t k = nd_range(1, 120); while (k--) op(false);
    embc_evm_free(evm);
}
VP_MAIN(b_evm)
