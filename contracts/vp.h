/* Verification prelude, shared by every contract file.
 *
 * The same text is used in three ways:
 *   VP_CBMC           goto-cc / goto-instrument / cbmc: nd_*() are unconstrained, REQUIRE assumes,
 *                     ENSURE asserts.
 *   VP_NATIVE         gcc with ASan+UBSan against the real code: nd_*() are read from a replay file
 *                     (--replay FILE) or drawn from a seeded generator (--random SEED ITER SECONDS).
 * REACH() is the vacuity guard: under cbmc it is an assertion that has to FAIL (the driver checks
 * that), so a harness whose assumptions contradict each other is never counted as a proof.
 */
#ifndef VP_H_
#define VP_H_
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

/* logging is a documented override point; arguments are still evaluated */
#ifndef EMBC_LOG_PRINTF
#define EMBC_LOG_PRINTF(level, format, ...) vp_log(level, format, __VA_ARGS__)
#endif

#ifdef VP_CBMC
/* ---------------------------------------------------------------- CBMC */
#define VP_PASTE_(a, b) a##b
extern int vp_in_cbmc;
static unsigned long long vp_nd_rec;
static int vp_fatal_expected;

static inline void vp_log(int level, const char *format, ...) { (void) level; (void) format; }

#define VP_ND(T, name) static inline T name(void) { T v; vp_nd_rec = (unsigned long long) v; return v; }
VP_ND(uint8_t, nd_u8)
VP_ND(uint16_t, nd_u16)
VP_ND(uint32_t, nd_u32)
VP_ND(uint64_t, nd_u64)
VP_ND(int8_t, nd_i8)
VP_ND(int16_t, nd_i16)
VP_ND(int32_t, nd_i32)
VP_ND(int64_t, nd_i64)
static inline bool nd_bool(void) { uint8_t v; v &= 1; vp_nd_rec = v; return v; }
#define REQUIRE(c) __CPROVER_assume(c)
#define ENSURE(c, msg) __CPROVER_assert(c, msg)
#define REACH() __CPROVER_assert(0, "VP_REACH")
/* code that must not be reachable because the misuse before it has to be detected */
#define MUST_NOT_RETURN(msg) __CPROVER_assert(0, msg)
#define EXPECT_FATAL() do { vp_fatal_expected = 1; } while (0)
#define OLD(e) __CPROVER_old(e)
void embc_fatal(char const * file, int line, char const * msg) {
    (void) file; (void) line; (void) msg;
#ifdef VP_FATAL_HOOK
    VP_FATAL_HOOK();
#endif
    if (!vp_fatal_expected) {
        __CPROVER_assert(0, "the code calls its fatal-error handler");
    }
    __CPROVER_assume(0);
}
#define VP_HARNESS(name) void name(void)
static inline uint32_t nd_range(uint32_t lo, uint32_t hi) {
    uint32_t v; __CPROVER_assume(lo <= v && v <= hi); vp_nd_rec = v; return v;
}
#define VP_MAIN(fn)

#else
/* -------------------------------------------------------------- native */
#include <stdio.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
extern void __sanitizer_set_death_callback(void (*)(void));
static int vp_mode;                 /* 0 replay, 1 random */
static unsigned long long *vp_vals;
static size_t vp_nvals, vp_ival, vp_cap;
static uint64_t vp_rng;
static jmp_buf vp_jmp;
static int vp_fatal_expected;
static const char *vp_out;
static unsigned long vp_iter;
static volatile int vp_reported;

static inline void vp_log(int level, const char *format, ...) { (void) level; (void) format; }

static void vp_dump(void) {
    if (vp_out && vp_mode == 1) {
        FILE *f = fopen(vp_out, "w");
        if (f) {
            for (size_t i = 0; i < vp_nvals; ++i) fprintf(f, "%llu\n", vp_vals[i]);
            fclose(f);
        }
    }
}
static void vp_death(void) {
    if (!vp_reported) {
        vp_reported = 1;
        printf("VP-VIOLATION sanitizer or crash (iteration %lu)\n", vp_iter);
        fflush(stdout);
    }
    vp_dump();
}
static void vp_violation(const char *what, const char *file, int line) {
    vp_reported = 1;
    printf("VP-VIOLATION %s (%s:%d, iteration %lu)\n", what, file, line, vp_iter);
    fflush(stdout);
    vp_dump();
    _exit(1);
}
static void vp_alarm(int s) {
    (void) s;
    static const char m[] = "VP-VIOLATION the code does not return (hang)\n";
    (void) !write(1, m, sizeof(m) - 1);
    vp_dump();
    _exit(1);
}
static uint64_t vp_rand(void) {
    vp_rng ^= vp_rng << 13; vp_rng ^= vp_rng >> 7; vp_rng ^= vp_rng << 17;
    return vp_rng * 0x2545F4914F6CDD1Dull;
}
static unsigned long long vp_next_raw(void) {  /* replay only */
    if (vp_ival >= vp_nvals) { longjmp(vp_jmp, 3); }
    return vp_vals[vp_ival++];
}
static unsigned long long vp_rec(unsigned long long v) {
    if (vp_mode == 1) {
        if (vp_nvals == vp_cap) {
            vp_cap = vp_cap ? vp_cap * 2 : 1024;
            vp_vals = realloc(vp_vals, vp_cap * sizeof(*vp_vals));
        }
        vp_vals[vp_nvals++] = v;
    }
    return v;
}
static inline uint64_t vp_any(int bits) {
    uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
    uint64_t v;
    switch ((vp_rand() >> 33) & 7) {
        case 0: v = (vp_rand() >> 40) & 7; break;
        case 1: v = 0 - ((vp_rand() >> 40) & 7); break;
        case 2: v = (1ull << ((vp_rand() >> 40) % bits)) + ((vp_rand() >> 40) & 3) - 1; break;
        case 3: v = (vp_rand() >> 40) & 255; break;
        default: v = vp_rand() >> 7 ^ vp_rand() << 31; break;
    }
    return v & m;
}
#define VP_ND(T, name, bits) static inline T name(void) { \
    if (vp_mode == 0) return (T) vp_next_raw(); \
    return (T) vp_rec((unsigned long long) (T) vp_any(bits)); }
VP_ND(uint8_t, nd_u8, 8)
VP_ND(uint16_t, nd_u16, 16)
VP_ND(uint32_t, nd_u32, 32)
VP_ND(uint64_t, nd_u64, 64)
VP_ND(int8_t, nd_i8, 8)
VP_ND(int16_t, nd_i16, 16)
VP_ND(int32_t, nd_i32, 32)
VP_ND(int64_t, nd_i64, 64)
static inline bool nd_bool(void) {
    if (vp_mode == 0) return vp_next_raw() & 1;
    return vp_rec((vp_rand() >> 35) & 1);
}
static inline uint32_t nd_range(uint32_t lo, uint32_t hi) {
    uint32_t v;
    if (vp_mode == 0) {
        v = (uint32_t) vp_next_raw();
        if (v < lo || v > hi) longjmp(vp_jmp, 2);
        return v;
    }
    uint64_t span = (uint64_t) hi - lo + 1;
    v = (uint32_t) (lo + (vp_rand() >> 20) % span);
    return (uint32_t) vp_rec(v);
}
#define REQUIRE(c) do { if (!(c)) longjmp(vp_jmp, 2); } while (0)
#define ENSURE(c, msg) do { if (!(c)) vp_violation(msg, __FILE__, __LINE__); } while (0)
#define REACH() do { } while (0)
#define MUST_NOT_RETURN(msg) vp_violation(msg, __FILE__, __LINE__)
#define EXPECT_FATAL() do { vp_fatal_expected = 1; } while (0)
/* native only: did the statement reach the fatal-error handler? */
static jmp_buf vp_catch_jmp;
static int vp_catching;
#define FATAL(stmt) (vp_catching = 1, setjmp(vp_catch_jmp) ? (vp_catching = 0, 1) : ((void) (stmt), vp_catching = 0, 0))
void embc_fatal(char const * file, int line, char const * msg) {
    if (vp_catching) longjmp(vp_catch_jmp, 1);
    if (vp_fatal_expected) longjmp(vp_jmp, 4);
    printf("embc_fatal %s:%d %s\n", file, line, msg);
    vp_violation("the code calls its fatal-error handler", file, line);
    _exit(1);
}
#define __CPROVER_assume(c) REQUIRE(c)
#define VP_HARNESS(name) void name(void)
static int vp_main(int argc, char **argv, void (*fn)(void)) {
    __sanitizer_set_death_callback(vp_death);
    signal(SIGALRM, vp_alarm);
    if (argc >= 3 && 0 == strcmp(argv[1], "--replay")) {
        FILE *f = fopen(argv[2], "r");
        if (!f) return 3;
        unsigned long long v;
        vp_cap = 1024; vp_vals = malloc(vp_cap * sizeof(*vp_vals));
        while (fscanf(f, "%llu", &v) == 1) {
            if (vp_nvals == vp_cap) { vp_cap *= 2; vp_vals = realloc(vp_vals, vp_cap * sizeof(*vp_vals)); }
            vp_vals[vp_nvals++] = v;
        }
        fclose(f);
        alarm(20);
        int r = setjmp(vp_jmp);
        if (r == 0) fn();
        printf("VP-OK replay (%d)\n", r);
        return 0;
    }
    if (argc >= 6 && 0 == strcmp(argv[1], "--random")) {
        vp_mode = 1;
        uint64_t seed = strtoull(argv[2], 0, 0);
        unsigned long iters = strtoul(argv[3], 0, 0);
        double secs = atof(argv[4]);
        vp_out = argv[5];
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        volatile unsigned long done = 0, skipped = 0;
        for (vp_iter = 0; vp_iter < iters; ++vp_iter) {
            vp_rng = (seed + 1) * 0x9E3779B97F4A7C15ull ^ (vp_iter + 1) * 0xD1B54A32D192ED03ull;
            for (int k = 0; k < 4; ++k) vp_rand();
            vp_nvals = 0; vp_fatal_expected = 0; vp_catching = 0;
            alarm(20);
            int r = setjmp(vp_jmp);
            if (r == 0) { fn(); ++done; }
            else if (r == 4) ++done;
            else ++skipped;
            if ((vp_iter & 15) == 15) {
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break;
            }
        }
        printf("VP-OK random done=%lu skipped=%lu\n", (unsigned long) done, (unsigned long) skipped);
        return 0;
    }
    return 3;
}
#define VP_MAIN(fn) int main(int argc, char **argv) { return vp_main(argc, argv, fn); }
#endif

/* ---- allocator stand-in for the user-supplied allocator: malloc/free with a live count ---- */
#ifdef VP_CBMC
static int vp_live;
static void * vp_alloc(size_t n) { void *p = malloc(n); __CPROVER_assume(p != 0); ++vp_live; return p; }
static void vp_free(void *p) { if (p) --vp_live; free(p); }
#else
static int vp_live;
static void *vp_blocks[4096];
static void * vp_alloc(size_t n) {
    void *p = malloc(n);
    if (!p) { longjmp(vp_jmp, 2); }
    memset(p, 0xA5, n);
    for (int i = 0; i < 4096; ++i) { if (!vp_blocks[i]) { vp_blocks[i] = p; ++vp_live; return p; } }
    longjmp(vp_jmp, 2);
}
static void vp_free(void *p) {
    if (!p) return;
    for (int i = 0; i < 4096; ++i) { if (vp_blocks[i] == p) { vp_blocks[i] = 0; --vp_live; free(p); return; } }
    free(p);  /* not ours: ASan reports a bad or double free */
}
#endif
static inline void vp_alloc_reset(void) {
#ifndef VP_CBMC
    for (int i = 0; i < 4096; ++i) { if (vp_blocks[i]) { free(vp_blocks[i]); vp_blocks[i] = 0; } }
#endif
    vp_live = 0;
}

#ifndef VP_NO_ALLOC   /* defined by contract files that verify src/platform.c itself */
#ifdef VP_CBMC
void * embc_alloc(intptr_t size_bytes) { return vp_alloc(size_bytes); }
void embc_free(void * ptr) { vp_free(ptr); }
#else
__attribute__((weak)) void * embc_alloc(intptr_t size_bytes) { return vp_alloc(size_bytes); }
__attribute__((weak)) void embc_free(void * ptr) { vp_free(ptr); }
#endif
#endif

static inline void nd_bytes(void *p, size_t n) {
    for (size_t i = 0; i < n; ++i) ((uint8_t *) p)[i] = nd_u8();
}
#endif
