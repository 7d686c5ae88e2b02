/* C17: command lines are split into their words. */
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "vp.h"
#include "embc/cli.h"
#ifndef N
#define N 8
#endif
#define SZ (EMBC_CLI_LINE_LENGTH + 2)
#define DEL(c) ((c) == ' ' || (c) == '\t' || (c) == ',')
#define WORD(c) ((c) != 0 && !DEL(c))
static char cmd[SZ + 8], cmd0[SZ + 8]; static int g_L, g_words, g_w, g_tw, g_ow; static bool g_isw;
#include "src/cstr.c"
#include "src/cli.c"
static embc_cli_t cli; static int cookie, g_calls, g_rc;
/* reference: count word starts; an arbitrary character position g_w belongs to word g_tw at place g_ow */
static void reference(void) {
    bool in = false; int start = 0; g_words = 0; g_tw = g_ow = -1;
    for (int i = 0; i < g_L; ++i) {
        if (WORD(cmd[i])) { if (!in) { start = i; ++g_words; } in = true; if (i == g_w) { g_tw = g_words - 1; g_ow = i - start; } } else in = false;
    }
    g_isw = g_w < g_L && WORD(cmd[g_w]);
}
static int handler(void * c, int argc, char * argv[]) {
    ++g_calls;
    ENSURE(c == &cookie, "the user's cookie");
    ENSURE(argc == g_words && argc >= 1 && argc <= EMBC_CLI_MAX_ARGS, "one argument per word");
    if (g_isw && g_tw < argc) {
        ENSURE(argv[g_tw][g_ow] == cmd[g_w], "every character of a word is at its place in its argument");
        ENSURE((argv[g_tw][g_ow + 1] == 0) == !WORD(cmd[g_w + 1]), "every argument ends exactly at the end of its word");
        argv[g_tw][g_ow] = nd_i8(); argv[g_tw][g_ow + 1] = nd_i8();
    }
    return g_rc;
}
static void parse(void) {
    g_calls = 0; cli.execute_args = nd_bool() ? handler : 0; cli.execute_cookie = &cookie; g_rc = nd_i32(); int k = nd_range(0, g_L);
    reference(); char was = cmd[k];
    int r = embc_cli_line_parser(&cli, cmd);
    ENSURE(cmd[k] == was, "the original line is not modified");
    bool call = cli.execute_args && g_words >= 1 && g_words <= EMBC_CLI_MAX_ARGS;
    ENSURE(g_calls == call, "the handler runs exactly once when there are arguments");
    ENSURE(r == (call ? g_rc : g_words ? EMBC_CLI_ERROR_PARAMETER_VALUE : 0), "status");
    REACH();
}
VP_HARNESS(h_short) {
    for (int i = 0; i < N; ++i) cmd[i] = nd_i8();
    cmd[N] = 0; g_L = N; for (int i = N - 1; i >= 0; --i) if (!cmd[i]) g_L = i;
    g_w = nd_range(0, N - 1); parse();
}
/* many one-letter words: K words, two tail characters free */
VP_HARNESS(h_many) {
    for (int i = 0; i < K; ++i) { cmd[2 * i] = 'a' + i % 26; cmd[2 * i + 1] = ",\t "[i % 3]; }
    cmd[2 * K] = nd_i8(); g_L = cmd[2 * K] ? 2 * K + 1 : 2 * K; cmd[g_L] = 0;
    g_w = nd_range(0, 2 * K); parse();
}
/* the private copy: only lines that fit, never read past their end.  At most 66 characters are looked at, so this covers every length. */
VP_HARNESS(h_copy) {
    int L = nd_range(0, SZ + 4), k = nd_range(0, SZ - 1); char * s = vp_alloc(L + 1), t[SZ + 2]; t[SZ] = t[SZ + 1] = 0x55;
    for (int i = 0; i < SZ + 4; ++i) { if (i >= L) break; s[i] = nd_i8(); REQUIRE(s[i] != 0); } s[L] = 0;
    int r = embc_cstr_copy(t, s, SZ);
    ENSURE(L < SZ ? r == 0 : r != 0, "a line that does not fit is reported");
    ENSURE(L >= SZ || k > L || t[k] == s[k], "the copy is exact");
    ENSURE(t[SZ] == 0x55 && t[SZ + 1] == 0x55, "no overrun");
    REACH();
}
/* lengths around the limit, one long word */
VP_HARNESS(h_long) {
    for (int i = 0; i < LEN; ++i) cmd[i] = 'a' + i % 26; cmd[LEN] = 0;
    cli.execute_args = handler; cli.execute_cookie = &cookie; g_L = LEN; g_calls = 0; g_w = nd_range(0, LEN - 1); reference(); g_rc = nd_i32();
    int r = embc_cli_line_parser(&cli, cmd);
    ENSURE(g_calls == (LEN < SZ) && r == (LEN < SZ ? g_rc : EMBC_CLI_ERROR_PARAMETER_VALUE), "a line that does not fit is an error, never cut");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
