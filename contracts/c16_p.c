/* C16: the command line editor.  Logical line: every character typed since the last enter minus those erased; the buffer
 * holds its first 64 characters and cmdlen its length (any length). */
#include <stdint.h>
#include <stdbool.h>
#include "vp.h"
#include "embc/cli.h"
#define LEN EMBC_CLI_LINE_LENGTH
static embc_cli_t cli, old;
static char g_val; static int g_w, g_cnt; static bool g_white, g_done;
/* reference compaction, one character at a time, keeping output character g_w of an arbitrary index */
#define REF(c_) { char c = (c_); \
    if (c == '#' || c == '@' || c == '%') g_done = true; \
    else if (c == ' ' || c == '\t') { if (!g_white) { if (g_cnt == g_w) g_val = ' '; ++g_cnt; } g_white = true; } \
    else { if (g_cnt == g_w) g_val = c; ++g_cnt; g_white = false; } }
#include "src/cstr.c"
#include "src/cli.c"
static int cookie, print_cookie;
static int g_exec, g_rc, g_prints, g_prompts, g_ok, g_err, g_too_long, g_echo; static char g_echoed; static const char OK[] = "OK", ERR[] = "ERR";
static void on_print(void * c, const char * s) {
    ENSURE(c == &print_cookie, "print cookie");
    ++g_prints;
    if (s == cli.prompt) ++g_prompts; else if (s == OK) ++g_ok; else if (s == ERR) ++g_err; else if (s == LINE_TOO_LONG) ++g_too_long;
    else { ++g_echo; g_echoed = s[0]; }
}
static int on_line(void * c, const char * s) { (void) c; (void) s; ++g_exec; return g_rc; }
static void make(void) {
    for (int i = 0; i < LEN + 2; ++i) cli.cmdline[i] = nd_i8();
    for (int i = 0; i < EMBC_CLI_PROMPT_LENGTH; ++i) cli.prompt[i] = nd_i8();
    cli.prompt[EMBC_CLI_PROMPT_LENGTH - 1] = 0;
    cli.echo_mode = nd_range(0, 2); cli.echo_user_char = nd_i8(); cli.verbose = nd_range(0, 1); cli.last_char = nd_i8();
    cli.response_success = OK; cli.response_error = ERR; cli.execute_line = on_line; cli.execute_args = 0; cli.execute_cookie = &cookie;
    cli.print = on_print; cli.print_cookie = &print_cookie;
    cli.cmdlen = nd_range(0, NMAX);
    old = cli; g_exec = g_prints = g_prompts = g_ok = g_err = g_too_long = g_echo = 0; g_echoed = 0; g_rc = nd_range(0, 4) - 1;
}
static void frame(void) {
    ENSURE(cli.echo_mode == old.echo_mode && cli.echo_user_char == old.echo_user_char && cli.verbose == old.verbose && cli.execute_line == on_line && !cli.execute_args &&
           cli.execute_cookie == &cookie && cli.print == on_print && cli.print_cookie == &print_cookie && cli.response_success == OK && cli.response_error == ERR, "configuration untouched");
}
VP_HARNESS(h_char) {
    make(); char ch = nd_i8(); int w = nd_range(0, LEN - 1); REQUIRE(ch != '\r' && !(ch == '\n' && cli.last_char != '\r'));
    if (nd_bool()) { cli.print = 0; }
    bool p = cli.print != 0;
    embc_cli_insert_char(&cli, ch);
    cli.print = on_print; frame();
    bool bs = ch == 8 || ch == 127, lf = ch == '\n'; embc_size_t n = old.cmdlen;
    ENSURE(cli.cmdlen == (lf ? n : bs ? (n ? n - 1 : 0) : n + 1), "line length");
    ENSURE(w >= cli.cmdlen || cli.cmdline[w] == (w < n ? old.cmdline[w] : ch), "line content");
    ENSURE(cli.last_char == ch, "last character remembered");
    ENSURE(g_exec == 0, "no execution before enter");
    bool e = p && !lf && old.echo_mode != EMBC_CLI_ECHO_OFF && !(bs && n == 0);
    ENSURE(g_prints == e && (!e || bs || g_echoed == (old.echo_mode == EMBC_CLI_ECHO_ON ? ch : old.echo_user_char)), "echo");
    REACH();
}
static int on_enter(void * c, const char * s) {
    ENSURE(c == &cookie, "user cookie");
    int m = g_cnt - (g_cnt > 0 && g_white); ++g_exec;
    ENSURE(g_w >= m || s[g_w] == g_val, "the executed line is what was typed: blanks collapsed, comment dropped");
    ENSURE(m > 0 && m < LEN && s[m] == 0, "the executed line ends where the typed line ends");
    return g_rc;
}
VP_HARNESS(h_enter) {
    make(); cli.execute_line = on_enter; char ch = nd_bool() ? '\r' : '\n'; REQUIRE(ch == '\r' || cli.last_char != '\r');
    g_w = nd_range(0, LEN - 1); g_cnt = 0; g_white = true; g_done = false; g_val = 0;
#ifndef LOOPS
    for (int i = 0; i < LEN; ++i) { if (i >= cli.cmdlen || g_done) break; REF(cli.cmdline[i]) }
#endif
    embc_cli_insert_char(&cli, ch); cli.execute_line = on_line; frame();
    int m = g_cnt - (g_cnt > 0 && g_white);
    bool too_long = (old.cmdlen > LEN && !g_done) || m >= LEN, blank = !too_long && m == 0;
    ENSURE(g_exec == (!too_long && !blank), "a line is executed once, a blank or oversized line never");
    ENSURE(g_too_long == too_long, "an oversized line is reported");
    ENSURE(g_ok == (g_exec && g_rc == 0) && g_err == (g_exec && g_rc != 0 && g_rc != -1), "the status is reported");
    ENSURE(g_prompts == 1 && cli.cmdlen == 0 && cli.cmdline[0] == 0 && cli.last_char == ch, "the editor starts empty again");
    REACH();
}
VP_HARNESS(h_init) {
    make(); if (nd_bool()) cli.execute_line = 0;
    embc_cli_initialize(&cli);
    ENSURE(cli.cmdlen == 0 && g_prompts == 1 && g_exec == 0, "initialized empty with a prompt");
    REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
