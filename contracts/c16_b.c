#include "vp.h"
#include "embc/cli.h"
#include <string.h>
static char line[4096], expect[80]; static int n, m, execs, rc, oks, errs, longs, prompts; static embc_cli_t cli;
static const char OK[] = "OK", ERR[] = "ERR";
static int on_line(void * c, const char * s) {
    ENSURE(c == line, "cookie"); ++execs;
    ENSURE(!strcmp(s, expect), "the executed line is what was typed");
    return rc;
}
static void on_print(void * c, const char * s) {
    ENSURE(c == expect, "print cookie");
    if (s == OK) ++oks; else if (s == ERR) ++errs; else if (s == cli.prompt) ++prompts; else if (strstr(s, "length reached")) ++longs; else (void) strlen(s);
}
static void reference(bool * blank, bool * too_long) {
    int k = n < 64 ? n : 64; bool white = true, comment = false; m = 0; char t[65];
    for (int i = 0; i < k; ++i) {
        char c = line[i];
        if (c == '#' || c == '@' || c == '%') { comment = true; break; }
        if (c == ' ' || c == '\t') { if (!white) t[m++] = ' '; white = true; } else { t[m++] = c; white = false; }
    }
    if (m && t[m - 1] == ' ') --m;
    *too_long = (n > 64 && !comment) || m >= 64; *blank = !*too_long && !m;
    memcpy(expect, t, m); expect[m] = 0;
}
VP_HARNESS(b_cli) {
    memset(&cli, 0, sizeof(cli)); n = 0; char last = 0; uint32_t style = nd_range(0, 3);
    cli.execute_line = on_line; cli.execute_cookie = line; cli.print = on_print; cli.print_cookie = expect; cli.response_success = OK; cli.response_error = ERR;
    cli.echo_mode = nd_range(0, 2); cli.echo_user_char = '*'; cli.verbose = nd_range(0, 1); cli.prompt[0] = '>';
    embc_cli_initialize(&cli);
    uint32_t ops = nd_range(1, style ? 200 : 40);
    while (ops--) {
        uint32_t k = nd_range(0, 99); char ch; execs = oks = errs = longs = prompts = 0; bool blank = 0, tl = 0, enter = false;
        if (k < 3 && n > 0) ch = nd_bool() ? 8 : 127; else if (style == 2 && n > 60 && n < 70 && k < 60) ch = nd_bool() ? 8 : 127;
        else if (k < 4 || (style == 0 && k < 15) || (n > 62 && k < 15)) ch = nd_bool() ? '\r' : '\n'; else if (k < 30) ch = nd_bool() ? ' ' : '\t';
        else if (k == 30 && nd_bool()) ch = "#@%"[nd_range(0, 2)]; else if (k == 31) ch = nd_range(1, 255); else ch = 'a' + nd_range(0, 25);
        rc = (int) nd_range(0, 3) - 1;
        if (ch == '\r' || (ch == '\n' && last != '\r')) { enter = true; reference(&blank, &tl); n = 0; }
        else if (ch == '\n') ; else if (ch == 8 || ch == 127) { if (n) --n; } else line[n++] = ch;
        embc_cli_insert_char(&cli, ch); last = ch;
        ENSURE(execs == (enter && !blank && !tl), "executed exactly on enter, unless blank or too long");
        ENSURE(longs == tl, "an oversized line is reported");
        ENSURE(oks == (execs && rc == 0) && errs == (execs && rc > 0), "the status is reported");
        ENSURE(prompts == enter, "prompt after each line");
    }
}
VP_MAIN(b_cli)
