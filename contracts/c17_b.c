#include "vp.h"
#include <string.h>
#include "embc/cli.h"
static char * cmd; static int words, start[64], len[64], calls, rc, L; static embc_cli_t cli;
static int handler(void * c, int argc, char * argv[]) {
    ENSURE(c == start, "cookie"); ++calls; ENSURE(argc == words, "one argument per word");
    for (int i = 0; i < argc; ++i) { ENSURE((int) strlen(argv[i]) == len[i] && !memcmp(argv[i], cmd + start[i], len[i]), "argument text"); }
    for (int i = 0; i < argc; ++i) argv[i][0] = '?';
    return rc;
}
VP_HARNESS(b_args) {
    L = nd_bool() ? nd_range(0, 65) : nd_range(0, 90); cmd = malloc(L + 1); cmd[L] = 0; uint32_t dens = nd_range(1, 8); bool in = false; words = calls = 0;
    for (int i = 0; i < L; ++i) {
        cmd[i] = nd_range(0, dens) == 0 ? " \t,"[nd_range(0, 2)] : (char) nd_range(1, 255);
        if (cmd[i] == ' ' || cmd[i] == '\t' || cmd[i] == ',') in = false;
        else { if (!in) { if (words < 64) { start[words] = i; len[words] = 0; } ++words; } in = true; if (words <= 64) ++len[words - 1]; }
    }
    char * copy = strdup(cmd); memset(&cli, 0, sizeof(cli)); cli.execute_args = handler; cli.execute_cookie = start; rc = (int) nd_range(0, 5) - 1;
    bool fits = L < 66, call = fits && words >= 1 && words <= 16; int r;
    if (nd_bool() || L >= 60 || memchr(cmd, '\n', L) || memchr(cmd, '\r', L)) {
        r = embc_cli_line_parser(&cli, cmd);
        ENSURE(calls == call && r == (call ? rc : fits && !words ? 0 : EMBC_CLI_ERROR_PARAMETER_VALUE), "status");
    }
    ENSURE(!strcmp(copy, cmd), "original line unmodified"); free(copy); free(cmd);
}
VP_MAIN(b_args)
