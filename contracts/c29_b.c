#include "vp.h"
#undef EMBC_LOG_PRINTF
#define EMBC_LOG_LEVEL 10
#define __FILENAME__ "file.c"
#include "embc/log.h"
static char g[200]; static void pr(const char * f, ...) { va_list a; va_start(a, f); vsnprintf(g, sizeof(g), f, a); va_end(a); }
#define T(mac, c) g[0] = 0; line = __LINE__; mac("text %d %s", v, "z"); snprintf(w, sizeof(w), c " file.c:%d: text %d z\n", line, v); ENSURE(0 == strcmp(g, w), "line"); \
    g[0] = 0; line = __LINE__; mac("100%d"); snprintf(w, sizeof(w), c " file.c:%d: 100%%d\n", line); ENSURE(0 == strcmp(g, w), "message text is not a format");
VP_HARNESS(b_log) {
    embc_log_initialize(pr); char w[200]; int line, v = (int) nd_u32();
    T(EMBC_LOG_EMERGENCY, "!") T(EMBC_LOG_ALERT, "A") T(EMBC_LOG_CRITICAL, "C") T(EMBC_LOGE, "E") T(EMBC_LOGW, "W") T(EMBC_LOGN, "N") T(EMBC_LOGI, "I") T(EMBC_LOGD1, "D") T(EMBC_LOGD2, "D") T(EMBC_LOGD3, "D")
    embc_log_initialize(0); g[0] = 0; EMBC_LOGE("x"); ENSURE(g[0] == 0, "no handler"); embc_log_finalize();
}
VP_MAIN(b_log)
