/* C29: the name of every error code and log level, over all integers; every log macro passes its own level and message */
#include "vp.h"
#undef EMBC_LOG_PRINTF
static int g_level, g_logs; static const char * g_fmt; static const char * g_msg;
#define SECOND_(a, b, ...) b
#define EMBC_LOG_PRINTF(level, format, ...) do { g_level = (level); ++g_logs; g_fmt = (format); g_msg = (const char *) vp_first(__VA_ARGS__, 0); } while (0)
static inline const char * vp_first(const char * a, ...) { return a; }
#define EMBC_LOG_LEVEL LOG_AT
#ifndef LOG_AT
#define LOG_AT 10
#endif
#include "src/ec.c"
#include "src/log.c"
static bool same(const char * a, const char * b) { for (int i = 0; i < 60; ++i) { if (a[i] != b[i]) return false; if (!a[i]) return true; } return false; }
static const char * const NAMES[26] = {"SUCCESS", "UNSPECIFIED", "NOT_ENOUGH_MEMORY", "NOT_SUPPORTED", "IO", "PARAMETER_INVALID", "INVALID_RETURN_CONDITION", "INVALID_CONTEXT",
    "INVALID_MESSAGE_LENGTH", "MESSAGE_INTEGRITY", "SYNTAX_ERROR", "TIMED_OUT", "FULL", "EMPTY", "TOO_SMALL", "TOO_BIG", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSIONS", "BUSY", "UNAVAILABLE",
    "IN_USE", "CLOSED", "SEQUENCE", "ABORTED", "SYNCHRONIZATION"};
#define TXT(n, t) t,
static const char * const TEXTS[] = {EMBC_ERROR_CODES(TXT)};
VP_HARNESS(h_name) { int ec = (int) nd_u32(); const char * s = embc_error_code_name(ec); ENSURE(s != NULL && same(s, ec >= 0 && ec < 26 ? NAMES[ec] : "UNKNOWN"), "the name of exactly this code"); REACH(); }
VP_HARNESS(h_text) { int ec = (int) nd_u32(); const char * s = embc_error_code_description(ec); ENSURE(EMBC_ERROR_CODE_COUNT == 26 && s != NULL && same(s, ec >= 0 && ec < 26 ? TEXTS[ec] : "Unknown error"), "the description of exactly this code"); REACH(); }
#define V(n, v) ENSURE(EMBC_ERROR_##n == v, "error code value");
VP_HARNESS(h_values) {
    V(SUCCESS, 0) V(UNSPECIFIED, 1) V(NOT_ENOUGH_MEMORY, 2) V(NOT_SUPPORTED, 3) V(IO, 4) V(PARAMETER_INVALID, 5) V(INVALID_RETURN_CONDITION, 6) V(INVALID_CONTEXT, 7) V(INVALID_MESSAGE_LENGTH, 8) V(MESSAGE_INTEGRITY, 9)
    V(SYNTAX_ERROR, 10) V(TIMED_OUT, 11) V(FULL, 12) V(EMPTY, 13) V(TOO_SMALL, 14) V(TOO_BIG, 15) V(NOT_FOUND, 16) V(ALREADY_EXISTS, 17) V(PERMISSIONS, 18) V(BUSY, 19) V(UNAVAILABLE, 20) V(IN_USE, 21) V(CLOSED, 22)
    V(SEQUENCE, 23) V(ABORTED, 24) V(SYNCHRONIZATION, 25) ENSURE(EMBC_SUCCESS == 0, "success is 0"); REACH();
}
static const char * const LV[11] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL"};
VP_HARNESS(h_level) {
    uint32_t i = nd_range(0, 10); ENSURE(sizeof(embc_log_level_str) / sizeof(char *) == 11 && sizeof(embc_log_level_char) == 11, "one entry for each level");
    ENSURE(embc_log_level_str[i] != NULL && same(embc_log_level_str[i], LV[i]), "level name"); ENSURE(embc_log_level_char[i] == "!ACEWNIDDD."[i], "level character"); REACH();
}
#define M1(mac, lv) g_logs = 0; g_level = -7; mac("m"); ENSURE(lv <= LOG_AT ? g_logs == 1 && g_level == lv && g_msg[0] == 'm' && g_msg[1] == 0 && same(g_fmt, "%s") : g_logs == 0, "logged at its own level, when enabled");
#define M2(mac, lv) g_logs = 0; g_level = -7; mac("f %s %d", "q", 3); ENSURE(lv <= LOG_AT ? g_logs == 1 && g_level == lv && g_msg[0] == 'q' && same(g_fmt, "f %s %d") : g_logs == 0, "logged at its own level, when enabled");
#define M(mac, lv) M1(mac, lv) M2(mac, lv)
VP_HARNESS(h_macros) {
    M(EMBC_LOG_EMERGENCY, 0) M(EMBC_LOG_ALERT, 1) M(EMBC_LOG_CRITICAL, 2) M(EMBC_LOG_ERROR, 3) M(EMBC_LOG_ERR, 3) M(EMBC_LOGE, 3) M(EMBC_LOG_WARNING, 4) M(EMBC_LOG_WARN, 4) M(EMBC_LOGW, 4) M(EMBC_LOG_NOTICE, 5) M(EMBC_LOGN, 5)
    M(EMBC_LOG_INFO, 6) M(EMBC_LOGI, 6) M(EMBC_LOG_DEBUG1, 7) M(EMBC_LOG_DEBUG, 7) M(EMBC_LOG_DBG, 7) M(EMBC_LOGD, 7) M(EMBC_LOGD1, 7) M(EMBC_LOG_DEBUG2, 8) M(EMBC_LOGD2, 8) M(EMBC_LOG_DEBUG3, 9) M(EMBC_LOGD3, 9)
    int l = (int) nd_u32(), c = (int) nd_u32(); ENSURE(EMBC_LOG_LEVEL_CHECK(l, c) == (l <= c), "level check"); ENSURE(!EMBC_LOG_CHECK_STATIC(l) == !(l >= 0 && l <= LOG_AT && l <= 10), "static level check"); REACH();
}
static int g_h; static void handler(const char * f, ...) { (void) f; ++g_h; }
VP_HARNESS(h_handler) {
    g_h = 0; bool nul = nd_bool(); ENSURE(embc_log_initialize(handler) == 0, "installed"); embc_log_printf_("%d", 1); ENSURE(g_h == 1, "messages go to the installed handler");
    if (nul) ENSURE(embc_log_initialize(NULL) == 0, "removed"); else embc_log_finalize(); embc_log_printf_("%d", 1); ENSURE(g_h == 1, "no message after removal"); REACH();
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
