static inline void vp_log_ext(int level, const char *format, ...) { (void) level; (void) format; }
