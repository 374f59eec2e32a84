#ifndef SIMHOOK_H
#define SIMHOOK_H
#include "runtime/runtime.h"
#include <stdint.h>
#include <stddef.h>
extern int64_t simhook_call(int64_t kind, int64_t a, int64_t b, int64_t c);
extern const char *simhook_getstr(int64_t kind, int64_t a, int64_t b, int64_t *len);
extern void simhook_put(int64_t kind, int64_t a, int64_t b, const char *s, int64_t len);
static inline GrayString simhook_str(int64_t kind, int64_t a, int64_t b) {
    int64_t n; const char *p = simhook_getstr(kind, a, b, &n); GrayString s; s.data = (char *)p; s.len = (int32_t)n; return s;
}
#endif
