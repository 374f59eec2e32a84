// Calls a workload program makes into its scenario.
#include "hooks.h"
#include <cstring>
std::function<i64(i64, i64, i64, i64)> hook_call; std::function<std::string(i64, i64, i64)> hook_str; std::function<void(i64, i64, i64, const std::string &)> hook_put;
extern "C" {
i64 simhook_call(i64 k, i64 a, i64 b, i64 c) { return hook_call ? hook_call(k, a, b, c) : 0; }
const char *simhook_getstr(i64 k, i64 a, i64 b, i64 *len) { std::string s = hook_str ? hook_str(k, a, b) : ""; char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; *len = (i64)s.size(); return p; }
void simhook_put(i64 k, i64 a, i64 b, const char *s, i64 n) { std::string x; if (s && n > 0) { check_access(s, (size_t)n, false, "value handed to the scenario"); x.assign(s, (size_t)n); } if (hook_put) hook_put(k, a, b, x); }
}
