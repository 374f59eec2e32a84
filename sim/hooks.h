#pragma once
#include "sim.h"
extern std::function<i64(i64, i64, i64, i64)> hook_call; extern std::function<std::string(i64, i64, i64)> hook_str; extern std::function<void(i64, i64, i64, const std::string &)> hook_put;
