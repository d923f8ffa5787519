#pragma once
// Reaching an unreachable point is a crash.
#include <cstdlib>
#define ABSL_UNREACHABLE() ::std::abort()
