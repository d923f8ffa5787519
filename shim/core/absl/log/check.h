#pragma once
#include "absl/log/log.h"
#define CHECK(cond) \
  (cond) ? (void)0 : ::vshim::Voidify() & VSHIM_LOG_FATAL << "check failed: " #cond " "
#define CHECK_OP_(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define CHECK_OK(s) CHECK((s).ok())
#ifdef VSHIM_SOFT_DCHECK
// What a debug build would check, asked for case by case.
namespace vshim { inline bool dchecks = false; }
#define DCHECK(cond) CHECK(!::vshim::dchecks || (cond))
#define DCHECK_OP_(a, op, b) DCHECK((a) op (b))
#define DCHECK_EQ(a, b) DCHECK_OP_(a, ==, b)
#define DCHECK_NE(a, b) DCHECK_OP_(a, !=, b)
#define DCHECK_LT(a, b) DCHECK_OP_(a, <, b)
#define DCHECK_LE(a, b) DCHECK_OP_(a, <=, b)
#define DCHECK_GT(a, b) DCHECK_OP_(a, >, b)
#define DCHECK_GE(a, b) DCHECK_OP_(a, >=, b)
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#endif
#define DCHECK_OK CHECK_OK
