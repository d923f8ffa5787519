#pragma once
#include "absl/status/status_matchers.h"
