#pragma once
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
