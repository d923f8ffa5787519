#pragma once
#include "koladata/data_slice.h"
namespace koladata {
template <typename T>
absl::StatusOr<T> ToArollaScalar(const DataSlice& x) {
  if (x.it.wide) return static_cast<T>(*x.it.wide);
  if (x.it.v) return static_cast<T>(*x.it.v);
  return absl::InvalidArgumentError("expected a present value");
}
}  // namespace koladata
