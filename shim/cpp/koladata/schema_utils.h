#pragma once
#include "koladata/data_slice.h"
namespace koladata {
inline absl::Status ExpectPresentScalar(absl::string_view name, const DataSlice& x, schema::DType t) {
  if (!x.is_item() || !x.item().has_value() || x.GetSchemaImpl() != t) return absl::InvalidArgumentError(absl::StrCat("argument `", name, "` must be a present item"));
  return absl::OkStatus();
}
inline absl::Status ExpectInteger(absl::string_view name, const DataSlice& x) {
  if (x.GetSchemaImpl() != schema::kInt32 && x.GetSchemaImpl() != schema::kInt64) return absl::InvalidArgumentError(absl::StrCat("argument `", name, "` must be integer"));
  return absl::OkStatus();
}
}  // namespace koladata
