#pragma once
// A header-only absl::Status whose reference counting the race detector sees.
#include <any>
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
#include "absl/strings/str_cat.h"
#include "absl/base/attributes.h"
#include "absl/types/source_location.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5,
  kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14,
  kDataLoss = 15, kUnauthenticated = 16,
};
class Status {
 public:
  Status() = default;
  Status(StatusCode code, absl::string_view msg, SourceLocation = SourceLocation::current()) {
    if (code != StatusCode::kOk) rep_ = std::make_shared<const Rep>(Rep{code, std::string(msg), {}, nullptr});
  }
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : rep_(std::exchange(o.rep_, Moved())) {}
  Status& operator=(Status&& o) noexcept {
    if (this != &o) rep_ = std::exchange(o.rep_, Moved());
    return *this;
  }
  bool ok() const { return rep_ == nullptr; }
  StatusCode code() const { return rep_ ? rep_->code : StatusCode::kOk; }
  int raw_code() const { return static_cast<int>(code()); }
  absl::string_view message() const { return rep_ ? absl::string_view(rep_->msg) : absl::string_view(); }
  std::string ToString() const { return ok() ? "OK" : absl::StrCat(static_cast<int>(code()), ": ", message()); }
  void IgnoreError() const {}
  void Update(Status s) { if (ok()) *this = std::move(s); }
  friend bool operator==(const Status& a, const Status& b) {
    return a.code() == b.code() && a.message() == b.message();
  }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }

  // Access for arolla/util/status.h.
  const std::any* vshim_payload() const { return rep_ && rep_->payload.has_value() ? &rep_->payload : nullptr; }
  const Status* vshim_cause() const { return rep_ ? rep_->cause.get() : nullptr; }
  Status vshim_with_payload(std::any p) const { return rep_ ? Status(Rep{rep_->code, rep_->msg, std::move(p), rep_->cause}) : *this; }
  Status vshim_with_cause(Status c) const { return rep_ ? Status(Rep{rep_->code, rep_->msg, rep_->payload, std::make_shared<const Status>(std::move(c))}) : *this; }
  Status vshim_with_message(absl::string_view m) const { return rep_ ? Status(Rep{rep_->code, std::string(m), rep_->payload, rep_->cause}) : *this; }

 private:
  struct Rep { StatusCode code; std::string msg; std::any payload; std::shared_ptr<const Status> cause; };
  explicit Status(Rep r) : rep_(std::make_shared<const Rep>(std::move(r))) {}
  // As in Abseil, a moved-from status is an error.
  static std::shared_ptr<const Rep> Moved() {
    static const auto* const m = new std::shared_ptr<const Rep>(
        std::make_shared<const Rep>(Rep{StatusCode::kInternal, "Status accessed after move.", {}, nullptr}));
    return *m;
  }
  std::shared_ptr<const Rep> rep_;
};
inline Status OkStatus() { return Status(); }
#define VSHIM_ERR(Name, Code)                                                          \
  inline Status Name##Error(absl::string_view m) { return Status(StatusCode::Code, m); } \
  inline bool Is##Name(const Status& s) { return s.code() == StatusCode::Code; }
VSHIM_ERR(Cancelled, kCancelled)
VSHIM_ERR(Unknown, kUnknown)
VSHIM_ERR(InvalidArgument, kInvalidArgument)
VSHIM_ERR(DeadlineExceeded, kDeadlineExceeded)
VSHIM_ERR(NotFound, kNotFound)
VSHIM_ERR(AlreadyExists, kAlreadyExists)
VSHIM_ERR(FailedPrecondition, kFailedPrecondition)
VSHIM_ERR(Aborted, kAborted)
VSHIM_ERR(OutOfRange, kOutOfRange)
VSHIM_ERR(Unimplemented, kUnimplemented)
VSHIM_ERR(Internal, kInternal)
VSHIM_ERR(Unavailable, kUnavailable)
VSHIM_ERR(ResourceExhausted, kResourceExhausted)
#undef VSHIM_ERR
inline Status CancelledError() { return CancelledError(""); }
}  // namespace absl
