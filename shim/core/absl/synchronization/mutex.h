#pragma once
#include <mutex>
#include <condition_variable>
#include "absl/base/config.h"
#include "absl/base/const_init.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void AssertHeld() const {}
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }

 private:
  std::mutex m_;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  explicit MutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  ~MutexLock() { m_.Unlock(); }

 private:
  Mutex& m_;
};
using ReaderMutexLock = MutexLock;
using WriterMutexLock = MutexLock;
ABSL_NAMESPACE_END
}  // namespace absl
