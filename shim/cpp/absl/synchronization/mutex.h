#pragma once
// absl::Mutex with scheduling points. In a free run it is a std::mutex, so
// that the race detector sees it; under the controlled scheduler it is a flag
// that only the running thread looks at.
#include <mutex>
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "vsched.h"
namespace absl {
class ABSL_LOCKABLE Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(absl::ConstInitType) {}
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
#ifdef VS_CONTROLLED
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { vs::LockFlag(&held_); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { vs::UnlockFlag(&held_); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return vs::TryLockFlag(&held_); }
#else
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { vs::Point(); mu_.lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { mu_.unlock(); vs::Point(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return mu_.try_lock(); }
#endif
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { Lock(); }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}

 private:
#ifdef VS_CONTROLLED
  int held_ = 0;
#else
  std::mutex mu_;
#endif
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_.Lock(); }
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(*m) { m_.Lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_.Unlock(); }
  MutexLock(const MutexLock&) = delete;

 private:
  Mutex& m_;
};
using WriterMutexLock = MutexLock;
using ReaderMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  explicit ReleasableMutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->Lock(); }
  ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION() { if (m_) m_->Unlock(); }
  void Release() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
class CondVar;
}  // namespace absl
