#pragma once
// Scheduling of the threads of a driver. With VS_CONTROLLED exactly one thread
// runs at a time, every basic block of the instrumented code is a point where
// the next one may be picked, and a state in which nobody can go on is seen at
// once. Without it the threads are free, and points yield or sleep briefly.
#include <cstdint>
#include <functional>
#include <string>
namespace vs {
void Point();
#ifdef VS_CONTROLLED
void LockFlag(int* held);
void UnlockFlag(int* held);
bool TryLockFlag(int* held);
#endif

// Begins a case; the calling thread is its first thread.
void Begin(uint64_t seed);
// Starts a thread of the case.
void Spawn(std::function<void()> fn);
// Waits until `ready`; `what` names the wait if it never ends. A thread that
// waits with `idle` does not count as stuck.
void Wait(const std::function<bool()>& ready, const char* what, bool idle = false);
// Waits until `ready`, or until no other thread can go on (only under the
// controlled scheduler; elsewhere until `ready`).
bool WaitQuiet(const std::function<bool()>& ready, const char* what);
// Waits for all threads of the case to end.
void End();
// Reports a violation and ends the process.
[[noreturn]] void Fail(const std::string& what);
// Where the process is, for the report.
void SetCase(const std::string& prop, uint64_t seed, uint64_t index);
uint64_t Switches();       // hand-overs so far
uint64_t ScheduleHash();   // of the current case's hand-overs
uint64_t EdgesSeen();      // distinct basic-block edges of the code under test
uint64_t EdgesAll();
bool ControlledBuild();
// While it lives nothing else of the drivers' bookkeeping runs.
class Critical {
 public:
  Critical();
  ~Critical();
 private:
  bool was_;
};
}  // namespace vs
