#include "vsched.h"

#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <mutex>
#include <semaphore>
#include <thread>
#include <vector>

namespace vs {
namespace {
std::string g_prop;
uint64_t g_seed, g_index;
std::atomic<uint64_t> g_switches{0};

struct Rng {
  uint64_t s = 1;
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return Next() % n; }
};

// A case that makes no progress for this long is stuck.
constexpr int kStuckSeconds = 90;
std::atomic<uint64_t> g_beat{0};
void StartWatchdog() {
  static bool once = [] {
    std::thread([] {
      uint64_t last = ~0ull;
      int same = 0;
      for (;;) {
        std::this_thread::sleep_for(std::chrono::seconds(1));
        uint64_t b = g_beat.load();
        same = b == last ? same + 1 : 0;
        last = b;
        if (same >= kStuckSeconds && b != 0) Fail("stuck: no progress");
      }
    }).detach();
    return true;
  }();
  (void)once;
}
}  // namespace

void SetCase(const std::string& prop, uint64_t seed, uint64_t index) {
  g_prop = prop;
  g_seed = seed;
  g_index = index;
  g_beat.fetch_add(1);
}

void Fail(const std::string& what) {
  static std::mutex* const mu = new std::mutex;
  mu->lock();  // never released: one report
  std::printf("VIOL prop=%s seed=%llu case=%llu %s\n", g_prop.c_str(), (unsigned long long)g_seed,
              (unsigned long long)g_index, what.c_str());
  std::fflush(stdout);
  _exit(3);
}
uint64_t Switches() { return g_switches.load(); }

#ifdef VS_CONTROLLED
// ------------------------------------------------------------- controlled
namespace {
struct Worker {
  std::binary_semaphore go{0};
  std::function<void()> fn;
  bool used = false, done = false;      // in this case
  const std::function<bool()>* wait = nullptr;
  const char* what = "";
  bool idle = false, quiet = false;
  uint64_t prio = 0;
};
std::vector<std::unique_ptr<Worker>> g_all;  // 0 is the main thread
size_t g_cur = 0;
bool g_active = false;
Rng g_rng;
uint64_t g_hash = 0;
int g_strategy = 0;       // 0 random, 1 priorities
uint64_t g_gap = 8;       // mean number of points between hand-overs
int64_t g_countdown = 0;  // points until the next decision
uint64_t g_changes = 0;
bool g_in = false;  // inside the scheduler, or where nothing may switch
thread_local Worker* tl_self = nullptr;

void NextCountdown() { g_countdown = 1 + g_rng.Below(2 * g_gap); }

bool Runnable(Worker& w) {
  if (!w.used || w.done) return false;
  if (!w.wait) return true;
  return (*w.wait)();
}

void Stuck() {
  std::string s = "nobody can go on:";
  for (size_t i = 0; i < g_all.size(); ++i) {
    auto& w = *g_all[i];
    if (w.used && !w.done) s += " thread" + std::to_string(i) + "[" + (w.wait ? w.what : "runs") + (w.idle ? ",idle" : "") + "]";
  }
  Fail(s);
}

// Picks the next thread to run; `may_stay` if the current one can go on.
size_t Pick(bool may_stay) {
  static std::vector<size_t> ready;
  ready.clear();
  for (size_t i = 0; i < g_all.size(); ++i) {
    if (i == g_cur ? may_stay : Runnable(*g_all[i])) ready.push_back(i);
  }
  if (ready.empty()) {
    bool stuck = false;
    size_t quiet = ~0ull;
    for (size_t i = 0; i < g_all.size(); ++i) {
      auto& w = *g_all[i];
      if (!w.used || w.done) continue;
      if (w.quiet) quiet = i;
      else if (!w.idle) stuck = true;
    }
    if (stuck || quiet == ~0ull) Stuck();
    return quiet;  // the quiet thread goes on: everybody else is idle
  }
  if (g_strategy == 0) return ready[g_rng.Below(ready.size())];
  size_t best = ready[0];
  for (size_t i : ready) if (g_all[i]->prio > g_all[best]->prio) best = i;
  return best;
}

void HandTo(size_t next) {
  if (next == g_cur) return;
  g_switches.fetch_add(1, std::memory_order_relaxed);
  g_hash = (g_hash ^ (next + 1 + 64 * static_cast<uint64_t>(g_countdown))) * 0x9E3779B97F4A7C15ull;
  Worker& self = *g_all[g_cur];
  Worker& w = *g_all[next];
  g_cur = next;
  const bool leaving = self.done;
  w.go.release();
  if (!leaving) self.go.acquire();
}

void Decide() {
  g_in = true;
  if (g_strategy == 1) {
    // A priority change point: the running thread falls to the bottom.
    if (g_changes > 0 && g_rng.Below(3) == 0) { g_all[g_cur]->prio = g_changes--; }
  }
  size_t next = Pick(true);
  NextCountdown();
  HandTo(next);
  g_in = false;
}

void Block(const std::function<bool()>& ready, const char* what, bool idle, bool quiet) {
  Worker& self = *tl_self;
  g_in = true;
  while (!ready()) {
    self.wait = &ready;
    self.what = what;
    self.idle = idle;
    self.quiet = quiet;
    size_t next = Pick(false);
    HandTo(next);
    self.wait = nullptr;
    self.idle = self.quiet = false;
    if (quiet) break;
  }
  g_in = false;
}

void Loop(Worker* self) {
  tl_self = self;
  for (;;) {
    tl_self->go.acquire();
    g_in = false;
    tl_self->fn();
    tl_self->fn = nullptr;
    g_in = true;
    tl_self->done = true;
    size_t next = Pick(false);
    HandTo(next);
  }
}
}  // namespace

bool ControlledBuild() { return true; }
void Point() {
  if (tl_self == nullptr || !g_active || g_in) return;
  g_countdown = 0;
  if (g_rng.Below(2)) Decide(); else NextCountdown();
}
void LockFlag(int* held) {
  if (tl_self == nullptr || !g_active) { *held = 1; return; }
  Point();
  if (*held) {
    if (g_in) Fail("lock taken where nothing may switch");
    const std::function<bool()> free = [held] { return *held == 0; };
    Block(free, "mutex", false, false);
  }
  *held = 1;
}
void UnlockFlag(int* held) {
  *held = 0;
  Point();
}
bool TryLockFlag(int* held) {
  if (*held) return false;
  *held = 1;
  return true;
}
void Begin(uint64_t seed) {
  StartWatchdog();
  if (g_all.empty()) g_all.push_back(std::make_unique<Worker>());
  tl_self = g_all[0].get();
  for (auto& w : g_all) { w->used = false; w->done = false; w->wait = nullptr; w->idle = w->quiet = false; }
  g_all[0]->used = true;
  g_cur = 0;
  g_rng.s = seed;
  g_hash = 0;
  static const uint64_t gaps[] = {2, 6, 20, 60, 200, 800};
  g_gap = gaps[g_rng.Below(6)];
  g_strategy = g_rng.Below(3) == 0;
  g_changes = 4 + g_rng.Below(8);
  g_all[0]->prio = 1000 + g_rng.Below(1000);
  NextCountdown();
  g_active = true;
}
void Spawn(std::function<void()> fn) {
  size_t id = 0;
  for (size_t i = 1; i < g_all.size() && !id; ++i) if (!g_all[i]->used) id = i;
  if (!id) {
    id = g_all.size();
    g_all.push_back(std::make_unique<Worker>());
    std::thread(Loop, g_all[id].get()).detach();
  }
  Worker& w = *g_all[id];
  w.fn = std::move(fn);
  w.used = true;
  w.done = false;
  w.prio = 1000 + g_rng.Below(1000);
  Point();
}
void Wait(const std::function<bool()>& ready, const char* what, bool idle) { Block(ready, what, idle, false); }
bool WaitQuiet(const std::function<bool()>& ready, const char* what) {
  Block(ready, what, false, true);
  return ready();
}
void End() {
  const std::function<bool()> ended = [] {
    for (size_t i = 1; i < g_all.size(); ++i) if (g_all[i]->used && !g_all[i]->done) return false;
    return true;
  };
  Block(ended, "end", false, false);
  g_active = false;
}
uint64_t ScheduleHash() { return g_hash; }
Critical::Critical() : was_(g_in) { g_in = true; }
Critical::~Critical() { g_in = was_; }
namespace {
uint32_t g_edges = 0;
uint64_t g_edges_seen = 0;
std::vector<bool>* g_seen = nullptr;
}  // namespace
uint64_t EdgesSeen() { return g_edges_seen; }
uint64_t EdgesAll() { return g_edges; }
}  // namespace vs

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* p = start; p < stop; ++p) *p = ++vs::g_edges;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  using namespace vs;
  if (*guard & 0x80000000u) {
  } else {
    ++g_edges_seen;
    *guard |= 0x80000000u;
  }
  if (tl_self == nullptr || !g_active || g_in) return;
  if (--g_countdown > 0) return;
  Decide();
}
namespace vs {
#else
// ------------------------------------------------------------------- free
namespace {
std::vector<std::thread> g_threads;
std::mutex g_threads_mu;
std::atomic<uint64_t> g_case_seed{0};
thread_local Rng tl_rng;
thread_local uint64_t tl_for = ~0ull;
std::atomic<uint64_t> g_tid{0};
int g_mode = 0;
}  // namespace
bool ControlledBuild() { return false; }
void Point() {
  const uint64_t c = g_case_seed.load(std::memory_order_relaxed);
  if (tl_for != c) {
    tl_for = c;
    tl_rng.s = c * 1000003 + g_tid.fetch_add(1, std::memory_order_relaxed);
  }
  const uint64_t r = tl_rng.Below(256);
  if (r < 16) {
    g_switches.fetch_add(1, std::memory_order_relaxed);
    std::this_thread::yield();
  } else if (r < 20) {
    g_switches.fetch_add(1, std::memory_order_relaxed);
    std::this_thread::sleep_for(std::chrono::microseconds(1 + tl_rng.Below(60)));
  } else if (r < 40) {
    for (uint64_t i = tl_rng.Below(400); i > 0; --i) asm volatile("" ::: "memory");
  }
}
void Begin(uint64_t seed) {
  StartWatchdog();
  g_case_seed.store(seed, std::memory_order_relaxed);
  g_tid.store(0, std::memory_order_relaxed);
}
void Spawn(std::function<void()> fn) {
  std::lock_guard<std::mutex> l(g_threads_mu);
  g_threads.emplace_back([fn = std::move(fn)]() mutable { Point(); fn(); fn = nullptr; });
}
void Wait(const std::function<bool()>& ready, const char*, bool) {
  for (int i = 0; !ready(); ++i) {
    if (i < 50) std::this_thread::yield();
    else std::this_thread::sleep_for(std::chrono::microseconds(i < 500 ? 20 : 500));
  }
}
bool WaitQuiet(const std::function<bool()>& ready, const char* what) { Wait(ready, what, false); return true; }
void End() {
  for (;;) {
    std::thread t;
    {
      std::lock_guard<std::mutex> l(g_threads_mu);
      if (g_threads.empty()) return;
      t = std::move(g_threads.back());
      g_threads.pop_back();
    }
    t.join();
  }
}
uint64_t ScheduleHash() { return 0; }
static std::recursive_mutex& CriticalMutex() {
  static auto* const m = new std::recursive_mutex;
  return *m;
}
Critical::Critical() : was_(false) { CriticalMutex().lock(); }
Critical::~Critical() { CriticalMutex().unlock(); }
uint64_t EdgesSeen() { return 0; }
uint64_t EdgesAll() { return 0; }
#endif
}  // namespace vs
