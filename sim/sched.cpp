#include "sched.hpp"

#include <errno.h>
#include <linux/futex.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <thread>

namespace sim {

namespace {
struct Thr {
  std::atomic<int> go{0};
  bool done = false;
};
struct Sched {
  SchedConfig cfg;
  Rng rng{1};
  std::vector<Thr> thr;
  int cur = -1;
  std::uint64_t points = 0, next = 0;
  std::size_t plan_i = 0;
  SchedResult res;
  Hash h;
  explicit Sched(std::size_t n) : thr(n) {}
};
Sched* g_s = nullptr;
thread_local int t_id = -1;
thread_local int t_noyield = 0;
thread_local int t_in = 0;
thread_local std::uint32_t t_block = 0;

void futex_wait(std::atomic<int>& a) {
  while (a.load(std::memory_order_acquire) == 0)
    ::syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a.store(0, std::memory_order_relaxed);
}
void futex_go(std::atomic<int>& a) {
  a.store(1, std::memory_order_release);
  ::syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

std::uint64_t gap(Sched& s) {
  const std::uint64_t m = s.cfg.mean_gap;
  return 1 + s.rng.below(2 * m);
}

int other(Sched& s, bool random) {
  int n = 0;
  for (std::size_t i = 0; i < s.thr.size(); ++i) n += !s.thr[i].done && static_cast<int>(i) != s.cur;
  if (!n) return -1;
  int k = random ? static_cast<int>(s.rng.below(static_cast<std::uint64_t>(n))) : 0;
  for (std::size_t j = 1; j <= s.thr.size(); ++j) {
    const std::size_t i = (static_cast<std::size_t>(s.cur) + j) % s.thr.size();
    if (s.thr[i].done || static_cast<int>(i) == s.cur) continue;
    if (k-- == 0) return static_cast<int>(i);
  }
  return -1;
}

void switch_to(Sched& s, int to, bool forced) {
  if (to < 0 || to == s.cur) return;
  if (!forced) s.res.made.push_back({s.points, to});
  s.h.u64(s.points);
  s.h.u64(static_cast<std::uint64_t>(to));
  const int me = s.cur;
  s.cur = to;
  futex_go(s.thr[static_cast<std::size_t>(to)].go);
  futex_wait(s.thr[static_cast<std::size_t>(me)].go);
}

void point(const char* where) {
  if (!g_s || t_id < 0 || t_noyield || t_in) return;
  ++t_in;
  {
    HarnessScope hs;
    Sched& s = *g_s;
    ++s.points;
    if (s.cfg.record) {
      Hash h;
      if (!t_block) h.str(where ? where : "");
      s.res.places.push_back(t_block ? t_block : static_cast<std::uint32_t>(h.h) | 0x80000000u);
    }
    if (where && where[0] == 'l' && where[1] == 'o' && where[2] == 'c') {
      switch_to(s, other(s, false), true);  // contended lock: somebody else has to run
    } else if (s.cfg.explicit_plan) {
      while (s.plan_i < s.cfg.plan.size() && s.cfg.plan[s.plan_i].at < s.points) ++s.plan_i;
      if (s.plan_i < s.cfg.plan.size() && s.cfg.plan[s.plan_i].at == s.points) {
        const int to = s.cfg.plan[s.plan_i++].to;
        if (to >= 0 && static_cast<std::size_t>(to) < s.thr.size() && !s.thr[static_cast<std::size_t>(to)].done)
          switch_to(s, to, false);
      }
    } else if (s.points >= s.next && s.res.made.size() < s.cfg.max_switches) {
      s.next = s.points + gap(s);
      switch_to(s, other(s, true), false);
    }
  }
  --t_in;
}
}  // namespace

bool g_sched_active() { return g_s != nullptr && t_id >= 0; }

SchedResult run_threads(const SchedConfig& cfg, const std::vector<std::function<void()>>& bodies) {
  Sched s(bodies.size());
  s.cfg = cfg;
  s.rng = Rng(cfg.seed);
  s.next = gap(s);
  std::vector<std::thread> ts;
  std::atomic<int> finished{0};
  g_s = &s;
  for (std::size_t i = 0; i < bodies.size(); ++i)
    ts.emplace_back([&, i] {
      futex_wait(s.thr[i].go);
      t_id = static_cast<int>(i);
      bodies[i]();
      t_id = -1;
      s.thr[i].done = true;
      const int to = other(s, false);
      s.h.u64(0xd0 + i);
      s.h.u64(s.points);
      if (to >= 0) {
        s.cur = to;
        futex_go(s.thr[static_cast<std::size_t>(to)].go);
      } else {
        futex_go(finished);
      }
    });
  g_sched_point = point;
  s.cur = 0;
  futex_go(s.thr[0].go);
  futex_wait(finished);
  for (auto& t : ts) t.join();
  g_s = nullptr;
  g_sched_point = nullptr;
  s.res.points = s.points;
  s.res.hash = s.h.h;
  return s.res;
}

// ---------------------------------------------------------------- basic-block instrumentation
namespace {
constexpr std::uint32_t kMaxEdges = 1 << 18;
std::uint8_t* g_cov = nullptr;
std::uint32_t g_edges = 0;
}  // namespace

void coverage_init() {
  if (!g_cov) {
    void* p = ::mmap(nullptr, kMaxEdges, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) ::abort();
    g_cov = static_cast<std::uint8_t*>(p);
  }
}
std::uint64_t coverage_edges_total() { return g_edges; }
std::uint64_t coverage_edges_hit() {
  std::uint64_t n = 0;
  if (g_cov)
    for (std::uint32_t i = 0; i < kMaxEdges; ++i) n += g_cov[i] != 0;
  return n;
}

}  // namespace sim

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) {
  if (a == b || *a) return;
  for (auto* x = a; x < b; ++x)
    if (sim::g_edges + 1 < sim::kMaxEdges) *x = ++sim::g_edges;
}
void __sanitizer_cov_trace_pc_guard(std::uint32_t* g) {
  if (sim::g_cov && !sim::g_cov[*g]) sim::g_cov[*g] = 1;
  if (sim::g_sched_point) {
    sim::t_block = *g;
    sim::g_sched_point("bb");
    sim::t_block = 0;
  }
}

// function-local static initialisation must not be interrupted: other threads would block in the real runtime
int __real___cxa_guard_acquire(void* g);
int __wrap___cxa_guard_acquire(void* g) {
  const int r = __real___cxa_guard_acquire(g);
  if (r) ++sim::t_noyield;
  return r;
}
void __real___cxa_guard_release(void* g);
void __wrap___cxa_guard_release(void* g) {
  __real___cxa_guard_release(g);
  --sim::t_noyield;
}
void __real___cxa_guard_abort(void* g);
void __wrap___cxa_guard_abort(void* g) {
  __real___cxa_guard_abort(g);
  --sim::t_noyield;
}
}
