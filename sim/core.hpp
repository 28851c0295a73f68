// Core of the simulator: PRNG, scenarios, sessions (fault plans, clocks, counters), results.
#pragma once

#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG (xoshiro256**, seeded by splitmix64)
inline std::uint64_t splitmix(std::uint64_t& x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  std::uint64_t s[4];
  explicit Rng(std::uint64_t seed) {
    for (auto& i : s) i = splitmix(seed);
  }
  static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  std::uint64_t next() {
    const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  std::int64_t range(std::int64_t a, std::int64_t b) {  // inclusive
    return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // small values likely, large ones possible
  std::uint64_t skewed(std::uint64_t max) {
    if (max == 0) return 0;
    int bits = 1;
    while (bits < 63 && (std::uint64_t(1) << bits) <= max) ++bits;
    std::uint64_t m = std::uint64_t(1) << below(static_cast<std::uint64_t>(bits) + 1);
    return below(m < max + 1 ? m : max + 1);
  }
};

struct Hash {
  std::uint64_t h = 0xcbf29ce484222325ULL;
  void byte(std::uint8_t b) { h = (h ^ b) * 0x100000001b3ULL; }
  void u64(std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
  }
  void mem(const void* p, std::size_t n) {
    const auto* c = static_cast<const unsigned char*>(p);
    while (n >= 8) {
      std::uint64_t v;
      std::memcpy(&v, c, 8);
      u64(v);
      c += 8;
      n -= 8;
    }
    while (n--) byte(*c++);
  }
  void str(std::string_view s) { mem(s.data(), s.size()); u64(s.size()); }
};

// ---------------------------------------------------------------- scenario
struct Step {
  std::string name;
  std::vector<std::int64_t> a;
  std::int64_t arg(std::size_t i, std::int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Scenario {
  std::string prop;
  std::uint64_t seed = 0;
  std::map<std::string, std::int64_t> p;
  std::vector<Step> steps;
  std::vector<Step> faults;  // name=site, a = {index, kind, arg, sticky}
  std::int64_t get(const std::string& k, std::int64_t d = 0) const {
    auto it = p.find(k);
    return it == p.end() ? d : it->second;
  }
  std::string serialize() const;
  static bool parse(const std::string& text, Scenario* out);
  std::uint64_t shape_hash() const;
};

// ---------------------------------------------------------------- result
struct Violation : std::exception {
  std::string cls, msg;
  Violation(std::string c, std::string m) : cls(std::move(c)), msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

struct Stats {
  std::map<std::string, std::uint64_t> faults_fired;   // by site:kind
  std::map<std::string, std::uint64_t> probes;         // rare conditions reached
  std::uint64_t sim_ms = 0;                            // simulated media / clock time covered
  std::uint64_t steps = 0;                             // device / stream operations executed
  std::uint64_t switches = 0;                          // scheduler switches
  void merge(const Stats& o) {
    for (auto& [k, v] : o.faults_fired) faults_fired[k] += v;
    for (auto& [k, v] : o.probes) probes[k] += v;
    sim_ms += o.sim_ms; steps += o.steps; switches += o.switches;
  }
};

struct Outcome {
  bool violated = false;
  std::string cls, msg;
  std::uint64_t hash = 0;     // hash of everything observed in the run
  std::uint64_t state = 0;    // abstraction used to count distinct executions
  bool nontrivial = true;
  Stats st;
};

// ---------------------------------------------------------------- session: one simulated environment
struct Fault {
  std::int64_t kind = 0, arg = 0;
  bool sticky = false;
};

enum FaultKind : std::int64_t {
  kFail = 0,      // operation fails, nothing transferred
  kPartial = 1,   // arg permille of the bytes transferred, then failure
  kShort = 2,     // fewer bytes transferred, no failure (reads)
  kThrow = 3,     // the stream buffer throws
  kCorrupt = 4,
};

struct Session {
  std::string name;
  Hash trace;
  Stats st;
  std::map<std::string, std::map<std::uint64_t, Fault>> plan;     // one-shot by index
  std::map<std::string, std::pair<std::uint64_t, Fault>> sticky;  // from index on
  struct Site {
    const char* name = nullptr;
    std::uint64_t count = 0;
    bool planned = false;
  };
  std::array<Site, 24> sites{};
  std::uint64_t count_of(const char* site) const;
  std::uint64_t fired = 0;
  bool paused = false;  // no faults and no fault accounting (harness-side queries)

  std::uint64_t ops = 0, op_budget = 50'000'000;
  std::uint64_t bytes = 0, byte_budget = ~0ULL;

  std::int64_t quota = -1;  // >=0: the storage media accept this many more bytes and refuse any transfer beyond them whole

  // clock
  std::int64_t clock_ns = 1'600'000'000'000'000'000LL;
  std::int64_t clock_step_ns = 0;
  std::uint64_t clock_reads = 0;

  // allocator
  std::uint64_t alloc_count = 0;
  std::int64_t live_bytes = 0, live_blocks = 0, peak_bytes = 0;
  std::int64_t alloc_cap = 0;  // 0: none; exceeding marks over_cap and fails the allocation
  bool over_cap = false;
  std::uint64_t over_cap_request = 0;
  std::uint8_t fill = 0xA5;

  // spool files
  std::string spool_dir;
  std::uint64_t spool_seq = 0;
  int spool_open = 0;                      // fds handed out and not yet closed
  std::set<std::string> spool_created;     // paths
  bool spool_sparse = false;
  std::int64_t spool_bufsize = -1;         // -1: libc default
  std::vector<void*> spool_devs;

  void add_faults(const std::vector<Step>& fs, const std::string& prefix = "");
  // called at each operation of a site; returns true and fills f if a fault fires
  bool fault(const char* site, Fault* f);
  void op(std::uint64_t nbytes = 0);  // accounts a device operation; ends the process on budget overrun
};

extern thread_local Session* t_sess;     // session of this thread (nullptr: real world)
extern thread_local int t_lib;           // >0: executing library code (allocations are accounted)

struct SessScope {
  Session* old;
  explicit SessScope(Session* s) : old(t_sess) { t_sess = s; }
  ~SessScope() { t_sess = old; }
};
struct LibScope {
  int old;
  LibScope() : old(t_lib) { t_lib = 1; }
  ~LibScope() { t_lib = old; }
};
struct HarnessScope {
  int old;
  HarnessScope() : old(t_lib) { t_lib = 0; }
  ~HarnessScope() { t_lib = old; }
};

// The machine around the library: its time zone, the program's C++ locale and log level. Bit 0: east of Greenwich by 5:30, bit 1: west
// by 11 with summer time, bit 2: a locale that groups digits and writes a decimal comma;
// bit 3: every message of the library's log is asked for.
struct HostEnv {
  explicit HostEnv(std::int64_t kind);
  ~HostEnv();
  HostEnv(const HostEnv&) = delete;
  HostEnv& operator=(const HostEnv&) = delete;

 private:
  std::int64_t k;
};

// scheduler hook: called at every seam operation; no-op when no scheduler is installed
void sched_point(const char* where);
extern void (*g_sched_point)(const char*);

[[noreturn]] void die_hang(const char* why);   // deterministic "does not terminate" verdict

template <class F>
bool lib_call(F&& f, std::string* err = nullptr) {
  // runs f as library code; returns true on normal return, false when it reported an error by std::exception
  LibScope l;
  try {
    f();
    return true;
  } catch (const Violation&) {
    throw;
  } catch (const std::exception& e) {
    HarnessScope h;
    if (err) *err = e.what();
    return false;
  }
}

// payload generators -------------------------------------------------------------------------------------
inline std::uint8_t payload_byte(std::uint64_t seed, std::uint64_t i) {
  std::uint64_t x = seed * 0x9e3779b97f4a7c15ULL + (i >> 3) * 0xd1342543de82ef95ULL;
  x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 29;
  return static_cast<std::uint8_t>(x >> ((i & 7) * 8));
}
std::vector<std::uint8_t> payload(std::uint64_t seed, std::size_t n);

std::string fmt_str(const char* f, ...) __attribute__((format(printf, 1, 2)));

// engines ------------------------------------------------------------------------------------------------
struct Engine {
  const char* id;
  std::function<Scenario(std::uint64_t seed, int tier, std::uint64_t index)> gen;
  std::function<void(Scenario&, Rng&)> plan;   // optional: places faults with the help of a fault-free rehearsal
  std::function<Outcome(const Scenario&)> run;
  std::uint64_t quick_runs, thorough_runs;
  const char* rule;
  std::vector<const char*> real, stub;
  std::vector<const char*> must_probe;   // probes that must be non-zero (reported)
  std::vector<const char*> assumptions;
  unsigned group = 16;                   // runs per process
  double cpu_limit = 20;                 // CPU seconds one run may take
};
std::vector<Engine>& engines();

const std::string& scratch_dir();   // per-process scratch directory (created on demand, removed at exit)

}  // namespace sim
