#include "core.hpp"

#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>
#include <ctime>
#include <locale>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim {

thread_local Session* t_sess = nullptr;
thread_local int t_lib = 0;
void (*g_sched_point)(const char*) = nullptr;

void sched_point(const char* where) {
  if (g_sched_point) g_sched_point(where);
}

void die_hang(const char* why) {
  std::fprintf(stderr, "SIMHANG %s\n", why);
  std::fflush(stderr);
  _exit(77);
}

std::string fmt_str(const char* f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  std::vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

std::vector<std::uint8_t> payload(std::uint64_t seed, std::size_t n) {
  std::vector<std::uint8_t> v(n);
  for (std::size_t i = 0; i < n; ++i) v[i] = payload_byte(seed, i);
  return v;
}

std::string Scenario::serialize() const {
  std::ostringstream o;
  o << "scenario " << prop << " " << seed << "\n";
  for (auto& [k, v] : p) o << "param " << k << " " << v << "\n";
  for (auto& s : steps) {
    o << "step " << s.name;
    for (auto x : s.a) o << " " << x;
    o << "\n";
  }
  for (auto& s : faults) {
    o << "fault " << s.name;
    for (auto x : s.a) o << " " << x;
    o << "\n";
  }
  return o.str();
}

bool Scenario::parse(const std::string& text, Scenario* out) {
  *out = {};
  std::istringstream in(text);
  std::string line;
  bool ok = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string kw;
    l >> kw;
    if (kw == "scenario") {
      l >> out->prop >> out->seed;
      ok = true;
    } else if (kw == "param") {
      std::string k;
      std::int64_t v;
      if (l >> k >> v) out->p[k] = v;
    } else if (kw == "step" || kw == "fault") {
      Step s;
      l >> s.name;
      std::int64_t v;
      while (l >> v) s.a.push_back(v);
      (kw == "step" ? out->steps : out->faults).push_back(s);
    } else {
      return false;
    }
  }
  return ok;
}

std::uint64_t Scenario::shape_hash() const {
  Hash h;
  h.str(serialize());
  return h.h;
}

void Session::add_faults(const std::vector<Step>& fs, const std::string& prefix) {
  for (auto& f : fs) {
    std::string site = f.name;
    if (!prefix.empty()) {
      if (site.rfind(prefix, 0) != 0) continue;
      site = site.substr(prefix.size());
    }
    Fault x{f.arg(1), f.arg(2), f.arg(3) != 0};
    const auto idx = static_cast<std::uint64_t>(f.arg(0));
    if (x.sticky) {
      auto it = sticky.find(site);
      if (it == sticky.end() || it->second.first > idx) sticky[site] = {idx, x};
    } else {
      plan[site][idx] = x;
    }
  }
  for (auto& x : sites)
    if (x.name) x.planned = plan.count(x.name) || sticky.count(x.name);
}

bool Session::fault(const char* site, Fault* f) {
  if (paused) return false;
  Site* e = nullptr;
  for (auto& x : sites) {
    if (x.name == site || (x.name && std::strcmp(x.name, site) == 0)) {
      e = &x;
      break;
    }
    if (!x.name) {
      HarnessScope h;
      x.name = site;
      x.planned = plan.count(site) || sticky.count(site);
      e = &x;
      break;
    }
  }
  if (!e) return false;
  const std::uint64_t i = e->count++;
  if (!e->planned) return false;
  HarnessScope h;
  bool hit = false;
  auto pi = plan.find(site);
  if (pi != plan.end()) {
    auto it = pi->second.find(i);
    if (it != pi->second.end()) {
      *f = it->second;
      hit = true;
    }
  }
  if (!hit) {
    auto si = sticky.find(site);
    if (si != sticky.end() && i >= si->second.first) {
      *f = si->second.second;
      hit = true;
    }
  }
  if (hit) {
    ++fired;
    st.faults_fired[std::string(site) + "/" + (f->kind == kFail ? "fail" : f->kind == kPartial ? "partial" : f->kind == kShort ? "short" : f->kind == kThrow ? "throw" : "corrupt") + (f->sticky ? "/persistent" : "")]++;
    trace.u64(0xFA17);
    trace.u64(i);
  }
  return hit;
}

std::uint64_t Session::count_of(const char* site) const {
  for (auto& x : sites)
    if (x.name && std::strcmp(x.name, site) == 0) return x.count;
  return 0;
}

void Session::op(std::uint64_t nbytes) {
  ++ops;
  ++st.steps;
  bytes += nbytes;
  if (ops > op_budget) die_hang("operation budget exceeded");
  if (bytes > byte_budget) die_hang("byte budget exceeded");
}

std::vector<Engine>& engines() {
  static std::vector<Engine> e;
  return e;
}

namespace {
struct Grouping : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
}  // namespace

static std::vector<spdlog::sink_ptr>& kept() {
  static std::vector<spdlog::sink_ptr> v;
  return v;
}
static spdlog::level::level_enum& kept_level() {
  static spdlog::level::level_enum l;
  return l;
}

HostEnv::HostEnv(std::int64_t kind) : k(kind) {
  HarnessScope hs;
  if (k & 3) {
    ::setenv("TZ", k & 1 ? "SIM-05:30" : "SIM+11SIS", 1);
    ::tzset();
  }
  if (k & 4) {
    static const std::locale grouped(std::locale::classic(), new Grouping);
    std::locale::global(grouped);
  }
  if (k & 8) {
    static const auto nowhere = std::make_shared<spdlog::sinks::null_sink_st>();
    auto* l = spdlog::default_logger_raw();
    kept() = l->sinks();
    l->sinks().assign(1, nowhere);
    kept_level() = l->level();
    spdlog::set_level(spdlog::level::trace);
  }
}
HostEnv::~HostEnv() {
  HarnessScope hs;
  if (k & 3) {
    ::unsetenv("TZ");
    ::tzset();
  }
  if (k & 4) std::locale::global(std::locale::classic());
  if (k & 8) {
    spdlog::default_logger_raw()->sinks() = kept();
    spdlog::set_level(kept_level());
  }
}

namespace {
struct Scratch {
  std::string path;
  pid_t owner = 0;
};
Scratch& scratch() {
  static Scratch s;
  return s;
}
}  // namespace

const std::string& scratch_dir() {
  auto& s = scratch();
  if (s.path.empty() || s.owner != getpid()) {
    const char* base = std::getenv("SIM_SCRATCH");
    s.path = std::string(base ? base : "/tmp") + "/p" + std::to_string(getpid());
    s.owner = getpid();
    ::mkdir(s.path.c_str(), 0700);
  }
  return s.path;
}

}  // namespace sim
