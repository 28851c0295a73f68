// Driver: batches of seeded simulated runs in forked children, reproduction gate, minimisation, replay, evidence.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unordered_set>

#include "core.hpp"
#include "device.hpp"
#include "sched.hpp"

namespace sim {
void warm_up();  // initialises everything in the library that is initialised once per process
}

namespace {
using namespace sim;

double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::string g_verif, g_root, g_scratch;
int g_tier = 0;
std::uint64_t g_vseed = 1;

std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  std::uint64_t x = a * 0x9e3779b97f4a7c15ULL + b;
  splitmix(x);
  return splitmix(x);
}

std::uint64_t run_seed(const Engine& e, std::uint64_t index) {
  Hash h;
  h.str(e.id);
  return mix(mix(g_vseed, h.h), index) >> 1;
}

Scenario base_scenario(const Engine& e, std::uint64_t index) {
  const auto seed = run_seed(e, index);
  Scenario s = e.gen(seed, g_tier, index);
  s.prop = e.id;
  s.seed = seed;
  return s;
}

void plan_scenario(const Engine& e, Scenario& s) {
  if (!e.plan) return;
  Rng r(mix(s.seed, 0xFA17));
  e.plan(s, r);
}

// ------------------------------------------------------------------------------------------ child processes
std::string hex(const std::string& s) {
  static const char d[] = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o.push_back(d[c >> 4]);
    o.push_back(d[c & 15]);
  }
  return o.empty() ? "-" : o;
}
std::string unhex(const std::string& s) {
  if (s == "-") return {};
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  std::string o;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) o.push_back(static_cast<char>(v(s[i]) << 4 | v(s[i + 1])));
  return o;
}

void put(int fd, const std::string& s) {
  std::size_t n = 0;
  while (n < s.size()) {
    const ssize_t r = ::write(fd, s.data() + n, s.size() - n);
    if (r <= 0) _exit(3);
    n += static_cast<std::size_t>(r);
  }
}

void on_prof(int) {
  static const char m[] = "SIMHANG cpu limit exceeded\n";
  (void)!::write(2, m, sizeof m - 1);
  _exit(77);
}

void arm(double limit) {
  struct itimerval t {};
  t.it_value.tv_sec = static_cast<time_t>(limit);
  t.it_value.tv_usec = static_cast<suseconds_t>((limit - std::floor(limit)) * 1e6);
  ::setitimer(ITIMER_PROF, &t, nullptr);
}

struct Child {
  pid_t pid = -1;
  int fd = -1;
  std::string err_path, buf;
  std::uint64_t group = 0;
  double started = 0;
};

Child spawn(const std::function<void(int fd)>& body) {
  static int serial = 0;
  Child c;
  int p[2];
  if (::pipe(p)) {
    std::perror("pipe");
    std::exit(2);
  }
  c.err_path = g_scratch + "/err" + std::to_string(serial++);
  std::fflush(stdout);
  std::fflush(stderr);
  c.pid = ::fork();
  if (c.pid < 0) {
    std::perror("fork");
    std::exit(2);
  }
  if (c.pid == 0) {
    ::close(p[0]);
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int e = ::open(c.err_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    ::dup2(e, 2);
    const int nul = ::open("/dev/null", O_RDWR);
    ::dup2(nul, 0);
    ::dup2(nul, 1);
    ::signal(SIGPROF, on_prof);
    struct rlimit rl {0, 0};
    ::setrlimit(RLIMIT_CORE, &rl);
    body(p[1]);
    ::close(p[1]);
    {
      const auto& d = scratch_dir();
      clear_dir(d);
      ::rmdir(d.c_str());
    }
    _exit(0);
  }
  ::close(p[1]);
  c.fd = p[0];
  c.started = now_s();
  return c;
}

std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

// verdict about a child that did not end by itself
void classify_death(int status, const std::string& err, std::string* cls, std::string* msg) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
    *cls = "hang";
    const auto p = err.find("SIMHANG");
    *msg = p == std::string::npos ? "does not terminate" : err.substr(p, err.find('\n', p) - p);
    return;
  }
  auto p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += 25;
    std::string kind = err.substr(p, err.find_first_of(" \n", p) - p);
    if (kind == "attempting") kind = err.substr(p, err.find_first_of(":\n", p) - p).find("double") != std::string::npos ? "double-free" : "bad-free";
    while (!kind.empty() && kind.back() == ':') kind.pop_back();
    *cls = "crash/" + kind;
    // first frames inside the library
    std::string fr;
    std::size_t q = p, n = 0;
    while ((q = err.find("\n    #", q)) != std::string::npos && n < 40) {
      const auto e = err.find('\n', q + 1);
      const std::string line = err.substr(q + 5, e - q - 5);
      if (line.find("shiguredo") != std::string::npos) {
        const auto in = line.find(" in ");
        fr = in == std::string::npos ? line : line.substr(in + 4);
        break;
      }
      ++q;
      ++n;
    }
    *msg = kind + (fr.empty() ? "" : " in " + fr.substr(0, 300));
    return;
  }
  if (WIFSIGNALED(status)) {
    *cls = "crash/signal" + std::to_string(WTERMSIG(status));
    *msg = "killed by signal " + std::to_string(WTERMSIG(status));
    const auto t = err.find("terminate called");
    if (t != std::string::npos) *msg += ": " + err.substr(t, 200);
    if (WTERMSIG(status) == SIGKILL) *cls = "killed";
    for (auto& ch : *msg)
      if (ch == '\n') ch = ' ';
    return;
  }
  *cls = "crash/exit" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
  *msg = "process ended by itself; stderr: " + err.substr(0, 300);
  for (auto& ch : *msg)
    if (ch == '\n') ch = ' ';
}

struct Verdict {
  bool violated = false;
  std::string cls, msg;
  std::uint64_t hash = 0;
  bool error = false;  // harness trouble (killed from outside ...)
  std::vector<Step> sched;  // switches made (for replay)
};

// the spool's name has a random tail, and its directory differs from process to process: neither belongs to the outcome
void mask_paths(std::string* m) {
  const std::string d = scratch_dir();
  for (std::size_t p = 0; !d.empty() && (p = m->find(d, p)) != std::string::npos;) {
    std::size_t q = p + d.size();
    while (q < m->size() && (std::isalnum(static_cast<unsigned char>((*m)[q])) || std::strchr("/_-.", (*m)[q]))) ++q;
    m->replace(p, q - p, "<spool>");
  }
}

Outcome guarded_run(const Engine& e, const Scenario& s) {
  arm(e.cpu_limit);
  Outcome o;
  try {
    o = e.run(s);
  } catch (const Violation& v) {
    o.violated = true;
    o.cls = v.cls;
    o.msg = v.msg;
  } catch (const std::exception& x) {
    o.violated = true;
    o.cls = "exception";
    o.msg = std::string("exception outside a reporting call: ") + x.what();
  }
  if (o.violated) {
    mask_paths(&o.msg);
    Hash h;
    h.str(o.cls);
    h.str(o.msg);
    o.hash = h.h;
  }
  arm(0);
  t_sess = nullptr;
  t_lib = 0;
  clear_dir(scratch_dir());
  return o;
}

// runs the scenarios in order in one fresh process; the verdict is the last one's
Verdict execute(const Engine& e, const std::vector<Scenario>& v) {
  Child c = spawn([&](int fd) {
    scratch_dir();
    for (std::size_t i = 0; i < v.size(); ++i) {
      const bool last = i + 1 == v.size();
      if (last) put(fd, "B\n");
      Outcome o = guarded_run(e, v[i]);
      if (last) put(fd, "R " + std::to_string(o.hash) + " " + (o.violated ? "1 " : "0 ") + hex(o.cls) + " " + hex(o.msg) + "\n");
    }
  });
  std::string all;
  char b[65536];
  for (;;) {
    const ssize_t r = ::read(c.fd, b, sizeof b);
    if (r <= 0) break;
    all.append(b, static_cast<std::size_t>(r));
  }
  ::close(c.fd);
  int st = 0;
  ::waitpid(c.pid, &st, 0);
  const std::string err = slurp(c.err_path);
  ::unlink(c.err_path.c_str());
  Verdict o;
  const auto p = all.find("R ");
  if (p != std::string::npos && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::istringstream in(all.substr(p + 2));
    std::string ch, mh;
    int viol;
    in >> o.hash >> viol >> ch >> mh;
    o.violated = viol;
    o.cls = unhex(ch);
    o.msg = unhex(mh);
  } else if (all.find("B\n") != std::string::npos) {
    o.violated = true;
    classify_death(st, err, &o.cls, &o.msg);
    o.error = o.cls == "killed";
    Hash h;
    h.str(o.cls);
    o.hash = h.h;
  } else {
    o.error = true;
    o.msg = "prelude did not survive";
  }
  // left-over scratch of a dead child
  const std::string sd = g_scratch + "/p" + std::to_string(c.pid);
  clear_dir(sd);
  ::rmdir(sd.c_str());
  return o;
}

// ------------------------------------------------------------------------------------------ minimisation
struct Minimiser {
  const Engine& e;
  std::vector<Scenario> v;  // prelude + failing scenario
  std::string cls;
  unsigned left = 500;
  double deadline;
  unsigned execs = 0;

  bool fails(const std::vector<Scenario>& c) {
    if (!left || now_s() > deadline) return false;
    --left;
    ++execs;
    const Verdict r = execute(e, c);
    return r.violated && !r.error && r.cls == cls;
  }
  bool try_last(const Scenario& s) {
    auto c = v;
    c.back() = s;
    if (!fails(c)) return false;
    v = std::move(c);
    return true;
  }
  template <class Get>
  bool ddmin(Get get) {
    bool any = false;
    std::size_t n = 2;
    for (;;) {
      auto list = get(v.back());
      if (list->empty()) break;
      const std::size_t sz = list->size();
      n = std::min(n, sz);
      bool hit = false;
      const std::size_t chunk = (sz + n - 1) / n;
      for (std::size_t i = 0; i < sz; i += chunk) {
        Scenario s = v.back();
        auto* l = get(s);
        l->erase(l->begin() + static_cast<std::ptrdiff_t>(i), l->begin() + static_cast<std::ptrdiff_t>(std::min(sz, i + chunk)));
        if (try_last(s)) {
          hit = any = true;
          break;
        }
        if (!left || now_s() > deadline) return any;
      }
      if (hit) {
        n = std::max<std::size_t>(n - 1, 2);
        if (get(v.back())->size() < 1) break;
        continue;
      }
      if (n >= sz) break;
      n = std::min(sz, n * 2);
    }
    return any;
  }
  void run() {
    if (v.size() > 1) {
      std::vector<Scenario> alone{v.back()};
      if (fails(alone)) v = alone;
      for (std::size_t i = 0; v.size() > 1 && i + 1 < v.size();) {
        auto c = v;
        c.erase(c.begin() + static_cast<std::ptrdiff_t>(i));
        if (fails(c)) v = c;
        else ++i;
      }
    }
    auto steps = [](Scenario& s) { return &s.steps; };
    auto faults = [](Scenario& s) { return &s.faults; };
    for (int round = 0; round < 3; ++round) {
      bool any = false;
      any |= ddmin(faults);
      any |= ddmin(steps);
      // parameters: drop
      for (auto& [k, x] : std::map<std::string, std::int64_t>(v.back().p)) {
        Scenario s = v.back();
        s.p.erase(k);
        any |= try_last(s);
      }
      // numbers: towards zero
      auto shrink = [&](auto ref) {
        for (int t = 0; t < 12; ++t) {
          const std::int64_t x = *ref(v.back());
          if (x == 0) return;
          bool ok = false;
          for (std::int64_t y : {std::int64_t(0), x / 2, x - (x > 0 ? 1 : -1)}) {
            if (y == x) continue;
            Scenario s = v.back();
            *ref(s) = y;
            if (try_last(s)) {
              ok = any = true;
              break;
            }
          }
          if (!ok) return;
          if (!left || now_s() > deadline) return;
        }
      };
      for (std::size_t i = 0; i < v.back().steps.size(); ++i)
        for (std::size_t j = 1; j < v.back().steps[i].a.size(); ++j) shrink([&](Scenario& s) { return &s.steps[i].a[j]; });
      for (std::size_t i = 0; i < v.back().faults.size(); ++i)
        for (std::size_t j = 0; j < v.back().faults[i].a.size(); ++j) shrink([&](Scenario& s) { return &s.faults[i].a[j]; });
      if (!any || !left || now_s() > deadline) break;
    }
  }
};

std::string replay_text(const std::vector<Scenario>& v, const Verdict& r) {
  std::string o = "# class " + r.cls + "\n# message " + r.msg + "\n# hash " + std::to_string(r.hash) + "\n";
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (i) o += "---\n";
    o += v[i].serialize();
  }
  return o;
}

const Engine* find(const std::string& id) {
  for (auto& e : engines())
    if (id == e.id) return &e;
  return nullptr;
}

void set_up() {
  if (g_scratch.empty()) {
    std::string t = "/tmp/simXXXXXX";
    if (!::mkdtemp(t.data())) {
      std::perror("mkdtemp");
      std::exit(2);
    }
    g_scratch = t;
    ::setenv("SIM_SCRATCH", t.c_str(), 1);
  }
  coverage_init();
  install_console();
  pattern(0);
  // a change may break even the warm-up: try it in a child first
  Child c = spawn([&](int) {
    arm(30);
    warm_up();
  });
  ::close(c.fd);
  int st = 0;
  ::waitpid(c.pid, &st, 0);
  ::unlink(c.err_path.c_str());
  if (st == 0) {
    warm_up();
    const std::string d = scratch_dir();
    clear_dir(d);
    ::rmdir(d.c_str());
  } else {
    const std::string sd = g_scratch + "/p" + std::to_string(c.pid);
    clear_dir(sd);
    ::rmdir(sd.c_str());
  }
}
void tear_down() {
  for (auto& f : list_dir(g_scratch)) {
    const std::string p = g_scratch + "/" + f;
    clear_dir(p);
    ::rmdir(p.c_str());
  }
  clear_dir(g_scratch);
  ::rmdir(g_scratch.c_str());
}

std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o.push_back('\\');
      o.push_back(static_cast<char>(c));
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      o += fmt_str("\\u%04x", c);
    } else {
      o.push_back(static_cast<char>(c));
    }
  }
  return o + "\"";
}
template <class M>
std::string json_map(const M& m) {
  std::string o = "{";
  bool first = true;
  for (auto& [k, v] : m) {
    if (!first) o += ", ";
    first = false;
    o += json_str(k) + ": " + std::to_string(v);
  }
  return o + "}";
}
template <class V>
std::string json_list(const V& v) {
  std::string o = "[";
  bool first = true;
  for (auto& x : v) {
    if (!first) o += ", ";
    first = false;
    o += json_str(x);
  }
  return o + "]";
}

struct Known {
  std::string cls, contains, text;
  std::uint64_t hits = 0;
};

std::vector<Known> load_known(const std::string& prop) {
  std::vector<Known> v;
  std::ifstream f(g_verif + "/known_findings.txt");
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("known: property=" + prop + " ", 0) != 0) continue;
    Known k;
    std::istringstream in(line.substr(line.find(' ', 7) + 1));
    std::string w;
    in >> w;
    if (w.rfind("class=", 0) == 0) k.cls = w.substr(6);
    in >> w;
    if (w.rfind("match=", 0) == 0) k.contains = w.substr(6);
    for (auto& c : k.contains)
      if (c == '~') c = ' ';
    std::getline(in, k.text);
    v.push_back(k);
  }
  return v;
}

int check(const std::string& prop) {
  const Engine* ep = find(prop);
  if (!ep) {
    std::fprintf(stderr, "no engine for %s\n", prop.c_str());
    return 2;
  }
  const Engine& e = *ep;
  const double t0 = now_s();
  set_up();
  auto env_num = [](const char* n, double d) {
    const char* v = std::getenv(n);
    return v ? std::atof(v) : d;
  };
  const double cap = env_num("SIM_CAP_S", g_tier ? 900 : 60);
  const std::uint64_t quota = static_cast<std::uint64_t>(env_num("SIM_RUNS", static_cast<double>(g_tier ? e.thorough_runs : e.quick_runs)));
  const unsigned workers = static_cast<unsigned>(env_num("SIM_WORKERS", 8));
  const std::uint64_t G = e.group, groups = (quota + G - 1) / G;
  auto known = load_known(prop);

  std::uint64_t runs = 0, next_group = 0, stop_group = ~0ULL;
  std::uint64_t trivial = 0;
  std::unordered_set<std::uint64_t> states, hashes;
  Stats st;
  std::map<std::uint64_t, std::uint64_t> sample_hash;  // index -> hash (for the determinism sample)
  struct Cand {
    std::uint64_t index;
    std::string cls, msg;
    std::string scenario;
  };
  std::vector<Cand> cands;
  std::vector<std::pair<std::uint64_t, std::string>> samples;
  std::vector<Child> live;
  bool infra = false;
  std::string infra_msg;
  const double tb = now_s();

  auto launch = [&](std::uint64_t g, std::uint64_t from) {
    Child c = spawn([&, g, from](int fd) {
      scratch_dir();
      Stats acc;
      std::string out;
      for (std::uint64_t i = g * G + from; i < std::min(quota, (g + 1) * G); ++i) {
        put(fd, out + "B " + std::to_string(i) + "\n");
        out.clear();
        arm(e.cpu_limit * 2);
        Scenario s = base_scenario(e, i);
        plan_scenario(e, s);
        arm(0);
        clear_dir(scratch_dir());
        if (e.plan) put(fd, "G " + hex(s.serialize()) + "\n");
        Outcome o = guarded_run(e, s);
        acc.merge(o.st);
        out += "R " + std::to_string(i) + " " + std::to_string(o.hash) + " " + std::to_string(o.state) + " " + (o.nontrivial ? "1" : "0") + "\n";
        if (o.violated) out += "V " + std::to_string(i) + " " + hex(o.cls) + " " + hex(o.msg) + " " + hex(s.serialize()) + "\n";
        else if (i < 3 || i == quota / 2) out += "X " + std::to_string(i) + " " + hex(s.serialize()) + "\n";
      }
      for (auto& [k, v] : acc.faults_fired) out += "F " + k + " " + std::to_string(v) + "\n";
      for (auto& [k, v] : acc.probes) out += "P " + k + " " + std::to_string(v) + "\n";
      out += "T " + std::to_string(acc.sim_ms) + " " + std::to_string(acc.steps) + " " + std::to_string(acc.switches) + "\n";
      put(fd, out);
    });
    c.group = g;
    live.push_back(std::move(c));
  };

  auto finish = [&](Child& c) {
    int status = 0;
    ::waitpid(c.pid, &status, 0);
    ::close(c.fd);
    std::istringstream in(c.buf);
    std::string line;
    std::uint64_t cur = ~0ULL;
    bool cur_done = true;
    std::string cur_sc;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::string k;
      l >> k;
      if (k == "B") {
        l >> cur;
        cur_done = false;
        cur_sc.clear();
      } else if (k == "G") {
        std::string x;
        l >> x;
        cur_sc = unhex(x);
      } else if (k == "R") {
        std::uint64_t i, h, s;
        int nt;
        if (l >> i >> h >> s >> nt) {
          cur_done = true;
          ++runs;
          if (nt) states.insert(s);
          else ++trivial;
          hashes.insert(h);
          if (i % 41 == 7) sample_hash[i] = h;
        }
      } else if (k == "V") {
        Cand x;
        std::string a, b, d;
        l >> x.index >> a >> b >> d;
        x.cls = unhex(a);
        x.msg = unhex(b);
        x.scenario = unhex(d);
        cands.push_back(x);
      } else if (k == "X") {
        std::uint64_t i;
        std::string d;
        l >> i >> d;
        samples.push_back({i, unhex(d)});
      } else if (k == "F") {
        std::string n;
        std::uint64_t v;
        l >> n >> v;
        st.faults_fired[n] += v;
      } else if (k == "P") {
        std::string n;
        std::uint64_t v;
        l >> n >> v;
        st.probes[n] += v;
      } else if (k == "T") {
        std::uint64_t a, b, d;
        l >> a >> b >> d;
        st.sim_ms += a;
        st.steps += b;
        st.switches += d;
      }
    }
    if (status != 0) {
      const std::string err = slurp(c.err_path);
      Cand x;
      x.index = cur;
      classify_death(status, err, &x.cls, &x.msg);
      if (cur == ~0ULL || cur_done || x.cls == "killed") {
        infra = true;
        infra_msg = x.cls + " " + x.msg;
      } else {
        x.scenario = cur_sc;
        cands.push_back(x);
      }
      const std::string sd = g_scratch + "/p" + std::to_string(c.pid);
      clear_dir(sd);
      ::rmdir(sd.c_str());
    }
    ::unlink(c.err_path.c_str());
  };

  bool capped = false;
  while ((next_group < groups && next_group < stop_group && !capped) || !live.empty()) {
    while (live.size() < workers && next_group < groups && next_group < stop_group && !infra) {
      if (now_s() - tb > cap) {
        capped = true;
        break;
      }
      launch(next_group++, 0);
    }
    if (infra && live.empty()) break;
    std::vector<pollfd> pf;
    for (auto& c : live) pf.push_back({c.fd, POLLIN, 0});
    ::poll(pf.data(), pf.size(), 1000);
    for (std::size_t i = live.size(); i-- > 0;) {
      if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
      char b[65536];
      const ssize_t r = ::read(live[i].fd, b, sizeof b);
      if (r > 0) {
        live[i].buf.append(b, static_cast<std::size_t>(r));
        continue;
      }
      Child c = std::move(live[i]);
      live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
      finish(c);
      if (cands.size() > 0 && stop_group == ~0ULL) {
        // unknown candidates end the batch; groups already started still finish, so the lowest index wins
        bool unknown = false;
        for (auto& x : cands) {
          bool k = false;
          for (auto& kn : known) k |= kn.cls == x.cls && x.msg.find(kn.contains) != std::string::npos;
          unknown |= !k;
        }
        if (unknown) stop_group = next_group;
      }
    }
  }
  const double batch_s = now_s() - tb;
  std::sort(cands.begin(), cands.end(), [](auto& a, auto& b) { return a.index < b.index; });

  // ---------------------------------------------------------------- determinism sample: fresh process, alone
  std::uint64_t det = 0, det_bad = 0;
  std::string det_msg;
  if (cands.empty() && !infra) {
    const double td = now_s();
    const std::size_t want = g_tier ? 200 : 24;
    const std::size_t stride = std::max<std::size_t>(1, sample_hash.size() / want);
    std::size_t k = 0;
    for (auto& [i, h] : sample_hash) {
      if (k++ % stride) continue;
      if (now_s() - td > (g_tier ? 60 : 6)) break;
      Verdict v;
      Child c = spawn([&, idx = i](int fd) {
        scratch_dir();
        Scenario s = base_scenario(e, idx);
        plan_scenario(e, s);
        clear_dir(scratch_dir());
        Outcome o = guarded_run(e, s);
        put(fd, std::to_string(o.hash));
      });
      std::string all;
      char b[4096];
      ssize_t r;
      while ((r = ::read(c.fd, b, sizeof b)) > 0) all.append(b, static_cast<std::size_t>(r));
      ::close(c.fd);
      int stt;
      ::waitpid(c.pid, &stt, 0);
      ::unlink(c.err_path.c_str());
      ++det;
      if (all != std::to_string(h)) {
        ++det_bad;
        det_msg = fmt_str("run %llu gives %s in a fresh process, %llu in the batch", (unsigned long long)i, all.c_str(), (unsigned long long)h);
      }
    }
  }

  // ---------------------------------------------------------------- verdict
  int rc = 0;
  std::uint64_t violations = 0;
  std::string final_line, harness_error;
  if (infra) harness_error = "infrastructure: " + infra_msg;
  if (det_bad) harness_error = "determinism: " + det_msg;
  for (auto& x : cands) {
    bool k = false;
    for (auto& kn : known)
      if (kn.cls == x.cls && x.msg.find(kn.contains) != std::string::npos) {
        kn.hits++;
        k = true;
      }
    if (k) continue;
    // reproduce: alone, else with what ran before it in its process
    std::vector<Scenario> v(1);
    auto regenerate = [&](std::uint64_t i, Scenario* out) {
      // base only; the planned one was recorded if the child got that far
      *out = base_scenario(e, i);
    };
    if (x.scenario.empty() || !Scenario::parse(x.scenario, &v[0])) regenerate(x.index, &v[0]);
    Verdict a = execute(e, v), b = execute(e, v);
    bool exact = true;  // code under test that reads what nothing determines may differ in the details, or now and then
    auto good = [&](const Verdict& p, const Verdict& q) { return p.violated && q.violated && !p.error && !q.error && p.cls == q.cls && (!exact || p.hash == q.hash); };
    if (!good(a, b) || a.cls != x.cls) {
      std::vector<Scenario> w;
      for (std::uint64_t i = x.index / G * G; i < x.index; ++i) {
        // planning may run library code; do it in a child
        Child c = spawn([&](int fd) {
          scratch_dir();
          Scenario s = base_scenario(e, i);
          plan_scenario(e, s);
          put(fd, s.serialize());
        });
        std::string all;
        char bb[65536];
        ssize_t r;
        while ((r = ::read(c.fd, bb, sizeof bb)) > 0) all.append(bb, static_cast<std::size_t>(r));
        ::close(c.fd);
        int stt;
        ::waitpid(c.pid, &stt, 0);
        ::unlink(c.err_path.c_str());
        Scenario s;
        if (Scenario::parse(all, &s)) w.push_back(s);
      }
      w.push_back(v[0]);
      Verdict a2 = execute(e, w), b2 = execute(e, w);
      if (good(a2, b2)) {
        v = w;
        a = a2;
      } else if (!good(a, b)) {
        exact = false;
        for (auto* z : {&v, &w})
          for (int n = 0; n < 4 && !good(a, a); ++n) {
            a = execute(e, *z);
            if (good(a, a) && z == &w) v = w;
          }
        if (good(a, a)) std::printf("run %llu: the violation repeats, but not identically: something undetermined takes part\n", (unsigned long long)x.index);
      }
      if (!good(a, a)) {
        harness_error = fmt_str("run %llu reported [%s] %s but it does not reproduce", (unsigned long long)x.index, x.cls.c_str(), x.msg.c_str());
        continue;
      }
    }
    Minimiser mz{e, v, a.cls, 600, now_s() + (g_tier ? 120 : 40)};
    mz.run();
    const Verdict f1 = execute(e, mz.v), f2 = execute(e, mz.v);
    if (good(f1, f2)) {
      v = mz.v;
      a = f1;
    }
    ::mkdir((g_verif + "/out").c_str(), 0755);
    const std::string path = g_verif + "/out/" + prop + "-" + std::to_string(g_vseed) + "-" + std::to_string(x.index) + ".replay";
    std::ofstream(path) << replay_text(v, a);
    std::printf("run %llu: [%s] %s\n  minimised in %u executions to %zu step(s), %zu fault(s), %zu preceding run(s)\n", (unsigned long long)x.index, a.cls.c_str(), a.msg.c_str(),
                mz.execs, v.back().steps.size(), v.back().faults.size(), v.size() - 1);
    final_line = "VIOLATION property=" + prop + " replay=" + path;
    violations = 1;
    rc = 1;
    harness_error.clear();
    break;
  }
  for (auto& kn : known)
    if (kn.hits) std::printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), kn.text.c_str());
  if (!rc && !harness_error.empty()) {
    std::fprintf(stderr, "check error: %s\n", harness_error.c_str());
    rc = 2;
  }
  if (runs == 0 && !rc) {
    std::fprintf(stderr, "check error: no run completed\n");
    rc = 2;
  }
  std::vector<std::string> stuck;
  for (auto* p : e.must_probe)
    if (!st.probes.count(p) && !st.faults_fired.count(p)) stuck.push_back(p);

  // ---------------------------------------------------------------- evidence
  ::mkdir((g_verif + "/evidence").c_str(), 0755);
  {
    std::ofstream o(g_verif + "/evidence/" + prop + ".json");
    std::vector<std::string> sm;
    std::sort(samples.begin(), samples.end());
    for (auto& s : samples) sm.push_back(s.second.size() > 3000 ? s.second.substr(0, 3000) + "..." : s.second);
    std::uint64_t ff = 0;
    for (auto& [k, v] : st.faults_fired) ff += v;
    const bool faulty = ff > 0;
    o << "{\n \"property\": " << json_str(prop) << ",\n \"tier\": " << (g_tier ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << g_vseed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << states.size() << ",\n  \"rule\": " << json_str(e.rule)
      << ",\n  \"samples\": " << json_list(sm) << ",\n  \"runs_with_nothing_to_decide\": " << trivial << ",\n  \"distinct_observed_histories\": " << hashes.size()
      << ",\n  \"simulated_runs_per_hour\": " << static_cast<std::uint64_t>(batch_s > 0 ? static_cast<double>(runs) * 3600 / batch_s : 0)
      << ",\n  \"seeds_per_hour\": " << static_cast<std::uint64_t>(batch_s > 0 ? static_cast<double>(runs) * 3600 / batch_s : 0)
      << ",\n  \"batch_wall_s\": " << batch_s << ",\n  \"batch_ended_by_time_cap\": " << (capped ? "true" : "false")
      << ",\n  \"simulated_seconds\": " << static_cast<double>(st.sim_ms) / 1000.0 << ",\n  \"device_operations\": " << st.steps << ",\n  \"scheduler_switches\": " << st.switches
      << ",\n  \"faults_injected\": " << (faulty ? json_map(st.faults_fired) : "{}") << ",\n  \"probes\": " << json_map(st.probes) << ",\n  \"probes_never_hit\": " << json_list(stuck)
      << ",\n  \"library_basic_blocks_hit\": " << coverage_edges_hit() << ",\n  \"library_basic_blocks\": " << coverage_edges_total()
      << ",\n  \"determinism_reruns\": " << det << ",\n  \"determinism_mismatches\": " << det_bad << ",\n  \"worker_processes\": " << workers
      << ",\n  \"real_components\": " << json_list(e.real) << ",\n  \"stub_components\": " << json_list(e.stub) << "\n },\n \"assumptions\": " << json_list(e.assumptions)
      << ",\n \"wall_s\": " << now_s() - t0 << ",\n \"violations\": " << violations << "\n}\n";
  }
  std::printf("%s %s seed=%llu: %llu runs, %zu distinct non-trivial, %.1f s batch, %llu/%llu blocks, %llu determinism re-runs%s\n", prop.c_str(), g_tier ? "thorough" : "quick",
              (unsigned long long)g_vseed, (unsigned long long)runs, states.size(), batch_s, (unsigned long long)coverage_edges_hit(),
              (unsigned long long)coverage_edges_total(), (unsigned long long)det, capped ? " (time cap)" : "");
  if (std::getenv("SIM_VERBOSE")) {
    for (auto& [k, v] : st.faults_fired) std::printf("  fault %s %llu\n", k.c_str(), (unsigned long long)v);
    for (auto& [k, v] : st.probes) std::printf("  probe %s %llu\n", k.c_str(), (unsigned long long)v);
  }
  for (auto& s : stuck) std::printf("  probe never hit: %s\n", s.c_str());
  if (!final_line.empty()) std::printf("%s\n", final_line.c_str());
  std::fflush(stdout);
  tear_down();
  return rc;
}

int replay(const std::string& path) {
  std::string text = slurp(path);
  std::vector<Scenario> v;
  std::size_t p = 0;
  while (p < text.size()) {
    auto q = text.find("---\n", p);
    if (q == std::string::npos) q = text.size();
    Scenario s;
    if (Scenario::parse(text.substr(p, q - p), &s)) v.push_back(s);
    p = q + 4;
  }
  if (v.empty()) {
    std::fprintf(stderr, "no scenario in %s\n", path.c_str());
    return 2;
  }
  const Engine* e = find(v.back().prop);
  if (!e) return 2;
  set_up();
  const Verdict r = execute(*e, v);
  tear_down();
  if (r.violated) {
    std::printf("[%s] %s (hash %llu)\nVIOLATION property=%s replay=%s\n", r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, e->id, path.c_str());
    return 1;
  }
  std::printf("no violation (hash %llu)\n", (unsigned long long)r.hash);
  return r.error ? 2 : 0;
}
}  // namespace

int main(int argc, char** argv) {
  ::signal(SIGPIPE, SIG_IGN);
  const char* v = std::getenv("SIM_VERIF");
  g_verif = v ? v : "/verif";
  if (const char* s = std::getenv("VERIF_SEED")) g_vseed = std::strtoull(s, nullptr, 10);
  const std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "check" && argc >= 4) {
    g_tier = std::string(argv[3]) == "thorough";
    return check(argv[2]);
  }
  if (cmd == "replay" && argc >= 3) return replay(argv[2]);
  if (cmd == "show" && argc >= 4) {
    const Engine* e = find(argv[2]);
    if (!e) return 2;
    set_up();
    Scenario s = base_scenario(*e, std::strtoull(argv[3], nullptr, 10));
    plan_scenario(*e, s);
    std::printf("%s", s.serialize().c_str());
    std::fflush(stdout);
    clear_dir(scratch_dir());
    tear_down();
    _exit(0);
  }
  if (cmd == "list") {
    for (auto& e : engines()) std::printf("%s\n", e.id);
    return 0;
  }
  std::fprintf(stderr, "usage: sim check PROP quick|thorough | replay FILE | show PROP INDEX\n");
  return 2;
}
