// W13: independent sessions on different threads. Real threads, exactly one runnable; an explicit, seeded list of switches
// decides where each is preempted (at stream, file, clock and lock operations and at every basic block of the library).
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>

#include <spdlog/spdlog.h>

#include "boxes.hpp"
#include "device.hpp"
#include "mux.hpp"
#include "sched.hpp"

#include "shiguredo/mp4/reader/reader.hpp"

namespace sim {

namespace {

// what a caller of one session can see
struct Seen {
  bool done = false;
  bool finished = false;
  Bytes bytes;
  std::string text;                    // reader output
  std::vector<std::string> errors;
  std::vector<std::uint32_t> ids;
  std::unique_ptr<Violation> harness;  // harness trouble inside the thread
  Stats st;
  std::uint64_t fired = 0;
};

enum { kMuxing, kReading, kReadingDamaged };

Scenario mux_scenario(const Step& s) {
  const auto seed = static_cast<std::uint64_t>(s.arg(1));
  Rng r(seed ^ 0x13);
  GenOpts g;
  g.max_ops = static_cast<int>(std::clamp<std::int64_t>(s.arg(2), 1, 40));
  g.max_size = 60;
  g.max_tracks = 3;
  g.params = true;
  g.refused_steps = true;
  if (s.arg(4) > 0) g.layout = static_cast<int>(s.arg(4) - 1) & 1;
  Scenario m = gen_mux("W13", r, seed, g);
  const auto f = static_cast<std::uint64_t>(s.arg(3));
  if (f) {
    Rng q(f);
    const char* site = q.pick<const char*>({"out.write", "out.seek", "spool.write", "spool.read", "spool.open"});
    m.faults.push_back({site, {static_cast<std::int64_t>(q.below(std::string(site) == "spool.open" ? 1 : 30)), kFail, 0, q.chance(1, 2) ? 1 : 0}});
  }
  return m;
}

Bytes read_subject(const Step& s) {
  const auto seed = static_cast<std::uint64_t>(s.arg(1));
  Rng r(seed ^ 0x31);
  std::vector<Step> steps;
  gen_tree(r, &steps, static_cast<int>(std::clamp<std::int64_t>(s.arg(2), 1, 40)), 8);
  auto roots = build_tree(steps, true);
  Bytes b = encode_tree(roots);
  if (s.arg(0) % 3 == kReadingDamaged && !b.empty()) {
    if (r.chance(1, 2)) b.resize(r.below(b.size()));
    else b[r.below(b.size())] ^= static_cast<std::uint8_t>(1u << r.below(8));
  }
  return b;
}

void run_session(const Step& st, const Bytes* subject, std::size_t index, Seen* out) {
  Session s;
  try {
    if (st.arg(0) % 3 == kMuxing) {
      const Scenario m = mux_scenario(st);
      setup_session(m, s, fmt_str("session%zu", index));
      s.op_budget = 2'000'000;
      s.spool_dir = scratch_dir();
      s.spool_seq = index * 1000003;   // names are not handed out twice, as with the system's random ones
      s.add_faults(m.faults);
      Blob dev;
      MuxRun r;
      run_mux(m, s, dev, {}, &r);
      release_spools(s);
      out->finished = r.m.finished;
      out->bytes = std::move(dev.dense);
      out->ids = r.m.ids;
      for (auto& e : r.m.errors) {
        std::string w = e.what;
        // names of intermediate files are the system's choice
        for (std::size_t at; !r.spool_path.empty() && (at = w.find(r.spool_path)) != std::string::npos;) w.replace(at, r.spool_path.size(), "<spool>");
        out->errors.push_back(e.where + fmt_str(" at %d: ", e.step) + w);
      }
    } else {
      s.name = fmt_str("session%zu", index);
      s.op_budget = 2'000'000;
      Rng r(static_cast<std::uint64_t>(st.arg(1)));
      ConsoleCapture cap;
      SessScope ss(&s);
      SimIn si(s, *subject, r.pick<std::uint64_t>({0, 1, 5, 64}), 7);
      std::istream is(&si);
      std::string err;
      out->finished = lib_call([&] {
        shiguredo::mp4::reader::SimpleReader rd(is);
        rd.read();
      }, &err);
      if (!out->finished) out->errors.push_back(err);
      out->text = cap.text();
    }
    out->done = true;
  } catch (const Violation& v) {
    out->harness = std::make_unique<Violation>(v);
  }
  out->st.merge(s.st);
  out->fired = s.fired;
}

std::string differs(const Seen& a, const Seen& b) {
  if (a.finished != b.finished) return a.finished ? "succeeded alone but not together: " + (b.errors.empty() ? std::string("no error") : b.errors.front()) : std::string("failed alone but succeeded together");
  if (a.ids != b.ids) return "was handed other track identifiers";
  if (a.errors != b.errors) {
    for (std::size_t i = 0; i < std::max(a.errors.size(), b.errors.size()); ++i) {
      const std::string x = i < a.errors.size() ? a.errors[i] : "nothing", y = i < b.errors.size() ? b.errors[i] : "nothing";
      if (x != y) return "reported '" + y + "' instead of '" + x + "'";
    }
  }
  if (a.bytes != b.bytes) {
    std::size_t i = 0;
    while (i < a.bytes.size() && i < b.bytes.size() && a.bytes[i] == b.bytes[i]) ++i;
    return fmt_str("wrote %zu byte(s) instead of %zu, first difference at %zu", b.bytes.size(), a.bytes.size(), i);
  }
  if (a.text != b.text) return fmt_str("printed %zu character(s) instead of %zu", b.text.size(), a.text.size());
  return {};
}

std::vector<const Step*> sessions_of(const Scenario& sc) {
  std::vector<const Step*> v;
  for (auto& s : sc.steps)
    if (s.name == "session" && v.size() < 6) v.push_back(&s);
  return v;
}

Outcome run_w13(const Scenario& sc) {
  Outcome out;
  const auto ss = sessions_of(sc);
  std::vector<Bytes> subj(ss.size());
  for (std::size_t i = 0; i < ss.size(); ++i)
    if (ss[i]->arg(0) % 3 != kMuxing) subj[i] = read_subject(*ss[i]);
  std::vector<Seen> alone(ss.size()), together(ss.size());
  Hash h;
  auto note = [&](const Seen& s) {
    h.mem(s.bytes.data(), s.bytes.size());
    h.str(s.text);
    for (auto& e : s.errors) h.str(e);
    h.u64(s.finished);
  };
  for (std::size_t i = 0; i < ss.size(); ++i) {
    run_session(*ss[i], &subj[i], i, &alone[i]);
    if (alone[i].harness) throw *alone[i].harness;
    note(alone[i]);
  }
  SchedConfig cfg;
  cfg.explicit_plan = true;
  for (auto& f : sc.faults)
    if (f.name == "switch" && f.arg(0) > 0 && !ss.empty()) cfg.plan.push_back({static_cast<std::uint64_t>(f.arg(0)), static_cast<int>(f.arg(1) % static_cast<std::int64_t>(ss.size()))});
  std::stable_sort(cfg.plan.begin(), cfg.plan.end(), [](const Switch& a, const Switch& b) { return a.at < b.at; });
  SchedResult res;
  if (!ss.empty()) {
    std::vector<std::function<void()>> bodies;
    for (std::size_t i = 0; i < ss.size(); ++i) bodies.push_back([&, i] { run_session(*ss[i], &subj[i], i, &together[i]); });
    res = run_threads(cfg, bodies);
  }
  h.u64(res.hash);
  for (std::size_t i = 0; i < ss.size(); ++i) {
    if (together[i].harness) throw *together[i].harness;
    note(together[i]);
    out.st.merge(together[i].st);
    const std::string d = differs(alone[i], together[i]);
    if (!d.empty()) {
      static const char* names[] = {"muxing", "reading", "reading a damaged file"};
      throw Violation("interference", fmt_str("of %zu sessions, session %zu (%s) ", ss.size(), i, names[ss[i]->arg(0) % 3]) + d);
    }
    static const char* probes[] = {"muxing-sessions", "reading-sessions", "damaged-reading-sessions"};
    out.st.probes[probes[ss[i]->arg(0) % 3]]++;
    if (!together[i].errors.empty()) out.st.probes["sessions-with-reported-errors"]++;
  }
  out.st.switches += res.made.size();
  out.st.probes["scheduling-points"] += res.points;
  out.st.probes[fmt_str("sessions-together-%zu", ss.size())]++;
  out.hash = h.h;
  Hash st;
  st.u64(res.hash);
  for (auto* s : ss)
    for (auto v : s->a) st.u64(static_cast<std::uint64_t>(v));
  out.state = st.h;
  out.nontrivial = res.made.size() > 0;
  return out;
}

void plan_w13(Scenario& sc, Rng& r) {
  const auto ss = sessions_of(sc);
  // how long each session is, in scheduling points
  std::uint64_t total = 0;
  std::vector<std::vector<std::uint32_t>> places(ss.size());
  for (std::size_t i = 0; i < ss.size(); ++i) {
    Bytes b = ss[i]->arg(0) % 3 != kMuxing ? read_subject(*ss[i]) : Bytes{};
    Seen seen;
    SchedConfig cfg;
    cfg.explicit_plan = true;
    cfg.record = true;
    SchedResult res = run_threads(cfg, {[&] { run_session(*ss[i], &b, i, &seen); }});
    total += res.points;
    places[i] = std::move(res.places);
  }
  if (!total || ss.size() < 2) return;
  auto any = [&] { return static_cast<std::int64_t>(r.below(ss.size())); };
  if (r.chance(2, 3)) {
    // two sessions meet again and again in the same piece of code: one is stopped at a place, the other brought to the same
    // place and a little past it, and so on. Every piece of code is equally likely, however often it runs.
    const auto a = r.below(ss.size());
    const auto b = (a + 1 + r.below(ss.size() - 1)) % ss.size();
    std::map<std::uint32_t, std::vector<std::uint64_t>> in_a, in_b;
    for (std::size_t i = 0; i < places[a].size(); ++i) in_a[places[a][i]].push_back(i + 1);
    for (std::size_t i = 0; i < places[b].size(); ++i) in_b[places[b][i]].push_back(i + 1);
    std::vector<std::pair<std::uint64_t, std::uint32_t>> cand;
    const auto want = r.pick<std::uint64_t>({10, 100, 500, 1500});
    for (auto& [place, at] : in_a)
      if (in_b.count(place)) cand.push_back({at[r.below(at.size())], place});
    for (std::size_t i = 0; i < cand.size(); ++i) std::swap(cand[i], cand[i + r.below(cand.size() - i)]);
    if (cand.size() > want) cand.resize(static_cast<std::size_t>(want));
    std::sort(cand.begin(), cand.end());
    std::uint64_t now = 1, pa = 0, pb = 0;
    auto sw = [&](std::uint64_t to) { sc.faults.push_back({"switch", {static_cast<std::int64_t>(now), static_cast<std::int64_t>(to)}}); };
    if (a != 0) sw(a);   // the first session is the one that starts
    else pa = 1;
    const auto past = r.pick<std::uint64_t>({1, 4, 16});
    for (auto& [at, place] : cand) {
      if (at <= pa) continue;
      const auto& v = in_b[place];
      auto it = std::upper_bound(v.begin(), v.end(), pb);
      if (it == v.end() || (*it - pb > places[b].size() / 8 && !r.chance(1, 10))) continue;
      now += at - pa;
      pa = at;
      sw(b);
      const auto upto = *it + r.below(past);
      now += upto - pb;
      pb = upto;
      sw(a);
    }
    if (!sc.faults.empty()) return;
  }
  const int style = static_cast<int>(r.below(4));
  if (style == 0) {
    // few preemptions anywhere
    for (std::uint64_t k = 0, n = 1 + r.below(4); k < n; ++k) sc.faults.push_back({"switch", {static_cast<std::int64_t>(1 + r.below(total)), any()}});
  } else if (style == 1) {
    // even rotation
    const std::uint64_t n = 20 + r.below(200), gap = std::max<std::uint64_t>(1, total / n);
    for (std::uint64_t k = 1; k <= n; ++k) sc.faults.push_back({"switch", {static_cast<std::int64_t>(k * gap + r.below(gap)), any()}});
  } else {
    // bursts of very fine interleaving
    for (std::uint64_t k = 0, n = 1 + r.below(8); k < n; ++k) {
      std::uint64_t at = 1 + r.below(total);
      const std::uint64_t fine = style == 2 ? 3 : 40;
      for (std::uint64_t j = 0, m = 5 + r.below(60); j < m; ++j, at += 1 + r.below(fine)) sc.faults.push_back({"switch", {static_cast<std::int64_t>(at), any()}});
    }
  }
  std::stable_sort(sc.faults.begin(), sc.faults.end(), [](const Step& a, const Step& b) { return a.arg(0) < b.arg(0); });
}

Scenario gen_w13(std::uint64_t seed, int, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "W13";
  sc.seed = seed;
  const auto n = 2 + r.below(r.chance(1, 4) ? 4 : 2);
  const bool same = r.chance(1, 4);   // equal sessions: shared state is then most alike
  const bool alike = r.chance(2, 3);  // the same kind of session in the same layout
  const auto layout = r.pick<std::int64_t>({1, 2});
  const auto kind = r.pick<std::int64_t>({kMuxing, kMuxing, kReading});
  const auto sub = static_cast<std::int64_t>(r.next() >> 24);
  for (std::uint64_t i = 0; i < n; ++i)
    sc.steps.push_back({"session", {same || alike ? kind : r.pick<std::int64_t>({kMuxing, kMuxing, kMuxing, kReading, kReading, kReadingDamaged}), same ? sub : static_cast<std::int64_t>(r.next() >> 24),
                                    r.range(2, 16), r.chance(1, 5) ? static_cast<std::int64_t>(1 + r.below(1 << 20)) : 0, alike ? layout : 0}});
  return sc;
}

struct Reg {
  Reg() {
    engines().push_back({"W13", gen_w13, plan_w13, run_w13, 3500, 250000,
        "one run = two to five independent sessions (muxing in either layout, reading well-formed or damaged files, some with a device fault) run alone and then on threads of their own under an explicit seeded list of up to several hundred preemptions; non-trivial when a preemption happened; distinct by the executed switch sequence",
        {"shiguredo::mp4 writers, tracks, boxes and reader on real threads", "spdlog", "glibc stdio buffering of the spool", "libstdc++ streams"},
        {"scheduler (one runnable thread, seeded preemption at seam operations, locks and basic blocks)", "output and spool devices", "input stream", "console (per thread)", "wall clock (per session)"},
        {"muxing-sessions", "reading-sessions", "damaged-reading-sessions", "sessions-with-reported-errors", "scheduling-points"},
        {"sessions share no stream and no object", "preemption between the basic blocks of library code, not inside one"}});
  }
} reg;

}  // namespace

}  // namespace sim
