// W14: allocation failures while muxing (the machinery of engines_fault.cpp) and while reading.
#include <iostream>
#include <memory>
#include <sstream>

#include "boxes.hpp"
#include "device.hpp"
#include "mux.hpp"

#include "shiguredo/mp4/reader/reader.hpp"

namespace sim {

void plan_w14_mux(Scenario& sc, Rng& r);
Outcome run_w14_mux(const Scenario& sc);
Scenario gen_w14_mux(std::uint64_t seed);

namespace {

struct Read {
  bool ok = false;
  std::string err, text;
};

void read_once(Session& s, const Bytes& b, std::uint64_t frag, std::uint64_t fs, Read* out) {
  SessScope ss(&s);
  ConsoleCapture cap;
  SimIn si(s, b, frag, fs);
  std::istream is(&si);
  out->ok = lib_call([&] {
    shiguredo::mp4::reader::SimpleReader r(is);
    r.read();
  }, &out->err);
  out->text = cap.text();
}

Bytes subject(const Scenario& sc, std::vector<Line>* lines) {
  auto roots = build_tree(sc.steps, true);
  Bytes b = encode_tree(roots);
  if (lines) *lines = expected_lines(roots);
  return b;
}

void plan_read(Scenario& sc, Rng& r) {
  Session s;
  s.name = "rehearsal";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  Read x;
  read_once(s, subject(sc, nullptr), static_cast<std::uint64_t>(sc.get("frag")), sc.seed, &x);
  const auto c = s.count_of("alloc");
  if (!c) return;
  // the tail of a run is the report of what was read, the head the registration of the box kinds
  for (std::uint64_t k = 0, n = 1 + (r.chance(1, 4) ? r.below(3) : 0); k < n; ++k) {
    const auto at = r.chance(1, 6) ? r.below(std::min<std::uint64_t>(c, 700)) : r.below(c);
    sc.faults.push_back({"alloc", {static_cast<std::int64_t>(at), kFail, 0, r.chance(1, 3) ? 1 : 0}});
  }
}

Outcome run_read(const Scenario& sc) {
  Outcome out;
  std::vector<Line> lines;
  const Bytes b = subject(sc, &lines);
  const auto frag = static_cast<std::uint64_t>(sc.get("frag"));
  Session s0, s;
  s0.name = s.name = "main";
  s0.fill = s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  Read intact, r;
  read_once(s0, b, frag, sc.seed, &intact);
  if (!intact.ok) throw Violation("refused", "with memory available, a well-formed file was refused: " + intact.err);
  s.op_budget = 4 * s0.ops + 1000;
  s.add_faults(sc.faults);
  read_once(s, b, frag, sc.seed, &r);
  if (r.ok && r.text != intact.text) throw Violation("silent", fmt_str("after %llu failed allocation(s) reading succeeded with another report", static_cast<unsigned long long>(s.fired)));
  if (!r.ok && !s.fired) throw Violation("refused", "without a fault the file was refused: " + r.err);
  if (!r.ok && intact.text.compare(0, r.text.size(), r.text) != 0) throw Violation("silent", "what was printed before the error is not the beginning of the report");
  if (s.live_blocks != 0) throw Violation("leak", fmt_str("%lld block(s), %lld byte(s), are still allocated after the reader was destroyed", static_cast<long long>(s.live_blocks), static_cast<long long>(s.live_bytes)));
  // the process must be able to go on: the same file reads as before
  Session s2;
  s2.name = "main";
  s2.fill = s.fill;
  Read again;
  read_once(s2, b, frag, sc.seed, &again);
  if (!again.ok || again.text != intact.text) throw Violation("aftermath", "after the failure the same file " + (again.ok ? std::string("is reported differently") : "is refused: " + again.err));
  out.st.merge(s.st);
  out.st.probes[r.ok ? "read-in-spite-of-failed-allocations" : "reading-reported-exhaustion"]++;
  out.st.probes["reading-runs"]++;
  Hash h = s.trace;
  h.str(r.text);
  h.u64(r.ok);
  h.u64(s.ops);
  out.hash = h.h;
  Hash st;
  st.mem(b.data(), b.size());
  for (auto& f : sc.faults)
    for (auto v : f.a) st.u64(static_cast<std::uint64_t>(v));
  out.state = st.h;
  out.nontrivial = s.fired > 0;
  return out;
}

Scenario gen_read(std::uint64_t seed) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "W14";
  sc.seed = seed;
  sc.p["reading"] = 1;
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 1, 7, 100});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  gen_tree(r, &sc.steps, static_cast<int>(1 + r.below(14)), r.chance(1, 8) ? 30 : 8);
  return sc;
}

struct Reg {
  Reg() {
    engines().push_back({"W14",
        [](std::uint64_t seed, int, std::uint64_t) {
          Rng r(seed ^ 0x14);
          return r.chance(1, 3) ? gen_read(seed) : gen_w14_mux(seed);
        },
        [](Scenario& sc, Rng& r) { sc.get("reading") ? plan_read(sc, r) : plan_w14_mux(sc, r); },
        [](const Scenario& sc) { return sc.get("reading") ? run_read(sc) : run_w14_mux(sc); }, 36000, 1200000,
        "one run = one seeded muxing history, or the reading of one seeded well-formed file, in which the n-th allocation made by the library (or every one from the n-th on) fails, n placed over a rehearsal; sanitizers watch the teardown; non-trivial when an allocation failed",
        {"shiguredo::mp4 writers, tracks, boxes and reader", "glibc stdio buffering of the spool", "libstdc++ containers, strings and streams"},
        {"allocator behind operator new (seeded failures, fill pattern, accounting)", "output and spool devices", "input stream", "console", "wall clock"},
        {"muxing-runs", "reading-runs", "reading-reported-exhaustion", "layout-fast-start", "layout-progressive"},
        {"memory is requested through operator new", "allocations of libc are not made to fail"}});
  }
} reg;

}  // namespace

// every box kind once, so that first-use allocations do not depend on what ran before
void warm_up_read() {
  Scenario sc;
  for (int k = 0; k < static_cast<int>(box_kinds().size()); ++k) {
    sc.steps.push_back({"box", {k, 0, 0, 77 + k, 1}});
    sc.steps.push_back({"box", {0, 1, 0, 78 + k, 1}});
  }
  for (std::int64_t seed = 0; seed < 24; ++seed)
    for (int k = 0; k < kind_of("pasp"); ++k) {
      Scenario one;
      one.steps.push_back({"box", {k, 0, 0, seed, seed % 3}});
      Session s;
      Read r;
      read_once(s, subject(one, nullptr), static_cast<std::uint64_t>(seed % 3), 1, &r);
    }
  Session s;
  Read r;
  try {
    read_once(s, subject(sc, nullptr), 7, 1, &r);
    Bytes bad = subject(sc, nullptr);
    bad.resize(bad.size() / 2 + 3);
    read_once(s, bad, 7, 1, &r);
  } catch (const Violation&) {
  }
  t_sess = nullptr;
  t_lib = 0;
}

}  // namespace sim
