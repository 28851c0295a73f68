// Engines of the muxing properties under faults: W07-W11, W14 (muxing half).
#include <algorithm>
#include <set>

#include <unistd.h>

#include "mux.hpp"

namespace sim {

namespace {

struct Ran {
  MuxRun run;
  Blob dev{false};
};

GenOpts small_opts(Rng& r) {
  GenOpts g;
  g.max_ops = static_cast<int>(r.pick<std::int64_t>({6, 12, 25, 40}));
  g.max_size = static_cast<std::size_t>(r.pick<std::int64_t>({20, 120, 700}));
  g.max_tracks = 4;
  g.params = r.chance(1, 4);
  return g;
}

// the whole oracle over a file that was reported as finished
void judge_finished(MuxModel& m, const Blob& dev, bool layout) {
  try {
    resolve_optional(m, dev);
    DFile f;
    check_media(m, dev, &f);
    if (layout) check_layout(m, f, dev);
    check_timing(m, f);
    check_identity(m, f, dev);
  } catch (const Violation& v) {
    throw Violation("wrong-file-reported-finished", "every call reported success, yet: [" + v.cls + "] " + v.msg);
  }
}

// counts of a fault-free rehearsal
std::map<std::string, std::uint64_t> rehearse(const Scenario& sc, MuxOpts o, std::vector<std::map<std::string, std::uint64_t>>* per_step = nullptr,
                                              std::uint64_t* size = nullptr, std::map<std::string, std::uint64_t>* before_finish = nullptr) {
  static const char* sites[] = {"out.write", "out.seek", "out.tell", "spool.open", "spool.fdopen", "spool.write", "spool.read", "spool.seek", "spool.close", "spool.remove", "alloc"};
  Session s;
  setup_session(sc, s, "rehearsal");
  s.spool_dir = scratch_dir();
  Ran r;
  auto snap = [&] {
    std::map<std::string, std::uint64_t> c;
    for (auto* n : sites)
      if (const auto v = s.count_of(n)) c[n] = v;
    return c;
  };
  if (per_step) o.before_step = [&](int i) {
    while (static_cast<int>(per_step->size()) <= i) per_step->push_back({});
    (*per_step)[static_cast<std::size_t>(i)] = snap();
  };
  if (before_finish) o.after_step = [&](int) { *before_finish = snap(); };
  run_mux(sc, s, r.dev, o, &r.run);
  auto c = snap();
  if (per_step) per_step->push_back(c);
  release_spools(s);
  if (size) *size = r.dev.size();
  return c;
}

// index of an operation: uniform, or among the last ones (the finishing calls)
std::int64_t place(Rng& r, std::uint64_t n, std::uint64_t fin) {
  if (fin < n && r.chance(1, 2)) return static_cast<std::int64_t>(fin + r.below(n - fin));
  return static_cast<std::int64_t>(r.below(n));
}

Outcome faulted(const Scenario& sc, const MuxOpts& o, bool layout) {
  Outcome out;
  Session s;
  Ran r;
  setup_session(sc, s, "main");
  s.spool_dir = scratch_dir();
  s.add_faults(sc.faults);
  run_mux(sc, s, r.dev, o, &r.run);
  release_spools(s);
  MuxModel& m = r.run.m;
  out.st.merge(s.st);
  Hash h = s.trace;
  h.mem(r.dev.dense.data(), r.dev.dense.size());
  h.u64(m.finished);
  h.u64(m.errors.size());
  out.hash = h.h;
  if (m.finished) {
    judge_finished(m, r.dev, layout);
    if (s.fired) out.st.probes["survived-a-fault-with-a-correct-file"]++;
  } else {
    bool real = false;
    for (auto& e : m.errors) {
      if (e.where == "malformed") continue;
      real = true;
      out.st.probes["reported-by-" + e.where]++;
    }
    if (!s.fired) throw Violation("refused", m.errors.empty() ? std::string("muxing did not finish") : "without any fault, " + m.errors.back().where + " reported: " + m.errors.back().what);
    (void)real;
  }
  out.st.probes[m.fast ? "layout-fast-start" : "layout-progressive"]++;
  out.st.sim_ms += sim_media_ms(m);
  out.state = shape_state(sc);
  out.nontrivial = s.fired > 0;
  return out;
}

// ------------------------------------------------------------------------------------------------- W07
MuxOpts opts_w07(const Scenario& sc) {
  MuxOpts o;
  o.capacity = sc.get("cap", -1);
  return o;
}

void plan_w07(Scenario& sc, Rng& r) {
  std::uint64_t size = 0;
  std::map<std::string, std::uint64_t> fin;
  auto c = rehearse(sc, {}, nullptr, &size, &fin);
  if (r.chance(1, 5) && size) {
    sc.p["cap"] = r.chance(1, 4) ? static_cast<std::int64_t>(size - 1 - r.below(std::min<std::uint64_t>(size, 40))) : static_cast<std::int64_t>(r.below(size));
    if (r.chance(3, 4)) return;
  }
  const auto n = 1 + (r.chance(1, 4) ? r.below(3) : 0);
  for (std::uint64_t k = 0; k < n; ++k) {
    const char* site = r.pick<const char*>({"out.write", "out.write", "out.write", "out.seek", "out.seek", "out.tell"});
    if (!c[site]) continue;
    const std::int64_t kind = r.pick<std::int64_t>({kFail, kFail, kPartial, kThrow});
    sc.faults.push_back({site, {place(r, c[site], fin[site]), kind, r.range(0, 999), r.chance(1, 2) ? 1 : 0}});
  }
}

// ------------------------------------------------------------------------------------------------- W08
void plan_w08(Scenario& sc, Rng& r) {
  std::map<std::string, std::uint64_t> fin;
  auto c = rehearse(sc, {}, nullptr, nullptr, &fin);
  const auto n = 1 + (r.chance(1, 3) ? r.below(3) : 0);
  for (std::uint64_t k = 0; k < n; ++k) {
    const char* site = r.pick<const char*>({"spool.open", "spool.fdopen", "spool.write", "spool.write", "spool.write", "spool.read", "spool.read", "spool.read", "spool.seek", "spool.close", "spool.remove"});
    if (!c[site]) continue;
    std::int64_t kind = kFail, arg = r.range(0, 999);
    const std::string sn = site;
    if (sn == "spool.write") kind = r.pick<std::int64_t>({kFail, kPartial});
    if (sn == "spool.read") {
      kind = r.pick<std::int64_t>({kFail, kFail, kShort, kShort});
      if (r.chance(1, 2)) arg = -1;
    }
    sc.faults.push_back({site, {place(r, c[site], fin[site]), kind, arg, r.chance(1, 2) ? 1 : 0}});
  }
}

// ------------------------------------------------------------------------------------------------- W09
// step "writer": seed, layout, abandon_step (-1), abandon_finish (-1), nest_at (-1: the next writer starts after this
// one ended; otherwise the next one lives inside this one from that step on), delete_on_abandon, shared template
Outcome run_w09(const Scenario& sc) {
  Outcome out;
  Session s;
  setup_session(sc, s, "main");
  s.spool_dir = scratch_dir();
  s.add_faults(sc.faults);
  std::set<std::string> live, left;  // spool files that must exist / may exist
  auto fail = [](const char* c, const std::string& m) { throw Violation(c, m); };
  auto present = [&](const std::string& p) { return ::access(p.c_str(), F_OK) == 0; };
  std::size_t next = 0;
  Hash hh;
  auto audit = [&](const char* when) {
    for (auto& p : live)
      if (!present(p)) fail("foreign-removal", std::string("the spool file of another live writer is gone ") + when);
    for (auto& n : list_dir(s.spool_dir)) {
      const std::string p = s.spool_dir + "/" + n;
      if (live.count(p) || left.count(p)) continue;
      bool removal_failed = false;
      for (auto& [k, v] : s.st.faults_fired) removal_failed |= k.rfind("spool.remove", 0) == 0;
      if (removal_failed) ::unlink(p.c_str()), s.spool_created.erase(p);
      else fail("spool-left-behind", std::string("a spool file no writer owns any more exists ") + when);
    }
    if (s.st.probes.count("foreign-removal")) fail("foreign-removal", "a file that is not this writer's spool was to be removed");
    if (s.st.probes.count("spool-outside-requested-place")) fail("spool-place", "a spool file was to be created outside the requested place");
  };
  std::function<void()> one = [&] {
    if (next >= sc.steps.size()) return;
    const Step& st = sc.steps[next++];
    Rng r(static_cast<std::uint64_t>(st.arg(0)));
    GenOpts g;
    g.max_ops = 12;
    g.max_tracks = 3;
    g.max_size = 300;
    g.bad264 = true;
    g.allow_omit = false;  // what a track that is not handed over stored cannot be known
    g.layout = static_cast<int>(st.arg(1) & 1);
    const Scenario sub = gen_mux("W09", r, static_cast<std::uint64_t>(st.arg(0)), g);
    MuxOpts o;
    o.abandon_step = static_cast<int>(st.arg(2, -1));
    o.abandon_finish = static_cast<int>(st.arg(3, -1));
    o.delete_on_abandon = st.arg(5) != 0;
    const auto tk = st.arg(6);
    const char* odd[] = {"a b%s%n{}{:d}", "XXXXXX", "\xe3\x83\xa1\xff.", ".", "XXXXXX."};
    o.spool_template = s.spool_dir + "/" + (tk == 0 ? "mdat" : tk == 1 ? "" : tk == 3 ? std::string(180, 'n') : tk >= 4 && tk <= 8 ? odd[tk - 4] : fmt_str("w%lld.", (long long)(st.arg(0) % 1000))) + "XXXXXX";
    const bool unusable = tk == 9;
    if (unusable) o.spool_template = s.spool_dir + "/" + (st.arg(0) & 1 ? "XXXXXX.mdat" : "mdat");
    const int nest = static_cast<int>(st.arg(4, -1));
    bool nested = false;
    o.before_step = [&](int i) {
      if (nest >= 0 && i >= nest && !nested) {
        nested = true;
        s.st.probes["writers-alive-together"]++;
        one();
      }
    };
    std::string mine;
    o.on_spool = [&](const std::string& p) {
      mine = p;
      if (unusable) fail("spool-place", "a spool file was made from a template without a place for its unique part");
      const std::string pre = o.spool_template.substr(0, o.spool_template.size() - 6);
      if (p.size() != o.spool_template.size() || p.compare(0, pre.size(), pre) != 0)
        fail("spool-place", "the spool file is not at the requested place");
      if (live.count(p) || left.count(p)) fail("spool-shared", "two writers use one spool file");
      if (!present(p)) fail("spool-place", "the announced spool file does not exist");
      live.insert(p);
    };
    Ran run;
    const std::uint64_t fired = s.fired;
    const int open_before = s.spool_open;
    run_mux(sub, s, run.dev, o, &run.run);
    if (!mine.empty()) live.erase(mine);
    if (run.run.m.finished) {
      s.st.probes["finished"]++;
      if (!mine.empty() && present(mine)) fail("spool-left-behind", "a successful finish left its spool file");
      judge_finished(run.run.m, run.dev, true);
    } else if (!mine.empty()) {
      s.st.probes["abandoned-or-failed"]++;
      if (o.delete_on_abandon && present(mine)) {
        bool reported = false;
        for (auto& e : run.run.m.errors) reported |= e.where == "deleteIntermediateFile";
        if (!reported) fail("spool-left-behind", "removal of the spool reported success and the file is still there");
      }
      // the file of an abandoned recording stays with the caller, who removes it
      if (present(mine)) left.insert(mine);
    } else if (run.run.m.fast) {
      s.st.probes["open-failed"]++;
      if (unusable) s.st.probes["unusable-template-refused"]++;
      else if (s.fired == fired) fail("refused", "the writer could not open its spool without any fault");
    }
    if (s.spool_open != open_before) fail("handle-leak", fmt_str("%d spool handles still open after the writer was destroyed", s.spool_open - open_before));
    audit("after a writer was destroyed");
    hh.mem(run.dev.dense.data(), run.dev.dense.size());
    hh.u64(run.run.m.finished);
    out.st.sim_ms += sim_media_ms(run.run.m);
    for (auto& p : left) ::unlink(p.c_str());
    for (auto& p : left) s.spool_created.erase(p);
    left.clear();
    if (nest >= 0 && !nested) one();
  };
  try {
    while (next < sc.steps.size()) one();
    bool exhausted = false;
    for (auto& [k, v] : s.st.faults_fired) exhausted |= k.rfind("alloc", 0) == 0;
    if (!exhausted && (s.live_blocks != 0 || s.live_bytes != 0))
      fail("memory-leak", fmt_str("%lld blocks (%lld bytes) still allocated after all writers were destroyed", (long long)s.live_blocks, (long long)s.live_bytes));
  } catch (...) {
    release_spools(s);
    clear_dir(s.spool_dir);
    throw;
  }
  release_spools(s);
  s.st.probes[s.fired == 0 ? "memory-accounted" : "memory-accounted-after-failures"]++;
  out.st.merge(s.st);
  Hash h = s.trace;
  h.u64(hh.h);
  out.hash = h.h;
  Hash sh;
  for (auto& st : sc.steps)
    for (std::size_t i = 0; i < 7; ++i) sh.u64(static_cast<std::uint64_t>(i ? st.arg(i) : st.arg(i) % 64));
  for (auto& f : sc.faults) {
    sh.str(f.name);
    for (auto x : f.a) sh.u64(static_cast<std::uint64_t>(x));
  }
  out.state = sh.h;
  out.nontrivial = !sc.steps.empty();
  return out;
}

// ------------------------------------------------------------------------------------------------- W10
Outcome run_w10(const Scenario& sc) {
  Outcome out;
  Session s;
  Ran r;
  setup_session(sc, s, "main");
  s.spool_dir = scratch_dir();
  MuxOpts o;
  o.log_ops = true;
  run_mux(sc, s, r.dev, o, &r.run);
  release_spools(s);
  MuxModel& m = r.run.m;
  for (auto& e : m.errors)
    if (e.where != "malformed") throw Violation("refused", "without any fault, " + e.where + " reported: " + e.what);
  const auto& ops = r.run.oplog;
  // where to cut: chosen points, the moments between the calls, and a stride over the rest
  std::set<std::pair<std::size_t, std::size_t>> cuts;  // complete operations, bytes of the next one
  Rng q(static_cast<std::uint64_t>(sc.get("cuts", 1)));
  auto torn = [&](std::size_t i) { return i < ops.size() && ops[i].data.size() > 1 && q.chance(1, 2) ? 1 + q.below(ops[i].data.size() - 1) : 0; };
  const std::size_t want = 48;
  if (ops.size() <= want) {
    for (std::size_t i = 0; i <= ops.size(); ++i) {
      cuts.insert({i, 0});
      cuts.insert({i, torn(i)});
    }
  } else {
    for (std::size_t k = 0; k < 16; ++k) {
      const std::size_t i = q.below(ops.size() + 1);
      cuts.insert({i, torn(i)});
    }
    // the last operations write headers and index
    for (std::size_t k = 0; k < 16; ++k) {
      const std::size_t i = ops.size() - q.skewed(ops.size());
      cuts.insert({i, torn(i)});
    }
    for (std::size_t k = 0; k < 16 && !r.run.marks.empty(); ++k) {
      const std::size_t i = std::min<std::size_t>(ops.size(), r.run.marks[r.run.marks.size() - 1 - q.skewed(r.run.marks.size() - 1)]);
      const std::size_t j = i + q.below(3) >= 1 ? std::min(ops.size(), i + q.below(3) - (i ? 1 : 0)) : i;
      cuts.insert({std::min(j, ops.size()), torn(std::min(j, ops.size()))});
    }
  }
  Blob img(false);
  std::size_t applied = 0;
  Hash h = s.trace;
  std::uint64_t visible = 0, samples_ok = 0, gone = 0;
  for (auto& [n, part] : cuts) {
    for (; applied < n; ++applied) img.write(ops[applied].off, ops[applied].data.data(), ops[applied].data.size());
    Blob cut(false);
    const Blob* b = &img;
    if (part && n < ops.size()) {
      cut.dense = img.dense;
      cut.write(ops[n].off, ops[n].data.data(), part);
      b = &cut;
    }
    out.st.faults_fired[part ? "crash/inside-an-operation" : "crash/between-operations"]++;
    DFile f;
    bool incomplete = false;
    try {
      f = demux(*b, true, &incomplete);
    } catch (const Violation& v) {
      // an image a reader has to refuse shows nothing; but a progressive file whose index is there must be readable
      (void)v;
      ++gone;
      h.u64(0xBAD);
      continue;
    }
    h.u64(f.has_moov);
    if (!f.has_moov) continue;
    ++visible;
    if (f.tracks.size() > m.order.size()) throw Violation("crash-image", fmt_str("after %zu operations the index shows %zu tracks of %zu", n, f.tracks.size(), m.order.size()));
    for (std::size_t i = 0; i < f.tracks.size(); ++i) {
      const DTrack& d = f.tracks[i];
      const MTrack& t = m.tracks[static_cast<std::size_t>(m.order[i])];
      if (d.track_id != t.id) throw Violation("crash-image", fmt_str("after %zu operations track %zu has the wrong identifier", n, i));
      if (d.samples.size() > t.s.size()) throw Violation("crash-image", fmt_str("after %zu operations track %zu shows %zu samples of %zu", n, i, d.samples.size(), t.s.size()));
      for (std::size_t k = 0; k < d.samples.size(); ++k) {
        const DSample& x = d.samples[k];
        const bool survives = x.off + x.size <= b->size();
        if (!survives) {
          if (!m.fast) throw Violation("crash-image", fmt_str("after %zu operations a visible index refers to media that did not survive (track %zu sample %zu)", n, i, k));
          continue;
        }
        Bytes got(x.size);
        if (!b->read(x.off, x.size, got.data()) || got != t.s[k].data)
          throw Violation("crash-image", fmt_str("after %zu operations (and %zu bytes of the next) track %zu sample %zu shows wrong content", n, part, i, k));
        ++samples_ok;
      }
    }
  }
  out.st.merge(s.st);
  out.st.probes["crash-images"] += cuts.size();
  out.st.probes["crash-images-with-visible-index"] += visible;
  out.st.probes["crash-images-a-reader-refuses"] += gone;
  out.st.probes["samples-compared-in-crash-images"] += samples_ok;
  out.st.probes[m.fast ? "layout-fast-start" : "layout-progressive"]++;
  out.st.sim_ms += sim_media_ms(m);
  h.mem(r.dev.dense.data(), r.dev.dense.size());
  out.hash = h.h;
  out.state = shape_state(sc);
  out.nontrivial = m.media_bytes > 0;
  return out;
}

// ------------------------------------------------------------------------------------------------- W11
// fault lines: "alloc" as usual; "medium STEP UNITS": from that addition's sample number UNITS on nothing is stored
Outcome run_w11(const Scenario& sc) {
  Outcome out;
  Session s;
  Ran r;
  setup_session(sc, s, "main");
  s.spool_dir = scratch_dir();
  MuxOpts o;
  o.keep_going = true;
  std::vector<Step> plain;
  for (auto& f : sc.faults) {
    if (f.name == "medium") o.refuse[static_cast<int>(f.arg(0))] = f.arg(1);
    else plain.push_back(f);
  }
  s.add_faults(plain);
  run_mux(sc, s, r.dev, o, &r.run);
  release_spools(s);
  MuxModel& m = r.run.m;
  Hash h = s.trace;
  h.mem(r.dev.dense.data(), r.dev.dense.size());
  h.u64(m.finished);
  out.hash = h.h;
  std::size_t refused = 0;
  for (auto& e : m.errors) refused += e.where == "addData" || e.where == "malformed";
  if (m.finished) {
    try {
      resolve_optional(m, r.dev);
      DFile f;
      check_media(m, r.dev, &f);
      check_timing(m, f);
      check_identity(m, f, r.dev);
      bool open = false;  // units of refused access units of tracks that are not in the file
      for (auto& t : m.tracks)
        for (auto& x : t.s) open |= x.opt != 0;
      if (!open && f.mdat_end - f.mdat_begin != m.media_bytes)
        throw Violation("samples", fmt_str("media-data box holds %llu bytes, the accepted samples %llu", (unsigned long long)(f.mdat_end - f.mdat_begin), (unsigned long long)m.media_bytes));
    } catch (const Violation& v) {
      if (v.cls == "structure" || v.cls == "samples" || v.cls == "timing" || v.cls == "identity" || v.cls == "record")
        throw Violation("others-damaged", fmt_str("%zu additions were refused and the file finished, yet: [", refused) + v.cls + "] " + v.msg);
      throw;
    }
    if (refused) s.st.probes["finished-after-refusals"]++;
  } else {
    s.st.probes["not-finished"]++;
    if (!s.fired) throw Violation("refused", m.errors.empty() ? std::string("muxing did not finish") : "without any fault, " + m.errors.back().where + " reported: " + m.errors.back().what);
  }
  s.st.probes[m.fast ? "layout-fast-start" : "layout-progressive"]++;
  out.st.merge(s.st);
  out.st.sim_ms += sim_media_ms(m);
  out.state = shape_state(sc);
  out.nontrivial = refused > 0;
  return out;
}

void plan_w11(Scenario& sc, Rng& r) {
  std::vector<std::map<std::string, std::uint64_t>> c;
  MuxOpts o;
  o.keep_going = true;
  rehearse(sc, o, &c);
  std::vector<int> adds;
  for (std::size_t i = 0; i < sc.steps.size(); ++i)
    if (sc.steps[i].name == "add" || sc.steps[i].name == "h264") adds.push_back(static_cast<int>(i));
  if (adds.empty()) return;
  const auto n = 1 + r.below(r.chance(1, 4) ? 8 : 3);
  int prev = -1;
  for (std::uint64_t k = 0; k < n; ++k) {
    // runs of refusals and refusals right before or after a chunk end are interesting
    int i = adds[r.below(adds.size())];
    if (prev >= 0 && r.chance(1, 3)) i = std::min<int>(prev + 1, static_cast<int>(sc.steps.size()) - 1);
    prev = i;
    const auto& st = sc.steps[static_cast<std::size_t>(i)];
    if (st.name != "add" && st.name != "h264") continue;
    if (r.chance(1, 2)) {
      sc.faults.push_back({"medium", {i, st.name == "h264" ? r.range(0, 3) : 0}});
    } else if (static_cast<std::size_t>(i) + 1 < c.size()) {
      const auto a = c[static_cast<std::size_t>(i)]["alloc"], b = c[static_cast<std::size_t>(i) + 1]["alloc"];
      if (b > a) sc.faults.push_back({"alloc", {static_cast<std::int64_t>(a + r.below(b - a)), kFail, 0, 0}});
    }
  }
}

// ------------------------------------------------------------------------------------------------- W14 (muxing)
}  // namespace

void plan_w14_mux(Scenario& sc, Rng& r) {
  std::map<std::string, std::uint64_t> fin;
  auto c = rehearse(sc, {}, nullptr, nullptr, &fin);
  if (!c["alloc"]) return;
  const auto n = 1 + (r.chance(1, 4) ? r.below(3) : 0);
  for (std::uint64_t k = 0; k < n; ++k)
    sc.faults.push_back({"alloc", {place(r, c["alloc"], fin["alloc"]), kFail, 0, r.chance(1, 3) ? 1 : 0}});
}
Outcome run_w14_mux(const Scenario& sc) {
  Outcome o = faulted(sc, {}, true);
  o.st.probes["muxing-runs"]++;
  return o;
}
Scenario gen_w14_mux(std::uint64_t seed) {
  Rng r(seed);
  GenOpts g = small_opts(r);
  g.max_ops = std::min(g.max_ops, 25);
  return gen_mux("W14", r, seed, g);
}

namespace {

const std::vector<const char*> kReal{"shiguredo::mp4 track classes", "SimpleWriter", "FaststartWriter", "box/box_info/bitio encoders", "glibc stdio buffering of the spool", "libstdc++ ostream"};
const std::vector<const char*> kStub{"output medium (in-memory streambuf with faults and seeded buffering)", "spool device below stdio (faults, seeded buffering, scratch file)", "wall clock", "allocator (failures, fill pattern, accounting)", "independent demuxer as the reading side"};
const std::vector<const char*> kAssume{"single-threaded use of one writer", "timestamps of a track never decrease and successive gaps fit 32 bits", "declared durations cover the samples", "a track's chunk is ended before another track adds"};

struct Reg {
  Reg() {
    auto& E = engines();
    E.push_back({"W07",
                 [](std::uint64_t seed, int, std::uint64_t) {
                   Rng r(seed);
                   return gen_mux("W07", r, seed, small_opts(r));
                 },
                 plan_w07, [](const Scenario& sc) { return faulted(sc, opts_w07(sc), true); }, 32000, 1200000,
                 "one run = one seeded muxing history with one to three faults (refused, partial or throwing write, failed seek or position query, one-shot or persistent, or a full medium) placed over the operations counted in a fault-free rehearsal, half of them in the finishing calls; non-trivial when a fault fired",
                 kReal, kStub, {"layout-fast-start", "layout-progressive"}, kAssume});
    E.push_back({"W08",
                 [](std::uint64_t seed, int, std::uint64_t) {
                   Rng r(seed);
                   GenOpts g = small_opts(r);
                   g.layout = 1;
                   if (r.chance(1, 3)) g.max_size = 6000;
                   return gen_mux("W08", r, seed, g);
                 },
                 plan_w08, [](const Scenario& sc) { return faulted(sc, {}, true); }, 30000, 1000000,
                 "one run = one seeded fast-start history with one to three spool faults (creation, open, refused or partial write, failed, short or prematurely ending read, failed positioning, close and removal; one-shot or persistent) placed over rehearsed operations; non-trivial when a fault fired",
                 kReal, kStub, {"layout-fast-start"}, kAssume});
    E.push_back({"W09",
                 [](std::uint64_t seed, int, std::uint64_t) {
                   Rng r(seed);
                   Scenario sc;
                   sc.prop = "W09";
                   sc.seed = seed;
                   sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
                   sc.p["sbuf"] = r.pick<std::int64_t>({-1, -1, 0, 16, 4096});
                   const auto n = 1 + r.below(r.chance(1, 5) ? 9 : 4);
                   const auto tk = r.range(0, 3);
                   for (std::uint64_t i = 0; i < n; ++i)
                     sc.steps.push_back({"writer", {r.range(1, 1LL << 40), r.chance(1, 6) ? 0 : 1, r.chance(1, 4) ? r.range(0, 14) : -1, r.chance(1, 3) ? r.range(0, 4) : -1,
                                                    r.chance(1, 3) ? r.range(0, 5) : -1, r.chance(1, 2) ? 1 : 0, tk == 3 ? r.range(0, 9) : tk}});
                   if (r.chance(1, 2))
                     for (std::uint64_t k = 0; k < 1 + r.below(3); ++k) {
                       const char* site = r.pick<const char*>({"spool.open", "spool.fdopen", "spool.fdopen", "spool.close", "spool.remove", "spool.read", "spool.seek", "spool.write", "out.write", "out.seek", "alloc"});
                       const std::string sn = site;
                       const auto lim = sn == "alloc" ? 4000 : sn == "out.write" || sn == "out.seek" ? r.pick<std::int64_t>({12, 100, 300, 1500}) : sn == "spool.write" || sn == "spool.read" ? 12 : 4;
                       sc.faults.push_back({site, {r.range(0, lim), kFail, 0, r.chance(1, 4) ? 1 : 0}});
                     }
                   return sc;
                 },
                 nullptr, run_w09, 18000, 700000,
                 "one run = one to nine writers in a row or nested inside one another's lifetime, finished, abandoned at a seeded step or finishing call, or failing to open their spool; handles, spool files and memory are audited after each; distinct by order, abandonment points and faults",
                 kReal, kStub, {"writers-alive-together", "abandoned-or-failed", "open-failed", "finished", "memory-accounted"}, {"an abandoned recording's spool file belongs to the caller"}});
    E.push_back({"W10",
                 [](std::uint64_t seed, int, std::uint64_t) {
                   Rng r(seed);
                   GenOpts g = small_opts(r);
                   g.bad264 = false;
                   g.allow_omit = true;
                   Scenario s = gen_mux("W10", r, seed, g);
                   s.p["cuts"] = r.range(1, 1LL << 40);
                   return s;
                 },
                 nullptr, run_w10, 18000, 700000,
                 "one run = one seeded muxing history whose device operations are recorded and cut at up to about fifty points, between and inside operations, biased to the finishing calls; every image is read by a lenient demuxer; distinct by history",
                 kReal, kStub, {"crash-images", "crash-images-with-visible-index", "samples-compared-in-crash-images", "layout-fast-start", "layout-progressive"},
                 {"a crash keeps exactly a prefix of the device operations, the last one possibly torn", "an index cut short is no index"}});
    E.push_back({"W11",
                 [](std::uint64_t seed, int, std::uint64_t) {
                   Rng r(seed);
                   GenOpts g = small_opts(r);
                   g.vary_buffers = false;
                   g.bad264 = r.chance(1, 2);
                   g.h264_bias = r.chance(1, 3) ? 6 : 0;
                   Scenario s = gen_mux("W11", r, seed, g);
                   s.p["obuf"] = 0;
                   s.p["sbuf"] = 0;
                   return s;
                 },
                 plan_w11, run_w11, 30000, 1000000,
                 "one run = one seeded muxing history over unbuffered media in which one to eight additions are refused (medium accepts nothing from a unit boundary on, an allocation inside the addition fails, malformed access units) and the caller goes on; non-trivial when an addition was refused",
                 kReal, kStub, {"finished-after-refusals", "refused-addition", "layout-fast-start", "layout-progressive"}, kAssume});
  }
} reg;

}  // namespace

}  // namespace sim
