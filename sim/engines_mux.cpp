// Engines of the muxing properties without I/O faults: W01-W05, W12, H01.
#include <algorithm>

#include "mux.hpp"

namespace sim {

namespace {

void refuse_errors(const MuxModel& m) {
  for (auto& e : m.errors)
    if (e.where != "malformed") throw Violation("refused", "without any fault, " + e.where + " reported: " + e.what);
  if (!m.finished) throw Violation("refused", "muxing did not finish");
}

struct Ran {
  MuxRun run;
  Blob dev{false};
};

void mux_once(const Scenario& sc, const char* name, Session& s, Ran* r, const MuxOpts& o = {}) {
  setup_session(sc, s, name);
  s.spool_dir = scratch_dir();
  s.add_faults(sc.faults);
  run_mux(sc, s, r->dev, o, &r->run);
  const int open = release_spools(s);
  (void)open;
  if (s.st.probes.count("foreign-removal")) throw Violation("foreign-removal", "a file that is not this writer's spool was to be removed");
}

void probe_shape(Outcome& o, const MuxModel& m) {
  std::size_t n = 0, chunks = 0;
  bool empty_track = false, zero = false;
  for (auto& t : m.tracks) {
    n += t.s.size();
    chunks = std::max<std::size_t>(chunks, t.chunks_closed);
    empty_track |= t.s.empty();
    for (auto& x : t.s) zero |= x.data.empty();
  }
  if (m.tracks.size() > 1) o.st.probes["several-tracks"]++;
  if (m.tracks.empty()) o.st.probes["no-track"]++;
  if (chunks > 1) o.st.probes["several-chunks-in-a-track"]++;
  if (empty_track) o.st.probes["track-without-samples"]++;
  if (zero) o.st.probes["empty-sample"]++;
  if (n > 200) o.st.probes["hundreds-of-samples"]++;
  o.st.probes[m.fast ? "layout-fast-start" : "layout-progressive"]++;
  o.st.probes["samples"] += n;
}

using Oracle = std::function<void(const MuxModel&, const DFile&, const Blob&)>;

Outcome plain(const Scenario& sc, const Oracle& oracle) {
  Outcome o;
  Session s;
  Ran r;
  mux_once(sc, "main", s, &r);
  MuxModel& m = r.run.m;
  refuse_errors(m);
  resolve_optional(m, r.dev);
  DFile f;
  check_media(m, r.dev, &f);
  oracle(m, f, r.dev);
  o.st.merge(s.st);
  o.st.sim_ms += sim_media_ms(m);
  probe_shape(o, m);
  Hash h = s.trace;
  h.mem(r.dev.dense.data(), r.dev.dense.size());
  o.hash = h.h;
  o.state = shape_state(sc);
  o.nontrivial = m.media_bytes > 0;
  return o;
}

GenOpts sized(Rng& r, std::uint64_t index) {
  GenOpts g;
  if (index % 61 == 60) {
    g.max_ops = 1500;
    g.max_size = 90;
    g.max_tracks = 3;
  } else if (index % 17 == 16) {
    g.max_ops = 12;
    g.max_size = 70000;
  } else if (index % 7 == 6) {
    g.max_tracks = 12;
  }
  if (index % 1500 == 700) {
    g.max_ops = 20;
    g.max_size = 60;
    g.max_tracks = 2;
    g.bulk = true;
  }
  if (index % 997 == 500) {
    g.max_ops = 700;
    g.max_size = 30;
    g.max_tracks = 300;
  }
  if (index % 29 == 13) {
    g.max_ops = 25;
    g.max_size = 60;
    g.max_tracks = 2;
    g.alias = true;
  }
  (void)r;
  return g;
}

// equality of everything a demuxer sees except placement
void same_tracks(const DFile& a, const Blob& da, const DFile& b, const Blob& db) {
  auto bad = [](const std::string& w) { throw Violation("layouts-differ", w); };
  if (a.tracks.size() != b.tracks.size()) bad("number of tracks");
  if (a.mv_duration != b.mv_duration || a.mv_timescale != b.mv_timescale || a.mv_ctime != b.mv_ctime || a.mv_mtime != b.mv_mtime || a.next_track_id != b.next_track_id)
    bad("movie header");
  if (a.major != b.major || a.minor != b.minor || a.brands != b.brands) bad("brands");
  for (std::size_t i = 0; i < a.tracks.size(); ++i) {
    const DTrack &x = a.tracks[i], &y = b.tracks[i];
    if (x.track_id != y.track_id || x.tk_flags != y.tk_flags || x.tk_duration != y.tk_duration || x.tk_width != y.tk_width || x.tk_height != y.tk_height ||
        x.tk_volume != y.tk_volume || x.tk_ctime != y.tk_ctime || x.tk_mtime != y.tk_mtime)
      bad(fmt_str("track header of track %zu", i));
    if (x.md_duration != y.md_duration || x.timescale != y.timescale || x.md_ctime != y.md_ctime || x.md_mtime != y.md_mtime || x.handler != y.handler)
      bad(fmt_str("media header of track %zu", i));
    if (x.edits.size() != y.edits.size()) bad("edit list");
    for (std::size_t k = 0; k < x.edits.size(); ++k)
      if (x.edits[k].dur != y.edits[k].dur || x.edits[k].media_time != y.edits[k].media_time || x.edits[k].rate != y.edits[k].rate) bad("edit list");
    if (x.entry.size != y.entry.size || rd_vec(da, x.entry.off, x.entry.size) != rd_vec(db, y.entry.off, y.entry.size)) bad(fmt_str("sample description of track %zu", i));
    if (x.stss != y.stss || x.has_stss != y.has_stss) bad("sync samples");
    if (x.samples.size() != y.samples.size()) bad("number of samples");
    if (x.chunk_offs.size() != y.chunk_offs.size()) bad("number of chunks");
    for (std::size_t k = 0; k < x.samples.size(); ++k)
      if (x.samples[k].size != y.samples[k].size || x.samples[k].dts != y.samples[k].dts || x.samples[k].dur != y.samples[k].dur || x.samples[k].chunk != y.samples[k].chunk)
        bad(fmt_str("sample %zu of track %zu", k, i));
  }
}

Scenario noise(std::uint64_t seed) {
  Rng r(seed);
  GenOpts g;
  g.max_ops = 10;
  g.max_tracks = 3;
  g.params = true;
  return gen_mux("noise", r, seed, g);
}

Outcome run_w12(const Scenario& sc) {
  Outcome o = {};
  Session s1;
  Ran a;
  mux_once(sc, "first", s1, &a);
  refuse_errors(a.run.m);
  // something else in between
  if (const auto ns = sc.get("noise", 0)) {
    Session sn;
    Ran n;
    mux_once(noise(static_cast<std::uint64_t>(ns)), "noise", sn, &n);
    o.st.merge(sn.st);
    o.st.probes["unrelated-session-in-between"]++;
  }
  Scenario v = sc;
  v.p["obuf"] = sc.get("obuf2", 0);
  v.p["sbuf"] = sc.get("sbuf2", -1);
  v.p["fill"] = sc.get("fill2", 0);
  v.p["cstep"] = 0;
  Session s2;
  Ran b;
  // hold some memory so that the second run's objects lie elsewhere
  std::vector<std::unique_ptr<char[]>> hold;
  for (std::int64_t i = 0; i < sc.get("hold", 0); ++i) hold.emplace_back(new char[static_cast<std::size_t>(16 + i * 7)]);
  if (sc.get("host")) o.st.probes["other-time-zone-or-locale"]++;
  {
    HostEnv he(sc.get("host"));
    mux_once(v, "second", s2, &b);
  }
  refuse_errors(b.run.m);
  if (a.dev.dense != b.dev.dense) {
    std::size_t k = 0;
    while (k < a.dev.dense.size() && k < b.dev.dense.size() && a.dev.dense[k] == b.dev.dense[k]) ++k;
    throw Violation("files-differ", fmt_str("equal histories give files of %zu and %zu bytes that differ at byte %zu", a.dev.dense.size(), b.dev.dense.size(), k));
  }
  if (s1.ops != s2.ops) o.st.probes["different-device-operations"]++;
  MuxOpts other;
  other.layout = a.run.m.fast ? 0 : 1;
  Session s3;
  Ran c;
  mux_once(v, "other", s3, &c, other);
  refuse_errors(c.run.m);
  if (c.run.m.media_bytes != a.run.m.media_bytes) throw Violation("layouts-differ", "accepted media differs");
  // both layouts must come to the same verdict about every step
  if (c.run.m.errors.size() != a.run.m.errors.size()) throw Violation("layouts-differ", "reported errors differ");
  resolve_optional(a.run.m, a.dev);
  resolve_optional(c.run.m, c.dev);
  DFile fa, fc;
  check_media(a.run.m, a.dev, &fa);
  check_media(c.run.m, c.dev, &fc);
  same_tracks(fa, a.dev, fc, c.dev);
  o.st.merge(s1.st);
  o.st.merge(s2.st);
  o.st.merge(s3.st);
  o.st.sim_ms += sim_media_ms(a.run.m) * 3;
  probe_shape(o, a.run.m);
  Hash h = s1.trace;
  h.u64(s2.trace.h);
  h.u64(s3.trace.h);
  h.mem(a.dev.dense.data(), a.dev.dense.size());
  h.mem(c.dev.dense.data(), c.dev.dense.size());
  o.hash = h.h;
  o.state = shape_state(sc);
  o.nontrivial = a.run.m.media_bytes > 0;
  return o;
}

Outcome run_w05(const Scenario& sc) {
  Outcome o = plain(sc, [](const MuxModel& m, const DFile& f, const Blob&) { check_clock(m, f); });
  // the same history at another time: only the stamps may differ
  Scenario v = sc;
  v.p["clock"] = sc.get("clock2", 1'700'000'000'000'000'000LL);
  v.p["cstep"] = 0;
  v.steps.erase(std::remove_if(v.steps.begin(), v.steps.end(), [](const Step& s) { return s.name == "clock"; }), v.steps.end());
  // keep step parity (both overloads of the addition are chosen by it): both runs without clock steps
  Scenario u = v;
  u.p["clock"] = sc.get("clock", 1'600'000'000'000'000'000LL);
  u.p["cstep"] = sc.get("cstep", 0);
  Session s1, s2;
  Ran a, b;
  mux_once(u, "first", s1, &a);
  {
    HostEnv he(sc.get("host"));
    mux_once(v, "second", s2, &b);
  }
  refuse_errors(a.run.m);
  refuse_errors(b.run.m);
  DFile fa, fb;
  check_media(a.run.m, a.dev, &fa);
  check_media(b.run.m, b.dev, &fb);
  check_clock(a.run.m, fa);
  check_clock(b.run.m, fb);
  auto big = [](const MuxModel& m) { return m.ctor_clock_ns / 1'000'000'000LL + 2082844800LL > 0xffffffffLL; };
  if (big(a.run.m)) o.st.probes["stamp-beyond-32-bits"]++;
  else o.st.probes["stamp-within-32-bits"]++;
  if (big(a.run.m) == big(b.run.m)) {
    if (a.dev.dense.size() != b.dev.dense.size()) throw Violation("clock-dependence", "file size depends on the clock");
    std::size_t n = 0;
    for (std::size_t i = 0; i < a.dev.dense.size(); ++i) n += a.dev.dense[i] != b.dev.dense[i];
    const std::size_t stamps = (big(a.run.m) ? 8 : 4) * 2 * (1 + 2 * fa.tracks.size());
    if (n > stamps) throw Violation("clock-dependence", fmt_str("%zu bytes depend on the clock, the stamps have %zu", n, stamps));
  }
  // everything but the stamps
  for (auto* f : {&fa, &fb}) {
    f->mv_ctime = f->mv_mtime = 0;
    for (auto& t : f->tracks) t.tk_ctime = t.tk_mtime = t.md_ctime = t.md_mtime = 0;
  }
  same_tracks(fa, a.dev, fb, b.dev);
  Hash h;
  h.u64(o.hash);
  h.u64(s1.trace.h);
  h.u64(s2.trace.h);
  h.mem(b.dev.dense.data(), b.dev.dense.size());
  o.hash = h.h;
  o.st.merge(s1.st);
  o.st.merge(s2.st);
  o.st.sim_ms += static_cast<std::uint64_t>(std::abs(v.get("clock") - u.get("clock")) / 1'000'000);
  return o;
}

const std::vector<const char*> kReal{"shiguredo::mp4 track classes", "SimpleWriter", "FaststartWriter", "box/box_info/bitio encoders", "glibc stdio buffering of the spool", "libstdc++ ostream"};
const std::vector<const char*> kStub{"output medium (in-memory streambuf with seeded buffering)", "spool device below stdio (seeded buffering, scratch file)", "wall clock", "allocator fill pattern", "independent demuxer as the reading side"};
const std::vector<const char*> kAssume{"single-threaded use of one writer", "timestamps of a track never decrease and successive gaps fit 32 bits", "declared durations cover the samples", "a track's chunk is ended before another track adds"};

struct Reg {
  Reg() {
    auto& E = engines();
    E.push_back({"W01",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   GenOpts g = sized(r, i);
                   g.layout = 0;
                   g.params = r.chance(1, 3);
                   return gen_mux("W01", r, seed, g);
                 },
                 nullptr,
                 [](const Scenario& sc) {
                   return plain(sc, [](const MuxModel& m, const DFile& f, const Blob& d) {
                     (void)d;
                     for (auto& b : f.top)
                       if (b.type != "ftyp" && b.type != "free" && b.type != "mdat" && b.type != "moov") throw Violation("structure", "unexpected top-level box " + b.type);
                     (void)m;
                   });
                 },
                 32000, 900000, "one run = one seeded muxing history (tracks, codecs, interleaving, chunk ends, sizes, buffering); non-trivial when media bytes were stored; distinct by layout, kinds, order and size classes", kReal, kStub,
                 {"several-tracks", "several-chunks-in-a-track", "track-without-samples", "empty-sample", "no-track", "hundreds-of-samples"}, kAssume});
    E.push_back({"W02",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   GenOpts g = sized(r, i);
                   g.layout = 1;
                   g.params = r.chance(1, 3);
                   return gen_mux("W02", r, seed, g);
                 },
                 nullptr, [](const Scenario& sc) { return plain(sc, [](const MuxModel& m, const DFile& f, const Blob& d) { check_layout(m, f, d); }); }, 30000, 700000,
                 "as W01, in the fast-start layout", kReal, kStub, {"several-tracks", "several-chunks-in-a-track", "track-without-samples", "empty-sample", "hundreds-of-samples"}, kAssume});
    E.push_back({"W03",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   GenOpts g = sized(r, i);
                   g.max_size = std::min<std::size_t>(g.max_size, 300);
                   g.big_numbers = r.chance(1, 2);
                   g.loose_durations = r.chance(1, 3);
                   return gen_mux("W03", r, seed, g);
                 },
                 nullptr, [](const Scenario& sc) { return plain(sc, [](const MuxModel& m, const DFile& f, const Blob&) { check_timing(m, f); }); }, 32000, 900000,
                 "one run = one seeded muxing history with seeded time scales, time steps, durations beyond 32 bits, negative and 64-bit media start times; non-trivial when media was stored", kReal, kStub,
                 {"several-tracks", "layout-fast-start", "layout-progressive"}, kAssume});
    E.push_back({"W04",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   GenOpts g = sized(r, i);
                   g.max_size = std::min<std::size_t>(g.max_size, 200);
                   g.params = true;
                   g.refused_steps = true;
                   g.own_ids = r.chance(1, 2);
                   return gen_mux("W04", r, seed, g);
                 },
                 nullptr, [](const Scenario& sc) { return plain(sc, [](const MuxModel& m, const DFile& f, const Blob& d) { check_identity(m, f, d); }); }, 32000, 900000,
                 "one run = one seeded muxing history with seeded codec parameters, creation order, hand-over order, omitted tracks, identifier draws and zero-identifier attempts", kReal, kStub,
                 {"several-tracks", "zero-id-refused"}, kAssume});
    E.push_back({"W05",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   GenOpts g;
                   (void)i;
                   g.max_ops = 25;
                   g.max_size = 60;
                   g.clock = true;
                   Scenario s = gen_mux("W05", r, seed, g);
                   if (r.chance(1, 3)) s.p["host"] = r.range(1, 15);
                   s.p["clock2"] = (r.chance(1, 2) ? r.range(0, 2212122495LL) : r.range(0, 7258118400LL)) * 1'000'000'000LL + r.range(0, 999'999'999);
                   return s;
                 },
                 nullptr, run_w05, 16000, 600000,
                 "one run = the same muxing history under three clock behaviours (steps, jumps back and forward, readings around the 32-bit limits); distinct by history", kReal, kStub,
                 {"stamp-beyond-32-bits", "stamp-within-32-bits"}, kAssume});
    E.push_back({"W12",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   GenOpts g = sized(r, i);
                   g.params = r.chance(1, 2);
                   g.bad264 = r.chance(1, 4);
                   Scenario s = gen_mux("W12", r, seed, g);
                   s.p["obuf2"] = r.pick<std::int64_t>({0, 1, 5, 128, 4096, 65536});
                   s.p["sbuf2"] = r.pick<std::int64_t>({-1, 0, 3, 512, 70000});
                   s.p["fill2"] = r.pick<std::int64_t>({0, 0xFF, 0x5A, 0x01});
                   if (r.chance(1, 3)) s.p["host"] = r.range(1, 15);
                   s.p["hold"] = r.range(0, 40);
                   if (r.chance(1, 2)) s.p["noise"] = r.range(1, 1 << 30);
                   return s;
                 },
                 nullptr, run_w12, 9000, 400000,
                 "one run = one history muxed three times: twice in one layout with different stream and spool buffering, memory fill, memory layout and an unrelated session in between, once in the other layout", kReal, kStub,
                 {"unrelated-session-in-between", "different-device-operations", "other-time-zone-or-locale"}, kAssume});
    E.push_back({"H01",
                 [](std::uint64_t seed, int, std::uint64_t i) {
                   Rng r(seed);
                   if (i % 9 == 4) return gen_h264_raw(r, seed);
                   GenOpts g = sized(r, i);
                   g.h264_bias = 9;
                   g.bad264 = true;
                   g.many_sets = r.chance(1, 12);
                   g.max_tracks = 3;
                   g.max_size = std::min<std::size_t>(g.max_size, 2000);
                   Scenario s = gen_mux("H01", r, seed, g);
                   // one slice per access unit additions also go through the unit splitter; make most of them multi-unit
                   for (auto& st : s.steps)
                     if (st.name == "add" && r.chance(1, 2)) {
                       Step h{"h264", {st.arg(0), st.arg(1), st.arg(3), st.arg(4)}};
                       const auto n = 1 + r.below(6);
                       for (std::uint64_t u = 0; u < n; ++u) {
                         const auto ty = r.pick<std::int64_t>({1, 5, 1, 2, 6, 7, 8});
                         h.a.push_back(ty);
                         h.a.push_back(r.pick<std::int64_t>({3, 4}));
                         h.a.push_back(ty == 7 || ty == 8 ? r.range(ty == 7 ? 5 : 2, 11) : 1 + static_cast<std::int64_t>(r.chance(1, 4) ? r.below(3) : r.skewed(400)));
                       }
                       int kind = -1;
                       for (auto& t : s.steps)
                         if (t.name == "track" && t.arg(0) == st.arg(0)) kind = static_cast<int>(t.arg(1));
                       if (kind == kH264) st = h;
                     }
                   if (r.chance(1, 1200)) {
                     // one slice around the size at which the highest byte of its length comes into use
                     for (auto& st : s.steps)
                       if (st.name == "h264" && st.a.size() >= 7) {
                         st.a[4] = 5;
                         st.a[6] = (1 << 24) - 4 + r.range(0, 40);
                         s.p["obuf"] = 65536;
                         s.p["sbuf"] = -1;
                         break;
                       }
                   }
                   return s;
                 },
                 nullptr,
                 [](const Scenario& sc) {
                   if (sc.get("raw")) return run_h264_raw(sc);
                   return plain(sc, [](const MuxModel& m, const DFile& f, const Blob& d) {
                     check_timing(m, f);
                     for (std::size_t i = 0; i < f.tracks.size(); ++i) {
                       const MTrack& t = m.tracks[static_cast<std::size_t>(m.order[i])];
                       if (t.cfg.kind == kH264) check_h264_record(t, f.tracks[i], d);
                     }
                   });
                 },
                 32000, 900000,
                 "one run = a seeded stream of access units (start-code lengths, unit types, emulation-prevention patterns, repeated parameter sets, malformed units) through H.264 tracks among others, or access units of arbitrary bytes judged by an independent splitter", kReal, kStub,
                 {"malformed-refused", "too-many-parameter-sets", "parameter-set-too-long", "raw-accepted", "raw-refused", "raw-open-ended"}, kAssume});
  }
} reg;

}  // namespace

void warm_up_mux() {
  for (int layout = 0; layout < 2; ++layout) {
    Scenario sc;
    sc.prop = "warm";
    sc.p["layout"] = layout;
    sc.p["dm"] = 10;
    for (int k = 0; k < kKinds; ++k) {
      sc.steps.push_back({"track", {k, k, 1000, 0, 5 + k, 10, 0}});
      sc.steps.push_back({"add", {k, 10, 20, 1, 77}});
    }
    sc.steps.push_back({"h264", {kH264, 1, 1, 5, 7, 4, 20, 8, 3, 9, 5, 4, 30}});
    sc.steps.push_back({"bad264", {kH264, 1, 1, 5, 7, 4, 20}});
    sc.steps.push_back({"zero", {0}});
    sc.steps.push_back({"zero", {3}});
    Session s;
    Ran r;
    try {
      mux_once(sc, "warm", s, &r);
      DFile f;
      resolve_optional(r.run.m, r.dev);
      check_media(r.run.m, r.dev, &f);
    } catch (const Violation&) {
    }
  }
  t_sess = nullptr;
  t_lib = 0;
}

}  // namespace sim
