// Engine of W06: files beyond 4 GiB, on sparse media.
#include <algorithm>
#include <memory>

#include "mux.hpp"

#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/writer/writer.hpp"

namespace sim {

namespace {

constexpr std::uint64_t kMax32 = 0xffffffffULL;

// a box of the caller's own that holds any number of pattern bytes
class BigBox : public shiguredo::mp4::Box {
 public:
  explicit BigBox(std::uint64_t n) : m_n(n) { m_type = shiguredo::mp4::BoxType("zbig"); }
  std::string toStringOnlyData() const override { return ""; }
  std::uint64_t writeData(std::ostream& os) const override {
    for (std::uint64_t at = 0; at < m_n;) {
      const std::uint64_t k = std::min<std::uint64_t>(m_n - at, 1ULL << 31);
      os.write(reinterpret_cast<const char*>(pattern(3) + at % kPatternBlock), static_cast<std::streamsize>(k));
      at += k;
    }
    return m_n * 8;
  }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t getDataSize() const override { return m_n; }

 private:
  std::uint64_t m_n;
};

void run_sparse(const Scenario& sc, Session& s, Blob& dev, MuxRun* r) {
  setup_session(sc, s, "main");
  s.spool_dir = scratch_dir();
  s.spool_sparse = true;
  MuxOpts o;
  o.keep_going = true;
  if (const auto big = sc.get("bigbox", -1); big >= 0) {
    const int stage = static_cast<int>(sc.get("bigstage"));
    o.on_index = [&s, big, stage](shiguredo::mp4::writer::Writer& w, int at) {
      if (at != stage) return;
      lib_call([&] { new shiguredo::mp4::BoxInfo({.parent = w.getMoovBoxInfo(), .box = new BigBox(static_cast<std::uint64_t>(big))}); });
      s.st.probes["caller-box-in-index"]++;
    };
  }
  run_mux(sc, s, dev, o, r);
  release_spools(s);
}

void judge_headers(const PBox& b) {
  const std::uint64_t content = b.size - b.hdr;
  const bool need = content + 8 > kMax32;
  if (b.to_eof) throw Violation("width", "box '" + b.type + "' has no size");
  if (need != (b.hdr == 16))
    throw Violation("width", fmt_str("box '%s' with %llu bytes of content has a %llu-byte header", b.type.c_str(), (unsigned long long)content, (unsigned long long)b.hdr));
  for (auto& k : b.kids) judge_headers(k);
}

Outcome run_w06(const Scenario& sc) {
  Outcome out;
  Session s;
  Blob dev(true);
  MuxRun r;
  run_sparse(sc, s, dev, &r);
  MuxModel& m = r.m;
  for (auto& e : m.errors)
    if (e.where != "oversize") throw Violation("refused", "without any fault, " + e.where + " reported: " + e.what);
  if (!m.finished) throw Violation("refused", "muxing did not finish");
  DFile f;
  check_media(m, dev, &f);
  check_layout(m, f, dev);
  check_timing(m, f);
  if (f.mdat_end - f.mdat_begin != m.media_bytes)
    throw Violation("width", fmt_str("media-data box holds %llu bytes, %llu were added", (unsigned long long)(f.mdat_end - f.mdat_begin), (unsigned long long)m.media_bytes));
  for (auto& b : f.top) judge_headers(b);
  int wide = 0, narrow = 0;
  for (std::size_t i = 0; i < f.tracks.size(); ++i) {
    const DTrack& t = f.tracks[i];
    const std::uint64_t top = t.chunk_offs.empty() ? 0 : *std::max_element(t.chunk_offs.begin(), t.chunk_offs.end());
    if (t.co64 != (top > kMax32))
      throw Violation("width", fmt_str("track %zu: chunk offsets up to %llu in a %s-bit table", i, (unsigned long long)top, t.co64 ? "64" : "32"));
    if (!t.chunk_offs.empty()) (t.co64 ? wide : narrow)++;
    for (auto o : t.chunk_offs) {
      if (o == kMax32) out.st.probes["chunk-at-last-32-bit-offset"]++;
      if (o == kMax32 + 1) out.st.probes["chunk-at-first-64-bit-offset"]++;
      if (o > 0x7fffffff && o <= kMax32) out.st.probes["chunk-beyond-2-GiB"]++;
    }
    for (auto& x : t.samples)
      if (x.size > 0x7fffffff) out.st.probes["sample-beyond-2-GiB"]++;
  }
  const std::uint64_t limit = kMax32 - 8;
  if (m.media_bytes == limit) out.st.probes["media-at-last-32-bit-size"]++;
  if (m.media_bytes == limit + 1) out.st.probes["media-at-first-64-bit-size"]++;
  if (wide && narrow) out.st.probes["only-some-tracks-need-64-bit-offsets"]++;
  if (wide && m.media_bytes <= limit) out.st.probes["64-bit-offsets-but-32-bit-media-size"]++;
  if (!wide && m.media_bytes > limit) out.st.probes["64-bit-media-size-but-32-bit-offsets"]++;
  if (m.media_bytes > 2 * kMax32) out.st.probes["beyond-8-GiB"]++;
  out.st.probes[m.fast ? "layout-fast-start" : "layout-progressive"]++;
  // the library's own header reader finds the same top-level boxes (the tree reader loads payloads whole, so not here)
  {
    Session q;
    q.name = "reader";
    SessScope ss(&q);
    SimIn si(q, dev, static_cast<std::uint64_t>(sc.get("frag")), sc.seed);
    std::istream is(&si);
    for (auto& b : f.top) {
      std::string err;
      std::uint64_t off = 0, size = 0, hdr = 0;
      bool type = false;
      const bool ok = lib_call([&] {
        std::unique_ptr<shiguredo::mp4::BoxHeader> h(shiguredo::mp4::read_box_header(is));
        off = h->getOffset();
        size = h->getSize();
        hdr = h->getHeaderSize();
        type = h->getType() == shiguredo::mp4::BoxType(b.type);
        h->seekToEnd(is);
      }, &err);
      if (!ok) throw Violation("read-back", "a header of the finished file was refused: " + err);
      if (off != b.off || size != b.size || hdr != b.hdr || !type)
        throw Violation("read-back", fmt_str("header of '%s' read back as %llu+%llu (header %llu), is %llu+%llu (header %llu)", b.type.c_str(), (unsigned long long)off,
                                             (unsigned long long)size, (unsigned long long)hdr, (unsigned long long)b.off, (unsigned long long)b.size, (unsigned long long)b.hdr));
      s.trace.u64(off);
      s.trace.u64(size);
    }
    out.st.merge(q.st);
  }
  out.st.merge(s.st);
  out.st.sim_ms += sim_media_ms(m);
  out.st.probes["simulated-MiB"] += dev.size() >> 20;
  Hash h = s.trace;
  h.u64(dev.size());
  out.hash = h.h;
  Hash q;
  q.u64(shape_state(sc));
  q.u64(static_cast<std::uint64_t>(wide) << 32 | static_cast<std::uint64_t>(narrow));
  q.u64(std::min<std::uint64_t>(m.media_bytes > limit ? m.media_bytes - limit : limit - m.media_bytes, 64));
  for (auto& t : f.tracks)
    if (!t.chunk_offs.empty()) q.u64(static_cast<std::uint64_t>(std::clamp<std::int64_t>(static_cast<std::int64_t>(t.chunk_offs.back() - kMax32), -64, 64)));
  out.state = q.h;
  out.nontrivial = m.media_bytes > 0x7fffffff || sc.get("bigbox", -1) > 0x7fffffff;
  return out;
}

Scenario gen_w06(std::uint64_t seed, int, std::uint64_t index) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "W06";
  sc.seed = seed;
  const bool fast = index % 4 == 3;   // a fast-start file is copied for real, which costs a second
  sc.p["layout"] = fast;
  sc.p["mvts"] = 1000;
  sc.p["dm"] = 1000;
  sc.p["obuf"] = r.pick<std::int64_t>({0, 0, 64, 4096, 65536});
  sc.p["sbuf"] = r.pick<std::int64_t>({-1, 4096, 65536, 1 << 20});
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 13, 4096});
  sc.p["opbudget"] = 20'000'000;
  if (r.chance(1, 2)) sc.p["order"] = r.range(1, 1000000);
  if (r.chance(1, 3)) sc.p["brand"] = r.range(1, 1 << 30);
  const int nt = static_cast<int>(1 + r.below(4));
  std::vector<int> labels, kinds;
  for (int i = 0; i < nt; ++i) {
    const int k = static_cast<int>(r.below(kKinds));
    labels.push_back(i);
    kinds.push_back(k);
    sc.steps.push_back({"track", {i, k, r.pick<std::int64_t>({1000, 48000, 90000}), 0, r.chance(1, 2) ? r.range(1, 1000) : 0, 1000, 0}});
  }
  bool can = false;
  for (auto k : kinds) can |= k != kH264;
  if (!can) {
    sc.steps[0].a[1] = kVP9;
    kinds[0] = kVP9;
  }
  auto big_label = [&] {
    int l;
    do l = static_cast<int>(r.below(static_cast<std::uint64_t>(nt)));
    while (kinds[static_cast<std::size_t>(l)] == kH264);
    return l;
  };
  auto small = [&](bool medium = true) {
    const int l = static_cast<int>(r.below(static_cast<std::uint64_t>(nt)));
    const auto n = r.chance(1, 8) ? 0 : static_cast<std::int64_t>(r.skewed(3000));
    if (kinds[static_cast<std::size_t>(l)] == kH264)
      sc.steps.push_back({"add", {l, r.range(0, 3000), n, static_cast<std::int64_t>(r.below(2)), r.range(1, 1 << 30)}});
    else
      sc.steps.push_back({"big", {l, r.range(0, 3000), medium && r.chance(1, 3) ? r.range(0, 300 << 20) : n, static_cast<std::int64_t>(r.below(2)), static_cast<std::int64_t>(r.below(kPatterns))}});
    if (r.chance(1, 3)) sc.steps.push_back({"chunk", {static_cast<std::int64_t>(r.below(static_cast<std::uint64_t>(nt)))}});
  };
  auto filler = [&](std::int64_t n) { sc.steps.push_back({"big", {big_label(), r.range(0, 3000), n, static_cast<std::int64_t>(r.below(2)), static_cast<std::int64_t>(r.below(kPatterns))}}); };
  for (auto n = r.below(5); n > 0; --n) small();
  const std::int64_t first = r.pick<std::int64_t>({static_cast<std::int64_t>(kMax32) - (400 << 20), 0x7fffffff, static_cast<std::int64_t>(kMax32), static_cast<std::int64_t>(kMax32) - 1, 3LL << 30});
  filler(first);
  const bool many = r.chance(1, 12);
  for (auto n = r.below(many ? 400 : 6); n > 0; --n) small(!many);
  if (r.chance(2, 3)) filler(r.range(0, 1 << 30));
  for (auto n = 1 + r.below(6); n > 0; --n) small();
  if (!fast) {
    for (auto n = r.below(4); n > 0 && r.chance(1, 3); --n) filler(static_cast<std::int64_t>(kMax32) - static_cast<std::int64_t>(r.skewed(1 << 20)));
    if (r.chance(1, 6)) {
      sc.p["bigstage"] = static_cast<std::int64_t>(r.below(2));
      sc.p["bigbox"] = r.chance(1, 8) ? r.range(0, 100) : static_cast<std::int64_t>(kMax32) - 8 + r.range(-3, 3) - (r.chance(1, 2) ? static_cast<std::int64_t>(r.below(3000)) : 0);
    }
  }
  if (r.chance(1, 5)) filler(static_cast<std::int64_t>(kMax32) + 1 + static_cast<std::int64_t>(r.skewed(1 << 20)));
  return sc;
}

// Puts the file on a limit: a rehearsal with the large samples shrunk tells where the media data begins and which
// sample begins which chunk; a large sample is then resized so that the chosen quantity lands on or beside the limit.
void plan_w06(Scenario& sc, Rng& r) {
  const std::uint64_t what = r.below(10);
  if (what == 0) return;
  Scenario small = sc;
  auto shrunk = [](std::int64_t n) { return n > 100 ? 100 : n; };
  for (auto& st : small.steps)
    if (st.name == "big" && st.arg(2) <= static_cast<std::int64_t>(kMax32)) st.a[2] = shrunk(st.a[2]);
  if (small.get("bigbox", -1) > 100) small.p["bigbox"] = 100;
  std::uint64_t begin = 0, moov = 0;
  std::size_t moov_traks = 0;
  struct Smp {
    std::uint64_t off, size;
    int step;
    bool starts;
    std::size_t track;
  };
  std::vector<Smp> v;
  std::size_t chunks = 0;
  try {
    Session s;
    Blob dev(true);
    MuxRun run;
    run_sparse(small, s, dev, &run);
    const DFile f = demux(dev);
    begin = f.mdat_begin;
    for (auto& b : f.top)
      if (b.type == "moov") moov = b.size;
    moov_traks = f.tracks.size();
    for (std::size_t i = 0; i < f.tracks.size() && i < run.m.order.size(); ++i) {
      const int label = run.m.tracks[static_cast<std::size_t>(run.m.order[i])].cfg.label;
      std::vector<int> steps;
      for (std::size_t k = 0; k < small.steps.size(); ++k)
        if ((small.steps[k].name == "big" && small.steps[k].arg(2) <= static_cast<std::int64_t>(kMax32)) || small.steps[k].name == "add")
          if (small.steps[k].arg(0) == label) steps.push_back(static_cast<int>(k));
      chunks += f.tracks[i].chunk_offs.size();
      std::uint32_t last = 0;
      for (std::size_t k = 0; k < f.tracks[i].samples.size() && k < steps.size(); ++k) {
        const auto& x = f.tracks[i].samples[k];
        v.push_back({x.off, x.size, steps[k], x.chunk != last, i});
        last = x.chunk;
      }
    }
  } catch (const Violation&) {
    return;   // the run itself will show it
  }
  (void)moov_traks;
  std::sort(v.begin(), v.end(), [](const Smp& a, const Smp& b) { return a.step < b.step; });
  auto full = [&](const Smp& x) {
    const Step& st = sc.steps[static_cast<std::size_t>(x.step)];
    return st.name == "big" ? static_cast<std::uint64_t>(st.arg(2)) : x.size;
  };
  auto delta = [&]() -> std::int64_t {
    switch (r.below(4)) {
      case 0: return r.range(-1, 1);
      case 1: return r.range(-9, 9);
      case 2: return r.range(-64, 64);
      default: return 0;
    }
  };
  const bool fast = sc.get("layout") == 1;
  auto slack = [&]() -> std::int64_t {
    // what the index may grow by before it settles
    if (!fast) return 0;
    std::int64_t g = 0;
    if (r.chance(1, 2)) g += 8;
    if (r.chance(1, 2)) g += 4 * static_cast<std::int64_t>(r.below(chunks + 1));
    return g;
  };
  // the media bytes before sample k shall be want: resize one of the large samples before it
  auto aim = [&](std::size_t k, std::int64_t want) {
    std::vector<std::size_t> c;
    std::int64_t sum = 0;
    for (std::size_t j = 0; j < k; ++j) {
      sum += static_cast<std::int64_t>(full(v[j]));
      if (sc.steps[static_cast<std::size_t>(v[j].step)].name == "big" && full(v[j]) > (1 << 20)) c.push_back(j);
    }
    for (auto it = c.rbegin(); it != c.rend(); ++it) {
      Step& st = sc.steps[static_cast<std::size_t>(v[*it].step)];
      const std::int64_t n = st.a[2] + want - sum;
      if (n < 0 || n > static_cast<std::int64_t>(kMax32)) continue;
      st.a[2] = n;
      return true;
    }
    return false;
  };
  bool hit = false;
  const std::int64_t lim = static_cast<std::int64_t>(kMax32);
  if (what <= 6) {
    std::vector<std::size_t> starts;
    for (std::size_t k = 1; k < v.size(); ++k) {
      bool last = true;
      for (std::size_t j = k + 1; j < v.size(); ++j) last &= !(v[j].track == v[k].track && v[j].starts);
      if (v[k].starts && (last || r.chance(1, 6))) starts.push_back(k);
    }
    if (!starts.empty()) {
      const std::int64_t l = r.chance(1, 10) ? 0x7fffffff : lim;
      hit = aim(r.pick(starts), l + delta() - static_cast<std::int64_t>(begin) - slack());
    }
  } else if (what <= 8 || fast) {
    hit = aim(v.size(), lim - 8 + delta());
  } else if (sc.get("bigbox", -1) > 100) {
    sc.p["bigbox"] = std::max<std::int64_t>(0, lim - 16 - static_cast<std::int64_t>(moov - 8 - 108) + delta());
    hit = true;
  } else {
    hit = aim(v.size(), lim + delta() - static_cast<std::int64_t>(begin));   // where the index begins
  }
  if (hit) sc.p["aimed"] = static_cast<std::int64_t>(what);
}

struct Reg {
  Reg() {
    Engine e;
    e.id = "W06";
    e.gen = gen_w06;
    e.plan = plan_w06;
    e.run = run_w06;
    e.quick_runs = 900;
    e.thorough_runs = 12000;
    e.rule = "one run = one seeded history whose media data straddles 2 or 4 GiB, on sparse simulated media; a rehearsal places a chunk offset, the media size, the index position or a caller's box on or beside the limit";
    e.real = {"writers, tracks, boxes (real)", "stdio over the simulated spool (real)", "header reader (real)"};
    e.stub = {"output medium", "spool medium (sparse)", "input medium", "clock"};
    e.must_probe = {"chunk-at-last-32-bit-offset", "chunk-at-first-64-bit-offset", "media-at-last-32-bit-size", "media-at-first-64-bit-size",
                    "only-some-tracks-need-64-bit-offsets", "64-bit-offsets-but-32-bit-media-size", "64-bit-media-size-but-32-bit-offsets",
                    "oversize-refused", "layout-fast-start", "layout-progressive", "caller-box-in-index"};
    e.assumptions = {"sample content is one of four repeating 64 KiB patterns, stored as extents; the content oracle compares every byte against the pattern",
                     "an independent demultiplexer written from the format specification is the oracle"};
    e.group = 2;
    e.cpu_limit = 120;
    engines().push_back(std::move(e));
  }
} reg;

}  // namespace

}  // namespace sim
