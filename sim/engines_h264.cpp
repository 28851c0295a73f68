// H01, second half: access units of arbitrary bytes. An independent splitter predicts which of them are well formed, which
// units they consist of and what must be stored; the buffer handed over has exactly the announced size.
#include <algorithm>
#include <memory>

#include "mux.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

namespace sim {

namespace {

using Bytes = std::vector<std::uint8_t>;

struct Split {
  std::vector<Bytes> slices;   // stored before the end or the first malformed unit
  bool malformed = false;
  bool open = false;           // the standard leaves the reading open: only safety is judged
};

// 3 or 4 when a start code begins at i, 0 otherwise
int code_at(const Bytes& d, std::size_t i) {
  if (i + 4 <= d.size() && d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 0 && d[i + 3] == 1) return 4;
  if (i + 3 <= d.size() && d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) return 3;
  return 0;
}

Split split(const Bytes& d) {
  Split r;
  std::size_t at = 0;
  if (!code_at(d, 0)) {
    r.malformed = true;
    return r;
  }
  while (at < d.size()) {
    const std::size_t b = at + static_cast<std::size_t>(code_at(d, at));
    std::size_t e = b;
    while (e < d.size() && !code_at(d, e)) ++e;
    if (b == d.size()) {
      // a start code with nothing behind it: the first one makes the data malformed, a later one may be read either way
      if (at == 0) r.malformed = true;
      else r.open = true;
      return r;
    }
    if (e == b) {  // a unit without a header
      r.malformed = true;
      return r;
    }
    // zero bytes between a unit and the next start code may be read as padding or as content
    if (d[e - 1] == 0 && e - b > 1) r.open = true;
    const int type = d[b] & 0x1f;
    if (type >= 1 && type <= 5) {
      Bytes s{0, 0, static_cast<std::uint8_t>((e - b) >> 8), static_cast<std::uint8_t>(e - b)};
      s.insert(s.end(), d.begin() + static_cast<std::ptrdiff_t>(b), d.begin() + static_cast<std::ptrdiff_t>(e));
      r.slices.push_back(std::move(s));
    } else if (type < 6 || type > 8) {
      r.malformed = true;
      return r;
    }
    at = e;
  }
  return r;
}

struct Au {
  Split want;
  bool taken = false;
};

// do the stored samples, in order, consist of what every access unit may have contributed?
bool fits(const std::vector<Au>& aus, std::size_t a, const std::vector<Bytes>& got, std::size_t g, std::uint64_t* budget) {
  if (*budget == 0) return true;
  --*budget;
  if (a == aus.size()) return g == got.size();
  const Au& x = aus[a];
  if (x.want.open) {
    for (std::size_t k = g; k <= got.size(); ++k)
      if (fits(aus, a + 1, got, k, budget)) return true;
    return false;
  }
  std::size_t k = 0;
  while (k < x.want.slices.size() && g + k < got.size() && got[g + k] == x.want.slices[k]) ++k;
  if (x.taken) return k == x.want.slices.size() && fits(aus, a + 1, got, g + k, budget);
  for (std::size_t j = k + 1; j-- > 0;)
    if (fits(aus, a + 1, got, g + j, budget)) return true;
  return false;
}

}  // namespace

Scenario gen_h264_raw(Rng& r, std::uint64_t seed) {
  Scenario sc;
  sc.prop = "H01";
  sc.seed = seed;
  sc.p["raw"] = 1;
  sc.p["obuf"] = r.pick<std::int64_t>({0, 0, 7, 4096});
  sc.p["fill"] = r.pick<std::int64_t>({0, 1, 0xA5, 0xFF});
  const auto n = 1 + r.below(6);
  for (std::uint64_t i = 0; i < n; ++i) {
    Step st{"au", {r.range(0, 1)}};
    const bool tidy = r.chance(1, 2);
    if (!r.chance(1, 30)) {
      const auto tokens = 1 + r.below(tidy ? 7 : 12);
      bool code = true;
      for (std::uint64_t k = 0; k < tokens; ++k) {
        const auto what = code ? r.below(2) : r.below(tidy ? 4 : 8);
        switch (what) {
          case 0:
            st.a.push_back(0);
            [[fallthrough]];
          case 1:
            st.a.push_back(0);
            st.a.push_back(0);
            st.a.push_back(1);
            if (tidy || r.chance(9, 10)) st.a.push_back(r.pick<std::int64_t>({1, 0x21, 0x41, 0x65, 0x65, 2, 3, 4, 6, 7, 8, 0x67, 0x68, tidy ? 5 : 0, tidy ? 5 : 9, tidy ? 5 : 0x80}));
            break;
          case 2:
          case 3:
            for (auto m = 1 + r.below(tidy ? 20 : 5); m--;) st.a.push_back(r.pick<std::int64_t>({2, 3, 0x7f, 0x80, 0xff}));
            break;
          case 4:
            for (auto m = 1 + r.below(4); m--;) st.a.push_back(0);
            break;
          case 5:
            st.a.push_back(1);
            break;
          case 6:
            st.a.insert(st.a.end(), {0, 0, 3});
            break;
          default:
            st.a.push_back(r.range(0, 255));
        }
        code = tidy ? r.chance(1, 3) : r.chance(1, 6);
      }
      if (!tidy && r.chance(1, 4)) {  // the data ends within or right behind a start code
        for (auto m = 1 + r.below(3); m--;) st.a.push_back(0);
        if (r.chance(2, 3)) st.a.push_back(1);
      }
    }
    sc.steps.push_back(std::move(st));
  }
  return sc;
}

Outcome run_h264_raw(const Scenario& sc) {
  Outcome o;
  Session s;
  setup_session(sc, s, "main");
  s.spool_dir = scratch_dir();
  s.add_faults(sc.faults);
  Blob dev(false);
  std::vector<Au> aus;
  {
    SessScope ss(&s);
    SimOut so(s, dev, static_cast<std::size_t>(std::clamp<std::int64_t>(sc.get("obuf"), 0, 1 << 16)));
    std::ostream os(&so);
    std::unique_ptr<shiguredo::mp4::writer::SimpleWriter> w;
    std::unique_ptr<shiguredo::mp4::track::H264Track> t;
    std::string err;
    auto must = [&](const char* what, const std::function<void()>& f) {
      if (!lib_call(f, &err)) throw Violation("refused", std::string("without any fault, ") + what + " reported: " + err);
    };
    must("construction", [&] {
      w.reset(new shiguredo::mp4::writer::SimpleWriter(os, {.mvhd_timescale = 1000, .duration = 100.0f}));
      w->writeFtypBox();
      t.reset(new shiguredo::mp4::track::H264Track({.timescale = 1000, .duration = 100.0f, .track_id = w->getAndUpdateNextTrackID(), .width = 64, .height = 48, .writer = w.get()}));
    });
    std::uint64_t ts = 0;
    for (auto& st : sc.steps) {
      Bytes d;
      for (std::size_t k = 1; k < st.a.size(); ++k) d.push_back(static_cast<std::uint8_t>(st.a[k]));
      Au au;
      au.want = split(d);
      std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[d.size()]);
      std::copy(d.begin(), d.end(), exact.get());
      au.taken = lib_call([&] { t->addData(ts, exact.get(), d.size(), st.arg(0) != 0); }, &err);
      ++ts;
      const int i = static_cast<int>(aus.size());
      if (au.want.open) {
        o.st.probes["raw-open-ended"]++;
      } else if (au.want.malformed) {
        if (au.taken) throw Violation("malformed-accepted", fmt_str("access unit %d is malformed, yet it was accepted", i));
        o.st.probes["raw-refused"]++;
      } else {
        if (!au.taken) throw Violation("refused", fmt_str("access unit %d is well formed, yet it was refused: ", i) + err);
        o.st.probes["raw-accepted"]++;
      }
      s.trace.u64(au.taken);
      aus.push_back(std::move(au));
    }
    must("finishing", [&] {
      w->appendTrakAndUdtaBoxInfo({t.get()});
      w->writeFreeBoxAndMdatHeader();
      w->writeMoovBox();
      os.flush();
    });
    LibScope l;
    t.reset();
    w.reset();
  }
  release_spools(s);
  const DFile f = demux(dev);
  if (f.tracks.size() != 1) throw Violation("structure", "the file does not hold exactly one track");
  std::vector<Bytes> got;
  for (auto& x : f.tracks[0].samples) {
    if (x.off + x.size > dev.size()) throw Violation("samples", "a sample lies outside the file");
    Bytes b(x.size);
    dev.read(x.off, x.size, b.data());
    got.push_back(std::move(b));
  }
  std::uint64_t budget = 20000;
  if (!fits(aus, 0, got, 0, &budget))
    throw Violation("samples", fmt_str("the %zu stored samples are not the slices of the access units handed over", got.size()));
  o.st.merge(s.st);
  o.st.sim_ms += 1;
  Hash h = s.trace;
  h.mem(dev.dense.data(), dev.dense.size());
  o.hash = h.h;
  o.state = shape_state(sc);
  for (auto& st : sc.steps)
    for (auto v : st.a) o.state = o.state * 1099511628211ULL + static_cast<std::uint64_t>(v);
  o.nontrivial = !got.empty();
  return o;
}

}  // namespace sim
