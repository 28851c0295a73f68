#include "mux.hpp"

#include <algorithm>
#include <cmath>
#include <ostream>
#include <set>
#include <tuple>

#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

namespace sim {

namespace mp4 = shiguredo::mp4;

// ------------------------------------------------------------------------------------------------- Annex B
Bytes nal_body(std::uint64_t seed, std::size_t n, std::uint8_t header) {
  if (n < 1) n = 1;
  Bytes b = payload(seed, n);
  Rng r(seed ^ 0x4a11);
  const bool zeros = r.chance(1, 2);
  b[0] = header;
  for (std::size_t i = 1; i < n; ++i)
    if (zeros && r.chance(2, 5)) b[i] = static_cast<std::uint8_t>(r.below(4));
  if (!zeros && n > 8 && r.chance(1, 3)) {  // emulation-prevented sequences
    const std::size_t at = 1 + r.below(n - 6);
    b[at] = b[at + 1] = 0;
    b[at + 2] = 3;
    b[at + 3] = static_cast<std::uint8_t>(r.below(4));
  }
  for (std::size_t i = 1; i < n; ++i)
    if (i >= 3 && b[i - 1] == 0 && b[i - 2] == 0 && b[i] < 3) b[i] = 3;
  if (n > 1 && b[n - 1] == 0) b[n - 1] = 0x80;
  return b;
}

void append_nal(Bytes* au, const Bytes& nal, int start_code) {
  if (start_code == 4) au->push_back(0);
  au->push_back(0);
  au->push_back(0);
  au->push_back(1);
  au->insert(au->end(), nal.begin(), nal.end());
}

// ------------------------------------------------------------------------------------------------- runner
namespace {

TrackCfg cfg_of(const Step& st) {
  TrackCfg c;
  c.label = static_cast<int>(st.arg(0));
  c.kind = static_cast<int>(static_cast<std::uint64_t>(st.arg(1)) % kKinds);
  c.timescale = static_cast<std::uint32_t>(std::clamp<std::int64_t>(st.arg(2, 1000), 1, 0xffffffffLL));
  if (c.kind == kOpus) c.timescale = 48000;
  c.media_time = st.arg(3);
  c.duration = static_cast<float>(std::ldexp(static_cast<double>(std::clamp<std::int64_t>(st.arg(5), 0, 0xffffff)),
                                             static_cast<int>(std::clamp<std::int64_t>(st.arg(6), -40, 40))));
  if (const auto ps = static_cast<std::uint64_t>(st.arg(4))) {
    Rng r(ps);
    c.width = static_cast<std::uint32_t>(r.chance(1, 4) ? r.pick<std::int64_t>({0, 1, 65535, 32768}) : r.range(1, 65535));
    c.height = static_cast<std::uint32_t>(r.chance(1, 4) ? r.pick<std::int64_t>({0, 1, 65535, 32768}) : r.range(1, 65535));
    c.max_br = static_cast<std::uint32_t>(r.next());
    c.avg_br = static_cast<std::uint32_t>(r.next());
    c.buf_db = static_cast<std::uint32_t>(r.below(1 << 24));
    c.pre_skip = r.below(65536);
    c.roll = static_cast<int>(r.range(-32768, 32767));
    c.av[0] = static_cast<std::uint8_t>(r.below(8));
    c.av[1] = static_cast<std::uint8_t>(r.below(32));
    for (int i = 2; i < 5; ++i) c.av[i] = static_cast<std::uint8_t>(r.below(2));
    c.av[5] = static_cast<std::uint8_t>(r.below(4));
    c.obus = payload(ps ^ 0x0b0, r.chance(1, 8) ? r.skewed(70000) : r.below(48));
    c.obus_given = true;
    c.avc[0] = static_cast<std::uint8_t>(r.below(256));
    c.avc[1] = static_cast<std::uint8_t>(r.pick<std::int64_t>({66, 77, 88, 100, 110, 122, 244, 0, 255}));
    c.avc[2] = static_cast<std::uint8_t>(r.below(256));
    c.avc[3] = static_cast<std::uint8_t>(r.below(256));
  }
  return c;
}

__attribute__((noinline)) void scribble_stack(int fill) {
  volatile unsigned char b[24576];
  std::memset(const_cast<unsigned char*>(b), fill, sizeof b);
  asm volatile("" ::"r"(b) : "memory");
}

std::unique_ptr<mp4::track::Track> make_track(const TrackCfg& c, mp4::writer::Writer* w, std::uint32_t id) {
  using namespace mp4::track;
  const std::uint32_t ts = c.timescale;
  switch (c.kind) {
    case kVP8:
    case kVP9:
      return std::unique_ptr<Track>(new VPXTrack({.codec = c.kind == kVP8 ? VPXCodec::VP8 : VPXCodec::VP9,
                                                  .timescale = ts,
                                                  .media_time = c.media_time,
                                                  .duration = c.duration,
                                                  .track_id = id,
                                                  .width = c.width,
                                                  .height = c.height,
                                                  .max_bitrate = c.max_br,
                                                  .avg_bitrate = c.avg_br,
                                                  .writer = w}));
    case kAV1:
      if (!c.obus_given)
        return std::unique_ptr<Track>(new AV1Track({.timescale = ts,
                                                    .media_time = c.media_time,
                                                    .duration = c.duration,
                                                    .track_id = id,
                                                    .width = c.width,
                                                    .height = c.height,
                                                    .writer = w}));
      return std::unique_ptr<Track>(new AV1Track({.timescale = ts,
                                                  .media_time = c.media_time,
                                                  .duration = c.duration,
                                                  .track_id = id,
                                                  .width = c.width,
                                                  .height = c.height,
                                                  .seq_profile = c.av[0],
                                                  .seq_level_idx_0 = c.av[1],
                                                  .seq_tier_0 = c.av[2],
                                                  .chroma_subsampling_x = c.av[3],
                                                  .chroma_subsampling_y = c.av[4],
                                                  .chroma_sample_position = c.av[5],
                                                  .config_OBUs = c.obus,
                                                  .writer = w}));
    case kH264:
      return std::unique_ptr<Track>(new H264Track({.timescale = ts,
                                                   .media_time = c.media_time,
                                                   .duration = c.duration,
                                                   .track_id = id,
                                                   .width = c.width,
                                                   .height = c.height,
                                                   .configuration_version = c.avc[0],
                                                   .profile = c.avc[1],
                                                   .profile_compatibility = c.avc[2],
                                                   .level = c.avc[3],
                                                   .writer = w}));
    case kAAC:
      return std::unique_ptr<Track>(new AACTrack({.timescale = ts,
                                                  .duration = c.duration,
                                                  .media_time = c.media_time,
                                                  .track_id = id,
                                                  .buffer_size_db = c.buf_db,
                                                  .max_bitrate = c.max_br,
                                                  .avg_bitrate = c.avg_br,
                                                  .writer = w}));
    case kMP3:
      return std::unique_ptr<Track>(new MP3Track({.timescale = ts,
                                                  .duration = c.duration,
                                                  .media_time = c.media_time,
                                                  .track_id = id,
                                                  .buffer_size_db = c.buf_db,
                                                  .max_bitrate = c.max_br,
                                                  .avg_bitrate = c.avg_br,
                                                  .writer = w}));
    default:
      return std::unique_ptr<Track>(new OpusTrack({.pre_skip = c.pre_skip,
                                                   .duration = c.duration,
                                                   .media_time = c.media_time,
                                                   .roll_distance = static_cast<std::int16_t>(c.roll),
                                                   .track_id = id,
                                                   .writer = w}));
  }
}

void push_optional(MTrack& mt, std::vector<MSample>& expect, const std::vector<Bytes>& sps, const std::vector<Bytes>& pps, int group) {
  for (auto& e : expect) {
    e.opt = group + 1;
    mt.s.push_back(e);
  }
  for (auto& x : sps) {
    mt.sps.push_back(x);
    mt.sps_opt.resize(mt.sps.size(), false);
    mt.sps_opt.back() = true;
  }
  for (auto& x : pps) {
    mt.pps.push_back(x);
    mt.pps_opt.resize(mt.pps.size(), false);
    mt.pps_opt.back() = true;
  }
}

std::uint64_t ticks(std::uint32_t ts, float d) { return static_cast<std::uint64_t>(static_cast<long double>(ts) * static_cast<long double>(d)); }

}  // namespace

void setup_session(const Scenario& sc, Session& s, const std::string& name) {
  s.name = name;
  s.clock_ns = sc.get("clock", 1'600'000'000'000'000'000LL);
  s.clock_step_ns = sc.get("cstep", 0);
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  s.spool_bufsize = sc.get("sbuf", -1);
  s.op_budget = static_cast<std::uint64_t>(sc.get("opbudget", 5'000'000));
}

// "rep TRACK N SIZE DT EVERY SEED": N additions of SIZE bytes each, DT ticks apart, a chunk end after every EVERY of them
Scenario expanded(const Scenario& in) {
  Scenario sc = in;
  sc.steps.clear();
  for (const auto& st : in.steps) {
    if (st.name != "rep") {
      sc.steps.push_back(st);
      continue;
    }
    const auto n = std::clamp<std::int64_t>(st.arg(1), 0, 200000), every = st.arg(4);
    for (std::int64_t k = 0; k < n; ++k) {
      const std::int64_t key = st.arg(6) ? k % st.arg(6) == 0 : 0;
      sc.steps.push_back({"add", {st.arg(0), st.arg(3), st.arg(2), key, st.arg(5) + k}});
      if (every > 0 && k % every == every - 1) sc.steps.push_back({"chunk", {st.arg(0)}});
    }
  }
  return sc;
}

void run_mux(const Scenario& in, Session& s, Blob& dev, const MuxOpts& o, MuxRun* out) {
  const bool rep = std::any_of(in.steps.begin(), in.steps.end(), [](const Step& st) { return st.name == "rep"; });
  const Scenario exp = rep ? expanded(in) : Scenario{};
  const Scenario& sc = rep ? exp : in;
  MuxModel& m = out->m;
  m.fast = o.layout >= 0 ? o.layout == 1 : sc.get("layout") == 1;
  m.mvts = static_cast<std::uint32_t>(std::clamp<std::int64_t>(sc.get("mvts", 1000), 1, 0xffffffffLL));
  m.duration = static_cast<float>(std::ldexp(static_cast<double>(std::clamp<std::int64_t>(sc.get("dm", 0), 0, 0xffffff)),
                                             static_cast<int>(std::clamp<std::int64_t>(sc.get("de", 0), -40, 40))));
  std::vector<mp4::Brand> cb;
  mp4::Brand mb = mp4::BrandIsom;
  const auto bs = static_cast<std::uint64_t>(sc.get("brand", 0));
  if (bs) {
    Rng r(bs);
    auto rb = [&] {
      std::string b;
      for (int i = 0; i < 4; ++i) b.push_back(static_cast<char>(r.pick<std::int64_t>({'a', 'b', 'i', 's', 'o', 'm', '1', '2', ' '})));
      return b;
    };
    m.major = rb();
    m.minor = static_cast<std::uint32_t>(r.next());
    m.brands.clear();
    const auto n = r.below(7);
    for (std::uint64_t i = 0; i < n; ++i) m.brands.push_back(rb());
    for (int i = 0; i < 4; ++i) mb[static_cast<std::size_t>(i)] = static_cast<std::uint8_t>(m.major[static_cast<std::size_t>(i)]);
    for (auto& b : m.brands)
      cb.push_back({static_cast<std::uint8_t>(b[0]), static_cast<std::uint8_t>(b[1]), static_cast<std::uint8_t>(b[2]),
                    static_cast<std::uint8_t>(b[3])});
  }
  SessScope ss(&s);
  SimOut sb(s, dev, static_cast<std::size_t>(std::clamp<std::int64_t>(sc.get("obuf", 0), 0, 1 << 20)), o.capacity);
  sb.log_ops = o.log_ops;
  std::ostream os(&sb);
  struct Live {
    std::unique_ptr<mp4::track::Track> t;
    std::size_t model;
    std::uint64_t prev = 0, dur = 0;
  };
  std::map<int, Live> live;
  std::vector<int> labels;  // creation order
  std::unique_ptr<mp4::writer::Writer> w;
  mp4::writer::SimpleWriter* sw = nullptr;
  mp4::writer::FaststartWriter* fw = nullptr;
  auto note = [&](const char* where, const std::string& what, int step) {
    m.errors.push_back({where, what, step});
    s.trace.str(where);
  };
  auto guarded = [&](const char* where, int step, const std::function<void()>& f) {
    std::string err;
    scribble_stack(s.fill);
    if (lib_call(f, &err)) return true;
    note(where, err, step);
    return false;
  };
  const std::string tmpl = o.spool_template.empty() ? s.spool_dir + "/mdatXXXXXX" : o.spool_template;
  m.ctor_clock_ns = s.clock_ns;
  bool ok = guarded("constructor", -1, [&] {
    if (m.fast) {
      fw = bs ? new mp4::writer::FaststartWriter(
                    os, {.mvhd_timescale = m.mvts,
                         .duration = m.duration,
                         .mdat_path_templete = tmpl,
                         .ftyp_params = {.major_brand = mb, .minor_version = m.minor, .compatible_brands = cb}})
              : new mp4::writer::FaststartWriter(os, {.mvhd_timescale = m.mvts, .duration = m.duration, .mdat_path_templete = tmpl});
      w.reset(fw);
    } else {
      sw = bs ? new mp4::writer::SimpleWriter(
                    os, {.mvhd_timescale = m.mvts,
                         .duration = m.duration,
                         .ftyp_params = {.major_brand = mb, .minor_version = m.minor, .compatible_brands = cb}})
              : new mp4::writer::SimpleWriter(os, {.mvhd_timescale = m.mvts, .duration = m.duration});
      w.reset(sw);
    }
  });
  m.constructed = ok;
  out->spool_template = tmpl;
  if (ok && fw) {
    s.paused = true;
    guarded("getIntermediateFilePath", -1, [&] {
      const std::string p = fw->getIntermediateFilePath().string();
      HarnessScope hs;
      out->spool_path.assign(p.data(), p.size());
    });
    s.paused = false;
    if (o.on_spool) o.on_spool(out->spool_path);
  }
  if (ok) ok = guarded("writeFtypBox", -1, [&] { w->writeFtypBox(); });
  out->marks.push_back(out->oplog.size());
  bool abandoned = false;
  // the caller's part of the contract: a track's chunk is ended before another track adds to the same media data
  int open_label = -1;
  std::uint64_t first_epoch = 0;
  auto switch_chunk = [&](const Step& st, int si) {
    const int label = static_cast<int>(st.arg(0));
    if (open_label != label && open_label >= 0) {
      Live& l = live.at(open_label);
      if (!guarded("terminateCurrentChunk", si, [&] { l.t->terminateCurrentChunk(); })) {
        ok = o.keep_going;
        return false;
      }
      m.tracks[l.model].chunks_closed++;
    }
    open_label = label;
    return true;
  };
  for (std::size_t i = 0; ok && i < sc.steps.size(); ++i) {
    if (o.abandon_step >= 0 && static_cast<int>(i) >= o.abandon_step) {
      abandoned = true;
      break;
    }
    const Step& st = sc.steps[i];
    const int si = static_cast<int>(i);
    if (o.before_step) o.before_step(si);
    sched_point("step");
    if (st.name == "track") {
      const int label = static_cast<int>(st.arg(0));
      if (live.count(label)) continue;
      TrackCfg c = cfg_of(st);
      const auto own_id = static_cast<std::uint32_t>(st.arg(7));  // 0: from the writer
      std::uint32_t id = 0;
      std::unique_ptr<mp4::track::Track> t;
      if (!guarded("track", si, [&] {
            if (!own_id) id = w->getAndUpdateNextTrackID();
            t = make_track(c, w.get(), own_id ? own_id : id);
          })) {
        ok = o.keep_going;
        if (id) m.ids.push_back(id);
        continue;
      }
      if (own_id) id = own_id;
      else m.ids.push_back(id);
      MTrack mt;
      mt.cfg = c;
      mt.id = id;
      m.tracks.push_back(std::move(mt));
      live[label] = Live{std::move(t), m.tracks.size() - 1, 0, ticks(c.timescale, c.duration)};
      labels.push_back(label);
    } else if (st.name == "ids") {
      for (std::int64_t k = 0; k < std::min<std::int64_t>(st.arg(0), 100000); ++k) {
        std::uint32_t id = 0;
        if (guarded("ids", si, [&] { id = w->getAndUpdateNextTrackID(); })) m.ids.push_back(id);
      }
    } else if (st.name == "zero") {
      TrackCfg c = cfg_of(Step{"track", {0, st.arg(0), 1000, 0, 0, 1, 0}});
      bool refused = !lib_call([&] { make_track(c, w.get(), 0); });
      if (!refused) throw Violation("identity", fmt_str("a track of kind %d accepted the identifier 0", c.kind));
      s.st.probes["zero-id-refused"]++;
    } else if (st.name == "clock") {
      s.clock_ns = std::max<std::int64_t>(0, s.clock_ns + st.arg(0));
    } else if (st.name == "pad") {
      // media data that belongs to no sample, handed to the writer between two chunks
      if (!switch_chunk(Step{"pad", {-2}}, si)) continue;
      open_label = -1;
      const Bytes data = payload(static_cast<std::uint64_t>(st.arg(1)), static_cast<std::size_t>(std::clamp<std::int64_t>(st.arg(0), 0, 1 << 20)));
      if (!guarded("addMdatData", si, [&] { st.arg(1) & 1 ? w->addMdatData(data) : w->addMdatData(data.data(), data.size()); })) {
        ok = o.keep_going;
        if (ok) os.clear();
        continue;
      }
      m.media_bytes += data.size();
      s.st.probes["unreferenced-media-data"]++;
    } else if (st.name == "ask") {
      // questions about the state do not change it
      std::uint64_t at[2] = {0, 0}, epoch = 0, scale = 0;
      if (!guarded("tellCurrentMdatOffset", si, [&] {
            at[0] = w->tellCurrentMdatOffset();
            epoch = w->getTimeFromEpoch();
            scale = w->getMvhdTimescale();
            at[1] = w->tellCurrentMdatOffset();
          })) {
        ok = o.keep_going;
        if (ok) os.clear();
        continue;
      }
      if (at[0] != at[1]) throw Violation("questions", fmt_str("step %d: the place of the next media data moved from %llu to %llu by asking for it", si, (unsigned long long)at[0], (unsigned long long)at[1]));
      if (scale != m.mvts) throw Violation("questions", fmt_str("step %d: the writer says its time scale is %llu, given %u", si, (unsigned long long)scale, m.mvts));
      if (!first_epoch) first_epoch = epoch + 1;
      if (first_epoch != epoch + 1) throw Violation("questions", fmt_str("step %d: the writer's creation time changed from %llu to %llu", si, (unsigned long long)first_epoch - 1, (unsigned long long)epoch));
      for (auto& [label, lv] : live)
        if (std::uint64_t ts = 0; !guarded("getTimescale", si, [&] { ts = lv.t->getTimescale(); }) || ts != m.tracks[lv.model].cfg.timescale)
          throw Violation("questions", fmt_str("step %d: track %d says its time scale is %llu, given %u", si, label, (unsigned long long)ts, m.tracks[lv.model].cfg.timescale));
    } else {
      auto it = live.find(static_cast<int>(st.arg(0)));
      if (it == live.end()) continue;
      Live& l = it->second;
      MTrack& mt = m.tracks[l.model];
      if (st.name == "chunk") {
        if (!guarded("terminateCurrentChunk", si, [&] { l.t->terminateCurrentChunk(); })) ok = o.keep_going;
        mt.chunks_closed++;
      } else if (st.name == "mtime") {
        if (guarded("setMediaTime", si, [&] { l.t->setMediaTime(st.arg(1)); })) mt.cfg.media_time = st.arg(1);
      } else if (st.name == "add" || st.name == "h264" || st.name == "bad264" || st.name == "big") {
        std::uint64_t dt = static_cast<std::uint64_t>(std::max<std::int64_t>(0, st.arg(1)));
        if (!mt.s.empty()) dt = std::min<std::uint64_t>(dt, 0xffffffffULL);
        std::uint64_t ts = std::min(l.dur, l.prev + dt);
        for (std::size_t k = mt.s.size(); k-- > 0;)
          if (!mt.s[k].opt) {
            ts = std::max(std::min(ts, mt.s[k].ts + std::uint64_t(0xffffffff)), l.prev);
            break;
          }
        const bool vec = (i & 1) != 0;  // both overloads
        std::vector<MSample> expect;
        std::vector<Bytes> sps, pps;
        Bytes data;
        bool key;
        if (st.name == "big") {
          // a sample of any size up to the pattern's span, straight from the pattern's address range
          if (mt.cfg.kind == kH264 || !dev.sparse) continue;
          key = st.arg(3) != 0;
          const auto size = std::clamp<std::int64_t>(st.arg(2), 0, static_cast<std::int64_t>(kPatternSpan));
          const int k = static_cast<int>(static_cast<std::uint64_t>(st.arg(4)) % kPatterns);
          if (!switch_chunk(st, si)) continue;
          std::string err;
          const std::uint8_t* p = pattern(k);
          const bool good = lib_call([&] { l.t->addData(ts, p, static_cast<std::size_t>(size), key); }, &err);
          if (size > 0xffffffffLL) {
            if (good) throw Violation("oversize-accepted", fmt_str("step %d: a sample of %lld bytes, which no 32-bit sample size can give, was accepted", si, (long long)size));
            note("oversize", err, si);
            s.st.probes["oversize-refused"]++;
            continue;
          }
          if (!good) {
            note("addData", err, si);
            ok = o.keep_going;
            continue;
          }
          MSample x;
          x.ts = ts;
          x.key = key;
          x.vsize = size;
          x.pat = k;
          m.media_bytes += x.size();
          mt.s.push_back(std::move(x));
          l.prev = ts;
          continue;
        }
        if (st.name == "add") {
          key = st.arg(3) != 0;
          const auto size = static_cast<std::size_t>(std::clamp<std::int64_t>(st.arg(2), 0, 1 << 22));
          const auto pseed = static_cast<std::uint64_t>(st.arg(4));
          if (mt.cfg.kind == kH264) {
            Bytes nal = nal_body(pseed, size, key ? 0x65 : 0x41);
            append_nal(&data, nal, pseed & 1 ? 4 : 3);
            Bytes smp{static_cast<std::uint8_t>(nal.size() >> 24), static_cast<std::uint8_t>(nal.size() >> 16),
                      static_cast<std::uint8_t>(nal.size() >> 8), static_cast<std::uint8_t>(nal.size())};
            smp.insert(smp.end(), nal.begin(), nal.end());
            expect.push_back({std::move(smp), ts, key});
          } else {
            data = payload(pseed, size);
            expect.push_back({data, ts, key});
          }
        } else {
          if (mt.cfg.kind != kH264) continue;
          key = st.arg(2) != 0;
          const auto pseed = static_cast<std::uint64_t>(st.arg(3));
          const std::size_t n = st.a.size() > 4 ? (st.a.size() - 4) / 3 : 0;
          bool bad = n == 0;
          // the decoder record holds at most 31 sequence and 255 picture parameter sets of at most 65535 bytes; what
          // would exceed it is refused. Sets of a partly refused access unit may have been stored or not.
          std::set<Bytes> sure[2], all[2];
          auto known = [&](int w, const std::vector<Bytes>& v, const std::vector<bool>& opt) {
            for (std::size_t k = 0; k < v.size(); ++k) {
              all[w].insert(v[k]);
              if (k >= opt.size() || !opt[k]) sure[w].insert(v[k]);
            }
          };
          known(0, mt.sps, mt.sps_opt);
          known(1, mt.pps, mt.pps_opt);
          bool open = false;
          for (std::size_t u = 0; u < n; ++u) {
            const auto type = static_cast<std::uint8_t>(st.arg(4 + u * 3) & 0x1f);
            const int scode = (st.arg(5 + u * 3) & 15) == 4 ? 4 : 3;
            const auto len = static_cast<std::size_t>(std::clamp<std::int64_t>(st.arg(6 + u * 3), 1, (1 << 24) + 64));
            const std::uint8_t hdr = static_cast<std::uint8_t>(type | (((pseed + u) % 4) << 5));
            Bytes nal;
            if (type == 7 || type == 8) {
              // small identity space: the same parameter set arrives again and again
              nal = nal_body(0x595 + static_cast<std::uint64_t>(type) * 1000 + static_cast<std::uint64_t>(st.arg(6 + u * 3)),
                             std::max<std::size_t>(len, type == 7 ? 5 : 2), static_cast<std::uint8_t>(type | 0x60));
              // a relative of that one: equal but for one byte at one place, or for the importance bits of its first byte
              if (const auto kin = static_cast<std::uint64_t>(std::max<std::int64_t>(st.arg(5 + u * 3), 0)) >> 4) {
                const std::size_t at[] = {nal.size() - 1, 1, nal.size() / 2, 0};
                const std::size_t pos = at[kin % 4];
                if (pos) nal[pos] = static_cast<std::uint8_t>(0x80 | (kin / 4 % 3) << 3);
                else nal[0] = static_cast<std::uint8_t>(type | (1 + kin / 4 % 2) << 5);
              }
            } else {
              nal = nal_body(pseed * 31 + u, len, hdr);
            }
            append_nal(&data, nal, scode);
            if (bad) continue;
            if (type >= 1 && type <= 5) {
              Bytes smp{static_cast<std::uint8_t>(nal.size() >> 24), static_cast<std::uint8_t>(nal.size() >> 16),
                        static_cast<std::uint8_t>(nal.size() >> 8), static_cast<std::uint8_t>(nal.size())};
              smp.insert(smp.end(), nal.begin(), nal.end());
              expect.push_back({std::move(smp), ts, key});
            } else if (type == 7 || type == 8) {
              const int w = type - 7;
              const std::size_t most = w ? 255 : 31;
              if (!sure[w].count(nal)) {
                if (nal.size() > 0xffff || (sure[w].size() >= most)) {
                  bad = true;
                  s.st.probes[nal.size() > 0xffff ? "parameter-set-too-long" : "too-many-parameter-sets"]++;
                  continue;
                }
                if (all[w].size() + (all[w].count(nal) ? 0 : 1) > most) {
                  open = true;
                  break;
                }
                sure[w].insert(nal);
                all[w].insert(nal);
              }
              (w ? pps : sps).push_back(nal);
            } else if (type != 6) {
              bad = true;
            }
          }
          if (open) continue;
          if (st.name == "bad264") {
            // data that does not begin with a start code
            const std::size_t junk = 1 + pseed % 7;
            Bytes j;
            for (std::size_t k = 0; k < junk; ++k) j.push_back(static_cast<std::uint8_t>(0x11 + k));
            if (pseed % 3 == 0) data.clear();
            if (pseed % 3 == 1) data.resize(std::min<std::size_t>(data.size(), pseed % 5));
            j.insert(j.end(), data.begin(), data.end());
            if (pseed % 3 == 2 || !data.empty()) data = j; else data.clear();
            if (pseed % 5 == 0) data = j;
            expect.clear();
            sps.clear();
            pps.clear();
            bad = true;
          }
          if (bad) {
            if (!switch_chunk(st, si)) continue;
            std::string err;
            const std::uint64_t before = s.fired;
            std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[data.size()]);
            std::copy(data.begin(), data.end(), exact.get());
            if (lib_call([&] { vec ? l.t->addData(ts, data, key) : l.t->addData(ts, exact.get(), data.size(), key); }, &err))
              throw Violation("malformed-accepted", fmt_str("step %d: an access unit with an unsupported or malformed unit was accepted", si));
            s.st.probes["malformed-refused"]++;
            // valid units before the point of failure may have been stored
            (void)before;
            note("malformed", err, si);
            push_optional(mt, expect, sps, pps, si);
            if (!expect.empty()) l.prev = ts;
            continue;
          }
        }
        if (!switch_chunk(st, si)) continue;
        if (auto rf = o.refuse.find(si); rf != o.refuse.end()) {
          s.quota = 0;
          for (std::int64_t u = 0; u < rf->second && u < static_cast<std::int64_t>(expect.size()); ++u)
            s.quota += static_cast<std::int64_t>(expect[static_cast<std::size_t>(u)].data.size());
        }
        // the caller's buffer has exactly the announced size, so an over-read is visible
        std::string err;
        bool good;
        {
          std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[data.size()]);
          std::copy(data.begin(), data.end(), exact.get());
          good = lib_call([&] { vec ? l.t->addData(ts, data, key) : l.t->addData(ts, exact.get(), data.size(), key); }, &err);
        }
        s.quota = -1;
        if (!good) {
          note("addData", err, si);
          ok = o.keep_going;
          if (ok) {
            os.clear();
            s.st.probes["refused-addition"]++;
            const std::size_t units = st.name == "h264" ? (st.a.size() - 4) / 3 : 1;
            if (units > 1) {
              push_optional(mt, expect, sps, pps, si);
              if (!expect.empty()) l.prev = ts;
            }
          }
          continue;
        }
        if (!expect.empty()) l.prev = ts;
        for (auto& e : expect) {
          m.media_bytes += e.data.size();
          mt.s.push_back(std::move(e));
        }
        for (auto& x : sps) mt.sps.push_back(x);
        for (auto& x : pps) mt.pps.push_back(x);
      }
    }
    if (o.after_step) o.after_step(si);
    if (o.log_ops) out->marks.push_back(sb.oplog.size());
  }
  if (ok && !abandoned) {
    // which tracks are handed over, and in which order
    std::vector<int> idx;
    for (int l : labels) idx.push_back(static_cast<int>(live[l].model));
    if (const auto om = static_cast<std::uint64_t>(sc.get("omit", 0))) {
      Rng r(om);
      std::vector<int> k;
      for (int x : idx)
        if (!r.chance(1, 3)) k.push_back(x);
      idx = k;
    }
    if (const auto os_ = static_cast<std::uint64_t>(sc.get("order", 0))) {
      Rng r(os_);
      for (std::size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.below(i)]);
    }
    m.order = idx;
    std::vector<mp4::track::Track*> handed;
    for (int x : idx)
      for (auto& [l, lv] : live)
        if (static_cast<int>(lv.model) == x) handed.push_back(lv.t.get());
    int fin = 0;
    auto go = [&](const char* where, const std::function<void()>& f) {
      if (!ok) return;
      if (o.abandon_finish >= 0 && fin >= o.abandon_finish) {
        abandoned = true;
        ok = false;
        return;
      }
      ++fin;
      sched_point("step");
      ok = guarded(where, 1000 + fin, f);
      if (o.log_ops) out->marks.push_back(sb.oplog.size());
    };
    if (ok && o.on_index && sw) o.on_index(*w, 0);
    go("appendTrakAndUdtaBoxInfo", [&] { w->appendTrakAndUdtaBoxInfo(handed); });
    if (ok && o.on_index && sw) o.on_index(*w, 1);
    // identifiers handed out while the file is being finished
    auto late = [&](std::int64_t n) {
      for (; ok && n > 0; --n) {
        std::uint32_t id = 0;
        if (guarded("ids", 1000 + fin, [&] { id = w->getAndUpdateNextTrackID(); })) m.ids.push_back(id);
      }
    };
    const std::int64_t late_ids = sc.get("lateids", 0);
    late(late_ids & 7);
    if (m.fast) {
      go("writeMoovBox", [&] { fw->writeMoovBox(); });
      go("writeMdatHeader", [&] { fw->writeMdatHeader(); });
      go("copyMdatData", [&] { fw->copyMdatData(); });
    } else {
      go("writeFreeBoxAndMdatHeader", [&] { sw->writeFreeBoxAndMdatHeader(); });
      late(late_ids >> 3 & 7);
      go("writeMoovBox", [&] { sw->writeMoovBox(); });
    }
    if (ok) {
      // a stream that went bad inside calls that all returned normally does not count as reported;
      // of a healthy one the caller flushes the rest and looks at the outcome, as with any std::ostream
      const bool healthy = os.good();
      if (!healthy) s.st.probes["stream-bad-after-reported-success"]++;
      if (healthy) os.flush();
      if (healthy && !os.good()) {
        note("flush", "stream not good", 2000);
        ok = false;
      }
    }
    m.finished = ok && !abandoned;
  }
  if (o.log_ops) out->oplog = std::move(sb.oplog);
  if (o.delete_on_abandon && fw && !m.finished) guarded("deleteIntermediateFile", 3000, [&] { fw->deleteIntermediateFile(); });
  {
    LibScope ls;
    live.clear();
    w.reset();
  }
}

// ------------------------------------------------------------------------------------------------- oracles
// A refused access unit may have contributed any number of its leading units: find out from the file how many.
void resolve_optional(MuxModel& m, const Blob& dev) {
  bool any = false;
  for (auto& t : m.tracks)
    for (auto& x : t.s) any |= x.opt != 0;
  for (auto& t : m.tracks) any |= !t.sps_opt.empty() || !t.pps_opt.empty();
  if (!any) return;
  DFile f = demux(dev);
  for (std::size_t i = 0; i < f.tracks.size() && i < m.order.size(); ++i) {
    const DTrack& d = f.tracks[i];
    MTrack& t = m.tracks[static_cast<std::size_t>(m.order[i])];
    std::vector<MSample> keep;
    int dead = 0;  // group whose remaining units were not stored
    auto same = [&](const MSample& x, std::size_t pos) {
      if (pos >= d.samples.size() || d.samples[pos].size != x.data.size()) return false;
      Bytes b(x.data.size());
      return dev.read(d.samples[pos].off, b.size(), b.data()) && b == x.data;
    };
    // an assignment under which content, time and key flag of every sample fit; any such one is as good as another
    std::vector<bool> pick(t.s.size(), false);
    std::set<std::tuple<std::size_t, std::size_t, std::uint64_t>> dead_ends;
    auto fits = [&](const MSample& x, std::size_t pos, std::uint64_t first) {
      if (!same(x, pos)) return false;
      if (d.samples[pos].dts != x.ts - (pos ? first : x.ts)) return false;
      if (is_video(t.cfg.kind) && std::binary_search(d.stss.begin(), d.stss.end(), static_cast<std::uint32_t>(pos + 1)) != x.key) return false;
      return true;
    };
    std::function<bool(std::size_t, std::size_t, std::uint64_t)> solve = [&](std::size_t k, std::size_t pos, std::uint64_t first) {
      std::vector<std::size_t> undo;
      while (k < t.s.size() && !t.s[k].opt) {
        if (!fits(t.s[k], pos, first)) {
          for (auto u : undo) pick[u] = false;
          return false;
        }
        if (!pos) first = t.s[k].ts;
        pick[k] = true;
        undo.push_back(k);
        ++k, ++pos;
      }
      if (k == t.s.size()) {
        if (pos == d.samples.size()) return true;
      } else if (!dead_ends.count({k, pos, first})) {
        std::size_t e = k;
        while (e < t.s.size() && t.s[e].opt == t.s[k].opt) ++e;
        std::size_t n = 0;
        std::uint64_t f = first;
        while (k + n < e && fits(t.s[k + n], pos + n, f)) {
          if (!(pos + n)) f = t.s[k].ts;
          ++n;
        }
        for (std::size_t c = n + 1; c-- > 0;) {
          for (std::size_t j = 0; j < e - k; ++j) pick[k + j] = j < c;
          if (solve(e, pos + c, pos + c ? (pos ? first : t.s[k].ts) : first)) return true;
        }
        for (std::size_t j = k; j < e; ++j) pick[j] = false;
        dead_ends.insert({k, pos, first});
      }
      for (auto u : undo) pick[u] = false;
      return false;
    };
    const bool solved = solve(0, 0, 0);
    for (std::size_t k = 0; k < t.s.size(); ++k) {
      MSample& x = t.s[k];
      if (solved) {
        if (!pick[k]) continue;
        keep.push_back(x);
        if (x.opt) m.media_bytes += x.data.size();
        continue;
      }
      if (!x.opt) {
        keep.push_back(x);
        continue;
      }
      if (x.opt == dead) continue;
      if (same(x, keep.size())) {
        keep.push_back(x);
        m.media_bytes += x.data.size();
      } else {
        dead = x.opt;
      }
    }
    t.s = std::move(keep);
    for (auto& x : t.s) x.opt = 0;
    if (t.cfg.kind != kH264) continue;
    const PBox* b = d.entry.kid("avcC");
    if (!b || b->end() - b->body() < 7) continue;
    const Bytes raw = rd_vec(dev, b->body(), b->end() - b->body());
    std::vector<Bytes> rec[2];
    std::size_t o = 5;
    for (int w = 0; w < 2 && o < raw.size(); ++w) {
      std::size_t n = raw[o++] & (w ? 0xff : 0x1f);
      for (; n && o + 2 <= raw.size(); --n) {
        const std::size_t len = static_cast<std::size_t>(raw[o] << 8 | raw[o + 1]);
        o += 2;
        if (o + len > raw.size()) break;
        rec[w].emplace_back(raw.begin() + static_cast<std::ptrdiff_t>(o), raw.begin() + static_cast<std::ptrdiff_t>(o + len));
        o += len;
      }
    }
    // the recorded list is taken over when it is the arrival order of the certain sets and some of the optional ones
    auto settle = [&](std::vector<Bytes>& v, std::vector<bool>& opt, const std::vector<Bytes>& got) {
      opt.resize(v.size(), false);
      bool ok = true;
      std::ptrdiff_t last = -1;
      for (auto& x : got) {
        std::ptrdiff_t at = -1;
        for (std::size_t j = 0; j < v.size(); ++j) {
          if (v[j] != x) continue;
          if (static_cast<std::ptrdiff_t>(j) > last) at = static_cast<std::ptrdiff_t>(j);
          if (at >= 0 || !opt[j]) break;
        }
        ok &= at >= 0;
        last = std::max(last, at);
      }
      for (std::size_t j = 0; j < v.size(); ++j) ok &= opt[j] || std::find(got.begin(), got.end(), v[j]) != got.end();
      if (ok) {
        v = got;
      } else {
        std::vector<Bytes> k;
        for (std::size_t j = 0; j < v.size(); ++j)
          if (!opt[j] || std::find(got.begin(), got.end(), v[j]) != got.end()) k.push_back(v[j]);
        v = std::move(k);
      }
      opt.clear();
    };
    settle(t.sps, t.sps_opt, rec[0]);
    settle(t.pps, t.pps_opt, rec[1]);
  }
}

void check_media(const MuxModel& m, const Blob& dev, DFile* out) {
  DFile f = demux(dev);
  if (!f.has_moov) throw Violation("structure", "no index in the finished file");
  if (f.top.empty() || f.top[0].type != "ftyp") throw Violation("structure", "file does not begin with its file-type box");
  if (f.mdats != 1) throw Violation("structure", fmt_str("%d media-data boxes", f.mdats));
  if (f.tracks.size() != m.order.size())
    throw Violation("samples", fmt_str("%zu tracks in the file, %zu handed over", f.tracks.size(), m.order.size()));
  for (std::size_t i = 0; i < f.tracks.size(); ++i) {
    const DTrack& d = f.tracks[i];
    const MTrack& t = m.tracks[static_cast<std::size_t>(m.order[i])];
    if (d.samples.size() != t.s.size())
      throw Violation("samples", fmt_str("track %zu: %zu samples in the file, %zu added", i, d.samples.size(), t.s.size()));
    for (std::size_t k = 0; k < d.samples.size(); ++k) {
      const DSample& x = d.samples[k];
      const MSample& y = t.s[k];
      if (x.size != y.size())
        throw Violation("samples", fmt_str("track %zu sample %zu: size %llu, added with %llu", i, k, (unsigned long long)x.size, (unsigned long long)y.size()));
      if (x.size && (x.off < f.mdat_begin || x.off + x.size > f.mdat_end))
        throw Violation("samples", fmt_str("track %zu sample %zu lies outside the media-data box (%llu+%llu)", i, k, (unsigned long long)x.off, (unsigned long long)x.size));
      if (!x.size && (x.off > dev.size()))
        throw Violation("samples", fmt_str("track %zu empty sample %zu beyond the file", i, k));
      if (y.vsize >= 0) {
        if (!dev.is_pattern(x.off, x.size, y.pat)) throw Violation("samples", fmt_str("track %zu sample %zu: content differs", i, k));
        continue;
      }
      Bytes b(x.size);
      if (!dev.read(x.off, x.size, b.data()) || b != y.data)
        throw Violation("samples", fmt_str("track %zu sample %zu: content differs", i, k));
    }
  }
  if (out) *out = std::move(f);
}

void check_layout(const MuxModel& m, const DFile& f, const Blob& dev) {
  if (!m.fast) return;
  if (f.top.size() != 3 || f.top[0].type != "ftyp" || f.top[1].type != "moov" || f.top[2].type != "mdat") {
    std::string s;
    for (auto& b : f.top) s += b.type + " ";
    throw Violation("layout", "fast-start layout is: " + s);
  }
  // no unreferenced bytes: the media data is exactly what was added
  if (f.mdat_end - f.mdat_begin != m.media_bytes)
    throw Violation("layout", fmt_str("media-data box holds %llu bytes, %llu were added", (unsigned long long)(f.mdat_end - f.mdat_begin), (unsigned long long)m.media_bytes));
  if (f.mdat_end != dev.size()) throw Violation("layout", "bytes after the media data");
}

static void expect_ticks(const char* what, std::size_t i, std::uint64_t got, std::uint32_t ts, float d) {
  const long double x = static_cast<long double>(ts) * static_cast<long double>(d);
  const auto e = static_cast<std::uint64_t>(x);
  bool ok = got == e;
  const float fts = static_cast<float>(ts);
  const bool exact = static_cast<long double>(e) == x && static_cast<long double>(fts) == ts &&
                     static_cast<long double>(static_cast<float>(fts * d)) == x;
  if (!exact) {
    const long double tol = 1.5L + x / 4194304.0L;
    ok = static_cast<long double>(got) >= x - tol && static_cast<long double>(got) <= x + tol;
  }
  if (!ok)
    throw Violation("timing", fmt_str("%s of track %zu is %llu, declared %llu", what, i, (unsigned long long)got, (unsigned long long)e));
}

void check_timing(const MuxModel& m, const DFile& f) {
  if (f.mv_timescale != m.mvts) throw Violation("timing", "movie time scale differs");
  expect_ticks("movie duration", 0, f.mv_duration, m.mvts, m.duration);
  if (f.tracks.size() != m.order.size()) throw Violation("timing", "number of tracks differs");
  for (std::size_t i = 0; i < f.tracks.size(); ++i) {
    const DTrack& d = f.tracks[i];
    const MTrack& t = m.tracks[static_cast<std::size_t>(m.order[i])];
    if (d.timescale != t.cfg.timescale) throw Violation("timing", fmt_str("track %zu: time scale %u, given %u", i, d.timescale, t.cfg.timescale));
    expect_ticks("media duration", i, d.md_duration, t.cfg.timescale, t.cfg.duration);
    expect_ticks("track duration", i, d.tk_duration, m.mvts, t.cfg.duration);
    if (!d.has_elst || d.edits.size() != 1) throw Violation("timing", fmt_str("track %zu has no single-entry edit list", i));
    expect_ticks("edit duration", i, d.edits[0].dur, m.mvts, t.cfg.duration);
    if (d.edits[0].media_time != t.cfg.media_time)
      throw Violation("timing", fmt_str("track %zu: edit starts at %lld, set to %lld", i, (long long)d.edits[0].media_time, (long long)t.cfg.media_time));
    if (d.edits[0].rate != 0x10000) throw Violation("timing", "edit rate is not 1");
    if (d.samples.size() != t.s.size()) throw Violation("timing", fmt_str("track %zu: %zu timed samples, %zu added", i, d.samples.size(), t.s.size()));
    for (std::size_t k = 0; k < t.s.size(); ++k)
      if (d.samples[k].dts != t.s[k].ts - t.s[0].ts)
        throw Violation("timing", fmt_str("track %zu sample %zu: decode time %llu, expected %llu", i, k, (unsigned long long)d.samples[k].dts,
                                          (unsigned long long)(t.s[k].ts - t.s[0].ts)));
    if (!t.s.empty() && d.md_duration >= t.s.back().ts && d.md_duration - t.s.back().ts <= 0xffffffffULL) {
      const std::uint64_t e = d.md_duration - t.s.back().ts;
      if (d.samples.back().dur != e)
        throw Violation("timing", fmt_str("track %zu: last sample lasts %u, declared duration leaves %llu", i, d.samples.back().dur, (unsigned long long)e));
    }
    std::vector<std::uint32_t> keys;
    for (std::size_t k = 0; k < t.s.size(); ++k)
      if (t.s[k].key) keys.push_back(static_cast<std::uint32_t>(k + 1));
    if (is_video(t.cfg.kind)) {
      // no table means that every sample is a sync sample
      std::vector<std::uint32_t> got = d.stss;
      if (!d.has_stss)
        for (std::size_t k = 0; k < t.s.size(); ++k) got.push_back(static_cast<std::uint32_t>(k + 1));
      if (got != keys) throw Violation("timing", fmt_str("track %zu: %zu sync samples listed, %zu key frames added (or different ones)", i, got.size(), keys.size()));
    } else if (d.has_stss && d.stss.size() != t.s.size()) {
      throw Violation("timing", fmt_str("audio track %zu has a sync-sample table that does not list every sample", i));
    }
  }
}

void check_clock(const MuxModel& m, const DFile& f) {
  const std::uint64_t e = static_cast<std::uint64_t>(m.ctor_clock_ns / 1'000'000'000LL) + 2082844800ULL;
  auto c = [&](const char* what, std::size_t i, std::uint64_t v) {
    if (v != e) throw Violation("clock", fmt_str("%s of track %zu is %llu, writer was created at %llu", what, i, (unsigned long long)v, (unsigned long long)e));
  };
  c("movie creation time", 0, f.mv_ctime);
  c("movie modification time", 0, f.mv_mtime);
  for (std::size_t i = 0; i < f.tracks.size(); ++i) {
    c("track creation time", i, f.tracks[i].tk_ctime);
    c("track modification time", i, f.tracks[i].tk_mtime);
    c("media creation time", i, f.tracks[i].md_ctime);
    c("media modification time", i, f.tracks[i].md_mtime);
  }
}

namespace {
struct Desc {
  int tag;
  std::uint64_t body, end;
};
Desc read_desc(const Blob& dev, std::uint64_t* o, std::uint64_t lim) {
  if (*o + 2 > lim) throw Violation("identity", "descriptor beyond its box");
  Desc d;
  d.tag = static_cast<int>(rd_be(dev, *o, 1));
  std::uint64_t p = *o + 1, len = 0;
  for (int i = 0; i < 4; ++i) {
    const auto b = rd_be(dev, p++, 1);
    len = len << 7 | (b & 0x7f);
    if (!(b & 0x80)) break;
  }
  d.body = p;
  d.end = p + len;
  if (d.end > lim) throw Violation("identity", "descriptor longer than its container");
  *o = d.end;
  return d;
}
}  // namespace

void check_h264_record(const MTrack& t, const DTrack& d, const Blob& dev) {
  const PBox* b = d.entry.kid("avcC");
  if (!b) throw Violation("record", "no decoder record");
  std::vector<Bytes> sps, pps;
  auto uniq = [](const std::vector<Bytes>& in) {
    std::vector<Bytes> o;
    for (auto& x : in)
      if (std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x);
    return o;
  };
  std::uint64_t o = b->body();
  auto u = [&](int n) {
    if (o + static_cast<unsigned>(n) > b->end()) throw Violation("record", "decoder record too short for what it announces");
    const auto v = rd_be(dev, o, n);
    o += static_cast<unsigned>(n);
    return v;
  };
  std::uint8_t prof[4] = {t.cfg.avc[0], t.cfg.avc[1], t.cfg.avc[2], t.cfg.avc[3]};
  if (!t.sps.empty()) {
    prof[1] = t.sps[0][1];
    prof[2] = t.sps[0][2];
    prof[3] = t.sps[0][3];
  }
  for (int i = 0; i < 4; ++i) {
    const auto v = u(1);
    if (v != prof[i]) throw Violation("record", fmt_str("decoder record byte %d is %llu, expected %d", i, (unsigned long long)v, prof[i]));
  }
  if ((u(1) & 3) != 3) throw Violation("record", "decoder record does not announce four-byte lengths");
  const auto ns = u(1) & 0x1f;
  for (std::uint64_t i = 0; i < ns; ++i) {
    const auto len = u(2);
    if (o + len > b->end()) throw Violation("record", "parameter set beyond the record");
    sps.push_back(rd_vec(dev, o, len));
    o += len;
  }
  const auto np = u(1);
  for (std::uint64_t i = 0; i < np; ++i) {
    const auto len = u(2);
    if (o + len > b->end()) throw Violation("record", "parameter set beyond the record");
    pps.push_back(rd_vec(dev, o, len));
    o += len;
  }
  if (sps != uniq(t.sps))
    throw Violation("record", fmt_str("sequence parameter sets differ: %zu recorded, %zu distinct ones arrived", sps.size(), uniq(t.sps).size()));
  if (pps != uniq(t.pps))
    throw Violation("record", fmt_str("picture parameter sets differ: %zu recorded, %zu distinct ones arrived", pps.size(), uniq(t.pps).size()));
}

// what the format prescribes whatever the caller asked for
void check_fixed_fields(const DFile& f, const Blob& dev) {
  auto eq = [&](const PBox& b, std::uint64_t at, int n, std::uint64_t want, const char* what) {
    if (at + static_cast<unsigned>(n) > b.end()) throw Violation("identity", "'" + b.type + "' ends before its " + what);
    const auto v = rd_be(dev, at, n);
    if (v != want) throw Violation("identity", fmt_str("%s of '%s' is 0x%llx, the format says 0x%llx", what, b.type.c_str(), (unsigned long long)v, (unsigned long long)want));
  };
  auto zero = [&](const PBox& b, std::uint64_t at, int n, const char* what) {
    for (int i = 0; i < n; ++i) eq(b, at + static_cast<unsigned>(i), 1, 0, what);
  };
  auto matrix = [&](const PBox& b, std::uint64_t at) {
    static const std::uint32_t id[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000};
    for (unsigned i = 0; i < 9; ++i) eq(b, at + 4 * i, 4, id[i], "matrix");
  };
  auto wide = [&](const PBox& b) -> std::uint64_t { return rd_be(dev, b.body(), 1) ? 8 : 4; };
  for (auto& top : f.top) {
    if (top.type != "moov") continue;
    for (auto& b : top.kids) {
      if (b.type == "mvhd") {
        std::uint64_t o = b.body() + 4 + 3 * wide(b) + 4;
        eq(b, o, 4, 0x10000, "rate");
        eq(b, o + 4, 2, 0x100, "volume");
        zero(b, o + 6, 10, "reserved field");
        matrix(b, o + 16);
        zero(b, o + 52, 24, "pre-defined field");
      }
      if (b.type != "trak") continue;
      if (const auto* k = b.kid("tkhd")) {
        const std::uint64_t w = wide(*k);
        zero(*k, k->body() + 4 + 2 * w + 4, 4, "reserved field");
        zero(*k, k->body() + 4 + 3 * w + 8, 8, "reserved field");
        eq(*k, k->body() + 4 + 3 * w + 16, 2, 0, "layer");
        eq(*k, k->body() + 4 + 3 * w + 18, 2, 0, "alternate group");
        zero(*k, k->body() + 4 + 3 * w + 22, 2, "reserved field");
      }
      const auto* mdia = b.kid("mdia");
      if (!mdia) continue;
      if (const auto* k = mdia->kid("mdhd")) {
        eq(*k, k->body() + 4 + 3 * wide(*k) + 4, 2, 0x55c4, "language");
        eq(*k, k->body() + 4 + 3 * wide(*k) + 6, 2, 0, "pre-defined field");
      }
      if (const auto* k = mdia->kid("hdlr")) {
        zero(*k, k->body(), 8, "pre-defined field");
        zero(*k, k->body() + 12, 12, "reserved field");
        eq(*k, k->end() - 1, 1, 0, "end of the name");
      }
      const auto* minf = mdia->kid("minf");
      if (!minf) continue;
      if (const auto* k = minf->kid("vmhd")) {
        eq(*k, k->body(), 4, 1, "version and flags");
        zero(*k, k->body() + 4, 8, "mode and colour");
      }
      if (const auto* k = minf->kid("smhd")) zero(*k, k->body(), 8, "balance");
      const auto* stbl = minf->kid("stbl");
      const auto* stsd = stbl ? stbl->kid("stsd") : nullptr;
      if (!stsd) continue;
      for (const char* t : {"stsd", "stts", "stsc", "stsz", "stss", "stco", "co64"})
        if (const auto* k = stbl->kid(t)) zero(*k, k->body(), 4, "version and flags");
      for (auto& e : stsd->kids) {
        const auto o = e.body();
        zero(e, o, 6, "reserved field");
        if (minf->kid("vmhd")) {
          zero(e, o + 8, 16, "pre-defined field");
          eq(e, o + 28, 4, 0x480000, "horizontal resolution");
          eq(e, o + 32, 4, 0x480000, "vertical resolution");
          zero(e, o + 36, 4, "reserved field");
          eq(e, o + 40, 2, 1, "frame count");
          if (rd_be(dev, o + 42, 1) > 31) throw Violation("identity", "compressor name of '" + e.type + "' longer than its field");
          eq(e, o + 74, 2, 0x18, "depth");
          eq(e, o + 76, 2, 0xffff, "pre-defined field");
        } else {
          zero(e, o + 8, 8, "reserved field");
          zero(e, o + 20, 4, "reserved field");
        }
        if (const auto* k = e.kid("fiel")) eq(*k, k->body(), 2, 0x0100, "field order");
        if (const auto* k = e.kid("pasp")) eq(*k, k->body(), 8, 0x0000000100000001ULL, "aspect ratio");
        if (const auto* k = e.kid("btrt")) eq(*k, k->body(), 4, 0, "decoding buffer size");
      }
    }
  }
}

void check_identity(const MuxModel& m, const DFile& f, const Blob& dev) {
  check_fixed_fields(f, dev);
  auto bad = [](std::size_t i, const std::string& what) { throw Violation("identity", fmt_str("track %zu: ", i) + what); };
  std::vector<std::uint32_t> ids = m.ids;
  std::sort(ids.begin(), ids.end());
  if (std::adjacent_find(ids.begin(), ids.end()) != ids.end()) throw Violation("identity", "an identifier was handed out twice");
  for (auto i : ids)
    if (i == 0) throw Violation("identity", "identifier 0 handed out");
  if (!ids.empty() && f.next_track_id <= ids.back())
    throw Violation("identity", fmt_str("next identifier %u not larger than %u", f.next_track_id, ids.back()));
  if (f.major != m.major || f.minor != m.minor || f.brands != m.brands) throw Violation("identity", "file-type brands differ from the requested ones");
  if (!f.encoder_tag) throw Violation("identity", "encoder tag box missing");
  if (f.tracks.size() != m.order.size())
    throw Violation("identity", fmt_str("%zu track boxes for %zu tracks", f.tracks.size(), m.order.size()));
  for (std::size_t i = 0; i < f.tracks.size(); ++i) {
    const DTrack& d = f.tracks[i];
    const MTrack& t = m.tracks[static_cast<std::size_t>(m.order[i])];
    const TrackCfg& c = t.cfg;
    if (d.track_id != t.id) bad(i, fmt_str("identifier %u, given %u", d.track_id, t.id));
    const bool vid = is_video(c.kind);
    if (d.handler != (vid ? "vide" : "soun")) bad(i, "handler " + d.handler);
    if (d.vmhd != vid || d.smhd == vid) bad(i, "wrong kind of media header");
    if (!d.dref_self) bad(i, "data reference is not to the same file");
    if ((d.tk_flags & 3) != 3) bad(i, "track not enabled or not part of the movie");
    if (!d.tk_identity) bad(i, "transformation is not the identity");
    if ((d.tk_volume != 0) == vid) bad(i, fmt_str("volume %d", d.tk_volume));
    static const char* types[] = {"vp08", "vp09", "av01", "avc1", "mp4a", "mp4a", "Opus"};
    if (d.entry.type != types[c.kind]) bad(i, "sample entry " + d.entry.type + ", expected " + types[c.kind]);
    const std::uint64_t e = d.entry.body();
    if (vid) {
      if (d.tk_width != c.width << 16 || d.tk_height != c.height << 16) bad(i, "track header dimensions differ");
      if (rd_be(dev, e + 24, 2) != c.width || rd_be(dev, e + 26, 2) != c.height) bad(i, "sample entry dimensions differ");
    } else {
      if (d.tk_width || d.tk_height) bad(i, "audio track with dimensions");
      if (rd_be(dev, e + 16, 2) != 2 || rd_be(dev, e + 18, 2) != 16) bad(i, "channel count or sample size differ");
      if (c.timescale < 65536 && rd_be(dev, e + 24, 4) != static_cast<std::uint64_t>(c.timescale) << 16) bad(i, "sampling rate differs");
    }
    auto kid = [&](const char* n) -> const PBox& {
      if (d.entry.count(n) != 1) bad(i, std::string("sample entry has not exactly one '") + n + "'");
      return *d.entry.kid(n);
    };
    auto btrt = [&] {
      const PBox& b = kid("btrt");
      if (b.end() - b.body() != 12) bad(i, "bitrate box size");
      if (rd_be(dev, b.body() + 4, 4) != c.max_br || rd_be(dev, b.body() + 8, 4) != c.avg_br) bad(i, "bitrates differ");
    };
    switch (c.kind) {
      case kVP8:
      case kVP9: {
        const PBox& b = kid("vpcC");
        if (b.end() - b.body() != 12) bad(i, "vpcC size");
        if (rd_be(dev, b.body(), 4) != 0x01000000 || rd_be(dev, b.body() + 4, 8) != 0x0015820202020000ULL)
          bad(i, fmt_str("vpcC content %016llx", (unsigned long long)rd_be(dev, b.body() + 4, 8)));
        kid("fiel");
        kid("pasp");
        btrt();
        break;
      }
      case kAV1: {
        const PBox& b = kid("av1C");
        Bytes want;
        static const std::uint8_t def[] = {0xa, 0xb, 0, 0, 0, 4, 0x47, 0x7e, 0x1a, 0xff, 0xfc, 0xc0, 0x20};
        Bytes obus = c.obus_given ? c.obus : Bytes(def, def + sizeof def);
        want.push_back(0x81);
        want.push_back(static_cast<std::uint8_t>(c.av[0] << 5 | c.av[1]));
        // byte 2: tier, high_bitdepth, twelve_bit, monochrome, subsampling x/y, sample position
        want.push_back(static_cast<std::uint8_t>(c.av[2] << 7 | c.av[3] << 3 | c.av[4] << 2 | c.av[5]));
        want.push_back(0);
        want.insert(want.end(), obus.begin(), obus.end());
        Bytes got = rd_vec(dev, b.body(), b.end() - b.body());
        if (got.size() > 2) got[2] &= 0x8f;  // bit depth and monochrome are not parameters
        if (got.size() > 3) got[3] = 0;      // presentation delay is not a parameter
        if (got != want) bad(i, "AV1 configuration record differs");
        break;
      }
      case kH264:
        check_h264_record(t, d, dev);
        break;
      case kAAC:
      case kMP3: {
        const PBox& b = kid("esds");
        if (rd_be(dev, b.body(), 4) != 0) bad(i, "esds version");
        std::uint64_t o = b.body() + 4;
        Desc es = read_desc(dev, &o, b.end());
        if (es.tag != 3 || o != b.end()) bad(i, "elementary stream descriptor missing or padded");
        if (c.kind == kAAC && rd_be(dev, es.body, 2) != (t.id & 0xffff)) bad(i, "elementary stream identifier differs");
        std::uint64_t p = es.body + 3;
        Desc dc = read_desc(dev, &p, es.end);
        if (dc.tag != 4) bad(i, "decoder configuration descriptor missing");
        Desc sl = read_desc(dev, &p, es.end);
        if (sl.tag != 6 || p != es.end || sl.end - sl.body != 1 || rd_be(dev, sl.body, 1) != 2) bad(i, "sync layer descriptor differs");
        if (rd_be(dev, dc.body, 1) != (c.kind == kAAC ? 0x40u : 0x6bu)) bad(i, "object type differs");
        if (rd_be(dev, dc.body + 1, 1) >> 2 != 5) bad(i, "stream type is not audio");
        if (rd_be(dev, dc.body + 2, 3) != c.buf_db) bad(i, "buffer size differs");
        if (rd_be(dev, dc.body + 5, 4) != c.max_br || rd_be(dev, dc.body + 9, 4) != c.avg_br) bad(i, "bitrates differ");
        std::uint64_t q = dc.body + 13;
        if (c.kind == kAAC) {
          Desc ds = read_desc(dev, &q, dc.end);
          if (ds.tag != 5 || ds.end - ds.body != 2 || rd_be(dev, ds.body, 2) != 0x1190) bad(i, "decoder specific info differs");
          btrt();
        }
        if (q != dc.end) bad(i, "decoder configuration descriptor padded");
        break;
      }
      case kOpus: {
        const PBox& b = kid("dOps");
        if (b.end() - b.body() != 11) bad(i, "dOps size");
        const std::uint64_t o = b.body();
        if (rd_be(dev, o, 1) != 0 || rd_be(dev, o + 1, 1) != 2 || rd_be(dev, o + 2, 2) != c.pre_skip || rd_be(dev, o + 4, 4) != 48000 ||
            rd_be(dev, o + 8, 2) != 0 || rd_be(dev, o + 10, 1) != 0)
          bad(i, "dOps content differs");
        break;
      }
    }
    const bool roll = c.kind == kAAC || c.kind == kOpus;
    if (d.has_sgpd != roll || d.has_sbgp != roll) bad(i, "audio roll group present on the wrong tracks");
    if (roll) {
      if (d.sgpd_type != "roll" || d.sbgp_type != "roll") bad(i, "grouping type is not roll");
      if (d.roll_distance != (c.kind == kAAC ? -1 : c.roll)) bad(i, fmt_str("roll distance %d", d.roll_distance));
      std::uint64_t n = 0;
      for (auto& [cnt, idx] : d.sbgp) {
        if (cnt && idx != 1) bad(i, "samples mapped to the wrong group description");
        n += cnt;
      }
      if (n != t.s.size()) bad(i, fmt_str("roll group covers %llu of %zu samples", (unsigned long long)n, t.s.size()));
    }
  }
}

// ------------------------------------------------------------------------------------------------- generation
namespace {
int bits(std::uint64_t v) {
  int n = 0;
  while (v) {
    ++n;
    v >>= 1;
  }
  return n;
}
int ctz(std::uint64_t v) {
  int n = 0;
  while (v && !(v & 1)) {
    ++n;
    v >>= 1;
  }
  return n;
}
std::uint32_t pick_ts(Rng& r, bool audio) {
  switch (r.below(6)) {
    case 0:
      return static_cast<std::uint32_t>(r.pick<std::int64_t>({1, 2, 3, 7, 24, 25, 30, 50, 60}));
    case 1:
      return static_cast<std::uint32_t>(r.range(1, 65535));
    case 2:
      return static_cast<std::uint32_t>(static_cast<std::uint64_t>(r.range(1, 1023)) << r.below(audio ? 7 : 20));
    default:
      return static_cast<std::uint32_t>(r.pick<std::int64_t>({1000, 16000, 48000, 44100, 90000, 8000, 24000, 30000, 600, 1 << 14, 1 << 16}));
  }
}
struct Dur {
  std::int64_t m = 0, e = 0;
};
// a duration that is an exact number of ticks in both time scales, also in single precision
Dur pick_duration(Rng& r, std::uint32_t ts, std::uint32_t mvts, long double want_s) {
  const int ob = std::max(bits(ts >> ctz(ts)), bits(mvts >> ctz(mvts)));
  const int mb = std::max(1, 24 - ob);
  const int emin = -std::min(ctz(ts), ctz(mvts));
  Dur d;
  long double x = want_s;
  int e = 0;
  while (e > emin && x < std::ldexp(1.0L, mb - 1) && x != 0) {
    x *= 2;
    --e;
  }
  while (x >= std::ldexp(1.0L, mb) && e < 38) {
    x /= 2;
    ++e;
  }
  d.m = static_cast<std::int64_t>(x);
  d.e = e;
  if (d.m == 0) d.e = 0;
  (void)r;
  return d;
}
}  // namespace

Scenario gen_mux(const std::string& prop, Rng& r, std::uint64_t seed, const GenOpts& g) {
  Scenario sc;
  sc.prop = prop;
  sc.seed = seed;
  sc.p["layout"] = g.layout >= 0 ? g.layout : static_cast<std::int64_t>(r.below(2));
  const std::uint32_t mvts = r.chance(1, 2) ? 1000 : pick_ts(r, false);
  sc.p["mvts"] = mvts;
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF, 0x5A});
  if (g.vary_buffers) {
    sc.p["obuf"] = r.pick<std::int64_t>({0, 0, 1, 7, 64, 512, 4096, 8191, 65536});
    sc.p["sbuf"] = r.pick<std::int64_t>({-1, -1, 0, 16, 100, 4096});
  }
  if (r.chance(1, 2)) sc.p["brand"] = r.range(1, 1 << 30);
  const int nt = static_cast<int>(r.chance(1, 20) ? 0 : 1 + r.below(static_cast<std::uint64_t>(g.max_tracks)));
  struct T {
    int kind;
    std::uint32_t ts;
    std::uint64_t ticks;
    int adds = 0;
    int style;
    bool created = false;
    std::size_t step = 0;
  };
  std::vector<T> ts;
  for (int i = 0; i < nt; ++i) {
    T t;
    t.kind = g.h264_bias && r.chance(static_cast<unsigned>(g.h264_bias), 10) ? kH264 : static_cast<int>(r.below(kKinds));
    t.ts = t.kind == kOpus ? 48000 : pick_ts(r, !is_video(t.kind));
    t.style = static_cast<int>(r.below(5));
    ts.push_back(t);
  }
  // ------------- order of operations
  struct Op {
    int track;
    int what;  // 0 create 1 add 2 chunk 3 mtime 4 clock 5 h264 6 ids 7 zero
  };
  std::vector<Op> ops;
  const bool early = r.chance(2, 3);
  std::vector<bool> made(static_cast<std::size_t>(nt), false);
  if (early)
    for (int i = 0; i < nt; ++i) {
      ops.push_back({i, 0});
      made[static_cast<std::size_t>(i)] = true;
    }
  const int nops = static_cast<int>(r.chance(1, 4) ? r.below(8) : r.below(static_cast<std::uint64_t>(g.max_ops)));
  const int style = static_cast<int>(r.below(4));  // 0 random, 1 chunked round robin, 2 bursts, 3 one chunk each
  const unsigned chunk_p = static_cast<unsigned>(r.pick<std::int64_t>({0, 5, 15, 40}));
  int cur = 0, left = 0;
  for (int k = 0; k < nops && nt; ++k) {
    int t;
    if (style == 1 || style == 2) {
      if (left-- <= 0) {
        if (style == 1 && made[static_cast<std::size_t>(cur)]) ops.push_back({cur, 2});
        cur = style == 1 ? (cur + 1) % nt : static_cast<int>(r.below(static_cast<std::uint64_t>(nt)));
        left = static_cast<int>(r.below(6));
      }
      t = cur;
    } else {
      t = static_cast<int>(r.below(static_cast<std::uint64_t>(nt)));
    }
    if (!made[static_cast<std::size_t>(t)]) {
      ops.push_back({t, 0});
      made[static_cast<std::size_t>(t)] = true;
    }
    if (g.clock && r.chance(1, 6)) ops.push_back({t, 4});
    if (r.chance(1, 40)) ops.push_back({t, 3});
    if (g.refused_steps && r.chance(1, 12)) ops.push_back({t, static_cast<int>(r.range(6, 7))});
    if (style != 3 && r.below(100) < chunk_p) ops.push_back({t, 2});
    else if (ts[static_cast<std::size_t>(t)].kind == kH264 && r.chance(1, 3)) {
      ops.push_back({t, 5});
      ts[static_cast<std::size_t>(t)].adds++;
    } else {
      ops.push_back({t, 1});
      ts[static_cast<std::size_t>(t)].adds++;
    }
  }
  for (int i = 0; i < nt; ++i)
    if (!made[static_cast<std::size_t>(i)]) ops.push_back({i, 0});
  // ------------- durations and times
  long double longest = 0;
  std::vector<Dur> durs;
  for (auto& t : ts) {
    long double want;
    const std::uint64_t n = static_cast<std::uint64_t>(std::max(1, t.adds));
    if (g.big_numbers && r.chance(1, 3)) {
      // beyond 32 bits of ticks
      want = static_cast<long double>((std::uint64_t(1) << 31) + r.below((std::uint64_t(1) << 32) * std::min<std::uint64_t>(n, 20))) / t.ts;
    } else {
      want = static_cast<long double>(r.skewed(1 << 22)) * static_cast<long double>(n) / t.ts + static_cast<long double>(r.below(20));
    }
    Dur d = pick_duration(r, t.ts, mvts, want);
    if (g.loose_durations && r.chance(1, 6)) {
      d.m = static_cast<std::int64_t>((1 << 23) | r.below(1 << 23));
      d.e = r.range(-23, -12);
    }
    durs.push_back(d);
    const long double s = std::ldexp(static_cast<long double>(d.m), static_cast<int>(d.e));
    t.ticks = static_cast<std::uint64_t>(s * t.ts);
    longest = std::max(longest, s);
  }
  Dur md = pick_duration(r, mvts, mvts, longest + (r.chance(1, 4) ? 5.0L : 0.0L));
  sc.p["dm"] = md.m;
  sc.p["de"] = md.e;
  std::vector<std::uint64_t> now(ts.size(), 0);
  std::vector<int> done(ts.size(), 0);
  for (auto& op : ops) {
    const std::size_t ti = static_cast<std::size_t>(op.track);
    T& t = ts[ti];
    Step s;
    switch (op.what) {
      case 0: {
        std::int64_t mt = 0;
        if (r.chance(1, 2)) mt = static_cast<std::int64_t>(r.skewed(1 << 20));
        if (g.big_numbers && r.chance(1, 4)) mt = r.pick<std::int64_t>({-1, -2, -5000, 0x7fffffffLL, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 1LL << 40, -(1LL << 31), -(1LL << 31) - 1, -(1LL << 33)});
        s = {"track", {op.track, t.kind, t.ts, mt, g.params && r.chance(3, 4) ? r.range(1, 1LL << 40) : 0, durs[ti].m, durs[ti].e}};
        if (g.own_ids && r.chance(1, 3)) {
          const auto base = r.pick<std::int64_t>({1, 100, 250, 256, 65500, 65536, 0x123400, 0x7fffff80, 0x80000000LL, 0xfffffe00LL});
          s.a.push_back(base + r.below(4) * 16 + op.track);
        }
        break;
      }
      case 2:
        s = {"chunk", {op.track}};
        break;
      case 3: {
        std::int64_t mt = static_cast<std::int64_t>(r.skewed(1 << 20));
        if (g.big_numbers && r.chance(1, 3)) mt = r.pick<std::int64_t>({-1, 0x80000000LL, 1LL << 40, -(1LL << 33)});
        s = {"mtime", {op.track, mt}};
        break;
      }
      case 4:
        s = {"clock", {r.pick<std::int64_t>({1, -1, 1000000000LL, -1000000000LL, 3600000000000LL, -86400000000000LL, 999999999LL, 400LL * 86400 * 1000000000LL, -3000LL * 86400 * 1000000000LL, 20000LL * 86400 * 1000000000LL})}};
        break;
      case 6:
        s = {"ids", {r.chance(1, 25) ? r.pick<std::int64_t>({250, 300, 1000, 65530, 65540, 70000}) : r.range(1, 4)}};
        break;
      case 7:
        s = {"zero", {static_cast<std::int64_t>(r.below(kKinds))}};
        break;
      default: {
        // time step
        const int n = t.adds, i = done[ti]++;
        const std::uint64_t left_ticks = t.ticks > now[ti] ? t.ticks - now[ti] : 0;
        std::uint64_t dt = 0;
        if (i == 0) {
          if (r.chance(1, 3)) dt = r.skewed(left_ticks);
          // keep the rest reachable with 32-bit steps
          const std::uint64_t reach = 0xffffffffULL * static_cast<std::uint64_t>(n);
          if (t.ticks > reach) dt = std::max(dt, t.ticks - reach);
        } else {
          const std::uint64_t share = left_ticks / static_cast<std::uint64_t>(n - i + 1);
          switch (t.style) {
            case 0: dt = share; break;
            case 1: dt = r.below(2 * share + 1); break;
            case 2: dt = r.chance(1, 3) ? 0 : share; break;
            case 3: dt = std::min<std::uint64_t>(share, r.pick<std::int64_t>({1, 33, 320, 960, 1024, 3000})); break;
            default: dt = r.skewed(left_ticks);
          }
          const std::uint64_t reach = 0xffffffffULL * static_cast<std::uint64_t>(n - i);
          if (left_ticks > reach) dt = std::max(dt, left_ticks - reach);
          dt = std::min<std::uint64_t>(dt, 0xffffffffULL);
        }
        dt = std::min(dt, left_ticks);
        now[ti] += dt;
        const std::int64_t key = r.chance(1, 3) || i == 0 ? 1 : 0;
        if (op.what == 5) {
          s = {"h264", {op.track, static_cast<std::int64_t>(dt), key, r.range(1, 1 << 30)}};
          const auto nu = 1 + r.below(5);
          for (std::uint64_t u = 0; u < nu; ++u) {
            s.a.push_back(r.pick<std::int64_t>({1, 1, 1, 5, 5, 2, 3, 4, 6, 7, 8}));
            s.a.push_back(r.pick<std::int64_t>({3, 4}));
            const auto ty = s.a[s.a.size() - 2];
            if (g.bad264 && r.chance(1, 12)) s.a[s.a.size() - 2] = r.pick<std::int64_t>({0, 0, 9, 10, 11, 12, 13, 14, 19, 20, 24, 30, 31});
            if ((ty == 7 || ty == 8) && r.chance(1, 5)) s.a.back() += 16 * r.range(1, 12);
            s.a.push_back(ty == 7 || ty == 8 ? (r.chance(1, 12) ? 200 : r.range(ty == 7 ? 5 : 2, 11)) : static_cast<std::int64_t>(1 + (r.chance(1, 4) ? r.below(3) : r.skewed(g.max_size))));
          }
          if (g.bad264 && r.chance(1, 8)) s.name = "bad264";
          if (g.many_sets && r.chance(1, 3)) {
            // many distinct parameter sets, seldom one longer than its length field can state
            const std::int64_t ty = r.chance(2, 5) ? 7 : 8;
            s.name = "h264";
            s.a.resize(4);
            for (auto k = 1 + r.below(ty == 7 ? 16 : 130); k--;) {
              s.a.push_back(r.chance(1, 30) ? 1 : ty);
              s.a.push_back(r.pick<std::int64_t>({3, 4}));
              if (r.chance(1, 6)) s.a.back() += 16 * r.range(1, 12);
              s.a.push_back(r.chance(1, 60) ? r.pick<std::int64_t>({65534, 65535, 65536, 65537}) : r.range(5, ty == 7 ? 60 : 500));
            }
          }
        } else {
          std::int64_t size = static_cast<std::int64_t>(r.chance(1, 10) ? 0 : r.chance(1, 2) ? r.skewed(g.max_size) : r.below(g.max_size));
          s = {"add", {op.track, static_cast<std::int64_t>(dt), size, key, r.range(1, 1 << 30)}};
        }
      }
    }
    sc.steps.push_back(std::move(s));
  }
  if (g.bulk && nt) {
    // more samples of one track than 16 bits can count: in one chunk, in chunks of a few, or one chunk each
    const std::int64_t t = r.below(static_cast<std::uint64_t>(nt));
    Step s{"rep", {t, r.pick<std::int64_t>({65534, 65535, 65536, 65537, 66000, 70000, 132000}), r.range(0, 2), r.range(0, 2),
                   r.pick<std::int64_t>({0, 0, 1, 1, 3, 1000, 65536}), r.range(1, 1 << 30), r.pick<std::int64_t>({0, 1, 1, 7, 300})}};
    std::size_t at = 0;
    for (std::size_t k = 0; k < sc.steps.size(); ++k)
      if (sc.steps[k].name == "track" && sc.steps[k].arg(0) == t) at = k + 1;
    sc.steps.insert(sc.steps.begin() + static_cast<std::ptrdiff_t>(at + r.below(sc.steps.size() - at + 1)), s);
  }
  if (g.alias && nt) {
    // neighbouring chunks whose numbers of samples differ by a multiple of 2^8 or 2^16 only
    const std::int64_t t = r.below(static_cast<std::uint64_t>(nt));
    const std::int64_t unit = r.chance(1, 40) ? 65536 : 256;
    std::int64_t n = r.pick<std::int64_t>({1, 1, 2, 3, 100, 255, 256});
    std::size_t at = 0;
    for (std::size_t k = 0; k < sc.steps.size(); ++k)
      if (sc.steps[k].name == "track" && sc.steps[k].arg(0) == t) at = k + 1;
    at += r.below(sc.steps.size() - at + 1);
    std::vector<Step> more{{"chunk", {t}}};
    for (auto k = 2 + r.below(3); k--;) {
      more.push_back({"rep", {t, n, r.range(0, 3), r.range(0, 2), n, r.range(1, 1 << 30), r.pick<std::int64_t>({0, 1, 7, 256})}});
      n = n > unit && r.chance(1, 2) ? n - unit : n + unit;
    }
    sc.steps.insert(sc.steps.begin() + static_cast<std::ptrdiff_t>(at), more.begin(), more.end());
  }
  if (r.chance(1, 8)) {
    for (auto k = 1 + r.below(4); k--;) {
      Step s = r.chance(1, 3) ? Step{"ask", {}} : Step{"pad", {r.chance(1, 6) ? 0 : static_cast<std::int64_t>(r.skewed(g.max_size)), r.range(1, 1 << 30)}};
      sc.steps.insert(sc.steps.begin() + static_cast<std::ptrdiff_t>(r.below(sc.steps.size() + 1)), s);
    }
  }
  if (nt > 1 && r.chance(1, 5)) sc.p["order"] = r.range(1, 1 << 20);
  if (g.allow_omit && nt && r.chance(1, 12)) sc.p["omit"] = r.range(1, 1 << 20);
  if (g.refused_steps && r.chance(1, 3)) sc.p["lateids"] = r.pick<std::int64_t>({1, 2, 8, 9, 3 + 8 * 2});
  if (g.clock) {
    // 1970 .. 2200, biased to the limits of 32-bit seconds
    const std::int64_t special[] = {0, 1, 2082844800LL - 1, 2212122495LL, 2212122496LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 5000000000LL};
    std::int64_t sec = r.chance(1, 2) ? special[r.below(10)] + r.range(-2, 2) : r.range(0, 7258118400LL);
    if (sec < 0) sec = 0;
    sc.p["clock"] = sec * 1'000'000'000LL + r.range(0, 999'999'999);
    sc.p["cstep"] = r.pick<std::int64_t>({0, 1, 500000000, 1000000000, -700000000, 3600000000000LL});
  }
  return sc;
}

std::uint64_t sim_media_ms(const MuxModel& m) {
  long double s = m.duration;
  return static_cast<std::uint64_t>(s * 1000.0L);
}

std::uint64_t shape_state(const Scenario& sc) {
  // abstraction: layout, buffering class, kinds, order of operations with size classes
  Hash h;
  h.u64(static_cast<std::uint64_t>(sc.get("layout")));
  h.u64(static_cast<std::uint64_t>(sc.get("obuf") ? 1 : 0));
  for (auto& s : sc.steps) {
    h.str(s.name);
    h.u64(static_cast<std::uint64_t>(s.arg(0)));
    if (s.name == "track") h.u64(static_cast<std::uint64_t>(s.arg(1)));
    if (s.name == "add" || s.name == "big") {
      h.u64(static_cast<std::uint64_t>(bits(static_cast<std::uint64_t>(s.arg(2)))));
      h.u64(static_cast<std::uint64_t>(s.arg(3)));
      h.u64(s.arg(1) != 0);
    }
  }
  for (auto& f : sc.faults) {
    h.str(f.name);
    for (auto x : f.a) h.u64(static_cast<std::uint64_t>(x));
  }
  return h.h;
}

}  // namespace sim
