#include "demux.hpp"

#include <algorithm>
#include <set>

namespace sim {

namespace {
[[noreturn]] void bad(const std::string& m) { throw Violation("structure", m); }

// payload bytes before the first child for boxes that contain boxes; -1: leaf
int container_prefix(const std::string& t, const std::string& parent) {
  static const std::set<std::string> plain{"moov", "trak", "edts", "mdia", "minf", "dinf", "stbl", "udta", "ilst", "mvex",
                                           "moof", "traf", "mfra", "sinf", "schi", "wave"};
  if (plain.count(t)) return 0;
  if (t == "meta") return 4;
  if (t == "dref" || t == "stsd") return 8;
  if (parent == "stsd" || parent == "wave") {
    static const std::set<std::string> vis{"avc1", "vp08", "vp09", "av01", "encv"};
    static const std::set<std::string> aud{"mp4a", "Opus", "enca"};
    if (vis.count(t)) return 78;
    if (aud.count(t) && parent == "stsd") return 28;
  }
  if (parent == "ilst") return 0;
  return -1;
}
}  // namespace

std::uint64_t rd_be(const ByteSource& s, std::uint64_t off, int n) {
  std::uint8_t b[8];
  if (!s.read(off, static_cast<std::size_t>(n), b)) bad(fmt_str("read of %d bytes at %llu beyond the end", n, (unsigned long long)off));
  std::uint64_t v = 0;
  for (int i = 0; i < n; ++i) v = v << 8 | b[i];
  return v;
}
std::string rd_str(const ByteSource& s, std::uint64_t off, std::size_t n) {
  std::string r(n, 0);
  if (!s.read(off, n, reinterpret_cast<std::uint8_t*>(r.data()))) bad("read beyond the end");
  return r;
}
std::vector<std::uint8_t> rd_vec(const ByteSource& s, std::uint64_t off, std::size_t n) {
  std::vector<std::uint8_t> r(n);
  if (!s.read(off, n, r.data())) bad("read beyond the end");
  return r;
}

std::vector<PBox> parse_boxes(const ByteSource& s, std::uint64_t off, std::uint64_t end, int depth, const std::string& parent,
                              bool* truncated) {
  std::vector<PBox> v;
  if (depth > 32) bad("nesting too deep");
  while (off < end) {
    PBox b;
    b.off = off;
    b.depth = depth;
    if (end - off < 8) {
      if (truncated) { *truncated = true; return v; }
      bad(fmt_str("%llu stray bytes at %llu in %s", (unsigned long long)(end - off), (unsigned long long)off, parent.c_str()));
    }
    b.size = rd_be(s, off, 4);
    b.type = rd_str(s, off + 4, 4);
    if (b.size == 1) {
      if (end - off < 16) {
        if (truncated) { *truncated = true; return v; }
        bad("truncated large header");
      }
      b.size = rd_be(s, off + 8, 8);
      b.hdr = 16;
    } else if (b.size == 0) {
      if (depth) bad("size 0 in a nested box");
      b.size = end - off;
      b.to_eof = true;
    }
    if (b.size < b.hdr || b.size > end - off) {
      if (truncated && depth == 0) { *truncated = true; return v; }
      bad(fmt_str("box '%s' at %llu: size %llu does not fit its container (ends at %llu)", b.type.c_str(),
                  (unsigned long long)off, (unsigned long long)b.size, (unsigned long long)end));
    }
    const int pre = container_prefix(b.type, parent);
    if (pre >= 0) {
      if (b.size < b.hdr + static_cast<std::uint64_t>(pre)) bad("box '" + b.type + "' shorter than its fixed fields");
      b.kids = parse_boxes(s, b.body() + static_cast<std::uint64_t>(pre), b.end(), depth + 1, b.type);
    }
    off = b.end();
    v.push_back(std::move(b));
  }
  return v;
}

namespace {
const PBox& need(const PBox& p, const char* t) {
  const int n = p.count(t);
  if (n != 1) bad(fmt_str("'%s' has %d '%s' boxes, expected 1", p.type.c_str(), n, t));
  return *p.kid(t);
}

void expect_end(const PBox& b, std::uint64_t at, const char* what) {
  if (at != b.end())
    bad(fmt_str("'%s' at %llu: fields end at %llu but the box ends at %llu (%s)", b.type.c_str(), (unsigned long long)b.off,
                (unsigned long long)at, (unsigned long long)b.end(), what));
}

void need_room(const PBox& b, std::uint64_t at, std::uint64_t n) {
  if (at > b.end() || n > b.end() - at) bad("'" + b.type + "': table longer than its box");
}

DTrack read_track(const ByteSource& s, const PBox& trak) {
  DTrack t;
  {
    const PBox& b = need(trak, "tkhd");
    std::uint64_t o = b.body();
    const auto ver = rd_be(s, o, 1);
    t.tk_flags = static_cast<std::uint32_t>(rd_be(s, o + 1, 3));
    o += 4;
    const int w = ver ? 8 : 4;
    t.tk_ctime = rd_be(s, o, w); o += static_cast<unsigned>(w);
    t.tk_mtime = rd_be(s, o, w); o += static_cast<unsigned>(w);
    t.track_id = static_cast<std::uint32_t>(rd_be(s, o, 4));
    o += 8;
    t.tk_duration = rd_be(s, o, w); o += static_cast<unsigned>(w);
    o += 8 + 4;
    t.tk_volume = static_cast<int>(rd_be(s, o, 2));
    o += 4;
    static const std::uint32_t id[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000};
    for (int i = 0; i < 9; ++i, o += 4) t.tk_identity &= rd_be(s, o, 4) == id[i];
    t.tk_width = static_cast<std::uint32_t>(rd_be(s, o, 4));
    t.tk_height = static_cast<std::uint32_t>(rd_be(s, o + 4, 4));
    expect_end(b, o + 8, "tkhd");
  }
  if (trak.count("edts")) {
    const PBox& b = need(need(trak, "edts"), "elst");
    t.has_elst = true;
    std::uint64_t o = b.body();
    const auto ver = rd_be(s, o, 1);
    const auto n = rd_be(s, o + 4, 4);
    o += 8;
    need_room(b, o, n * (ver ? 20 : 12));
    for (std::uint64_t i = 0; i < n; ++i) {
      DTrack::Edit e;
      if (ver) {
        e.dur = rd_be(s, o, 8);
        e.media_time = static_cast<std::int64_t>(rd_be(s, o + 8, 8));
        o += 16;
      } else {
        e.dur = rd_be(s, o, 4);
        e.media_time = static_cast<std::int32_t>(rd_be(s, o + 4, 4));
        o += 8;
      }
      e.rate = static_cast<std::uint32_t>(rd_be(s, o, 4));
      o += 4;
      t.edits.push_back(e);
    }
    expect_end(b, o, "elst");
  }
  const PBox& mdia = need(trak, "mdia");
  {
    const PBox& b = need(mdia, "mdhd");
    std::uint64_t o = b.body();
    const auto ver = rd_be(s, o, 1);
    o += 4;
    const int w = ver ? 8 : 4;
    t.md_ctime = rd_be(s, o, w); o += static_cast<unsigned>(w);
    t.md_mtime = rd_be(s, o, w); o += static_cast<unsigned>(w);
    t.timescale = static_cast<std::uint32_t>(rd_be(s, o, 4)); o += 4;
    t.md_duration = rd_be(s, o, w); o += static_cast<unsigned>(w);
    expect_end(b, o + 4, "mdhd");
  }
  {
    const PBox& b = need(mdia, "hdlr");
    t.handler = rd_str(s, b.body() + 8, 4);
  }
  const PBox& minf = need(mdia, "minf");
  t.vmhd = minf.count("vmhd") == 1;
  t.smhd = minf.count("smhd") == 1;
  {
    const PBox& dref = need(need(minf, "dinf"), "dref");
    const auto n = rd_be(s, dref.body() + 4, 4);
    if (n != dref.kids.size()) bad("dref entry count differs from its entries");
    t.dref_self = n == 1 && dref.kids[0].type == "url " && (rd_be(s, dref.kids[0].body(), 4) & 1);
  }
  const PBox& stbl = need(minf, "stbl");
  {
    const PBox& b = need(stbl, "stsd");
    const auto n = rd_be(s, b.body() + 4, 4);
    if (n != 1 || b.kids.size() != 1) bad("stsd does not have exactly one entry");
    t.entry = b.kids[0];
    if (rd_be(s, t.entry.body() + 6, 2) != 1) bad("sample entry does not refer to data reference 1");
  }
  {
    const PBox& b = need(stbl, "stts");
    const auto n = rd_be(s, b.body() + 4, 4);
    need_room(b, b.body() + 8, n * 8);
    for (std::uint64_t i = 0; i < n; ++i)
      t.stts.push_back({static_cast<std::uint32_t>(rd_be(s, b.body() + 8 + i * 8, 4)),
                        static_cast<std::uint32_t>(rd_be(s, b.body() + 12 + i * 8, 4))});
    expect_end(b, b.body() + 8 + n * 8, "stts");
  }
  if (stbl.count("stss")) {
    t.has_stss = true;
    const PBox& b = need(stbl, "stss");
    const auto n = rd_be(s, b.body() + 4, 4);
    need_room(b, b.body() + 8, n * 4);
    for (std::uint64_t i = 0; i < n; ++i) t.stss.push_back(static_cast<std::uint32_t>(rd_be(s, b.body() + 8 + i * 4, 4)));
    expect_end(b, b.body() + 8 + n * 4, "stss");
  }
  {
    const PBox& b = need(stbl, "stsc");
    const auto n = rd_be(s, b.body() + 4, 4);
    need_room(b, b.body() + 8, n * 12);
    for (std::uint64_t i = 0; i < n; ++i)
      t.stsc.push_back({static_cast<std::uint32_t>(rd_be(s, b.body() + 8 + i * 12, 4)),
                        static_cast<std::uint32_t>(rd_be(s, b.body() + 12 + i * 12, 4)),
                        static_cast<std::uint32_t>(rd_be(s, b.body() + 16 + i * 12, 4))});
    expect_end(b, b.body() + 8 + n * 12, "stsc");
  }
  std::vector<std::uint32_t> sizes;
  {
    const PBox& b = need(stbl, "stsz");
    const auto fixed = rd_be(s, b.body() + 4, 4);
    const auto n = rd_be(s, b.body() + 8, 4);
    t.sample_count = n;
    if (fixed) {
      if (n > 10'000'000) bad("stsz: absurd sample count");
      sizes.assign(n, static_cast<std::uint32_t>(fixed));
      expect_end(b, b.body() + 12, "stsz");
    } else {
      need_room(b, b.body() + 12, n * 4);
      for (std::uint64_t i = 0; i < n; ++i) sizes.push_back(static_cast<std::uint32_t>(rd_be(s, b.body() + 12 + i * 4, 4)));
      expect_end(b, b.body() + 12 + n * 4, "stsz");
    }
  }
  {
    const int c32 = stbl.count("stco"), c64 = stbl.count("co64");
    if (c32 + c64 != 1) bad("track has not exactly one chunk offset table");
    t.co64 = c64 == 1;
    const PBox& b = need(stbl, t.co64 ? "co64" : "stco");
    const int w = t.co64 ? 8 : 4;
    const auto n = rd_be(s, b.body() + 4, 4);
    need_room(b, b.body() + 8, n * static_cast<unsigned>(w));
    for (std::uint64_t i = 0; i < n; ++i) t.chunk_offs.push_back(rd_be(s, b.body() + 8 + i * static_cast<unsigned>(w), w));
    expect_end(b, b.body() + 8 + n * static_cast<unsigned>(w), "stco/co64");
  }
  if (stbl.count("sgpd")) {
    t.has_sgpd = true;
    const PBox& b = need(stbl, "sgpd");
    const auto ver = rd_be(s, b.body(), 1);
    t.sgpd_type = rd_str(s, b.body() + 4, 4);
    std::uint64_t o = b.body() + 8, len = 0;
    if (ver == 1) { len = rd_be(s, o, 4); o += 4; }
    if (ver >= 2) o += 4;
    const auto n = rd_be(s, o, 4);
    o += 4;
    if (t.sgpd_type == "roll" && n == 1) {
      if (ver == 1 && len == 0) o += 4;
      t.roll_distance = static_cast<std::int16_t>(rd_be(s, o, 2));
      expect_end(b, o + 2, "sgpd");
    }
  }
  if (stbl.count("sbgp")) {
    t.has_sbgp = true;
    const PBox& b = need(stbl, "sbgp");
    const auto ver = rd_be(s, b.body(), 1);
    t.sbgp_type = rd_str(s, b.body() + 4, 4);
    std::uint64_t o = b.body() + 8 + (ver == 1 ? 4 : 0);
    const auto n = rd_be(s, o, 4);
    o += 4;
    need_room(b, o, n * 8);
    for (std::uint64_t i = 0; i < n; ++i, o += 8)
      t.sbgp.push_back({static_cast<std::uint32_t>(rd_be(s, o, 4)), static_cast<std::uint32_t>(rd_be(s, o + 4, 4))});
    expect_end(b, o, "sbgp");
  }
  // resolve the samples
  std::uint64_t idx = 0;
  for (std::size_t e = 0; e < t.stsc.size(); ++e) {
    if (t.stsc[e].desc != 1) bad("stsc refers to a sample description that does not exist");
    if (e == 0 && t.stsc[e].first != 1) bad("stsc does not start at chunk 1");
    if (e && t.stsc[e].first <= t.stsc[e - 1].first) bad("stsc chunk numbers not increasing");
    if (t.stsc[e].first > t.chunk_offs.size()) bad("stsc refers to a chunk that does not exist");
    const std::uint64_t last = e + 1 < t.stsc.size() ? std::min<std::uint64_t>(t.stsc[e + 1].first - 1, t.chunk_offs.size()) : t.chunk_offs.size();
    for (std::uint64_t c = t.stsc[e].first; c <= last; ++c) {
      std::uint64_t o = t.chunk_offs[c - 1];
      for (std::uint32_t k = 0; k < t.stsc[e].per; ++k) {
        if (idx >= sizes.size()) bad("chunks hold more samples than there are sizes");
        DSample d;
        d.off = o;
        d.size = sizes[idx++];
        d.chunk = static_cast<std::uint32_t>(c);
        o += d.size;
        t.samples.push_back(d);
      }
    }
  }
  if (t.stsc.empty() && !t.chunk_offs.empty()) bad("chunks without sample-to-chunk entries");
  if (idx != sizes.size()) bad(fmt_str("chunks hold %llu samples, size table has %zu", (unsigned long long)idx, sizes.size()));
  std::uint64_t dts = 0;
  std::size_t k = 0;
  for (auto& [c, d] : t.stts) {
    for (std::uint32_t i = 0; i < c; ++i) {
      if (k >= t.samples.size()) bad("time-to-sample table covers more samples than there are");
      t.samples[k].dts = dts;
      t.samples[k].dur = d;
      dts += d;
      ++k;
    }
  }
  if (k != t.samples.size()) bad(fmt_str("time-to-sample table covers %zu of %zu samples", k, t.samples.size()));
  return t;
}
}  // namespace

DFile demux(const ByteSource& s, bool lenient, bool* incomplete) {
  DFile f;
  bool trunc = false;
  f.top = parse_boxes(s, 0, s.size(), 0, "", lenient ? &trunc : nullptr);
  if (incomplete) *incomplete = trunc;
  for (auto& b : f.top) {
    if (b.type == "ftyp") {
      f.major = rd_str(s, b.body(), 4);
      f.minor = static_cast<std::uint32_t>(rd_be(s, b.body() + 4, 4));
      if ((b.end() - b.body()) % 4) bad("ftyp size");
      for (auto o = b.body() + 8; o + 4 <= b.end(); o += 4) f.brands.push_back(rd_str(s, o, 4));
    } else if (b.type == "mdat") {
      ++f.mdats;
      f.mdat_begin = b.body();
      f.mdat_end = b.end();
    }
  }
  for (auto& b : f.top) {
    if (b.type != "moov") continue;
    if (f.has_moov) bad("two indexes");
    f.has_moov = true;
    const PBox& m = need(b, "mvhd");
    std::uint64_t o = m.body();
    const auto ver = rd_be(s, o, 1);
    o += 4;
    const int w = ver ? 8 : 4;
    f.mv_ctime = rd_be(s, o, w); o += static_cast<unsigned>(w);
    f.mv_mtime = rd_be(s, o, w); o += static_cast<unsigned>(w);
    f.mv_timescale = static_cast<std::uint32_t>(rd_be(s, o, 4)); o += 4;
    f.mv_duration = rd_be(s, o, w); o += static_cast<unsigned>(w);
    o += 4 + 2 + 2 + 8 + 36 + 24;
    f.next_track_id = static_cast<std::uint32_t>(rd_be(s, o, 4));
    expect_end(m, o + 4, "mvhd");
    for (auto& k : b.kids)
      if (k.type == "trak") f.tracks.push_back(read_track(s, k));
    if (auto* u = b.kid("udta"))
      if (auto* me = u->kid("meta"))
        if (auto* il = me->kid("ilst"))
          if (auto* too = il->kid("\xa9too"))
            if (auto* d = too->kid("data"))
              f.encoder_tag = rd_be(s, d->body(), 4) == 1 && rd_str(s, d->body() + 8, static_cast<std::size_t>(d->end() - d->body() - 8)) == "shiguredo::mp4";
  }
  return f;
}

}  // namespace sim
