// Independent reader of the container format, written from ISO/IEC 14496-12/-14/-15 and the codec bindings.
// Shares no code with /repo.
#pragma once

#include <string>
#include <vector>

#include "device.hpp"

namespace sim {

struct PBox {
  std::string type;
  std::uint64_t off = 0, size = 0, hdr = 8;
  int depth = 0;
  bool to_eof = false;
  std::vector<PBox> kids;
  std::uint64_t body() const { return off + hdr; }
  std::uint64_t end() const { return off + size; }
  const PBox* kid(const char* t) const {
    for (auto& k : kids)
      if (k.type == t) return &k;
    return nullptr;
  }
  int count(const char* t) const {
    int n = 0;
    for (auto& k : kids) n += k.type == t;
    return n;
  }
};

struct DSample {
  std::uint64_t off = 0, size = 0, dts = 0;
  std::uint32_t dur = 0;
  std::uint32_t chunk = 0;
};

struct DTrack {
  // tkhd
  std::uint64_t tk_ctime = 0, tk_mtime = 0, tk_duration = 0;
  std::uint32_t track_id = 0, tk_flags = 0, tk_width = 0, tk_height = 0;
  int tk_volume = 0;
  bool tk_identity = true;
  // mdhd
  std::uint64_t md_ctime = 0, md_mtime = 0, md_duration = 0;
  std::uint32_t timescale = 0;
  std::string handler;
  bool vmhd = false, smhd = false, dref_self = false;
  // elst
  struct Edit {
    std::uint64_t dur;
    std::int64_t media_time;
    std::uint32_t rate;
  };
  std::vector<Edit> edits;
  bool has_elst = false;
  // stbl
  PBox entry;  // sample entry with kids
  std::vector<std::pair<std::uint32_t, std::uint32_t>> stts;
  bool has_stss = false;
  std::vector<std::uint32_t> stss;
  struct Stsc {
    std::uint32_t first, per, desc;
  };
  std::vector<Stsc> stsc;
  std::uint64_t sample_count = 0;
  std::vector<std::uint64_t> chunk_offs;
  bool co64 = false;
  bool has_sgpd = false, has_sbgp = false;
  int roll_distance = 0;
  std::string sgpd_type, sbgp_type;
  std::vector<std::pair<std::uint32_t, std::uint32_t>> sbgp;
  std::vector<DSample> samples;
};

struct DFile {
  std::vector<PBox> top;
  std::string major;
  std::uint32_t minor = 0;
  std::vector<std::string> brands;
  bool has_moov = false;
  std::uint64_t mv_ctime = 0, mv_mtime = 0, mv_duration = 0;
  std::uint32_t mv_timescale = 0, next_track_id = 0;
  std::vector<DTrack> tracks;
  bool encoder_tag = false;
  std::uint64_t mdat_begin = 0, mdat_end = 0;  // payload
  int mdats = 0;
};

// parses the box tree of [off,end); throws Violation("structure", ...) when boxes do not tile it
std::vector<PBox> parse_boxes(const ByteSource& s, std::uint64_t off, std::uint64_t end, int depth, const std::string& parent,
                              bool* truncated = nullptr);
// full demux; lenient: a truncated last top-level box is tolerated (crash images)
DFile demux(const ByteSource& s, bool lenient = false, bool* incomplete = nullptr);

std::uint64_t rd_be(const ByteSource& s, std::uint64_t off, int n);
std::string rd_str(const ByteSource& s, std::uint64_t off, std::size_t n);
std::vector<std::uint8_t> rd_vec(const ByteSource& s, std::uint64_t off, std::size_t n);

}  // namespace sim
