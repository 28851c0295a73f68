// Muxing sessions: scenario -> calls of the public API -> recorded model; oracles over the finished bytes.
#pragma once

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "core.hpp"
#include "demux.hpp"
#include "device.hpp"

namespace shiguredo::mp4::writer {
class Writer;
}

namespace sim {

enum Kind { kVP8, kVP9, kAV1, kH264, kAAC, kMP3, kOpus, kKinds };
inline bool is_video(int k) { return k <= kH264; }

using Bytes = std::vector<std::uint8_t>;

struct TrackCfg {
  int label = 0, kind = 0;
  std::uint32_t timescale = 1000;
  std::int64_t media_time = 0;
  float duration = 0;
  // codec parameters
  std::uint32_t width = 640, height = 480, max_br = 0, avg_br = 0, buf_db = 768;
  std::uint64_t pre_skip = 312;
  int roll = -4;
  std::uint8_t av[6] = {0, 0, 0, 1, 1, 0};
  Bytes obus;
  bool obus_given = false;
  std::uint8_t avc[4] = {1, 66, 0xc0, 31};
};

struct MSample {
  Bytes data;
  std::uint64_t ts = 0;
  bool key = false;
  int opt = 0;  // != 0: unit of a refused access unit, which may or may not have been stored
  std::int64_t vsize = -1;  // >=0: not data but that many bytes of pattern pat
  int pat = 0;
  std::uint64_t size() const { return vsize >= 0 ? static_cast<std::uint64_t>(vsize) : data.size(); }
};

struct MTrack {
  TrackCfg cfg;
  std::uint32_t id = 0;
  std::vector<MSample> s;
  std::vector<Bytes> sps, pps;
  std::vector<bool> sps_opt, pps_opt;
  std::uint64_t chunks_closed = 0;
};

struct MuxError {
  std::string where, what;
  int step = -1;
};

struct MuxModel {
  bool fast = false;
  std::uint32_t mvts = 1000;
  float duration = 0;
  std::int64_t ctor_clock_ns = 0;
  std::string major = "isom";
  std::uint32_t minor = 512;
  std::vector<std::string> brands{"isom", "iso2", "mp41"};
  std::vector<MTrack> tracks;       // creation order
  std::vector<int> order;           // indices into tracks, in the order handed over
  std::vector<std::uint32_t> ids;   // every identifier the writer handed out, in order
  std::vector<MuxError> errors;
  bool finished = false;            // every library call reported success and so did the flush of a stream they left healthy
  bool constructed = false;
  std::uint64_t media_bytes = 0;
};

// Annex-B helpers -----------------------------------------------------------------------------------------
Bytes nal_body(std::uint64_t seed, std::size_t n, std::uint8_t header);  // n >= 1, no start code emulation, last byte != 0
void append_nal(Bytes* au, const Bytes& nal, int start_code);

struct MuxOpts {
  int layout = -1;                 // override
  bool log_ops = false;
  std::int64_t capacity = -1;
  bool keep_going = false;         // go on after a refused addition
  int abandon_step = -1;           // stop before this step (>=0)
  int abandon_finish = -1;         // perform only this many finishing calls (>=0)
  bool delete_on_abandon = false;  // an abandoning caller asks the fast-start writer to remove its spool
  std::map<int, std::int64_t> refuse;  // step -> leading units of that addition the media still accept
  std::function<void(const std::string& path)> on_spool;   // the writer's spool path, after construction
  std::function<void(int step)> after_step;
  std::string spool_template;      // default: <spool_dir>/mdatXXXXXX
  std::function<void(int step)> before_step;
  std::function<void(shiguredo::mp4::writer::Writer&, int stage)> on_index;   // progressive: around building the index
};

// Runs the scenario's muxing steps in session s against medium dev.
struct MuxRun {
  MuxModel m;
  std::vector<WriteOp> oplog;
  std::vector<std::uint64_t> marks;
  std::string spool_path, spool_template;
};
void run_mux(const Scenario& sc, Session& s, Blob& dev, const MuxOpts& o, MuxRun* out);

// Scenario generation
struct GenOpts {
  int max_tracks = 5, max_ops = 60;
  std::size_t max_size = 700;
  int layout = -1;           // -1: random
  bool big_numbers = false;  // 32-bit-overflowing times
  bool clock = false;        // clock movement
  bool params = false;       // random codec parameters
  bool refused_steps = false;  // zero ids, extra id draws
  bool loose_durations = false;
  bool vary_buffers = true;
  int h264_bias = 0;
  bool bad264 = false;
  bool many_sets = false;
  bool bulk = false;     // more than 65535 samples in a track
  bool alias = false;            // add chunks whose sample counts agree modulo 2^8 or 2^16
  bool own_ids = false;  // track identifiers chosen by the caller
  bool allow_omit = true;
};
Scenario gen_mux(const std::string& prop, Rng& r, std::uint64_t seed, const GenOpts& g);

// Oracles (throw Violation)
void resolve_optional(MuxModel& m, const Blob& dev);                // settles what refused access units left behind
void check_media(const MuxModel& m, const Blob& dev, DFile* out);   // structure, sizes, bytes
void check_layout(const MuxModel& m, const DFile& f, const Blob& dev);
void check_timing(const MuxModel& m, const DFile& f);
void check_identity(const MuxModel& m, const DFile& f, const Blob& dev);
void check_clock(const MuxModel& m, const DFile& f);
void check_h264_record(const MTrack& t, const DTrack& d, const Blob& dev);

std::uint64_t sim_media_ms(const MuxModel& m);
std::uint64_t shape_state(const Scenario& sc);

// access units of arbitrary bytes (engines_h264.cpp)
Scenario gen_h264_raw(Rng& r, std::uint64_t seed);
Outcome run_h264_raw(const Scenario& sc);
void setup_session(const Scenario& sc, Session& s, const std::string& name);

int release_spools(Session& s);

}  // namespace sim
