// Engines of the reading side: R01 (every box, however delivered), R02 (hostile bytes), R03 (read errors, truncation).
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <memory>

#include <spdlog/spdlog.h>

#include "boxes.hpp"
#include "device.hpp"
#include "mux.hpp"

#include "shiguredo/mp4/reader/reader.hpp"

int mp4_tool_main(int argc, char** argv);

namespace sim {

namespace {

struct ReadRun {
  bool ok = false;
  std::string err, text;
};

// the real reader over a simulated input stream
// used: how the caller left the stream: 1 somewhere in the middle, 2 at its end and known to be there
// again: what a further reader over the same stream gives, once the caller has cleared its state
void read_stream(Session& s, const Bytes& content, std::uint64_t frag, std::uint64_t fs, std::int64_t avail, ReadRun* out, int used = 0, ReadRun* again = nullptr) {
  SessScope ss(&s);
  ConsoleCapture cap;
  SimIn si(s, content, frag, fs, avail);
  std::istream is(&si);
  if (used == 1) is.seekg(static_cast<std::streamoff>(payload_byte(fs, 1) * 257 % (content.size() + 1)));
  if (used == 2) {
    is.seekg(0, std::ios_base::end);
    is.peek();
  }
  out->ok = lib_call([&] {
    shiguredo::mp4::reader::SimpleReader r(is);
    r.read();
  }, &out->err);
  out->text = cap.text();
  if (!again) return;
  if (!out->ok) is.clear();
  ConsoleCapture cap2;
  again->ok = lib_call([&] {
    shiguredo::mp4::reader::SimpleReader r(is);
    r.read();
  }, &again->err);
  again->text = cap2.text();
}

void read_file(Session& s, const std::string& path, ReadRun* out) {
  SessScope ss(&s);
  ConsoleCapture cap;
  std::ifstream is(path, std::ios_base::binary);
  out->ok = lib_call([&] {
    shiguredo::mp4::reader::SimpleReader r(is);
    r.read();
  }, &out->err);
  out->text = cap.text();
}

struct TempFile {
  std::string path;
  explicit TempFile(const Bytes& b) {
    path = scratch_dir() + "/in.mp4";
    const int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    std::size_t at = 0;
    while (fd >= 0 && at < b.size()) {
      const auto n = ::write(fd, b.data() + at, b.size() - at);
      if (n <= 0) break;
      at += static_cast<std::size_t>(n);
    }
    if (fd < 0 || at != b.size()) throw std::runtime_error("cannot write the scratch file");
    ::close(fd);
  }
  ~TempFile() { ::unlink(path.c_str()); }
};

// A scenario's file: a seeded box tree, or what the writers produce.
struct Subject {
  Bytes bytes;
  std::vector<Line> lines;
  std::vector<std::uint64_t> tops;   // start of each top-level box, and the end
  bool open_end = false;             // last box runs to the end of the file
  std::vector<Node> roots;
  std::uint64_t boxes = 0, depth = 0;
};

bool mux_file(const Scenario& sc) { return sc.get("mux") != 0; }

Subject subject(const Scenario& sc, bool relaxed) {
  Subject u;
  if (mux_file(sc)) {
    Session s;
    setup_session(sc, s, "producer");
    s.spool_dir = scratch_dir();
    Blob dev;
    MuxRun r;
    run_mux(sc, s, dev, {}, &r);
    release_spools(s);
    u.bytes = dev.dense;
    list_boxes(dev, 0, dev.size(), 0, false, &u.lines, &u.tops);
  } else {
    u.roots = build_tree(sc.steps, relaxed);
    u.bytes = encode_tree(u.roots);
    u.lines = expected_lines(u.roots);
    for (auto& n : u.roots) u.tops.push_back(n.offset);
    u.open_end = !u.roots.empty() && u.roots.back().hdr == 2;
  }
  u.tops.push_back(u.bytes.size());
  u.boxes = u.lines.size();
  for (auto& l : u.lines) u.depth = std::max<std::uint64_t>(u.depth, static_cast<std::uint64_t>(l.depth));
  return u;
}

void compare(const std::vector<Line>& want, const std::string& text, const std::string& how, const char* cls) {
  std::vector<Line> got;
  std::string bad;
  if (!parse_lines(text, &got, &bad)) throw Violation(cls, how + "not a report line: " + bad);
  for (std::size_t i = 0; i < want.size() && i < got.size(); ++i)
    if (!(want[i] == got[i])) throw Violation(cls, how + fmt_str("line %zu is ", i) + line_text(got[i]) + " and should be " + line_text(want[i]));
  if (got.size() != want.size()) throw Violation(cls, how + fmt_str("%zu boxes reported, %zu are there", got.size(), want.size()) + (got.size() < want.size() ? ", missing " + line_text(want[got.size()]) : ", extra " + line_text(got[want.size()])));
}

std::uint64_t shape_of(const Subject& u, const Scenario& sc) {
  Hash h;
  for (auto& l : u.lines) {
    h.u64(static_cast<std::uint64_t>(l.depth));
    h.str(l.type);
    h.u64(l.size);
  }
  for (auto& f : sc.faults) {
    h.str(f.name);
    for (auto v : f.a) h.u64(static_cast<std::uint64_t>(v));
  }
  for (auto& s : sc.steps)
    if (s.name == "mut")
      for (auto v : s.a) h.u64(static_cast<std::uint64_t>(v));
  h.u64(static_cast<std::uint64_t>(sc.get("frag")));
  return h.h;
}

void gen_subject(Scenario& sc, Rng& r, int budget, int mux_in) {
  if (r.chance(1, static_cast<unsigned>(mux_in))) {
    GenOpts g;
    g.max_ops = 10;
    g.max_size = 60;
    g.max_tracks = 4;
    g.params = true;
    g.bad264 = false;
    Scenario m = gen_mux(sc.prop, r, sc.seed, g);
    m.p.insert(sc.p.begin(), sc.p.end());
    sc.p = m.p;
    sc.steps = m.steps;
    sc.p["mux"] = 1;
    return;
  }
  if (r.chance(1, 40)) gen_shape(r, &sc.steps, 64, true);
  else gen_tree(r, &sc.steps, budget, r.chance(1, 8) ? 40 : 12);
}

// ------------------------------------------------------------------------------------------------- R01
Outcome run_r01(const Scenario& sc) {
  Outcome out;
  const Subject u = subject(sc, true);
  Hash h;
  std::string first;
  auto judge = [&](const ReadRun& r, Session& s, const std::string& how) {
    h.str(r.text);
    out.st.merge(s.st);
    if (!r.ok) throw Violation("refused", how + "a well-formed file was refused: " + r.err);
    compare(u.lines, r.text, how, "report");
    if (first.empty()) first = r.text;
    else if (first != r.text) throw Violation("delivery", how + "the report differs from the one over an unfragmented stream");
  };
  const auto frag = static_cast<std::uint64_t>(sc.get("frag"));
  for (int i = 0; i < 3; ++i) {
    Session s;
    s.name = "main";
    s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
    ReadRun r;
    if (i == 0) {
      read_stream(s, u.bytes, 0, 1, -1, &r);
      judge(r, s, "whole stream: ");
    } else if (i == 1) {
      if (!frag) continue;
      ReadRun more;
      read_stream(s, u.bytes, frag, sc.seed, -1, &r, static_cast<int>(sc.get("used")), sc.get("again") ? &more : nullptr);
      if (sc.get("again")) {
        if (!more.ok) throw Violation("refused", "a second reader over the same stream refused the well-formed file: " + more.err);
        compare(u.lines, more.text, "second reader over the same stream: ", "report");
        out.st.probes["stream-read-again"]++;
      }
      if (sc.get("used")) out.st.probes["stream-used-before"]++;
      judge(r, s, fmt_str("fragments of up to %llu byte(s): ", static_cast<unsigned long long>(frag)));
      out.st.probes["fragmented-deliveries"]++;
    } else {
      if (!sc.get("real")) continue;
      TempFile f(u.bytes);
      read_file(s, f.path, &r);
      judge(r, s, "file on disk: ");
      out.st.probes["files-on-disk"]++;
    }
  }
  out.st.probes["boxes"] += u.boxes;
  if (mux_file(sc)) out.st.probes["files-of-the-writers"]++;
  if (u.depth >= 12) out.st.probes["nesting-of-12-and-more"]++;
  if (u.open_end) out.st.probes["last-box-to-the-end-of-the-file"]++;
  for (auto& n : u.roots)
    if (n.hdr == 1) { out.st.probes["64-bit-box-size"]++; break; }
  out.hash = h.h;
  out.state = shape_of(u, sc);
  out.nontrivial = u.boxes > 1;
  return out;
}

Scenario gen_r01(std::uint64_t seed, int tier, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "R01";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 1, 2, 3, 7, 16, 100, 1000});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  sc.p["real"] = r.chance(1, 6);
  if (r.chance(1, 6)) sc.p["used"] = r.range(1, 2);
  if (r.chance(1, 8)) sc.p["again"] = 1;
  gen_subject(sc, r, static_cast<int>(1 + r.below(r.chance(1, 4) ? (tier ? 120 : 60) : 20)), 8);
  return sc;
}

// ------------------------------------------------------------------------------------------------- R04
Outcome run_r04(const Scenario& sc) {
  Outcome out;
  const Subject u = subject(sc, true);
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  ReadRun r;
  if (sc.get("host")) out.st.probes["other-time-zone-or-locale"]++;
  HostEnv he(sc.get("host"));
  if (sc.get("real")) {
    TempFile f(u.bytes);
    read_file(s, f.path, &r);
  } else {
    read_stream(s, u.bytes, static_cast<std::uint64_t>(sc.get("frag")), sc.seed, -1, &r);
  }
  out.st.merge(s.st);
  if (!r.ok) throw Violation("refused", "a well-formed file was refused: " + r.err);
  compare(u.lines, r.text, "", "report");
  std::vector<Line> got;
  std::string bad;
  parse_lines(r.text, &got, &bad);
  for (std::size_t i = 0; i < got.size(); ++i) {
    const auto& a = got[i].text;
    const auto& b = u.lines[i].text;
    if (a == b) continue;
    std::size_t d = 0;
    while (d < a.size() && d < b.size() && a[d] == b[d]) ++d;
    while (d && a[d - 1] != ' ') --d;
    throw Violation("field", fmt_str("line %zu, ", i) + line_text(u.lines[i]) + ": the report says ..." + a.substr(d, 80) + " where the file holds ..." + b.substr(d, 80));
  }
  Hash h;
  h.str(r.text);
  out.hash = h.h;
  out.st.probes["boxes"] += u.boxes;
  for (auto& l : u.lines) out.st.probes["fields"] += static_cast<std::uint64_t>(std::count(l.text.begin(), l.text.end(), '='));
  if (mux_file(sc)) out.st.probes["files-of-the-writers"]++;
  if (sc.get("frag") && !sc.get("real")) out.st.probes["fragmented-deliveries"]++;
  Hash k;
  k.u64(shape_of(u, sc));
  for (auto& l : u.lines) k.str(l.text);
  out.state = k.h;
  out.nontrivial = u.boxes > 1;
  return out;
}

Scenario gen_r04(std::uint64_t seed, int, std::uint64_t index) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "R04";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 1, 3, 16, 1000});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  sc.p["real"] = r.chance(1, 40);
  if (r.chance(1, 4)) sc.p["host"] = r.range(1, 15);
  if (index % 1000 == 200) {  // lists longer than 16 bits can count
    if (sc.p["frag"] && sc.p["frag"] < 16) sc.p["frag"] = 0;
    sc.steps.push_back(large_box(index / 1000, r));
    if (r.chance(1, 2)) sc.steps.push_back({"box", {kind_of("free"), 0, 0, static_cast<std::int64_t>(r.next() >> 24), 1}});
    return sc;
  }
  gen_subject(sc, r, static_cast<int>(1 + r.below(r.chance(1, 4) ? 60 : 20)), 12);
  return sc;
}

// ------------------------------------------------------------------------------------------------- R02
enum Mut { mSize32, mSize64, mType, mField32, mField16, mField8, mFlip, mTrunc, mCopy, mErase, mAppend, mNest, mTiny, mLength, kMuts };
const char* const kMutName[] = {"box-size", "64-bit-box-size", "box-type", "32-bit-field", "16-bit-field", "byte", "bit", "truncation", "spliced-range", "removed-range", "appended-bytes", "hostile-nesting", "many-tiny-boxes", "variable-length"};

std::uint64_t hostile_value(std::int64_t sel, std::int64_t raw, std::uint64_t n, std::uint64_t own) {
  static const std::uint64_t t[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000,
                                    0x0fffffff, 0x10000000, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000, 0x7ffffff8, 0x7fffffff, 0x80000000, 0xaaaaaaab, 0xfffffff0, 0xfffffff8, 0xffffffff,
                                    0x100000000, 0x1fffffffffffffff, 0x2000000000000000, 0x3fffffffffffffff, 0x7ffffffffffffff0, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff0, 0xfffffffffffffff8, 0xffffffffffffffff};
  constexpr auto c = static_cast<std::int64_t>(sizeof t / sizeof t[0]);
  const auto s = sel % (c + 8);
  if (s < c) return t[s];
  switch (s - c) {
    case 0: return n;
    case 1: return n + 1;
    case 2: return n ? n - 1 : 0;
    case 3: return own + 1;
    case 4: return own ? own - 1 : 0;
    case 5: return own * 8;
    case 6: return n / 2;
    default: return static_cast<std::uint64_t>(raw);
  }
}

void put_be(Bytes& b, std::uint64_t at, std::uint64_t v, int n) {
  for (int i = n - 1; i >= 0; --i, v >>= 8)
    if (at + static_cast<std::uint64_t>(i) < b.size()) b[at + static_cast<std::size_t>(i)] = static_cast<std::uint8_t>(v);
}

// {"mut", {op, where, sel, raw}}
Bytes damage(const Scenario& sc, const Subject& u, std::map<std::string, std::uint64_t>* used) {
  Bytes b = u.bytes;
  static const char* containers[] = {"moov", "trak", "meta", "stsd", "wave", "mp4a", "avc1", "udta", "dref", "ilst", "moof"};
  for (auto& s : sc.steps) {
    if (s.name != "mut") continue;
    const int op = static_cast<int>(s.arg(0));
    if (op < 0 || op >= kMuts) continue;
    const auto where = static_cast<std::uint64_t>(s.arg(1));
    const auto sel = s.arg(2), raw = s.arg(3);
    const Line* l = u.lines.empty() ? nullptr : &u.lines[where % u.lines.size()];
    const std::uint64_t n = b.size();
    (*used)[std::string("damage/") + kMutName[op]]++;
    switch (op) {
      case mSize32:
        if (l) put_be(b, l->offset, hostile_value(sel, raw, n, l->size), 4);
        break;
      case mSize64:
        if (l) {
          put_be(b, l->offset, 1, 4);
          put_be(b, l->offset + 8, hostile_value(sel, raw, n, l->size), 8);
        }
        break;
      case mType:
        if (l) {
          const std::string t = kind_type(static_cast<int>(static_cast<std::uint64_t>(sel) % box_kinds().size()), static_cast<std::uint64_t>(raw));
          for (std::size_t i = 0; i < 4; ++i)
            if (l->offset + 4 + i < b.size()) b[l->offset + 4 + i] = static_cast<std::uint8_t>(t[i]);
        }
        break;
      case mField32: case mField16: case mField8: {
        if (!l || l->size <= 8) break;
        // early fields hold versions, flags, counts and lengths
        const std::uint64_t span = l->size - 8;
        const auto off = static_cast<std::uint64_t>(raw) % 2 ? static_cast<std::uint64_t>(raw >> 1) % std::min<std::uint64_t>(span, 40) : static_cast<std::uint64_t>(raw >> 1) % span;
        const int w = op == mField32 ? 4 : op == mField16 ? 2 : 1;
        put_be(b, l->offset + 8 + (w == 4 ? off & ~3ULL : w == 2 ? off & ~1ULL : off), hostile_value(sel, raw >> 8, n, l->size), w);
        break;
      }
      case mFlip:
        if (n) b[where % n] = static_cast<std::uint8_t>(b[where % n] ^ (1u << (sel & 7)));
        break;
      case mTrunc:
        if (n) b.resize(where % (n + 1));
        break;
      case mCopy:
        if (n) {
          const auto from = where % n, len = static_cast<std::uint64_t>(sel) % 64, to = static_cast<std::uint64_t>(raw) % n;
          for (std::uint64_t i = 0; i < len && from + i < n && to + i < n; ++i) b[to + i] = b[from + i];
        }
        break;
      case mErase:
        if (n) {
          const auto from = where % n, len = std::min<std::uint64_t>(static_cast<std::uint64_t>(sel) % 40, n - from);
          b.erase(b.begin() + static_cast<std::ptrdiff_t>(from), b.begin() + static_cast<std::ptrdiff_t>(from + len));
        }
        break;
      case mAppend: {
        const Bytes x = payload(static_cast<std::uint64_t>(raw), where % 200);
        b.insert(b.end(), x.begin(), x.end());
        break;
      }
      case mNest: {
        // headers inside headers, honest or lying about their size
        const auto depth = where % 30000;
        const char* t = containers[static_cast<std::uint64_t>(sel) % 11];
        const int style = static_cast<int>(raw % 3);
        const std::uint64_t base = b.size();
        for (std::uint64_t i = 0; i < depth; ++i) {
          const std::uint64_t left = (depth - i) * 8;
          const std::uint64_t v = style == 0 ? left : style == 1 ? 0 : 8 + left % 64;
          for (int k = 3; k >= 0; --k) b.push_back(static_cast<std::uint8_t>(v >> (8 * k)));
          b.insert(b.end(), t, t + 4);
        }
        (void)base;
        break;
      }
      case mTiny: {
        const auto c = where % 4000;
        const std::string t = kind_type(static_cast<int>(static_cast<std::uint64_t>(sel) % box_kinds().size()), static_cast<std::uint64_t>(raw));
        for (std::uint64_t i = 0; i < c; ++i) {
          for (int k = 0; k < 3; ++k) b.push_back(0);
          b.push_back(8);
          b.insert(b.end(), t.begin(), t.end());
        }
        break;
      }
      case mLength: {
        // a descriptor or string length: continuation bits in a row
        if (!l || l->size <= 12) break;
        const auto at = l->offset + 8 + static_cast<std::uint64_t>(raw) % std::min<std::uint64_t>(l->size - 8, 48);
        const auto c = 1 + static_cast<std::uint64_t>(sel) % 12;
        for (std::uint64_t i = 0; i < c; ++i)
          if (at + i < b.size()) b[at + i] = static_cast<std::uint8_t>(i + 1 == c ? raw & 0x7f : 0x80 | (raw >> (i & 15)));
        break;
      }
    }
  }
  return b;
}

Outcome run_r02(const Scenario& sc) {
  Outcome out;
  const Subject u = subject(sc, true);
  const Bytes b = damage(sc, u, &out.st.faults_fired);
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  const auto n = b.size();
  s.alloc_cap = static_cast<std::int64_t>((8u << 20) + 2000ull * n);
  s.op_budget = 20000 + 2000ull * n;
  s.byte_budget = 64 * 8192 + 20000ull * n + 8192ull * 200 * (n / 8 + 1);
  s.add_faults(sc.faults);
  ReadRun r;
  read_stream(s, b, static_cast<std::uint64_t>(sc.get("frag")), sc.seed, -1, &r);
  out.st.merge(s.st);
  if (s.over_cap)
    throw Violation("memory", fmt_str("%llu byte(s) were asked for at once with %lld in use while reading %zu byte(s)", static_cast<unsigned long long>(s.over_cap_request), static_cast<long long>(s.peak_bytes), n));
  if (s.live_blocks != 0)
    throw Violation("leak", fmt_str("%lld block(s), %lld byte(s), are still allocated after the reader that ", static_cast<long long>(s.live_blocks), static_cast<long long>(s.live_bytes)) + (r.ok ? "accepted" : "refused") + " the file was destroyed");
  out.st.probes[r.ok ? "accepted" : "refused"]++;
  Hash h = s.trace;
  h.str(r.text);
  h.u64(r.ok);
  h.u64(s.ops);
  out.hash = h.h;
  Hash st;
  st.mem(b.data(), b.size());
  out.state = st.h;
  out.nontrivial = b != u.bytes;
  return out;
}

Scenario gen_r02(std::uint64_t seed, int, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "R02";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 0, 1, 7, 100});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  const int style = static_cast<int>(r.below(10));
  if (style < 4) {
    // one box of one kind, its fields attacked
    const auto k = r.range(1, kind_of("pasp"));
    if (r.chance(1, 3)) sc.steps.push_back({"box", {kind_of("moov"), 0, 0, 1, 0}});
    sc.steps.push_back({"box", {k, 1, r.chance(1, 8), static_cast<std::int64_t>(r.next() >> 24), r.pick<std::int64_t>({0, 1, 1, 2, 3})}});
    if (r.chance(1, 3)) sc.steps.push_back({"box", {0, 0, 0, static_cast<std::int64_t>(r.next() >> 24), 1}});
  } else if (style < 5) {
    sc.steps.push_back({"box", {kind_of("wave"), 0, 0, 0, 0}});
    sc.steps.push_back({"box", {kind_of(r.pick<const char*>({"mp4a", "mp4a", "enca", "Opus"})), 1, 0, static_cast<std::int64_t>(r.next() >> 24), 1}});
  } else {
    gen_subject(sc, r, static_cast<int>(1 + r.below(24)), 8);
  }
  const auto m = 1 + r.below(r.chance(1, 4) ? 10 : 3);
  for (std::uint64_t i = 0; i < m; ++i) {
    auto op = r.pick<std::int64_t>({mSize32, mSize32, mSize64, mType, mType, mField32, mField32, mField32, mField32, mField16, mField8, mField8, mFlip, mFlip, mTrunc, mCopy, mErase, mAppend, mLength, mLength});
    if (r.chance(1, 40)) op = r.pick<std::int64_t>({mNest, mNest, mTiny});
    sc.steps.push_back({"mut", {op, static_cast<std::int64_t>(r.next() >> 20), r.range(0, 5000), static_cast<std::int64_t>(r.next() >> 2)}});
  }
  return sc;
}

// ------------------------------------------------------------------------------------------------- R03
// mode 0: stream faults; 1: the file is cut; 2: the stream announces more than it delivers; 3: the command-line tool
struct ToolRun {
  int code = -1;
  bool threw = false;
  std::string text;
};

void run_tool(Session& s, const std::string& path, const std::vector<std::string>& extra, ToolRun* out) {
  auto old = spdlog::default_logger();
  const auto level = spdlog::get_level();
  {
    SessScope ss(&s);
    ConsoleCapture cap;
    std::vector<std::string> a{"mp4-tool"};
    for (auto& e : extra) a.push_back(e);
    a.push_back("dump");
    if (!path.empty()) {
      a.push_back("-f");
      a.push_back(path);
    }
    std::vector<char*> v;
    for (auto& x : a) v.push_back(x.data());
    v.push_back(nullptr);
    std::string err;
    LibScope l;
    try {
      out->code = mp4_tool_main(static_cast<int>(a.size()), v.data());
    } catch (const Violation&) {
      throw;
    } catch (...) {
      out->threw = true;   // std::terminate in a real process
    }
    HarnessScope hs;
    out->text = cap.text();
  }
  spdlog::set_default_logger(old);
  spdlog::drop("mp4-tool");
  spdlog::set_level(level);
}

}  // namespace

extern void cli_io_arm(const std::string& path, const std::vector<Step>& faults, Session* s);
extern void cli_io_disarm();

namespace {

Outcome run_r03(const Scenario& sc) {
  Outcome out;
  const Subject u = subject(sc, true);
  const int mode = static_cast<int>(sc.get("mode"));
  const auto frag = static_cast<std::uint64_t>(sc.get("frag"));
  Hash h;
  auto fresh = [&](Session& s) {
    s.name = "main";
    s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  };
  // what the intact file reports
  ReadRun intact;
  {
    Session s;
    fresh(s);
    read_stream(s, u.bytes, frag, sc.seed, -1, &intact);
    if (!intact.ok) throw Violation("refused", "an intact file was refused: " + intact.err);
    compare(u.lines, intact.text, "intact file: ", "report");
  }
  std::int64_t cut = -1, early = -1;
  std::vector<Step> dev;
  for (auto& f : sc.faults) {
    if (f.name == "cut") cut = std::min<std::int64_t>(f.arg(0), static_cast<std::int64_t>(u.bytes.size()));
    else if (f.name == "early") early = std::min<std::int64_t>(f.arg(0), static_cast<std::int64_t>(u.bytes.size()));
    else dev.push_back(f);
  }
  bool fired = false;
  // what a file cut there must give: the boxes before it, or nothing but an error
  std::vector<Line> part;
  bool boundary = false;
  if (cut >= 0) {
    for (auto t : u.tops) boundary = boundary || t == static_cast<std::uint64_t>(cut);
    for (auto& l : u.lines)
      if (l.offset < static_cast<std::uint64_t>(cut)) part.push_back(l);
    if (u.open_end && u.tops.size() >= 2 && static_cast<std::uint64_t>(cut) >= u.tops[u.tops.size() - 2] + 8) cut = -1;   // a box that runs to the end has no other end
  }
  Bytes bytes = u.bytes;
  if (cut >= 0) bytes.resize(static_cast<std::size_t>(cut));
  if (mode != 3) {
    Session s;
    fresh(s);
    s.op_budget = 2'000'000;
    s.add_faults(dev);
    ReadRun r, more;
    // a fault that passes: once the caller has cleared the stream, the next reader finds the file intact
    bool passes = mode == 0 && !dev.empty();
    for (auto& f : dev) passes = passes && !f.arg(3);
    read_stream(s, bytes, frag, sc.seed, early, &r, 0, passes ? &more : nullptr);
    if (passes && s.fired) {
      if (more.ok && more.text != intact.text) throw Violation("silent", "after a failed attempt the next reader over the cleared stream reported something else than the intact file holds");
      if (more.ok) out.st.probes["read-again-after-a-failure"]++;
    }
    out.st.merge(s.st);
    h.u64(s.trace.h);
    h.str(r.text);
    h.u64(r.ok);
    fired = s.fired > 0 || cut >= 0;
    if (cut >= 0) {
      out.st.faults_fired["file/cut"]++;
      if (r.ok && !boundary) throw Violation("truncation", fmt_str("a file of %zu byte(s) cut to %lld, inside a box, was read with success", u.bytes.size(), static_cast<long long>(cut)));
      if (!r.ok && boundary && !s.fired) throw Violation("refused", fmt_str("a file cut to %lld byte(s), between two boxes, was refused: ", static_cast<long long>(cut)) + r.err);
      if (r.ok) {
        compare(part, r.text, "file cut between two boxes: ", "truncation");
        out.st.probes["cut-between-boxes"]++;
      } else {
        out.st.probes["cut-inside-a-box-refused"]++;
      }
    } else if (r.ok) {
      if (r.text != intact.text) throw Violation("silent", std::string("reading over a failing stream succeeded with another report") + (early >= 0 ? fmt_str(" (the stream ended after %lld of %zu byte(s))", static_cast<long long>(early), u.bytes.size()) : std::string()));
      if (s.fired) out.st.probes["survived-with-the-intact-report"]++;
    } else {
      if (!s.fired) throw Violation("refused", "without a fault, the file was refused: " + r.err);
      out.st.probes["fault-reported"]++;
    }
  } else {
    Session s;
    fresh(s);
    s.op_budget = 2'000'000;
    TempFile f(bytes);
    std::string path = f.path;
    const auto special = sc.get("special");
    if (special == 1) path = f.path + ".absent";
    if (special == 2) path = scratch_dir();
    if (special == 3) path.clear();
    if (special) dev.clear();
    ToolRun t;
    std::vector<std::string> extra;
    switch (sc.get("level")) {
      case 1: extra = {"-l", "error"}; break;
      case 2: extra = {"--log-level", "off"}; break;
      default: break;
    }
    cli_io_arm(special ? std::string() : path, dev, &s);
    try {
      run_tool(s, path, extra, &t);
    } catch (...) {
      cli_io_disarm();
      throw;
    }
    cli_io_disarm();
    out.st.merge(s.st);
    const bool success = !t.threw && t.code == 0;
    h.u64(success);
    h.str(t.text);
    fired = s.fired > 0 || cut >= 0 || special;
    out.st.probes["tool-runs"]++;
    out.st.probes[success ? "tool-success" : "tool-failure"]++;
    if (special) {
      if (success) throw Violation("exit-status", special == 1 ? "the tool succeeded on a file that does not exist" : special == 2 ? "the tool succeeded on a directory" : "the tool succeeded without a file");
    } else if (cut >= 0 && !boundary) {
      if (success) throw Violation("exit-status", fmt_str("the tool succeeded on a file of %zu byte(s) cut to %lld, inside a box", u.bytes.size(), static_cast<long long>(cut)));
    } else if (success) {
      if (cut >= 0) compare(part, t.text, "the tool, on a file cut between two boxes: ", "truncation");
      else if (t.text != intact.text) throw Violation("exit-status", "the tool succeeded with another report than the intact file's");
    } else if (!s.fired) {
      throw Violation("exit-status", "the tool failed on a readable file");
    }
  }
  out.hash = h.h;
  out.state = shape_of(u, sc);
  out.nontrivial = fired;
  return out;
}

Scenario gen_r03(std::uint64_t seed, int, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "R03";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 1, 3, 7, 16, 100, 1000});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  sc.p["mode"] = r.pick<std::int64_t>({0, 0, 0, 1, 1, 2, 3, 3});
  sc.p["level"] = r.range(0, 3);
  if (sc.p["mode"] == 3 && r.chance(1, 20)) sc.p["special"] = r.range(1, 3);
  gen_subject(sc, r, static_cast<int>(1 + r.below(14)), 8);
  return sc;
}

void plan_r03(Scenario& sc, Rng& r) {
  const Subject u = subject(sc, true);
  const int mode = static_cast<int>(sc.get("mode"));
  const auto n = static_cast<std::int64_t>(u.bytes.size());
  // cuts near a boundary of some box are the interesting ones
  auto place = [&]() -> std::int64_t {
    if (r.chance(1, 4) && u.tops.size() > 1) return static_cast<std::int64_t>(u.tops[r.below(u.tops.size())]);
    if (r.chance(1, 2) && !u.lines.empty()) {
      const auto& l = u.lines[r.below(u.lines.size())];
      const auto e = static_cast<std::int64_t>(r.chance(1, 2) ? l.offset : l.offset + l.size);
      return std::clamp<std::int64_t>(e + r.range(-9, 17), 0, n);
    }
    return r.range(0, n);
  };
  if (mode == 1) sc.faults.push_back({"cut", {place()}});
  if (mode == 2) sc.faults.push_back({"early", {std::min(place(), n ? n - 1 : 0)}});
  if (mode == 0) {
    Session s;
    ReadRun x;
    read_stream(s, u.bytes, static_cast<std::uint64_t>(sc.get("frag")), sc.seed, -1, &x);
    for (std::uint64_t k = 0, m = 1 + r.below(2); k < m; ++k) {
      const char* site = r.pick<const char*>({"in.read", "in.read", "in.seek", "in.tell"});
      if (const auto c = s.count_of(site))
        sc.faults.push_back({site, {static_cast<std::int64_t>(r.below(c)), r.pick<std::int64_t>({kFail, kFail, kThrow, kShort}), 0, r.chance(1, 3) ? 1 : 0}});
    }
  }
  if (mode == 3 && !sc.get("special")) {
    if (r.chance(1, 3)) {
      sc.faults.push_back({"cut", {place()}});
    } else if (r.chance(3, 4)) {
      Session s;
      s.name = "rehearsal";
      TempFile f(u.bytes);
      ToolRun t;
      cli_io_arm(f.path, {}, &s);
      try {
        run_tool(s, f.path, {}, &t);
      } catch (...) {
      }
      cli_io_disarm();
      for (std::uint64_t k = 0, m = 1 + r.below(2); k < m; ++k) {
        const char* site = r.pick<const char*>({"cli.read", "cli.read", "cli.read", "cli.seek"});
        if (const auto c = s.count_of(site))
          sc.faults.push_back({site, {static_cast<std::int64_t>(r.below(c)), r.pick<std::int64_t>({kFail, kFail, kThrow, kShort, kPartial, kCorrupt}), 0, r.chance(1, 3) ? 1 : 0}});
      }
    }
  }
}

struct Reg {
  Reg() {
    auto& E = engines();
    const std::vector<const char*> real{"SimpleReader", "read_box_header, BoxMap, BoxInfo", "decoders and text forms of every registered box", "bitio::Reader", "libstdc++ istream"};
    const std::vector<const char*> stub{"input stream (in-memory streambuf with fragmentation and faults)", "console (captured)", "allocator (accounting, fill pattern)", "independent box generator and lister"};
    E.push_back({"R01", gen_r01, nullptr, run_r01, 36000, 1500000,
                 "one run = one seeded well-formed box tree, or one file of the writers, read over an unfragmented stream, a stream delivering random fragments and now and then a file on disk; distinct by box types, sizes, nesting and fragment size",
                 real, stub, {"boxes", "fragmented-deliveries", "stream-used-before", "stream-read-again", "files-on-disk", "files-of-the-writers", "nesting-of-12-and-more", "last-box-to-the-end-of-the-file", "64-bit-box-size"},
                 {"the stream can be positioned", "nesting of at most 41 levels"}});
    E.push_back({"R04", gen_r04, nullptr, run_r04, 40000, 1500000,
                 "one run = one seeded well-formed box tree with random field values, or one file of the writers, delivered in seeded fragments or from disk, every line of the report compared with an independent decoding of the stored bytes; distinct by shape and reported values",
                 real, {"input stream (in-memory streambuf with fragmentation)", "console (captured)", "allocator (accounting, fill pattern)", "independent decoder and formatter of every registered box"},
                 {"boxes", "fields", "files-of-the-writers", "fragmented-deliveries", "other-time-zone-or-locale"},
                 {"the stream can be positioned", "the names of the fields and their notation are those of the released tool"}});
    E.push_back({"R02", gen_r02, nullptr, run_r02, 36000, 4000000,
                 "one run = one seeded file damaged by one to ten stored-byte faults (sizes, counts, lengths, types, bits, cuts, splices, hostile nesting) and read with budgets on stream operations, bytes, heap and CPU; distinct by the damaged bytes",
                 real, stub, {"accepted", "refused"},
                 {"heap budget 8 MiB + 2000 bytes per input byte, operation budget 20000 + 2000 per input byte", "stack of 8 MiB"}, 16, 20});
    E.push_back({"R03", gen_r03, plan_r03, run_r03, 36000, 1500000,
                 "one run = one seeded well-formed file read while the stream fails, throws, runs short or ends early at a rehearsed operation, or after the file was cut, by the reader or by the command-line tool over a real file whose reads fail; distinct by file shape and fault placement",
                 {"SimpleReader", "mp4-tool's main()", "read_box_header, BoxMap, BoxInfo, decoders", "libstdc++ istream and filebuf"}, stub,
                 {"fault-reported", "read-again-after-a-failure", "survived-with-the-intact-report", "cut-between-boxes", "cut-inside-a-box-refused", "tool-success", "tool-failure"},
                 {"an exception leaving main() ends the process with a failure", "an interrupted system call is retried by the C++ library or reported"}});
  }
} reg;

}  // namespace

}  // namespace sim
