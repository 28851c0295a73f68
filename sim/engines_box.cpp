// Engines of the storage-level properties: B01 (box payloads), B02 (bit-level values).
#include <algorithm>
#include <memory>
#include <sstream>

#include "boxes.hpp"
#include "device.hpp"

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box/sample_entry.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"

namespace sim {

namespace {

namespace mp4 = shiguredo::mp4;

mp4::BoxType lib_type(const std::string& t) {
  mp4::BoxType b;
  b.setData(static_cast<std::uint8_t>(t[0]), static_cast<std::uint8_t>(t[1]), static_cast<std::uint8_t>(t[2]), static_cast<std::uint8_t>(t[3]));
  return b;
}

std::string hex(const Bytes& b, std::size_t at, std::size_t n = 8) {
  std::string s;
  for (std::size_t i = at; i < b.size() && i < at + n; ++i) s += fmt_str("%02x", b[i]);
  return s;
}

std::string diff_text(const Bytes& want, const Bytes& got) {
  std::size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  return fmt_str("%zu byte(s) against %zu, first difference at %zu: ", got.size(), want.size(), i) + hex(got, i) + " instead of " + hex(want, i);
}

std::string name_of(const Node& n) {
  return type_text(n.type) + (n.under_wave ? " (inside wave)" : "") + fmt_str(" payload of %zu byte(s)", n.data.size());
}

struct Map {
  mp4::BoxMap m;
  Map() { mp4::register_box_map(&m); }
};
// one registry per process, built outside any session
Map& registry() {
  static Map* m = [] {
    HarnessScope h;
    SessScope s(nullptr);
    return new Map();
  }();
  return *m;
}

std::unique_ptr<mp4::Box> make_box(const Node& n) {
  std::unique_ptr<mp4::Box> b(registry().m.getBoxInstance(lib_type(n.type)));
  if (n.under_wave)
    if (auto* a = dynamic_cast<mp4::box::AudioSampleEntry*>(b.get())) a->setUnderWave(true);
  return b;
}

struct WriteResult {
  bool ok = false, flushed = false;
  std::uint64_t bits = 0;
  std::string err;
  Bytes bytes;
};
WriteResult encode(Session& s, const mp4::Box& b, std::size_t bufsize) {
  WriteResult r;
  Blob dev;
  {
    SimOut so(s, dev, bufsize);
    std::ostream os(&so);
    r.ok = lib_call([&] { r.bits = b.writeData(os); }, &r.err);
    if (r.ok) {
      os.flush();
      r.flushed = os.good();
    } else {
      s.paused = true;
    }
  }
  s.paused = false;
  r.bytes = dev.dense;
  return r;
}

// high-profile records may end in one to three bytes that the decoder of a record without the extension ignores
bool high_profile(const Node& n) {
  if (n.type != "avcC" || n.data.size() < 2) return false;
  static const std::set<int> hp{44, 83, 86, 88, 100, 110, 118, 122, 128, 138, 144, 244};
  return hp.count(n.data[1]) > 0;
}

void b01_prefix(Session& s, const Node& n, std::size_t keep, std::uint64_t frag, std::uint64_t fs, Outcome& out) {
  if (keep >= n.data.size()) return;
  const Bytes pre(n.data.begin(), n.data.begin() + static_cast<std::ptrdiff_t>(keep));
  SimIn si(s, pre, frag, fs);
  std::istream is(&si);
  std::unique_ptr<mp4::Box> b;
  std::string err;
  std::uint64_t bits = 0;
  if (!lib_call([&] { b = make_box(n); bits = b->readData(is); }, &err)) {
    out.st.probes["cut-payload-refused"]++;
    return;
  }
  out.st.probes["cut-payload-is-a-valid-payload"]++;
  Session q;
  const auto w = encode(q, *b, 0);
  if (!w.ok) throw Violation("invented", "[" + name_of(n) + fmt_str("] cut to %zu byte(s) was accepted and cannot be encoded again: ", keep) + w.err);
  // what was accepted must be what was there; an unterminated string may come back terminated
  Bytes t = pre;
  for (int k = 0; k < 3; ++k) {
    if (w.bytes == t) return;
    t.push_back(0);
  }
  // these kinds hold several strings, read up to the end if the terminator is missing: the fields may shift, but nothing
  // but terminators may be added
  static const std::set<std::string> texts{"url ", "urn ", "emsg", "hdlr"};
  if (texts.count(n.type)) {
    Bytes x, y;
    for (auto c : w.bytes) if (c) x.push_back(c);
    for (auto c : pre) if (c) y.push_back(c);
    if (x == y) return;
  }
  if (high_profile(n) && w.bytes.size() < pre.size() && pre.size() - w.bytes.size() < 4 && std::equal(w.bytes.begin(), w.bytes.end(), pre.begin())) return;
  throw Violation("invented", "[" + name_of(n) + fmt_str("] cut to %zu byte(s) was decoded with success, but stands for ", keep) + diff_text(pre, w.bytes));
}

Outcome run_b01(const Scenario& sc) {
  Outcome out;
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  s.op_budget = 20'000'000;
  registry();
  SessScope ss(&s);
  const auto frag = static_cast<std::uint64_t>(sc.get("frag"));
  const auto obuf = static_cast<std::size_t>(sc.get("obuf"));
  auto roots = build_tree(sc.steps, false);
  std::vector<Node> flat;
  walk(roots, [&](const Node& n) { flat.push_back(n); });
  std::uint64_t fs = sc.seed;
  Hash h;
  Hash st;
  const int mode = static_cast<int>(sc.get("mode"));
  st.u64(static_cast<std::uint64_t>(mode));
  std::uint64_t done = 0;
  std::map<std::string, bool> dummy;
  bool hit = mode == 0 || mode == 5;
  std::vector<std::unique_ptr<mp4::Box>> keep_boxes;

  for (std::size_t i = 0; i < flat.size(); ++i) {
    const Node& n = flat[i];
    st.u64(static_cast<std::uint64_t>(n.kind));
    st.u64(n.data.size());
    // a faulted device needs its own operation counts
    Session one;
    one.name = "main";
    one.fill = s.fill;
    one.op_budget = s.op_budget;
    SessScope os1(&one);
    auto cut = [&](const char* name) -> std::int64_t {
      for (auto& f : sc.faults)
        if (f.name == name && f.arg(0) == static_cast<std::int64_t>(i)) return f.arg(1);
      return -1;
    };
    std::vector<Step> dev_faults;
    for (auto& f : sc.faults)
      if ((f.name == "in.read" || f.name == "in.seek" || f.name == "in.tell") && f.arg(4) == static_cast<std::int64_t>(i)) dev_faults.push_back(f);
    if (!dev_faults.empty()) one.add_faults(dev_faults);
    const std::int64_t early = cut("early");
    std::unique_ptr<mp4::Box> b;
    std::uint64_t bits = 0;
    std::string err;
    bool ok;
    {
      SimIn si(one, n.data, frag, ++fs, early < 0 || early >= static_cast<std::int64_t>(n.data.size()) ? -1 : early);
      std::istream is(&si);
      ok = lib_call([&] { b = make_box(n); bits = b->readData(is); }, &err);
    }
    h.u64(ok);
    h.u64(bits);
    const bool disturbed = one.fired > 0;
    hit = hit || disturbed;
    out.st.merge(one.st);
    one.st = {};
    one.plan.clear();
    one.sticky.clear();
    for (auto& x : one.sites) x.planned = false;
    if (!ok) {
      if (!disturbed) throw Violation("refused", "decoding [" + name_of(n) + "] failed: " + err);
      out.st.probes["read-failure-reported"]++;
      continue;
    }
    // decoding reported success: everything below must hold, disturbed or not
    if (bits != 8 * n.data.size())
      throw Violation(disturbed ? "silent" : "bit-count", "decoding [" + name_of(n) + fmt_str("]%s reported %llu bit(s)", disturbed ? " over a failing stream succeeded and" : "", static_cast<unsigned long long>(bits)));
    std::uint64_t announced = 0;
    if (!lib_call([&] { announced = b->getDataSize(); }, &err)) throw Violation("refused", "getDataSize() of [" + name_of(n) + "] failed: " + err);
    if (announced != n.data.size())
      throw Violation("announced-size", "[" + name_of(n) + fmt_str("] announces %llu byte(s)", static_cast<unsigned long long>(announced)));
    Session q;
    q.name = "main";
    q.fill = s.fill;
    SessScope qs(&q);
    auto w = encode(q, *b, obuf);
    h.mem(w.bytes.data(), w.bytes.size());
    if (!w.ok || !w.flushed) throw Violation("refused", "encoding [" + name_of(n) + "] failed: " + w.err);
    if (w.bytes != n.data) throw Violation(disturbed ? "silent" : "bytes", "[" + name_of(n) + "] came back as " + diff_text(n.data, w.bytes));
    if (w.bits != 8 * n.data.size()) throw Violation("bit-count", "encoding [" + name_of(n) + fmt_str("] reported %llu bit(s)", static_cast<unsigned long long>(w.bits)));
    ++done;
    out.st.probes["round-trips"]++;
    // the same box over a medium that refuses at a byte
    const std::int64_t wr = cut("refuse");
    if (wr >= 0 && wr < static_cast<std::int64_t>(n.data.size())) {
      Session f;
      f.name = "main";
      f.fill = s.fill;
      SessScope fss(&f);
      Blob dev;
      SimOut so(f, dev, 0, wr);
      std::ostream os(&so);
      std::uint64_t wb = 0;
      if (lib_call([&] { wb = b->writeData(os); }, &err))
        throw Violation("silent", "encoding [" + name_of(n) + fmt_str("] to a medium that refused from byte %lld on reported %llu bit(s) and no error", static_cast<long long>(wr), static_cast<unsigned long long>(wb)));
      out.st.merge(f.st);
      out.st.probes["write-failure-reported"]++;
      hit = true;
    }
    const std::int64_t cp = cut("cut");
    if (cp >= 0) {
      b01_prefix(one, n, static_cast<std::size_t>(cp), frag, ++fs, out);
      hit = true;
    }
    if (mode == 5) keep_boxes.push_back(std::move(b));
  }
  if (mode == 5 && keep_boxes.size() == flat.size()) {
    // a tree of decoded boxes, laid out and written
    std::function<void(Node&)> small = [&](Node& n) {
      n.hdr = 0;
      for (auto& k : n.kids) small(k);
    };
    for (auto& n : roots) small(n);
    const Bytes want = encode_tree(roots);
    std::vector<std::unique_ptr<mp4::BoxInfo>> infos;
    std::size_t at = 0;
    std::string err;
    Blob dev;
    std::vector<std::uint64_t> sizes;
    bool ok = true;
    {
      SimOut so(s, dev, obuf);
      std::ostream os(&so);
      ok = lib_call([&] {
        std::function<void(const Node&, mp4::BoxInfo*)> up = [&](const Node& n, mp4::BoxInfo* parent) {
          auto* raw = keep_boxes[at++].release();
          raw->setHeader(new mp4::BoxHeader({.type = lib_type(n.type)}));
          auto* info = new mp4::BoxInfo({.parent = parent, .box = raw});
          if (!parent) infos.emplace_back(info);
          for (auto& k : n.kids) up(k, info);
        };
        for (auto& n : roots) up(n, nullptr);
        std::uint64_t off = 0;
        for (auto& i : infos) {
          const auto z = i->adjustOffsetAndSize(off);
          sizes.push_back(z);
          off += z;
        }
        for (auto& i : infos) i->write(os);
        os.flush();
        if (!os.good()) throw std::runtime_error("flush failed");
      }, &err);
    }
    if (!ok) throw Violation("refused", "writing a tree of decoded boxes failed: " + err);
    if (dev.dense != want) throw Violation("tree-bytes", "a tree of decoded boxes came back as " + diff_text(want, dev.dense));
    for (std::size_t i = 0; i < roots.size(); ++i)
      if (sizes[i] != roots[i].size) throw Violation("tree-size", "[" + type_text(roots[i].type) + fmt_str("] announces %llu byte(s) with its children instead of %llu", static_cast<unsigned long long>(sizes[i]), static_cast<unsigned long long>(roots[i].size)));
    h.mem(dev.dense.data(), dev.dense.size());
    lib_call([&] { infos.clear(); });
    out.st.probes["trees"]++;
  }
  {
    LibScope l;
    keep_boxes.clear();
  }
  out.st.merge(s.st);
  h.u64(s.trace.h);
  out.hash = h.h;
  for (auto& f : sc.faults) { st.str(f.name); st.u64(static_cast<std::uint64_t>(f.arg(1))); }
  out.state = st.h;
  out.nontrivial = hit && (done || mode != 0);
  return out;
}

Scenario gen_b01(std::uint64_t seed, int, std::uint64_t index) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "B01";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 1, 2, 3, 7, 16});
  sc.p["obuf"] = r.pick<std::int64_t>({0, 1, 3, 16, 64, 4096});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  const int mode = static_cast<int>(r.pick<std::int64_t>({0, 0, 0, 1, 2, 3, 4, 5}));
  if (index % 1600 == 125 || index % 6400 == 925) {  // every kind that lists things in turn, at its largest
    sc.p["mode"] = index % 1600 == 125 ? 0 : mode == 5 ? 0 : mode;
    sc.steps.push_back(large_box(index / 1600, r));
    return sc;
  }
  sc.p["mode"] = mode;
  if (mode == 5) {
    gen_tree(r, &sc.steps, static_cast<int>(4 + r.below(30)), 12);
    return sc;
  }
  const auto n = mode == 0 ? 1 + r.below(4) : 1;
  for (std::uint64_t i = 0; i < n; ++i) {
    const bool wave = r.chance(1, 60);
    std::int64_t k = r.chance(1, 14) ? 0 : r.range(1, kind_of("pasp"));
    if (r.chance(1, 30)) k = r.range(kind_of("pasp"), static_cast<std::int64_t>(box_kinds().size()) - 1);
    const std::int64_t cls = pick_class(r);
    if (wave) {
      sc.steps.push_back({"box", {kind_of("wave"), 0, 0, 0, 0}});
      sc.steps.push_back({"box", {kind_of(r.pick<const char*>({"mp4a", "mp4a", "enca", "Opus"})), 1, 0, static_cast<std::int64_t>(r.next() >> 24), cls}});
    } else {
      sc.steps.push_back({"box", {k, 0, 0, static_cast<std::int64_t>(r.next() >> 24), cls}});
    }
  }
  return sc;
}

void plan_b01(Scenario& sc, Rng& r) {
  const int mode = static_cast<int>(sc.get("mode"));
  if (mode == 0 || mode == 5) return;
  auto roots = build_tree(sc.steps, false);
  std::vector<Node> flat;
  walk(roots, [&](const Node& n) { flat.push_back(n); });
  if (flat.empty()) return;
  const auto i = flat.size() - 1;
  const auto n = static_cast<std::int64_t>(flat[i].data.size());
  auto at = [&]() -> std::int64_t {
    if (n == 0) return 0;
    return r.chance(1, 4) ? n - 1 - r.range(0, std::min<std::int64_t>(n - 1, 4)) : r.chance(1, 3) ? std::min<std::int64_t>(n - 1, r.range(0, 16)) : r.range(0, n - 1);
  };
  if (mode == 2) sc.faults.push_back({"early", {static_cast<std::int64_t>(i), at()}});
  if (mode == 3) sc.faults.push_back({"refuse", {static_cast<std::int64_t>(i), at()}});
  if (mode == 4) sc.faults.push_back({"cut", {static_cast<std::int64_t>(i), at()}});
  if (mode == 1) {
    // count the stream operations of an undisturbed decoding
    Session q;
    SessScope ss(&q);
    {
      std::unique_ptr<mp4::Box> b;
      SimIn si(q, flat[i].data, static_cast<std::uint64_t>(sc.get("frag")), sc.seed + i + 1);
      std::istream is(&si);
      lib_call([&] { b = make_box(flat[i]); b->readData(is); });
      LibScope l;
      b.reset();
    }
    for (const char* site : {"in.read", "in.seek", "in.tell"}) {
      const auto c = q.count_of(site);
      if (!c || r.chance(1, 3)) continue;
      sc.faults.push_back({site, {static_cast<std::int64_t>(r.below(c)), r.pick<std::int64_t>({kFail, kThrow, kShort}), 0, r.chance(1, 3) ? 1 : 0, static_cast<std::int64_t>(i)}});
    }
  }
}

// ------------------------------------------------------------------------------------------------- B02
// {"op", {kind, width, value, extra}}
enum OpKind { oBool, oUint8, oUint16, oUint32, oUint64, oInt8, oInt16, oInt32, oInt64, oStr, oStrMax, oPascal, oPascalC, oUvar8, oUvar16, oUvar32, oUvar64, oUvarShort, oArr4, oVec8, oVec16, oVec32, oVec64, oBulk, oSkip, oRaw, kOps };
const char* const kOpName[] = {"bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "string", "string-of-known-length", "pascal-string", "string-in-a-pascal-field", "uvarint8", "uvarint16", "uvarint32", "uvarint64", "short-uvarint", "array4", "vector8", "vector16", "vector32", "vector64", "bulk", "seek", "bits"};

struct Packer {
  Bytes b;
  std::uint64_t n = 0;  // bits
  void bit(bool v) {
    if (n % 8 == 0) b.push_back(0);
    if (v) b.back() = static_cast<std::uint8_t>(b.back() | (0x80u >> (n % 8)));
    ++n;
  }
  void put(std::uint64_t v, int w) {
    for (int i = w - 1; i >= 0; --i) bit((v >> i) & 1);
  }
  void bytes(const Bytes& x) {
    for (auto c : x) put(c, 8);
  }
};

struct Op {
  int k = 0, w = 0;
  std::uint64_t v = 0;
  std::int64_t sv = 0;
  Bytes d;
  std::uint64_t too_wide = 0;   // a number its variable-length form cannot hold, offered first
  bool misaligned = false;
  Bytes too_long;   // a string its field cannot hold, offered first
  std::vector<std::uint64_t> vec;
  std::uint64_t b0 = 0, b1 = 0;
  int jump_way = 0;
  int jump = -1;             // after this operation the reader moves back to the start of that one (and again, once)
  std::uint64_t inject = 0;  // octet and width handed to the reader before this one: 0x100 * width + octet
};

template <class T> std::uint64_t wvec(mp4::bitio::Writer* w, const Op& o) {
  std::vector<T> v;
  for (auto x : o.vec) v.push_back(static_cast<T>(x));
  return mp4::bitio::write_vector_uint<T>(w, v);
}
template <class T> std::uint64_t rvec(mp4::bitio::Reader* r, const Op& o, bool* same) {
  std::vector<T> v;
  const auto n = mp4::bitio::read_vector_uint<T>(r, o.vec.size(), &v);
  *same = v.size() == o.vec.size();
  for (std::size_t i = 0; *same && i < v.size(); ++i) *same = v[i] == static_cast<T>(o.vec[i]);
  return n;
}
template <class T> std::uint64_t ru(mp4::bitio::Reader* r, const Op& o, bool* same) {
  T x = static_cast<T>(0x5a);
  const auto n = o.w == static_cast<int>(sizeof(T) * 8) ? mp4::bitio::read_uint<T>(r, &x) : mp4::bitio::read_uint<T>(r, &x, static_cast<std::uint64_t>(o.w));
  *same = x == static_cast<T>(o.v);
  return n;
}
template <class T> std::uint64_t ri(mp4::bitio::Reader* r, const Op& o, bool* same) {
  T x = static_cast<T>(0x5a);
  const auto n = o.w == static_cast<int>(sizeof(T) * 8) ? mp4::bitio::read_int<T>(r, &x) : mp4::bitio::read_int<T>(r, &x, static_cast<std::uint64_t>(o.w));
  *same = static_cast<std::int64_t>(x) == o.sv;
  return n;
}
template <class T> std::uint64_t rv(mp4::bitio::Reader* r, const Op& o, bool* same) {
  T x = static_cast<T>(0x5a);
  const auto n = mp4::bitio::read_uvarint<T>(r, &x);
  *same = x == static_cast<T>(o.v);
  return n;
}
template <class T> std::uint64_t wu(mp4::bitio::Writer* w, const Op& o) {
  return o.w == static_cast<int>(sizeof(T) * 8) ? mp4::bitio::write_uint<T>(w, static_cast<T>(o.v)) : mp4::bitio::write_uint<T>(w, static_cast<T>(o.v), static_cast<std::uint64_t>(o.w));
}
template <class T> std::uint64_t wi(mp4::bitio::Writer* w, const Op& o) {
  return o.w == static_cast<int>(sizeof(T) * 8) ? mp4::bitio::write_int<T>(w, static_cast<T>(o.sv)) : mp4::bitio::write_int<T>(w, static_cast<T>(o.sv), static_cast<std::uint64_t>(o.w));
}

std::string S(const Bytes& d) { return std::string(d.begin(), d.end()); }

std::uint64_t lib_write(mp4::bitio::Writer* w, const Op& o) {
  using namespace mp4::bitio;
  switch (o.k) {
    case oBool: return write_bool(w, o.v != 0);
    case oUint8: return wu<std::uint8_t>(w, o);
    case oUint16: return wu<std::uint16_t>(w, o);
    case oUint32: return wu<std::uint32_t>(w, o);
    case oUint64: return wu<std::uint64_t>(w, o);
    case oInt8: return wi<std::int8_t>(w, o);
    case oInt16: return wi<std::int16_t>(w, o);
    case oInt32: return wi<std::int32_t>(w, o);
    case oInt64: return wi<std::int64_t>(w, o);
    case oStr: case oPascalC: return write_string(w, S(o.d));
    case oStrMax: {
      std::uint64_t n = 0;
      for (auto c : o.d) n += write_uint<std::uint8_t>(w, c);
      return n;
    }
    case oPascal: return write_pascal_string(w, S(o.d));
    case oUvar8: return write_uvarint<std::uint8_t>(w, static_cast<std::uint8_t>(o.v));
    case oUvar16: return write_uvarint<std::uint16_t>(w, static_cast<std::uint16_t>(o.v));
    case oUvar32: return write_uvarint<std::uint32_t>(w, static_cast<std::uint32_t>(o.v));
    case oUvar64: return write_uvarint<std::uint64_t>(w, o.v);
    case oUvarShort: {
      std::uint64_t n = 0;
      for (auto c : o.d) n += write_uint<std::uint8_t>(w, c);
      return n;
    }
    case oArr4: return write_array_uint8_4(w, {o.d[0], o.d[1], o.d[2], o.d[3]});
    case oVec8: return wvec<std::uint8_t>(w, o);
    case oVec16: return wvec<std::uint16_t>(w, o);
    case oVec32: return wvec<std::uint32_t>(w, o);
    case oVec64: return wvec<std::uint64_t>(w, o);
    case oBulk: case oSkip: {
      HarnessScope hs;
      const Bytes d = o.d;
      LibScope l;
      return static_cast<std::uint64_t>(w->write(d)) * 8;
    }
    case oRaw: w->writeBits(o.d, static_cast<std::uint64_t>(o.w)); return static_cast<std::uint64_t>(o.w);
    default: return 0;
  }
}

std::uint64_t lib_read(mp4::bitio::Reader* r, const Op& o, bool* same) {
  using namespace mp4::bitio;
  switch (o.k) {
    case oBool: {
      bool b = !o.v;
      const auto n = read_bool(r, &b);
      *same = b == (o.v != 0);
      return n;
    }
    case oUint8: return ru<std::uint8_t>(r, o, same);
    case oUint16: return ru<std::uint16_t>(r, o, same);
    case oUint32: return ru<std::uint32_t>(r, o, same);
    case oUint64: return ru<std::uint64_t>(r, o, same);
    case oInt8: return ri<std::int8_t>(r, o, same);
    case oInt16: return ri<std::int16_t>(r, o, same);
    case oInt32: return ri<std::int32_t>(r, o, same);
    case oInt64: return ri<std::int64_t>(r, o, same);
    case oStr: case oStrMax: {
      std::string x = "before";
      const auto n = read_string(r, &x, o.k == oStrMax ? o.d.size() * 8 : (o.d.size() + 1 + static_cast<std::uint64_t>(o.w)) * 8);
      *same = x == S(o.d);
      return n;
    }
    case oPascal: case oPascalC: {
      std::string x = "before";
      const auto n = read_pascal_string(r, &x, (o.d.size() + 1) * 8);
      *same = x == S(o.d);
      return n;
    }
    case oUvar8: return rv<std::uint8_t>(r, o, same);
    case oUvar16: return rv<std::uint16_t>(r, o, same);
    case oUvar32: case oUvarShort: return rv<std::uint32_t>(r, o, same);
    case oUvar64: return rv<std::uint64_t>(r, o, same);
    case oArr4: {
      std::array<std::uint8_t, 4> a{};
      const auto n = read_array_uint8_4(r, &a);
      *same = std::equal(a.begin(), a.end(), o.d.begin());
      return n;
    }
    case oVec8: return rvec<std::uint8_t>(r, o, same);
    case oVec16: return rvec<std::uint16_t>(r, o, same);
    case oVec32: return rvec<std::uint32_t>(r, o, same);
    case oVec64: return rvec<std::uint64_t>(r, o, same);
    case oBulk: {
      std::vector<std::uint8_t> v(o.d.size());
      const auto n = r->read(&v);
      *same = v == o.d;
      return static_cast<std::uint64_t>(n) * 8;
    }
    case oSkip: {
      const auto at = r->seek(o.d.size(), std::ios_base::cur);
      *same = at == o.b1 / 8;
      return o.d.size() * 8;
    }
    case oRaw: {
      std::vector<std::uint8_t> v;
      r->readBits(&v, static_cast<std::uint64_t>(o.w));
      *same = v == o.d;
      return static_cast<std::uint64_t>(o.w);
    }
    default: return 0;
  }
}

int native(int k) {
  switch (k) {
    case oUint8: case oInt8: return 8;
    case oUint16: case oInt16: return 16;
    case oUint32: case oInt32: return 32;
    default: return 64;
  }
}

std::vector<Op> build_ops(const Scenario& sc, Bytes* bytes) {
  std::vector<Op> v;
  Packer p;
  for (auto& s : sc.steps) {
    if (s.name != "op") continue;
    Op o;
    o.k = static_cast<int>(s.arg(0));
    if (o.k < 0 || o.k >= kOps) continue;
    const auto val = static_cast<std::uint64_t>(s.arg(2));
    const auto len = static_cast<std::size_t>(std::clamp<std::int64_t>(s.arg(3), 0, 400));
    o.b0 = p.n;
    const bool aligned = p.n % 8 == 0;
    switch (o.k) {
      case oBool: o.v = val & 1; p.bit(o.v); break;
      case oUint8: case oUint16: case oUint32: case oUint64:
        o.w = static_cast<int>(std::clamp<std::int64_t>(s.arg(1), 1, native(o.k)));
        o.v = o.w == 64 ? val : val & ((1ULL << o.w) - 1);
        p.put(o.v, o.w);
        break;
      case oInt8: case oInt16: case oInt32: case oInt64: {
        o.w = static_cast<int>(std::clamp<std::int64_t>(s.arg(1), 1, native(o.k)));
        const std::uint64_t u = o.w == 64 ? val : val & ((1ULL << o.w) - 1);
        o.sv = o.w < 64 && (u >> (o.w - 1)) ? static_cast<std::int64_t>(u | (~0ULL << o.w)) : static_cast<std::int64_t>(u);
        p.put(u, o.w);
        break;
      }
      case oStr:
        for (std::size_t i = 0; i < len; ++i) o.d.push_back(static_cast<std::uint8_t>(1 + payload_byte(val, i) % 255));
        o.w = static_cast<int>(std::clamp<std::int64_t>(s.arg(1), 0, 60));
        p.bytes(o.d);
        p.put(0, 8);
        break;
      case oStrMax:
        for (std::size_t i = 0; i < len; ++i) o.d.push_back(static_cast<std::uint8_t>(1 + payload_byte(val, i) % 255));
        p.bytes(o.d);
        break;
      case oPascal: {
        if (!aligned) continue;
        if (len > 255) o.too_long = payload(val, len);
        o.d = payload(val, std::min<std::size_t>(len, 255));
        p.put(o.d.size(), 8);
        p.bytes(o.d);
        break;
      }
      case oPascalC:
        if (!aligned) continue;
        for (std::size_t i = 0; i < len; ++i) o.d.push_back(static_cast<std::uint8_t>(1 + payload_byte(val, i) % 255));
        if (!o.d.empty() && o.d[0] == o.d.size()) o.d[0] = o.d[0] == 1 ? 2 : 1;
        p.bytes(o.d);
        p.put(0, 8);
        break;
      case oUvar8: o.v = val & 0x7f; p.put(o.v, 8); break;
      case oUvar16: case oUvar32: case oUvar64: {
        const int n = o.k == oUvar16 ? 2 : o.k == oUvar32 ? 4 : 8;
        o.v = val & ((1ULL << (7 * n)) - 1);
        if (len % 3 == 0) o.too_wide = val | 1;
        for (int i = n - 1; i >= 0; --i) p.put(((o.v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0), 8);
        break;
      }
      case oUvarShort: {
        o.v = val & ((1ULL << (7 * (1 + len % 4))) - 1);
        int n = 1;
        while (o.v >> (7 * n)) ++n;
        for (int i = n - 1; i >= 0; --i) o.d.push_back(static_cast<std::uint8_t>(((o.v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0)));
        p.bytes(o.d);
        break;
      }
      case oArr4: o.d = payload(val, 4); p.bytes(o.d); break;
      case oVec8: case oVec16: case oVec32: case oVec64: {
        const int n = o.k == oVec8 ? 8 : o.k == oVec16 ? 16 : o.k == oVec32 ? 32 : 64;
        for (std::size_t i = 0; i < len % 40; ++i) {
          std::uint64_t x = 0;
          for (int j = 0; j < n / 8; ++j) x = x << 8 | payload_byte(val, i * 8 + static_cast<std::size_t>(j));
          o.vec.push_back(x);
          p.put(x, n);
        }
        break;
      }
      case oBulk: case oSkip:
        if (!aligned) {
          o.misaligned = true;  // whole bytes in the middle of one: refused without trace
          o.d = payload(val, len);
          break;
        }
        o.d = payload(val, len);
        p.bytes(o.d);
        break;
      case oRaw: {
        o.w = static_cast<int>(std::clamp<std::int64_t>(s.arg(1), 1, 200));
        const auto n = static_cast<std::size_t>((o.w + 7) / 8);
        o.d = payload(val, n);
        const int pad = static_cast<int>(n) * 8 - o.w;
        o.d[0] = static_cast<std::uint8_t>(o.d[0] & (0xff >> pad));
        for (int i = pad; i < static_cast<int>(n) * 8; ++i) p.bit((o.d[static_cast<std::size_t>(i / 8)] >> (7 - i % 8)) & 1);
        break;
      }
    }
    o.b1 = p.n;
    v.push_back(std::move(o));
  }
  while (p.n % 8) p.bit(false);
  for (auto& s : sc.steps) {
    if (v.empty()) break;
    if (s.name == "jump") {
      const auto from = static_cast<std::size_t>(s.arg(0)) % v.size();
      auto to = static_cast<std::size_t>(s.arg(1)) % (from + 1);
      while (to && v[to].b0 % 8) --to;
      v[from].jump = static_cast<int>(to);
      v[from].jump_way = static_cast<int>(s.arg(2) & 1);
    } else if (s.name == "inject") {
      auto& o = v[static_cast<std::size_t>(s.arg(0)) % v.size()];
      if (o.b0 % 8 == 0) o.inject = (1 + static_cast<std::uint64_t>(s.arg(1)) % 8) << 8 | (static_cast<std::uint64_t>(s.arg(1)) >> 8 & 0xff);
    }
  }
  *bytes = p.b;
  return v;
}

std::string op_text(const std::vector<Op>& ops, std::size_t i) {
  return fmt_str("operation %zu (%s, bits %llu to %llu)", i, kOpName[ops[i].k], static_cast<unsigned long long>(ops[i].b0), static_cast<unsigned long long>(ops[i].b1));
}

Outcome run_b02(const Scenario& sc) {
  Outcome out;
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  SessScope ss(&s);
  Bytes want;
  const auto ops = build_ops(sc, &want);
  std::int64_t wcap = -1, early = -1;
  std::vector<Step> dev;
  for (auto& f : sc.faults) {
    if (f.name == "refuse") wcap = want.empty() ? -1 : f.arg(0) % static_cast<std::int64_t>(want.size());
    else if (f.name == "early") early = want.empty() ? -1 : f.arg(0) % static_cast<std::int64_t>(want.size());
    else dev.push_back(f);
  }
  Hash h;
  auto pad = [&](mp4::bitio::Writer* w) {
    const auto n = ops.empty() ? 0 : ops.back().b1;
    for (auto i = n; i % 8; ++i) w->writeBit(false);
  };
  // writing
  {
    Blob dv;
    SimOut so(s, dv, static_cast<std::size_t>(sc.get("obuf")));
    std::ostream os(&so);
    LibScope l;
    mp4::bitio::Writer w(os);
    for (std::size_t i = 0; i < ops.size(); ++i) {
      std::uint64_t n = 0;
      std::string err;
      if (!ops[i].too_long.empty()) {
        const std::string x = S(ops[i].too_long);
        if (lib_call([&] { write_pascal_string(&w, x); }, &err)) throw Violation("silent", fmt_str("a string of %zu byte(s) was accepted for a field of at most 255", x.size()));
        out.st.probes["too-long-strings-refused"]++;
      }
      if (ops[i].too_wide) {
        const auto x = ops[i].too_wide;
        bool took = false;
        switch (ops[i].k) {
          case oUvar8: took = lib_call([&] { mp4::bitio::write_uvarint<std::uint8_t>(&w, static_cast<std::uint8_t>(x | 0x80)); }, &err); break;
          case oUvar16: took = lib_call([&] { mp4::bitio::write_uvarint<std::uint16_t>(&w, static_cast<std::uint16_t>(x | 0x4000)); }, &err); break;
          case oUvar32: took = lib_call([&] { mp4::bitio::write_uvarint<std::uint32_t>(&w, static_cast<std::uint32_t>(x | 0x10000000)); }, &err); break;
          default: took = lib_call([&] { mp4::bitio::write_uvarint<std::uint64_t>(&w, x | std::uint64_t(1) << 56); }, &err); break;
        }
        if (took) throw Violation("silent", fmt_str("a number too large for the variable-length form of its type was accepted (before operation %zu)", i));
        out.st.probes["too-large-numbers-refused"]++;
      }
      if (ops[i].misaligned) {
        const Bytes d = ops[i].d;
        if (lib_call([&] { w.write(d); }, &err)) throw Violation("silent", "whole bytes were accepted in the middle of a byte, at " + op_text(ops, i));
        out.st.probes["misaligned-refused"]++;
        continue;
      }
      if (!lib_call([&] { n = lib_write(&w, ops[i]); }, &err)) throw Violation("refused", "writing " + op_text(ops, i) + " failed: " + err);
      if (n != ops[i].b1 - ops[i].b0) throw Violation("bit-count", "writing " + op_text(ops, i) + fmt_str(" reported %llu bit(s)", static_cast<unsigned long long>(n)));
    }
    std::string err;
    if (!lib_call([&] { pad(&w); os.flush(); }, &err)) throw Violation("refused", "padding failed: " + err);
    HarnessScope hs;
    if (dv.dense != want) throw Violation("bytes", "the operations were stored as " + diff_text(want, dv.dense));
    h.mem(dv.dense.data(), dv.dense.size());
  }
  // writing to a medium that refuses from a byte on
  if (wcap >= 0) {
    Session f;
    f.name = "main";
    SessScope fs(&f);
    Blob dv;
    SimOut so(f, dv, 0, wcap);
    std::ostream os(&so);
    LibScope l;
    mp4::bitio::Writer w(os);
    bool failed = false;
    for (std::size_t i = 0; i < ops.size(); ++i) {
      // the operation that completes byte wcap is the first that cannot succeed
      if (ops[i].misaligned) continue;
      if (failed) {
        // the medium goes on refusing: nothing that takes a byte or more can succeed any more
        std::string e2;
        if (lib_call([&] { lib_write(&w, ops[i]); }, &e2) && ops[i].b1 - ops[i].b0 >= 8)
          throw Violation("silent", "the medium refused from byte " + std::to_string(wcap) + " on and that was reported, yet afterwards writing " + op_text(ops, i) + " reported success");
        out.st.probes["written-on-after-a-failure"]++;
        continue;
      }
      const bool must = ops[i].b1 / 8 > static_cast<std::uint64_t>(wcap) && (failed || ops[i].b1 > ops[i].b0);
      std::string err;
      const bool ok = lib_call([&] { lib_write(&w, ops[i]); }, &err);
      const bool completes = ops[i].b1 / 8 > ops[i].b0 / 8;
      if (ok && must && completes) throw Violation("silent", "the medium refused from byte " + std::to_string(wcap) + " on, yet writing " + op_text(ops, i) + " reported success");
      if (!ok && !failed && ops[i].b1 / 8 <= static_cast<std::uint64_t>(wcap)) throw Violation("refused", "the medium took " + std::to_string(wcap) + " byte(s), yet writing " + op_text(ops, i) + " failed: " + err);
      failed = failed || !ok;
    }
    HarnessScope hs;
    if (failed) out.st.probes["write-failure-reported"]++;
    out.st.merge(f.st);
    const auto k = std::min(dv.dense.size(), want.size());
    if (!std::equal(want.begin(), want.begin() + static_cast<std::ptrdiff_t>(k), dv.dense.begin())) throw Violation("bytes", "what the refusing medium took is not a prefix");
  }
  // reading, undisturbed and disturbed
  for (int pass = 0; pass < 2; ++pass) {
    const bool faulty = pass == 1;
    if (faulty && early < 0 && dev.empty()) break;
    Session f;
    f.name = "main";
    f.fill = s.fill;
    SessScope fs(&f);
    if (faulty) f.add_faults(dev);
    SimIn si(f, want, static_cast<std::uint64_t>(sc.get("frag")), sc.seed, faulty ? early : -1);
    std::istream is(&si);
    LibScope l;
    mp4::bitio::Reader r(is);
    bool failed = false;
    std::set<std::size_t> jumped;
    for (std::size_t i = 0; i < ops.size(); ++i) {
      std::uint64_t n = 0;
      bool same = true;
      std::string err;
      if (failed) {
        // the stream stays failed: whatever needs bits cannot have them
        if (is.good()) break;  // a refused query of the position leaves it usable
        const bool fed = ops[i].b1 > ops[i].b0 && ops[i].k != oSkip && !ops[i].misaligned;
        if (fed && lib_call([&] { lib_read(&r, ops[i], &same); }, &err)) throw Violation("invented", "the stream failed and that was reported, yet afterwards reading " + op_text(ops, i) + " reported success");
        continue;
      }
      if (ops[i].misaligned) {
        std::vector<std::uint8_t> v(ops[i].d.size());
        const bool took = ops[i].k == oBulk ? lib_call([&] { r.read(&v); }, &err) : lib_call([&] { r.seek(ops[i].d.size(), std::ios_base::cur); }, &err);
        if (took) throw Violation("silent", "whole bytes were read or skipped from the middle of a byte, at " + op_text(ops, i));
        continue;
      }
      if (ops[i].inject) {
        const int w = static_cast<int>(ops[i].inject >> 8);
        const auto oct = static_cast<std::uint8_t>(ops[i].inject);
        std::uint8_t x = 0x5a;
        if (!lib_call([&] { r.setOctet(oct); r.setWidth(static_cast<std::uint8_t>(w)); mp4::bitio::read_uint<std::uint8_t>(&r, &x, static_cast<std::uint64_t>(w)); }, &err))
          throw Violation("refused", "bits handed to the reader could not be read: " + err);
        if (x != (oct & (0xff >> (8 - w))) || r.getOctet() != oct) throw Violation("values", fmt_str("the %d bit(s) handed to the reader in the octet %02x came back as %02x", w, oct, x));
        HarnessScope hs;
        out.st.probes["bits-handed-over"]++;
      }
      const bool ok = lib_call([&] { n = lib_read(&r, ops[i], &same); }, &err);
      HarnessScope hs;
      h.u64(ok);
      h.u64(n);
      const bool disturbed = f.fired > 0;
      if (!ok) {
        if (!disturbed) throw Violation("refused", "reading " + op_text(ops, i) + " failed: " + err);
        failed = true;
        out.st.probes["read-failure-reported"]++;
        continue;
      }
      if (!same) throw Violation(disturbed ? "invented" : "values", std::string("reading ") + op_text(ops, i) + (disturbed ? " over a failing stream reported success with another value" : " gave another value"));
      if (n != ops[i].b1 - ops[i].b0) throw Violation("bit-count", "reading " + op_text(ops, i) + fmt_str(" reported %llu bit(s)", static_cast<unsigned long long>(n)));
      if (faulty && early >= 0 && ops[i].b1 > static_cast<std::uint64_t>(early) * 8 && ops[i].b1 > ops[i].b0 && ops[i].k != oSkip)
        throw Violation("invented", fmt_str("the stream ended after byte %lld, yet reading ", static_cast<long long>(early)) + op_text(ops, i) + " reported success");
      if (ops[i].jump >= 0 && jumped.insert(i).second) {
        // from wherever in a byte it is, a move to a place of the stream starts afresh there
        const auto to = static_cast<std::size_t>(ops[i].jump);
        std::uint64_t at = ~0ULL;
        const bool moved = lib_call([&] { at = ops[i].jump_way ? r.seek(ops[to].b0 / 8 - want.size(), std::ios_base::end) : r.seek(ops[to].b0 / 8, std::ios_base::beg); }, &err);
        if (!moved) {
          if (!f.fired && !(faulty && early >= 0)) throw Violation("refused", fmt_str("moving to byte %llu failed: ", static_cast<unsigned long long>(ops[to].b0 / 8)) + err);
          break;
        }
        if (faulty && early >= 0 && ops[i].jump_way) break;  // the end is not where it was
        if (at != ops[to].b0 / 8) throw Violation("values", fmt_str("moving to byte %llu reported %llu", static_cast<unsigned long long>(ops[to].b0 / 8), static_cast<unsigned long long>(at)));
        out.st.probes["moved-back"]++;
        i = to - 1;
      }
    }
    HarnessScope hs;
    out.st.merge(f.st);
    if (!failed && !faulty) out.st.probes["sequences-read-back"]++;
  }
  out.st.merge(s.st);
  out.hash = h.h;
  Hash st;
  for (auto& o : ops) { st.u64(static_cast<std::uint64_t>(o.k)); st.u64(o.b1); }
  for (auto& f : sc.faults) { st.str(f.name); st.u64(static_cast<std::uint64_t>(f.arg(0))); }
  out.state = st.h;
  out.nontrivial = !ops.empty();
  return out;
}

Scenario gen_b02(std::uint64_t seed, int, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "B02";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 1, 2, 3, 7, 16});
  sc.p["obuf"] = r.pick<std::int64_t>({0, 1, 3, 16, 64, 4096});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  const auto n = 1 + r.below(r.chance(1, 4) ? 80 : 16);
  std::uint64_t fav = r.below(kOps);
  for (std::uint64_t i = 0; i < n; ++i) {
    const auto k = r.chance(1, 3) ? fav : r.below(kOps);
    std::int64_t w = k >= oUint8 && k <= oInt64 ? (r.chance(1, 4) ? native(static_cast<int>(k)) : r.range(1, native(static_cast<int>(k)))) : r.range(0, 70);
    std::uint64_t v = r.next();
    switch (r.below(7)) {
      case 0: v = 0; break;
      case 1: v = ~0ULL; break;
      case 2: v = 1ULL << r.below(64); break;
      case 3: v = (1ULL << r.below(64)) - 1; break;
      case 4: v = ~0ULL << r.below(64); break;
      default: break;
    }
    std::int64_t len = static_cast<std::int64_t>(r.chance(1, 8) ? r.below(300) : r.chance(1, 6) ? 250 + r.below(8) : r.below(20));
    sc.steps.push_back({"op", {static_cast<std::int64_t>(k), w, static_cast<std::int64_t>(v), len}});
  }
  for (auto j = r.chance(1, 3) ? 1 + r.below(3) : 0; j--;) sc.steps.push_back({"jump", {r.range(0, 80), r.range(0, 80), r.range(0, 1)}});
  if (r.chance(1, 6)) sc.steps.push_back({"inject", {r.range(0, 80), r.range(0, 0xffff)}});
  switch (r.below(5)) {
    case 0: sc.faults.push_back({"refuse", {r.chance(1, 2) ? r.range(0, 40) : r.range(0, 1 << 20)}}); break;
    case 1: sc.faults.push_back({"early", {r.chance(1, 2) ? r.range(0, 40) : r.range(0, 1 << 20)}}); break;
    case 2: sc.faults.push_back({r.pick<const char*>({"in.read", "in.read", "in.read", "in.seek", "in.tell"}), {r.range(0, r.chance(1, 2) ? 3 : 60), r.pick<std::int64_t>({kFail, kThrow, kShort}), 0, r.chance(1, 3) ? 1 : 0}}); break;
    default: break;
  }
  return sc;
}

struct Reg {
  Reg() {
    auto& E = engines();
    E.push_back({"B01", gen_b01, plan_b01, run_b01, 90000, 4000000,
                 "one run = one to four seeded payloads of supported box kinds (or one tree of them) decoded from a fragmented stream and encoded to a buffered medium, one in two with a stream failure, an early end, a refusing medium or a cut; distinct by kinds, payload sizes and fault placement",
                 {"decoders, encoders and size functions of every registered box", "BoxMap", "bitio", "BoxInfo", "libstdc++ streams"},
                 {"input and output media (in-memory streambufs with faults, fragmentation and buffering)", "allocator (fill pattern)", "independent payload generator"},
                 {"round-trips", "read-failure-reported", "write-failure-reported", "cut-payload-refused", "cut-payload-is-a-valid-payload", "trees"},
                 {"descriptor lengths are in the four-byte form the encoder uses", "strings are terminated", "reserved fields are zero where the format fixes them"}});
    E.push_back({"B02", gen_b02, nullptr, run_b02, 80000, 6000000,
                 "one run = one seeded sequence of up to eighty bit-level operations written, compared with a reference packer, and read back over a fragmented stream, three in five with a refusing medium, an early end or a stream failure; distinct by operations, bit positions and fault placement",
                 {"bitio::Writer", "bitio::Reader", "bitio read_*/write_* functions", "libstdc++ streams"},
                 {"input and output media (in-memory streambufs with faults, fragmentation and buffering)", "allocator (fill pattern)", "reference bit packer"},
                 {"sequences-read-back", "read-failure-reported", "write-failure-reported", "misaligned-refused", "moved-back", "written-on-after-a-failure"},
                 {"length-prefixed strings and accepted bulk transfers start on a byte boundary", "variable-length integers fit seven bits per byte of their type"}});
  }
} reg;

}  // namespace

}  // namespace sim
