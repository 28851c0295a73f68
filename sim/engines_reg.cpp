// Engine of B05: the registry of box kinds against a dictionary, and the order and text of four-character codes.
#include <map>
#include <memory>
#include <set>
#include <typeindex>
#include <typeinfo>

#include "boxes.hpp"
#include "device.hpp"

#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"

namespace sim {

namespace {

namespace mp4 = shiguredo::mp4;
namespace box = shiguredo::mp4::box;

struct Row {
  const char* type;
  std::type_index cls;
  std::vector<std::uint8_t> versions;
};
// what register_box_map() is documented to know
const std::vector<Row>& builtin() {
  static const std::vector<Row> t{
    {"btrt", typeid(box::Btrt), {}},
    {"co64", typeid(box::Co64), {0}},
    {"colr", typeid(box::Colr), {}},
    {"ctts", typeid(box::Ctts), {0, 1}},
    {"data", typeid(box::Data), {}},
    {"dinf", typeid(box::Dinf), {}},
    {"dOps", typeid(box::DOps), {}},
    {"dref", typeid(box::Dref), {0}},
    {"edts", typeid(box::Edts), {}},
    {"elst", typeid(box::Elst), {0, 1}},
    {"emsg", typeid(box::Emsg), {0, 1}},
    {"esds", typeid(box::Esds), {0}},
    {"fiel", typeid(box::Fiel), {}},
    {"free", typeid(box::Free), {}},
    {"ftyp", typeid(box::Ftyp), {}},
    {"hdlr", typeid(box::Hdlr), {0}},
    {"ilst", typeid(box::Ilst), {}},
    {"iods", typeid(box::Iods), {0}},
    {"mdat", typeid(box::Mdat), {}},
    {"mdhd", typeid(box::Mdhd), {0, 1}},
    {"mdia", typeid(box::Mdia), {}},
    {"mehd", typeid(box::Mehd), {0, 1}},
    {"meta", typeid(box::Meta), {0}},
    {"mfhd", typeid(box::Mfhd), {0}},
    {"mfra", typeid(box::Mfra), {}},
    {"mfro", typeid(box::Mfro), {0}},
    {"minf", typeid(box::Minf), {}},
    {"moof", typeid(box::Moof), {}},
    {"moov", typeid(box::Moov), {}},
    {"mvex", typeid(box::Mvex), {}},
    {"mvhd", typeid(box::Mvhd), {0, 1}},
    {"pssh", typeid(box::Pssh), {0, 1}},
    {"sbgp", typeid(box::Sbgp), {0, 1}},
    {"schi", typeid(box::Schi), {}},
    {"sdtp", typeid(box::Sdtp), {0}},
    {"sgpd", typeid(box::Sgpd), {1, 2}},
    {"sidx", typeid(box::Sidx), {0, 1}},
    {"sinf", typeid(box::Sinf), {}},
    {"skip", typeid(box::Skip), {}},
    {"smhd", typeid(box::Smhd), {0}},
    {"stbl", typeid(box::Stbl), {}},
    {"stco", typeid(box::Stco), {}},
    {"stsc", typeid(box::Stsc), {0}},
    {"stsd", typeid(box::Stsd), {0}},
    {"stss", typeid(box::Stss), {0}},
    {"stsz", typeid(box::Stsz), {0}},
    {"stts", typeid(box::Stts), {0}},
    {"styp", typeid(box::Styp), {}},
    {"tfdt", typeid(box::Tfdt), {0, 1}},
    {"tfhd", typeid(box::Tfhd), {0}},
    {"tfra", typeid(box::Tfra), {0, 1}},
    {"tkhd", typeid(box::Tkhd), {0, 1}},
    {"traf", typeid(box::Traf), {}},
    {"trak", typeid(box::Trak), {}},
    {"trex", typeid(box::Trex), {0}},
    {"trun", typeid(box::Trun), {0, 1}},
    {"udta", typeid(box::Udta), {}},
    {"vmhd", typeid(box::Vmhd), {0}},
    {"url ", typeid(box::Url), {0}},
    {"urn ", typeid(box::Urn), {0}},
    {"wave", typeid(box::Wave), {0}},
    {"avc1", typeid(box::VisualSampleEntry), {0}},
    {"encv", typeid(box::VisualSampleEntry), {0}},
    {"vp08", typeid(box::VisualSampleEntry), {0}},
    {"vp09", typeid(box::VisualSampleEntry), {0}},
    {"vp10", typeid(box::VisualSampleEntry), {0}},
    {"av01", typeid(box::VisualSampleEntry), {0}},
    {"mp4a", typeid(box::AudioSampleEntry), {0}},
    {"enca", typeid(box::AudioSampleEntry), {0}},
    {"Opus", typeid(box::AudioSampleEntry), {0}},
    {"avcC", typeid(box::AVCDecoderConfiguration), {0}},
    {"vpcC", typeid(box::VPCodecConfiguration), {1, 0}},
    {"av1C", typeid(box::AV1CodecConfiguration), {}},
    {"pasp", typeid(box::PixelAspectRatio), {0}},
    {"----", typeid(box::IlstMeta), {}},
    {"aART", typeid(box::IlstMeta), {}},
    {"akID", typeid(box::IlstMeta), {}},
    {"apID", typeid(box::IlstMeta), {}},
    {"atID", typeid(box::IlstMeta), {}},
    {"cmID", typeid(box::IlstMeta), {}},
    {"cnID", typeid(box::IlstMeta), {}},
    {"covr", typeid(box::IlstMeta), {}},
    {"cpil", typeid(box::IlstMeta), {}},
    {"cprt", typeid(box::IlstMeta), {}},
    {"desc", typeid(box::IlstMeta), {}},
    {"disk", typeid(box::IlstMeta), {}},
    {"egid", typeid(box::IlstMeta), {}},
    {"geID", typeid(box::IlstMeta), {}},
    {"gnre", typeid(box::IlstMeta), {}},
    {"pcst", typeid(box::IlstMeta), {}},
    {"pgap", typeid(box::IlstMeta), {}},
    {"plID", typeid(box::IlstMeta), {}},
    {"purd", typeid(box::IlstMeta), {}},
    {"purl", typeid(box::IlstMeta), {}},
    {"rtng", typeid(box::IlstMeta), {}},
    {"sfID", typeid(box::IlstMeta), {}},
    {"soaa", typeid(box::IlstMeta), {}},
    {"soal", typeid(box::IlstMeta), {}},
    {"soar", typeid(box::IlstMeta), {}},
    {"soco", typeid(box::IlstMeta), {}},
    {"sonm", typeid(box::IlstMeta), {}},
    {"sosn", typeid(box::IlstMeta), {}},
    {"stik", typeid(box::IlstMeta), {}},
    {"tmpo", typeid(box::IlstMeta), {}},
    {"trkn", typeid(box::IlstMeta), {}},
    {"tven", typeid(box::IlstMeta), {}},
    {"tves", typeid(box::IlstMeta), {}},
    {"tvnn", typeid(box::IlstMeta), {}},
    {"tvsh", typeid(box::IlstMeta), {}},
    {"tvsn", typeid(box::IlstMeta), {}},
    {"\xa9" "ART", typeid(box::IlstMeta), {}},
    {"\xa9" "alb", typeid(box::IlstMeta), {}},
    {"\xa9" "cmt", typeid(box::IlstMeta), {}},
    {"\xa9" "com", typeid(box::IlstMeta), {}},
    {"\xa9" "day", typeid(box::IlstMeta), {}},
    {"\xa9" "gen", typeid(box::IlstMeta), {}},
    {"\xa9" "grp", typeid(box::IlstMeta), {}},
    {"\xa9" "nam", typeid(box::IlstMeta), {}},
    {"\xa9" "too", typeid(box::IlstMeta), {}},
    {"\xa9" "wrt", typeid(box::IlstMeta), {}},
  };
  return t;
}

using Code = std::array<std::uint8_t, 4>;

// what a caller may add: kinds of its own
struct Made {
  int def = -1;      // which definition it came from
  int serial = 0;
};
int g_serial = 0;
struct OwnFixed : mp4::Box {
  Made made;
  explicit OwnFixed(int d) { made = {d, ++g_serial}; m_type.setData('o', 'w', 'n', static_cast<std::uint8_t>('0' + d % 10)); }
  std::string toStringOnlyData() const override { return {}; }
  std::uint64_t writeData(std::ostream&) const override { return 0; }
  std::uint64_t readData(std::istream&) override { return 0; }
};
struct OwnAny : mp4::AnyTypeBox {
  Made made;
  explicit OwnAny(int d) { made = {d, ++g_serial}; }
  std::string toStringOnlyData() const override { return {}; }
  std::uint64_t writeData(std::ostream&) const override { return 0; }
  std::uint64_t readData(std::istream&) override { return 0; }
};

enum Origin { fBuiltin, fFixed, fAny, fFails, kOrigins };
struct Def {
  int origin = fBuiltin;
  int id = 0;                          // row of builtin(), or number of the definition
  std::vector<std::uint8_t> versions;
};

struct Fails : std::runtime_error {
  Fails() : std::runtime_error("factory failed") {}
};

// codes that differ in one place, or only beyond what careless comparisons look at
Code code_of(std::int64_t n) {
  const auto u = static_cast<std::uint64_t>(n);
  const auto& b = builtin();
  Code c{};
  const char* t = b[(u >> 8) % b.size()].type;
  for (std::size_t i = 0; i < 4; ++i) c[i] = static_cast<std::uint8_t>(t[i]);
  switch (u & 7) {
    case 0: case 1: case 2: break;
    case 3: c[(u >> 3) & 3] = static_cast<std::uint8_t>(u >> 24); break;
    case 4: c[(u >> 3) & 3] ^= 0x20; break;      // the other case
    case 5: c[(u >> 3) & 3] ^= 0x80; break;
    case 6: c = {static_cast<std::uint8_t>(u >> 24), static_cast<std::uint8_t>(u >> 32), 0, static_cast<std::uint8_t>(u >> 40)}; break;
    default: {
      static const Code odd[] = {{0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 1}, {1, 0, 0, 0}, {'o', 'w', 'n', '1'}, {'u', 'n', 's', 'u'}, {0xa9, 0xa9, 0xa9, 0xa9}, {' ', ' ', ' ', ' '}};
      c = odd[(u >> 24) & 7];
    }
  }
  return c;
}
std::string str(const Code& c) { return std::string(reinterpret_cast<const char*>(c.data()), 4); }
std::string show(const Code& c) { return type_text(str(c)); }

struct Run {
  const Scenario& sc;
  Session& s;
  Outcome& out;
  Hash& h;
  Hash& st;
  std::map<Code, Def> model;
  std::vector<std::pair<Code, Made>> kept;
  int defs = 0;
  std::string err = {};

  // a call that may report an error only when a fault hit it
  bool call(const std::string& what, const std::function<void()>& f) {
    const auto fired = s.fired;
    if (lib_call(f, &err)) return true;
    if (s.fired == fired) throw Violation("refused", what + " failed: " + err);
    out.st.probes["exhaustion-reported"]++;
    return false;
  }

  void add(mp4::BoxMap& m, const Code& c, const Def& d) {
    const auto live = s.live_blocks;
    const bool known = model.count(c) != 0;
    if (call("defining [" + show(c) + "]", [&] {
          mp4::BoxFactory f;
          const int id = d.id;
          switch (d.origin) {
            case fFixed: f = [id]() -> mp4::Box* { return new OwnFixed(id); }; break;
            case fAny: f = [id]() -> mp4::Box* { return new OwnAny(id); }; break;
            case fFails: f = []() -> mp4::Box* { throw Fails(); }; break;
            default: f = []() -> mp4::Box* { return new box::Free(); };
          }
          std::vector<std::uint8_t> v;
          { HarnessScope hs; v = d.versions; }
          m.addBoxDef(f, mp4::BoxType(c), v);
        })) {
      model[c] = d;
      out.st.probes[known ? "redefined" : "defined"]++;
    } else if (s.live_blocks != live && !known) {
      throw Violation("leak", "a definition that failed left memory behind");
    }
  }

  void verify(mp4::Box* b, const Code& c, bool through_header, std::uint64_t size) {
    const auto it = model.find(c);
    const std::string nm = "the box made for [" + show(c) + "]";
    if (!b) throw Violation("instance", nm + " is missing");
    const auto got = b->getType().getData();
    const auto cls = std::type_index(typeid(*b));
    h.str(cls.name());
    h.mem(got.data(), 4);
    if (it == model.end()) {
      if (cls != std::type_index(typeid(box::Unsupported))) throw Violation("instance", nm + ", a kind nobody defined, is a " + cls.name());
      out.st.probes["unknown-kinds"]++;
    } else {
      const Def& d = it->second;
      Made mk;
      switch (d.origin) {
        case fBuiltin:
          if (cls != builtin()[static_cast<std::size_t>(d.id)].cls) throw Violation("instance", nm + " is a " + cls.name() + " instead of a " + builtin()[static_cast<std::size_t>(d.id)].cls.name());
          if (got != c) throw Violation("instance", nm + " calls itself [" + show(got) + "]");
          break;
        case fFixed: {
          auto* o = dynamic_cast<OwnFixed*>(b);
          if (!o || o->made.def != d.id) throw Violation("instance", nm + " does not come from the latest definition");
          mk = o->made;
          if (got != Code{'o', 'w', 'n', static_cast<std::uint8_t>('0' + d.id % 10)}) throw Violation("instance", nm + " calls itself [" + show(got) + "], which its definition does not");
          break;
        }
        case fAny: {
          auto* o = dynamic_cast<OwnAny*>(b);
          if (!o || o->made.def != d.id) throw Violation("instance", nm + " does not come from the latest definition");
          mk = o->made;
          if (got != c) throw Violation("instance", nm + " calls itself [" + show(got) + "]");
          break;
        }
        default: throw Violation("instance", nm + " exists although its factory fails");
      }
      if (d.origin != fBuiltin) {
        if (mk.serial != g_serial) throw Violation("instance", nm + " is not a new one");
        out.st.probes["own-kinds-made"]++;
      }
    }
    if (through_header && b->getSize() != size) throw Violation("instance", nm + " does not have the header given");
    out.st.probes["boxes-made"]++;
  }

  void get(mp4::BoxMap& m, const Code& c, bool through_header, std::uint64_t size) {
    const auto live = s.live_blocks;
    const auto it = model.find(c);
    const bool fails = it != model.end() && it->second.origin == fFails;
    mp4::Box* b = nullptr;
    mp4::BoxHeader* head = nullptr;
    bool ok = false;
    auto make = [&] {
      if (through_header) head = new mp4::BoxHeader({.offset = 0, .size = size, .header_size = 8, .type = mp4::BoxType(c)});
      b = through_header ? m.getBoxInstance(head) : m.getBoxInstance(mp4::BoxType(c));
    };
    if (fails) {
      const auto fired = s.fired;
      if (lib_call(make, &err)) { verify(b, c, through_header, size); }
      if (s.fired == fired && err != "factory failed") throw Violation("refused", "the failure of the factory of [" + show(c) + "] is reported as: " + err);
      out.st.probes["factory-failures"]++;
    } else {
      ok = call("making a box for [" + show(c) + "]", make);
    }
    if (ok) {
      verify(b, c, through_header, size);
      LibScope l;
      delete b;
    } else if (head) {
      LibScope l;
      delete head;   // still the caller's
    }
    if (s.live_blocks != live) throw Violation("leak", fmt_str("%lld block(s) are left after making and destroying a box for [", static_cast<long long>(s.live_blocks - live)) + show(c) + "]");
  }

  void ask(mp4::BoxMap& m, const Code& c, std::int64_t ver) {
    const auto it = model.find(c);
    const mp4::BoxType t(c);
    {
      bool k = false;
      if (!call("asking for [" + show(c) + "]", [&] { k = m.isSupported(t); })) return;
      if (k != (it != model.end())) throw Violation("query", "[" + show(c) + "] is called " + (k ? "supported" : "unsupported"));
    }
    {
      bool k = false;
      const auto v = static_cast<std::uint8_t>(ver);
      if (!call("asking for a version of [" + show(c) + "]", [&] { k = m.isSupportedVersion(t, v); })) return;
      bool want = false;
      if (it != model.end()) {
        want = it->second.versions.empty();
        for (auto x : it->second.versions) want = want || x == v;
      }
      if (k != want) throw Violation("query", fmt_str("version %u of [", v) + show(c) + "] is called " + (k ? "supported" : "unsupported"));
      h.u64(k);
    }
    std::vector<std::uint8_t> vs;
    const auto fired = s.fired;
    const bool ok = lib_call([&] { auto x = m.getSupportedVersions(t); HarnessScope hs; vs.assign(x.begin(), x.end()); }, &err);
    if (ok && it == model.end()) throw Violation("query", "versions are stated for [" + show(c) + "], a kind nobody defined");
    if (!ok && it != model.end() && s.fired == fired) throw Violation("query", "no versions are stated for [" + show(c) + "]: " + err);
    if (ok && vs != it->second.versions) throw Violation("query", "[" + show(c) + "] has other versions than it was defined with");
    out.st.probes["queries"]++;
  }

  void types(const Code& a, const Code& b, std::int64_t form) {
    mp4::BoxType x(a), y;
    if (form & 1) {
      if (!call("naming a type", [&] { y = mp4::BoxType(str(b)); })) return;
    } else {
      y.setData(b[0], b[1], b[2], b[3]);
    }
    const bool eq = a == b, lt = a < b;
    if (x.getData() != a || y.getData() != b) throw Violation("type", "[" + show(a) + "] or [" + show(b) + "] does not keep its four bytes");
    if ((x == y) != eq || (x != y) == eq || (x < y) != lt || (x > y) != (b < a) || (x <= y) == (b < a) || (x >= y) == lt)
      throw Violation("type", "[" + show(a) + "] and [" + show(b) + "] compare other than their bytes do");
    const Code any{0, 0, 0, 0};
    bool m1 = false, m2 = false;
    std::string t1;
    if (!call("matching types", [&] { m1 = x.matchWith(y); m2 = y.matchWith(x); })) return;
    const bool want = eq || a == any || b == any;
    if (m1 != want || m2 != want) throw Violation("type", "[" + show(a) + "] and [" + show(b) + "] are " + (m1 ? "matched" : "not matched"));
    if (!call("printing a type", [&] { auto z = x.toString(); HarnessScope hs; t1.assign(z.begin(), z.end()); })) return;
    if (t1 != show(a)) throw Violation("type", "a type prints as " + t1 + " instead of " + show(a));
    // a code has four bytes
    const auto n = static_cast<std::size_t>((form >> 1) & 7);
    const std::string odd = (str(a) + str(b)).substr(0, n);
    const auto fired = s.fired;
    Code got{};
    const bool ok = lib_call([&] { got = mp4::BoxType(odd).getData(); }, &err);
    if (ok && (n != 4 || got != a)) throw Violation("type", fmt_str("a code of %zu byte(s) is taken for ", n) + show(got));
    if (!ok && n == 4 && s.fired == fired) throw Violation("refused", "naming [" + show(a) + "] failed: " + err);
    out.st.probes["codes-compared"]++;
  }

  void go() {
    g_serial = 0;
    {
      std::unique_ptr<mp4::BoxMap> m;
      lib_call([&] { m = std::make_unique<mp4::BoxMap>(); });
      if (!m) { out.nontrivial = false; return; }
      for (auto& x : sc.steps) {
        const Code c = code_of(x.arg(0));
        st.str(x.name);
        for (auto v : x.a) st.u64(static_cast<std::uint64_t>(v));
        if (x.name == "builtin") {
          const bool ok = call("registering the built-in kinds", [&] { mp4::register_box_map(m.get()); });
          std::size_t taken = 0;
          for (std::size_t i = 0; i < builtin().size(); ++i) {
            Code k;
            for (std::size_t j = 0; j < 4; ++j) k[j] = static_cast<std::uint8_t>(builtin()[i].type[j]);
            if (!ok && !taken_over(*m, k, i)) continue;   // stopped in the middle: what was taken over counts
            model[k] = {fBuiltin, static_cast<int>(i), builtin()[i].versions};
            ++taken;
          }
          h.u64(taken);
        } else if (x.name == "def") {
          Def d;
          d.origin = fFixed + static_cast<int>(static_cast<std::uint64_t>(x.arg(1)) % (kOrigins - fFixed));
          d.id = defs++;
          const auto n = static_cast<std::uint64_t>(x.arg(2)) % 5;
          for (std::uint64_t i = 0; i < n; ++i) d.versions.push_back(static_cast<std::uint8_t>(static_cast<std::uint64_t>(x.arg(3)) >> (8 * i)));
          add(*m, c, d);
        } else if (x.name == "get") {
          get(*m, c, x.arg(1) & 1, 8 + static_cast<std::uint64_t>(x.arg(2)) % 100000);
        } else if (x.name == "ask") {
          ask(*m, c, x.arg(1));
        } else if (x.name == "types") {
          types(c, code_of(x.arg(1)), x.arg(2));
        }
      }
      s.paused = true;
      // in the end every kind answers as the dictionary says
      for (auto& [c, d] : model) {
        ask(*m, c, d.versions.empty() ? 0 : d.versions[0]);
        get(*m, c, false, 0);
      }
      for (auto& r : builtin()) {
        Code k;
        for (std::size_t j = 0; j < 4; ++j) k[j] = static_cast<std::uint8_t>(r.type[j]);
        if (!model.count(k)) get(*m, k, false, 0);
      }
      LibScope l;
      m.reset();
    }
    if (s.live_blocks != 0) throw Violation("leak", fmt_str("%lld block(s) are still allocated after the registry was destroyed", static_cast<long long>(s.live_blocks)));
  }

  bool taken_over(mp4::BoxMap& m, const Code& k, std::size_t i) {
    // after a registration that failed half-way: either the old definition or the new one, nothing else
    s.paused = true;
    mp4::Box* b = nullptr;
    lib_call([&] { b = m.getBoxInstance(mp4::BoxType(k)); });
    const bool is = b && std::type_index(typeid(*b)) == builtin()[i].cls;
    {
      LibScope l;
      delete b;
    }
    s.paused = false;
    return is;
  }
};

Outcome run_b05(const Scenario& sc) {
  Outcome out;
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  s.op_budget = 20'000'000;
  s.add_faults(sc.faults);
  SessScope ss(&s);
  Hash h, st;
  Run r{sc, s, out, h, st, {}, {}};
  r.go();
  out.st.merge(s.st);
  for (auto& f : sc.faults) for (auto v : f.a) st.u64(static_cast<std::uint64_t>(v));
  h.u64(s.trace.h);
  out.hash = h.h;
  out.state = st.h;
  out.nontrivial = !r.model.empty() && (sc.faults.empty() || s.fired > 0);
  return out;
}

Scenario gen_b05(std::uint64_t seed, int, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "B05";
  sc.seed = seed;
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  const auto n = 2 + r.below(r.chance(1, 4) ? 120 : 25);
  std::vector<std::int64_t> pool;
  for (auto k = 1 + r.below(12); k--;) pool.push_back(static_cast<std::int64_t>(r.next() >> 8));
  // neighbours: the same kind with one place changed
  for (auto k = r.below(6); k--;) pool.push_back((r.pick<std::int64_t>(pool) & ~static_cast<std::int64_t>(0x1f)) | static_cast<std::int64_t>(r.below(32)));
  auto code = [&] { return r.chance(1, 5) ? static_cast<std::int64_t>(r.next() >> 8) : r.pick<std::int64_t>(pool); };
  const bool late = r.chance(1, 4);
  if (!late && r.chance(4, 5)) sc.steps.push_back({"builtin", {0}});
  for (std::uint64_t i = 0; i < n; ++i) {
    switch (r.below(9)) {
      case 0: case 1: sc.steps.push_back({"def", {code(), r.pick<std::int64_t>({0, 0, 1, 1, 1, 2}), r.range(0, 4), static_cast<std::int64_t>(r.chance(1, 2) ? r.next() & 0x03020103 : r.next() >> 32)}}); break;
      case 2: case 3: case 4: sc.steps.push_back({"get", {code(), r.range(0, 1), r.range(0, 99999)}}); break;
      case 5: case 6: sc.steps.push_back({"ask", {code(), r.chance(1, 3) ? r.range(0, 255) : r.range(0, 3)}}); break;
      case 7: sc.steps.push_back({"types", {code(), code(), r.range(0, 15)}}); break;
      default: if (late && r.chance(1, 4)) sc.steps.push_back({"builtin", {0}});
    }
  }
  return sc;
}

void plan_b05(Scenario& sc, Rng& r) {
  if (!r.chance(2, 5)) return;
  Session s;
  s.name = "main";
  s.op_budget = 20'000'000;
  Outcome out;
  Hash h, st;
  {
    SessScope ss(&s);
    Run q{sc, s, out, h, st, {}, {}};
    q.go();
  }
  const auto c = s.count_of("alloc");
  if (!c) return;
  const auto k = 1 + r.below(2);
  for (std::uint64_t i = 0; i < k; ++i) {
    const auto at = r.chance(1, 3) ? r.below(c) : c - 1 - r.below(std::min<std::uint64_t>(c, 400));
    sc.faults.push_back({"alloc", {static_cast<std::int64_t>(at), kFail, 0, r.chance(1, 6) ? 1 : 0}});
  }
}

struct Reg {
  Reg() {
    engines().push_back({"B05", gen_b05, plan_b05, run_b05, 20000, 1200000,
                         "one run = a seeded history of definitions (built-in, own, replacing), lookups, queries and code comparisons on one registry, two in five with failing allocations; distinct by history and fault placement",
                         {"BoxMap", "BoxType", "register_box_map and every default-constructed box", "libstdc++ containers"},
                         {"allocator behind operator new (seeded failures, accounting)", "box kinds a caller adds", "dictionary the answers are compared with"},
                         {"defined", "redefined", "own-kinds-made", "unknown-kinds", "queries", "codes-compared", "exhaustion-reported", "factory-failures"},
                         {"factories return a new box or fail"}});
  }
} reg;

}  // namespace

}  // namespace sim
