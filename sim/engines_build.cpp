// Engine of B03: boxes described through the construction interface, assembled, laid out and written.
#include <algorithm>
#include <memory>
#include <set>
#include <sstream>

#include "boxbuild.hpp"
#include "boxes.hpp"
#include "device.hpp"

#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box/dinf.hpp"
#include "shiguredo/mp4/box/mdia.hpp"
#include "shiguredo/mp4/box/moov.hpp"
#include "shiguredo/mp4/box/stbl.hpp"
#include "shiguredo/mp4/box/trak.hpp"
#include "shiguredo/mp4/box/udta.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_type.hpp"

namespace sim {

namespace {

namespace mp4 = shiguredo::mp4;

std::string hex(const Bytes& b, std::size_t at, std::size_t n = 8) {
  std::string s;
  for (std::size_t i = at; i < b.size() && i < at + n; ++i) s += fmt_str("%02x", b[i]);
  return s;
}
std::string diff_text(const Bytes& want, const Bytes& got) {
  std::size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  return fmt_str("%zu byte(s) against %zu, first difference at %zu: ", got.size(), want.size(), i) + hex(got, i) + " instead of " + hex(want, i);
}

struct Flat {
  Node* n = nullptr;
  int parent = -1, prev = -1;
};
void flatten(std::vector<Node>& v, int parent, std::vector<Flat>* out) {
  int prev = -1;
  for (auto& n : v) {
    const int me = static_cast<int>(out->size());
    out->push_back({&n, parent, prev});
    prev = me;
    flatten(n.kids, me, out);
  }
}

// ---- trees whose leaves hold anything up to many GiB, re-sized and laid out again and again, on a sparse medium
// steps: {"g.box", {parent, kind}}, {"g.leaf", {parent, size}}, {"g.size", {leaf, size}}, {"g.lay", {base}}
class GiantBox : public mp4::Box {
 public:
  GiantBox(std::uint64_t n, std::uint8_t mark) : m_n(n), m_mark(mark) { m_type = mp4::BoxType("zbig"); }
  std::string toStringOnlyData() const override { return ""; }
  std::uint64_t writeData(std::ostream& os) const override {
    const std::string edge(static_cast<std::size_t>(std::min<std::uint64_t>(m_n, 16)), static_cast<char>(m_mark));
    os.write(edge.data(), static_cast<std::streamsize>(edge.size()));
    if (m_n > 16) {
      const std::uint64_t tail = std::min<std::uint64_t>(m_n - 16, 16);
      os.seekp(static_cast<std::streamoff>(m_n - 16 - tail), std::ios_base::cur);
      os.write(edge.data(), static_cast<std::streamsize>(tail));
    }
    return m_n * 8;
  }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t getDataSize() const override { return m_n; }
  void resize(std::uint64_t n) { m_n = n; }

 private:
  std::uint64_t m_n;
  std::uint8_t m_mark;
};

struct Giant {
  int parent = -1;
  bool leaf = false;
  std::uint64_t data = 0;   // of its own
  std::uint8_t mark = 0;
  const char* type = "";
  std::vector<std::size_t> kids;
  std::uint64_t off = 0, hdr = 8, size = 8;
  mp4::BoxInfo* info = nullptr;
  GiantBox* box = nullptr;
};

Outcome run_giant(const Scenario& sc) {
  Outcome out;
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  s.op_budget = 20'000'000;
  SessScope ss(&s);
  Hash h, st;
  std::string err;
  const auto before = s.live_blocks;
  std::vector<Giant> g;
  static const char* const kTypes[] = {"moov", "trak", "mdia", "udta", "stbl", "dinf"};
  std::function<std::uint64_t(std::size_t, std::uint64_t)> measure = [&](std::size_t i, std::uint64_t off) {
    auto total = [&](std::size_t k, auto& self) -> std::uint64_t {
      std::uint64_t d = g[k].data;
      for (auto c : g[k].kids) d += self(c, self);
      g[k].hdr = d > 0xffffffffu - 8 ? 16 : 8;
      return g[k].size = d + g[k].hdr;
    };
    total(i, total);
    auto place = [&](std::size_t k, std::uint64_t at, auto& self) -> void {
      g[k].off = at;
      at += g[k].hdr + g[k].data;
      for (auto c : g[k].kids) { self(c, at, self); at += g[c].size; }
    };
    place(i, off, place);
    return g[i].size;
  };
  auto add = [&](std::int64_t parent, bool leaf, std::uint64_t n, const char* type) {
    Giant x;
    if (!g.empty()) {
      x.parent = static_cast<int>(static_cast<std::uint64_t>(parent) % g.size());
      while (x.parent >= 0 && g[static_cast<std::size_t>(x.parent)].leaf) x.parent = g[static_cast<std::size_t>(x.parent)].parent;
    }
    if (leaf && x.parent < 0) return;
    x.leaf = leaf;
    x.data = leaf ? n : 0;
    x.mark = static_cast<std::uint8_t>(g.size() + 1);
    x.type = leaf ? "zbig" : type;
    if (!lib_call([&] {
          std::unique_ptr<mp4::Box> b;
          const std::string t(type);
          if (leaf) b.reset(x.box = new GiantBox(n, x.mark));
          else if (t == "moov") b.reset(new mp4::box::Moov());
          else if (t == "trak") b.reset(new mp4::box::Trak());
          else if (t == "mdia") b.reset(new mp4::box::Mdia());
          else if (t == "udta") b.reset(new mp4::box::Udta());
          else if (t == "stbl") b.reset(new mp4::box::Stbl());
          else b.reset(new mp4::box::Dinf());
          x.info = new mp4::BoxInfo({.parent = x.parent < 0 ? nullptr : g[static_cast<std::size_t>(x.parent)].info, .box = b.get()});
          b.release();
        }, &err))
      throw Violation("refused", "describing a box failed: " + err);
    g.push_back(x);
    if (x.parent >= 0) g[static_cast<std::size_t>(x.parent)].kids.push_back(g.size() - 1);
  };
  auto lay = [&](std::uint64_t base) {
    std::uint64_t z = 0;
    if (!lib_call([&] { z = g[0].info->adjustOffsetAndSize(base); }, &err)) throw Violation("refused", "laying out failed: " + err);
    const auto want = measure(0, base);
    for (auto& x : g) {
      std::string text;
      std::uint64_t size = 0;
      lib_call([&] { size = x.info->getSize(); const auto y = x.info->getBox()->toString(); HarnessScope hs; text.assign(y.begin(), y.end()); });
      const std::string line = std::string("[") + x.type + fmt_str("] Offset=%llu Size=%llu", static_cast<unsigned long long>(x.off), static_cast<unsigned long long>(x.size));
      if (text != line || size != x.size) throw Violation("layout", "a box holding " + fmt_str("%llu byte(s) is laid out as ", static_cast<unsigned long long>(x.size - x.hdr)) + text + " instead of " + line);
      if (x.hdr == 16) out.st.probes["boxes-past-4-GiB"]++;
    }
    if (z != want) throw Violation("layout", fmt_str("the tree announces %llu byte(s) instead of %llu", static_cast<unsigned long long>(z), static_cast<unsigned long long>(want)));
    h.u64(z);
    out.st.probes["layouts"]++;
  };
  std::uint64_t base = 0;
  add(0, false, 0, "moov");
  for (auto& x : sc.steps) {
    st.str(x.name);
    for (auto v : x.a) st.u64(static_cast<std::uint64_t>(v));
    if (x.name == "g.box") add(x.arg(0), false, 0, kTypes[static_cast<std::uint64_t>(x.arg(1)) % 6]);
    else if (x.name == "g.leaf") add(x.arg(0), true, static_cast<std::uint64_t>(x.arg(1)) & ((1ULL << 45) - 1), "");
    else if (x.name == "g.size") {
      auto at = static_cast<std::uint64_t>(x.arg(0)) % g.size();
      for (std::size_t n = 0; n < g.size() && !g[at].leaf; ++n) at = (at + 1) % g.size();
      auto& k = g[at];
      if (k.leaf) {
        k.data = static_cast<std::uint64_t>(x.arg(1)) & ((1ULL << 45) - 1);
        k.box->resize(k.data);
        out.st.probes["re-sized"]++;
      }
    } else if (x.name == "g.lay") lay(base = static_cast<std::uint64_t>(x.arg(0)) & ((1ULL << 45) - 1));
  }
  lay(base);
  Blob dev(true);
  {
    SimOut so(s, dev, static_cast<std::size_t>(sc.get("obuf")));
    std::ostream os(&so);
    if (!lib_call([&] { g[0].info->write(os); os.flush(); if (!os.good()) throw std::runtime_error("flush"); }, &err)) throw Violation("refused", "writing failed: " + err);
  }
  std::uint64_t end = 0;
  for (auto& x : g) {
    Bytes want, got(x.hdr);
    for (int i = 3; i >= 0; --i) want.push_back(static_cast<std::uint8_t>(x.hdr == 16 ? i == 0 : (x.size >> (8 * i)) & 0xff));
    for (int i = 0; i < 4; ++i) want.push_back(static_cast<std::uint8_t>(x.type[i]));
    if (x.hdr == 16) for (int i = 7; i >= 0; --i) want.push_back(static_cast<std::uint8_t>((x.size >> (8 * i)) & 0xff));
    if (!dev.read(x.off, got.size(), got.data()) || got != want) throw Violation("bytes", std::string("the header of a [") + x.type + fmt_str("] of %llu byte(s) at %llu is stored as ", static_cast<unsigned long long>(x.size), static_cast<unsigned long long>(x.off)) + hex(got, 0, 16) + " instead of " + hex(want, 0, 16));
    end = std::max(end, x.off + x.hdr + (x.leaf ? x.data : 0));
    if (!x.leaf || !x.data) continue;
    for (int tail = 0; tail < 2; ++tail) {
      const std::uint64_t n = tail ? std::min<std::uint64_t>(x.data > 16 ? x.data - 16 : 0, 16) : std::min<std::uint64_t>(x.data, 16);
      Bytes edge(n);
      if (n && (!dev.read(x.off + x.hdr + (tail ? x.data - n : 0), n, edge.data()) || edge != Bytes(n, x.mark))) throw Violation("bytes", fmt_str("the content of a box of %llu byte(s) is not where its header states", static_cast<unsigned long long>(x.data)));
    }
    h.u64(x.off);
  }
  if (dev.size() != end) throw Violation("bytes", fmt_str("the medium ends at %llu instead of %llu", static_cast<unsigned long long>(dev.size()), static_cast<unsigned long long>(end)));
  {
    LibScope l;
    delete g[0].info;
  }
  if (s.live_blocks != before) throw Violation("leak", fmt_str("%lld block(s) are still allocated after the tree was destroyed", static_cast<long long>(s.live_blocks - before)));
  out.st.merge(s.st);
  h.u64(s.trace.h);
  out.hash = h.h;
  out.state = st.h;
  out.nontrivial = true;
  return out;
}

void gen_giant(Rng& r, Scenario* sc) {
  sc->p["giant"] = 1;
  auto size = [&]() -> std::int64_t {
    const std::int64_t edge = 0xffffffffLL;
    switch (r.below(6)) {
      case 0: return r.range(0, 100);
      case 1: return edge - 8 + r.range(-40, 40);
      case 2: return edge / 2 + r.range(-40, 40);
      case 3: return r.range(0, 1LL << 33);
      case 4: return edge - 8 * r.range(1, 12) + r.range(-2, 2);
      default: return r.range(0, 1LL << 40);
    }
  };
  for (auto n = 1 + r.below(6); n--;) sc->steps.push_back({"g.box", {r.chance(1, 2) ? static_cast<std::int64_t>(n) : r.range(0, 8), r.range(0, 5)}});
  for (auto n = 1 + r.below(3); n--;) sc->steps.push_back({"g.leaf", {r.range(0, 8), size()}});
  for (auto n = r.below(6); n--;) {
    switch (r.below(4)) {
      case 0: sc->steps.push_back({"g.leaf", {r.range(0, 12), size()}}); break;
      case 1: sc->steps.push_back({"g.lay", {r.chance(1, 2) ? r.range(0, 500) : size()}}); break;
      default: sc->steps.push_back({"g.lay", {r.range(0, 500)}}); sc->steps.push_back({"g.size", {r.range(0, 12), size()}});
    }
  }
}

// steps: {"box", ...} the tree; {"adjust", {after so many boxes, base}}; {"flag", {node, what, bits}}
// faults: out.write / out.seek by index, {"refuse", {byte}}
Outcome run_b03(const Scenario& sc) {
  if (sc.get("giant")) return run_giant(sc);
  Outcome out;
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  s.op_budget = 20'000'000;
  SessScope ss(&s);
  const auto obuf = static_cast<std::size_t>(sc.get("obuf"));
  auto base = static_cast<std::uint64_t>(sc.get("base"));
  auto roots = build_tree(sc.steps, false);
  std::function<void(Node&)> fix = [&](Node& n) {
    n.hdr = 0;
    canonical(n, n.data);
    for (auto& k : n.kids) fix(k);
  };
  for (auto& n : roots) fix(n);
  const Bytes tree = encode_tree(roots);
  std::vector<Flat> flat;
  flatten(roots, -1, &flat);
  if (flat.empty()) {
    out.nontrivial = false;
    return out;
  }
  Hash h, st;
  for (auto& f : flat) { st.u64(static_cast<std::uint64_t>(f.n->kind)); st.u64(f.n->data.size()); }
  for (auto& x : sc.steps)
    if (x.name != "box") { st.str(x.name); for (auto v : x.a) st.u64(static_cast<std::uint64_t>(v)); }
  for (auto& f : sc.faults) { st.str(f.name); st.u64(static_cast<std::uint64_t>(f.arg(0))); }

  const auto before = s.live_blocks;
  std::string err;
  Rng order(sc.seed ^ 0x0def);
  bool faulted = false;
  {
    for (auto& x : sc.steps) {
      if (x.name != "contradiction") continue;
      const int which = static_cast<int>(static_cast<std::uint64_t>(x.arg(0)) % kContradictionCount);
      Blob dv;
      SimOut so(s, dv, 0);
      std::ostream os(&so);
      if (lib_call([&] { offer_contradiction(which, static_cast<std::uint64_t>(x.arg(1)), os); os.flush(); }, &err))
        throw Violation("accepted", std::string(kContradictions[which]) + " was accepted and stored");
      if (s.live_blocks != before) throw Violation("leak", std::string("refusing ") + kContradictions[which] + " leaves memory behind");
      out.st.probes["contradictions-refused"]++;
    }
    std::vector<mp4::BoxInfo*> info(flat.size(), nullptr);
    std::vector<std::size_t> ready, tops;
    for (std::size_t i = 0; i < flat.size(); ++i) if (flat[i].parent < 0) tops.push_back(i);
    auto lay_out = [&](std::uint64_t b, bool check) {
      std::uint64_t off = b;
      for (auto t : tops) {
        if (!info[t]) continue;
        std::uint64_t z = 0;
        if (!lib_call([&] { z = info[t]->adjustOffsetAndSize(off); }, &err)) throw Violation("refused", "laying out [" + type_text(flat[t].n->type) + "] failed: " + err);
        off += z;
        if (check && z != flat[t].n->size)
          throw Violation("tree-size", "[" + type_text(flat[t].n->type) + fmt_str("] announces %llu byte(s) with its children instead of %llu", static_cast<unsigned long long>(z), static_cast<unsigned long long>(flat[t].n->size)));
      }
    };
    std::size_t made = 0;
    while (made < flat.size()) {
      ready.clear();
      for (std::size_t i = 0; i < flat.size(); ++i)
        if (!info[i] && (flat[i].parent < 0 || info[static_cast<std::size_t>(flat[i].parent)]) && (flat[i].prev < 0 || info[static_cast<std::size_t>(flat[i].prev)])) ready.push_back(i);
      const std::size_t i = sc.get("order") == 0 ? ready.front() : sc.get("order") == 1 ? ready.back() : ready[order.below(ready.size())];
      const Node& n = *flat[i].n;
      const std::uint64_t choice = order.next();
      const bool ok = lib_call([&] {
        std::unique_ptr<mp4::Box> b(build_box(n, n.data, choice));
        if (n.kind == 0) b->setHeader(new mp4::BoxHeader({.type = mp4::BoxType(std::array<std::uint8_t, 4>{static_cast<std::uint8_t>(n.type[0]), static_cast<std::uint8_t>(n.type[1]), static_cast<std::uint8_t>(n.type[2]), static_cast<std::uint8_t>(n.type[3])})}));
        info[i] = new mp4::BoxInfo({.parent = flat[i].parent < 0 ? nullptr : info[static_cast<std::size_t>(flat[i].parent)], .box = b.get()});
        b.release();
      }, &err);
      const std::string nm = "[" + type_text(n.type) + fmt_str("] of %zu byte(s)", n.data.size());
      if (!ok) throw Violation("refused", "describing " + nm + " failed: " + err);
      std::uint64_t z = 0;
      if (!lib_call([&] { z = info[i]->getBox()->getDataSize(); }, &err)) throw Violation("refused", "getDataSize() of " + nm + " failed: " + err);
      if (z != n.data.size()) throw Violation("announced-size", nm + fmt_str(" announces %llu byte(s)", static_cast<unsigned long long>(z)));
      if (n.kind != 0) {
        std::string ty;
        std::size_t depth = 0;
        lib_call([&] { const auto p = info[i]->getPath(); depth = p.size(); const auto d = p.back().getData(); HarnessScope hs; ty.assign(d.begin(), d.end()); });
        if (ty != n.type || depth != static_cast<std::size_t>(n.depth) + 1) throw Violation("path", nm + " states the path " + fmt_str("of %zu type(s) ending in ", depth) + type_text(ty));
      }
      ++made;
      for (auto& a : sc.steps)
        if (a.name == "adjust" && static_cast<std::size_t>(a.arg(0)) % flat.size() + 1 == made) {
          lay_out(static_cast<std::uint64_t>(a.arg(1)), made == flat.size());
          out.st.probes["laid-out-more-than-once"]++;
        }
    }
    // a version byte the layout does not depend on is stored as given
    for (auto& a : sc.steps) {
      if (a.name != "version") continue;
      const Node& n = *flat[static_cast<std::size_t>(a.arg(0)) % flat.size()].n;
      static const std::set<std::string> kPlain{"co64", "dref", "hdlr", "mfhd", "mfro", "smhd", "stco", "stsc", "stsd", "stss", "stsz", "stts", "trex", "vmhd"};
      if (!kPlain.count(n.type) || n.data.size() < 4 || n.data.size() > 4096) continue;
      Bytes d = n.data;
      d[0] = static_cast<std::uint8_t>(a.arg(1));
      Blob dv;
      std::uint8_t v = 0;
      const bool ok = lib_call([&] {
        std::unique_ptr<mp4::Box> b(build_box(n, d, order.next()));
        v = b->getVersion();
        SimOut so(s, dv, 0);
        std::ostream os(&so);
        b->writeData(os);
        os.flush();
      }, &err);
      if (!ok) throw Violation("refused", "[" + type_text(n.type) + fmt_str("] with version %u: ", d[0]) + err);
      if (v != d[0] || dv.dense != d) throw Violation("bytes", "[" + type_text(n.type) + fmt_str("] given version %u states version %u and is stored as ", d[0], v) + diff_text(d, dv.dense));
      out.st.probes["versions-stored-as-given"]++;
    }
    // values beyond 32 bits described with version 0: kept (in the version that holds them), never cut
    for (auto& a : sc.steps) {
      if (a.name != "understate") continue;
      auto one = build_tree({{"box", {a.arg(0), 0, 0, a.arg(1), a.arg(2)}}}, false);
      if (one.empty() || one[0].data.size() < 4 || one[0].data[0] != 1) continue;
      Node& n = one[0];
      n.hdr = 0;
      canonical(n, n.data);
      bool cut = false;
      std::uint8_t v = 0;
      std::uint64_t z = 0;
      Blob dv;
      const bool ok = lib_call([&] {
        std::unique_ptr<mp4::Box> b(build_box(n, n.data, order.next(), &cut));
        if (!cut) return;
        v = b->getVersion();
        z = b->getDataSize();
        SimOut so(s, dv, 0);
        std::ostream os(&so);
        b->writeData(os);
        os.flush();
      }, &err);
      if (!cut) continue;
      if (!ok) throw Violation("refused", "[" + n.type + "] with values beyond 32 bits: " + err);
      if (v != 1 || z != n.data.size() || dv.dense != n.data) throw Violation("bytes", "[" + n.type + fmt_str("] with values beyond 32 bits states version %u and %llu byte(s) and is stored as ", v, static_cast<unsigned long long>(z)) + diff_text(n.data, dv.dense));
      out.st.probes["wide-values-kept"]++;
    }
    // version and flags: a history against a set model, put back at the end
    std::map<std::size_t, std::pair<std::uint32_t, std::uint8_t>> model;
    for (auto& a : sc.steps) {
      if (a.name != "flag") continue;
      const auto i = static_cast<std::size_t>(a.arg(0)) % flat.size();
      mp4::Box* b = info[i]->getBox();
      if (!dynamic_cast<mp4::FullBox*>(b)) continue;
      out.st.probes["flag-operations"]++;
      if (!model.count(i)) {
        const auto& d = flat[i].n->data;
        std::uint32_t f = 0;
        std::uint8_t v = 0;
        if (d.size() >= 4 && flat[i].n->type != "meta") v = d[0], f = static_cast<std::uint32_t>(d[1]) << 16 | static_cast<std::uint32_t>(d[2]) << 8 | d[3];
        model[i] = {f, v};
      }
      auto& m = model[i];
      const auto bits = static_cast<std::uint32_t>(a.arg(2)) & 0xffffff;
      const std::uint32_t one = 1u << (static_cast<std::uint32_t>(a.arg(2)) % 24);
      LibScope l;
      switch (a.arg(1)) {
        case 0: b->addFlag(bits); m.first |= bits; break;
        case 1: b->removeFlag(bits); m.first &= ~bits; break;
        case 2: b->setFlags(bits); m.first = bits; break;
        case 3: b->setVersion(static_cast<std::uint8_t>(bits)); m.second = static_cast<std::uint8_t>(bits); break;
        case 4:
          if (b->checkFlag(one) != ((m.first & one) != 0)) { HarnessScope hs; throw Violation("flags", fmt_str("checkFlag(0x%06x) of ", one) + type_text(flat[i].n->type) + fmt_str(" contradicts flags 0x%06x", m.first)); }
          break;
        default: break;
      }
      if (b->getFlags() != m.first || b->getVersion() != m.second) {
        HarnessScope hs;
        throw Violation("flags", "[" + type_text(flat[i].n->type) + fmt_str("] states version %u and flags 0x%06x; the operations so far leave version %u and flags 0x%06x", b->getVersion(), b->getFlags(), m.second, m.first));
      }
    }
    for (auto& [i, m] : model) {
      LibScope l;
      const auto& d = flat[i].n->data;
      mp4::Box* b = info[i]->getBox();
      if (flat[i].n->type == "meta") { b->setVersion(0); b->setFlags(0); continue; }
      b->setVersion(d[0]);
      b->setFlags(static_cast<std::uint32_t>(d[1]) << 16 | static_cast<std::uint32_t>(d[2]) << 8 | d[3]);
    }
    lay_out(base, true);
    Bytes want(base, 0);
    want.insert(want.end(), tree.begin(), tree.end());
    auto write_all = [&](std::ostream& os) {
      for (auto t : tops) info[t]->write(os);
      os.flush();
      if (!os.good()) throw std::runtime_error("flush failed");
    };
    std::vector<Step> dev;
    std::int64_t cap = -1;
    for (auto& f : sc.faults) {
      if (f.name == "refuse") cap = static_cast<std::int64_t>(base) + f.arg(0) % static_cast<std::int64_t>(std::max<std::size_t>(tree.size(), 1));
      else dev.push_back(f);
    }
    if (cap >= 0 || !dev.empty()) {
      Session f;
      f.name = "main";
      f.fill = s.fill;
      f.op_budget = s.op_budget;
      Blob dv;
      bool ok;
      {
        SessScope fs(&f);
        f.add_faults(dev);
        SimOut so(f, dv, obuf, cap);
        std::ostream os(&so);
        ok = lib_call([&] { write_all(os); }, &err);
        f.paused = true;
      }
      h.u64(ok);
      h.mem(dv.dense.data(), dv.dense.size());
      out.st.merge(f.st);
      const bool disturbed = f.fired > 0 || cap >= 0;
      if (!ok && !disturbed) throw Violation("refused", "writing the tree failed: " + err);
      if (ok && dv.dense != want) throw Violation("silent", "writing to a failing medium reported success and left " + diff_text(want, dv.dense));
      faulted = faulted || f.fired > 0 || !ok;
      if (!ok) out.st.probes["write-failure-reported"]++;
      else if (f.fired) out.st.probes["fault-survived"]++;
    }
    for (int pass = 0; pass < 2; ++pass) {
      // a sound medium, also after a failing one; the second time at another place
      if (pass == 1) {
        if (sc.get("again") == 0) break;
        base = static_cast<std::uint64_t>(sc.get("base2"));
        lay_out(base, true);
        want.assign(base, 0);
        want.insert(want.end(), tree.begin(), tree.end());
      }
      Blob dv;
      bool ok;
      {
        SimOut so(s, dv, obuf);
        std::ostream os(&so);
        ok = lib_call([&] { write_all(os); }, &err);
      }
      if (!ok) throw Violation("refused", "writing the tree failed: " + err);
      if (dv.dense != want) {
        std::uint64_t at = 0;
        while (at < want.size() && at < dv.dense.size() && want[at] == dv.dense[at]) ++at;
        std::string where = "before the first box";
        for (auto& f : flat) if (f.n->offset + base <= at) where = "in [" + type_text(f.n->type) + "]";
        throw Violation("bytes", "the tree described was stored as " + diff_text(want, dv.dense) + ", " + where);
      }
      h.mem(dv.dense.data(), dv.dense.size());
      out.st.probes["trees-stored"]++;
      // and its printed form
      const auto lines = expected_lines(roots);
      std::size_t k = 0, line = 0;
      std::string text;
      for (auto t : tops) {
        std::string x;
        if (!lib_call([&] { auto y = info[t]->toString(); HarnessScope hs; x.assign(y.begin(), y.end()); }, &err)) throw Violation("refused", "printing the tree failed: " + err);
        text += x + "\n";
      }
      for (auto& l : lines) {
        const std::string head = std::string(static_cast<std::size_t>(l.depth) * 2, ' ') + "[" + l.type + fmt_str("] Offset=%llu Size=%llu", static_cast<unsigned long long>(l.offset + base), static_cast<unsigned long long>(l.size));
        const auto& n = *flat[line++].n;
        // entries the caller gave although the file stores nothing for each of them are printed as given
        const bool shared = (n.type == "stsz" && (n.data[4] || n.data[5] || n.data[6] || n.data[7])) || (n.type == "trun" && !(n.data[2] & 0xf));
        std::string want_line = head + (l.text.empty() ? "" : " " + l.text) + "\n";
        if (shared) {
          const auto e = text.find('\n', k);
          if (text.compare(k, head.size(), head) != 0 || e == std::string::npos) want_line = "?";
          else want_line = text.substr(k, e + 1 - k);
        }
        if (text.compare(k, want_line.size(), want_line) != 0) {
          std::size_t d = 0;
          while (k + d < text.size() && d < want_line.size() && text[k + d] == want_line[d]) ++d;
          d = d > 30 ? d - 30 : 0;
          throw Violation("text", "[" + l.type + "] prints ..." + text.substr(std::min(k + d, text.size()), 90) + " for ..." + want_line.substr(d, 90));
        }
        k += want_line.size();
      }
      if (k != text.size()) throw Violation("text", "more is printed than the tree holds: " + text.substr(k, 90));
      h.str(text);
    }
    {
      LibScope l;
      for (auto t : tops) delete info[t];
    }
  }
  if (s.live_blocks != before) throw Violation("leak", fmt_str("%lld block(s) are still allocated after the tree was destroyed", static_cast<long long>(s.live_blocks - before)));
  out.st.merge(s.st);
  h.u64(s.trace.h);
  out.hash = h.h;
  out.state = st.h;
  out.nontrivial = !flat.empty() && (sc.faults.empty() || faulted);
  return out;
}

Scenario gen_b03(std::uint64_t seed, int, std::uint64_t index) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "B03";
  sc.seed = seed;
  sc.p["obuf"] = r.pick<std::int64_t>({0, 1, 3, 16, 64, 4096});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  sc.p["order"] = r.pick<std::int64_t>({0, 1, 2, 2});
  sc.p["base"] = r.pick<std::int64_t>({0, 0, 1, 8, 40, 4099});
  sc.p["base2"] = r.range(0, 300);
  sc.p["again"] = r.chance(1, 3) ? 1 : 0;
  sc.p["mode"] = r.pick<std::int64_t>({0, 0, 1, 2});
  if (index % 24 == 7) {
    gen_giant(r, &sc);
    sc.p["mode"] = 0;
    return sc;
  }
  if (index % 800 == 200) {  // every kind that lists things in turn, at its largest
    sc.steps.push_back(large_box(index / 800, r));
  } else if (r.chance(1, 2)) {
    // few boxes of any kind
    for (auto n = 1 + r.below(3); n--;) {
      std::int64_t k = r.chance(1, 14) ? 0 : r.range(1, kind_of("pasp"));
      if (r.chance(1, 30)) k = r.range(kind_of("pasp"), static_cast<std::int64_t>(box_kinds().size()) - 1);
      sc.steps.push_back({"box", {k, 0, 0, static_cast<std::int64_t>(r.next() >> 24), pick_class(r)}});
    }
  } else {
    if (r.chance(1, 50)) gen_shape(r, &sc.steps, 90, false);
    else gen_tree(r, &sc.steps, static_cast<int>(2 + r.below(40)), 12);
  }
  const auto n = static_cast<std::int64_t>(sc.steps.size());
  for (auto k = r.pick<std::uint64_t>({0, 0, 1, 1, 2, 3}); k--;) sc.steps.push_back({"adjust", {r.range(0, n - 1), r.chance(1, 2) ? r.range(0, 500) : r.range(0, 1LL << 40)}});
  if (r.chance(1, 3))
    for (auto k = 1 + r.below(12); k--;) sc.steps.push_back({"flag", {r.range(0, n - 1), r.range(0, 4), r.chance(1, 2) ? 1LL << r.below(24) : r.range(0, 0xffffff)}});
  for (auto k = r.below(3); k--;) sc.steps.push_back({"version", {r.range(0, n - 1), r.range(0, 255)}});
  if (r.chance(1, 4)) sc.steps.push_back({"understate", {kind_of(r.pick<const char*>({"elst", "mdhd", "mehd", "mvhd", "sidx", "tfdt", "tfra", "tkhd"})), static_cast<std::int64_t>(r.next() >> 24), r.range(0, 3)}});
  if (r.chance(1, 8)) sc.steps.push_back({"contradiction", {r.range(0, kContradictionCount - 1), r.range(0, 2000)}});
  return sc;
}

void plan_b03(Scenario& sc, Rng& r) {
  const auto mode = sc.get("mode");
  if (mode == 0) return;
  if (mode == 1) {
    sc.faults.push_back({"refuse", {r.chance(1, 2) ? r.range(0, 60) : r.range(0, 1 << 20)}});
    return;
  }
  // count the operations of an undisturbed writing: one write and one seek per box at most, more for the fields
  std::int64_t boxes = 0;
  for (auto& x : sc.steps) boxes += x.name == "box";
  const bool seek = r.chance(1, 4);
  std::int64_t at = r.chance(1, 2) ? r.range(0, std::max<std::int64_t>(boxes - 1, 0)) : r.range(0, 3 * boxes);
  if (!seek && sc.get("obuf") < 16 && r.chance(1, 2)) at = r.range(0, 30 * boxes);
  sc.faults.push_back({seek ? "out.seek" : "out.write", {at, r.pick<std::int64_t>({kFail, kThrow, kPartial}), r.range(0, 999), r.chance(1, 3) ? 1 : 0}});
}

struct Reg {
  Reg() {
    auto& E = engines();
    E.push_back({"B03", gen_b03, plan_b03, run_b03, 42000, 3000000,
                 "one run = one tree of one to some forty boxes of any registered kind described through the construction interface in a seeded order, laid out one to five times at seeded places, its version and flags changed and put back, written to one to three media (one in two of the runs with a failing one first), printed and destroyed; distinct by kinds, payload sizes, layouts, flag operations and fault placement",
                 {"parameter constructors, encoders, size functions and printed form of every registered box", "BoxInfo", "BoxHeader", "Box and FullBox", "bitio::Writer", "libstdc++ streams"},
                 {"output media (in-memory streambuf with faults and buffering)", "allocator (fill pattern, accounting)", "independent payload generator and decoder"},
                 {"trees-stored", "write-failure-reported", "laid-out-more-than-once", "flag-operations"},
                 {"reserved bits hold what the format prescribes", "the parts of a box agree with each other (list lengths and counts, flags and optional fields)"}});
  }
} reg;

}  // namespace

}  // namespace sim
