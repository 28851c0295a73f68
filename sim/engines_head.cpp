// Engine of B04: box headers (reading, writing, positioning), version and flags.
#include <algorithm>
#include <memory>
#include <sstream>

#include "boxes.hpp"
#include "device.hpp"

#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"

namespace sim {

namespace {

namespace mp4 = shiguredo::mp4;

mp4::BoxMap& box_map() {
  static mp4::BoxMap* m = [] {
    HarnessScope h;
    SessScope s(nullptr);
    auto* x = new mp4::BoxMap();
    mp4::register_box_map(x);
    return x;
  }();
  return *m;
}

mp4::BoxType type_of(const std::string& t) {
  mp4::BoxType b;
  b.setData(static_cast<std::uint8_t>(t[0]), static_cast<std::uint8_t>(t[1]), static_cast<std::uint8_t>(t[2]), static_cast<std::uint8_t>(t[3]));
  return b;
}
std::string text_of(const mp4::BoxType& b) {
  const auto d = b.getData();
  return std::string(reinterpret_cast<const char*>(d.data()), 4);
}

std::string hexs(const Bytes& b) {
  std::string s;
  for (auto c : b) s += fmt_str("%02x", c);
  return s;
}

// what a header must say, from the format alone
struct Head {
  std::uint64_t offset = 0, size = 0, header = 8;
  bool to_end = false;
  std::string type;
  Bytes bytes() const {
    Bytes o;
    auto be = [&](std::uint64_t v, int n) { while (n--) o.push_back(static_cast<std::uint8_t>(v >> (8 * n))); };
    be(to_end ? 0 : header == 16 ? 1 : size, 4);
    for (char c : type) o.push_back(static_cast<std::uint8_t>(c));
    if (header == 16 && !to_end) be(size, 8);
    return o;
  }
  std::string text() const {
    return fmt_str("[%s] at %llu, %llu byte(s) with a header of %llu%s", type_text(type).c_str(), static_cast<unsigned long long>(offset), static_cast<unsigned long long>(size), static_cast<unsigned long long>(header), to_end ? ", to the end" : "");
  }
};
Head seen(const mp4::BoxHeader& h, bool to_end) {
  return {h.getOffset(), h.getSize(), h.getHeaderSize(), to_end, text_of(h.getType())};
}
bool same(const Head& a, const Head& b) {
  return a.offset == b.offset && a.size == b.size && a.header == b.header && a.type == b.type;
}

std::int64_t where(Session& s, std::istream& is) {
  s.paused = true;
  is.clear();
  const auto p = static_cast<std::int64_t>(std::streamoff(is.tellg()));
  s.paused = false;
  return p;
}

// ------------------------------------------------------------------------------------------ reading headers of a file
struct Reads {
  Session& s;
  Outcome& out;
  Hash& h;
  std::uint64_t done = 0, failed = 0;

  // reads the header at h.offset, compares, positions; must: whether the header can be read at all
  void one(std::istream& is, const Head& want, bool can, bool through_box) {
    s.paused = true;
    is.clear();
    is.seekg(static_cast<std::streamoff>(want.offset), std::ios_base::beg);
    s.paused = false;
    const bool placed = is.good();
    auto fired = s.fired;
    std::unique_ptr<mp4::BoxHeader> head;
    std::string err;
    bool ok = lib_call([&] { head.reset(mp4::read_box_header(is)); }, &err);
    h.u64(ok);
    if (!ok) {
      if (can && placed && s.fired == fired) throw Violation("refused", "the header of " + want.text() + " could not be read: " + err);
      out.st.probes[can ? "read-failure-reported" : "cut-header-refused"]++;
      ++failed;
      return;
    }
    const Head got = seen(*head, want.to_end);
    if (!can) throw Violation("invented", "the header of " + want.text() + " is cut, but was read as " + got.text());
    if (!same(got, want)) throw Violation(s.fired != fired ? "silent" : "header", "the header of " + want.text() + " was read as " + got.text());
    if (head->getDataSize() != want.size - want.header) throw Violation("header", want.text() + fmt_str(": data size %llu", static_cast<unsigned long long>(head->getDataSize())));
    ++done;
    out.st.probes["headers-read"]++;
    auto positioned = [&](const char* what, std::uint64_t to, const std::function<void()>& f) {
      s.paused = true;
      is.clear();
      s.paused = false;
      fired = s.fired;
      if (!lib_call(f, &err)) {
        if (s.fired == fired) throw Violation("refused", std::string(what) + " of " + want.text() + " failed: " + err);
        out.st.probes["seek-failure-reported"]++;
        return;
      }
      const auto p = where(s, is);
      if (p != static_cast<std::int64_t>(to))
        throw Violation(s.fired != fired ? "silent" : "position", std::string(what) + " of " + want.text() + fmt_str(" ends at %lld instead of %llu", static_cast<long long>(p), static_cast<unsigned long long>(to)));
      out.st.probes["positions"]++;
    };
    positioned("seekToData()", want.offset + want.header, [&] { head->seekToData(is); });
    positioned("seekToEnd()", want.offset + want.size, [&] { head->seekToEnd(is); });
    // written where it came from, it is the same again
    {
      Session q;
      q.fill = s.fill;
      SessScope qs(&q);
      Blob dev(true);
      SimOut so(q, dev, 0);
      std::ostream os(&so);
      std::uint64_t n = 0;
      const Bytes wb = want.bytes();
      if (!lib_call([&] { n = head->write(os); }, &err)) throw Violation("refused", "writing the header of " + want.text() + " failed: " + err);
      Bytes got_b(wb.size());
      if (dev.size() != want.offset + wb.size() || !dev.read(want.offset, wb.size(), got_b.data()) || got_b != wb)
        throw Violation("header-bytes", "the header of " + want.text() + " was written as " + hexs(got_b) + " instead of " + hexs(wb) + fmt_str(" up to byte %llu", static_cast<unsigned long long>(dev.size())));
      if (n != want.size || !same(seen(*head, want.to_end), want)) throw Violation("header", "writing the header of " + want.text() + " changed it to " + seen(*head, want.to_end).text());
    }
    if (!through_box) { LibScope l; head.reset(); return; }
    std::unique_ptr<mp4::Box> b;
    if (!lib_call([&] { b.reset(box_map().getBoxInstance(head.get())); head.release(); }, &err)) throw Violation("refused", "no box for " + want.text() + ": " + err);
    std::uint64_t sz = 0, hs = 0;
    if (!lib_call([&] { sz = b->getSize(); hs = b->getHeaderSize(); }, &err)) throw Violation("refused", "the box of " + want.text() + " does not state its size: " + err);
    if (sz != want.size || hs != want.header) throw Violation("header", "the box of " + want.text() + fmt_str(" states %llu byte(s) and a header of %llu", static_cast<unsigned long long>(sz), static_cast<unsigned long long>(hs)));
    positioned("Box::seekToData()", want.offset + want.header, [&] { b->seekToData(is); });
    positioned("Box::seekToEnd()", want.offset + want.size, [&] { b->seekToEnd(is); });
    LibScope l;
    b.reset();
  }
};

Head head_of(const Node& n, std::uint64_t eof) {
  Head x;
  x.offset = n.offset;
  x.header = n.hdr == 1 ? 16 : 8;
  x.to_end = n.hdr == 2;
  x.size = x.to_end ? eof - n.offset : n.size;
  x.type = n.type;
  return x;
}

void run_tree(const Scenario& sc, Session& s, Outcome& out, Hash& h, Hash& st) {
  auto roots = build_tree(sc.steps, false);
  Bytes file = encode_tree(roots);
  std::vector<Node> flat;
  walk(roots, [&](const Node& n) { flat.push_back(n); });
  const int mode = static_cast<int>(sc.get("mode"));
  std::int64_t early = -1;
  std::uint64_t eof = file.size();
  for (auto& f : sc.faults) {
    if (f.name == "early" && !file.empty()) early = static_cast<std::int64_t>(static_cast<std::uint64_t>(f.arg(0)) % file.size());
    if (f.name == "cut" && !file.empty()) eof = static_cast<std::uint64_t>(f.arg(0)) % file.size();
  }
  file.resize(eof);
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < flat.size(); ++i) order.push_back(i);
  Rng r(sc.seed ^ 0x5eadu);
  if (sc.get("shuffle"))
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  s.add_faults(sc.faults);
  SimIn si(s, file, static_cast<std::uint64_t>(sc.get("frag")), sc.seed, early);
  std::istream is(&si);
  Reads rd{s, out, h};
  for (auto i : order) {
    const Node& n = flat[i];
    st.u64(static_cast<std::uint64_t>(n.kind));
    st.u64(static_cast<std::uint64_t>(n.hdr));
    if (n.offset > eof) continue;
    const std::uint64_t hb = n.hdr == 1 ? 16 : 8;
    const bool whole = n.offset + hb <= eof && (early < 0 || n.offset + hb <= static_cast<std::uint64_t>(early));
    // a box that ends after a cut has its end outside the stream, which only a real file can be positioned at
    rd.one(is, head_of(n, eof), whole, sc.get("box") != 0);
  }
  bool known = true;
  for (auto& n : flat) {
    bool sup = false;
    if (!lib_call([&] { sup = box_map().isSupported(type_of(n.type)); })) known = false;
    if (sup != (n.kind != kUnknownKind)) throw Violation("registry", "[" + type_text(n.type) + (sup ? "] is said to be supported" : "] is said not to be supported"));
  }
  h.u64(known);
  out.nontrivial = mode == 0 ? rd.done > 0 : rd.failed > 0 || s.fired > 0;
}

// ------------------------------------------------------------------------------ a chain of boxes in a huge, sparse file
void run_chain(const Scenario& sc, Session& s, Outcome& out, Hash& h, Hash& st) {
  Blob dev(true);
  std::vector<Head> chain;
  std::uint64_t at = 0;
  std::size_t k = 0, n = 0;
  for (auto& x : sc.steps) n += x.name == "head";
  for (auto& x : sc.steps) {
    if (x.name != "head") continue;
    ++k;
    Head e;
    e.offset = at;
    e.type = kind_type(static_cast<int>(x.arg(0)) % static_cast<int>(box_kinds().size()), sc.seed + k);
    std::uint64_t data = static_cast<std::uint64_t>(x.arg(2)) & ((1ULL << 56) - 1);
    e.to_end = x.arg(1) == 2 && k == n;
    e.header = x.arg(1) == 1 || (!e.to_end && data + 8 > 0xffffffffULL) ? 16 : 8;
    e.size = e.header + data;
    const Bytes b = e.bytes();
    dev.write(e.offset, b.data(), b.size());
    const std::uint8_t mark = static_cast<std::uint8_t>(k);
    if (data) dev.write(e.offset + e.size - 1, &mark, 1);
    at += e.size;
    chain.push_back(e);
    st.u64(e.header);
    st.u64(e.size);
  }
  s.add_faults(sc.faults);
  SimIn si(s, dev, static_cast<std::uint64_t>(sc.get("frag")), sc.seed);
  std::istream is(&si);
  Reads rd{s, out, h};
  // by following the chain alone
  bool lost = false;
  for (std::size_t i = 0; i < chain.size() && !lost; ++i) {
    std::unique_ptr<mp4::BoxHeader> head;
    std::string err;
    const auto fired = s.fired;
    if (!lib_call([&] { head.reset(mp4::read_box_header(is)); head->seekToEnd(is); }, &err)) {
      if (s.fired == fired) throw Violation("refused", "following the boxes: " + chain[i].text() + " failed: " + err);
      out.st.probes["read-failure-reported"]++;
      lost = true;
    } else if (!same(seen(*head, chain[i].to_end), chain[i])) {
      throw Violation(s.fired != fired ? "silent" : "header", "following the boxes: " + chain[i].text() + " was read as " + seen(*head, false).text());
    }
    LibScope l;
    head.reset();
  }
  if (!lost && where(s, is) != static_cast<std::int64_t>(at)) throw Violation("position", "following the boxes does not end at the end of the file");
  for (std::size_t i = chain.size(); i-- > 0;) rd.one(is, chain[i], true, sc.get("box") != 0);
  if (at > 0xffffffffULL) out.st.probes["beyond-4-gib"]++;
  out.nontrivial = at > 0xffffffffULL || s.fired > 0;
}

// ------------------------------------------------------------------------------------------------- writing headers
void run_write(const Scenario& sc, Session& s, Outcome& out, Hash& h, Hash& st) {
  Blob dev(true);
  std::int64_t cap = -1;
  for (auto& f : sc.faults)
    if (f.name == "refuse") cap = f.arg(0);
  s.add_faults(sc.faults);
  SimOut so(s, dev, static_cast<std::size_t>(sc.get("obuf")), cap);
  std::ostream os(&so);
  std::size_t k = 0;
  bool edge = false;
  for (auto& x : sc.steps) {
    if (x.name != "set") continue;
    ++k;
    Head e;
    e.type = kind_type(static_cast<int>(x.arg(0)) % static_cast<int>(box_kinds().size()), sc.seed + k);
    int form = static_cast<int>(x.arg(1));         // 0: default then set, 1: given small, 2: given large, 3: given to the end, 4: given, then set
    const auto offset = static_cast<std::uint64_t>(x.arg(2)) & ((1ULL << 56) - 1), data = static_cast<std::uint64_t>(x.arg(3)) & ((1ULL << 56) - 1);
    // a header given in a form its size does not fit is promoted with the size it was given (the repository's own tests fix
    // that), so what it stands for is the caller's business
    if (form == 1 && data + 8 > 0xffffffffULL) form = 2;
    std::unique_ptr<mp4::BoxHeader> b;
    std::string err;
    e.offset = offset;
    if (!lib_call([&] {
          switch (form) {
            case 1: b = std::make_unique<mp4::BoxHeader>(mp4::BoxHeaderParameters{.offset = offset, .size = data + 8, .type = type_of(e.type)}); break;
            case 2: b = std::make_unique<mp4::BoxHeader>(mp4::BoxHeaderParameters{.offset = offset, .size = data + 16, .header_size = 16, .type = type_of(e.type)}); break;
            case 3: b = std::make_unique<mp4::BoxHeader>(mp4::BoxHeaderParameters{.offset = offset, .size = data + 8, .type = type_of(e.type), .extend_to_eof = true}); break;
            case 4: b = std::make_unique<mp4::BoxHeader>(mp4::BoxHeaderParameters{.offset = offset ^ 7, .size = data + 99, .header_size = data % 2 ? 16u : 8u, .type = type_of(e.type)}); b->setOffsetAndDataSize(offset, data); break;
            default: b = std::make_unique<mp4::BoxHeader>(mp4::BoxHeaderParameters{.type = type_of(e.type)}); b->setOffsetAndDataSize(offset, data);
          }
        }, &err))
      throw Violation("refused", "a header for " + type_text(e.type) + " could not be made: " + err);
    e.to_end = form == 3;
    e.header = form == 2 || (form != 3 && data + 8 > 0xffffffffULL) ? 16 : 8;
    e.size = data + e.header;
    edge = edge || data + 8 > 0xfffffff0ULL || offset > 0xffffffffULL;
    if (!same(seen(*b, e.to_end), e)) throw Violation("header", e.text() + " is stated as " + seen(*b, e.to_end).text());
    if (b->getDataSize() != data) throw Violation("header", e.text() + fmt_str(": data size %llu", static_cast<unsigned long long>(b->getDataSize())));
    const Bytes want = e.bytes();
    const int times = x.arg(4) ? 2 : 1;
    for (int t = 0; t < times; ++t) {
      const auto fired = s.fired;
      const bool fits = cap < 0 || offset + want.size() <= static_cast<std::uint64_t>(cap);
      std::uint64_t n = 0;
      s.paused = true;
      os.clear();
      s.paused = false;
      const bool ok = lib_call([&] { n = b->write(os); }, &err);
      h.u64(ok);
      bool flushed = ok;
      if (ok) {
        os.flush();
        flushed = os.good();
      }
      if (!ok || !flushed) {
        if (fits && s.fired == fired) throw Violation("refused", "writing the header of " + e.text() + " failed: " + err);
        out.st.probes["write-failure-reported"]++;
        break;
      }
      Bytes got(want.size());
      if (!dev.read(offset, want.size(), got.data()) || got != want)
        throw Violation(s.fired != fired || !fits ? "silent" : "header-bytes", "the header of " + e.text() + " was written as " + hexs(got) + " instead of " + hexs(want));
      if (n != e.size || !same(seen(*b, e.to_end), e)) throw Violation("header", "after writing, the header of " + e.text() + " is " + seen(*b, e.to_end).text() + fmt_str(" and returned %llu", static_cast<unsigned long long>(n)));
      s.paused = true;
      const auto at = static_cast<std::int64_t>(std::streamoff(os.tellp()));
      s.paused = false;
      if (at != static_cast<std::int64_t>(offset + want.size())) throw Violation("position", "after the header of " + e.text() + " the output is elsewhere");
      out.st.probes["headers-written"]++;
      // and an independent reading of it is the same header
      Session q;
      SessScope qs(&q);
      Blob one(true);
      one.write(offset, got.data(), got.size());
      const std::uint8_t z = 0;
      if (e.size > e.header) one.write(offset + e.size - 1, &z, 1);
      SimIn si(q, one, static_cast<std::uint64_t>(sc.get("frag")), sc.seed);
      std::istream is(&si);
      is.seekg(static_cast<std::streamoff>(offset), std::ios_base::beg);
      std::unique_ptr<mp4::BoxHeader> back;
      if (!lib_call([&] { back.reset(mp4::read_box_header(is)); }, &err)) throw Violation("refused", "the header of " + e.text() + " was written but cannot be read: " + err);
      if (*back != *b || !same(seen(*back, e.to_end), e)) throw Violation("header", "the header of " + e.text() + " was read back as " + seen(*back, e.to_end).text());
      LibScope l;
      back.reset();
    }
    st.u64(static_cast<std::uint64_t>(form));
    st.u64(data);
    st.u64(offset);
    LibScope l;
    b.reset();
  }
  out.nontrivial = edge || s.fired > 0;
}

// ------------------------------------------------------------------------------------------------ version and flags
void run_flags(const Scenario& sc, Session& s, Outcome& out, Hash& h, Hash& st) {
  auto roots = build_tree(sc.steps, false);
  std::vector<Node> flat;
  walk(roots, [&](const Node& n) { flat.push_back(n); });
  for (auto& n : flat) {
    std::unique_ptr<mp4::Box> b;
    std::string err;
    Bytes out_bytes;
    auto bytes_of = [&](const std::function<void(std::ostream&)>& f) {
      Session q;
      SessScope qs(&q);
      Blob d;
      SimOut so(q, d, 0);
      std::ostream os(&so);
      if (!lib_call([&] { f(os); }, &err)) throw Violation("refused", "encoding [" + type_text(n.type) + "] failed: " + err);
      return d.dense;
    };
    SimIn si(s, n.data, static_cast<std::uint64_t>(sc.get("frag")), sc.seed);
    std::istream is(&si);
    if (!lib_call([&] { b.reset(box_map().getBoxInstance(type_of(n.type))); b->readData(is); }, &err)) throw Violation("refused", "decoding [" + type_text(n.type) + "] failed: " + err);
    auto* full = dynamic_cast<mp4::FullBox*>(b.get());
    st.u64(static_cast<std::uint64_t>(n.kind));
    std::uint32_t flags = 0;
    std::uint8_t version = 0;
    if (full) {
      if (n.data.size() < 4) throw Violation("flags", "[" + type_text(n.type) + "] has no version and flags in its payload");
      version = n.data[0];
      flags = (static_cast<std::uint32_t>(n.data[1]) << 16) | (static_cast<std::uint32_t>(n.data[2]) << 8) | n.data[3];
    }
    auto check = [&](const char* after) {
      const auto v = b->getVersion();
      const auto f = b->getFlags();
      h.u64(v);
      h.u64(f);
      if (v != version || f != flags) throw Violation("flags", "[" + type_text(n.type) + fmt_str("] states version %u and flags %06x instead of %u and %06x after %s", v, f, version, flags, after));
      for (int i = 0; i < 24; ++i)
        if (b->checkFlag(1u << i) != (!full || ((flags >> i) & 1))) throw Violation("flags", "[" + type_text(n.type) + fmt_str("] states flag %06x wrongly after %s", 1u << i, after));
    };
    check("decoding");
    for (auto& x : sc.steps) {
      if (x.name != "flag") continue;
      const auto v = static_cast<std::uint32_t>(x.arg(1)) & 0xffffff;
      const int op = static_cast<int>(x.arg(0));
      const char* names[] = {"setFlags()", "addFlag()", "removeFlag()", "setVersion()"};
      lib_call([&] {
        switch (op) {
          case 0: b->setFlags(v); if (full) flags = v; break;
          case 1: b->addFlag(v); if (full) flags |= v; break;
          case 2: b->removeFlag(v); if (full) flags &= ~v; break;
          default: b->setVersion(static_cast<std::uint8_t>(v)); if (full) version = static_cast<std::uint8_t>(v);
        }
      });
      st.u64(static_cast<std::uint64_t>(op));
      check(names[op & 3]);
      out.st.probes["flag-changes"]++;
    }
    if (full) {
      std::uint64_t bits = 0;
      const Bytes w = bytes_of([&](std::ostream& os) { mp4::bitio::Writer bw(os); bits = full->writeVersionAndFlag(&bw); });
      const Bytes want{version, static_cast<std::uint8_t>(flags >> 16), static_cast<std::uint8_t>(flags >> 8), static_cast<std::uint8_t>(flags)};
      if (w != want || bits != 32) throw Violation("flags", "[" + type_text(n.type) + "] writes version and flags as " + hexs(w) + " instead of " + hexs(want));
    } else {
      const Bytes w = bytes_of([&](std::ostream& os) { b->writeData(os); });
      if (w != n.data) throw Violation("flags", "[" + type_text(n.type) + "] has no version and flags but was changed by setting them");
    }
    LibScope l;
    b.reset();
  }
}

Outcome run_b04(const Scenario& sc) {
  Outcome out;
  Session s;
  s.name = "main";
  s.fill = static_cast<std::uint8_t>(sc.get("fill", 0xA5));
  s.op_budget = 20'000'000;
  box_map();
  SessScope ss(&s);
  Hash h, st;
  const int mode = static_cast<int>(sc.get("mode"));
  st.u64(static_cast<std::uint64_t>(mode));
  switch (mode) {
    case 3: run_chain(sc, s, out, h, st); break;
    case 4: run_write(sc, s, out, h, st); break;
    case 5: run_flags(sc, s, out, h, st); break;
    default: run_tree(sc, s, out, h, st);
  }
  out.st.merge(s.st);
  h.u64(s.trace.h);
  out.hash = h.h;
  for (auto& f : sc.faults) { st.str(f.name); st.u64(static_cast<std::uint64_t>(f.arg(0))); }
  out.state = st.h;
  return out;
}

std::uint64_t size_pick(Rng& r) {
  const std::uint64_t lim = 0xffffffffULL;
  switch (r.below(6)) {
    case 0: return r.below(64);
    case 1: return lim - 8 - r.below(24) + r.below(24);
    case 2: return lim - r.below(24) + r.below(24);
    case 3: return r.next() & ((1ULL << r.range(1, 55)) - 1);
    case 4: return (1ULL << r.range(8, 55)) - r.below(20);
    default: return r.below(1 << 20);
  }
}

void stream_faults(Scenario& sc, Rng& r, std::initializer_list<const char*> sites, std::int64_t top) {
  for (const char* site : sites) {
    if (r.chance(1, 2)) continue;
    sc.faults.push_back({site, {r.range(0, r.chance(1, 2) ? 4 : top), r.pick<std::int64_t>({kFail, kThrow, std::string(site) == "in.read" ? kShort : kPartial}), r.range(0, 999), r.chance(1, 4) ? 1 : 0}});
  }
}

Scenario gen_b04(std::uint64_t seed, int, std::uint64_t) {
  Rng r(seed);
  Scenario sc;
  sc.prop = "B04";
  sc.seed = seed;
  sc.p["frag"] = r.pick<std::int64_t>({0, 0, 1, 2, 3, 7, 16});
  sc.p["obuf"] = r.pick<std::int64_t>({0, 1, 3, 16, 64, 4096});
  sc.p["fill"] = r.pick<std::int64_t>({0xA5, 0, 0xFF});
  sc.p["box"] = r.chance(1, 2);
  sc.p["shuffle"] = r.chance(1, 2);
  const int mode = static_cast<int>(r.pick<std::int64_t>({0, 0, 1, 1, 1, 2, 2, 3, 3, 3, 4, 4, 4, 5}));
  sc.p["mode"] = mode;
  if (mode <= 2) {
    gen_tree(r, &sc.steps, static_cast<int>(2 + r.below(16)), 10);
    if (mode == 1) stream_faults(sc, r, {"in.read", "in.seek", "in.tell"}, 60);
    if (mode == 2) sc.faults.push_back({r.chance(1, 2) ? "cut" : "early", {r.range(0, 1 << 20)}});
  } else if (mode == 3) {
    const auto n = 1 + r.below(6);
    for (std::uint64_t i = 0; i < n; ++i) sc.steps.push_back({"head", {r.range(0, static_cast<std::int64_t>(box_kinds().size()) - 1), r.range(0, 2), static_cast<std::int64_t>(size_pick(r) >> r.pick<int>({0, 0, 3}))}});
    if (r.chance(1, 3)) stream_faults(sc, r, {"in.read", "in.seek", "in.tell"}, 30);
  } else if (mode == 4) {
    const auto n = 1 + r.below(5);
    for (std::uint64_t i = 0; i < n; ++i) sc.steps.push_back({"set", {r.range(0, static_cast<std::int64_t>(box_kinds().size()) - 1), r.range(0, 4), r.chance(1, 2) ? static_cast<std::int64_t>(r.below(64)) : static_cast<std::int64_t>(size_pick(r)), static_cast<std::int64_t>(size_pick(r)), r.chance(1, 3)}});
    if (r.chance(1, 3)) stream_faults(sc, r, {"out.write", "out.seek", "out.tell"}, 12);
    if (r.chance(1, 4)) sc.faults.push_back({"refuse", {r.range(0, 64)}});
  } else {
    const auto n = 1 + r.below(3);
    for (std::uint64_t i = 0; i < n; ++i) sc.steps.push_back({"box", {r.range(1, static_cast<std::int64_t>(box_kinds().size()) - 1), 0, 0, static_cast<std::int64_t>(r.next() >> 24), r.range(0, 1)}});
    const auto m = 1 + r.below(6);
    for (std::uint64_t i = 0; i < m; ++i) sc.steps.push_back({"flag", {r.range(0, 3), static_cast<std::int64_t>(r.chance(1, 2) ? 1ULL << r.below(24) : r.next() & 0xffffff)}});
  }
  return sc;
}

struct Reg {
  Reg() {
    engines().push_back({"B04", gen_b04, nullptr, run_b04, 90000, 4000000,
                         "one run = the headers of a seeded box tree or of a chain of boxes in a sparse file of up to 2^58 bytes read, positioned at and written back, or seeded headers written, or version-and-flags changes; two in five with stream failures, an early end, a cut or a refusing medium; distinct by kinds, header forms, sizes and fault placement",
                         {"BoxHeader", "read_box_header", "Box, FullBox", "BoxMap", "libstdc++ streams"},
                         {"input and output media (in-memory and sparse streambufs with faults and fragmentation)", "independent header encoder"},
                         {"headers-read", "headers-written", "positions", "read-failure-reported", "write-failure-reported", "cut-header-refused", "beyond-4-gib", "flag-changes"},
                         {"offsets plus sizes stay below 2^58", "a header states at least its own length"}});
  }
} reg;

}  // namespace

}  // namespace sim
