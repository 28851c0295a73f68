#include "boxes.hpp"

#include "demux.hpp"

#include <algorithm>
#include <cctype>

namespace sim {

namespace {

const std::vector<BoxKind> kKinds = {
    {"????", false},
    {"btrt", false}, {"co64", false}, {"colr", false}, {"ctts", false}, {"data", false}, {"dinf", true},  {"dOps", false},
    {"dref", true},  {"edts", true},  {"elst", false}, {"emsg", false}, {"esds", false}, {"fiel", false}, {"free", false},
    {"ftyp", false}, {"hdlr", false}, {"ilst", true},  {"iods", false}, {"mdat", false}, {"mdhd", false}, {"mdia", true},
    {"mehd", false}, {"meta", true},  {"mfhd", false}, {"mfra", true},  {"mfro", false}, {"minf", true},  {"moof", true},
    {"moov", true},  {"mvex", true},  {"mvhd", false}, {"pssh", false}, {"sbgp", false}, {"schi", true},  {"sdtp", false},
    {"sgpd", false}, {"sidx", false}, {"sinf", true},  {"skip", false}, {"smhd", false}, {"stbl", true},  {"stco", false},
    {"stsc", false}, {"stsd", true},  {"stss", false}, {"stsz", false}, {"stts", false}, {"styp", false}, {"tfdt", false},
    {"tfhd", false}, {"tfra", false}, {"tkhd", false}, {"traf", true},  {"trak", true},  {"trex", false}, {"trun", false},
    {"udta", true},  {"vmhd", false}, {"url ", false}, {"urn ", false}, {"wave", true},  {"avc1", true},  {"encv", true},
    {"vp08", true},  {"vp09", true},  {"vp10", true},  {"av01", true},  {"mp4a", true},  {"enca", true},  {"Opus", true},
    {"avcC", false}, {"vpcC", false}, {"av1C", false}, {"pasp", false},
    {"----", true},  {"aART", true},  {"akID", true},  {"apID", true},  {"atID", true},  {"cmID", true},  {"cnID", true},
    {"covr", true},  {"cpil", true},  {"cprt", true},  {"desc", true},  {"disk", true},  {"egid", true},  {"geID", true},
    {"gnre", true},  {"pcst", true},  {"pgap", true},  {"plID", true},  {"purd", true},  {"purl", true},  {"rtng", true},
    {"sfID", true},  {"soaa", true},  {"soal", true},  {"soar", true},  {"soco", true},  {"sonm", true},  {"sosn", true},
    {"stik", true},  {"tmpo", true},  {"trkn", true},  {"tven", true},  {"tves", true},  {"tvnn", true},  {"tvsh", true},
    {"tvsn", true},  {"\xa9""ART", true}, {"\xa9""alb", true}, {"\xa9""cmt", true}, {"\xa9""com", true}, {"\xa9""day", true},
    {"\xa9""gen", true}, {"\xa9""grp", true}, {"\xa9""nam", true}, {"\xa9""too", true}, {"\xa9""wrt", true},
};

struct BB {
  Bytes b;
  int fill = 0;  // bits used of the last byte (0: aligned)
  Rng& r;
  explicit BB(Rng& rng) : r(rng) {}
  void bits(std::uint64_t v, int n) {
    for (int i = n - 1; i >= 0; --i) {
      if (fill == 0) b.push_back(0);
      if ((v >> i) & 1) b.back() = static_cast<std::uint8_t>(b.back() | (1u << (7 - fill)));
      fill = (fill + 1) & 7;
    }
  }
  void u(std::uint64_t v, int n) { bits(v, n * 8); }
  // edge-heavy random integer of n bits
  std::uint64_t any(int n) {
    const std::uint64_t m = n >= 64 ? ~0ULL : (1ULL << n) - 1;
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return m;
      case 2: return (m >> 1) + 1;
      case 3: return m >> 1;
      case 4: return 1;
      case 5: return r.next() & 0xff & m;
      default: return r.next() & m;
    }
  }
  void rnd(int nbytes) { u(any(nbytes * 8), nbytes); }
  void rbits(int n) { bits(any(n), n); }
  void raw(std::size_t n) {
    const bool edge = r.chance(1, 6);
    for (std::size_t i = 0; i < n; ++i) u(edge ? any(8) : r.next() & 0xff, 1);
  }
  void txt(const char* s) { while (*s) u(static_cast<std::uint8_t>(*s++), 1); }
  void str(std::size_t n) {  // printable, no NUL, no newline
    for (std::size_t i = 0; i < n; ++i) u(r.chance(1, 12) ? 0x80 + r.below(0x7f) : 0x20 + r.below(0x5f), 1);
  }
  void cstr(std::size_t n) { str(n); u(0, 1); }
  std::uint32_t fb(std::initializer_list<int> versions, std::uint32_t flags) {
    const int v = r.pick<int>(versions);
    u(static_cast<std::uint64_t>(v), 1);
    u(flags & 0xffffff, 3);
    return static_cast<std::uint32_t>(v);
  }
  std::uint32_t fb(std::initializer_list<int> versions) { return fb(versions, static_cast<std::uint32_t>(any(24))); }
  void uvar(std::uint32_t v, bool relaxed) {  // descriptor length: four bytes, or the shortest form
    int n = 4;
    if (relaxed && r.chance(1, 2)) {
      n = 1;
      while (n < 4 && (v >> (7 * n))) ++n;
    }
    for (int i = n - 1; i >= 0; --i) u(((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0), 1);
  }
  void append(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
};

Bytes es_body(Rng& r, bool relaxed, int cls, bool* url) {
  BB p(r);
  p.u(p.any(16), 2);
  const bool dep = r.chance(1, 4), ocr = r.chance(1, 4);
  *url = r.chance(1, 4);
  p.bits(dep, 1);
  p.bits(*url, 1);
  p.bits(ocr, 1);
  p.rbits(5);
  if (dep) p.rnd(2);
  if (*url) {
    const auto n = r.below(static_cast<std::uint64_t>(cls ? 256 : 12));
    p.u(n, 1);
    for (std::uint64_t i = 0; i < n; ++i) p.u(0x21 + r.below(0x5e), 1);
  }
  if (ocr) p.rnd(2);
  (void)relaxed;
  return p.b;
}

Bytes descriptor(Rng& r, int tag, const Bytes& body, bool relaxed) {
  BB p(r);
  p.u(static_cast<std::uint64_t>(tag), 1);
  p.uvar(static_cast<std::uint32_t>(body.size()), relaxed);
  p.append(body);
  return p.b;
}

void cat(Bytes* a, const Bytes& b) { a->insert(a->end(), b.begin(), b.end()); }

}  // namespace

const std::vector<BoxKind>& box_kinds() { return kKinds; }

int kind_of(const char* type) {
  for (std::size_t i = 1; i < kKinds.size(); ++i)
    if (std::memcmp(kKinds[i].type, type, 4) == 0) return static_cast<int>(i);
  return -1;
}

std::string kind_type(int kind, std::uint64_t seed) {
  if (kind > 0 && kind < static_cast<int>(kKinds.size())) return std::string(kKinds[static_cast<std::size_t>(kind)].type, 4);
  Rng r(seed ^ 0x7e57);
  static const std::vector<std::string> pool = {"uuid", "abcd", "Xtra", "    ", std::string("\0\0\0\0", 4), "\xa9xyz", "\x80\xff\x01\x7f",
                                                "hvc1", "ac-3", "udtb", "[]()", "a\nbc", std::string("\0\0\0\x01", 4), "\xa9\xa9\xa9\xa9", "mdat"};
  for (;;) {
    std::string t;
    if (r.chance(2, 3)) t = pool[r.below(pool.size())];
    else for (int i = 0; i < 4; ++i) t += static_cast<char>(r.chance(1, 2) ? 'a' + r.below(26) : r.below(256));
    if (kind_of(t.c_str()) < 0) return t;
  }
}

int pick_class(Rng& r) {
  if (r.chance(1, 100)) return r.chance(1, 8) ? 5 : 4;
  return static_cast<int>(r.pick<std::int64_t>({0, 1, 1, 1, 2, 2, 3}));
}

Bytes box_payload(int kind, std::uint64_t seed, int cls, std::size_t children, bool relaxed, bool under_wave) {
  Rng r(seed * 2654435761u + static_cast<std::uint64_t>(kind));
  BB p(r);
  const std::string t = kind == 0 ? "????" : std::string(kKinds[static_cast<std::size_t>(kind)].type, 4);
  const int form_wanted = cls >> 4;  // 0: any
  cls &= 15;
  auto count = [&]() -> std::uint64_t {
    switch (cls) {
      case 0: return r.below(3);
      case 1: return r.below(7);
      case 2: return r.below(40);
      case 3: return r.below(220);
      case 4: return r.below(3000);
      default: return r.pick<std::uint64_t>({65534, 65535, 65536, 65537, 66000});
    }
  };
  auto bytes = [&]() -> std::size_t {
    switch (cls) {
      case 0: return r.below(4);
      case 1: return r.below(24);
      case 2: return r.below(200);
      case 3: return r.below(1200);
      case 4: return r.below(40000);
      default: return t == "esds" && r.chance(1, 6) ? r.pick<std::uint64_t>({2097151, 2097152}) : r.pick<std::uint64_t>({16383, 16384, 65535, 65536, 70000});
    }
  };
  if (under_wave) {
    p.raw(bytes());
    return p.b;
  }
  if (kind == 0 || t == "free" || t == "skip" || t == "mdat") {
    p.raw(bytes());
  } else if (t == "btrt") {
    p.rnd(4); p.rnd(4); p.rnd(4);
  } else if (t == "co64") {
    p.fb({0}); auto n = count(); p.u(n, 4); while (n--) p.rnd(8);
  } else if (t == "stco" || t == "stss") {
    p.fb({0}); auto n = count(); p.u(n, 4); while (n--) p.rnd(4);
  } else if (t == "colr") {
    switch (r.below(4)) {
      case 0: p.txt("rICC"); p.raw(bytes()); break;
      case 1: p.txt("prof"); p.raw(bytes()); break;
      case 2: p.txt(r.chance(1, 2) ? "nclc" : "zzzz"); p.raw(bytes()); break;
      default: p.txt("nclx"); p.rnd(2); p.rnd(2); p.rnd(2); p.rnd(1);
    }
  } else if (t == "ctts") {
    p.fb({0, 1}); auto n = count(); p.u(n, 4); while (n--) { p.rnd(4); p.rnd(4); }
  } else if (t == "data") {
    p.u(r.chance(2, 3) ? r.pick<std::uint64_t>({0, 1, 2, 3, 4, 5, 13, 14, 15, 21, 22, 23, 24, 27, 28}) : p.any(32), 4);
    p.rnd(4); p.raw(bytes());
  } else if (t == "dOps") {
    p.rnd(1); const auto ch = cls ? p.any(8) : r.below(9); p.u(ch, 1); p.rnd(2); p.rnd(4); p.rnd(2);
    const auto fam = r.chance(1, 2) ? 0 : p.any(8);
    p.u(fam, 1);
    if (fam) { p.rnd(1); p.rnd(1); p.raw(ch); }
  } else if (t == "dref" || t == "stsd") {
    p.fb({0}); p.u(children, 4);
  } else if (t == "elst") {
    const auto v = p.fb({0, 1}); auto n = count(); p.u(n, 4);
    while (n--) { p.rnd(v ? 8 : 4); p.rnd(v ? 8 : 4); p.rnd(4); }
  } else if (t == "emsg") {
    const auto v = p.fb({0, 1});
    if (v == 0) { p.cstr(bytes()); p.cstr(bytes()); p.rnd(4); p.rnd(4); p.rnd(4); p.rnd(4); }
    else { p.rnd(4); p.rnd(8); p.rnd(4); p.rnd(4); p.cstr(bytes()); p.cstr(bytes()); }
    if (relaxed) p.str(bytes()); else p.raw(bytes());
  } else if (t == "esds") {
    p.fb({0});
    bool url = false;
    Bytes es = es_body(r, relaxed, cls, &url);
    BB dc(r);
    dc.rnd(1); dc.rbits(6); dc.rbits(1); dc.rbits(1); dc.rnd(3); dc.rnd(4); dc.rnd(4);
    Bytes dcb = dc.b;
    if (r.chance(3, 4)) { BB s(r); s.raw(bytes()); cat(&dcb, descriptor(r, 5, s.b, relaxed)); }
    if (r.chance(9, 10)) cat(&es, descriptor(r, 4, dcb, relaxed));
    if (r.chance(9, 10)) { BB s(r); s.raw(r.chance(2, 3) ? 1 : bytes()); cat(&es, descriptor(r, 6, s.b, relaxed)); }
    if (relaxed && r.chance(1, 6)) { BB s(r); s.raw(bytes()); cat(&es, descriptor(r, r.pick<int>({7, 14, 0x40, 0x80}), s.b, relaxed)); }
    p.append(descriptor(r, 3, es, relaxed));
  } else if (t == "fiel") {
    p.rnd(1); p.rnd(1);
  } else if (t == "ftyp" || t == "styp") {
    p.str(4); p.rnd(4); auto n = count(); while (n--) p.str(4);
  } else if (t == "hdlr") {
    p.fb({0});
    // a nonzero component type marks the QuickTime form, whose name may be counted instead of terminated; it counts
    // as counted exactly when the count is what is left, so a terminated name must not look like that
    std::uint64_t pre = r.chance(1, 3) ? r.pick<std::uint64_t>({0x6d686c72, 0x64686c72, 1, 0x80000000u, 0x100, r.below(0x100000000ull)}) : 0;
    BB n(r);
    if (pre && relaxed && r.chance(1, 2)) {
      const auto m = std::min<std::size_t>(r.chance(1, 8) ? 255 : 1 + bytes(), 255);
      n.u(m, 1);
      n.str(m);
    } else {
      n.cstr(bytes());
      if (r.chance(1, 4)) n.raw(bytes());
      if (n.b.size() >= 2 && n.b[0] == n.b.size() - 1) pre = 0;
    }
    p.u(pre, 4); p.str(4); p.raw(4); p.raw(4); p.raw(4);
    p.append(n.b);
  } else if (t == "iods") {
    p.fb({0}); p.u(r.chance(1, 2) ? 0x10 : p.any(8), 1);
    Bytes body;
    if (relaxed && r.chance(1, 3)) for (auto n = 1 + r.below(3); n--;) { BB s(r); s.raw(4); cat(&body, descriptor(r, 0x0e, s.b, relaxed)); }
    p.uvar(static_cast<std::uint32_t>(7 + body.size()), relaxed);
    p.rnd(2); p.rnd(1); p.rnd(1); p.rnd(1); p.rnd(1); p.rnd(1); p.append(body);
  } else if (t == "mdhd") {
    const auto v = p.fb({0, 1}); const int w = v ? 8 : 4;
    p.rnd(w); p.rnd(w); p.rnd(4); p.rnd(w); p.rbits(1);
    for (int i = 0; i < 3; ++i) p.bits(r.chance(3, 4) ? 1 + r.below(26) : p.any(5), 5);
    p.rnd(2);
  } else if (t == "mehd") {
    const auto v = p.fb({0, 1}); p.rnd(v ? 8 : 4);
  } else if (t == "meta") {
    p.u(0, 4);
  } else if (t == "mfhd" || t == "mfro") {
    p.fb({0}); p.rnd(4);
  } else if (t == "mvhd") {
    const auto v = p.fb({0, 1}); const int w = v ? 8 : 4;
    p.rnd(w); p.rnd(w); p.rnd(4); p.rnd(w); p.rnd(4); p.rnd(2); p.rnd(2); p.rnd(4); p.rnd(4);
    for (int i = 0; i < 9; ++i) p.rnd(4);
    for (int i = 0; i < 6; ++i) p.rnd(4);
    p.rnd(4);
  } else if (t == "pssh") {
    const auto v = p.fb({0, 1}); p.raw(16);
    if (v) { auto n = count(); p.u(n, 4); p.raw(n * 16); }
    const auto n = bytes(); p.u(n, 4); p.raw(n);
  } else if (t == "sbgp") {
    const auto v = p.fb({0, 1}); p.str(4); if (v) p.rnd(4);
    auto n = count(); p.u(n, 4); while (n--) { p.rnd(4); p.rnd(4); }
  } else if (t == "sdtp") {
    p.fb({0}); p.raw(bytes());
  } else if (t == "sgpd") {
    const int form = form_wanted ? (form_wanted - 1) % 5 : static_cast<int>(r.below(5));
    const bool alst = form == 2;
    const std::uint32_t v = alst ? p.fb({1}) : p.fb({1, 2});
    p.txt(form == 0 ? "roll" : form == 1 ? "prol" : form == 2 ? "alst" : form == 3 ? "rap " : "tele");
    const std::uint32_t rc = static_cast<std::uint32_t>(r.below(4)), opts = static_cast<std::uint32_t>(r.below(3));
    const std::uint32_t each = form <= 1 ? 2 : form == 2 ? 4 + 4 * rc + 4 * opts : 1;
    const bool with_len = v == 1 && r.chance(1, 2);
    p.u(v == 1 ? (with_len ? 0 : each) : p.any(32), 4);
    auto n = count();
    p.u(n, 4);
    while (n--) {
      std::uint32_t c = rc, o = opts;
      if (with_len) {
        if (alst) { c = static_cast<std::uint32_t>(r.below(4)); o = static_cast<std::uint32_t>(r.below(3)); p.u(4 + 4 * c + 4 * o, 4); }
        else p.u(each, 4);
      }
      if (form <= 1) p.rnd(2);
      else if (alst) { p.u(c, 2); p.rnd(2); for (std::uint32_t i = 0; i < c; ++i) p.rnd(4); for (std::uint32_t i = 0; i < o; ++i) { p.rnd(2); p.rnd(2); } }
      else p.rnd(1);
    }
  } else if (t == "sidx") {
    const auto v = p.fb({0, 1}); const int w = v ? 8 : 4;
    p.rnd(4); p.rnd(4); p.rnd(w); p.rnd(w); p.rnd(2); auto n = std::min<std::uint64_t>(count(), 0xffff); p.u(n, 2);
    while (n--) { p.rnd(4); p.rnd(4); p.rnd(4); }
  } else if (t == "smhd") {
    p.fb({0}); p.rnd(2); p.rnd(2);
  } else if (t == "stsc") {
    p.fb({0}); auto n = count(); p.u(n, 4); while (n--) { p.rnd(4); p.rnd(4); p.rnd(4); }
  } else if (t == "stsz") {
    p.fb({0});
    if (r.chance(1, 4)) { p.u(1 + (p.any(32) % 0xfffffffe), 4); p.rnd(4); }
    else { p.u(0, 4); auto n = count(); p.u(n, 4); while (n--) p.rnd(4); }
  } else if (t == "stts") {
    p.fb({0}); auto n = count(); p.u(n, 4); while (n--) { p.rnd(4); p.rnd(4); }
  } else if (t == "tfdt") {
    const auto v = p.fb({0, 1}); p.rnd(v ? 8 : 4);
  } else if (t == "tfhd") {
    const std::uint32_t fl = (r.next() & 0x3b) | (r.chance(1, 2) ? 0x010000 : 0) | (r.chance(1, 2) ? 0x020000 : 0);
    p.fb({0}, fl); p.rnd(4);
    if (fl & 1) p.rnd(8);
    if (fl & 2) p.rnd(4);
    if (fl & 8) p.rnd(4);
    if (fl & 0x10) p.rnd(4);
    if (fl & 0x20) p.rnd(4);
  } else if (t == "tfra") {
    const auto v = p.fb({0, 1}); const int w = v ? 8 : 4;
    p.rnd(4); p.rbits(26);
    const int a = static_cast<int>(r.below(4)), b = static_cast<int>(r.below(4)), c = static_cast<int>(r.below(4));
    p.bits(static_cast<std::uint64_t>(a), 2); p.bits(static_cast<std::uint64_t>(b), 2); p.bits(static_cast<std::uint64_t>(c), 2);
    auto n = count(); p.u(n, 4);
    while (n--) { p.rnd(w); p.rnd(w); p.rnd(a + 1); p.rnd(b + 1); p.rnd(c + 1); }
  } else if (t == "tkhd") {
    const auto v = p.fb({0, 1}); const int w = v ? 8 : 4;
    p.rnd(w); p.rnd(w); p.rnd(4); p.rnd(4); p.rnd(w); p.rnd(4); p.rnd(4);
    for (int i = 0; i < 4; ++i) p.rnd(2);
    for (int i = 0; i < 9; ++i) p.rnd(4);
    p.rnd(4); p.rnd(4);
  } else if (t == "trex") {
    p.fb({0}); for (int i = 0; i < 5; ++i) p.rnd(4);
  } else if (t == "trun") {
    const std::uint32_t fl = static_cast<std::uint32_t>(r.next()) & 0xf05;
    p.fb({0, 1}, fl);
    auto n = (fl & 0xf00) ? count() : r.chance(1, 2) ? count() : std::uint64_t(0);
    p.u(n, 4);
    if (fl & 1) p.rnd(4);
    if (fl & 4) p.rnd(4);
    while (n--) for (std::uint32_t b : {0x100u, 0x200u, 0x400u, 0x800u}) if (fl & b) p.rnd(4);
  } else if (t == "vmhd") {
    p.fb({0}); p.rnd(2); p.rnd(2); p.rnd(2); p.rnd(2);
  } else if (t == "url ") {
    const auto fl = static_cast<std::uint32_t>(r.chance(1, 2) ? 1 : p.any(24));
    p.fb({0}, fl); if (!(fl & 1)) p.cstr(bytes());
  } else if (t == "urn ") {
    const auto fl = static_cast<std::uint32_t>(r.chance(1, 2) ? 1 : p.any(24));
    p.fb({0}, fl); if (!(fl & 1)) { p.cstr(bytes()); p.cstr(bytes()); }
  } else if (t == "avc1" || t == "encv" || t == "vp08" || t == "vp09" || t == "vp10" || t == "av01") {
    p.raw(6); p.rnd(2); p.rnd(2); p.rnd(2); p.rnd(4); p.rnd(4); p.rnd(4); p.rnd(2); p.rnd(2); p.rnd(4); p.rnd(4); p.rnd(4); p.rnd(2);
    const auto n = r.below(32);
    if (relaxed) { p.u(n, 1); p.str(31); } else p.raw(32);
    p.rnd(2); p.rnd(2);
  } else if (t == "mp4a" || t == "enca" || t == "Opus") {
    const int v = t == "Opus" ? 0 : static_cast<int>(r.pick<std::int64_t>({0, 0, 1, 2}));
    p.raw(6); p.rnd(2); p.u(static_cast<std::uint64_t>(v), 2); p.raw(6); p.rnd(2); p.rnd(2); p.rnd(2); p.rnd(2); p.rnd(4);
    // QuickTime versions without their extension end with the sixteen common bytes
    const bool bare = relaxed && !children && r.chance(1, 4);
    if (v == 1 && !bare) p.raw(16);
    if (v == 2 && !bare) p.raw(36);
  } else if (t == "avcC") {
    p.rnd(1);
    const auto prof = r.pick<std::uint64_t>({66, 77, 88, 100, 110, 118, 122, 128, 244, 44, 83, 86, 0, 255});
    p.u(prof, 1); p.rnd(1); p.rnd(1); p.rbits(6); p.rbits(2); p.rbits(3);
    auto sets = [&](std::uint64_t n) { for (std::uint64_t i = 0; i < n; ++i) { const auto m = std::min<std::size_t>(bytes(), i ? 1200 : 0xffff); p.u(m, 2); p.raw(m); } };
    const auto a = r.below(cls ? 32 : 3); p.bits(a, 5); sets(a);
    const auto b = r.below(cls > 2 ? 256 : cls > 1 ? 40 : 3); p.u(b, 1); sets(b);
    // profiles whose records may carry the additional fields: absent or present
    static const std::set<std::uint64_t> high{86, 100, 110, 118, 122, 128, 138, 144, 244};
    if (high.count(prof) && r.chance(2, 3)) {
      p.rbits(6); p.rbits(2); p.rbits(5); p.rbits(3); p.rbits(5); p.rbits(3);
      const auto e = r.below(cls > 2 ? 256 : cls > 1 ? 12 : 3);
      p.u(e, 1);
      sets(e);
    }
  } else if (t == "vpcC") {
    const auto v = p.fb({0, 1}); for (int i = 0; i < 6; ++i) p.rnd(1);
    if (v) { const auto n = std::min<std::size_t>(bytes(), 0xffff); p.u(n, 2); p.raw(n); }
  } else if (t == "av1C") {
    p.rnd(4); p.raw(bytes());
  } else if (t == "pasp") {
    p.rnd(4); p.rnd(4);
  }
  return p.b;
}

// ------------------------------------------------------------------------------------------------- trees
namespace {

const std::vector<const char*>& children_of(const std::string& t) {
  static const std::vector<const char*> none = {};
  static const std::map<std::string, std::vector<const char*>> g = {
      {"", {"ftyp", "styp", "moov", "moov", "moof", "mdat", "mdat", "free", "skip", "sidx", "emsg", "meta", "mfra", "pssh", "????", "????"}},
      {"moov", {"mvhd", "trak", "trak", "trak", "mvex", "udta", "meta", "pssh", "iods", "free", "????"}},
      {"trak", {"tkhd", "edts", "mdia", "mdia", "mdia", "udta", "meta", "free", "????"}},
      {"edts", {"elst"}},
      {"mdia", {"mdhd", "hdlr", "minf", "minf", "minf"}},
      {"minf", {"vmhd", "smhd", "dinf", "stbl", "stbl", "stbl", "hdlr", "????"}},
      {"dinf", {"dref"}},
      {"dref", {"url ", "urn "}},
      {"stbl", {"stsd", "stsd", "stsd", "stts", "ctts", "stss", "stsz", "stsc", "stco", "co64", "sdtp", "sbgp", "sgpd", "free", "????"}},
      {"stsd", {"avc1", "encv", "vp08", "vp09", "vp10", "av01", "mp4a", "mp4a", "enca", "Opus", "????"}},
      {"avc1", {"avcC", "btrt", "colr", "pasp", "fiel", "????"}},
      {"encv", {"avcC", "sinf", "sinf", "btrt"}},
      {"vp08", {"vpcC", "btrt", "fiel"}}, {"vp09", {"vpcC", "btrt", "colr"}}, {"vp10", {"vpcC"}},
      {"av01", {"av1C", "btrt", "fiel", "colr"}},
      {"mp4a", {"esds", "wave", "btrt", "????"}}, {"enca", {"esds", "sinf"}}, {"Opus", {"dOps", "btrt"}},
      {"sinf", {"schi", "????"}}, {"schi", {"????"}},
      {"wave", {"mp4a", "mp4a", "enca", "Opus", "esds", "????"}},
      {"mvex", {"mehd", "trex"}},
      {"moof", {"mfhd", "traf", "traf", "pssh", "meta"}},
      {"traf", {"tfhd", "tfdt", "trun", "trun", "sbgp", "sgpd", "sdtp", "????"}},
      {"mfra", {"tfra", "tfra", "mfro"}},
      {"meta", {"hdlr", "ilst", "ilst", "free", "????"}},
      {"udta", {"meta", "????", "free"}},
      {"ilst", {"\xa9too", "covr", "trkn", "----", "\xa9nam", "tmpo", "desc", "?any"}},
  };
  auto it = g.find(t);
  if (it != g.end()) return it->second;
  static const std::vector<const char*> item = {"data", "data", "????"};
  const int k = kind_of(t.c_str());
  return k >= kind_of("----") ? item : none;
}

void gen_under(Rng& r, const std::string& t, int depth, int max_depth, int* budget, std::vector<Step>* out) {
  const auto& c = children_of(t);
  if (c.empty() || depth > max_depth) return;
  int n = static_cast<int>(depth == 0 ? 1 + r.below(8) : r.chance(1, 7) ? 0 : 1 + r.below(c.size() > 6 ? 8 : 3));
  while (n-- > 0 && *budget > 0) {
    --*budget;
    const char* name = r.pick(c);
    int k = std::strcmp(name, "????") == 0 ? 0 : std::strcmp(name, "?any") == 0 ? kind_of("----") + static_cast<int>(r.below(static_cast<std::uint64_t>(static_cast<int>(kKinds.size()) - kind_of("----")))) : kind_of(name);
    if (r.chance(1, 40)) k = static_cast<int>(r.below(kKinds.size()));  // anything, anywhere
    const int cls = r.chance(1, 10) ? std::min(pick_class(r), 4) : static_cast<int>(r.pick<std::int64_t>({0, 0, 0, 1, 1, 2}));
    out->push_back({"box", {k, depth, r.chance(1, 8) ? 1 : 0, static_cast<std::int64_t>(r.next() >> 40), cls}});
    if (kKinds[static_cast<std::size_t>(k)].container) gen_under(r, kKinds[static_cast<std::size_t>(k)].type, depth + 1, max_depth, budget, out);
  }
}

std::uint64_t measure(Node& n, std::uint64_t off, int depth) {
  n.offset = off;
  n.depth = depth;
  std::uint64_t at = off + (n.hdr == 1 ? 16 : 8) + n.data.size();
  for (auto& k : n.kids) at += measure(k, at, depth + 1);
  n.size = at - off;
  return n.size;
}

void emit(const Node& n, Bytes* o) {
  auto be = [&](std::uint64_t v, int c) { for (int i = c - 1; i >= 0; --i) o->push_back(static_cast<std::uint8_t>(v >> (8 * i))); };
  be(n.hdr == 0 ? n.size : n.hdr == 1 ? 1 : 0, 4);
  o->insert(o->end(), n.type.begin(), n.type.end());
  if (n.hdr == 1) be(n.size, 8);
  o->insert(o->end(), n.data.begin(), n.data.end());
  for (auto& k : n.kids) emit(k, o);
}

}  // namespace

Step large_box(std::uint64_t round, Rng& r) {
  // the kinds whose payload grows with what it lists, those with several forms more often
  static const std::vector<std::pair<int, int>> all = [] {
    std::vector<std::pair<int, int>> v;
    for (int k = 1; k <= kind_of("pasp"); ++k) {
      bool grows = false;
      for (std::uint64_t s = 1; s <= 4; ++s) grows |= box_payload(k, s, 5, 0, false).size() > 5000;
      if (!grows) continue;
      const std::string t(kKinds[static_cast<std::size_t>(k)].type, 4);
      const int times = t == "trun" ? 4 : t == "tfra" ? 3 : t == "stsz" || t == "hdlr" || t == "ctts" || t == "elst" || t == "pssh" ? 2 : 1;
      for (int i = 0; i < times; ++i) v.push_back({k, 0});
      if (t == "sgpd")
        for (int f = 1; f <= 5; ++f) v.push_back({k, f});
    }
    return v;
  }();
  const auto& x = all[round % all.size()];
  return {"box", {x.first, 0, 0, static_cast<std::int64_t>(r.next() >> 24), 5 + 16 * x.second}};
}

void gen_tree(Rng& r, std::vector<Step>* out, int budget, int max_depth) {
  while (budget > 0) {
    gen_under(r, "", 0, max_depth, &budget, out);
    if (r.chance(1, 2)) break;
  }
  if (!out->empty() && r.chance(1, 5)) {
    for (std::size_t i = out->size(); i-- > 0;)
      if ((*out)[i].arg(1) == 0) { (*out)[i].a[2] = 2; break; }
  }
}

void gen_shape(Rng& r, std::vector<Step>* out, int max_depth, bool open_end) {
  auto box = [&](const char* t, int depth, int hdr, int cls) {
    out->push_back({"box", {std::strcmp(t, "????") == 0 ? 0 : kind_of(t), depth, hdr, static_cast<std::int64_t>(r.next() >> 40), cls}});
  };
  static const std::vector<const char*> nest = {"moov", "trak", "mdia", "minf", "stbl", "dinf", "udta", "edts", "schi", "sinf", "mvex", "stsd", "dref", "avc1", "mp4a", "meta"};
  static const std::vector<const char*> leaf = {"free", "????", "btrt", "stss", "mfhd", "stco", "fiel", "skip", "trex", "url "};
  const auto what = r.below(open_end ? 3 : 2);
  if (what == 0) {  // one within the other, as deep as a reader has to follow
    const int deep = static_cast<int>(r.chance(1, 3) ? max_depth - 1 : r.range(10, max_depth - 1));
    for (int d = 0; d < deep; ++d) {
      box(r.pick(nest), d, r.chance(1, 10) ? 1 : 0, static_cast<int>(r.below(2)));
      if (r.chance(1, 12)) {
        box(r.pick(leaf), d + 1, 0, 0);
      }
    }
    box(r.pick(leaf), deep, 0, 1);
    if (r.chance(1, 2)) box(r.pick(leaf), static_cast<int>(r.below(static_cast<std::uint64_t>(deep))), 0, 0);
  } else if (what == 1) {  // more boxes side by side than eight bits can count
    const int depth = static_cast<int>(r.below(3));
    for (int d = 0; d < depth; ++d) box(r.pick(nest), d, 0, 0);
    const auto n = r.pick<std::int64_t>({100, 254, 255, 256, 257, 258, 300, 520});
    const bool same = r.chance(1, 3);
    const char* one = r.pick(leaf);
    for (std::int64_t k = 0; k < n; ++k) box(same ? one : r.pick(leaf), depth, r.chance(1, 50) ? 1 : 0, 0);
    if (depth && r.chance(1, 2)) box(r.pick(leaf), 0, 0, 1);
  } else {  // a long box that runs to the end of the file
    if (r.chance(1, 2)) box("ftyp", 0, 0, 1);
    if (r.chance(1, 3)) box("free", 0, static_cast<int>(r.below(2)), 4);
    box(r.pick<const char*>({"mdat", "????", "free", "stsz", "ctts", "mdat"}), 0, 2, static_cast<int>(r.range(4, 5)));
  }
}

std::vector<Node> build_tree(const std::vector<Step>& steps, bool relaxed) {
  std::vector<Node> roots;
  std::vector<Node*> path;
  std::vector<int> depths;
  // children are appended to vectors that grow, so the path is kept as indices
  std::vector<std::size_t> idx;
  auto at = [&](std::size_t d) -> Node& {
    Node* n = &roots[idx[0]];
    for (std::size_t i = 1; i <= d; ++i) n = &n->kids[idx[i]];
    return *n;
  };
  for (const auto& s : steps) {
    if (s.name != "box") continue;
    Node n;
    n.kind = static_cast<int>(s.arg(0));
    if (n.kind < 0 || n.kind >= static_cast<int>(kKinds.size())) n.kind = 0;
    n.hdr = static_cast<int>(s.arg(2)) % 3;
    n.seed = static_cast<std::uint64_t>(s.arg(3));
    n.cls = static_cast<int>(s.arg(4));
    n.type = kind_type(n.kind, n.seed);
    const int want = static_cast<int>(s.arg(1));
    while (!depths.empty() && depths.back() >= want) { depths.pop_back(); idx.pop_back(); }
    while (!idx.empty()) {
      const Node& p = at(idx.size() - 1);
      if (kKinds[static_cast<std::size_t>(p.kind)].container && !p.under_wave) break;
      depths.pop_back();
      idx.pop_back();
    }
    std::vector<Node>& v = idx.empty() ? roots : at(idx.size() - 1).kids;
    n.under_wave = !idx.empty() && at(idx.size() - 1).type == "wave" && (n.type == "mp4a" || n.type == "enca" || n.type == "Opus");
    v.push_back(std::move(n));
    idx.push_back(v.size() - 1);
    depths.push_back(want);
  }
  std::function<void(Node&, bool)> fin = [&](Node& n, bool last) {
    if (n.hdr == 2 && !last) n.hdr = 0;
    n.data = box_payload(n.kind, n.seed, n.cls, n.kids.size(), relaxed, n.under_wave);
    for (auto& k : n.kids) fin(k, false);
  };
  for (std::size_t i = 0; i < roots.size(); ++i) fin(roots[i], i + 1 == roots.size());
  return roots;
}

Bytes encode_tree(std::vector<Node>& roots) {
  std::uint64_t at = 0;
  for (auto& n : roots) at += measure(n, at, 0);
  Bytes o;
  for (auto& n : roots) emit(n, &o);
  return o;
}

void walk(const std::vector<Node>& roots, const std::function<void(const Node&)>& f) {
  for (const auto& n : roots) {
    f(n);
    walk(n.kids, f);
  }
}

std::string type_text(const std::string& t) {
  bool text = true;
  for (unsigned char c : t) text = text && (c == 0xa9 || (c >= 0x20 && c < 0x7f));
  if (!text) {
    std::string s = "0x";
    for (unsigned char c : t) s += fmt_str("%02x", c);
    return s;
  }
  std::string s;
  for (char c : t) {
    if (static_cast<unsigned char>(c) == 0xa9) s += "\xc2\xa9";
    else s += c;
  }
  return s;
}

std::vector<Line> expected_lines(const std::vector<Node>& roots) {
  std::vector<Line> v;
  walk(roots, [&](const Node& n) { v.push_back({n.depth, type_text(n.type), n.offset, n.size, box_text(n.type, n.data.data(), n.data.size(), n.under_wave)}); });
  return v;
}

bool parse_lines(const std::string& text, std::vector<Line>* out, std::string* bad) {
  std::size_t at = 0;
  while (at < text.size()) {
    auto e = text.find('\n', at);
    if (e == std::string::npos) { *bad = "last line is not ended"; return false; }
    std::string_view l(text.data() + at, e - at);
    at = e + 1;
    Line x;
    std::size_t sp = 0;
    while (sp < l.size() && l[sp] == ' ') ++sp;
    *bad = std::string(l.substr(0, 160));
    if (sp % 2 || sp >= l.size() || l[sp] != '[') return false;
    x.depth = static_cast<int>(sp / 2);
    const auto m = l.find("] Offset=", sp);
    if (m == std::string_view::npos) return false;
    x.type = std::string(l.substr(sp + 1, m - sp - 1));
    const std::string rest(l.substr(m + 9, 60));
    unsigned long long o = 0, s = 0;
    int n = 0;
    if (std::sscanf(rest.c_str(), "%llu Size=%llu%n", &o, &s, &n) != 2 || n == 0) return false;
    if (static_cast<std::size_t>(n) < rest.size() && rest[static_cast<std::size_t>(n)] != ' ') return false;
    x.offset = o;
    x.size = s;
    const std::size_t used = m + 9 + static_cast<std::size_t>(n);
    if (used < l.size()) x.text = std::string(l.substr(used + 1));
    out->push_back(std::move(x));
  }
  bad->clear();
  return true;
}

std::string line_text(const Line& l) {
  return fmt_str("depth %d [%s] Offset=%llu Size=%llu", l.depth, l.type.c_str(), static_cast<unsigned long long>(l.offset), static_cast<unsigned long long>(l.size));
}

void list_boxes(const ByteSource& b, std::uint64_t at, std::uint64_t end, int depth, bool wave, std::vector<Line>* out, std::vector<std::uint64_t>* tops) {
  auto be = [&](std::uint64_t p, int n) { return rd_be(b, p, n); };
  while (at < end) {
    if (end - at < 8) throw Violation("structure", "stray bytes");
    std::uint64_t size = be(at, 4), hd = 8;
    const std::string type = rd_str(b, at + 4, 4);
    if (size == 1) size = be(at + 8, 8), hd = 16;
    if (size == 0) size = end - at;
    if (size < hd || size > end - at) throw Violation("structure", "a box does not fit its container");
    if (depth == 0) tops->push_back(at);
    const bool raw = wave && (type == "mp4a" || type == "enca" || type == "Opus");
    // stored media can be longer than memory: no fields are stated for it then
    const bool big = size - hd > (1u << 20);
    Bytes payload(big ? 0 : static_cast<std::size_t>(size - hd));
    if (!payload.empty() && !b.read(at + hd, payload.size(), payload.data())) throw Violation("structure", "a box cannot be read");
    out->push_back({depth, type_text(type), at, size, big ? std::string() : box_text(type, payload.data(), payload.size(), raw)});
    const int k = kind_of(type.c_str());
    if (k > 0 && box_kinds()[static_cast<std::size_t>(k)].container && !raw) {
      std::uint64_t pre = type == "meta" ? 4 : type == "stsd" || type == "dref" ? 8 : 0;
      for (auto* v : {"avc1", "encv", "vp08", "vp09", "vp10", "av01"})
        if (type == v) pre = 78;
      for (auto* v : {"mp4a", "enca", "Opus"})
        if (type == v) {
          const auto ver = type == "Opus" ? 0 : be(at + hd + 8, 2);
          pre = size - hd == 28 ? 28 : ver == 1 ? 44 : ver == 2 ? 64 : 28;
        }
      list_boxes(b, at + hd + pre, at + size, depth + 1, type == "wave", out, tops);
    }
    at += size;
  }
}

}  // namespace sim
