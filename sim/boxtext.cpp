// What the reader prints for the fields of a box, decoded from the stored bytes by the rules of ISO/IEC 14496-12 (and of the
// codec bindings), without the library.
#include "bits.hpp"
#include "boxes.hpp"

#include <cctype>
#include <cmath>
#include <map>
#include <set>
#include <stdexcept>

namespace sim {

namespace {

std::string dec(std::uint64_t v) { return std::to_string(v); }
std::string sdec(std::int64_t v) { return std::to_string(v); }
std::string hex(std::uint64_t v) { return fmt_str("0x%llx", static_cast<unsigned long long>(v)); }
std::string shex(std::int64_t v) { return v < 0 ? "-" + hex(~static_cast<std::uint64_t>(v) + 1) : hex(static_cast<std::uint64_t>(v)); }
const char* tf(std::uint64_t v) { return v ? "true" : "false"; }
std::string fixed(double v, int d) { return fmt_str("%.*f", d, v); }

template <class F>
std::string list(std::uint64_t n, F f, const char* sep = ", ") {
  std::string o;
  for (std::uint64_t i = 0; i < n; ++i) {
    if (i) o += sep;
    o += f();
  }
  return o;
}
std::string hexes(Cur& c, std::size_t n) { return list(n, [&] { return hex(c.u(8)); }); }
std::string rest(Cur& c) { return "[" + hexes(c, c.left()) + "]"; }
std::string hexrun(Cur& c, std::size_t n) { return list(n, [&] { return fmt_str("%02x", static_cast<unsigned>(c.u(8))); }, ""); }

// proleptic Gregorian date of a count of seconds since 1904-01-01T00:00:00Z; instants beyond 32 bits of Unix time are not shown
std::string when(std::uint64_t t) {
  constexpr std::uint64_t k1970 = 2082844800ULL;
  if (t > k1970 + 0xffffffffULL) return "0000-00-00T00:00:00Z";
  std::uint64_t days = t / 86400, sec = t % 86400;
  unsigned y = 1904;
  auto leap = [](unsigned x) { return (x % 4 == 0 && x % 100 != 0) || x % 400 == 0; };
  for (;;) {
    const unsigned len = leap(y) ? 366 : 365;
    if (days < len) break;
    days -= len;
    ++y;
  }
  static const unsigned ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  unsigned m = 0;
  for (;; ++m) {
    const unsigned len = ml[m] + (m == 1 && leap(y));
    if (days < len) break;
    days -= len;
  }
  return fmt_str("%04u-%02u-%02uT%02u:%02u:%02uZ", y, m + 1, static_cast<unsigned>(days) + 1, static_cast<unsigned>(sec / 3600), static_cast<unsigned>(sec / 60 % 60), static_cast<unsigned>(sec % 60));
}

struct Head {
  unsigned version;
  std::uint32_t flags;
  std::string text;
};
Head full(Cur& c) {
  Head h;
  h.version = static_cast<unsigned>(c.u(8));
  h.flags = static_cast<std::uint32_t>(c.u(24));
  h.text = fmt_str("Version=%u Flags=0x%06x", h.version, h.flags);
  return h;
}

std::string descriptors(Cur& c) {
  std::vector<std::string> v;
  while (c.left()) {
    const auto tag = c.u(8);
    if (tag == 3) {
      const auto with = c.len();
      const auto id = c.u(16), dep = c.u(1), url = c.u(1), ocr = c.u(1), prio = c.u(5);
      std::string tail;
      std::uint64_t own = 3;
      if (dep) tail += " DependsOnESID=" + dec(c.u(16)), own += 2;
      if (url) {
        const auto n = c.u(8);
        own += 1 + n;
        tail += " URLLength=" + hex(n) + " URLString=\"" + c.bytes(n) + "\"";
      }
      if (ocr) tail += " OCRESID=" + dec(c.u(16)), own += 2;
      v.push_back("{Tag=ESDescr DataSize=" + dec(own) + " DataSizeWithSubDescriptors=" + dec(with) + " ESID=" + dec(id) + " StreamDependenceFlag=" + tf(dep) + " UrlFlag=" + tf(url) + " OcrStreamFlag=" + tf(ocr) + " StreamPriority=" + dec(prio) + tail + "}");
    } else if (tag == 4) {
      const auto with = c.len();
      std::string s = "{Tag=DecoderConfigDescr DataSize=13 DataSizeWithSubDescriptors=" + dec(with);
      s += " ObjectTypeIndication=" + hex(c.u(8));
      s += " StreamType=" + dec(c.u(6));
      s += std::string(" UpStream=") + tf(c.u(1));
      s += std::string(" Reserved=") + tf(c.u(1));
      s += " BufferSizeDB=" + dec(c.u(24));
      s += " MaxBitrate=" + dec(c.u(32));
      s += " AvgBitrate=" + dec(c.u(32));
      v.push_back(s + "}");
    } else if (tag == 5 || tag == 6) {
      const auto n = c.len();
      v.push_back(std::string("{Tag=") + (tag == 5 ? "DecSpecificInfo" : "SLConfigDescr") + " DataSize=" + dec(n) + " Data=[" + hexes(c, n) + "]}");
    } else {
      break;
    }
  }
  return list(v.size(), [&, i = std::size_t(0)]() mutable { return v[i++]; });
}

std::string decode(const std::string& t, Cur& c, bool under_wave) {
  auto F = [](const char* k, const std::string& v) { return std::string(" ") + k + "=" + v; };
  auto nul = [&](unsigned version) { return version ? 64 : 32; };
  if (under_wave) return "QuickTimeData=" + rest(c);
  if (t == "free" || t == "skip" || t == "mdat") return "Data=" + rest(c);
  if (t == "btrt") {
    std::string s = "DecodingBufferSize=" + dec(c.u(32));
    s += F("MaxBitrate", dec(c.u(32)));
    return s + F("AvgBitrate", dec(c.u(32)));
  }
  if (t == "co64" || t == "stco") {
    const auto h = full(c);
    const auto n = c.u(32);
    return h.text + F("EntryCount", dec(n)) + F("ChunkOffsets", "[" + list(n, [&] { return hex(c.u(t == "co64" ? 64 : 32)); }) + "]");
  }
  if (t == "stss") {
    const auto h = full(c);
    const auto n = c.u(32);
    return h.text + F("EntryCount", dec(n)) + F("SampleNumbers", "[" + list(n, [&] { return dec(c.u(32)); }) + "]");
  }
  if (t == "colr") {
    const auto ty = c.bytes(4);
    std::string s = "ColourType=\"" + ty + "\"";
    if (ty == "nclx") {
      s += F("ColourPrimaries", dec(c.u(16)));
      s += F("TransferCharacteristics", dec(c.u(16)));
      s += F("MatrixCoefficients", dec(c.u(16)));
      return s + F("FullRangeFlag", tf(c.u(1)));
    }
    return s + F(ty == "rICC" || ty == "prof" ? "Profile" : "Unknown", rest(c));
  }
  if (t == "ctts" || t == "stts") {
    const auto h = full(c);
    const auto n = c.u(32);
    return h.text + F("EntryCount", dec(n)) + F("Entries", "[" + list(n, [&] {
             const auto k = c.u(32);
             return "{SampleCount=" + dec(k) + (t == "ctts" ? F("SampleOffset", sdec(c.s(32))) : F("SampleDuration", dec(c.u(32)))) + "}";
           }) + "]");
  }
  if (t == "data") {
    static const std::map<std::uint64_t, const char*> names = {{0, "BINARY"}, {1, "UTF8"}, {2, "UTF16"}, {3, "MAC_STR"}, {14, "JPEG"}, {21, "INT"}, {22, "FLOAT32"}, {23, "FLOAT64"}};
    const auto ty = c.u(32);
    const auto it = names.find(ty);
    std::string s = std::string("DataType=") + (it == names.end() ? "" : it->second) + F("DataLang", dec(c.u(32)));
    if (ty != 1) return s + F("Data", rest(c));
    std::string d = c.bytes(c.left());
    for (auto& ch : d)
      if (static_cast<unsigned char>(ch) < 0x20 || static_cast<unsigned char>(ch) > 0x7e) ch = '.';
    return s + F("Data", "\"" + d + "\"");
  }
  if (t == "dOps") {
    std::string s = "Version=" + dec(c.u(8));
    const auto ch = c.u(8);
    s += F("OutputChannelCount", dec(ch));
    s += F("PreSkip", dec(c.u(16)));
    s += F("InputSampleRate", dec(c.u(32)));
    s += F("OutputGain", sdec(c.s(16)));
    const auto fam = c.u(8);
    s += F("ChannelMappingFamily", dec(fam));
    if (!fam) return s;
    s += F("StreamCount", dec(c.u(8)));
    s += F("CoupledCount", dec(c.u(8)));
    return s + F("ChannelMapping", "[" + list(ch, [&] { return dec(c.u(8)); }) + "]");
  }
  if (t == "dref" || t == "stsd") {
    const auto h = full(c);
    return h.text + F("EntryCount", dec(c.u(32)));
  }
  if (t == "elst") {
    const auto h = full(c);
    const auto n = c.u(32);
    const int w = nul(h.version);
    return h.text + F("EntryCount", dec(n)) + F("Entries", "[" + list(n, [&] {
             std::string s = "{TrackDuration=" + dec(c.u(w));
             s += F("MediaTime", sdec(c.s(w)));
             return s + F("MediaRate", fixed(static_cast<double>(c.s(32)) / 65536.0, 4)) + "}";
           }) + "]");
  }
  if (t == "emsg") {
    const auto h = full(c);
    std::string uri, val, ts, pt, du, id;
    if (h.version == 0) uri = c.cstr(), val = c.cstr(), ts = dec(c.u(32)), pt = dec(c.u(32)), du = dec(c.u(32)), id = dec(c.u(32));
    else ts = dec(c.u(32)), pt = dec(c.u(64)), du = dec(c.u(32)), id = dec(c.u(32)), uri = c.cstr(), val = c.cstr();
    return h.text + F("SchemeIdUri", "\"" + uri + "\"") + F("Value", "\"" + val + "\"") + F("Timescale", ts) + F(h.version ? "PresentationTime" : "PresentationTimeDelta", pt) + F("EventDuration", du) + F("Id", id) + F("MessageData", "\"" + c.bytes(c.left()) + "\"");
  }
  if (t == "esds") {
    const auto h = full(c);
    return h.text + F("Descriptors", "[" + descriptors(c) + "]");
  }
  if (t == "fiel") {
    std::string s = "FieldCount=" + dec(c.u(8));
    return s + F("FieldOrdering", dec(c.u(8)));
  }
  if (t == "ftyp" || t == "styp") {
    std::string s = "MajorBrand=\"" + c.bytes(4) + "\"";
    s += F("MinorVersion", dec(c.u(32)));
    return s + F("CompatibleBrands", "[" + list(c.left() / 4, [&] { return "{CompatibleBrand=\"" + c.bytes(4) + "\"}"; }) + "]");
  }
  if (t == "hdlr") {
    const auto h = full(c);
    const auto pre = c.u(32);
    const auto ty = c.bytes(4);
    c.bytes(12);
    const bool counted = pre && c.left() >= 2 && c.p[c.bit / 8] == c.left() - 1;
    const auto name = counted ? c.bytes(c.u(8)) : c.cstr();
    return h.text + F("PreDefined", dec(pre)) + F("HandlerType", "\"" + ty + "\"") + F("Name", "\"" + name + "\"");
  }
  if (t == "iods") {
    const auto h = full(c);
    const auto tag = c.u(8);
    c.len();
    std::string s = h.text + F("TypeTag", hex(tag));
    s += F("ODID", dec(c.u(16)));
    for (auto* k : {"ODProfileLevel", "SceneProfileLevel", "AudioProfileLevel", "VideoProfileLevel", "GraphicsProfileLevel"}) s += F(k, hex(c.u(8)));
    return s;
  }
  if (t == "mdhd") {
    const auto h = full(c);
    const int w = nul(h.version);
    std::string s = h.text + F("CreationTime", "\"" + when(c.u(w)) + "\"");
    s += F("ModificationTime", "\"" + when(c.u(w)) + "\"");
    s += F("Timescale", dec(c.u(32)));
    s += F("Duration", dec(c.u(w)));
    s += F("Pad", tf(c.u(1)));
    std::string l;
    for (int i = 0; i < 3; ++i) l += static_cast<char>(0x60 + c.u(5));
    s += F("Language", "\"" + l + "\"");
    return s + F("PreDefined", dec(c.u(16)));
  }
  if (t == "mehd") {
    const auto h = full(c);
    return h.text + F("FragmentDuration", dec(c.u(nul(h.version))));
  }
  if (t == "meta") return full(c).text;
  if (t == "mfhd") { const auto h = full(c); return h.text + F("SequenceNumber", dec(c.u(32))); }
  if (t == "mfro") { const auto h = full(c); return h.text + F("Size", dec(c.u(32))); }
  if (t == "mvhd") {
    const auto h = full(c);
    const int w = nul(h.version);
    std::string s = h.text + F("CreationTime", "\"" + when(c.u(w)) + "\"");
    s += F("ModificationTime", "\"" + when(c.u(w)) + "\"");
    s += F("Timescale", dec(c.u(32)));
    s += F("Duration", dec(c.u(w)));
    s += F("Rate", fixed(static_cast<double>(c.s(32)) / 65536.0, 4));
    s += F("Volume", sdec(c.s(16)));
    c.bytes(10);
    s += F("Matrix", "[" + list(9, [&] { return shex(c.s(32)); }) + "]");
    s += F("PreDefined", "[" + list(6, [&] { return sdec(c.s(32)); }) + "]");
    return s + F("NextTrackID", dec(c.u(32)));
  }
  if (t == "pssh") {
    const auto h = full(c);
    std::string s = h.text + F("SystemID", "\"" + hexrun(c, 16) + "\"");
    if (h.version) {
      const auto n = c.u(32);
      s += F("KIDCount", dec(n));
      s += F("KIDs", "[" + list(n, [&] { return "\"" + hexrun(c, 16) + "\""; }, " ") + "]");
    }
    const auto n = c.u(32);
    return s + F("DataSize", dec(n)) + F("Data", "[" + hexes(c, n) + "]");
  }
  if (t == "sbgp") {
    const auto h = full(c);
    std::string s = h.text + F("GroupingType", "\"" + c.bytes(4) + "\"");
    if (h.version) s += F("GroupingTypeParameter", dec(c.u(32)));
    const auto n = c.u(32);
    return s + F("EntryCount", dec(n)) + F("Entries", "[" + list(n, [&] {
             const auto k = c.u(32);
             return "{SampleCount=" + dec(k) + F("GroupDescriptionIndex", dec(c.u(32))) + "}";
           }) + "]");
  }
  if (t == "sdtp") {
    const auto h = full(c);
    return h.text + F("Samples", "[" + list(c.left(), [&] {
             std::string s = "{IsLeading=" + hex(c.u(2));
             s += F("SampleDependsOn", hex(c.u(2)));
             s += F("SampleIsDependedOn", hex(c.u(2)));
             return s + F("SampleHasRedundancy", hex(c.u(2))) + "}";
           }) + "]");
  }
  if (t == "sgpd") {
    const auto h = full(c);
    const auto g = c.bytes(4);
    const auto def = c.u(32);
    std::string s = h.text + F("GroupingType", "\"" + g + "\"") + F(h.version == 1 ? "DefaultLength" : "DefaultSampleDescriptionIndex", dec(def));
    const bool each = h.version == 1 && def == 0;
    const auto n = c.u(32);
    const char* name = g == "roll" || g == "prol" ? "RollDistances" : g == "alst" ? "AlternativeStartupEntries" : g == "rap " ? "VisualRandomAccessEntries" : "TemporalLevelEntries";
    s += F("EntryCount", dec(n));
    s += F((std::string(name) + (each ? "L" : "")).c_str(), "[" + list(n, [&] {
             std::string len;
             std::uint64_t own = def;
             if (each) own = c.u(32), len = "DescriptionLength=" + dec(own);
             if (g == "roll" || g == "prol") {
               const auto v = sdec(c.s(16));
               return each ? "{" + len + F("RollDistance", v) + "}" : v;
             }
             std::string e = "{" + (each ? len + " " : std::string());
             if (g == "alst") {
               const auto rc = c.u(16);
               e += "RollCount=" + dec(rc);
               e += F("FirstOutputSample", dec(c.u(16)));
               e += F("SampleOffset", "[" + list(rc, [&] { return dec(c.u(32)); }) + "]");
               e += F("Opts", "[" + list((own - 4 - 4 * rc) / 4, [&] {
                        const auto a = c.u(16);
                        return "{NumOutputSamples=" + dec(a) + F("NumTotalSamples", dec(c.u(16))) + "}";
                      }) + "]");
               return e + "}";
             }
             if (g == "rap ") {
               e += std::string("NumLeadingSamplesKnown=") + tf(c.u(1));
               return e + F("NumLeadingSamples", hex(c.u(7))) + "}";
             }
             e += std::string("LevelIndependentlyRecodable=") + tf(c.u(1));
             c.u(7);
             return e + "}";
           }) + "]");
    return s;
  }
  if (t == "sidx") {
    const auto h = full(c);
    const int w = nul(h.version);
    std::string s = h.text + F("ReferenceID", dec(c.u(32)));
    s += F("Timescale", dec(c.u(32)));
    s += F("EarliestPresentationTime", dec(c.u(w)));
    s += F("FirstOffset", dec(c.u(w)));
    c.u(16);
    const auto n = c.u(16);
    return s + F("ReferenceCount", dec(n)) + F("References", "[" + list(n, [&] {
             std::string e = std::string("{ReferenceType=") + tf(c.u(1));
             e += F("ReferencedSize", dec(c.u(31)));
             e += F("SubsegmentDuration", dec(c.u(32)));
             e += F("StartsWithSAP", tf(c.u(1)));
             e += F("SAPType", dec(c.u(3)));
             return e + F("SAPDeltaTime", dec(c.u(28))) + "}";
           }) + "]");
  }
  if (t == "smhd") {
    const auto h = full(c);
    return h.text + F("Balance", fixed(static_cast<double>(c.s(16)) / 256.0, 2));
  }
  if (t == "stsc") {
    const auto h = full(c);
    const auto n = c.u(32);
    return h.text + F("EntryCount", dec(n)) + F("Entries", "[" + list(n, [&] {
             std::string e = "{FirstChunk=" + dec(c.u(32));
             e += F("SamplesPerChunk", dec(c.u(32)));
             return e + F("SampleDescriptionIndex", dec(c.u(32))) + "}";
           }) + "]");
  }
  if (t == "stsz") {
    const auto h = full(c);
    const auto each = c.u(32), n = c.u(32);
    return h.text + F("SampleSize", dec(each)) + F("SampleCount", dec(n)) + F("EntrySizes", "[" + (each ? "" : list(n, [&] { return dec(c.u(32)); })) + "]");
  }
  if (t == "tfdt") { const auto h = full(c); return h.text + F("BaseMediaDecodeTime", dec(c.u(nul(h.version)))); }
  if (t == "tfhd") {
    const auto h = full(c);
    std::string s = h.text + F("TrackID", dec(c.u(32)));
    if (h.flags & 1) s += F("BaseDataOffset", dec(c.u(64)));
    if (h.flags & 2) s += F("SampleDescriptionIndex", dec(c.u(32)));
    if (h.flags & 8) s += F("DefaultSampleDuration", dec(c.u(32)));
    if (h.flags & 0x10) s += F("DefaultSampleSize", dec(c.u(32)));
    if (h.flags & 0x20) s += F("DefaultSampleFlags", hex(c.u(32)));
    return s;
  }
  if (t == "tfra") {
    const auto h = full(c);
    const int w = nul(h.version);
    std::string s = h.text + F("TrackID", dec(c.u(32)));
    c.u(26);
    const auto a = c.u(2), b = c.u(2), d = c.u(2), n = c.u(32);
    s += F("LengthSizeOfTrafNum", hex(a)) + F("LengthSizeOfTrunNum", hex(b)) + F("LengthSizeOfSampleNum", hex(d)) + F("NumberOfEntry", dec(n));
    return s + F("Entries", "[" + list(n, [&] {
             std::string e = "{Time=" + dec(c.u(w));
             e += F("MoofOffset", dec(c.u(w)));
             e += F("TrafNumber", dec(c.u(static_cast<int>(8 * (a + 1)))));
             e += F("TrunNumber", dec(c.u(static_cast<int>(8 * (b + 1)))));
             return e + F("SampleNumber", dec(c.u(static_cast<int>(8 * (d + 1))))) + "}";
           }) + "]");
  }
  if (t == "tkhd") {
    const auto h = full(c);
    const int w = nul(h.version);
    std::string s = h.text + F("CreationTime", "\"" + when(c.u(w)) + "\"");
    s += F("ModificationTime", "\"" + when(c.u(w)) + "\"");
    s += F("TrackID", dec(c.u(32)));
    c.u(32);
    s += F("Duration", dec(c.u(w)));
    c.u(64);
    s += F("Layer", sdec(c.s(16)));
    s += F("AlternateGroup", sdec(c.s(16)));
    s += F("Volume", sdec(c.s(16)));
    c.u(16);
    s += F("Matrix", "[" + list(9, [&] { return shex(c.s(32)); }) + "]");
    s += F("Width", fixed(static_cast<double>(c.u(32)) / 65536.0, 4));
    return s + F("Height", fixed(static_cast<double>(c.u(32)) / 65536.0, 4));
  }
  if (t == "trex") {
    const auto h = full(c);
    std::string s = h.text + F("TrackID", dec(c.u(32)));
    s += F("DefaultSampleDescriptionIndex", dec(c.u(32)));
    s += F("DefaultSampleDuration", dec(c.u(32)));
    s += F("DefaultSampleSize", dec(c.u(32)));
    return s + F("DefaultSampleFlags", hex(c.u(32)));
  }
  if (t == "trun") {
    const auto h = full(c);
    const auto n = c.u(32);
    std::string s = h.text + F("SampleCount", dec(n));
    if (h.flags & 1) s += F("DataOffset", sdec(c.s(32)));
    if (h.flags & 4) s += F("FirstSampleFlags", hex(c.u(32)));
    // without per-sample fields there is nothing to list
    return s + F("Entries", "[" + list((h.flags & 0xf00) ? n : 0, [&] {
             std::string e;
             auto add = [&](const std::string& x) { e += (e.empty() ? "" : " ") + x; };
             if (h.flags & 0x100) add("SampleDuration=" + dec(c.u(32)));
             if (h.flags & 0x200) add("SampleSize=" + dec(c.u(32)));
             if (h.flags & 0x400) add("SampleFlags=" + hex(c.u(32)));
             if (h.flags & 0x800) add("SampleCompositionTimeOffset=" + sdec(c.s(32)));
             return "{" + e + "}";
           }) + "]");
  }
  if (t == "vmhd") {
    const auto h = full(c);
    std::string s = h.text + F("Graphicsmode", dec(c.u(16)));
    return s + F("Opcolor", "[" + list(3, [&] { return dec(c.u(16)); }) + "]");
  }
  if (t == "url ") {
    const auto h = full(c);
    return h.flags & 1 ? h.text : h.text + F("Location", "\"" + c.cstr() + "\"");
  }
  if (t == "urn ") {
    const auto h = full(c);
    if (h.flags & 1) return h.text;
    std::string s = h.text + F("Name", "\"" + c.cstr() + "\"");
    return s + F("Location", "\"" + c.cstr() + "\"");
  }
  if (t == "avc1" || t == "encv" || t == "vp08" || t == "vp09" || t == "vp10" || t == "av01") {
    c.bytes(6);
    std::string s = "DataReferenceIndex=" + dec(c.u(16));
    s += F("PreDefined", dec(c.u(16)));
    c.u(16);
    s += F("PreDefined2", "[" + list(3, [&] { return dec(c.u(32)); }) + "]");
    s += F("Width", dec(c.u(16)));
    s += F("Height", dec(c.u(16)));
    s += F("Horizresolution", dec(c.u(32)));
    s += F("Vertresolution", dec(c.u(32)));
    c.u(32);
    s += F("FrameCount", dec(c.u(16)));
    const auto n = c.u(8);
    s += F("Compressorname", "\"" + c.bytes(31).substr(0, n) + "\"");
    s += F("Depth", dec(c.u(16)));
    return s + F("PreDefined3", sdec(c.s(16)));
  }
  if (t == "mp4a" || t == "enca" || t == "Opus") {
    c.bytes(6);
    std::string s = "DataReferenceIndex=" + dec(c.u(16));
    const auto v = c.u(16);
    s += F("EntryVersion", dec(v));
    c.bytes(6);
    s += F("ChannelCount", dec(c.u(16)));
    s += F("SampleSize", dec(c.u(16)));
    s += F("PreDefined", dec(c.u(16)));
    c.u(16);
    s += F("SampleRate", dec(c.u(32)));
    if (t != "Opus" && (v == 1 || v == 2) && c.left()) s += F("QuickTimeData", "[" + hexes(c, v == 1 ? 16 : 36) + "]");
    return s;
  }
  if (t == "avcC") {
    auto sets = [&](std::uint64_t n) {
      return "[" + list(n, [&] {
               const auto m = c.u(16);
               return "{Length=" + dec(m) + F("NALUnit", "[" + hexes(c, m) + "]") + "}";
             }) + "]";
    };
    std::string s = "ConfigurationVersion=" + hex(c.u(8));
    const auto prof = c.u(8);
    s += F("Profile", hex(prof));
    s += F("ProfileCompatibility", hex(c.u(8)));
    s += F("Level", hex(c.u(8)));
    c.u(6);
    s += F("LengthSizeMinusOne", hex(c.u(2)));
    c.u(3);
    auto n = c.u(5);
    s += F("NumOfSequenceParameterSets", hex(n));
    s += F("SequenceParameterSets", sets(n));
    n = c.u(8);
    s += F("NumOfPictureParameterSets", hex(n));
    s += F("PictureParameterSets", sets(n));
    static const std::set<std::uint64_t> high{86, 100, 110, 118, 122, 128, 138, 144, 244};
    if (!high.count(prof) || c.left() < 4) return s;
    c.u(6);
    s += F("ChromaFormat", hex(c.u(2)));
    c.u(5);
    s += F("BitDepthLumaMinus8", hex(c.u(3)));
    c.u(5);
    s += F("BitDepthChromaMinus8", hex(c.u(3)));
    n = c.u(8);
    s += F("NumOfSequenceParameterSetExt", hex(n));
    return s + F("SequenceParameterSetsExt", sets(n));
  }
  if (t == "vpcC") {
    const auto h = full(c);
    std::string s = h.text + F("Profile", dec(c.u(8)));
    s += F("Level", dec(c.u(8)));
    s += F("BitDepth", dec(c.u(4)));
    s += F("ChromaSubSampling", dec(c.u(3)));
    s += F("VideoFullRangeFlag", dec(c.u(1)));
    s += F("ColourPrimaries", dec(c.u(8)));
    s += F("TransferCharacteristics", dec(c.u(8)));
    s += F("MatrixCoefficients", dec(c.u(8)));
    return s + F("CodecInitializationData", "[" + (h.version ? hexes(c, c.u(16)) : std::string()) + "]");
  }
  if (t == "av1C") {
    std::string s = "Marker=" + dec(c.u(1));
    s += F("Version", dec(c.u(7)));
    s += F("SeqProfile", dec(c.u(3)));
    s += F("SeqLevelIdx0", dec(c.u(5)));
    s += F("SeqTier0", dec(c.u(1)));
    s += F("HighBitdepth", tf(c.u(1)));
    s += F("TwelveBit", tf(c.u(1)));
    s += F("Monochrome", tf(c.u(1)));
    s += F("ChromaSubsamplingX", dec(c.u(1)));
    s += F("ChromaSubsamplingY", dec(c.u(1)));
    s += F("ChromaSamplePosition", dec(c.u(2)));
    c.u(3);
    const auto present = c.u(1), delay = c.u(4);
    s += F("InitialPresentationDelayPresent", tf(present));
    if (present) s += F("InitialPresentationDelayMinusOne", dec(delay));
    return s + F("ConfigOBUs", rest(c));
  }
  if (t == "pasp") {
    std::string s = "HSpacing=" + dec(c.u(32));
    return s + F("VSpacing", dec(c.u(32)));
  }
  const int k = kind_of(t.c_str());
  if (k < 0) return "(unsupported) Data=" + rest(c);
  return "";   // containers without fields of their own
}

}  // namespace

std::string box_text(const std::string& type, const std::uint8_t* payload, std::size_t n, bool under_wave) {
  Cur c{payload, n};
  try {
    return decode(type, c, under_wave);
  } catch (const Short&) {
    throw std::runtime_error("box_text: payload of " + type_text(type) + " is too short");
  }
}

}  // namespace sim
