// Boxes built through the library's parameter constructors, from field values taken from stored bytes without the library.
#include "boxbuild.hpp"

#include <memory>
#include <stdexcept>

#include "bits.hpp"

#include "shiguredo/mp4/box/av1c.hpp"
#include "shiguredo/mp4/box/avc.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/btrt.hpp"
#include "shiguredo/mp4/box/co64.hpp"
#include "shiguredo/mp4/box/colr.hpp"
#include "shiguredo/mp4/box/ctts.hpp"
#include "shiguredo/mp4/box/dOps.hpp"
#include "shiguredo/mp4/box/data.hpp"
#include "shiguredo/mp4/box/dinf.hpp"
#include "shiguredo/mp4/box/dref.hpp"
#include "shiguredo/mp4/box/edts.hpp"
#include "shiguredo/mp4/box/elst.hpp"
#include "shiguredo/mp4/box/emsg.hpp"
#include "shiguredo/mp4/box/esds.hpp"
#include "shiguredo/mp4/box/fiel.hpp"
#include "shiguredo/mp4/box/free.hpp"
#include "shiguredo/mp4/box/ftyp.hpp"
#include "shiguredo/mp4/box/hdlr.hpp"
#include "shiguredo/mp4/box/ilst.hpp"
#include "shiguredo/mp4/box/iods.hpp"
#include "shiguredo/mp4/box/mdat.hpp"
#include "shiguredo/mp4/box/mdhd.hpp"
#include "shiguredo/mp4/box/mdia.hpp"
#include "shiguredo/mp4/box/mehd.hpp"
#include "shiguredo/mp4/box/meta.hpp"
#include "shiguredo/mp4/box/mfhd.hpp"
#include "shiguredo/mp4/box/mfra.hpp"
#include "shiguredo/mp4/box/mfro.hpp"
#include "shiguredo/mp4/box/minf.hpp"
#include "shiguredo/mp4/box/moof.hpp"
#include "shiguredo/mp4/box/moov.hpp"
#include "shiguredo/mp4/box/mvex.hpp"
#include "shiguredo/mp4/box/mvhd.hpp"
#include "shiguredo/mp4/box/pixel_aspect_ratio.hpp"
#include "shiguredo/mp4/box/pssh.hpp"
#include "shiguredo/mp4/box/sample_entry.hpp"
#include "shiguredo/mp4/box/sbgp.hpp"
#include "shiguredo/mp4/box/schi.hpp"
#include "shiguredo/mp4/box/sdtp.hpp"
#include "shiguredo/mp4/box/sgpd.hpp"
#include "shiguredo/mp4/box/sidx.hpp"
#include "shiguredo/mp4/box/sinf.hpp"
#include "shiguredo/mp4/box/skip.hpp"
#include "shiguredo/mp4/box/smhd.hpp"
#include "shiguredo/mp4/box/stbl.hpp"
#include "shiguredo/mp4/box/stco.hpp"
#include "shiguredo/mp4/box/stsc.hpp"
#include "shiguredo/mp4/box/stsd.hpp"
#include "shiguredo/mp4/box/stss.hpp"
#include "shiguredo/mp4/box/stsz.hpp"
#include "shiguredo/mp4/box/stts.hpp"
#include "shiguredo/mp4/box/styp.hpp"
#include "shiguredo/mp4/box/tfdt.hpp"
#include "shiguredo/mp4/box/tfhd.hpp"
#include "shiguredo/mp4/box/tfra.hpp"
#include "shiguredo/mp4/box/tkhd.hpp"
#include "shiguredo/mp4/box/traf.hpp"
#include "shiguredo/mp4/box/trak.hpp"
#include "shiguredo/mp4/box/trex.hpp"
#include "shiguredo/mp4/box/trun.hpp"
#include "shiguredo/mp4/box/udta.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box/url.hpp"
#include "shiguredo/mp4/box/urn.hpp"
#include "shiguredo/mp4/box/vmhd.hpp"
#include "shiguredo/mp4/box/vpc.hpp"
#include "shiguredo/mp4/box/wave.hpp"
#include "shiguredo/mp4/box_types.hpp"

namespace sim {

namespace {

namespace mp4 = shiguredo::mp4;
namespace b = shiguredo::mp4::box;

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

struct In : Cur {
  In(const Bytes& d) : Cur{d.data(), d.size()} {}
  u8 b8() { return static_cast<u8>(u(8)); }
  u16 b16() { return static_cast<u16>(u(16)); }
  u32 b32() { return static_cast<u32>(u(32)); }
  u64 b64() { return u(64); }
  bool flag() { return u(1) != 0; }
  Bytes raw(std::size_t c) {
    Bytes o;
    o.reserve(c);
    while (c--) o.push_back(b8());
    return o;
  }
  Bytes all() { return raw(left()); }
  template <std::size_t N>
  std::array<u8, N> arr() {
    std::array<u8, N> a{};
    for (auto& x : a) x = b8();
    return a;
  }
};

void zero(Bytes& d, std::size_t at, std::size_t n) {
  for (std::size_t i = at; i < at + n && i < d.size(); ++i) d[i] = 0;
}

}  // namespace

void canonical(const Node& n, Bytes& d) {
  const auto& t = n.type;
  if (n.under_wave || d.empty()) return;
  const bool v1 = d[0] != 0;
  if (t == "colr" && std::string(d.begin(), d.begin() + 4) == "nclx") d[10] &= 0x80;
  else if (t == "hdlr") zero(d, 12, 12);
  else if (t == "mvhd") zero(d, (v1 ? 32 : 20) + 6, 10);
  else if (t == "sidx") zero(d, v1 ? 28 : 20, 2);
  else if (t == "smhd") zero(d, 6, 2);
  else if (t == "tfra") zero(d, 8, 3), d[11] &= 0x3f;
  else if (t == "tkhd") zero(d, v1 ? 24 : 16, 4), zero(d, v1 ? 36 : 24, 8), zero(d, v1 ? 50 : 38, 2);
  else if (t == "avc1" || t == "encv" || t == "vp08" || t == "vp09" || t == "vp10" || t == "av01") zero(d, 0, 6), zero(d, 10, 2), zero(d, 36, 4);
  else if (t == "mp4a" || t == "enca" || t == "Opus") zero(d, 0, 6), zero(d, 10, 6), zero(d, 22, 2);
  else if (t == "sgpd" && std::string(d.begin() + 4, d.begin() + 8) == "tele") {
    const bool each = d[0] == 1 && d[8] == 0 && d[9] == 0 && d[10] == 0 && d[11] == 0;
    for (std::size_t i = each ? 20 : 16; i < d.size(); i += each ? 5 : 1) d[i] &= 0x80;
  } else if (t == "av1C") {
    d[3] &= 0x1f;
    if (!(d[3] & 0x10)) d[3] = 0;
  } else if (t == "avcC") {
    d[4] |= 0xfc;
    d[5] |= 0xe0;
    In c(d);
    c.skip(40);
    c.u(3);
    for (auto k = c.u(5); k--;) c.raw(c.b16());
    for (auto k = c.u(8); k--;) c.raw(c.b16());
    if (c.left()) {
      const std::size_t at = d.size() - c.left();
      d[at] |= 0xfc;
      d[at + 1] |= 0xf8;
      d[at + 2] |= 0xf8;
    }
  } else if (t == "stsz") {
    if (d[4] || d[5] || d[6] || d[7]) zero(d, 8, 2);   // the count comes from a list the caller holds
  }
}

mp4::Box* build_box(const Node& n, const Bytes& d, std::uint64_t choice, bool* understated) {
  const auto& t = n.type;
  In c(d);
  struct H { u8 v; u32 f; u8 lay; };
  auto full = [&] { H h; h.lay = c.b8(); h.v = understated ? 0 : h.lay; h.f = static_cast<u32>(c.u(24)); return h; };
  auto wide = [&](const H& h) {
    const u64 x = h.lay ? c.b64() : u64(c.b32());
    if (understated && x > 0xffffffffu) *understated = true;
    return x;
  };
  const mp4::BoxType type(std::array<u8, 4>{static_cast<u8>(t[0]), static_cast<u8>(t[1]), static_cast<u8>(t[2]), static_cast<u8>(t[3])});
  if (n.kind == 0) return new b::Unsupported({.data = c.all()});
  if (n.under_wave)
    return new b::AudioSampleEntry({.type = type, .data_reference_index = 0, .entry_version = 0, .channel_count = 0, .sample_size = 0, .sample_rate = 0, .is_quick_time_compatible = true, .quick_time_data = c.all(), .under_wave = true});
  if (t == "free") return new b::Free({.data = c.all()});
  if (t == "skip") return new b::Skip({.data = c.all()});
  if (t == "mdat") return new b::Mdat({.data = c.all()});
  if (t == "btrt") { const auto x = c.b32(), y = c.b32(), z = c.b32(); return new b::Btrt({.decoding_buffer_size = x, .max_bitrate = y, .avg_bitrate = z}); }
  if (t == "co64") { const auto h = full(); std::vector<u64> v(c.b32()); for (auto& x : v) x = c.b64(); return new b::Co64({.version = h.v, .flags = h.f, .chunk_offsets = v}); }
  if (t == "stco") { const auto h = full(); std::vector<u32> v(c.b32()); for (auto& x : v) x = c.b32(); return new b::Stco({.version = h.v, .flags = h.f, .chunk_offsets = v}); }
  if (t == "stss") { const auto h = full(); std::vector<u32> v(c.b32()); for (auto& x : v) x = c.b32(); return new b::Stss({.version = h.v, .flags = h.f, .sample_numbers = v}); }
  if (t == "colr") {
    const auto ty = c.arr<4>();
    const std::string s(ty.begin(), ty.end());
    if (s == "nclx") { const auto p = c.b16(), q = c.b16(), m = c.b16(); const bool f = c.flag(); return new b::Colr({.colour_type = ty, .colour_primaries = p, .transfer_characteristics = q, .matrix_coefficients = m, .full_range_flag = f}); }
    if (s == "rICC" || s == "prof") return new b::Colr({.colour_type = ty, .colour_primaries = 0, .transfer_characteristics = 0, .matrix_coefficients = 0, .full_range_flag = false, .profile = c.all()});
    return new b::Colr({.colour_type = ty, .colour_primaries = 0, .transfer_characteristics = 0, .matrix_coefficients = 0, .full_range_flag = false, .unknown = c.all()});
  }
  if (t == "ctts") { const auto h = full(); std::vector<b::CttsEntry> v; for (auto k = c.b32(); k--;) { const auto x = c.b32(); v.emplace_back(x, c.s(32)); } return new b::Ctts({.version = h.v, .flags = h.f, .entries = v}); }
  if (t == "stts") { const auto h = full(); std::vector<b::SttsEntry> v; for (auto k = c.b32(); k--;) { const auto x = c.b32(), y = c.b32(); v.push_back(b::SttsEntry({.sample_count = x, .sample_duration = y})); } return new b::Stts({.version = h.v, .flags = h.f, .entries = v}); }
  if (t == "data") { const auto ty = c.b32(), l = c.b32(); return new b::Data({.data_type = static_cast<b::DataType>(ty), .data_lang = l, .data = c.all()}); }
  if (t == "dOps") {
    const auto v = c.b8(), ch = c.b8();
    const auto pre = c.b16();
    const auto rate = c.b32();
    const auto gain = static_cast<std::int16_t>(c.s(16));
    const auto fam = c.b8();
    if (!fam) return new b::DOps({.version = v, .output_channel_count = ch, .pre_skip = pre, .input_sample_rate = rate, .output_gain = gain, .channel_mapping_family = fam});
    const auto x = c.b8(), y = c.b8();
    return new b::DOps({.version = v, .output_channel_count = ch, .pre_skip = pre, .input_sample_rate = rate, .output_gain = gain, .channel_mapping_family = fam, .channel_mapping_table = b::DOpsChannelMappingTable({.stream_count = x, .coupled_count = y, .channel_mapping = c.raw(ch)})});
  }
  if (t == "dref") { const auto h = full(); return new b::Dref({.version = h.v, .flags = h.f, .entry_count = c.b32()}); }
  if (t == "stsd") { const auto h = full(); return new b::Stsd({.version = h.v, .flags = h.f, .entry_count = c.b32()}); }
  if (t == "elst") {
    const auto h = full();
    std::vector<b::ElstEntry> v;
    for (auto k = c.b32(); k--;) {
      const auto du = wide(h);
      const auto mt = c.s(h.lay ? 64 : 32);
      if (understated && mt != static_cast<std::int32_t>(mt)) *understated = true;
      v.push_back(b::ElstEntry({.track_duration = du, .media_time = mt, .media_rate = static_cast<std::int32_t>(c.s(32))}));
    }
    return new b::Elst({.version = h.v, .flags = h.f, .entries = v});
  }
  if (t == "emsg") {
    const auto h = full();
    std::string uri, val;
    if (!h.v) uri = c.cstr(), val = c.cstr();
    const auto ts = c.b32();
    const auto pt = wide(h);
    const auto du = c.b32(), id = c.b32();
    if (h.v) uri = c.cstr(), val = c.cstr();
    return new b::Emsg({.version = h.v, .flags = h.f, .scheme_uri = uri, .value = val, .timescale = ts, .presentation_time = pt, .event_duration = du, .id = id, .message_data = c.all()});
  }
  if (t == "esds") {
    const auto h = full();
    // tree of descriptors; either the parents are told the size of what follows, or are given it
    std::vector<std::shared_ptr<b::Descriptor>> flat;
    const bool nested = choice & 1;
    c.u(8);
    const auto total = static_cast<u32>(c.len());
    const auto id = c.b16();
    const bool dep = c.flag(), url = c.flag(), ocr = c.flag();
    const auto prio = static_cast<u8>(c.u(5));
    u16 on = 0, oid = 0;
    Bytes us;
    u32 own = 3;
    if (dep) on = c.b16(), own += 2;
    if (url) us = c.raw(c.b8()), own += 1 + static_cast<u32>(us.size());
    if (ocr) oid = c.b16(), own += 2;
    using Prio = std::remove_const_t<decltype(b::ESDescriptorParameters::stream_priority)>;
    auto es = std::make_shared<b::ESDescriptor>(b::ESDescriptorParameters{.sub_descriptors_size = nested ? 0 : total - own, .ESID = id, .stream_dependence_flag = dep, .url_flag = url, .ocr_stream_flag = ocr, .stream_priority = static_cast<Prio>(prio), .depends_on_esid = on, .url_string = us, .OCRESID = oid});
    flat.push_back(es);
    std::shared_ptr<b::DecoderConfigDescriptor> dc;
    std::vector<std::pair<int, std::shared_ptr<b::Descriptor>>> subs;
    while (c.left()) {
      const auto tag = c.u(8);
      if (tag == 4) {
        const auto with = static_cast<u32>(c.len());
        const auto oti = c.b8();
        const auto st = static_cast<u8>(c.u(6));
        const bool up = c.flag(), re = c.flag();
        const auto db = static_cast<u32>(c.u(24));
        const auto mx = c.b32(), av = c.b32();
        using St = std::remove_const_t<decltype(b::DecoderConfigDescriptorParameters::stream_type)>;
        dc = std::make_shared<b::DecoderConfigDescriptor>(b::DecoderConfigDescriptorParameters{.sub_descriptors_size = nested ? 0 : with - 13, .object_type_indication = oti, .stream_type = static_cast<St>(st), .upstream = up, .reserved = re, .buffer_size_db = db, .max_bitrate = mx, .avg_bitrate = av});
        flat.push_back(dc);
        subs.push_back({4, dc});
      } else {
        const auto k = c.len();
        std::shared_ptr<b::Descriptor> p;
        if (tag == 5) p = std::make_shared<b::DecSpecificInfo>(b::DecSpecificInfoParameters{.data = c.raw(k)});
        else p = std::make_shared<b::SLConfigDescr>(b::SLConfigDescrParameters{.data = c.raw(k)});
        flat.push_back(p);
        subs.push_back({static_cast<int>(tag), p});
      }
    }
    if (nested) {
      for (auto& [tag, p] : subs)
        if (tag == 5 && dc) dc->addSubDescriptor(p);
      for (auto& [tag, p] : subs)
        if (tag != 5) es->addSubDescriptor(p);
    }
    auto* e = new b::Esds({.descriptors = flat});
    e->setVersion(h.v);
    e->setFlags(h.f);
    return e;
  }
  if (t == "fiel") { const auto x = c.b8(), y = c.b8(); return new b::Fiel({.field_count = x, .field_ordering = y}); }
  if (t == "ftyp" || t == "styp") {
    const auto m = c.arr<4>();
    const auto v = c.b32();
    std::vector<mp4::Brand> l;
    while (c.left()) l.push_back(c.arr<4>());
    if (t == "ftyp") return new b::Ftyp({.major_brand = m, .minor_version = v, .compatible_brands = l});
    return new b::Styp({.major_brand = m, .minor_version = v, .compatible_brands = l});
  }
  if (t == "hdlr") {
    const auto h = full();
    const auto pre = c.b32();
    const auto ty = c.arr<4>();
    c.raw(12);
    const auto name = c.cstr();
    return new b::Hdlr({.version = h.v, .flags = h.f, .pre_defined = pre, .handler_type = ty, .name = name, .padding = c.all()});
  }
  if (t == "iods") {
    const auto h = full();
    const auto tag = c.b8();
    const auto len = static_cast<u32>(c.len());
    const auto od = c.b16();
    const auto p1 = c.b8(), p2 = c.b8(), p3 = c.b8(), p4 = c.b8(), p5 = c.b8();
    return new b::Iods({.version = h.v, .flags = h.f, .type_tag = tag, .descriptor_length = len, .OD_ID = od, .OD_profile_level = p1, .scene_profile_level = p2, .audio_profile_level = p3, .video_profile_level = p4, .graphics_profile_level = p5});
  }
  if (t == "mdhd") {
    const auto h = full();
    const auto ct = wide(h), mt = wide(h);
    const auto ts = c.b32();
    const auto du = wide(h);
    const bool pad = c.flag();
    std::array<u8, 3> l{};
    for (auto& x : l) x = static_cast<u8>(0x60 + c.u(5));
    return new b::Mdhd({.version = h.v, .flags = h.f, .creation_time = ct, .modification_time = mt, .timescale = ts, .duration = du, .pad = pad, .language = l, .pre_defined = c.b16()});
  }
  if (t == "mehd") { const auto h = full(); return new b::Mehd({.version = h.v, .flags = h.f, .fragment_duration = wide(h)}); }
  if (t == "meta") return new b::Meta();
  if (t == "mfhd") { const auto h = full(); return new b::Mfhd({.version = h.v, .flags = h.f, .sequence_number = c.b32()}); }
  if (t == "mfro") { const auto h = full(); return new b::Mfro({.version = h.v, .flags = h.f, .size = c.b32()}); }
  if (t == "mvhd") {
    const auto h = full();
    const auto ct = wide(h), mt = wide(h);
    const auto ts = c.b32();
    const auto du = wide(h);
    const auto rate = static_cast<std::int32_t>(c.s(32));
    const auto vol = static_cast<std::int16_t>(c.s(16));
    c.raw(10);
    std::array<std::int32_t, 9> m{};
    for (auto& x : m) x = static_cast<std::int32_t>(c.s(32));
    std::array<std::int32_t, 6> pd{};
    for (auto& x : pd) x = static_cast<std::int32_t>(c.s(32));
    return new b::Mvhd({.version = h.v, .flags = h.f, .creation_time = ct, .modification_time = mt, .timescale = ts, .duration = du, .rate = rate, .volume = vol, .matrix = m, .pre_defined = pd, .next_track_id = c.b32()});
  }
  if (t == "pssh") {
    const auto h = full();
    const auto sys = c.arr<16>();
    std::vector<b::PsshKID> k;
    if (h.v) for (auto i = c.b32(); i--;) k.push_back(b::PsshKID({.kid = c.arr<16>()}));
    const auto m = c.b32();
    return new b::Pssh({.version = h.v, .flags = h.f, .system_id = sys, .kids = k, .data = c.raw(m)});
  }
  if (t == "sbgp") {
    const auto h = full();
    const auto g = c.arr<4>();
    const u32 gp = h.v ? c.b32() : 0;
    std::vector<b::SbgpEntry> v;
    for (auto k = c.b32(); k--;) { const auto x = c.b32(), y = c.b32(); v.push_back(b::SbgpEntry({.sample_count = x, .group_description_index = y})); }
    return new b::Sbgp({.version = h.v, .flags = h.f, .grouping_type = g, .grouping_type_parameter = gp, .entries = v});
  }
  if (t == "sdtp") {
    const auto h = full();
    std::vector<b::SdtpSample> v;
    while (c.left()) {
      const auto w = static_cast<u8>(c.u(2)), x = static_cast<u8>(c.u(2)), y = static_cast<u8>(c.u(2)), z = static_cast<u8>(c.u(2));
      v.push_back(b::SdtpSample({.is_leading = w, .sample_depends_on = x, .sample_is_depended_on = y, .sample_has_redundancy = z}));
    }
    auto* s = new b::Sdtp({.samples = v});
    s->setVersion(h.v);
    s->setFlags(h.f);
    return s;
  }
  if (t == "sgpd") {
    const auto h = full();
    const auto g = c.arr<4>();
    const std::string gs(g.begin(), g.end());
    const auto def = c.b32();
    const auto cnt = c.b32();
    const bool each = h.v == 1 && def == 0;
    std::vector<b::RollDistance> ro;
    std::vector<b::AlternativeStartupEntry> al;
    std::vector<b::VisualRandomAccessEntry> vr;
    std::vector<b::TemporalLevelEntry> te;
    for (u32 i = 0; i < cnt; ++i) {
      const u32 len = each ? c.b32() : 0;
      if (gs == "roll" || gs == "prol") ro.push_back(b::RollDistance({.description_length = len, .roll_distance = static_cast<std::int16_t>(c.s(16))}));
      else if (gs == "alst") {
        const auto rc = c.b16(), fo = c.b16();
        std::vector<u32> so(rc);
        for (auto& x : so) x = c.b32();
        std::vector<b::AlternativeStartupEntryOpt> op;
        for (u32 k = ((each ? len : def) - 4 - 4u * rc) / 4; k--;) { const auto x = c.b16(), y = c.b16(); op.push_back(b::AlternativeStartupEntryOpt({.num_output_samples = x, .num_total_samples = y})); }
        al.push_back(b::AlternativeStartupEntry({.description_length = len, .roll_count = rc, .first_output_sample = fo, .sample_offsets = so, .opts = op}));
      } else if (gs == "rap ") { const bool k = c.flag(); vr.push_back(b::VisualRandomAccessEntry({.description_length = len, .num_leading_samples_known = k, .num_leading_samples = static_cast<u8>(c.u(7))})); }
      else { const bool k = c.flag(); c.u(7); te.push_back(b::TemporalLevelEntry({.description_length = len, .level_independently_decodable = k})); }
    }
    return new b::Sgpd({.version = h.v, .flags = h.f, .grouping_type = g, .default_length = h.v == 1 ? def : 0, .default_sample_description_index = h.v == 1 ? 0 : def, .roll_distances = ro, .alternative_startup_entries = al, .visual_random_access_entries = vr, .temporal_level_entries = te});
  }
  if (t == "sidx") {
    const auto h = full();
    const auto id = c.b32(), ts = c.b32();
    const auto ep = wide(h), fo = wide(h);
    c.u(16);
    std::vector<b::SidxReference> v;
    for (auto k = c.b16(); k--;) {
      const bool rt = c.flag();
      const auto rs = static_cast<u32>(c.u(31));
      const auto sd = c.b32();
      const bool sap = c.flag();
      const auto st = static_cast<u8>(c.u(3));
      v.push_back(b::SidxReference({.reference_type = rt, .reference_size = rs, .subsegument_duration = sd, .starts_with_sap = sap, .sap_type = st, .sap_delta_time = static_cast<u32>(c.u(28))}));
    }
    return new b::Sidx({.version = h.v, .flags = h.f, .reference_id = id, .timescale = ts, .earliest_presentation_time = ep, .first_offset = fo, .references = v});
  }
  if (t == "smhd") { const auto h = full(); return new b::Smhd({.version = h.v, .flags = h.f, .balance = static_cast<std::int16_t>(c.s(16))}); }
  if (t == "stsc") {
    const auto h = full();
    std::vector<b::StscEntry> v;
    for (auto k = c.b32(); k--;) { const auto x = c.b32(), y = c.b32(), z = c.b32(); v.push_back(b::StscEntry({.first_chunk = x, .samples_per_chunk = y, .sample_description_index = z})); }
    return new b::Stsc({.version = h.v, .flags = h.f, .entries = v});
  }
  if (t == "stsz") {
    const auto h = full();
    const auto each = c.b32(), k = c.b32();
    std::vector<u32> v(k, each);
    if (!each) for (auto& x : v) x = c.b32();
    return new b::Stsz({.version = h.v, .flags = h.f, .sample_size = each, .entry_sizes = v});
  }
  if (t == "tfdt") { const auto h = full(); return new b::Tfdt({.version = h.v, .flags = h.f, .base_media_decode_time = wide(h)}); }
  if (t == "tfhd") {
    const auto h = full();
    const auto id = c.b32();
    const u64 bo = h.f & 1 ? c.b64() : choice;
    auto opt = [&](u32 m) { return h.f & m ? c.b32() : static_cast<u32>(choice); };
    const auto di = opt(2), du = opt(8), sz = opt(0x10), fl = opt(0x20);
    return new b::Tfhd({.version = h.v, .flags = h.f, .track_id = id, .base_data_offset = bo, .sample_description_index = di, .default_sample_duration = du, .default_sample_size = sz, .default_sample_flags = fl});
  }
  if (t == "tfra") {
    const auto h = full();
    const auto id = c.b32();
    c.u(26);
    const auto x = static_cast<u8>(c.u(2)), y = static_cast<u8>(c.u(2)), z = static_cast<u8>(c.u(2));
    std::vector<b::TfraEntry> v;
    for (auto k = c.b32(); k--;) {
      const auto ti = wide(h), mo = wide(h);
      const auto a = static_cast<u32>(c.u(8 * (x + 1))), q = static_cast<u32>(c.u(8 * (y + 1))), s = static_cast<u32>(c.u(8 * (z + 1)));
      v.push_back(b::TfraEntry({.time = ti, .moof_offset = mo, .traf_number = a, .trun_number = q, .sample_number = s}));
    }
    return new b::Tfra({.version = h.v, .flags = h.f, .track_id = id, .length_size_of_traf_num = x, .length_size_of_trun_num = y, .length_size_of_sample_num = z, .entries = v});
  }
  if (t == "tkhd") {
    const auto h = full();
    const auto ct = wide(h), mt = wide(h);
    const auto id = c.b32();
    c.u(32);
    const auto du = wide(h);
    c.u(64);
    const auto la = static_cast<std::int16_t>(c.s(16)), ag = static_cast<std::int16_t>(c.s(16)), vo = static_cast<std::int16_t>(c.s(16));
    c.u(16);
    std::array<std::int32_t, 9> m{};
    for (auto& x : m) x = static_cast<std::int32_t>(c.s(32));
    const auto w = c.b32(), he = c.b32();
    return new b::Tkhd({.version = h.v, .flags = h.f, .creation_time = ct, .modification_time = mt, .track_id = id, .duration = du, .layer = la, .alternate_group = ag, .volume = vo, .matrix = m, .width = w, .height = he});
  }
  if (t == "trex") { const auto h = full(); const auto p = c.b32(), q = c.b32(), r = c.b32(), s = c.b32(), u = c.b32(); return new b::Trex({.version = h.v, .flags = h.f, .track_id = p, .default_sample_description_index = q, .default_sample_duration = r, .default_sample_size = s, .default_sample_flags = u}); }
  if (t == "trun") {
    const auto h = full();
    const auto k = c.b32();
    const auto off = h.f & 1 ? static_cast<std::int32_t>(c.s(32)) : static_cast<std::int32_t>(choice);
    const u32 first = h.f & 4 ? c.b32() : static_cast<u32>(choice);
    std::vector<b::TrunEntry> v;
    for (u32 i = 0; i < k; ++i) {
      const u32 du = h.f & 0x100 ? c.b32() : 7, sz = h.f & 0x200 ? c.b32() : 7, fl = h.f & 0x400 ? c.b32() : 7;
      const std::int64_t co = h.f & 0x800 ? c.s(32) : 7;
      v.push_back(b::TrunEntry({.sample_duration = du, .sample_size = sz, .sample_flags = fl, .sample_composition_time_offset = co}));
    }
    return new b::Trun({.version = h.v, .flags = h.f, .data_offset = off, .first_sample_flags = first, .entries = v});
  }
  if (t == "vmhd") { const auto h = full(); const auto g = c.b16(); std::array<u16, 3> o{}; for (auto& x : o) x = c.b16(); return new b::Vmhd({.version = h.v, .flags = h.f, .graphicsmode = g, .opcolor = o}); }
  if (t == "url ") { const auto h = full(); return new b::Url({.version = h.v, .flags = h.f, .location = h.f & 1 ? std::string() : c.cstr()}); }
  if (t == "urn ") { const auto h = full(); if (h.f & 1) return new b::Urn({.version = h.v, .flags = h.f}); const auto x = c.cstr(), y = c.cstr(); return new b::Urn({.version = h.v, .flags = h.f, .name = x, .location = y}); }
  if (t == "avc1" || t == "encv" || t == "vp08" || t == "vp09" || t == "vp10" || t == "av01") {
    c.raw(6);
    const auto dr = c.b16(), pd = c.b16();
    c.u(16);
    std::array<u32, 3> p2{};
    for (auto& x : p2) x = c.b32();
    const auto w = c.b16(), he = c.b16();
    const auto hr = c.b32(), vr = c.b32();
    c.u(32);
    const auto fc = c.b16();
    const auto cn = c.arr<32>();
    const auto de = c.b16();
    return new b::VisualSampleEntry({.type = type, .data_reference_index = dr, .pre_defined = pd, .pre_defined2 = p2, .width = w, .height = he, .horizresolution = hr, .vertresolution = vr, .frame_count = fc, .compressorname = cn, .depth = de, .pre_defined3 = static_cast<std::int16_t>(c.s(16))});
  }
  if (t == "mp4a" || t == "enca" || t == "Opus") {
    c.raw(6);
    const auto dr = c.b16(), ev = c.b16();
    c.raw(6);
    const auto cc = c.b16(), ss = c.b16(), pd = c.b16();
    c.u(16);
    const auto sr = c.b32();
    const auto q = c.all();
    return new b::AudioSampleEntry({.type = type, .data_reference_index = dr, .entry_version = ev, .channel_count = cc, .sample_size = ss, .pre_defined = pd, .sample_rate = sr, .is_quick_time_compatible = !q.empty(), .quick_time_data = q});
  }
  if (t == "avcC") {
    auto sets = [&](u64 k) { std::vector<b::AVCParameterSet> v; while (k--) { const auto m = c.b16(); v.push_back(b::AVCParameterSet({.nal_unit = c.raw(m)})); } return v; };
    const auto cv = c.b8(), pr = c.b8(), pc = c.b8(), le = c.b8();
    c.u(6);
    const auto ls = static_cast<u8>(c.u(2));
    c.u(3);
    const auto sps = sets(c.u(5));
    const auto pps = sets(c.u(8));
    if (!c.left()) return new b::AVCDecoderConfiguration({.configuration_version = cv, .profile = pr, .profile_compatibility = pc, .level = le, .length_size_minus_one = ls, .sequence_parameter_sets = sps, .picture_parameter_sets = pps});
    c.u(6);
    const auto cf = static_cast<u8>(c.u(2));
    c.u(5);
    const auto bl = static_cast<u8>(c.u(3));
    c.u(5);
    const auto bc = static_cast<u8>(c.u(3));
    const auto ex = sets(c.u(8));
    return new b::AVCDecoderConfiguration({.configuration_version = cv, .profile = pr, .profile_compatibility = pc, .level = le, .length_size_minus_one = ls, .sequence_parameter_sets = sps, .picture_parameter_sets = pps, .high_profile_fields_enabled = true, .chroma_format = cf, .bit_depth_luma_minus8 = bl, .bit_depth_chroma_minus8 = bc, .sequence_parameter_sets_ext = ex});
  }
  if (t == "vpcC") {
    const auto h = full();
    const auto p = c.b8(), l = c.b8();
    const auto bd = static_cast<u8>(c.u(4)), cs = static_cast<u8>(c.u(3)), fr = static_cast<u8>(c.u(1));
    const auto cp = c.b8(), tc = c.b8(), mc = c.b8();
    const Bytes ini = h.v ? c.raw(c.b16()) : Bytes();
    return new b::VPCodecConfiguration({.version = h.v, .flags = h.f, .profile = p, .level = l, .bit_depth = bd, .chroma_sub_sampling = cs, .video_full_range_flag = fr, .colour_primaries = cp, .transfer_characteristics = tc, .matrix_coefficients = mc, .codec_initialization_data = ini});
  }
  if (t == "av1C") {
    const auto m = static_cast<u8>(c.u(1)), v = static_cast<u8>(c.u(7)), p = static_cast<u8>(c.u(3)), l = static_cast<u8>(c.u(5)), ti = static_cast<u8>(c.u(1));
    const bool hb = c.flag(), tb = c.flag(), mo = c.flag();
    const auto x = static_cast<u8>(c.u(1)), y = static_cast<u8>(c.u(1)), cp = static_cast<u8>(c.u(2));
    c.u(3);
    const bool ip = c.flag();
    const auto de = static_cast<u8>(c.u(4));
    return new b::AV1CodecConfiguration({.marker = m, .version = v, .seq_profile = p, .seq_level_idx_0 = l, .seq_tier_0 = ti, .high_bitdepth = hb, .twelve_bit = tb, .monochrome = mo, .chroma_subsampling_x = x, .chroma_subsampling_y = y, .chroma_sample_position = cp, .initial_presentation_delay_present = ip, .initial_presentation_delay_minus_one = de, .config_OBUs = c.all()});
  }
  if (t == "pasp") { const auto x = c.b32(), y = c.b32(); return new b::PixelAspectRatio({.h_spacing = x, .v_spacing = y}); }
  if (t == "dinf") return new b::Dinf();
  if (t == "edts") return new b::Edts();
  if (t == "ilst") return new b::Ilst();
  if (t == "mdia") return new b::Mdia();
  if (t == "mfra") return new b::Mfra();
  if (t == "minf") return new b::Minf();
  if (t == "moof") return new b::Moof();
  if (t == "moov") return new b::Moov();
  if (t == "mvex") return new b::Mvex();
  if (t == "schi") return new b::Schi();
  if (t == "sinf") return new b::Sinf();
  if (t == "stbl") return new b::Stbl();
  if (t == "traf") return new b::Traf();
  if (t == "trak") return new b::Trak();
  if (t == "udta") return new b::Udta();
  if (t == "wave") return new b::Wave();
  if (n.kind >= kind_of("----")) return new b::IlstMeta({.type = type});
  throw std::logic_error("build_box: " + t);
}

const char* const kContradictions[kContradictionCount] = {"a descriptor whose URL is longer than its length field can state", "high-profile fields for a profile without them",
                                        "version-1 QuickTime data of another length than 16", "version-2 QuickTime data of another length than 36",
                                        "QuickTime data in an entry that is not QuickTime-compatible",
                                        "more sequence parameter sets than a decoder record can count", "more picture parameter sets than a decoder record can count",
                                        "more sequence parameter set extensions than a decoder record can count", "a parameter set longer than its length field can state",
                                        "more references than an index can count", "codec initialization data longer than its length field can state",
                                        "a presentation time delta beyond 32 bits", "a descriptor longer than its length field can state", "a descriptor length its field cannot hold"};

void offer_contradiction(int which, std::uint64_t n, std::ostream& os) {
  std::unique_ptr<mp4::Box> x;
  auto entry = [&](u16 version, std::size_t right, bool qt) {
    std::size_t k = n % 60 + (qt ? 0 : 1);
    if (k == right) ++k;
    x.reset(new b::AudioSampleEntry({.type = mp4::BoxType("mp4a"), .entry_version = version, .channel_count = 2, .sample_size = 16, .sample_rate = 48000u << 16, .is_quick_time_compatible = qt, .quick_time_data = Bytes(k, 7)}));
  };
  auto sets = [&](std::size_t k) { return std::vector<b::AVCParameterSet>(k, b::AVCParameterSet({.nal_unit = Bytes(1 + n % 3, 0x67)})); };
  auto avcc = [&](std::size_t sps, std::size_t pps, std::size_t ext) {
    x.reset(new b::AVCDecoderConfiguration({.configuration_version = 1, .profile = 100, .level = 30, .length_size_minus_one = 3, .sequence_parameter_sets = sets(sps), .picture_parameter_sets = sets(pps), .high_profile_fields_enabled = true, .chroma_format = 1, .sequence_parameter_sets_ext = sets(ext)}));
  };
  switch (which) {
    case 0: {
      auto es = std::make_shared<b::ESDescriptor>(b::ESDescriptorParameters{.ESID = 1, .url_flag = true, .url_string = Bytes(256 + n % 700, 'u')});
      x.reset(new b::Esds({.descriptors = {es}}));
      break;
    }
    case 1: {
      static const u8 plain[] = {66, 77, 88};
      x.reset(new b::AVCDecoderConfiguration({.configuration_version = 1, .profile = plain[n % 3], .level = 30, .length_size_minus_one = 3, .high_profile_fields_enabled = true, .chroma_format = 1}));
      break;
    }
    case 2: entry(1, 16, true); break;
    case 3: entry(2, 36, true); break;
    case 4: entry(static_cast<u16>(n % 3), 1000, false); break;
    case 5: avcc(32 + n % 300, n % 3, n % 2); break;
    case 6: avcc(n % 32, 256 + n % 300, n % 2); break;
    case 7: avcc(n % 32, n % 3, 256 + n % 300); break;
    case 8: {
      const std::vector<b::AVCParameterSet> s{b::AVCParameterSet({.nal_unit = Bytes(0x10000 + n % 9, 0x67)})};
      x.reset(new b::AVCDecoderConfiguration({.configuration_version = 1, .profile = 66, .level = 30, .length_size_minus_one = 3, .sequence_parameter_sets = n & 1 ? s : std::vector<b::AVCParameterSet>(), .picture_parameter_sets = n & 1 ? std::vector<b::AVCParameterSet>() : s}));
      break;
    }
    case 9: x.reset(new b::Sidx({.reference_id = 1, .timescale = 1000, .earliest_presentation_time = n, .first_offset = 0, .references = std::vector<b::SidxReference>(0x10000 + n % 9, b::SidxReference({.reference_type = false, .reference_size = 8, .subsegument_duration = 1, .starts_with_sap = true, .sap_type = 1, .sap_delta_time = 0}))})); break;
    case 10: x.reset(new b::VPCodecConfiguration({.version = 1, .profile = 0, .level = 10, .bit_depth = 8, .chroma_sub_sampling = 1, .video_full_range_flag = 0, .colour_primaries = 1, .transfer_characteristics = 1, .matrix_coefficients = 1, .codec_initialization_data = Bytes(0x10000 + n % 9, 3)})); break;
    case 11: x.reset(new b::Emsg({.version = 0, .scheme_uri = "u", .value = "v", .timescale = 1, .presentation_time = (u64(1) << (32 + n % 32)) + n, .event_duration = 1, .id = 1, .message_data = Bytes(n % 5, 1)})); break;
    case 12: {
      auto es = std::make_shared<b::ESDescriptor>(b::ESDescriptorParameters{.sub_descriptors_size = static_cast<u32>((1u << 28) + n * 1000), .ESID = 1});
      x.reset(new b::Esds({.descriptors = {es}}));
      break;
    }
    default: x.reset(new b::Iods({.type_tag = 0x10, .descriptor_length = static_cast<u32>((1u << 28) + n * 1000), .OD_ID = 1, .OD_profile_level = 1, .scene_profile_level = 1, .audio_profile_level = 1, .video_profile_level = 1, .graphics_profile_level = 1})); break;
  }
  x->writeData(os);
}

}  // namespace sim
