From a47a7ceecde23a7235363667979dc5292f435bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 01/26] fix: write times that do not fit 32 bits in version 1
 boxes instead of truncating them

---
 src/box/elst.cpp | 9 ++++++++-
 src/box/mdhd.cpp | 8 +++++++-
 src/box/mvhd.cpp | 8 +++++++-
 src/box/tkhd.cpp | 8 +++++++-
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/box/elst.cpp b/src/box/elst.cpp
index d0aa4fc..ed2bb2e 100644
--- a/src/box/elst.cpp
+++ b/src/box/elst.cpp
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <string>
 #include <vector>
@@ -55,7 +56,13 @@ Elst::Elst() {
 }
 
 Elst::Elst(const ElstParameters& params) : m_entries(params.entries) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  const bool need_version1 = std::any_of(std::begin(m_entries), std::end(m_entries), [](const auto& e) {
+    return e.m_track_duration > std::numeric_limits<std::uint32_t>::max() ||
+           e.m_media_time > std::numeric_limits<std::int32_t>::max() ||
+           e.m_media_time < std::numeric_limits<std::int32_t>::min();
+  });
+  setVersion(params.version == 0 && need_version1 ? 1 : params.version);
   setFlags(params.flags);
   m_type = box_type_elst();
 }
diff --git a/src/box/mdhd.cpp b/src/box/mdhd.cpp
index 6db7572..d8110f6 100644
--- a/src/box/mdhd.cpp
+++ b/src/box/mdhd.cpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -33,7 +34,12 @@ Mdhd::Mdhd(const MdhdParameters& params)
       m_pad(params.pad),
       m_language(params.language),
       m_pre_defined(params.pre_defined) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  constexpr std::uint64_t version0_max = std::numeric_limits<std::uint32_t>::max();
+  setVersion(params.version == 0 && (m_creation_time > version0_max || m_modification_time > version0_max ||
+                                     m_duration > version0_max)
+                 ? 1
+                 : params.version);
   setFlags(params.flags);
   m_type = box_type_mdhd();
 }
diff --git a/src/box/mvhd.cpp b/src/box/mvhd.cpp
index 790e14e..6cf36f9 100644
--- a/src/box/mvhd.cpp
+++ b/src/box/mvhd.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -35,7 +36,12 @@ Mvhd::Mvhd(const MvhdParameters& params)
       m_matrix(params.matrix),
       m_pre_defined(params.pre_defined),
       m_next_track_id(params.next_track_id) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  constexpr std::uint64_t version0_max = std::numeric_limits<std::uint32_t>::max();
+  setVersion(params.version == 0 && (m_creation_time > version0_max || m_modification_time > version0_max ||
+                                     m_duration > version0_max)
+                 ? 1
+                 : params.version);
   setFlags(params.flags);
   m_type = box_type_mvhd();
 }
diff --git a/src/box/tkhd.cpp b/src/box/tkhd.cpp
index 7c2d071..b89a6e1 100644
--- a/src/box/tkhd.cpp
+++ b/src/box/tkhd.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -36,7 +37,12 @@ Tkhd::Tkhd(const TkhdParameters& params)
       m_matrix(params.matrix),
       m_width(params.width),
       m_height(params.height) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  constexpr std::uint64_t version0_max = std::numeric_limits<std::uint32_t>::max();
+  setVersion(params.version == 0 && (m_creation_time > version0_max || m_modification_time > version0_max ||
+                                     m_duration > version0_max)
+                 ? 1
+                 : params.version);
   setFlags(params.flags);
   m_type = box_type_tkhd();
 }
-- 
2.43.0


From 0c7fb3d39b74f42e143b4062d0dbd8b3f4947483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 02/26] fix: record a repeated H.264 parameter set only once

---
 include/shiguredo/mp4/box/avc.hpp |  2 ++
 src/track/h264.cpp                | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..42a903e 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -53,6 +53,8 @@ class AVCParameterSet {
   std::uint64_t getSize() const;
   std::uint64_t readData(bitio::Reader*);
 
+  bool operator==(const AVCParameterSet&) const = default;
+
  private:
   std::vector<std::uint8_t> m_nal_unit;
 };
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..3fe25aa 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -196,11 +196,19 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
 }
 
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  // 同じ SPS は繰り返し送られてくるので, 一度だけ記録する
+  if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
+      std::end(m_sequence_parameter_sets)) {
+    m_sequence_parameter_sets.emplace_back(params);
+  }
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  // 同じ PPS は繰り返し送られてくるので, 一度だけ記録する
+  if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
+      std::end(m_picture_parameter_sets)) {
+    m_picture_parameter_sets.emplace_back(params);
+  }
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From f06d59a005834187f642fe2b5103cbebccbe3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 03/26] fix: do not take a unit whose H.264 header byte is zero
 for part of the next unit

---
 src/track/h264.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 3fe25aa..0e0aaab 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -163,9 +163,11 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   auto index = start;
   std::size_t start_code_size;
   std::uint8_t header = 0;
+  bool found = false;
   while (index + 5 < data_size) {
     if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
+      if (!found) {
+        found = true;
         start_code_size = 4;
         header = data[index + 4];
       } else {
@@ -175,7 +177,8 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       continue;
     }
     if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
+      if (!found) {
+        found = true;
         start_code_size = 3;
         header = data[index + 3];
       } else {
@@ -184,12 +187,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 3;
       continue;
     }
-    if (index == start && header == 0) {
+    if (index == start && !found) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (!found) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From 19ad081bedc022d7f6e7925f0081e166ad2364a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 04/26] fix: report media and header writes and position
 queries that fail

ostreambuf_iterator drops characters without setting the state of the stream,
and tellp() may return -1 on a stream that is still good.
---
 src/box_header.cpp              | 5 ++++-
 src/writer/faststart_writer.cpp | 2 +-
 src/writer/simple_writer.cpp    | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..f3932fc 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write() ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..cd2b63f 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,7 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..14c63b9 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
@@ -107,7 +107,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From 5ddd78beafe270357e868b3beddea6ac70ed591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 05/26] fix: report read errors and a truncated intermediate
 file in copyMdatData

A failing fread() made copyMdatData() loop forever, and an intermediate file
that ended early was copied as if it were complete.
---
 src/writer/faststart_writer.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index cd2b63f..0edce42 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -147,9 +147,17 @@ void FaststartWriter::copyMdatData() {
     throw std::runtime_error("fseek failed");
   }
 
+  // addMdatData() が報告済みの書き込みエラーを、読み込みエラーと区別する
+  std::clearerr(m_mdat_fd);
+  std::uint64_t copied_size = 0;
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(
+          fmt::format("FaststartWriter::copyMdatData(): fread() failed: m_mdat_path={}", m_mdat_path.string()));
+    }
+    copied_size += size;
     m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
@@ -157,6 +165,12 @@ void FaststartWriter::copyMdatData() {
     }
   }
 
+  if (copied_size != m_mdat_data_size) {
+    throw std::runtime_error(
+        fmt::format("FaststartWriter::copyMdatData(): size of the intermediate file is unexpected: expected={} actual={}",
+                    m_mdat_data_size, copied_size));
+  }
+
   if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));
-- 
2.43.0


From cffe0057d06b76b923055faeb7f2335fe4a3d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 06/26] fix: give back the intermediate file's handle and leave
 no file behind when opening it fails

---
 .../shiguredo/mp4/writer/faststart_writer.hpp |  3 +-
 src/writer/faststart_writer.cpp               | 31 ++++++++++++++-----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/shiguredo/mp4/writer/faststart_writer.hpp b/include/shiguredo/mp4/writer/faststart_writer.hpp
index 4d53a08..ba39108 100644
--- a/include/shiguredo/mp4/writer/faststart_writer.hpp
+++ b/include/shiguredo/mp4/writer/faststart_writer.hpp
@@ -32,6 +32,7 @@ struct FaststartWriterParameters {
 class FaststartWriter : public Writer {
  public:
   FaststartWriter(std::ostream&, const FaststartWriterParameters&);
+  ~FaststartWriter() override;
 
   void writeFtypBox() override;
   void writeMoovBox() override;
@@ -49,7 +50,7 @@ class FaststartWriter : public Writer {
   std::ostream& m_os;
   const box::FtypParameters m_ftyp_params;
   std::filesystem::path m_mdat_path;
-  std::FILE* m_mdat_fd;
+  std::FILE* m_mdat_fd = nullptr;
 
   void setOffsetAndSize() override;
 
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 0edce42..213ee12 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -2,6 +2,7 @@
 
 #include <fmt/core.h>
 #include <spdlog/spdlog.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <chrono>
@@ -30,20 +31,33 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  char* mdat_filename = ::strdup(params.mdat_path_templete.c_str());
-  int fd = ::mkstemp(mdat_filename);
+  std::string mdat_filename = params.mdat_path_templete;
+  int fd = ::mkstemp(mdat_filename.data());
   if (fd == -1) {
     throw std::runtime_error("FaststartWriter::FaststartWriter(): cannot open an intermediate file: mkstemp()");
   }
 
-  m_mdat_path = mdat_filename;
-  std::free(mdat_filename);
-  spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
   m_mdat_fd = ::fdopen(fd, "w+");
   if (m_mdat_fd == nullptr) {
+    ::close(fd);
+    ::unlink(mdat_filename.c_str());
     throw std::runtime_error(
         fmt::format("FaststartWriter::FaststartWriter(): cannot open an intermediate file: fdopen(), m_mdat_path={}",
-                    m_mdat_path.string()));
+                    mdat_filename));
+  }
+  try {
+    m_mdat_path = mdat_filename;
+    spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
+  } catch (...) {
+    std::fclose(m_mdat_fd);
+    ::unlink(mdat_filename.c_str());
+    throw;
+  }
+}
+
+FaststartWriter::~FaststartWriter() {
+  if (m_mdat_fd != nullptr) {
+    std::fclose(m_mdat_fd);
   }
 }
 
@@ -171,7 +185,10 @@ void FaststartWriter::copyMdatData() {
                     m_mdat_data_size, copied_size));
   }
 
-  if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
+  // fclose() は失敗してもストリームを解放する
+  std::FILE* mdat_fd = m_mdat_fd;
+  m_mdat_fd = nullptr;
+  if (auto ret = std::fclose(mdat_fd); ret == EOF) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));
   }
-- 
2.43.0


From dc438c1e50279cfbaf09361c061e46f566ab7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 07/26] fix: do not leave freed boxes in the box tree when
 memory runs out

---
 src/box_info.cpp                | 5 ++++-
 src/writer/faststart_writer.cpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/box_info.cpp b/src/box_info.cpp
index e0b10ca..aedade6 100644
--- a/src/box_info.cpp
+++ b/src/box_info.cpp
@@ -16,7 +16,6 @@ namespace shiguredo::mp4 {
 BoxInfo::BoxInfo(const BoxInfoParameters& params) : m_box(params.box) {
   if (params.parent) {
     m_path = params.parent->getPath();
-    params.parent->addLeaf(this);
     if (params.parent->getType() == BoxType("wave")) {
       auto ase = dynamic_cast<box::AudioSampleEntry*>(m_box);
       if (ase) {
@@ -28,6 +27,10 @@ BoxInfo::BoxInfo(const BoxInfoParameters& params) : m_box(params.box) {
     m_path = {};
   }
   m_path.push_back(m_box->getType());
+  if (params.parent) {
+    // 例外が発生したときに親に無効な子を残さないように, 最後に追加する
+    params.parent->addLeaf(this);
+  }
 }
 
 BoxInfo::~BoxInfo() {
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 213ee12..1ea651f 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -64,6 +64,7 @@ FaststartWriter::~FaststartWriter() {
 void FaststartWriter::recreateMoovBoxInfo() {
   if (m_moov_box_info) {
     delete m_moov_box_info;
+    m_moov_box_info = nullptr;
   }
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-- 
2.43.0


From 8d5a85c5f68c2a6636d786f6e1d7b2de99f2d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 08/26] fix: keep the tables of a track intact when a sample
 cannot be stored

---
 include/shiguredo/mp4/track/track.hpp |  1 -
 src/track/track.cpp                   | 33 +++++++++++++++++----------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/shiguredo/mp4/track/track.hpp b/include/shiguredo/mp4/track/track.hpp
index 3540456..1912f2f 100644
--- a/include/shiguredo/mp4/track/track.hpp
+++ b/include/shiguredo/mp4/track/track.hpp
@@ -31,7 +31,6 @@ namespace shiguredo::mp4::track {
 struct ChunkInfo {
   std::uint64_t offset = 0;
   std::uint32_t number_of_samples = 0;
-  bool initialized = false;
 };
 
 enum HandlerType {
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..4d53080 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -28,23 +28,32 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
-  if (!m_current_chunk_info.initialized) {
-    m_current_chunk_info.initialized = true;
+  if (m_current_chunk_info.number_of_samples == 0) {
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
   }
-  ++m_current_chunk_info.number_of_samples;
 
-  if (!std::empty(m_mdat_sample_sizes)) {
-    spdlog::trace("Track::addMdatData(): duration: {} {}", timestamp, m_prev_timestamp);
-    m_sample_durations.push_back(static_cast<std::uint32_t>(timestamp - m_prev_timestamp));
+  const auto number_of_samples = std::size(m_mdat_sample_sizes);
+  const auto number_of_durations = std::size(m_sample_durations);
+  const auto number_of_keys = std::size(m_key_sample_numbers);
+  try {
+    if (number_of_samples > 0) {
+      spdlog::trace("Track::addMdatData(): duration: {} {}", timestamp, m_prev_timestamp);
+      m_sample_durations.push_back(static_cast<std::uint32_t>(timestamp - m_prev_timestamp));
+    }
+    m_mdat_sample_sizes.push_back(static_cast<std::uint32_t>(data_size));
+    if (m_handler_type == HandlerType::vide && is_key) {
+      m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));
+    }
+    m_writer->addMdatData(data, data_size);
+  } catch (...) {
+    // 書き込めなかったサンプルの情報を残さない
+    m_sample_durations.resize(number_of_durations);
+    m_mdat_sample_sizes.resize(number_of_samples);
+    m_key_sample_numbers.resize(number_of_keys);
+    throw;
   }
+  ++m_current_chunk_info.number_of_samples;
   m_prev_timestamp = timestamp;
-
-  m_writer->addMdatData(data, data_size);
-  m_mdat_sample_sizes.push_back(static_cast<std::uint32_t>(data_size));
-  if (m_handler_type == HandlerType::vide && is_key) {
-    m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));
-  }
 }
 
 void Track::finalize() {
-- 
2.43.0


From 10108066ec9c654cadbe176a8dc11cc5bb561829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 09/26] fix: encode a sample entry inside wave the way it is
 decoded

Inside a wave box the payload is only the QuickTime data, which is what
readData() takes; writeData() and getDataSize() used the full layout.
---
 src/box/sample_entry.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0


From ed750ede4c80423b44cd968ccf59c1938a6572e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 10/26] fix: read the bytes after the handler name as bytes

Hdlr::readData() passed the number of remaining bits as a number of bytes,
so a handler box with bytes after its name could not be read.
---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 3fdd41dc9a5d770ef951759c85745eca3449f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 11/26] fix: keep the sample count of a table with one common
 sample size

Stsz::readData() dropped sample_count when sample_size was not 0, so such a
table came back with a count of 0.
---
 include/shiguredo/mp4/box/stsz.hpp |  1 +
 src/box/stsz.cpp                   | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..41f3d0c 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -32,6 +32,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count = 0;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..b101577 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +35,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +57,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From 2d8f7aeaf60158df0828ae75db8799a00a71e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 12/26] fix: format times at the far end of the 64-bit range
 without crashing

A time above 2^63 became a negative time_t that passed the range check and
made gmtime_r() return a null pointer, which was dereferenced.
---
 src/time/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..28efd51 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -10,11 +10,11 @@
 namespace shiguredo::mp4::time {
 
 std::string format_epoch_19040101(const std::uint64_t t) {
-  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
-  if (from1970 > std::numeric_limits<std::uint32_t>::max()) {
+  if (t > SECONDS_19040101_to_19700101 + std::numeric_limits<std::uint32_t>::max()) {
     // cannot handle big values.
     return "0000-00-00T00:00:00Z";
   }
+  std::time_t from1970 = static_cast<std::time_t>(t) - static_cast<std::time_t>(SECONDS_19040101_to_19700101);
   std::tm tm;
 
   return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));
-- 
2.43.0


From 596ec1ebc0e5ea9c41cadd6e4f88f25fc61e7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 13/26] fix: do not count the tag of an unknown descriptor
 twice

Esds::readData() skipped an unknown descriptor by one byte too many, which
made the reader lose its place in the file.
---
 src/box/esds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..9bdf9a3 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -339,7 +339,8 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        // offset_to_end はタグを含む
+        return rbits + static_cast<std::uint64_t>(offset_to_end - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From b69421d52d136304df2e7ec15a6f3f1d3d9c2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 14/26] fix: notice input stream failures in the reader

The box header and payload were copied with istreambuf_iterator, which
invents bytes (or dereferences a null buffer) when the stream fails or ends
early, and a position query that failed with -1 was used as a position.
---
 src/bitio/bitio.cpp   |  4 ++--
 src/bitio/reader.cpp  |  6 +++++-
 src/box_header.cpp    | 21 ++++++++++++++-------
 src/reader/reader.cpp | 17 ++++++++++++++---
 src/stream/stream.cpp |  8 ++++----
 5 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 697c417..55ba124 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -68,8 +68,8 @@ std::uint64_t read_pascal_string(Reader* reader, std::string* str, const std::ui
 
   std::istream& is = reader->getIStream();
 
-  auto offset = is.tellg();
-  if (!is.good()) {
+  const std::streamoff offset = is.tellg();
+  if (!is.good() || offset < 0) {
     throw std::runtime_error(
         fmt::format("bitio::read_pascal_string(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
diff --git a/src/bitio/reader.cpp b/src/bitio/reader.cpp
index 55612e2..a103d07 100644
--- a/src/bitio/reader.cpp
+++ b/src/bitio/reader.cpp
@@ -66,7 +66,11 @@ std::uint64_t Reader::seek(const std::uint64_t offset, const std::ios_base::seek
     throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
   }
   m_width = 0;
-  return static_cast<std::uint64_t>(m_is.tellg());
+  const std::streamoff position = m_is.tellg();
+  if (!m_is.good() || position < 0) {
+    throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  return static_cast<std::uint64_t>(position);
 }
 
 void Reader::setOctet(const std::uint8_t octet) {
diff --git a/src/box_header.cpp b/src/box_header.cpp
index f3932fc..3e2deb4 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -16,18 +16,20 @@
 namespace shiguredo::mp4 {
 
 BoxHeader* read_box_header(std::istream& is) {
-  const std::uint64_t offset = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const std::streamoff current = is.tellg();
+  if (!is.good() || current < 0) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
   is.seekg(0, std::ios_base::end);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
-  const auto offset_eof = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const std::streamoff eof = is.tellg();
+  if (!is.good() || eof < current) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const auto offset = static_cast<std::uint64_t>(current);
+  const auto offset_eof = static_cast<std::uint64_t>(eof);
   if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
@@ -38,7 +40,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), Constants::SMALL_HEADER_SIZE);
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +62,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..a303b5d 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -11,6 +11,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_header.hpp"
@@ -23,8 +24,13 @@ namespace shiguredo::mp4::reader {
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
-  m_total_size = static_cast<std::uint64_t>(m_is.tellg());
+  const std::streamoff total_size = m_is.tellg();
   m_is.seekg(0, std::ios_base::beg);
+  if (!m_is.good() || total_size < 0) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::SimpleReader(): cannot get the size of the stream: rdstate={}", m_is.rdstate()));
+  }
+  m_total_size = static_cast<std::uint64_t>(total_size);
   spdlog::debug("SimpleReader::SimpleReader(): m_total_size={}", m_total_size);
 }
 
@@ -47,14 +53,19 @@ void SimpleReader::read() {
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   BoxHeader* header = read_box_header(m_is);
   header->seekToData(m_is);
-  std::stringstream ss;
   const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
   if (header->getDataSize() > remaining_size) {
     spdlog::trace("SimpleReader::readBox(): corrupt file? Header={}", header->toString());
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+  std::string data(header->getDataSize(), '\0');
+  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
+  if (!m_is.good()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", m_is.rdstate()));
+  }
+  std::istringstream ss(std::move(data));
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..1901ab2 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -7,8 +7,8 @@
 namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
-  const auto offset = is.tellg();
-  if (!is.good()) {
+  const std::streamoff offset = is.tellg();
+  if (!is.good() || offset < 0) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -17,8 +17,8 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
-  const auto end_offset = is.tellg();
-  if (!is.good()) {
+  const std::streamoff end_offset = is.tellg();
+  if (!is.good() || end_offset < offset) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-- 
2.43.0


From 3c0ae9d0fd2a97892575ef78c98c8ac45bf27ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 15/26] fix: bound the nesting the reader follows and release
 what it holds when it fails

---
 include/shiguredo/mp4/reader/reader.hpp |  6 ++++
 src/reader/reader.cpp                   | 44 +++++++++++++++++--------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/shiguredo/mp4/reader/reader.hpp b/include/shiguredo/mp4/reader/reader.hpp
index 68aaf3c..19a1be6 100644
--- a/include/shiguredo/mp4/reader/reader.hpp
+++ b/include/shiguredo/mp4/reader/reader.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstddef>
 #include <cstdint>
 #include <istream>
 #include <vector>
@@ -8,6 +9,8 @@
 
 namespace shiguredo::mp4 {
 
+class Box;
+class BoxHeader;
 class BoxInfo;
 
 }
@@ -21,12 +24,15 @@ class SimpleReader {
   void read();
 
  private:
+  static constexpr std::size_t MAX_DEPTH = 64;
+
   std::istream& m_is;
   BoxMap m_box_map;
   std::vector<BoxInfo*> m_boxes;
   std::uint64_t m_total_size;
 
   std::uint64_t readBox(BoxInfo*);
+  std::uint64_t readBoxData(BoxHeader*, Box*);
 };
 
 }  // namespace shiguredo::mp4::reader
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index a303b5d..61a86a6 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <istream>
 #include <iterator>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -51,7 +52,11 @@ void SimpleReader::read() {
 }
 
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
-  BoxHeader* header = read_box_header(m_is);
+  if (parent && std::size(parent->getPath()) >= MAX_DEPTH) {
+    throw std::runtime_error(fmt::format("SimpleReader::readBox(): boxes are nested too deeply: {}", MAX_DEPTH));
+  }
+  std::unique_ptr<BoxHeader> header_owner(read_box_header(m_is));
+  BoxHeader* header = header_owner.get();
   header->seekToData(m_is);
   const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
   if (header->getDataSize() > remaining_size) {
@@ -59,27 +64,26 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
-  std::string data(header->getDataSize(), '\0');
-  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
-  if (!m_is.good()) {
-    throw std::runtime_error(
-        fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", m_is.rdstate()));
-  }
-  std::istringstream ss(std::move(data));
-
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
-  Box* box = m_box_map.getBoxInstance(header);
-  if (box == nullptr) {
+  std::unique_ptr<Box> box_owner(m_box_map.getBoxInstance(header));
+  if (!box_owner) {
     throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
   }
-  BoxInfo* info = new BoxInfo({.parent = parent, .box = box});
+  header_owner.release();
+  std::unique_ptr<BoxInfo> info_owner(new BoxInfo({.parent = parent, .box = box_owner.get()}));
+  Box* box = box_owner.release();
+  BoxInfo* info = info_owner.get();
   if (!parent) {
     m_boxes.push_back(info);
   }
+  info_owner.release();
 
-  const auto rbits = box->readData(ss);
-  std::uint64_t rbytes = rbits / 8;
+  std::uint64_t rbytes = readBoxData(header, box);
+  if (rbytes > header->getDataSize()) {
+    throw std::runtime_error(fmt::format("corrupt file? read size({}) is greater than box data size({})", rbytes,
+                                         header->getDataSize()));
+  }
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
     throw std::runtime_error(
@@ -92,4 +96,16 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   return header->getSize();
 }
 
+std::uint64_t SimpleReader::readBoxData(BoxHeader* header, Box* box) {
+  // 子の Box を読み込む間, データを保持しないように関数を分けている
+  std::string data(header->getDataSize(), '\0');
+  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
+  if (!m_is.good()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBoxData(): istream::read() failed: rdstate={}", m_is.rdstate()));
+  }
+  std::istringstream ss(std::move(data));
+  return box->readData(ss) / 8;
+}
+
 }  // namespace shiguredo::mp4::reader
-- 
2.43.0


From 5402efdd7acc7299d013891c14bef61abcb6139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 16/26] fix: size tables by the entries read, not by the count
 a file states

---
 include/shiguredo/mp4/bitio/bitio.hpp |  7 +++++--
 include/shiguredo/mp4/box/trun.hpp    |  1 +
 src/box/ctts.cpp                      |  4 ++--
 src/box/elst.cpp                      |  4 ++--
 src/box/pssh.cpp                      |  4 ++--
 src/box/sbgp.cpp                      |  4 ++--
 src/box/sgpd.cpp                      | 20 ++++++++++----------
 src/box/stsc.cpp                      |  4 ++--
 src/box/stts.cpp                      |  4 ++--
 src/box/tfra.cpp                      |  6 +++---
 src/box/trun.cpp                      | 23 ++++++++++++++---------
 11 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index ff7e1ec..5c85507 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -129,9 +129,12 @@ std::uint64_t write_vector_uint(Writer* writer, const std::vector<T>& v) {
 template <typename T>
 std::uint64_t read_vector_uint(Reader* reader, const std::size_t size, std::vector<T>* v) {
   std::uint64_t rbits = 0;
-  v->resize(size);
+  // size はデータの内容によるため, 実際に読み込めた分だけ領域を確保する
+  v->clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += read_uint<T>(reader, &((*v)[i]));
+    T c;
+    rbits += read_uint<T>(reader, &c);
+    v->push_back(c);
   }
   return rbits;
 }
diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index 5f91c77..b98e2aa 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -65,6 +65,7 @@ class Trun : public FullBox {
  private:
   std::int32_t m_data_offset;
   std::uint32_t m_first_sample_flags;
+  std::uint32_t m_sample_count = 0;
   std::vector<TrunEntry> m_entries;
 };
 
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index ec1dae0..a5cba9a 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -76,9 +76,9 @@ std::uint64_t Ctts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/elst.cpp b/src/box/elst.cpp
index ed2bb2e..3abfb50 100644
--- a/src/box/elst.cpp
+++ b/src/box/elst.cpp
@@ -95,11 +95,11 @@ std::uint64_t Elst::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
     ElstEntry entry;
     rbits += entry.readData(&reader, m_version);
-    m_entries[i] = entry;
+    m_entries.push_back(entry);
   }
   return rbits;
 }
diff --git a/src/box/pssh.cpp b/src/box/pssh.cpp
index 28cc2c6..006df29 100644
--- a/src/box/pssh.cpp
+++ b/src/box/pssh.cpp
@@ -93,11 +93,11 @@ std::uint64_t Pssh::readData(std::istream& is) {
   if (m_version != 0) {
     std::uint32_t kid_count;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &kid_count);
-    m_kids.resize(static_cast<std::size_t>(kid_count));
+    m_kids.clear();
     for (std::uint32_t i = 0; i < kid_count; ++i) {
       PsshKID kid;
       rbits += kid.readData(&reader);
-      m_kids[i] = kid;
+      m_kids.push_back(kid);
     }
   }
 
diff --git a/src/box/sbgp.cpp b/src/box/sbgp.cpp
index c25300b..dfade29 100644
--- a/src/box/sbgp.cpp
+++ b/src/box/sbgp.cpp
@@ -87,9 +87,9 @@ std::uint64_t Sbgp::readData(std::istream& is) {
 
   std::uint32_t size;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-  m_entries.resize(size);
+  m_entries.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
 
   return rbits;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 28bbadb..f225d29 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -174,36 +174,36 @@ std::uint64_t Sgpd::readData(std::istream& is) {
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_roll_distances.resize(size);
+    m_roll_distances.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_roll_distances[i].readData(&reader, no_default_length);
+      rbits += m_roll_distances.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeAlst) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_alternative_startup_entries.resize(size);
+    m_alternative_startup_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_alternative_startup_entries[i].readData(&reader, m_default_length, no_default_length);
+      rbits += m_alternative_startup_entries.emplace_back().readData(&reader, m_default_length, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeRap) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_visual_random_access_entries.resize(size);
+    m_visual_random_access_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_visual_random_access_entries[i].readData(&reader, no_default_length);
+      rbits += m_visual_random_access_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeTele) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_temporal_level_entries.resize(size);
+    m_temporal_level_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_temporal_level_entries[i].readData(&reader, no_default_length);
+      rbits += m_temporal_level_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
@@ -329,9 +329,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
         fmt::format("AlternativeStartupEntry::readData(): invalid offset of AlternativeStartupEntry: {}", offset));
   }
   size = static_cast<std::size_t>(offset / 32);
-  m_opts.resize(size);
+  m_opts.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_opts[i].readData(reader);
+    rbits += m_opts.emplace_back().readData(reader);
   }
   return rbits;
 }
diff --git a/src/box/stsc.cpp b/src/box/stsc.cpp
index 694a978..421723e 100644
--- a/src/box/stsc.cpp
+++ b/src/box/stsc.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stsc::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/stts.cpp b/src/box/stts.cpp
index a5c3dea..c105104 100644
--- a/src/box/stts.cpp
+++ b/src/box/stts.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/tfra.cpp b/src/box/tfra.cpp
index f890935..4d2b349 100644
--- a/src/box/tfra.cpp
+++ b/src/box/tfra.cpp
@@ -83,10 +83,10 @@ std::uint64_t Tfra::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_length_size_of_sample_num, 2);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
-                                   m_length_size_of_sample_num);
+    rbits += m_entries.emplace_back().readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
+                                               m_length_size_of_sample_num);
   }
   return rbits;
 }
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index dcd0896..c067836 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -27,14 +27,17 @@ Trun::Trun() {
 }
 
 Trun::Trun(const TrunParameters& params)
-    : m_data_offset(params.data_offset), m_first_sample_flags(params.first_sample_flags), m_entries(params.entries) {
+    : m_data_offset(params.data_offset),
+      m_first_sample_flags(params.first_sample_flags),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entries))),
+      m_entries(params.entries) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_trun();
 }
 
 std::string Trun::toStringOnlyData() const {
-  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), std::size(m_entries));
+  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     s += fmt::format(" DataOffset={}", m_data_offset);
@@ -51,8 +54,7 @@ std::string Trun::toStringOnlyData() const {
 std::uint64_t Trun::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
-  std::uint32_t sample_count = static_cast<std::uint32_t>(std::size(m_entries));
-  wbits += bitio::write_uint<std::uint32_t>(&writer, sample_count);
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     wbits += bitio::write_int<std::int32_t>(&writer, m_data_offset);
@@ -83,8 +85,7 @@ std::uint64_t Trun::getDataSize() const {
 std::uint64_t Trun::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     rbits += bitio::read_int<std::int32_t>(&reader, &m_data_offset);
@@ -92,9 +93,13 @@ std::uint64_t Trun::readData(std::istream& is) {
   if (flags & 0x4) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_first_sample_flags);
   }
-  m_entries.resize(sample_count);
-  for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries[i].readData(&reader, flags);
+  m_entries.clear();
+  if ((flags & 0xf00) == 0) {
+    // サンプルごとのデータがないため, sample_count だけを保持する
+    return rbits;
+  }
+  for (std::size_t i = 0; i < m_sample_count; ++i) {
+    rbits += m_entries.emplace_back().readData(&reader, flags);
   }
   return rbits;
 }
-- 
2.43.0


From b102f2b8b9e1a9b821da259865bec66cb96dcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 17/26] fix: refuse a sample whose size does not fit the sample
 size box

Track::addMdatData() stored only the low 32 bits of the size of a sample of
4 GiB or more, so that the finished file gave a wrong size for it and wrong
positions for the samples behind it in its chunk.
---
 src/track/track.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 4d53080..7251aac 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
@@ -28,6 +29,10 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
+  if (data_size > std::numeric_limits<std::uint32_t>::max()) {
+    throw std::invalid_argument(
+        fmt::format("Track::addMdatData(): sample is too large for the sample size box: data_size={}", data_size));
+  }
   if (m_current_chunk_info.number_of_samples == 0) {
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
   }
-- 
2.43.0


From 0f6fd8a9496e953007fb3396f1283255f447f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 18/26] fix: decode stream type and stream priority of esds as
 unsigned

---
 include/shiguredo/mp4/box/esds.hpp | 8 ++++----
 src/box/esds.cpp                   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/shiguredo/mp4/box/esds.hpp b/include/shiguredo/mp4/box/esds.hpp
index ba2512c..764e607 100644
--- a/include/shiguredo/mp4/box/esds.hpp
+++ b/include/shiguredo/mp4/box/esds.hpp
@@ -44,7 +44,7 @@ struct ESDescriptorParameters {
   const bool stream_dependence_flag = false;
   const bool url_flag = false;
   const bool ocr_stream_flag = false;
-  const std::int8_t stream_priority = 0;
+  const std::uint8_t stream_priority = 0;
   const std::uint16_t depends_on_esid = 0;
   const std::vector<std::uint8_t> url_string = {};
   const std::uint16_t OCRESID = 0;
@@ -69,7 +69,7 @@ class ESDescriptor : public Descriptor {
   bool m_stream_dependence_flag;
   bool m_url_flag;
   bool m_ocr_stream_flag;
-  std::int8_t m_stream_priority;
+  std::uint8_t m_stream_priority;
   std::uint16_t m_depends_on_esid;
   std::vector<std::uint8_t> m_url_string;
   std::uint16_t m_OCRESID;
@@ -79,7 +79,7 @@ class ESDescriptor : public Descriptor {
 struct DecoderConfigDescriptorParameters {
   const std::uint32_t sub_descriptors_size = 0;
   const std::uint8_t object_type_indication;
-  const std::int8_t stream_type;
+  const std::uint8_t stream_type;
   const bool upstream = false;
   const bool reserved = true;
   const std::uint32_t buffer_size_db;
@@ -103,7 +103,7 @@ class DecoderConfigDescriptor : public Descriptor {
  private:
   std::uint32_t m_sub_descriptors_size = 0;
   std::uint8_t m_object_type_indication;
-  std::int8_t m_stream_type;
+  std::uint8_t m_stream_type;
   bool m_upstream;
   bool m_reserved;
   std::uint32_t m_buffer_size_db;
diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index 9bdf9a3..bdf9319 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -46,7 +46,7 @@ std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
   wbits += write_bool(writer, m_stream_dependence_flag);
   wbits += write_bool(writer, m_url_flag);
   wbits += write_bool(writer, m_ocr_stream_flag);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_priority, 5);
+  wbits += bitio::write_uint<std::uint8_t>(writer, m_stream_priority, 5);
   if (m_stream_dependence_flag) {
     wbits += bitio::write_uint<std::uint16_t>(writer, m_depends_on_esid);
   }
@@ -101,7 +101,7 @@ std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   rbits += read_bool(reader, &m_stream_dependence_flag);
   rbits += read_bool(reader, &m_url_flag);
   rbits += read_bool(reader, &m_ocr_stream_flag);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_priority, 5);
+  rbits += bitio::read_uint<std::uint8_t>(reader, &m_stream_priority, 5);
   if (m_stream_dependence_flag) {
     rbits += bitio::read_uint<std::uint16_t>(reader, &m_depends_on_esid);
   }
@@ -159,7 +159,7 @@ std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
   wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
   wbits += bitio::write_uint<std::uint8_t>(writer, m_object_type_indication);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_type, 6);
+  wbits += bitio::write_uint<std::uint8_t>(writer, m_stream_type, 6);
   wbits += write_bool(writer, m_upstream);
   wbits += write_bool(writer, m_reserved);
   wbits += bitio::write_uint<std::uint32_t>(writer, m_buffer_size_db, 24);
@@ -189,7 +189,7 @@ std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
   rbits += bitio::read_uint<std::uint8_t>(reader, &m_object_type_indication);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_type, 6);
+  rbits += bitio::read_uint<std::uint8_t>(reader, &m_stream_type, 6);
   rbits += read_bool(reader, &m_upstream);
   rbits += read_bool(reader, &m_reserved);
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_buffer_size_db, 24);
-- 
2.43.0


From d09fb6a94db8db1ecb41a7f940b611d103216a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 19/26] fix: removing a flag that is not set must not set it

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From 92a9cf9352ecdfe30b117741853801dd6c4da3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 20/26] fix: free boxes and sample buffers when writing them
 fails

---
 src/track/h264.cpp              | 9 ++++-----
 src/writer/faststart_writer.cpp | 5 +++--
 src/writer/simple_writer.cpp    | 8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0e0aaab..a50ad42 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -93,7 +93,7 @@ void H264Track::addData(const std::uint64_t timestamp,
     std::vector<uint8_t> sps_data = {};
     std::vector<uint8_t> pps_data = {};
     std::size_t video_data_size;
-    std::uint8_t* mdat_data;
+    std::vector<std::uint8_t> mdat_data;
     switch (nu.header & 0x1f) {
       case 1:
       case 2:
@@ -102,16 +102,15 @@ void H264Track::addData(const std::uint64_t timestamp,
       case 5:
         // VCL
         video_data_size = nu.end - nu.start - nu.start_code_size;
-        mdat_data = new std::uint8_t[video_data_size + 4];
+        mdat_data.resize(video_data_size + 4);
         mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
         mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
         mdat_data[2] = static_cast<std::uint8_t>(video_data_size >> 8);
         mdat_data[3] = static_cast<std::uint8_t>(video_data_size & 0xff);
 
-        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data + 4);
+        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data.data() + 4);
 
-        addMdatData(timestamp, mdat_data, video_data_size + 4, is_key);
-        delete[] mdat_data;
+        addMdatData(timestamp, mdat_data.data(), std::size(mdat_data), is_key);
         break;
       case 6:
         // SEI
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 1ea651f..a04bcf7 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -11,6 +11,7 @@
 #include <cstring>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -79,12 +80,12 @@ void FaststartWriter::recreateMoovBoxInfo() {
 }
 
 void FaststartWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  // 書き込みに失敗したときにも解放する
+  const auto ftyp = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Ftyp(m_ftyp_params)});
 
   ftyp->adjustOffsetAndSize(0);
   ftyp->write(m_os);
   m_ftyp_size = ftyp->getSize();
-  delete ftyp;
 }
 
 void FaststartWriter::writeMdatHeader() {
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 14c63b9..dadaef5 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -8,6 +8,7 @@
 #include <cstdint>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -40,12 +41,12 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
 }
 
 void SimpleWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  // 書き込みに失敗したときにも解放する
+  const auto ftyp = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Ftyp(m_ftyp_params)});
 
   ftyp->adjustOffsetAndSize(0);
   ftyp->write(m_os);
   m_ftyp_size = ftyp->getSize();
-  delete ftyp;
 
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size + Constants::LARGE_HEADER_SIZE), std::ios_base::beg);
   if (!m_os.good()) {
@@ -71,7 +72,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
   } else {
-    BoxInfo* free = new BoxInfo({.box = new box::Free()});
+    const auto free = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Free()});
     free->adjustOffsetAndSize(m_ftyp_size);
     free->write(m_os);
     if (!m_os.good()) {
@@ -82,7 +83,6 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
                     .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,
                     .header_size = Constants::SMALL_HEADER_SIZE,
                     .type = BoxType("mdat")});
-    delete free;
     mdat.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
-- 
2.43.0


From 36036d28c815a9f31521eb277834270799794249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:30 +0000
Subject: [PATCH 21/26] fix: refuse parameter sets the avcC box cannot hold

---
 src/track/h264.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index a50ad42..1f99052 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -197,10 +197,29 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   return NalUnit{start_code_size, start, data_size, header};
 }
 
+namespace {
+
+// avcC に記録できない数や長さのパラメータセットは, 壊れた avcC を書き込む前に拒否する
+void check_parameter_set(const char* name,
+                         const box::AVCParameterSet& params,
+                         const std::size_t count,
+                         const std::size_t max_count) {
+  if (count >= max_count) {
+    throw std::runtime_error(fmt::format("H264Track: too many {}s: max={}", name, max_count));
+  }
+  // 長さのフィールドは 16 ビット
+  if (params.getSize() > 2 + 0xffff) {
+    throw std::runtime_error(fmt::format("H264Track: {} is too long: size={}", name, params.getSize()));
+  }
+}
+
+}  // namespace
+
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
   // 同じ SPS は繰り返し送られてくるので, 一度だけ記録する
   if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
       std::end(m_sequence_parameter_sets)) {
+    check_parameter_set("SPS", params, std::size(m_sequence_parameter_sets), 0x1f);
     m_sequence_parameter_sets.emplace_back(params);
   }
 }
@@ -209,6 +228,7 @@ void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParamet
   // 同じ PPS は繰り返し送られてくるので, 一度だけ記録する
   if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
       std::end(m_picture_parameter_sets)) {
+    check_parameter_set("PPS", params, std::size(m_picture_parameter_sets), 0xff);
     m_picture_parameter_sets.emplace_back(params);
   }
 }
-- 
2.43.0


From e35ef2e12f3036d7265ed5273b51b06f06d7a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 22/26] fix: find the start code of a unit in the last five
 bytes of an access unit

---
 src/track/h264.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 1f99052..c4245a9 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -163,8 +163,10 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   std::size_t start_code_size;
   std::uint8_t header = 0;
   bool found = false;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
+  // 末尾の短い NalUnit も見つけられるように, ヘッダーの 1 バイトが残っている位置まで探す
+  while (index + 3 < data_size) {
+    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
       if (!found) {
         found = true;
         start_code_size = 4;
-- 
2.43.0


From bfa9e3ba10af34dffb5658f7224c1a2c9f9e82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:23 +0000
Subject: [PATCH 23/26] fix: keep 64-bit times and offsets of tfdt, mehd, sidx
 and tfra, refuse one an emsg cannot hold

---
 include/shiguredo/mp4/box/tfra.hpp |  1 +
 src/box/emsg.cpp                   |  6 ++++++
 src/box/mehd.cpp                   |  5 ++++-
 src/box/sidx.cpp                   |  7 ++++++-
 src/box/tfdt.cpp                   |  6 +++++-
 src/box/tfra.cpp                   | 11 ++++++++++-
 6 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/shiguredo/mp4/box/tfra.hpp b/include/shiguredo/mp4/box/tfra.hpp
index 96a513b..d04c846 100644
--- a/include/shiguredo/mp4/box/tfra.hpp
+++ b/include/shiguredo/mp4/box/tfra.hpp
@@ -43,6 +43,7 @@ class TfraEntry {
                          const std::uint8_t,
                          const std::uint8_t,
                          const std::uint8_t);
+  bool fitsVersion0() const;
 
  private:
   std::uint64_t m_time;
diff --git a/src/box/emsg.cpp b/src/box/emsg.cpp
index 9cb4a84..547dc1a 100644
--- a/src/box/emsg.cpp
+++ b/src/box/emsg.cpp
@@ -6,6 +6,8 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -56,6 +58,10 @@ std::uint64_t Emsg::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   if (m_version == 0) {
+    if (m_presentation_time > std::numeric_limits<std::uint32_t>::max()) {
+      throw std::runtime_error(
+          fmt::format("Emsg::writeData(): presentation time delta is too large: {}", m_presentation_time));
+    }
     wbits += bitio::write_string(&writer, m_scheme_uri);
     wbits += bitio::write_string(&writer, m_value);
     wbits += bitio::write_uint<std::uint32_t>(&writer, m_timescale);
diff --git a/src/box/mehd.cpp b/src/box/mehd.cpp
index cbdd68d..d0780d6 100644
--- a/src/box/mehd.cpp
+++ b/src/box/mehd.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -23,7 +24,9 @@ Mehd::Mehd() {
 }
 
 Mehd::Mehd(const MehdParameters& params) : m_fragment_duration(params.fragment_duration) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  setVersion(params.version == 0 && m_fragment_duration > std::numeric_limits<std::uint32_t>::max() ? 1
+                                                                                                    : params.version);
   setFlags(params.flags);
   m_type = box_type_mehd();
 }
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..6e88506 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -7,6 +7,7 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <string>
@@ -32,7 +33,11 @@ Sidx::Sidx(const SidxParameters& params)
       m_earliest_presentation_time(params.earliest_presentation_time),
       m_first_offset(params.first_offset),
       m_references(params.references) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  constexpr std::uint64_t version0_max = std::numeric_limits<std::uint32_t>::max();
+  setVersion(params.version == 0 && (m_earliest_presentation_time > version0_max || m_first_offset > version0_max)
+                 ? 1
+                 : params.version);
   setFlags(params.flags);
   m_type = box_type_sidx();
 }
diff --git a/src/box/tfdt.cpp b/src/box/tfdt.cpp
index c88dcfe..5e6dab3 100644
--- a/src/box/tfdt.cpp
+++ b/src/box/tfdt.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -23,7 +24,10 @@ Tfdt::Tfdt() {
 }
 
 Tfdt::Tfdt(const TfdtParameters& params) : m_base_media_decode_time(params.base_media_decode_time) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  setVersion(params.version == 0 && m_base_media_decode_time > std::numeric_limits<std::uint32_t>::max()
+                 ? 1
+                 : params.version);
   setFlags(params.flags);
   m_type = box_type_tfdt();
 }
diff --git a/src/box/tfra.cpp b/src/box/tfra.cpp
index 4d2b349..0f53cdc 100644
--- a/src/box/tfra.cpp
+++ b/src/box/tfra.cpp
@@ -7,6 +7,7 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <string>
@@ -33,7 +34,10 @@ Tfra::Tfra(const TfraParameters& params)
       m_length_size_of_trun_num(params.length_size_of_trun_num),
       m_length_size_of_sample_num(params.length_size_of_sample_num),
       m_entries(params.entries) {
-  setVersion(params.version);
+  // 32 bit に収まらない値は version 0 では表現できない
+  const bool need_version1 =
+      std::any_of(std::begin(m_entries), std::end(m_entries), [](const auto& e) { return !e.fitsVersion0(); });
+  setVersion(params.version == 0 && need_version1 ? 1 : params.version);
   setFlags(params.flags);
   m_type = box_type_tfra();
 }
@@ -98,6 +102,11 @@ TfraEntry::TfraEntry(const TfraEntryParameters& params)
       m_trun_number(params.trun_number),
       m_sample_number(params.sample_number) {}
 
+bool TfraEntry::fitsVersion0() const {
+  constexpr std::uint64_t version0_max = std::numeric_limits<std::uint32_t>::max();
+  return m_time <= version0_max && m_moof_offset <= version0_max;
+}
+
 std::string TfraEntry::toString() const {
   return fmt::format("{{Time={} MoofOffset={} TrafNumber={} TrunNumber={} SampleNumber={}}}", m_time, m_moof_offset,
                      m_traf_number, m_trun_number, m_sample_number);
-- 
2.43.0


From b9f1cc20901ef6c36dfb965de86126622d8675b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:23 +0000
Subject: [PATCH 24/26] fix: refuse counts and lengths the avcC, sidx and vpcC
 boxes cannot hold

---
 src/box/avc.cpp  | 12 ++++++++++++
 src/box/sidx.cpp |  4 ++++
 src/box/vpc.cpp  |  6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..7ce5a17 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <stdexcept>
@@ -52,6 +53,9 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("AVCParameterSet::writeData(): too long: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +130,14 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  // 個数のフィールドは SPS が 5 ビット, PPS と SPS 拡張が 8 ビット
+  if (std::size(m_sequence_parameter_sets) > 0x1f || std::size(m_picture_parameter_sets) > 0xff ||
+      std::size(m_sequence_parameter_sets_ext) > 0xff) {
+    throw std::runtime_error(
+        fmt::format("AVCDecoderConfiguration::writeData(): too many parameter sets: SPS={} PPS={} SPSExt={}",
+                    std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets),
+                    std::size(m_sequence_parameter_sets_ext)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index 6e88506..861e406 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -10,6 +10,7 @@
 #include <limits>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -62,6 +63,9 @@ std::uint64_t Sidx::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint64_t>(&writer, m_earliest_presentation_time, m_version == 0 ? 32 : 64);
   wbits += bitio::write_uint<std::uint64_t>(&writer, m_first_offset, m_version == 0 ? 32 : 64);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_reserved);
+  if (std::size(m_references) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("Sidx::writeData(): too many references: {}", std::size(m_references)));
+  }
   std::uint16_t size = static_cast<std::uint16_t>(std::size(m_references));
   wbits += bitio::write_uint<std::uint16_t>(&writer, size);
   wbits += std::accumulate(std::begin(m_references), std::end(m_references), 0UL,
diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..88cff52 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -5,7 +5,9 @@
 
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -46,6 +48,10 @@ std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
   if (m_version == 0) {
     return wbits;
   }
+  if (std::size(m_codec_initialization_data) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("VPCodecConfiguration::writeData(): codec initialization data is too long: {}",
+                                         std::size(m_codec_initialization_data)));
+  }
   std::uint16_t size = static_cast<std::uint16_t>(std::size(m_codec_initialization_data));
   wbits += bitio::write_uint<std::uint16_t>(&writer, size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_codec_initialization_data);
-- 
2.43.0


From 2c9abede73cc550da38912ce921819d77d5805a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:23 +0000
Subject: [PATCH 25/26] fix: refuse a value write_uvarint cannot hold instead
 of dropping its upper bits

---
 include/shiguredo/mp4/bitio/bitio.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index 5c85507..cc877fb 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -147,6 +147,10 @@ std::uint64_t uvarint_size(const T u) {
 template <typename T>
 std::uint64_t write_uvarint(Writer* writer, const T u) {
   std::uint64_t val = static_cast<std::uint64_t>(u);
+  // sizeof(u) バイトに 7 ビットずつ書き込む
+  if ((val >> (7 * sizeof(u))) != 0) {
+    throw std::runtime_error(fmt::format("bitio::write_uvarint(): value is too large: {}", val));
+  }
   for (std::int8_t i = 7 * (sizeof(u) - 1); i >= 0; i -= 7) {
     std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
     if (i > 0) {
-- 
2.43.0


From b9951681e109ba18410e1f3b128803722c23aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:45 +0000
Subject: [PATCH 26/26] fix: do not let a bitio::Writer report bits as written
 after its stream refused a byte

---
 src/bitio/writer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bitio/writer.cpp b/src/bitio/writer.cpp
index 3dbb6fa..b56f349 100644
--- a/src/bitio/writer.cpp
+++ b/src/bitio/writer.cpp
@@ -45,14 +45,14 @@ void Writer::writeBit(const bool bit) {
 
   if (m_width == 8) {
     char data[1] = {static_cast<char>(m_octet)};
+    // 書き込みに失敗しても, 続く書き込みが成功したことにならないように先に戻しておく
+    m_octet = 0x00;
+    m_width = 0;
     m_os.write(data, 1);
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("bitio::Writer::writeBit(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
-
-    m_octet = 0x00;
-    m_width = 0;
   }
 }
 
-- 
2.43.0

