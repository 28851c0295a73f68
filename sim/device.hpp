// Simulated devices: output medium, input medium, spool file; sparse storage.
#pragma once

#include <map>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>

#include "core.hpp"

namespace sim {

// Repeating-pattern virtual memory: pattern k, byte j = block_k[j % kPatternBlock]; mapped many times so that a
// multi-GiB sample needs 64 KiB of physical memory.
constexpr std::size_t kPatternBlock = 65536;
constexpr std::uint64_t kPatternSpan = (5ULL << 30);
constexpr int kPatterns = 4;
const std::uint8_t* pattern(int k);

struct ByteSource {
  virtual ~ByteSource() = default;
  virtual std::uint64_t size() const = 0;
  virtual bool read(std::uint64_t off, std::size_t n, std::uint8_t* dst) const = 0;
};

// Storage. Dense: a vector. Sparse: extents that are literal or a stretch of a pattern.
class Blob : public ByteSource {
 public:
  explicit Blob(bool sparse_ = false) : sparse(sparse_) {}
  void write(std::uint64_t off, const std::uint8_t* p, std::size_t n);
  bool read(std::uint64_t off, std::size_t n, std::uint8_t* dst) const override;
  std::uint64_t size() const override { return sparse ? m_size : dense.size(); }
  // true if [off, off+n) is stretch of pattern k starting at phase 0 of that pattern
  bool is_pattern(std::uint64_t off, std::uint64_t n, int k) const;
  std::vector<std::uint8_t> dense;
  bool sparse;
  std::uint64_t literal_bytes = 0;

 private:
  struct Ext {
    std::uint64_t len = 0;
    int k = -1;
    std::uint64_t phase = 0;
    std::vector<std::uint8_t> lit;
  };
  std::map<std::uint64_t, Ext> m_ext;
  std::uint64_t m_size = 0;
  void punch(std::uint64_t off, std::uint64_t n);
  void put(std::uint64_t off, Ext e);
  void put_literal(std::uint64_t off, const std::uint8_t* p, std::size_t n);
};

struct WriteOp {
  std::uint64_t off;
  std::vector<std::uint8_t> data;
};

class SimOut : public std::streambuf {
 public:
  SimOut(Session& s, Blob& dev, std::size_t bufsize, std::int64_t capacity = -1);
  bool log_ops = false;
  std::vector<WriteOp> oplog;
  std::vector<std::uint64_t> op_marks;  // op index at harness-chosen moments
  std::uint64_t device_writes() const { return m_writes; }
  std::uint64_t position() const { return m_pos; }

 protected:
  int_type overflow(int_type c) override;
  std::streamsize xsputn(const char* s, std::streamsize n) override;
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override;
  pos_type seekpos(pos_type pos, std::ios_base::openmode which) override;
  int sync() override;

 private:
  Session& m_s;
  Blob& m_dev;
  std::vector<char> m_buf;
  std::uint64_t m_pos = 0;
  std::int64_t m_cap;
  std::uint64_t m_writes = 0;
  std::size_t device_write(const char* p, std::size_t n, bool* failed);
  bool flush_buf();
  void reset_area() {
    if (!m_buf.empty()) setp(m_buf.data(), m_buf.data() + m_buf.size());
  }
};

class SimIn : public std::streambuf {
 public:
  // frag: 0 whole buffer at a time, n>0: random fragments of 1..n bytes
  SimIn(Session& s, const std::vector<std::uint8_t>& content, std::uint64_t frag, std::uint64_t frag_seed,
        std::int64_t avail = -1);
  SimIn(Session& s, const ByteSource& content, std::uint64_t frag, std::uint64_t frag_seed);

 protected:
  int_type underflow() override;
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override;
  pos_type seekpos(pos_type pos, std::ios_base::openmode which) override;

 private:
  Session& m_s;
  const std::vector<std::uint8_t>* m_dense = nullptr;
  const ByteSource* m_source = nullptr;
  std::uint64_t m_size;
  std::uint64_t m_frag;
  Rng m_rng;
  std::uint64_t m_avail;
  std::uint64_t m_pos = 0;  // device position = end of get area
  std::vector<char> m_buf;
};

// console capture (thread aware)
void install_console();
struct ConsoleCapture {
  ConsoleCapture();
  ~ConsoleCapture();
  std::string text() const;
  void set_fault(bool f);
 private:
  void* old;
  void* mine;
};

// open descriptors of this process that refer to regular files under dir
std::vector<std::string> open_files_under(const std::string& dir);
std::vector<std::string> list_dir(const std::string& dir);
void clear_dir(const std::string& dir);

}  // namespace sim
