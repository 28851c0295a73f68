#include "device.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iostream>

namespace sim {

static const std::uint8_t* g_pattern_base[kPatterns] = {};

const std::uint8_t* pattern(int k) {
  auto& base = g_pattern_base;
  if (base[k]) return base[k];
  HarnessScope hs;
  int fd = ::memfd_create("simpattern", 0);
  auto block = payload(0x9a77e12 + static_cast<std::uint64_t>(k), kPatternBlock);
  // 1 MiB of physical pages per pattern keeps the number of mappings low
  constexpr std::uint64_t unit = 1 << 20;
  for (std::uint64_t o = 0; o < unit; o += kPatternBlock)
    if (::pwrite(fd, block.data(), block.size(), static_cast<off_t>(o)) < 0) std::abort();
  auto* p = static_cast<std::uint8_t*>(
      ::mmap(nullptr, kPatternSpan, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED) std::abort();
  for (std::uint64_t o = 0; o < kPatternSpan; o += unit)
    if (::mmap(p + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) std::abort();
  ::close(fd);
  base[k] = p;
  return p;
}

// ------------------------------------------------------------------------------------------------- Blob
void Blob::punch(std::uint64_t off, std::uint64_t n) {
  if (n == 0) return;
  auto it = m_ext.upper_bound(off);
  if (it != m_ext.begin()) {
    auto pr = std::prev(it);
    if (pr->first + pr->second.len > off) it = pr;
  }
  while (it != m_ext.end() && it->first < off + n) {
    const std::uint64_t eo = it->first;
    Ext e = std::move(it->second);
    it = m_ext.erase(it);
    if (eo < off) {
      Ext l = e;
      l.len = off - eo;
      if (l.k < 0) l.lit.resize(l.len);
      m_ext[eo] = std::move(l);
    }
    if (eo + e.len > off + n) {
      const std::uint64_t skip = off + n - eo;
      Ext r = e;
      r.len = e.len - skip;
      if (r.k < 0)
        r.lit.erase(r.lit.begin(), r.lit.begin() + static_cast<std::ptrdiff_t>(skip));
      else
        r.phase += skip;
      m_ext[off + n] = std::move(r);
      break;
    }
  }
}

void Blob::put(std::uint64_t off, Ext e) {
  punch(off, e.len);
  m_size = std::max(m_size, off + e.len);
  auto it = m_ext.lower_bound(off);
  if (it != m_ext.begin()) {
    auto pr = std::prev(it);
    if (pr->first + pr->second.len == off && pr->second.k == e.k) {
      if (e.k < 0 && pr->second.len < (1 << 16)) {
        pr->second.lit.insert(pr->second.lit.end(), e.lit.begin(), e.lit.end());
        pr->second.len += e.len;
        return;
      }
      if (e.k >= 0 && pr->second.phase + pr->second.len == e.phase) {
        pr->second.len += e.len;
        return;
      }
    }
  }
  m_ext[off] = std::move(e);
}

void Blob::put_literal(std::uint64_t off, const std::uint8_t* p, std::size_t n) {
  if (!n) return;
  Ext e;
  e.len = n;
  e.lit.assign(p, p + n);
  literal_bytes += n;
  if (literal_bytes > (64u << 20)) die_hang("more than 64 MiB of unexpected bytes written");
  put(off, std::move(e));
}

static std::size_t match_len(const std::uint8_t* p, std::size_t n, int k, std::uint64_t phase) {
  const std::uint8_t* b = pattern(k);
  // bytes taken straight from the (read-only) pattern need no comparison
  if (p >= b && p < b + kPatternSpan && static_cast<std::uint64_t>(p - b) % kPatternBlock == phase % kPatternBlock)
    return std::min<std::size_t>(n, static_cast<std::size_t>(b + kPatternSpan - p));
  std::size_t i = 0;
  while (i < n) {
    const std::uint64_t ph = (phase + i) % kPatternBlock;
    const std::size_t m = std::min<std::size_t>(n - i, kPatternBlock - ph);
    if (std::memcmp(p + i, b + ph, m) == 0) {
      i += m;
      continue;
    }
    std::size_t j = 0;
    while (j < m && p[i + j] == b[ph + j]) ++j;
    return i + j;
  }
  return n;
}

void Blob::write(std::uint64_t off, const std::uint8_t* p, std::size_t n) {
  HarnessScope hs;
  if (n == 0) return;
  if (!sparse) {
    if (off + n > (256u << 20)) die_hang("runaway output: write beyond 256 MiB");
    if (dense.size() < off + n) dense.resize(off + n);
    std::memcpy(dense.data() + off, p, n);
    return;
  }
  std::size_t i = 0, lit_from = 0;
  auto flush_lit = [&](std::size_t to) {
    if (to > lit_from) put_literal(off + lit_from, p + lit_from, to - lit_from);
  };
  while (i < n) {
    // 1. continuation of what precedes
    int bk = -1;
    std::uint64_t bph = 0;
    std::size_t bl = 0;
    auto it = m_ext.lower_bound(off + i);
    if (it != m_ext.begin() && lit_from == i) {
      auto pr = std::prev(it);
      if (pr->second.k >= 0 && pr->first + pr->second.len == off + i) {
        std::uint64_t ph = pr->second.phase + pr->second.len;
        std::size_t l = match_len(p + i, n - i, pr->second.k, ph);
        if (l) { bk = pr->second.k; bph = ph; bl = l; }
      }
    }
    // 2. a pattern starting here
    const std::size_t need = std::min<std::size_t>(16, n - i);
    if (bl < 16) {
      for (int k = 0; k < kPatterns; ++k) {
        if (std::memcmp(p + i, pattern(k), need) != 0) continue;
        std::size_t l = match_len(p + i, n - i, k, 0);
        if (l > bl && (l >= 16)) { bk = k; bph = 0; bl = l; }
      }
    }
    if (bk >= 0) {
      flush_lit(i);
      Ext e;
      e.len = bl;
      e.k = bk;
      e.phase = bph;
      put(off + i, std::move(e));
      i += bl;
      lit_from = i;
    } else {
      ++i;
    }
  }
  flush_lit(n);
}

bool Blob::read(std::uint64_t off, std::size_t n, std::uint8_t* dst) const {
  HarnessScope hs;
  if (off > size() || n > size() - off) return false;
  if (!sparse) {
    if (n) std::memcpy(dst, dense.data() + off, n);
    return true;
  }
  std::memset(dst, 0, n);
  auto it = m_ext.upper_bound(off);
  if (it != m_ext.begin()) --it;
  for (; it != m_ext.end() && it->first < off + n; ++it) {
    const std::uint64_t a = std::max(off, it->first), b = std::min(off + n, it->first + it->second.len);
    if (a >= b) continue;
    const std::uint64_t in = a - it->first;
    if (it->second.k < 0) {
      std::memcpy(dst + (a - off), it->second.lit.data() + in, b - a);
    } else {
      std::uint64_t ph = it->second.phase + in;
      const std::uint8_t* bl = pattern(it->second.k);
      for (std::uint64_t x = a; x < b;) {
        const std::uint64_t o = ph % kPatternBlock, m = std::min(b - x, kPatternSpan - o);
        std::memcpy(dst + (x - off), bl + o, m);
        x += m;
        ph += m;
      }
    }
  }
  return true;
}

bool Blob::is_pattern(std::uint64_t off, std::uint64_t n, int k) const {
  if (n == 0) return true;
  std::uint64_t x = off;
  while (x < off + n) {
    auto it = m_ext.upper_bound(x);
    if (it == m_ext.begin()) return false;
    --it;
    if (it->first + it->second.len <= x) return false;
    const std::uint64_t in = x - it->first, m = std::min(off + n - x, it->second.len - in);
    // extents record how the bytes were recognised; equal bytes recognised otherwise are just as good
    if (!(it->second.k == k && (it->second.phase + in) % kPatternBlock == (x - off) % kPatternBlock)) {
      std::vector<std::uint8_t> tmp(std::min<std::uint64_t>(m, 1 << 20));
      for (std::uint64_t y = 0; y < m; y += tmp.size()) {
        const std::size_t c = static_cast<std::size_t>(std::min<std::uint64_t>(tmp.size(), m - y));
        read(x + y, c, tmp.data());
        if (match_len(tmp.data(), c, k, x + y - off) != c) return false;
      }
    }
    x += m;
  }
  return true;
}

// ------------------------------------------------------------------------------------------------- SimOut
SimOut::SimOut(Session& s, Blob& dev, std::size_t bufsize, std::int64_t capacity)
    : m_s(s), m_dev(dev), m_buf(bufsize), m_cap(capacity) {
  reset_area();
}

std::size_t SimOut::device_write(const char* p, std::size_t n, bool* failed) {
  *failed = false;
  sched_point("out.write");
  HarnessScope hs;
  m_s.op(m_dev.sparse ? 0 : n);
  m_s.trace.u64(m_pos);
  m_s.trace.u64(n);
  Fault f;
  std::size_t k = n;
  if (m_s.fault("out.write", &f)) {
    if (f.kind == kThrow) throw std::ios_base::failure("simulated device error");
    k = f.kind == kPartial ? static_cast<std::size_t>(static_cast<__int128>(n) * std::min<std::int64_t>(f.arg, 999) / 1000) : 0;
    *failed = true;
  }
  if (m_s.quota >= 0) {
    if (k > static_cast<std::uint64_t>(m_s.quota)) {
      k = 0;
      *failed = true;
      m_s.quota = 0;
      m_s.st.faults_fired["out.write/refused"]++;
      ++m_s.fired;
    } else {
      m_s.quota -= static_cast<std::int64_t>(k);
    }
  }
  if (m_cap >= 0 && m_pos + k > static_cast<std::uint64_t>(m_cap)) {
    k = m_pos >= static_cast<std::uint64_t>(m_cap) ? 0 : static_cast<std::size_t>(static_cast<std::uint64_t>(m_cap) - m_pos);
    *failed = true;
    m_s.st.faults_fired["out.write/full"]++;
    ++m_s.fired;
  }
  if (k) {
    m_dev.write(m_pos, reinterpret_cast<const std::uint8_t*>(p), k);
    if (!m_dev.sparse) m_s.trace.mem(p, k);
    if (log_ops)
      oplog.push_back({m_pos, {reinterpret_cast<const std::uint8_t*>(p), reinterpret_cast<const std::uint8_t*>(p) + k}});
    ++m_writes;
  }
  m_pos += k;
  return k;
}

bool SimOut::flush_buf() {
  if (m_buf.empty() || pptr() == pbase()) return true;
  const std::size_t n = static_cast<std::size_t>(pptr() - pbase());
  bool failed;
  const std::size_t k = device_write(pbase(), n, &failed);
  if (k) {
    std::memmove(m_buf.data(), m_buf.data() + k, n - k);
  }
  reset_area();
  pbump(static_cast<int>(n - k));
  return !failed;
}

SimOut::int_type SimOut::overflow(int_type c) {
  if (m_buf.empty()) {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char ch = traits_type::to_char_type(c);
    bool failed;
    const std::size_t k = device_write(&ch, 1, &failed);
    return k == 1 && !failed ? c : traits_type::eof();
  }
  if (!flush_buf() || pptr() == epptr()) return traits_type::eof();
  if (!traits_type::eq_int_type(c, traits_type::eof())) {
    *pptr() = traits_type::to_char_type(c);
    pbump(1);
  }
  return traits_type::not_eof(c);
}

std::streamsize SimOut::xsputn(const char* s, std::streamsize n) {
  if (n <= 0) return 0;
  const std::size_t N = static_cast<std::size_t>(n);
  bool failed;
  if (m_buf.empty()) return static_cast<std::streamsize>(device_write(s, N, &failed));
  if (N <= static_cast<std::size_t>(epptr() - pptr())) {
    std::memcpy(pptr(), s, N);
    pbump(static_cast<int>(N));
    return n;
  }
  if (!flush_buf()) return 0;
  if (N >= m_buf.size()) return static_cast<std::streamsize>(device_write(s, N, &failed));
  std::memcpy(pptr(), s, N);
  pbump(static_cast<int>(N));
  return n;
}

SimOut::pos_type SimOut::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) {
  Fault f;
  const std::uint64_t pending = m_buf.empty() ? 0 : static_cast<std::uint64_t>(pptr() - pbase());
  if (dir == std::ios_base::cur && off == 0) {
    sched_point("out.tell");
    m_s.op();
    if (m_s.fault("out.tell", &f)) {
      if (f.kind == kThrow) throw std::ios_base::failure("simulated device error");
      return pos_type(off_type(-1));
    }
    return pos_type(static_cast<off_type>(m_pos + pending));
  }
  sched_point("out.seek");
  m_s.op();
  if (m_s.fault("out.seek", &f)) {
    if (f.kind == kThrow) throw std::ios_base::failure("simulated device error");
    return pos_type(off_type(-1));
  }
  if (!flush_buf()) return pos_type(off_type(-1));
  std::int64_t np = off;
  if (dir == std::ios_base::cur) np += static_cast<std::int64_t>(m_pos);
  if (dir == std::ios_base::end) np += static_cast<std::int64_t>(m_dev.size());
  if (np < 0) return pos_type(off_type(-1));
  m_pos = static_cast<std::uint64_t>(np);
  m_s.trace.u64(m_pos);
  return pos_type(static_cast<off_type>(m_pos));
}

SimOut::pos_type SimOut::seekpos(pos_type pos, std::ios_base::openmode which) {
  return seekoff(off_type(pos), std::ios_base::beg, which);
}

int SimOut::sync() {
  sched_point("out.sync");
  return flush_buf() ? 0 : -1;
}

// ------------------------------------------------------------------------------------------------- SimIn
SimIn::SimIn(Session& s, const std::vector<std::uint8_t>& content, std::uint64_t frag, std::uint64_t frag_seed,
             std::int64_t avail)
    : m_s(s), m_dense(&content), m_size(content.size()), m_frag(frag), m_rng(frag_seed),
      m_avail(avail < 0 ? content.size() : std::min<std::uint64_t>(content.size(), static_cast<std::uint64_t>(avail))),
      m_buf(frag ? static_cast<std::size_t>(frag) : 8192) {}

SimIn::SimIn(Session& s, const ByteSource& content, std::uint64_t frag, std::uint64_t frag_seed)
    : m_s(s), m_source(&content), m_size(content.size()), m_frag(frag), m_rng(frag_seed), m_avail(m_size),
      m_buf(frag ? static_cast<std::size_t>(frag) : 8192) {}

SimIn::int_type SimIn::underflow() {
  sched_point("in.read");
  HarnessScope hs;
  std::size_t want = m_frag ? static_cast<std::size_t>(1 + m_rng.below(m_frag)) : m_buf.size();
  const std::uint64_t left = m_pos < m_avail ? m_avail - m_pos : 0;
  want = static_cast<std::size_t>(std::min<std::uint64_t>(want, left));
  m_s.op(want);
  m_s.trace.u64(m_pos);
  Fault f;
  if (m_s.fault("in.read", &f)) {
    if (f.kind == kThrow) throw std::ios_base::failure("simulated read error");
    if (f.kind == kShort) {
      want = std::min<std::size_t>(want, 1);
    } else {
      return traits_type::eof();
    }
  }
  if (want == 0) {
    if (m_pos < m_size) m_s.st.faults_fired["in.read/early-end"]++, ++m_s.fired;
    return traits_type::eof();
  }
  if (m_dense)
    std::memcpy(m_buf.data(), m_dense->data() + m_pos, want);
  else
    m_source->read(m_pos, want, reinterpret_cast<std::uint8_t*>(m_buf.data()));
  setg(m_buf.data(), m_buf.data(), m_buf.data() + want);
  m_pos += want;
  return traits_type::to_int_type(*gptr());
}

SimIn::pos_type SimIn::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) {
  Fault f;
  const std::uint64_t cur = m_pos - static_cast<std::uint64_t>(egptr() - gptr());
  if (dir == std::ios_base::cur && off == 0) {
    sched_point("in.tell");
    m_s.op();
    if (m_s.fault("in.tell", &f)) {
      if (f.kind == kThrow) throw std::ios_base::failure("simulated read error");
      return pos_type(off_type(-1));
    }
    return pos_type(static_cast<off_type>(cur));
  }
  sched_point("in.seek");
  m_s.op();
  if (m_s.fault("in.seek", &f)) {
    if (f.kind == kThrow) throw std::ios_base::failure("simulated read error");
    return pos_type(off_type(-1));
  }
  __int128 np = off;
  if (dir == std::ios_base::cur) np += cur;
  if (dir == std::ios_base::end) np += m_size;
  if (np < 0 || np > (static_cast<__int128>(1) << 62)) return pos_type(off_type(-1));
  m_pos = static_cast<std::uint64_t>(np);
  setg(m_buf.data(), m_buf.data(), m_buf.data());
  m_s.trace.u64(m_pos);
  return pos_type(static_cast<off_type>(m_pos));
}

SimIn::pos_type SimIn::seekpos(pos_type pos, std::ios_base::openmode which) {
  return seekoff(off_type(pos), std::ios_base::beg, which);
}

// ------------------------------------------------------------------------------------------------- console
namespace {
struct Sink {
  std::string text;
  bool fault = false;
};
thread_local Sink* t_sink = nullptr;
class ConsoleBuf : public std::streambuf {
 public:
  explicit ConsoleBuf(std::streambuf* r) : real(r) {}
  std::streambuf* real;

 protected:
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (!t_sink) return real->sputn(s, n);
    sched_point("console");
    HarnessScope hs;
    if (t_sink->text.size() + static_cast<std::size_t>(n) > (512u << 20)) die_hang("console output runaway");
    t_sink->text.append(s, static_cast<std::size_t>(n));
    return n;
  }
  int sync() override { return t_sink ? 0 : real->pubsync(); }
};
}  // namespace

void install_console() {
  static ConsoleBuf* b = nullptr;
  if (b) return;
  b = new ConsoleBuf(std::cout.rdbuf());
  std::cout.rdbuf(b);
}

ConsoleCapture::ConsoleCapture() {
  old = t_sink;
  auto* s = new Sink;
  mine = s;
  t_sink = s;
}
ConsoleCapture::~ConsoleCapture() {
  t_sink = static_cast<Sink*>(old);
  delete static_cast<Sink*>(mine);
}
std::string ConsoleCapture::text() const { return static_cast<Sink*>(mine)->text; }

// ------------------------------------------------------------------------------------------------- directories
std::vector<std::string> open_files_under(const std::string& dir) {
  std::vector<std::string> r;
  if (DIR* d = ::opendir("/proc/self/fd")) {
    while (auto* e = ::readdir(d)) {
      char buf[4096];
      const std::string l = std::string("/proc/self/fd/") + e->d_name;
      const auto n = ::readlink(l.c_str(), buf, sizeof buf - 1);
      if (n > 0) {
        std::string t(buf, static_cast<std::size_t>(n));
        if (t.rfind(dir, 0) == 0) r.push_back(t);
      }
    }
    ::closedir(d);
  }
  return r;
}

std::vector<std::string> list_dir(const std::string& dir) {
  std::vector<std::string> r;
  if (DIR* d = ::opendir(dir.c_str())) {
    while (auto* e = ::readdir(d)) {
      const std::string n = e->d_name;
      if (n != "." && n != "..") r.push_back(n);
    }
    ::closedir(d);
  }
  std::sort(r.begin(), r.end());
  return r;
}

}  // namespace sim
