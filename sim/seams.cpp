// Link-time seams: allocator, clock, spool files, locks. Outside a session everything falls through to the real thing.
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <filesystem>
#include <new>
#include <system_error>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n)
#endif

#include "core.hpp"
#include "device.hpp"

namespace sim {
bool g_sched_active();
}

using sim::t_lib;
using sim::t_sess;

// ------------------------------------------------------------------------------------------------- allocator
namespace {
struct Head {
  sim::Session* owner;
  std::uint64_t size;
};
static_assert(sizeof(Head) == 16);

void* sim_alloc(std::size_t n, bool nothrow) {
  sim::Session* s = (t_sess && t_lib) ? t_sess : nullptr;
  if (s) {
    sim::HarnessScope hs;
    ++s->alloc_count;
    sim::Fault f;
    bool fail = s->fault("alloc", &f);
    if (s->alloc_cap && s->live_bytes + static_cast<std::int64_t>(std::min<std::uint64_t>(n, 1ULL << 60)) > s->alloc_cap) {
      if (!s->over_cap) s->over_cap_request = n;
      s->over_cap = true;
      fail = true;
    }
    if (fail) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  if (n > (1ULL << 60)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  auto* h = static_cast<Head*>(::malloc(n + sizeof(Head)));
  if (!h) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  h->owner = s;
  h->size = n;
  if (s) {
    s->live_bytes += static_cast<std::int64_t>(n);
    ++s->live_blocks;
    if (s->live_bytes > s->peak_bytes) s->peak_bytes = s->live_bytes;
    ::memset(h + 1, s->fill, n);
  }
  POISON(h, sizeof(Head));
  return h + 1;
}

__attribute__((no_sanitize("address"))) void sim_free(void* p) noexcept {
  if (!p) return;
  auto* h = static_cast<Head*>(p) - 1;
  if (h->owner && h->owner == t_sess) {
    t_sess->live_bytes -= static_cast<std::int64_t>(h->size);
    --t_sess->live_blocks;
  }
  ::free(h);
}
}  // namespace

void* operator new(std::size_t n) { return sim_alloc(n, false); }
void* operator new[](std::size_t n) { return sim_alloc(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, std::size_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

extern "C" {

// ------------------------------------------------------------------------------------------------- clock
static std::int64_t sim_now() {
  auto* s = t_sess;
  const std::int64_t v = s->clock_ns;
  s->clock_ns += s->clock_step_ns;
  ++s->clock_reads;
  sim::sched_point("clock");
  return v;
}

std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!t_sess || !t_lib) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  return std::chrono::system_clock::time_point(std::chrono::nanoseconds(sim_now()));
}
int __real_clock_gettime(clockid_t c, struct timespec* t);
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!t_sess || !t_lib || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, t);
  const auto v = sim_now();
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  return 0;
}
time_t __real_time(time_t* t);
time_t __wrap_time(time_t* t) {
  if (!t_sess || !t_lib) return __real_time(t);
  const time_t v = static_cast<time_t>(sim_now() / 1000000000);
  if (t) *t = v;
  return v;
}
int __real_gettimeofday(struct timeval* tv, void* tz);
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
  if (!t_sess || !t_lib) return __real_gettimeofday(tv, tz);
  const auto v = sim_now();
  tv->tv_sec = v / 1000000000;
  tv->tv_usec = (v % 1000000000) / 1000;
  return 0;
}

// functions whose result lies in memory of the process, shared by its threads: another thread may run before it is used
#define SHARED_RESULT(R, name, A)                         \
  R __real_##name(A);                                     \
  R __wrap_##name(A a) {                                  \
    R r = __real_##name(a);                               \
    if (t_sess && t_lib) sim::sched_point("shared." #name); \
    return r;                                             \
  }
SHARED_RESULT(struct tm*, gmtime, const time_t*)
SHARED_RESULT(struct tm*, localtime, const time_t*)
SHARED_RESULT(char*, ctime, const time_t*)
SHARED_RESULT(char*, asctime, const struct tm*)

// ------------------------------------------------------------------------------------------------- spool files
namespace {
struct SpoolDev {
  sim::Session* s;
  int fd;
  std::string path;
  sim::Blob blob{true};
  bool sparse;
  std::uint64_t pos = 0;
  bool fd_open = true;
  FILE* fp = nullptr;
  std::vector<char> buf;
};
SpoolDev* dev_of_fd(int fd) {
  if (!t_sess) return nullptr;
  for (void* p : t_sess->spool_devs) {
    auto* d = static_cast<SpoolDev*>(p);
    if (d->fd == fd && d->fd_open) return d;
  }
  return nullptr;
}

ssize_t ck_write(void* c, const char* p, size_t n) {
  auto* d = static_cast<SpoolDev*>(c);
  sim::sched_point("spool.write");
  sim::HarnessScope hs;
  d->s->op(d->sparse ? 0 : n);
  d->s->trace.u64(d->pos);
  d->s->trace.u64(n);
  sim::Fault f;
  size_t k = n;
  bool fail = false;
  if (d->s->fault("spool.write", &f)) {
    k = f.kind == sim::kPartial ? static_cast<size_t>(static_cast<__int128>(n) * std::min<std::int64_t>(f.arg, 999) / 1000) : 0;
    fail = true;
  }
  if (d->s->quota >= 0 && !fail) {
    if (k > static_cast<std::uint64_t>(d->s->quota)) {
      k = 0;
      fail = true;
      d->s->quota = 0;
      d->s->st.faults_fired["spool.write/refused"]++;
      ++d->s->fired;
    } else {
      d->s->quota -= static_cast<std::int64_t>(k);
    }
  }
  if (k) {
    if (d->sparse)
      d->blob.write(d->pos, reinterpret_cast<const std::uint8_t*>(p), k);
    else if (::pwrite(d->fd, p, k, static_cast<off_t>(d->pos)) != static_cast<ssize_t>(k))
      abort();
    d->pos += k;
  }
  if (fail) {
    errno = ENOSPC;
    return static_cast<ssize_t>(k);  // the cookie protocol reports an error by returning less than asked
  }
  return static_cast<ssize_t>(n);
}

ssize_t ck_read(void* c, char* p, size_t n) {
  auto* d = static_cast<SpoolDev*>(c);
  sim::sched_point("spool.read");
  sim::HarnessScope hs;
  d->s->op(d->sparse ? 0 : n);
  d->s->trace.u64(d->pos);
  sim::Fault f;
  size_t want = n;
  if (d->s->fault("spool.read", &f)) {
    if (f.kind == sim::kShort && f.arg < 0) {
      return 0;  // the medium lost the tail
    } else if (f.kind == sim::kShort) {
      want = n > 1 ? 1 + static_cast<size_t>(static_cast<__int128>(n - 1) * std::min<std::int64_t>(f.arg, 999) / 1000) : n;
    } else {
      errno = EIO;
      return -1;
    }
  }
  if (d->sparse) {
    const std::uint64_t sz = d->blob.size();
    if (d->pos >= sz) return 0;
    want = static_cast<size_t>(std::min<std::uint64_t>(want, sz - d->pos));
    d->blob.read(d->pos, want, reinterpret_cast<std::uint8_t*>(p));
    d->pos += want;
    return static_cast<ssize_t>(want);
  }
  const ssize_t r = ::pread(d->fd, p, want, static_cast<off_t>(d->pos));
  if (r > 0) d->pos += static_cast<std::uint64_t>(r);
  return r;
}

int ck_seek(void* c, off64_t* off, int whence) {
  auto* d = static_cast<SpoolDev*>(c);
  sim::sched_point("spool.seek");
  sim::HarnessScope hs;
  d->s->op();
  sim::Fault f;
  if (d->s->fault("spool.seek", &f)) {
    errno = EIO;
    return -1;
  }
  std::int64_t np = *off;
  if (whence == SEEK_CUR) np += static_cast<std::int64_t>(d->pos);
  if (whence == SEEK_END) {
    if (d->sparse) {
      np += static_cast<std::int64_t>(d->blob.size());
    } else {
      struct stat st;
      ::fstat(d->fd, &st);
      np += st.st_size;
    }
  }
  if (np < 0) {
    errno = EINVAL;
    return -1;
  }
  d->pos = static_cast<std::uint64_t>(np);
  *off = np;
  return 0;
}

int __real_close(int);

int ck_close(void* c) {
  auto* d = static_cast<SpoolDev*>(c);
  sim::HarnessScope hs;
  d->s->op();
  d->fp = nullptr;
  if (d->fd_open) {
    __real_close(d->fd);
    d->fd_open = false;
    --d->s->spool_open;
  }
  sim::Fault f;
  if (d->s->fault("spool.close", &f)) {
    errno = EIO;
    return -1;
  }
  return 0;
}
}  // namespace

int __real_mkstemp(char* t);
int __wrap_mkstemp(char* t) {
  if (!t_sess || !t_lib) return __real_mkstemp(t);
  sim::sched_point("spool.open");
  sim::HarnessScope hs;
  auto* s = t_sess;
  s->op();
  sim::Fault f;
  const size_t n = t ? strlen(t) : 0;
  if (n < 6 || strcmp(t + n - 6, "XXXXXX") != 0) {
    errno = EINVAL;
    return -1;
  }
  if (s->fault("spool.open", &f)) {
    errno = EMFILE;
    return -1;
  }
  // containment: spool files may only be created inside the scratch directory of this run
  const std::string tt(t);
  if (s->spool_dir.empty() || tt.rfind(s->spool_dir + "/", 0) != 0) {
    s->trace.str("foreign-template");
    s->st.probes["spool-outside-requested-place"]++;
    errno = EACCES;
    return -1;
  }
  static const char alpha[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (;;) {
    std::uint64_t v = s->spool_seq++ * 0x9e3779b97f4a7c15ULL + 12345;
    for (int i = 0; i < 6; ++i) {
      t[n - 6 + static_cast<size_t>(i)] = alpha[v % 36];
      v /= 36;
    }
    const int fd = ::open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd < 0) {
      if (errno == EEXIST) continue;
      return -1;
    }
    auto* d = new SpoolDev;
    d->s = s;
    d->fd = fd;
    d->path = t;
    d->sparse = s->spool_sparse;
    s->spool_devs.push_back(d);
    ++s->spool_open;
    s->spool_created.insert(d->path);
    return fd;
  }
}
int __wrap_mkostemp(char* t, int) { return __wrap_mkstemp(t); }

FILE* __real_fdopen(int fd, const char* mode);
FILE* __wrap_fdopen(int fd, const char* mode) {
  SpoolDev* d = dev_of_fd(fd);
  if (!d) return __real_fdopen(fd, mode);
  sim::HarnessScope hs;
  d->s->op();
  sim::Fault f;
  if (d->s->fault("spool.fdopen", &f)) {
    errno = ENOMEM;
    return nullptr;
  }
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = ::fopencookie(d, mode, io);
  if (fp && d->s->spool_bufsize == 0) ::setvbuf(fp, nullptr, _IONBF, 0);
  // glibc ignores the size for a null buffer, so a sized buffer is handed over explicitly and kept with the device
  if (fp && d->s->spool_bufsize > 0) {
    d->buf.resize(static_cast<size_t>(d->s->spool_bufsize));
    ::setvbuf(fp, d->buf.data(), _IOFBF, d->buf.size());
  }
  d->fp = fp;
  return fp;
}

int __real_close(int fd);
int __wrap_close(int fd) {
  if (SpoolDev* d = dev_of_fd(fd)) {
    d->fd_open = false;
    --d->s->spool_open;
  }
  return __real_close(fd);
}

char* __real_strdup(const char* p);
char* __wrap_strdup(const char* p) {
  if (t_sess && t_lib) {
    sim::HarnessScope hs;
    sim::Fault f;
    if (t_sess->fault("alloc", &f)) {
      errno = ENOMEM;
      return nullptr;
    }
  }
  return __real_strdup(p);
}

// ------------------------------------------------------------------------------------------------- removal
// Removal requests are only carried out inside the scratch directory of the session; anything else is recorded.
static int removal_gate(const char* p) {  // 0: do it, -1: refuse with errno
  auto* s = t_sess;
  s->op();
  s->trace.str("remove");
  sim::Fault f;
  if (s->fault("spool.remove", &f)) {
    errno = EACCES;
    return -1;
  }
  const std::string path(p);
  if (!s->spool_created.count(path)) {
    s->st.probes["foreign-removal"]++;
    errno = EPERM;
    return -1;
  }
  return 0;
}
int __real_unlink(const char* p);
int __wrap_unlink(const char* p) {
  if (!t_sess || !t_lib) return __real_unlink(p);
  sim::HarnessScope hs;
  return removal_gate(p) ? -1 : __real_unlink(p);
}
int __real_remove(const char* p);
int __wrap_remove(const char* p) {
  if (!t_sess || !t_lib) return __real_remove(p);
  sim::HarnessScope hs;
  return removal_gate(p) ? -1 : __real_remove(p);
}
}  // extern "C"

namespace fs = std::filesystem;
extern "C" {
bool __real__ZNSt10filesystem6removeERKNS_7__cxx114pathE(const fs::path& p);
bool __wrap__ZNSt10filesystem6removeERKNS_7__cxx114pathE(const fs::path& p) {
  if (!t_sess || !t_lib) return __real__ZNSt10filesystem6removeERKNS_7__cxx114pathE(p);
  sim::sched_point("spool.remove");
  int rc, e;
  {
    sim::HarnessScope hs;
    rc = removal_gate(p.c_str());
    e = errno;
  }
  if (rc) throw fs::filesystem_error("cannot remove", p, std::error_code(e, std::generic_category()));
  sim::HarnessScope hs;
  return __real__ZNSt10filesystem6removeERKNS_7__cxx114pathE(p);
}
bool __real__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(const fs::path& p, std::error_code& ec) noexcept;
bool __wrap__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(const fs::path& p, std::error_code& ec) noexcept {
  if (!t_sess || !t_lib) return __real__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(p, ec);
  sim::HarnessScope hs;
  if (removal_gate(p.c_str())) {
    ec = std::error_code(errno, std::generic_category());
    return false;
  }
  return __real__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(p, ec);
}

// ------------------------------------------------------------------------------------------------- locks
// A parked thread may hold a real mutex; taking one therefore becomes try + yield under the scheduler.
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!t_sess || !sim::g_sched_active()) return __real_pthread_mutex_lock(m);
  for (int i = 0; i < 1000000; ++i) {
    const int r = ::pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    sim::sched_point("lock");
  }
  sim::die_hang("lock never released");
}
}

namespace sim {
void clear_dir(const std::string& dir) {
  HarnessScope h;
  for (auto& f : list_dir(dir)) {
    const std::string p = dir + "/" + f;
    __real_unlink(p.c_str());
  }
}

// Ends a session's spool devices; returns the number of descriptors that were still open.
int release_spools(Session& s) {
  int open = 0;
  for (void* p : s.spool_devs) {
    auto* d = static_cast<SpoolDev*>(p);
    if (d->fd_open) ++open;
    if (d->fp) ::fclose(d->fp);
    if (d->fd_open) __real_close(d->fd);
    delete d;
  }
  s.spool_devs.clear();
  for (auto& p : s.spool_created) __real_unlink(p.c_str());
  s.spool_created.clear();
  return open;
}
}  // namespace sim
