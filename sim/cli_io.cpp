// System calls behind the C++ library's file streams, for the runs of the command-line tool: the reads and seeks of one
// armed file fail as planned, everything else goes to the kernel.
#include <errno.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "core.hpp"

namespace {
sim::Session* g_s = nullptr;
dev_t g_dev;
ino_t g_ino;

bool armed(int fd) {
  if (!g_s) return false;
  struct stat st;
  return ::fstat(fd, &st) == 0 && st.st_dev == g_dev && st.st_ino == g_ino;
}
}  // namespace

extern "C" {
ssize_t read(int fd, void* p, size_t n) {
  if (armed(fd)) {
    sim::HarnessScope hs;
    g_s->op(n);
    sim::Fault f;
    if (g_s->fault("cli.read", &f)) {
      switch (f.kind) {
        case sim::kThrow:
          errno = f.sticky ? EIO : EINTR;
          return -1;
        case sim::kShort: n = n ? 1 : 0; break;
        case sim::kPartial: return 0;   // an end of file that is none
        case sim::kCorrupt: errno = EISDIR; return -1;
        default: errno = EIO; return -1;
      }
    }
  }
  return ::syscall(SYS_read, fd, p, n);
}
off64_t lseek64(int fd, off64_t o, int whence) {
  if (armed(fd)) {
    sim::HarnessScope hs;
    g_s->op();
    sim::Fault f;
    if (g_s->fault("cli.seek", &f)) {
      errno = EIO;
      return -1;
    }
  }
  return ::syscall(SYS_lseek, fd, o, whence);
}
off_t lseek(int fd, off_t o, int whence) { return lseek64(fd, o, whence); }
}

namespace sim {
void cli_io_arm(const std::string& path, const std::vector<Step>& faults, Session* s) {
  struct stat st;
  s->add_faults(faults);
  if (path.empty() || ::stat(path.c_str(), &st) != 0) return;
  g_dev = st.st_dev;
  g_ino = st.st_ino;
  g_s = s;
}
void cli_io_disarm() { g_s = nullptr; }
}  // namespace sim
