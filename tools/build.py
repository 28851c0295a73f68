#!/usr/bin/env python3
"""Builds the simulator against the sources of /repo's working tree.

Objects are cached by the content of everything that goes into them (never by time stamps), so a changed source is
always recompiled whatever its mtime.  usage: build.py {asan|fast} -> prints the path of the binary.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("SIM_CXX", "clang++-18")
DEFS = "-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB".split()
COMMON = ["-std=gnu++20", "-w", "-fno-omit-frame-pointer", "-pthread"] + DEFS
WRAPS = """_ZNSt6chrono3_V212system_clock3nowEv clock_gettime time gettimeofday gmtime localtime ctime asctime mkstemp mkostemp fdopen close strdup unlink
remove _ZNSt10filesystem6removeERKNS_7__cxx114pathE _ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code
pthread_mutex_lock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort""".split()
PCH = """#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <spdlog/spdlog.h>
#include <algorithm>
#include <array>
#include <chrono>
#include <filesystem>
#include <iostream>
#include <fstream>
#include <map>
#include <memory>
#include <vector>
"""

COV = "-fsanitize-coverage=bb,trace-pc-guard"
VARIANTS = {
    # name: (library flags, hot library flags, harness flags, link flags)
    "asan": (["-O0", "-gline-tables-only", "-fsanitize=address", COV],
             ["-O1", "-gline-tables-only", "-fsanitize=address", COV],
             ["-O1", "-gline-tables-only", "-fsanitize=address"], ["-fsanitize=address"]),
    "fast": (["-O0"], ["-O2"], ["-O2"], []),
}
HOT = {"src/writer/simple_writer.cpp", "src/writer/faststart_writer.cpp", "src/bitio/bitio.cpp", "src/bitio/reader.cpp",
       "src/bitio/writer.cpp"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(r, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + rd(p) + b"\0")
    return h.hexdigest()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    variant = sys.argv[1]
    lib, hot, har, link = VARIANTS[variant]
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    inc = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src")], (".hpp", ".h", ".inc", ".ipp"))
    sim = tree_hash([os.path.join(VERIF, "sim")], (".hpp",))
    base = sha(CXX, " ".join(COMMON), inc)

    def obtain(key, suffix, cmd):
        out = os.path.join(cache, key + suffix)
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        rc, txt = run(cmd + ["-o", tmp])
        if rc:
            raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), txt))
        os.replace(tmp, out)
        return out

    pchs = {}

    def pch(flags):
        k = sha("pch", CXX, " ".join(COMMON + flags), PCH)
        hdr = os.path.join(cache, k + ".pchsrc.hpp")
        if not os.path.exists(hdr):
            with open(hdr + ".tmp%d" % os.getpid(), "w") as f:
                f.write(PCH)
            os.replace(hdr + ".tmp%d" % os.getpid(), hdr)
        return obtain(k, ".pch", [CXX] + COMMON + flags + ["-fpch-instantiate-templates", "-x", "c++-header", hdr])

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        need = [tuple(lib), tuple(hot)]
        for f, r in [(f, ex.submit(pch, list(f))) for f in set(need)]:
            pchs[f] = r.result()
        jobs = []
        for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
            fl = COMMON + har + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim")]
            key = sha("sim", base, sim, os.path.basename(s), rd(s), " ".join(har))
            jobs.append((s, ex.submit(obtain, key, ".o", [CXX] + fl + ["-c", s])))
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True),
                      key=lambda p: -os.path.getsize(p))
        for s in srcs:
            rel = os.path.relpath(s, REPO)
            fl = hot if rel in HOT else lib
            extra = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
            if rel.startswith("src/cli/"):
                extra += ["-Dmain=mp4_tool_main"]
            key = sha("lib", base, rel, rd(s), " ".join(fl), PCH)
            jobs.append((s, ex.submit(obtain, key, ".o",
                                      [CXX] + COMMON + fl + ["-include-pch", pchs[tuple(fl)]] + extra + ["-c", s])))
        objs = []
        for s, j in jobs:
            objs.append(j.result())
    key = sha("link", variant, *objs, " ".join(WRAPS))
    cmd = [CXX, "-pthread"] + link + ["-Wl,--wrap=" + w for w in WRAPS] + objs + ["-lspdlog", "-lfmt", "-ldl"]
    exe = obtain(key, ".exe", cmd)
    print(exe)


if __name__ == "__main__":
    try:
        main()
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
