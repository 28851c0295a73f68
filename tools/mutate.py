#!/usr/bin/env python3
"""Mutation campaign used while developing the checks (not part of any check).

usage: mutate.py N SEED [FILTER]   samples N source mutations of /repo/src, builds the fast simulator for each in scratch copies
under /tmp/mut and runs the checks with few runs each until one reports.  Survivors that pass the stable tests are written to
/tmp/mut/survivors.SEED.jsonl for a person to read.
"""
import json, os, random, re, shutil, subprocess, sys, glob, concurrent.futures as cf, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED = int(sys.argv[1]), int(sys.argv[2])
FILTER = sys.argv[3] if len(sys.argv) > 3 else "."
T = "/tmp/mut"
W = int(os.environ.get("MUT_WORKERS", "7"))
RUNS = {"W01": 1500, "W02": 1500, "W03": 1500, "W04": 1500, "W05": 600, "W06": 60, "W07": 1500, "W08": 1500, "W09": 1000,
        "W10": 600, "W11": 1200, "W12": 400, "W13": 60, "W14": 1500, "H01": 1500, "R01": 2500, "R02": 3000, "R03": 2000, "R04": 3000,
        "B01": 6000, "B02": 20000, "B03": 6000, "B04": 1500, "B05": 600}


def order(rel):
    w = ["W02", "W01", "W03", "W04", "H01", "W07", "W08", "W09", "W11", "W14", "W05", "W10", "W12", "W06"]
    r = ["R04", "R01", "B01", "R03", "R02", "B02"]
    if "/box/" in rel or "box_" in rel or "bitio" in rel or "endian" in rel or rel.endswith("src/box.cpp"):
        return ["B03", "B05", "B04", "B01", "R04", "R01", "B02"] + ["R03", "R02"] + w + ["W13"]
    if "reader" in rel or "cli" in rel or "stream" in rel:
        return r + w + ["W13"]
    return w + r + ["B03", "B04", "B05", "W13"]


SUBS = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \| ", " & "),
        (r" & ", " | "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\(!", "("), (r" \+= ", " -= "), (r"\+\+", "--"),
        (r"(?<![\w.\"'%])(\d+)(?![\w.\"'])", "NUM+"), (r"(?<![\w.\"'%])([1-9]\d*)(?![\w.\"'])", "NUM-"),
        (r"(?<![\w.\"'])(0x[0-9a-fA-F]+)", "HEX")]


# a second family (MUT_OPS=2): narrower types, shared instead of local state, exchanged names, exchanged statements
SUBS2 = [(r"static_cast<std::uint64_t>", "static_cast<std::uint32_t>"), (r"static_cast<std::uint32_t>", "static_cast<std::uint16_t>"),
         (r"static_cast<std::uint16_t>", "static_cast<std::uint8_t>"), (r"static_cast<std::int64_t>", "static_cast<std::int32_t>"),
         (r"static_cast<std::streamoff>", "static_cast<std::int32_t>"), (r"static_cast<std::streamsize>", "static_cast<std::int16_t>"),
         (r"^(\s+)(const )?(std::uint64_t|std::size_t) (\w+ = )", r"\1\2std::uint32_t \4"), (r"^(\s+)(const )?std::uint32_t (\w+ = )", r"\1\2std::uint16_t \3"),
         (r"^(\s+)(const )?auto (\w+ = )", r"\1static \2auto \3"), (r"^(\s+)(std::vector<[^;=]*> \w+;)", r"\1static \2"),
         (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"std::ios_base::beg", "std::ios_base::cur"), (r"std::ios_base::cur", "std::ios_base::beg"),
         (r"std::begin", "1 + std::begin"), (r"std::end\(", "-1 + std::end("), (r"\bpush_back\b", "emplace_back"), (r"(\w+)\.push_back\(", r"if (\1.empty()) \1.push_back("),
         (r"std::max", "std::min"), (r"std::min", "std::max"), (r"throw std::\w+\(", "(void)("), (r"\bthrow;", ";"),
         (r"numeric_limits<std::uint32_t>", "numeric_limits<std::int32_t>"), (r"numeric_limits<std::uint32_t>", "numeric_limits<std::uint64_t>"),
         (r"->getSize\(\)", "->getOffset()"), (r"->getOffset\(\)", "->getSize()"), (r"while \(", "if ("), (r"^(\s+)(m_\w+) = (\w+);", r"\1if (!\2) \2 = \3;")]


def mutants2(rel, text):
    out = []
    lines = text.split("\n")
    names = sorted(set(re.findall(r"\bm_\w+", text)))
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "namespace", "using", "*", "/*")):
            continue
        for pat, rep in SUBS2:
            new = re.sub(pat, rep, l, count=1)
            if new != l:
                out.append((i, i, new))
        for m in re.finditer(r"\bm_\w+", l):
            if l.count('"', 0, m.start()) % 2:
                continue
            near = [n for n in names if n != m.group(0)]
            k = names.index(m.group(0))
            for n in {near[k % len(near)], near[k - 1]} if near else ():
                out.append((i, i, l[:m.start()] + n + l[m.end():]))
        n = lines[i + 1].strip() if i + 1 < len(lines) else ""
        if s.endswith(";") and n.endswith(";") and l[:len(l) - len(l.lstrip())] == lines[i + 1][:len(lines[i + 1]) - len(n)]:
            out.append((i, i + 1, lines[i + 1] + "\n" + l))
    return out


def mutants(rel, text):
    if os.environ.get("MUT_OPS") == "2":
        return mutants2(rel, text)
    out = []
    lines = text.split("\n")
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "namespace", "using", "*", "/*")):
            continue
        for pat, rep in SUBS:
            for m in re.finditer(pat, l):
                if l.count('"', 0, m.start()) % 2:
                    continue
                if rep == "NUM+":
                    new = l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
                elif rep == "NUM-":
                    new = l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():]
                elif rep == "HEX":
                    new = l[:m.start()] + hex(int(m.group(1), 16) ^ 1) + l[m.end():]
                else:
                    new = l[:m.start()] + rep + l[m.end():]
                out.append((i, i, new))
        if re.match(r"^(if|while) \(.*\) \{$", s):
            c = l[:l.index("(") + 1]
            out.append((i, i, c + "false) {"))
            if s.startswith("if"):
                out.append((i, i, c + "true) {"))
        # deletion of a one-line or two-line statement
        if s.endswith(";") and not re.match(r"^(return|const|auto|std::\w+(<.*>)? \w+[;={]|break|[A-Z]\w*(::\w+)? \w+[;({])", s) and \
                (i == 0 or lines[i - 1].strip().endswith((";", "{", "}", ":")) or not lines[i - 1].strip()):
            out.append((i, i, ""))
        if s.endswith(("(", ",")) and i + 1 < len(lines) and lines[i + 1].strip().endswith(");") and not s.startswith(("return", "const", "auto")):
            out.append((i, i + 1, ""))
        if s == "break;" or s == "continue;":
            out.append((i, i, ""))
    return out


def sh(cmd, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def setup(w):
    d = "%s/w%d" % (T, w)
    os.makedirs(d + "/v", exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "_build", "/repo/", d + "/repo/"])
    os.makedirs(d + "/build/cache", exist_ok=True)
    for f in glob.glob(d + "/build/cache/*"):
        os.unlink(f)
    for f in glob.glob(T + "/base/cache/*"):
        os.link(f, d + "/build/cache/" + os.path.basename(f))
    return d


def tests_pass(d, rel):
    """stable tests with the mutated library (objects of the library from the worker's cache, tests built once)"""
    env = dict(os.environ, MUT_DIR=d)
    return sh(["bash", T + "/runtests.sh", d, rel], env, 900)[0] == 0


def one(w, mut):
    rel, a, b, new, old = mut
    d = "%s/w%d" % (T, w)
    p = d + "/repo/" + rel
    orig = open("/repo/" + rel).read()
    ls = orig.split("\n")
    ls[a:b + 1] = [new]
    open(p, "w").write("\n".join(ls))
    env = dict(os.environ, SIM_REPO=d + "/repo", SIM_BUILD=d + "/build", SIM_WORKERS="1", SIM_VERIF=d + "/v", SIM_CAP_S="25",
               SIM_SCRATCH="/tmp")
    rec = {"file": rel, "line": a + 1, "old": old, "new": new}
    try:
        rc, out = sh(["python3", V + "/tools/build.py", "fast"], env)
        if rc:
            rec["result"] = "does not compile"
            return rec
        exe = out.strip().split("\n")[-1]
        for c in order(rel):
            env["SIM_RUNS"] = str(RUNS[c])
            rc, out = sh([exe, "check", c, "quick"], env, 300)
            if rc == 1:
                rec["result"] = "killed"
                rec["by"] = c
                return rec
            if rc != 0:
                rec["result"] = "noanswer rc=%d" % rc
                rec["by"] = c
                rec["out"] = out[-300:]
                return rec
        rec["result"] = "survived"
        rec["tests"] = tests_pass(d, rel)
        return rec
    finally:
        open(p, "w").write(orig)
        keep = {os.path.basename(f) for f in glob.glob(T + "/base/cache/*")}
        for f in glob.glob(d + "/build/cache/*"):
            if os.path.basename(f) not in keep:
                os.unlink(f)
        shutil.rmtree(d + "/v/out", ignore_errors=True)


def main():
    os.makedirs(T + "/base/cache", exist_ok=True)
    for f in glob.glob(T + "/base/cache/*"):
        os.unlink(f)
    sh(["python3", V + "/tools/build.py", "fast"], dict(os.environ, SIM_BUILD=T + "/base"))
    for w in range(W):
        setup(w)
    rng = random.Random(SEED)
    allm = []
    for f in sorted(glob.glob(os.environ.get("MUT_GLOB", "/repo/src/**/*.cpp"), recursive=True)):
        rel = os.path.relpath(f, "/repo")
        if not re.search(FILTER, rel):
            continue
        t = open(f).read()
        ls = t.split("\n")
        for a, b, new in mutants(rel, t):
            allm.append((rel, a, b, new, "\n".join(ls[a:b + 1])))
    print(len(allm), "mutations possible", flush=True)
    rng.shuffle(allm)
    todo = queue.Queue()
    for m in allm[:N]:
        todo.put(m)
    log = open("%s/log.%d.jsonl" % (T, SEED), "w")
    sv = open("%s/survivors.%d.jsonl" % (T, SEED), "w")

    def work(w):
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                return
            r = one(w, m)
            log.write(json.dumps(r) + "\n")
            log.flush()
            if not r["result"].startswith(("killed", "does not")):
                sv.write(json.dumps(r) + "\n")
                sv.flush()

    with cf.ThreadPoolExecutor(W) as ex:
        for f in [ex.submit(work, w) for w in range(W)]:
            f.result()


main()
