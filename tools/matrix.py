#!/usr/bin/env python3
"""Which checks catch which seeded change, with a short budget each: applies every seeded patch in a scratch copy of the
repository, builds the fast simulator from it and runs every check for a few seconds.
usage: matrix.py [SECONDS [ID...]]   env: MATRIX_OUT (markdown, default stdout), MATRIX_JOBS (4)"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cap = sys.argv[1] if len(sys.argv) > 1 else "4"
S = os.path.join(V, "seeded")
ids = sys.argv[2:] or sorted(os.listdir(S))
props = [c["id"] for c in json.load(open(os.path.join(V, "tools", "claimed.json")))]
W = tempfile.mkdtemp(prefix="matrix.", dir="/tmp")
R = os.path.join(W, "repo")
rows = []
try:
    subprocess.check_call(["cp", "-a", "/repo", R])
    for i in ids:
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        subprocess.check_call(["git", "-C", R, "apply", os.path.join(S, i, "patch.diff")])
        env = dict(os.environ, SIM_REPO=R, SIM_BUILD=os.path.join(W, "b"))
        exe = subprocess.check_output([sys.executable, os.path.join(V, "tools", "build.py"), "fast"], env=env, stderr=subprocess.DEVNULL).decode().split()[-1]
        def one(p):
            o = os.path.join(W, "o", p)
            os.makedirs(o, exist_ok=True)
            e = dict(env, SIM_CAP_S=cap, SIM_WORKERS="2", SIM_VERIF=o, SIM_SCRATCH=o)
            r = subprocess.run([exe, "check", p, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            t = r.stdout.decode(errors="replace")
            m = re.search(r"^run (\d+): \[([^\]]*)\]", t, re.M)
            return p, r.returncode, (int(m.group(1)), m.group(2)) if m else None
        got = {}
        with cf.ThreadPoolExecutor(int(os.environ.get("MATRIX_JOBS", "4"))) as ex:
            for p, rc, m in ex.map(one, props):
                if rc == 1: got[p] = m
                elif rc != 0: print(i, p, "rc", rc, file=sys.stderr)
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        own = meta["property"]
        line = "| %s | %s | %s | %s |" % (i, own, "run %d, %s" % got[own] if got.get(own) else "not within this budget", ", ".join(p for p in got if p != own) or "-")
        rows.append(line)
        print(line, flush=True)
finally:
    shutil.rmtree(W, ignore_errors=True)
if os.environ.get("MATRIX_OUT"):
    open(os.environ["MATRIX_OUT"], "w").write("| change | property | own check (%s s, fast build) | also caught by |\n|---|---|---|---|\n" % cap + "\n".join(rows) + "\n")
