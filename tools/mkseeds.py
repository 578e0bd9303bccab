#!/usr/bin/env python3
"""dev helper: python3 tools/mkseeds.py [ID...]: builds /verif/seeded/<id>/ from the edits in tools/seeds/*.py and confirms each in a scratch copy:
patch applies, builds, the 28 stable tests pass, the demo passes without and fails with it."""
import sys, os, json, subprocess, shutil, glob, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
V = os.path.abspath(V)
SEEDS = {}
def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    edits = file if isinstance(file, list) else [(file, old, new)]
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"))
def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def one(id):
    s = SEEDS[id]
    d = os.path.join(V, "seeded", id)
    sc = "/tmp/seed-%s" % id
    if os.path.exists(sc): shutil.rmtree(sc)
    subprocess.check_call(["cp", "-a", "/repo", sc])
    try:
        stage = tempfile.mkdtemp()
        open(os.path.join(stage, "main.rs"), "w").write(s["demo"])
        shutil.copy(os.path.join(V, "tools/seed_demo.sh"), os.path.join(stage, "demo.sh"))
        rc, o = sh("bash %s/demo.sh" % stage, sc)
        if rc != 0: return "%s: demo fails on the unchanged tree: %s" % (id, o[-600:])
        for (f, old, new) in s["edits"]:
            p = os.path.join(sc, f); t = open(p).read()
            if t.count(old) != 1: return "%s: anchor count %d in %s" % (id, t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", sc)
        env = ". /opt/vp/env.sh; "
        rc, o = sh("cargo build --offline 2>&1 && cargo test --workspace --all-features --no-fail-fast --offline -- --include-ignored --test-threads 8", sc)
        import re
        res = dict(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. (\w+)", o, re.M))
        failed = [k for k, v in res.items() if v not in ("ok", "ignored")]
        n = sum(int(x) for x in re.findall(r"^test result: .*? (\d+) passed", o, re.M))
        if n < 28: return "%s: tests: %d ok, failed %s %s" % (id, n, failed, o[-500:] if not res else "")
        rc, o = sh("bash %s/demo.sh" % stage, sc)
        if rc == 0: return "%s: demo passes with the change" % id
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        for f in ("main.rs", "demo.sh"): shutil.copy(os.path.join(stage, f), os.path.join(d, f))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        return "%s: kept (tests %d ok; demo says: %s)" % (id, n, o.strip().splitlines()[-3:] if o.strip() else "")
    finally:
        shutil.rmtree(sc, ignore_errors=True); shutil.rmtree(stage, ignore_errors=True)
ids = sys.argv[1:] or list(SEEDS)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
