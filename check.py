#!/usr/bin/env python3
"""One check: python3 check.py C02 [quick|thorough].

1. extract the functions the property depends on from /repo's current source, with their contracts;
2. Verus discharges every obligation generated from that text (no bound);
3. a search on the real code (goban-replay) looks for a concrete failing input. It always runs briefly
   (it also covers what the contracts trust); when an obligation fails it runs long, in both build
   profiles, and either supplies the failing input or not.
Exit 0: property held on everything explored. Exit 1 + VIOLATION line: broken.  DESIGN.md has the rules.
"""
import json, os, re, subprocess, sys, threading, time, hashlib, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PROP = sys.argv[1]
TIER = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
T0 = time.time()
WORK = os.path.join(V, "work", PROP)
os.makedirs(WORK, exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
REPLAY_FILE = os.path.join(WORK, "violation.txt")
CONF = json.load(open(os.path.join(V, "checks.json")))
PC = CONF["properties"].get(PROP, {})
EXPLAIN_SEARCH = 20
QUICK_SEARCH = PC.get("search_secs", 12)
LONG_SEARCH = PC.get("long_search_secs", 60)
if TIER == "thorough":
    QUICK_SEARCH, LONG_SEARCH = 240, 300
VERUS_TIMEOUT = 420 if TIER == "quick" else 700


def log(*a):
    print("[%s %6.1fs]" % (PROP, time.time() - T0), *a, flush=True)


def cargo(dirname, args):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline"] + args, cwd=os.path.join(V, dirname), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def lock(name):
    import fcntl
    f = open(os.path.join(V, "work", name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


# ------------------------------------------------------------------ the search on the real code
class Search:
    """Runs goban-replay, built from /repo's current tree, in one of the two build profiles."""
    ok = {"release": None, "checked": None}
    err = {}
    runs = []

    @classmethod
    def build(cls, profile):
        with lock("replay-" + profile):
            rc, out = cargo("replay", ["--release"] if profile == "release" else ["--profile", profile])
        cls.ok[profile] = rc == 0
        if rc != 0:
            cls.err[profile] = out[-3000:]

    @classmethod
    def run(cls, profile, seed, secs, tag, prop=None):
        if cls.ok[profile] is None:
            cls.build(profile)
        if not cls.ok[profile]:
            return None
        exe = os.path.join(V, "replay", "target", profile, "goban-replay")
        out = os.path.join(WORK, "found-%s-%s.txt" % (profile, tag))
        if os.path.exists(out):
            os.remove(out)
        try:
            p = subprocess.run([exe, "search", "--prop", prop or PROP, "--seed", str(seed), "--secs", str(secs), "--out", out],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 450, cwd=WORK)
        except subprocess.TimeoutExpired:
            cls.runs.append(dict(profile=profile, seed=seed, timeout=True, evaluations=0))
            return None
        if p.returncode == 1 and os.path.exists(out):
            msg = p.stdout.splitlines()[0] if p.stdout else "FAIL"
            return dict(file=out, msg=msg, profile=profile)
        if prop:
            return None
        try:
            j = json.loads(p.stdout.strip().splitlines()[-1])
            j.update(profile=profile, seed=seed)
            cls.runs.append(j)
        except Exception:
            cls.runs.append(dict(profile=profile, seed=seed, evaluations=0, ended=p.returncode,
                                 stderr=p.stderr[-500:]))
            if p.returncode < 0 and p.returncode != -9:
                # the code under test brought the process down (stack overflow, abort)
                return None
        return None


def confirm(found):
    """A failing input counts only if it fails again when replayed."""
    exe = os.path.join(V, "replay", "target", found["profile"], "goban-replay")
    try:
        p = subprocess.run([exe, "replay", found["file"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=450, cwd=WORK)
        return p.returncode == 1
    except subprocess.TimeoutExpired:
        return True


def explained_by(props):
    """The first of the other properties with a confirmed failing input on the real code."""
    res = []
    ths = []
    for k, p in enumerate(sorted(props)):
        def work(p=p, k=k):
            f = Search.run("release" if k % 2 == 0 else "checked", SEED, EXPLAIN_SEARCH, "x%d" % k, p)
            if f and confirm(f):
                res.append(p)
        t = threading.Thread(target=work)
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    return sorted(res)


def search_many(secs, jobs):
    """jobs: list of (profile, seed). Returns the first confirmed failing input or None."""
    res = []
    ths = []
    for k, (profile, seed) in enumerate(jobs):
        def work(profile=profile, seed=seed, k=k):
            f = Search.run(profile, seed, secs, str(k))
            if f and confirm(f):
                res.append(f)
        t = threading.Thread(target=work)
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    return res[0] if res else None


# ------------------------------------------------------------------ the proof
SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "possible bit shift underflow/overflow", "recommendation not met", "constructed value may fail to meet its declared type invariant",
            "loop invariant not satisfied", "possible truncation", "unable to prove", "not all errors", "could not prove termination",
            "requires not satisfied", "ensures not satisfied", "split assertion failure", "split precondition failure", "split postcondition failure")
TOOL_LIMIT = ("Resource limit", "rlimit", "timed out", "canceled")


class Proof:
    def __init__(self):
        self.status = "not-run"       # ok | failed | undecided
        self.reason = ""
        self.failed = []              # dicts: fn, message, line, tags, primary
        self.verified = self.errors = 0
        self.times = {}
        self.report = {}
        self.text = ""
        self.output = ""
        self.cmd = ""
        self.lost = []

    def extract(self):
        exe = os.path.join(V, "extract", "target", "release", "extract")
        with lock("extract"):
            rc, out = cargo("extract", ["--release"])
        if rc != 0:
            self.status, self.reason = "undecided", "extraction tool does not build: " + out[-500:]
            return False
        self.src = os.path.join(WORK, "verified.rs")
        rep = os.path.join(WORK, "extract.json")
        p = subprocess.run([exe, "--repo", REPO, "--contracts", os.path.join(V, "contracts"), "--out", self.src,
                            "--report", rep] + ([] if PC.get("all") else ["--prop", PROP]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        try:
            self.report = json.load(open(rep))
        except Exception:
            self.report = {"errors": [["*", "extraction crashed: " + p.stdout[-400:]]], "fns": {}, "emitted": []}
        if os.path.exists(self.src):
            self.text = open(self.src).read()
        if p.returncode != 0 or self.report["errors"]:
            self.status = "undecided"
            self.reason = "extraction: " + "; ".join("%s: %s" % tuple(e) for e in self.report["errors"][:6])
            return False
        self.lost = ["%s: %s" % tuple(e) for e in self.report.get("lost", [])]
        if self.lost:
            log("proof hints without a place in this source:", "; ".join(self.lost[:6]))
        return True

    def verus(self, extra=()):
        cmd = ["verus", "--triggers-mode", "silent", "--num-threads", "8", "--rlimit", str(PC.get("rlimit", CONF.get("rlimit", 30))), "--multiple-errors", "5",
               "--output-json", "--time-expanded", *extra, self.src, "--", "--error-format=json"]
        self.cmd = " ".join(cmd)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=VERUS_TIMEOUT, cwd=WORK)
        except subprocess.TimeoutExpired:
            self.status, self.reason = "undecided", "verifier timed out after %d s" % VERUS_TIMEOUT
            return
        self.output = p.stderr
        try:
            j = json.loads(p.stdout)
            r = j.get("verification-results", {})
        except Exception:
            j, r = {}, {}
        self.verified, self.errors = r.get("verified", 0), r.get("errors", 0)
        self.times = j.get("times-ms", {})
        lines = self.text.splitlines()
        diags = []
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
        self.failed = []
        compile_err = None
        limit = None
        for d in diags:
            m = d["message"]
            tags, fn = set(), None
            texts = []
            for s in d["spans"]:
                ln = s["line_start"]
                for k in range(ln, min(s["line_end"], ln + 3) + 1):
                    if k - 1 < len(lines) and (k == ln or not s["is_primary"]):
                        mm = re.search(r"// \[([C0-9, ]+)\]", lines[k - 1])
                        if mm and k == ln:
                            tags |= set(re.split(r"[ ,]+", mm.group(1).strip()))
                if s.get("text"):
                    texts.append((s.get("label") or "") + " :: " + s["text"][0]["text"].strip()[:300])
            prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
            fn = self.fn_at(lines, prim[0]["line_start"])
            if fn is None:
                for s in d["spans"]:
                    fn = fn or self.fn_at(lines, s["line_start"])
            if any(t in m for t in TOOL_LIMIT):
                limit = m
                continue
            if not any(m.startswith(t) or t in m for t in SEMANTIC):
                compile_err = m + " in " + str(fn) + " :: " + "; ".join(texts[:2])
                continue
            self.failed.append(dict(fn=fn, message=m, tags=sorted(tags), where=texts[:4]))
        if r.get("success") and self.verified > 0 and self.errors == 0 and not diags:
            self.status = "ok"
        elif compile_err or (not self.failed and not limit):
            self.status, self.reason = "undecided", "the verifier does not accept the extracted text: " + (compile_err or p.stderr[-400:])
        elif self.failed and self.lost:
            self.status, self.reason = "undecided", "not proved, and proof hints have no place in this source: " + "; ".join(self.lost[:6])
        elif self.failed:
            self.status = "failed"
            self.reason = "; ".join("%s: %s" % (f["fn"], f["message"]) for f in self.failed[:6])
        else:
            self.status, self.reason = "undecided", "verifier resource limit: " + limit

    @staticmethod
    def fn_at(lines, ln):
        """The extracted function a line belongs to (markers), or the lemma it is in."""
        for k in range(min(ln, len(lines)) - 1, -1, -1):
            m = re.search(r"// @@(FN|END) (.*)$", lines[k])
            if m:
                if m.group(1) == "FN":
                    return m.group(2).strip()
                break
        for k in range(min(ln, len(lines)) - 1, max(0, ln - 200), -1):
            m = re.match(r"\s*(?:pub )?(?:open spec |proof |spec |exec )?(?:broadcast )?(?:proof )?fn (\w+)", lines[k])
            if m:
                return "lemma " + m.group(1)
        return None

    def shape_changed(self):
        """Selected functions the contracts were not written for: new ones, and those with more or fewer loops or
        closures than the committed baseline's (their invariants are then missing or misplaced) or with other early
        exits, where the proof has a step at the end of the body."""
        try:
            base = json.load(open(os.path.join(V, "baseline.json")))["fns"]
        except Exception:
            base = {}
        out = []
        for k, f in self.report.get("fns", {}).items():
            if not f["selected"]:
                continue
            b = base.get(k)
            if b is None or any(b[x] != f[x] for x in ("loops", "closures")) or f["tail_hints"] and b["exits"] != f["exits"]:
                out.append(k)
        return out


    def vacuity(self):
        """Reachability probes (`assert(false)` behind a fresh condition) at every body start and end, loop head and end,
        closure start: none may verify, otherwise a precondition, an invariant or an assumed contract contradicts itself there."""
        exe = os.path.join(V, "extract", "target", "release", "extract")
        src = os.path.join(WORK, "vacuity.rs")
        p = subprocess.run([exe, "--vacuity", "--repo", REPO, "--contracts", os.path.join(V, "contracts"), "--out", src, "--report", os.path.join(WORK, "vacuity.json")]
                           + ([] if PC.get("all") else ["--prop", PROP]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if p.returncode != 0:
            return dict(note="extraction failed: " + p.stdout[-200:])
        try:
            p = subprocess.run(["verus", "--triggers-mode", "silent", "--num-threads", "8", "--rlimit", "30", "--multiple-errors", "100", src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, cwd=WORK)
        except subprocess.TimeoutExpired:
            return dict(note="not finished in 400 s")
        lines = open(src).read().splitlines()
        hit = {int(x) for x in re.findall(r"--> [^\n]*vacuity\.rs:(\d+)", p.stdout)}
        gave_up = {self.fn_at(lines, int(x) + 1) for x in re.findall(r"Resource limit[^\n]*\n\s*--> [^\n]*vacuity\.rs:(\d+)", p.stdout)}
        probes = refuted = 0
        open_, bad = [], []
        for i, l in enumerate(lines, 1):
            m = re.search(r"// VAC (\d+) (.*)", l)
            if m:
                probes += 1
                fn = self.fn_at(lines, i)
                if i in hit:
                    refuted += 1
                else:
                    (open_ if fn in gave_up else bad).append("%s: %s" % (fn, m.group(2)))
        return dict(probes=probes, refuted=refuted, solver_gave_up=open_, unreachable=bad)


def trusted_scan(text):
    """Every assumption in the text that was verified, found mechanically."""
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "external_type_specification" in s or "verifier::external" in s:
            for k in range(i + 1, min(i + 6, len(lines))):
                if re.search(r"\b(fn|struct|impl)\b", lines[k]):
                    out.append("external_body (contract assumed): " + lines[k].strip()[:110])
                    break
        if "assume_specification" in s:
            out.append("assumed specification: " + s[:110])
        if re.search(r"\b(assume|admit)\s*\(", s) and "exec_assert" not in s:
            out.append("ASSUME: " + s[:110])
        if re.search(r"\baxiom\b", s):
            out.append("axiom: " + s[:110])
        if "uninterp spec fn" in s:
            out.append("uninterpreted: " + s[:110])
    return out


def write_evidence(level, coverage, assumptions, violations):
    e = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions,
             wall_s=round(time.time() - T0, 2), violations=violations)
    with open(os.path.join(V, "evidence", PROP + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def search_cov():
    ev = sum(r.get("evaluations", 0) for r in Search.runs)
    di = sum(r.get("distinct_nontrivial", 0) for r in Search.runs)
    samples = [r["sample"] for r in Search.runs if r.get("sample")][:2]
    return ev, di, samples


def main():
    try:
        os.makedirs(os.path.join(V, "work"), exist_ok=True)
    except OSError:
        pass
    pr = Proof()
    jobs = [("release", SEED), ("checked", SEED + 1)]
    short = {}

    def short_search():
        builder = [threading.Thread(target=Search.build, args=(p,)) for p in ("release", "checked")]
        for b in builder:
            b.start()
        for b in builder:
            b.join()
        short["found"] = search_many(QUICK_SEARCH, jobs)

    side = threading.Thread(target=short_search)
    side.start()
    if pr.extract():
        log("extracted %d functions" % sum(1 for f in pr.report["fns"].values() if f["selected"]))
        pr.verus()
    side.join()
    found = short.get("found")
    log("proof: %s (%d verified, %d errors) %s" % (pr.status, pr.verified, pr.errors, pr.reason[:600]))
    if Search.ok["release"] is False and Search.ok["checked"] is False:
        log("the search does not build against this tree:", Search.err.get("release", "")[-800:])
    if pr.status != "ok" and not found:
        # no failing input yet: search longer, and give the failed obligations another solver seed meanwhile
        again = None
        if pr.status == "failed" or "resource limit" in pr.reason:
            def rerun():
                first, status = pr.failed, pr.status
                pr.verus(["--smt-option", "smt.random_seed=7", "--smt-option", "sat.random_seed=7"])
                if pr.status == "failed" and status == "failed":
                    keys = {(f["fn"], f["message"]) for f in first}
                    pr.failed = [f for f in pr.failed if (f["fn"], f["message"]) in keys] or pr.failed
            again = threading.Thread(target=rerun)
            again.start()
        found = search_many(LONG_SEARCH, jobs + [("release", SEED + 2), ("checked", SEED + 3), ("release", SEED + 4), ("release", SEED + 5)])
        if again:
            again.join()
            log("with another solver seed: %s (%d verified, %d errors) %s" % (pr.status, pr.verified, pr.errors, pr.reason[:600]))
    proved = pr.status == "ok"
    ev, di, samples = search_cov()
    n_fns = [k for k, f in pr.report.get("fns", {}).items() if f["selected"]]
    trusted = trusted_scan(pr.text) if pr.text else []
    base_assume = CONF["assumptions"] + PC.get("assumptions", [])
    smt = pr.times.get("smt", {}) if isinstance(pr.times, dict) else {}
    cov = dict(obligations=pr.verified + pr.errors, discharged=pr.verified,
               checker_cmd=pr.cmd or "(not run)", back_end="Verus 0.2026.09.13 / Z3", solver_ms=smt.get("smt-run"), verifier_ms=pr.times.get("total"),
               trusted_base=trusted, functions_under_contract=sorted(n_fns),
               proof_status=pr.status, proof_note=pr.reason[:1500], hints_without_place=pr.lost,
               failed_obligations=pr.failed[:10],
               evaluations=ev, distinct_nontrivial=di, samples=samples or ["(none)"],
               rule="search on the real code: random and structured boards/games over all sizes and rule flags, compared after each step with a naive "
                    "reference (goban-replay, both build profiles); non-trivial = more than three lines of trace, distinct by text",
               search_runs=[{k: v for k, v in r.items() if k != "sample"} for r in Search.runs])
    if found:
        shutil.copyfile(found["file"], REPLAY_FILE)
        with open(REPLAY_FILE, "a") as f:
            f.write("# build profile: %s; replay with: %s/replay/target/%s/goban-replay replay %s\n" % (found["profile"], V, found["profile"], REPLAY_FILE))
            f.write("# proof status: %s %s\n" % (pr.status, pr.reason[:800].replace("\n", " ")))
        write_evidence("exploration" if not proved else "proof", cov, base_assume, 1)
        log(found["msg"][:600])
        print("VIOLATION property=%s replay=%s" % (PROP, REPLAY_FILE), flush=True)
        return 1
    if proved:
        if TIER == "thorough":
            cov["vacuity"] = pr.vacuity()
            log("vacuity probes:", json.dumps(cov["vacuity"])[:600])
        write_evidence("proof", cov, base_assume, 0)
        log("held: %d obligations discharged, %d executions searched" % (cov["discharged"], ev))
        return 0
    # no failing input found
    ours = []
    if pr.status == "failed" and not PC.get("partial"):
        for f in pr.failed:
            tagged_fn = PROP in fn_tags(pr.text, f["fn"])
            if f["tags"]:
                mine = PROP in f["tags"]
            else:
                mine = tagged_fn or PC.get("implicit", False)
            if mine and f["fn"] and not f["fn"].startswith("lemma "):
                ours.append(f)
    unchanged = ours and not pr.shape_changed()
    if unchanged and not [o for o in ours if o["tags"] == [PROP]]:
        # the failed obligations are shared with other properties: does a failing input for one of those explain them?
        shared = set()
        for o in ours:
            shared |= set(o["tags"]) or fn_tags(pr.text, o["fn"])
        why = explained_by(shared - {PROP})
        if why:
            pr.reason += " [a failing input for %s on the real code explains the failed obligations, which %s shares with it; none was found for %s]" % (", ".join(why), PROP, PROP)
            unchanged = False
    if unchanged:
        with open(REPLAY_FILE, "w") as f:
            f.write("property %s\n# no failing input found; the following obligations of the current source are not provable any more\n" % PROP)
            for o in ours:
                f.write("# obligation in %s: %s\n#   %s\n" % (o["fn"], o["message"], "\n#   ".join(o["where"])))
            f.write("# verifier: %s\n" % pr.cmd)
            for l in pr.output.splitlines():
                try:
                    d = json.loads(l)
                    if d.get("rendered") and d.get("level") == "error":
                        f.write("".join("# " + x + "\n" for x in d["rendered"].splitlines()))
                except Exception:
                    pass
        write_evidence("exploration", cov, base_assume, 1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, REPLAY_FILE), flush=True)
        return 1
    # the proof does not cover this source: the bounded search stands in, and says so
    cov["bounded_stand_in"] = "the contracts no longer fit the current source (%s); nothing is claimed proved by this run, the search above is what was explored" % (pr.reason[:300])
    cov["shape_changed"] = pr.shape_changed()
    write_evidence("exploration", cov, base_assume, 0)
    log("proof does not apply to this source; bounded search found no violation (%d executions)" % ev)
    return 0


def fn_tags(text, fn):
    if not fn:
        return set()
    m = re.search(r"// @@FN " + re.escape(fn) + r"\n(.*?)// @@END " + re.escape(fn), text, re.S)
    tags = set()
    if m:
        for t in re.findall(r"// \[([C0-9, ]+)\]", m.group(1)):
            tags |= set(re.split(r"[ ,]+", t.strip()))
    return tags


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # the machinery itself broke: nothing is known
        import traceback
        traceback.print_exc()
        write_evidence("exploration", dict(evaluations=sum(r.get("evaluations", 0) for r in Search.runs), distinct_nontrivial=0, rule="check machinery failed", samples=[str(e)]), [], 0)
        rc = 3
    sys.exit(rc)
