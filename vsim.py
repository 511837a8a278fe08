#!/usr/bin/env python3
"""Orchestrator of the deterministic simulation checks.

  vsim.py check C09            build from /repo's working tree, explore, write evidence/C09.json
  vsim.py replay FILE          re-execute a replay file with its trace
  vsim.py build C09            only build
"""
import sys, os, json, time, hashlib, subprocess, glob, shutil, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
OUT = os.path.join(V, "out")
CACHE = os.path.join(V, "out", "build")
JOBS = 8
EIGEN = "/usr/include/eigen3"
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

COMMON_FLAGS = ["-std=c++17", "-g", "-w", "-fno-omit-frame-pointer", "-ffp-contract=off"]
MODES = {
    "fault": dict(
        sut=["-O1", "-DSIM_ASAN", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard", "-D_GLIBCXX_SANITIZE_VECTOR"],
        core=["-O1", "-DSIM_ASAN", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR"],
        link=["-fsanitize=address"],
        files=["core.cpp", "fs.cpp"]),
    "sched": dict(
        sut=["-O1", "-DSIM_SCHED", "-fsanitize=thread", "-include", os.path.join(V, "sim", "seam_string.h")],
        core=["-O2", "-DSIM_SCHED"],
        link=[],
        files=["core.cpp", "sched.cpp"]),
}
# explicit instantiations only (the scenarios instantiate the templates they use); half a minute to compile
HEAVY = {"box_registration.cpp"}
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=exit", "-Wl,-z,muldefs", "-Wl,-z,now"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_inputs():
    out = []
    for d in ("common", "geometry", "pcl"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("app", "test", "tests")]
            out += [os.path.join(root, f) for f in files if f.endswith((".h", ".hpp", ".cpp", ".cc", ".c", ".ipp", ".inl"))]
    return out


class BuildError(Exception):
    pass


def build(cid):
    c = CHECKS[cid]
    m = MODES[c["mode"]]
    scen = [os.path.join(V, "scen", f) for f in c["scen"]]
    core = [os.path.join(V, "sim", f) for f in m["files"]]
    srcs = sorted(glob.glob(os.path.join(REPO, "common", "src", "*.cpp")))
    if c.get("geometry"):
        srcs += sorted(glob.glob(os.path.join(REPO, "geometry", "src", "*.cpp")))
    hdrs = glob.glob(os.path.join(V, "sim", "*.h")) + glob.glob(os.path.join(V, "scen", "*.h"))
    key = tree_hash(repo_inputs() + scen + core + hdrs, json.dumps([COMMON_FLAGS, m, WRAP, c["mode"], bool(c.get("geometry")), bool(c.get("pcl")), "v1"]))
    d = os.path.join(CACHE, cid + "-" + key)
    binp = os.path.join(d, "sim")
    if os.path.exists(binp):
        return binp
    for old in glob.glob(os.path.join(CACHE, cid + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, "common", "include"), "-I" + os.path.join(REPO, "geometry", "include"), "-I" + EIGEN]
    if c.get("pcl"):
        inc += ["-I" + os.path.join(REPO, "pcl", "include")] + ["-isystem" + p for p in sorted(glob.glob("/usr/include/pcl-*"))]
    jobs = []
    objs = []
    for s in scen:      # the slowest first
        o = os.path.join(d, "scen_" + os.path.basename(s) + ".o")
        jobs.append(["clang++"] + COMMON_FLAGS + m["sut"] + inc + ["-c", s, "-o", o])
        objs.append(o)
    for s in core:
        o = os.path.join(d, "core_" + os.path.basename(s) + ".o")
        jobs.append(["clang++"] + COMMON_FLAGS + m["core"] + ["-c", s, "-o", o])
        objs.append(o)
    heavy = [s for s in srcs if os.path.basename(s) in HEAVY]
    for i, s in enumerate(srcs):
        if s in heavy:
            continue
        o = os.path.join(d, "sut%d_%s.o" % (i, os.path.basename(s)))
        jobs.append(["clang++"] + COMMON_FLAGS + m["sut"] + inc + ["-c", s, "-o", o])
        objs.append(o)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise BuildError("%s\n%s" % (" ".join(j), r.stdout[-4000:]))
    tmp = binp + ".tmp"

    def link():
        return sh(["clang++"] + m["link"] + objs + ["-o", tmp] + WRAP + (["-lpcl_common"] if c.get("pcl") else []) + ["-lboost_filesystem", "-lboost_system", "-lpthread", "-ldl", "-rdynamic"])
    r = link()
    if r.returncode and heavy:      # something needs them after all
        for s in heavy:
            o = os.path.join(d, "heavy_%s.o" % os.path.basename(s))
            q = sh(["clang++"] + COMMON_FLAGS + m["sut"] + inc + ["-c", s, "-o", o])
            if q.returncode:
                raise BuildError(q.stdout[-4000:])
            objs.append(o)
        r = link()
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    for o in objs:
        os.unlink(o)
    os.rename(tmp, binp)
    return binp


def clean_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG")}
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    e["HOME"] = "/home/sim"
    return e


class Worker:
    def __init__(self, binp, seed, start, count, stride, scratch, scen=None):
        cmd = [binp, "--batch", "--seed", str(seed), "--start", str(start), "--count", str(count), "--stride", str(stride), "--scratch", scratch]
        if scen:
            cmd += ["--scen", scen]
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=clean_env())

    def result(self):
        out, _ = self.p.communicate()
        return parse_batch(out, self.p.returncode)


def parse_batch(out, rc):
    res = dict(runs=[], viol=[], S={}, F={}, P={}, done=False, rc=rc)
    for ln in out.splitlines():
        t = ln.split(" ")
        if t[0] == "R" and len(t) >= 9:
            res["runs"].append((int(t[1]), int(t[2]), t[3], t[4], t[5], int(t[6]), int(t[7]), int(t[8])))
        elif t[0] == "V":
            res["viol"].append((int(t[1]), int(t[2]), t[3], " ".join(t[4:])))
        elif t[0] in "SFP" and len(t) == 3:
            res[t[0]][t[1]] = int(t[2])
        elif t[0] == "DONE":
            res["done"] = True
    return res


def explore(binp, seed, total, scratch, base=0, jobs=JOBS):
    """total runs split over jobs workers; run index i uses seed mix(seed, i) whatever the worker."""
    jobs = max(1, min(jobs, total))
    ws = []
    for w in range(jobs):
        n = (total - w + jobs - 1) // jobs
        ws.append(Worker(binp, seed, base + w, n, jobs, os.path.join(scratch, "w%d" % w)))
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda w: w.result(), ws))


def replay_once(binp, path, scratch, trace=False):
    cmd = [binp, "--replay", path, "--scratch", scratch] + (["--trace"] if trace else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if trace else subprocess.DEVNULL, text=True, errors="replace", env=clean_env(), timeout=400)
    except subprocess.TimeoutExpired:
        return dict(status="?", cls="timeout", hash="", msg=""), ""
    res = {}
    for ln in r.stdout.splitlines():
        if ln.startswith("RESULT "):
            body, _, msg = ln[7:].partition(" msg=")
            for kv in body.split(" "):
                k, _, v = kv.partition("=")
                res[k] = v
            res["msg"] = msg
    return res, r.stdout


# ---------------------------------------------------------------- minimisation
def shrink(binp, lines, cls, scratch, budget_s=60.0, max_tries=600):
    """ddmin over plan lines, then over faults and arguments, keeping the violation class."""
    t0 = time.time()
    tries = [0]
    path = os.path.join(scratch, "shrink.plan")

    def fails(ls):
        if tries[0] >= max_tries or time.time() - t0 > budget_s:
            return False
        tries[0] += 1
        with open(path, "w") as f:
            f.write("\n".join(ls) + "\n")
        r, _ = replay_once(binp, path, os.path.join(scratch, "sh"))
        return r.get("status") == "2" and r.get("cls") == cls

    head = [l for l in lines if l.startswith("scen ")]
    body = [l for l in lines if not l.startswith("scen ")]
    n = 2
    while len(body) >= 2:
        size = max(1, len(body) // n)
        cut = False
        i = 0
        while i < len(body):
            cand = body[:i] + body[i + size:]
            if cand and fails(head + cand):
                body = cand
                n = max(n - 1, 2)
                cut = True
                break
            i += size
        if not cut:
            if size == 1:
                break
            n = min(len(body), n * 2)
        if tries[0] >= max_tries or time.time() - t0 > budget_s:
            break
    # faults, then arguments
    changed = True
    while changed and tries[0] < max_tries and time.time() - t0 < budget_s:
        changed = False
        for k in range(len(body)):
            toks = body[k].split(" ")
            if toks[0] == "op":
                for j in range(len(toks) - 1, 2, -1):
                    t = toks[j]
                    cands = []
                    if t.startswith("!"):
                        cands.append(toks[:j] + toks[j + 1:])
                        name, _, v = t.partition("=")
                        if v.lstrip("-").isdigit() and int(v) > 1:
                            for nv in (1, int(v) // 2, int(v) - 1):
                                if nv != int(v):
                                    cands.append(toks[:j] + ["%s=%d" % (name, nv)] + toks[j + 1:])
                    elif t.lstrip("-").isdigit() and len(t) > 1:
                        for nv in (0, 1, int(t) // 2 if int(t) > 0 else -(-int(t) // 2)):
                            if str(nv) != t:
                                cands.append(toks[:j] + [str(nv)] + toks[j + 1:])
                    elif len(t) > 4 and "%" not in t:
                        cands.append(toks[:j] + [t[:len(t) // 2]] + toks[j + 1:])
                    hit = False
                    for cd in cands:
                        nb = body[:k] + [" ".join(cd)] + body[k + 1:]
                        if fails(head + nb):
                            body = nb
                            changed = True
                            hit = True
                            break
                    if hit:
                        break
            elif toks[0] == "sched" and len(toks) == 5:
                v = int(toks[3])
                for nv in (v // 2, v - 1):
                    if nv >= 0 and nv != v:
                        nb = body[:k] + [" ".join(toks[:3] + [str(nv), toks[4]])] + body[k + 1:]
                        if fails(head + nb):
                            body = nb
                            changed = True
                            break
    return head + body, tries[0]


def known_findings(cid):
    """Entries `finding: property=<id> class=<violation class> match=<substring>` of known_findings.txt."""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding: property=%s " % cid):
                d = dict(kv.split("=", 1) for kv in ln.strip().split(" ", 3)[1:] if "=" in kv)
                d["line"] = ln.strip()
                out.append(d)
    return out


def check(cid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[cid]
    try:
        binp = build(cid)
    except BuildError as e:
        print("BUILD-ERROR\n" + str(e))
        return 3
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        return run_check(cid, c, binp, tier, seed, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(cid, c, binp, tier, seed, scratch, t0, tb):
    total = max(1, int(c["runs"][tier] * float(os.environ.get("VSIM_SCALE", "1"))))     # VSIM_SCALE: development only
    agg = dict(runs=[], viol=[], S={}, F={}, P={})
    te = time.time()

    def absorb(results):
        for r in results:
            if not r["done"]:
                raise RuntimeError("a simulation worker ended early (rc %s)" % r["rc"])
            agg["runs"] += r["runs"]
            agg["viol"] += r["viol"]
            for k in "SFP":
                for n, v in r[k].items():
                    agg[k][n] = agg[k].get(n, 0) + v

    chunk = max(JOBS * 64, total // 24)
    done = 0
    limit = dict(quick=300, thorough=4 * 3600).get(tier, 300)      # a slow machine explores less rather than never answering
    while done < total and not agg["viol"] and time.time() - te < limit:
        n = min(chunk, total - done)
        absorb(explore(binp, seed, n, scratch, base=done))
        done += n
    explore_s = time.time() - te

    # determinism: the same indices in fresh processes, split over another number of workers
    ndet = min(done, c.get("det", 96))
    det = []
    for r in explore(binp, seed, ndet, scratch, base=0, jobs=3):
        det += r["runs"]
    first = {r[0]: (r[2], r[3], r[1]) for r in agg["runs"]}
    mism = [r[0] for r in det if r[0] in first and first[r[0]] != (r[2], r[3], r[1])]

    viol = sorted(agg["viol"])
    kf = known_findings(cid)
    reported = None
    lines_out = []
    if viol and viol[0][1] == 3:
        print("HARNESS-ERROR run %d: %s" % (viol[0][0], viol[0][3]))
        return 3
    unrepro = []
    chosen = None
    inexact = None
    tv = time.time()
    for idx, st, cls, msg in viol[:40]:
        if st == 3:
            continue
        if time.time() - tv > (60 if inexact else 240):
            break
        plan = subprocess.run([binp, "--gen", "--seed", str(seed), "--start", str(idx), "--scratch", os.path.join(scratch, "g")], stdout=subprocess.PIPE, text=True, errors="replace", env=clean_env()).stdout
        rp = os.path.join(scratch, "raw.plan")
        open(rp, "w").write(plan)
        a, _ = replay_once(binp, rp, os.path.join(scratch, "r1"))
        b, _ = replay_once(binp, rp, os.path.join(scratch, "r2"))
        if a == b and a.get("status") == "2" and a.get("cls") == cls:
            chosen = (idx, cls, msg, plan)
            break
        if not inexact and a.get("status") == "2" and b.get("status") == "2":
            inexact = (idx, a.get("cls"), msg, plan)
        unrepro.append("run %d: batch said %s, replays said %s / %s" % (idx, cls, a, b))
    exact = bool(chosen)
    if viol and not chosen and inexact:
        # the violation repeats but not bit for bit: the code under test itself depends on something outside
        # the simulation (uninitialised memory, addresses)
        chosen = inexact
        print("note: the violation repeats, but its history differs between replays")
    if viol and not chosen:
        print("NON-REPRODUCIBLE " + "\n".join(unrepro[:3]))
        return 3
    if chosen:
        idx, cls, msg, plan = chosen
        small, tries = shrink(binp, plan.splitlines(), cls, scratch) if exact else (plan.splitlines(), 0)
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        dst = os.path.join(OUT, "replay", "%s-%s-%d.plan" % (cid, "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in cls), idx))
        with open(dst, "w") as f:
            f.write("# property=%s seed=%d run=%d class=%s\n# %s\n# replay: python3 %s/vsim.py replay %s\n#check %s\n" % (cid, seed, idx, cls, msg, V, dst, cid))
            f.write("\n".join(small) + "\n")
        f1, _ = replay_once(binp, dst, os.path.join(scratch, "r3"))
        f2, tr = replay_once(binp, dst, os.path.join(scratch, "r4"), trace=True)
        if exact and (f1.get("status") != "2" or f1.get("cls") != cls or f2.get("hash") != f1.get("hash")):
            # minimising ended on a plan that does not repeat exactly: keep the whole plan, which did
            small = plan.splitlines()
            with open(dst, "w") as f:
                f.write("# property=%s seed=%d run=%d class=%s\n# %s\n# replay: python3 %s/vsim.py replay %s\n#check %s\n" % (cid, seed, idx, cls, msg, V, dst, cid))
                f.write("\n".join(small) + "\n")
            f1, _ = replay_once(binp, dst, os.path.join(scratch, "r3"))
            f2, tr = replay_once(binp, dst, os.path.join(scratch, "r4"), trace=True)
            if f1.get("status") != "2" or f1.get("cls") != cls or f2.get("hash") != f1.get("hash"):
                if f1.get("status") != "2" and f2.get("status") != "2":
                    print("NON-REPRODUCIBLE replay: %s %s" % (f1, f2))
                    return 3
                print("note: the violation repeats, but its history differs between replays")
        with open(dst + ".trace", "w") as f:
            f.write(tr)
        reported = dict(run=idx, cls=cls, msg=f1.get("msg", msg), replay=dst, lines=len(small), shrink_tries=tries)

    evals = len(agg["runs"])
    sig = set((r[2], r[3]) for r in agg["runs"])
    nontriv = set((r[2], r[3]) for r in agg["runs"] if r[5] > 0 or c.get("nontrivial") == "ops" and r[6] > 1)
    samples = []
    for i in sorted(set([0, evals // 2, max(0, evals - 1)])):
        s = subprocess.run([binp, "--gen", "--seed", str(seed), "--start", str(i), "--scratch", os.path.join(scratch, "g")], stdout=subprocess.PIPE, text=True, errors="replace", env=clean_env()).stdout
        if len(s) > 3000:
            s = s[:3000] + "...(cut)"
        samples.append(dict(run=i, plan=s.splitlines()))
    simns = agg["S"].get("simns", 0)
    cov = dict(
        evaluations=evals,
        distinct_nontrivial=len(nontriv),
        rule=c["rule"],
        samples=samples,
        distinct_histories=len(sig),
        distinct_schedules=len(set(r[3] for r in agg["runs"])),
        distinct_control_flow_signatures=len(set(r[4] for r in agg["runs"])),
        library_calls=agg["S"].get("ops", 0),
        instrumented_steps=agg["S"].get("steps", 0),
        simulated_time_s=round(simns / 1e9, 3),
        seeds_per_hour=int(evals / max(explore_s, 1e-3) * 3600),
        faults_injected=agg["F"],
        probes=agg["P"],
        determinism=dict(seeds_run_twice=len(det), mismatches=len(mism)),
        real_components=c["real"],
        stubbed_components=c["stub"],
        build_s=round(tb, 1), explore_s=round(explore_s, 1))
    if reported:
        cov["violation"] = reported
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=c["assume"], wall_s=round(time.time() - t0, 2), violations=1 if reported else 0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s %s: %d runs, %d distinct non-trivial, %.0f runs/s, build %.1f s, explore %.1f s, faults %s" % (
        cid, tier, evals, len(nontriv), evals / max(explore_s, 1e-3), tb, explore_s, agg["F"]))
    if mism:    # recorded in the evidence; the verdict rests on the replay, which did repeat
        print("note: runs %s gave another history when repeated in fresh processes" % mism[:10])
    if reported:
        for k in kf:
            if k.get("class") == reported["cls"] and k.get("match", "") in reported["msg"]:
                print("KNOWN-FINDING: property=%s %s" % (cid, k["line"]))
                return 0
        print("%s: %s" % (reported["cls"], reported["msg"]))
        print("VIOLATION property=%s replay=%s" % (cid, reported["replay"]))
        return 1
    missing = [p for p in c.get("need_probes", []) if not agg["P"].get(p)]
    if missing:
        print("note: never reached: %s" % missing)
    print("%s held on everything explored" % cid)
    return 0


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    if sys.argv[1] == "check":
        return check(sys.argv[2])
    if sys.argv[1] == "build":
        t = time.time()
        print(build(sys.argv[2]), "%.1f s" % (time.time() - t))
        return 0
    if sys.argv[1] == "replay":
        cid = None
        for ln in open(sys.argv[2]):
            if ln.startswith("#check "):
                cid = ln.split()[1]
        if len(sys.argv) > 3:
            cid = sys.argv[3]
        binp = build(cid)
        d = tempfile.mkdtemp(prefix="vsim-")
        try:
            r, out = replay_once(binp, sys.argv[2], os.path.join(d, "r"), trace=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(out)
        return 1 if r.get("status") == "2" else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:       # never mistaken for a violation
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
