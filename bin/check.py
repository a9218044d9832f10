#!/usr/bin/env python3
"""Decide one property: check.py C01   (tier and seed from VERIF_TIER, VERIF_SEED)

1. build the conformance harness against /repo's working tree;
2. check the property's TLA+ design models with TLC; their behaviours become scenarios;
3. run the scenarios and random cases in the real library, recording every outcome;
4. let TLC validate every recorded history against the specification.

Exit 0: every history is a behaviour of the specification (known findings aside).
Exit 1: a line VIOLATION property=<id> replay=<path> per kind of rejection.
Exit 2: the machinery itself failed.
check.py --replay FILE validates one recorded history again.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
CLASSES = os.path.join(TARGET, "classes")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
CASE_TIMEOUT = 30.0     # seconds without progress on one case
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def build():
    os.makedirs(CLASSES, exist_ok=True)
    src, cls = os.path.join(SPEC, "Rat.java"), os.path.join(CLASSES, "Rat.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        r = subprocess.run(["javac", "-cp", JARS, "-d", CLASSES, src], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac failed\n" + r.stderr)
    # cargo decides by modification times; a tree that was copied or checked out may
    # carry older ones than the last build, so let the sources' contents decide
    h = source_hash()
    stamp = os.path.join(TARGET, "source.sha")
    if os.path.exists(stamp) and open(stamp).read() != h:
        for d in ("debug/.fingerprint",):
            p = os.path.join(TARGET, d)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith(("geom3d-", "vh-")):
                        shutil.rmtree(os.path.join(p, n), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError("the harness does not build\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(h)


def source_hash():
    import hashlib
    m = hashlib.sha256()
    for root in ("/repo/src", os.path.join(VERIF, "harness", "src")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for n in sorted(fs):
                p = os.path.join(d, n)
                m.update(p.encode())
                with open(p, "rb") as f:
                    m.update(f.read())
    for p in ("/repo/Cargo.toml", os.path.join(VERIF, "harness", "Cargo.toml")):
        with open(p, "rb") as f:
            m.update(f.read())
    return m.hexdigest()


def tlc(module, cfg, work, extra_env=None, workers=WORKERS, timeout=3000, args=()):
    e = env()
    e.update(extra_env or {})
    meta = os.path.join(work, "tlc-" + os.path.basename(cfg))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp", CLASSES + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-nowarning", "-metadir", meta, "-config", os.path.join(SPEC, cfg), *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(out):
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


# ---------------------------------------------------------------- design models
def run_models(plan, tier, work):
    """Model check the design models; returns scenarios and statistics."""
    scns, stats = [], []
    for mod in plan.get("models", []):
        cfg = mod["cfg"][tier] if isinstance(mod["cfg"], dict) else mod["cfg"]
        if cfg is None:
            continue
        t = time.time()
        rc, out = tlc(mod["module"], cfg, work, timeout=mod.get("timeout", 600), workers=mod.get("workers", WORKERS))
        if rc != 0:
            raise ToolError("design model %s (%s) fails:\n%s" % (mod["module"], cfg, out[-3000:]))
        gen, dist = counts(out)
        mine = sorted(set(re.findall(r'"@@SCN ([-0-9 ]+)"', out)))
        limit = mod.get("limit", {}).get(tier)
        if limit and len(mine) > limit:
            step = len(mine) / limit
            mine = [mine[int(i * step)] for i in range(limit)]
        scns += mine
        stats.append({"module": mod["module"], "config": cfg, "states": gen, "distinct": dist,
                      "scenarios": len(mine), "wall_s": round(time.time() - t, 2)})
    return scns, stats


# ---------------------------------------------------------------- the real library
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))


class Worker:
    def __init__(self, w, prop, tier, seed, total, work, scn):
        self.w, self.prop, self.tier, self.seed, self.total, self.scn = w, prop, tier, seed, total, scn
        self.dir = os.path.join(work, "w%d" % w)
        os.makedirs(os.path.join(self.dir, "cwd", "tmp"))
        self.out = os.path.join(self.dir, "out")
        self.crashes = []
        self.done = False
        self.start(0)

    def start(self, first):
        open(self.out, "a").close()
        self.size, self.since = os.path.getsize(self.out), time.time()
        self.p = subprocess.Popen(
            [os.path.join(TARGET, "debug", "vh"), self.prop, self.tier, str(self.seed), str(WORKERS), str(self.w),
             str(first), str(self.total), self.out, self.scn],
            cwd=os.path.join(self.dir, "cwd"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            stdin=subprocess.DEVNULL, preexec_fn=limits, start_new_session=True)

    def current(self):
        with open(self.out, "rb") as f:
            f.seek(max(0, os.path.getsize(self.out) - (1 << 22)))
            tail = f.read().decode("utf8", "replace")
        b = re.findall(r"^#B (\d+)$", tail, re.M)
        return int(b[-1]) if b else None, "#E" in tail.split("\n")

    def poll(self):
        rc = self.p.poll()
        size = os.path.getsize(self.out)
        if size != self.size:
            self.size, self.since = size, time.time()
        hung = rc is None and time.time() - self.since > CASE_TIMEOUT
        if hung:
            os.killpg(self.p.pid, signal.SIGKILL)
            rc = self.p.wait()
        if rc is None:
            return
        cur, ended = self.current()
        if ended and not hung:
            self.done = True
            return
        if cur is None:
            raise ToolError("worker %d of %s died before its first case (exit %s)" % (self.w, self.prop, rc))
        what = "the call does not return" if hung else "the process died (exit %s)" % rc
        with open(self.out, "a") as f:       # the case never completed: that is its outcome
            f.write('\n{"id":"%s-%d","ev":[{"op":"crash","panic":"%s"}]}\n' % (self.prop, cur, what))
        self.crashes.append(cur)
        if len(self.crashes) >= 2:
            self.done = True
        else:
            self.start(cur + 1)


def drive(prop, tier, seed, total, work, scn_file):
    ws = [Worker(w, prop, tier, seed, total, work, scn_file) for w in range(WORKERS)]
    try:
        while not all(w.done for w in ws):
            time.sleep(0.02)
            for w in ws:
                if not w.done:
                    w.poll()
    finally:
        for w in ws:
            if w.p.poll() is None:
                os.killpg(w.p.pid, signal.SIGKILL)
    hist = []
    for w in ws:
        with open(w.out) as f:
            hist += [l.rstrip("\n") for l in f if l.startswith("{")]
    good = []
    for l in hist:
        try:
            good.append((l, json.loads(l)))
        except ValueError:      # cut off by a crash, whose own record follows
            pass
    return good


# ---------------------------------------------------------------- trace validation
def validate(module, hist, work):
    """Returns rejections [(index, event index, reason)], states generated, distinct."""
    trace = os.path.join(work, "trace.ndjson")
    bad, gen, dist = [], 0, 0
    alive = list(range(len(hist)))
    for attempt in range(40):
        if not alive:
            break
        with open(trace, "w") as f:
            for i in alive:
                f.write(hist[i][0] + "\n")
        rc, out = tlc(module, module + ".cfg", work, {"TRACE": trace})
        g, d = counts(out)
        gen, dist = gen + g, dist + d
        if rc == 0:
            for m in re.finditer(r'"@@REJECT (\d+) (\d+) (.*?)"\n', out):
                bad.append((alive[int(m.group(1)) - 1], int(m.group(2)), m.group(3)))
            return bad, gen, dist
        # TLC could not evaluate a judgement: the event is not of the shape the
        # specification speaks about.  Find the history and set it aside.
        hs = re.findall(r"/\\ hist = (\d+)", out)
        ls = re.findall(r"/\\ pos = (\d+)", out)
        if not hs:
            raise ToolError("TLC failed on %s\n%s" % (module, re.sub(r"(Parsing file|Semantic processing).*\n", "", out)[-4000:]))
        i = alive[int(hs[-1]) - 1]
        why = "outcome outside the specification's vocabulary"
        if os.environ.get("VERIF_DEBUG"):
            print(out[-3000:])
        bad.append((i, int(ls[-1]) + 1, why))
        alive.remove(i)
        if attempt >= 3:        # enough evidence
            break
    return bad, gen, dist


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["open"]


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        t = time.time(); build(); t_build = time.time() - t
        scns, mstats = run_models(plan, tier, work)
        scn_file = ""
        if scns:
            scn_file = os.path.join(work, "scenarios")
            with open(scn_file, "w") as f:
                f.write("\n".join(scns) + "\n")
        total = len(scns) + plan["cases"][tier]
        t = time.time(); hist = drive(prop, tier, seed, total, work, scn_file); t_drive = time.time() - t
        t = time.time(); bad, gen, dist = validate(prop, hist, work); t_val = time.time() - t
        return report(prop, tier, seed, plan, hist, bad, gen, dist, mstats, len(scns), t0,
                      {"build": t_build, "drive": t_drive, "validate": t_val})
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    prop = re.match(r"(C\d+)", os.path.basename(path)).group(1)
    work = os.path.join(VERIF, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        lines = [l.strip() for l in open(path) if l.startswith("{")]
        build()
        bad, _, _ = validate(prop, [(l, json.loads(l)) for l in lines], work)
        for b in bad:
            print("REJECTED event %d: %s" % (b[1], b[2]))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(prop, tier, seed, plan, hist, bad, gen, dist, mstats, nscn, t0, times):
    kf = [k for k in known() if k.get("property") == prop]
    seen, viol = {}, {}
    for i, l, why in sorted(bad):
        text = hist[i][0]
        for k in kf:
            if re.search(k["reason"], why) and (not k.get("history") or re.search(k["history"], text)):
                seen[k["what"]] = seen.get(k["what"], 0) + 1
                break
        else:
            viol.setdefault(re.sub(r"[-0-9.Ee+]+", "#", why), []).append((i, l, why))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, k["what"], seen.get(k["what"], 0)))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for n, (_, v) in enumerate(sorted(viol.items())):
        if n >= 8:
            break
        i, l, why = min(v, key=lambda x: len(hist[x[0]][0]))
        path = os.path.join(VERIF, "replays", hist[i][1]["id"] + ".ndjson")
        with open(path, "w") as f:
            f.write(hist[i][0] + "\n")
        print("rejected: %s event %d: %s  (%d histories)" % (hist[i][1]["id"], l, why, len(v)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    events = sum(len(h[1]["ev"]) for h in hist)
    ops = {}
    for h in hist:
        for e in h[1]["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    samples = [h[1] for h in hist if len(h[0]) < 1500][:2] or [h[1] for h in hist][:1]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(m["distinct"] for m in mstats) + dist,
              "transitions": sum(m["states"] for m in mstats) + gen,
              "traces_validated_against_impl": len(hist),
              "events_validated": events, "events_by_operation": ops,
              "scenarios_from_models": nscn, "design_models": mstats,
              "rejected": len(bad), "rejected_as_known_findings": sum(seen.values()),
              "samples": samples},
          "assumptions": plan.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": sum(len(v) for v in viol.values())}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d histories, %d events, %d rejected; %s; total %.1fs" % (
        prop, tier, len(hist), events, len(bad), ", ".join("%s %.1fs" % x for x in times.items()), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("ERROR:", e)
        rc = 2
    sys.exit(rc)
