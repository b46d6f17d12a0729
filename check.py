#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
   check.py --replay FILE               repeat the failing execution stored in a replay file

Builds instrumented variants of /repo in a scratch directory, lets up to 8 workers enumerate the property's
tasks, writes evidence/<PROPERTY>.json. Exit 0: the property held on everything explored; 1: violated; 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, queue, collections

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# build variants: (constant overrides, integer literal overrides, build tags). Scaling the thresholds down brings the
# behaviour behind them within reach of exhaustive enumeration; other variants keep the real ones.
M10, M13 = "blockSizeShift=10,maxBlockCount=4096", "blockSizeShift=13,maxBlockCount=4096"
S10, S13 = "blockSizeShift=10,maxBlockCount=256", "blockSizeShift=13,maxBlockCount=256"
EPOCH = "1000=3,999=2,1001=4"
VARIANTS = {
    "s10": (S10, "", ""),                                 # blocks of 128 words, 2 locks each
    "s11": ("blockSizeShift=11,maxBlockCount=256", "", ""),  # blocks of 256 words, 4 locks each
    "s13": (S13, "", ""),                                 # blocks of 1024 words, 16 locks each
    "w4": (S13 + ",fullAllocFrom=4", "", ""),             # nodes are wide from 4 children
    "i2": (S10 + ",defaultPrefetchLength=2", "", ""),     # iterators fetch batches of 2
    "e3": (M10, EPOCH, ""),                            # the epoch moves every 3 recycled nodes
    "e1": (M10, "1000=1,999=0,1001=2", ""),            # the epoch moves with every recycled node
    "we1": (M13 + ",fullAllocFrom=4", "1000=1,999=0,1001=2", ""),
    "es13": (M13, EPOCH, ""),
    "wie": (M13 + ",fullAllocFrom=4,defaultPrefetchLength=2", EPOCH, ""),
    "real": ("", "", ""),
    "b8": ("", "", "blocksize8"),
    "b16": ("", "", "blocksize16"),
}

BUDGET = {"quick": 200.0, "thorough": 780.0}   # seconds of enumeration, after the build


def log(*a):
    print(*a, flush=True)


def go_env():
    env = dict(os.environ)
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % p], capture_output=True).stdout
        for kv in out.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    env["CGO_ENABLED"] = "0"
    env.pop("GOMAXPROCS", None)
    return env


class BuildError(Exception):
    pass


def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s%s" % (" ".join(cmd), r.stdout, r.stderr))


class Builder:
    def __init__(self, scratch):
        self.d, self.env, self.bin = scratch, go_env(), {}
        src = os.path.join(scratch, "src")
        os.mkdir(src)
        for f in os.listdir(REPO):
            if (f.endswith(".go") and not f.endswith("_test.go")) or f in ("go.mod", "go.sum") or f.endswith(".s"):
                shutil.copy(os.path.join(REPO, f), src)
        for d in ("instr", "vs"):
            shutil.copytree(os.path.join(VERIF, "engine", d), os.path.join(scratch, d))
        run(["go", "build", "-o", os.path.join(scratch, "instr.bin"), "."], os.path.join(scratch, "instr"), self.env)

    def build(self, v):
        consts, lits, tags = VARIANTS[v]
        d = os.path.join(self.d, v)
        rad, mn, src = os.path.join(d, "radix"), os.path.join(d, "main"), os.path.join(self.d, "src")
        os.makedirs(rad)
        os.makedirs(mn)
        os.symlink(os.path.join(self.d, "vs"), os.path.join(d, "vs"))
        cmd = [os.path.join(self.d, "instr.bin"), "-src", src, "-out", rad]
        if consts:
            cmd += ["-const", consts]
        if lits:
            cmd += ["-lit", lits]
        if tags:
            cmd += ["-tags", tags]
        run(cmd, self.d, self.env)
        mod = open(os.path.join(src, "go.mod")).read()
        mod = re.sub(r"(?m)^go .*$", "go 1.21", mod)
        with open(os.path.join(rad, "go.mod"), "w") as f:
            f.write(mod + "\nrequire vs v0.0.0\nreplace vs => ../vs\n")
        h = os.path.join(VERIF, "engine", "harness")
        for f in os.listdir(h):
            if f.endswith(".go"):
                shutil.copy(os.path.join(h, f), mn)
        shutil.copy(os.path.join(h, "go.mod.tmpl"), os.path.join(mn, "go.mod"))
        for t in (rad, mn):
            if os.path.exists(os.path.join(src, "go.sum")):
                shutil.copy(os.path.join(src, "go.sum"), t)
        out = os.path.join(d, "vmain")
        run(["go", "build", "-trimpath", "-o", out, "."], mn, self.env)
        self.bin[v] = out

    def build_all(self, vs):
        errs = []

        def one(v):
            try:
                self.build(v)
            except Exception as e:  # noqa
                errs.append(e)
        ts = [threading.Thread(target=one, args=(v,)) for v in vs if v not in self.bin]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]


class Worker:
    """a vmain process, bound to a variant"""

    def __init__(self, path, env):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([path, "work"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def ask(self, req, timeout):
        timer = threading.Timer(timeout, self.kill)
        timer.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b""
        finally:
            timer.cancel()
        if not line:
            return None
        return json.loads(line)

    def kill(self):
        self.killed = True
        try:
            self.p.kill()
        except OSError:
            pass

    killed = False

    def stderr(self):
        self.p.wait()
        self.err.seek(0)
        return self.err.read().decode(errors="replace")

    def close(self):
        self.kill()
        self.p.wait()


def crash_reason(text):
    for l in text.splitlines():
        if l.startswith(("fatal error:", "panic:", "unexpected fault", "SIGSEGV", "runtime:")):
            return l
    return text.strip().splitlines()[-1][:300] if text.strip() else "the process ended"


def load_known():
    known = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) task=(\S+) match=/(.*)/ :: (.*)$", l.rstrip("\n"))
            if m:
                known.append((m.group(1), re.compile(m.group(2)), re.compile(m.group(3), re.S), m.group(4)))
    return known


def match_known(known, prop, f):
    for i, (p, t, r, _) in enumerate(known):
        if p == prop and t.search(f["task"] + "|" + f.get("sub", "")) and r.search(f["kind"] + ": " + f["msg"]):
            return i
    return None


def check(prop, tier, scratch):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    b = Builder(scratch)
    b.build_all(["s10"])
    out = subprocess.run([b.bin["s10"], "list", prop, tier], capture_output=True, text=True, env=b.env)
    tasks = [json.loads(l) for l in out.stdout.splitlines()]
    if out.returncode or not tasks:
        raise BuildError("no tasks for %s: %s" % (prop, out.stderr))
    b.build_all(sorted({t["variant"] for t in tasks}))
    built = time.time() - t_start
    known = load_known()
    deadline = time.time() + budget
    todo = collections.deque(tasks)
    lock = threading.Lock()
    results, violations, errors, known_hits, unfinished = [], [], [], {}, []
    stop = threading.Event()
    live = set()

    def handle(task, r):
        with lock:
            results.append((task, r))
            if r.get("error"):
                errors.append("%s: %s" % (task["id"], r["error"]))
            for f in r.get("findings") or []:
                f["variant"] = task["variant"]
                k = match_known(known, prop, f)
                if k is None:
                    violations.append(f)
                    stop.set()
                else:
                    known_hits.setdefault(k, f)

    def slot():
        workers = {}
        try:
            while not stop.is_set():
                with lock:
                    if not todo:
                        return
                    task = todo.popleft()
                left = deadline - time.time()
                if left <= 0:
                    with lock:
                        unfinished.append(task["id"])
                    continue
                v = task["variant"]
                tries = 0
                while True:
                    w = workers.get(v)
                    if w is None:
                        w = workers[v] = Worker(b.bin[v], b.env)
                        with lock:
                            live.add(w)
                    left = max(1.0, deadline - time.time())
                    r = w.ask({"prop": prop, "tier": tier, "task": task["id"], "deadline_s": left}, left + 150)
                    if r is not None and w.p.poll() is None:
                        handle(task, r)
                        break
                    # the process ended: by its watchdog (r holds a finding) or by a crash
                    killed, text = w.killed, ""
                    w.p.wait()
                    if r is None:
                        text = w.stderr()
                    with lock:
                        live.discard(w)
                    del workers[v]
                    if stop.is_set():
                        return
                    if killed:
                        with lock:
                            errors.append(task["id"] + ": no answer in time")
                            unfinished.append(task["id"])
                        break
                    tries += 1
                    if tries == 2:
                        if r is None:
                            r = {"task": task["id"], "counters": {}, "findings": [
                                {"prop": prop, "task": task["id"], "sub": "", "kind": "crash", "msg": crash_reason(text), "stack": text[:6000]}]}
                        if r.get("findings"):
                            r["findings"][0]["repeats"] = "2/2"
                        handle(task, r)
                        break
        finally:
            for w in workers.values():
                w.close()

    threads = [threading.Thread(target=slot) for _ in range(min(WORKERS, len(tasks)))]
    for t in threads:
        t.start()

    def reaper():
        stop.wait()
        with lock:
            for w in list(live):
                w.kill()
    threading.Thread(target=reaper, daemon=True).start()
    for t in threads:
        t.join()
    stop.set()
    wall = time.time() - t_start

    # known findings, violations
    for i, (p, _, _, text) in enumerate(known):
        if p == prop and (i in known_hits):
            log("KNOWN-FINDING: property=%s %s" % (prop, text))
    code = 0
    if violations:
        code = 1
        f = violations[0]
        path = os.path.join(EVID, "%s.replay.json" % prop)
        with open(path, "w") as o:
            json.dump(f, o, indent=1)
        log("%s: %s [%s %s] %s" % (f["kind"], f["msg"], f["task"], f.get("sub", ""), f.get("repeats", "")))
        for n in (f.get("notes") or [])[-60:]:
            log("    " + n)
        for n in (f.get("stack") or "").splitlines()[:16]:
            log("    " + n)
        for n in (f.get("trace") or [])[-60:]:
            log("    . " + n)
        log("VIOLATION property=%s replay=%s" % (prop, path))

    # evidence
    tot = collections.Counter()
    samples, capped, capnotes = [], 0, []
    for task, r in results:
        for k, n in r["counters"].items():
            if k == "max_points":
                tot[k] = max(tot[k], n)
            else:
                tot[k] += n
        capped += bool(r.get("capped"))
        capnotes += ["%s: %s" % (task["id"], x) for x in (r.get("cap_notes") or [])]
        if len(samples) < 40:
            samples += [{"task": task["id"], "case": s[:700]} for s in (r.get("samples") or [])[:1]]
    for f in violations[:1]:
        samples.insert(0, {"task": f["task"], "violation": f["msg"][:700]})
    if not samples:
        samples = [{"task": t["id"], "case": "see task"} for t, _ in results[:3]]
    step = max(1, len(samples) // 8)
    cov = {
        "states": tot["states"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["execs"],
        "samples": samples[::step][:10],
        "exhaustive": not (capped or errors or unfinished or violations),
        "oracle_evaluations": tot["checks"],
        "distinct_outcomes": tot["outcomes"],
        "families": tot["families"],
        "families_cut_short": tot["capped_families"],
        "families_with_bounded_preemptions": tot["bounded_families"],
        "redundant_executions_pruned": tot["redundant"],
        "longest_execution_points": tot["max_points"],
        "tasks": len(tasks),
        "tasks_completed": sum(1 for _, r in results if not r.get("capped") and not r.get("error")),
        "tasks_not_started": len(todo) + len(unfinished),
        "build_variants": {v: " ".join(VARIANTS[v]).strip() or "constants as in the source" for v in sorted({t["variant"] for t in tasks})},
        "explanation": "Every execution is one of the real code of /repo (instrumented copy under a controlled scheduler), so each "
                       "explored trace is by construction a trace of the implementation. states = distinct nodes of the schedule trees and "
                       "of the trees of operation histories/inputs; transitions = atomic, channel and lock operations executed; "
                       "traces = complete executions judged by the oracle.",
    }
    if capnotes:
        cov["cut_short"] = capnotes[:20]
    if errors:
        cov["errors"] = [e[:400] for e in errors[:5]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": [
            "Go's sync/atomic operations are sequentially consistent (Go memory model); plain accesses are checked for data races instead of being interleaved",
            "bounds: see DESIGN.md for the key alphabets, history lengths, thread counts and block sizes of each task",
        ],
        "wall_s": round(wall, 1),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    if os.environ.get("VERIF_TIMES"):
        for task, r in sorted(results, key=lambda x: -x[1].get("wall_ms", 0))[:int(os.environ["VERIF_TIMES"])]:
            log("%8d ms %9d executions  %s %s" % (r.get("wall_ms", 0), r["counters"].get("execs", 0), task["variant"], task["id"]))
    for e in errors[:5]:
        log("NOTE (not covered): " + e[:1500])
    log("%s %s: %d tasks, %d executions, %d states, %d transitions, %s, build %.1fs, total %.1fs%s" % (
        prop, tier, len(results), tot["execs"], tot["states"], tot["transitions"],
        "exhaustive within bounds" if cov["exhaustive"] else "NOT exhaustive (%d tasks cut short, %d not run)" % (capped, len(todo) + len(unfinished)),
        built, wall, "" if not known_hits else ", %d known findings" % len(known_hits)))
    if code == 0 and errors and not any(not r.get("error") for _, r in results):
        return 2
    return code


def replay(path, scratch):
    f = json.load(open(path))
    b = Builder(scratch)
    b.build_all([f.get("variant") or "s10"])
    return subprocess.run([b.bin[f.get("variant") or "s10"], "replay", path], env=b.env).returncode


def main():
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="radixmc.")
    try:
        if sys.argv[1] == "--build":   # for development: --build DIR VARIANT...
            b = Builder(scratch)
            b.build_all(sys.argv[3:] or sorted(VARIANTS))
            os.makedirs(sys.argv[2], exist_ok=True)
            for v, p in b.bin.items():
                shutil.copy(p, os.path.join(sys.argv[2], v))
            return 0
        if sys.argv[1] == "--setup":   # nothing is kept between runs: just see that everything builds
            Builder(scratch).build_all(["s10"])
            return 0
        if sys.argv[1] == "--replay":
            return replay(os.path.abspath(sys.argv[2]), scratch)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(sys.argv[1], tier, scratch)
    except BuildError as e:
        log("NO ANSWER: build failed: %s" % str(e)[:4000])
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
