"""Parent process of a check: builds higra, schedules jobs on worker processes, replays failures, writes evidence."""
import hashlib
import json
import os
import queue
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import build

VERIF = build.VERIF
HANG = 60.0
BIG = [None]    # --big FACTOR,CASES: only the jobs on larger inputs, of every sub-test
NW = int(os.environ.get("VERIF_WORKERS", "8"))


def drop(path):
    try:
        os.remove(path)
    except OSError:
        pass


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def worker_env(bdir, asan=False):
    env = dict(os.environ)
    env["PYTHONPATH"] = bdir + ":" + build.SITE
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["MPLBACKEND"] = "Agg"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        std = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.realpath(std)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=64"
        env["PYTHONMALLOC"] = "malloc"
    return env


class Worker:
    def __init__(self, prop, env, run, idx, asan):
        self.casefile = os.path.join(run, "w%d.case" % idx)
        self.errfile = os.path.join(run, "w%d.err" % idx)
        open(self.casefile, "w").close()
        self.err = open(self.errfile, "wb")
        cmd = [build.PY, "-W", "ignore", os.path.join(VERIF, "vlib", "worker.py"), prop, self.casefile]
        if asan:
            cmd.append("--asan")
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=run)
        self.buf = b""

    def readline(self, stop=None):
        """('line', bytes) | ('dead', None) | ('hang', None) | ('stop', None)"""
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                l, self.buf = self.buf[:i], self.buf[i + 1:]
                return "line", l
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if r:
                b = os.read(self.p.stdout.fileno(), 1 << 16)
                if not b:
                    self.p.wait()
                    return "dead", None
                self.buf += b
            else:
                if stop is not None and stop.is_set():
                    return "stop", None
                try:
                    stt = os.stat(self.casefile)
                    if stt.st_size > 0 and time.time() - stt.st_mtime > HANG:
                        return "hang", None
                except OSError:
                    pass

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass

    def tail(self):
        try:
            with open(self.errfile, errors="replace") as f:
                return f.read()[-2500:]
        except OSError:
            return ""


def replay_once(prop, path, env, run, timeout, asan=False):
    """(failed, message)"""
    cf = tempfile.mktemp(dir=run)
    cmd = [build.PY, "-W", "ignore", os.path.join(VERIF, "vlib", "worker.py"), prop, cf, "--replay", path]
    if asan:
        cmd.append("--asan")
    try:
        p = subprocess.run(cmd, env=env, cwd=run, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "no answer after %d s" % timeout
    if p.returncode != 0:
        err = p.stderr.decode(errors="replace")
        if p.returncode > 0 and p.returncode != 77 and "Traceback" in err and "AddressSanitizer" not in err:
            raise RuntimeError("harness error in replay: " + err[-3000:])
        i = err.find("ERROR: AddressSanitizer")
        return True, "process died with status %d %s" % (p.returncode, err[i:i + 1500] if i >= 0 else err[-500:])
    line = p.stdout.decode().strip().splitlines()[-1]
    r = json.loads(line)
    return (not r["ok"]), r.get("msg") or ""


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    asan = (prop in ("P26",) or os.environ.get("ASAN"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    i = 1
    replay = None
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 2
        elif argv[i] == "--sub":
            only = argv[i + 1].split(",")
            i += 2
        elif argv[i] == "--scale":
            scale = float(argv[i + 1])
            i += 2
        elif argv[i] == "--big":
            BIG[0] = [int(x) for x in argv[i + 1].split(",")]
            i += 2
        elif argv[i] == "--noasan":
            asan = False
            i += 1
        else:
            raise SystemExit("unknown argument " + argv[i])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = seed_of(os.environ["VERIF_SEED"]) % (1 << 31)
    t0 = time.time()
    bdir = build.ensure_build(asan=asan)
    if prop in ("P13", "P27"):
        build.ensure_native()
    tb = time.time() - t0
    env = worker_env(bdir, asan)
    os.makedirs(os.path.join(build.BUILD, "run"), exist_ok=True)
    run = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(build.BUILD, "run"))
    try:
        if replay:
            bad, msg = replay_once(prop, os.path.abspath(replay), env, run, HANG * 2, asan)
            print("FAILS" if bad else "HOLDS", msg)
            if bad:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(replay)))
            return 1 if bad else 0
        return explore(prop, tier, seed, env, run, only, scale, asan, tb, t0)
    finally:
        shutil.rmtree(run, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def explore(prop, tier, seed, env, run, only, scale, asan, tb, t0):
    viol = []          # (replay path, message)
    stop = threading.Event()
    results = []
    errors = []
    lock = threading.Lock()
    notes = []
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(repdir, exist_ok=True)

    def save(rep):
        h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(repdir, "%s-%s-%s.json" % (prop, rep["sub"], h))
        with open(path, "w") as f:
            json.dump(rep, f)
        return path

    # 1. regression corpus (shrunk cases of earlier findings and planted bugs)
    cdir = os.path.join(VERIF, "corpus", prop)
    corpus = sorted(os.path.join(cdir, f) for f in os.listdir(cdir)) if os.path.isdir(cdir) and not only else []
    corpus = [c for c in corpus if c.endswith(".json")]

    def confirm(path, timeout=HANG * 1.5):
        fails = 0
        msg = ""
        for _ in range(3):
            bad, m = replay_once(prop, path, env, run, timeout, asan)
            if bad:
                fails += 1
                msg = m
        return fails, msg

    # start one worker to learn the sub-tests
    w0 = Worker(prop, env, run, 0, asan)
    kind, line = w0.readline()
    if kind != "line":
        sys.stderr.write(w0.tail())
        print("ERROR: worker did not start")
        return 2
    subs = json.loads(line)["ready"]
    jobs = queue.Queue()
    jl = []
    for name, q, th, shard, rule, big in subs:
        if only and name not in only:
            continue
        if big:
            factor, m = BIG[0] or (0, big)
            if tier != "quick":
                m *= 25
            for s in range(0, m, 8):
                jl.append((s, name, min(8, m - s), factor or (8, 40)[s // 8 % 2]))
        if BIG[0]:
            continue
        n = max(1, int((q if tier == "quick" else th) * scale))
        k = max(1, (n + shard - 1) // shard)
        for s in range(k):
            m = n // k + (1 if s < n % k else 0)
            jl.append((s, name, m, 0))
    jl.sort(key=lambda x: x[0])  # interleave sub-tests
    for s, name, m, factor in jl:
        j = {"sub": name, "shard": s, "n": m, "seed": seed_of(seed, prop, name, s, tier)}
        if factor:
            j.update(big=factor, seed=seed_of(seed, prop, name, s, tier, "big"))
        jobs.put(j)
    for c in corpus:
        pass

    budget = 600 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "7200"))

    def handle_failure(job, kind, w, res):
        """turn a failing job into a confirmed violation or a note"""
        case = None
        msg = ""
        if kind == "fail":
            case = json.loads(res["fail"]["case"])
            msg = res["fail"]["msg"]
        else:
            try:
                case = json.load(open(w.casefile))
            except Exception:
                case = None
            msg = "worker %s" % kind + " " + w.tail()[-1500:]
        sub = job["sub"]
        if case is not None:
            path = save({"property": prop, "sub": sub, "case": case, "msg": msg})
            fails, m = confirm(path)
            if fails == 3 or fails > 0:
                if kind == "dead":
                    # shrink the crash with every case in its own process
                    w2 = Worker(prop, env, run, 100 + threading.get_ident() % 1000000, asan)
                    w2.readline()
                    j2 = dict(job, fork=True)
                    w2.p.stdin.write((json.dumps(j2) + "\n").encode())
                    w2.p.stdin.flush()
                    end = time.time() + 150
                    got = None
                    while time.time() < end:
                        w2stop = threading.Event()
                        w2stop.set()
                        k2, l2 = w2.readline(w2stop)
                        if k2 == "line":
                            got = json.loads(l2)
                            break
                        if k2 in ("dead", "hang"):
                            break
                    w2.kill()
                    if got and got.get("fail"):
                        p2 = save({"property": prop, "sub": sub, "case": json.loads(got["fail"]["case"]),
                                   "msg": got["fail"]["msg"]})
                        f2, m2 = confirm(p2)
                        if f2:
                            drop(path) if p2 != path else None
                            path, m = p2, m2
                with lock:
                    viol.append((path, sub, m or msg))
                return
            drop(path)
        # not reproducible from the single case: replay the whole job
        path = save({"property": prop, "sub": sub, "job": job, "msg": msg, "last_case": case})
        fails, m = confirm(path, timeout=400)
        if fails:
            with lock:
                viol.append((path, sub, "(depends on the history of the run) " + (m or msg)))
        else:
            drop(path)
            with lock:
                notes.append("unreproducible failure in %s: %s" % (sub, msg[:300]))

    def loop(idx, w):
        while not stop.is_set():
            try:
                job = jobs.get_nowait()
            except queue.Empty:
                break
            if time.time() - t0 > budget:
                with lock:
                    notes.append("time budget reached: job %s/%d not run" % (job["sub"], job["shard"]))
                continue
            if w is None:
                w = Worker(prop, env, run, idx, asan)
                kind, _ = w.readline()
                if kind != "line":
                    errors.append("worker did not start: " + w.tail())
                    break
            try:
                w.p.stdin.write((json.dumps(job) + "\n").encode())
                w.p.stdin.flush()
            except OSError:
                pass
            kind, line = w.readline(stop)
            if kind == "stop":
                break
            if kind == "line":
                res = json.loads(line)
                with lock:
                    results.append((job, res))
                if res["error"]:
                    errors.append(res["error"])
                    stop.set()
                if res["fail"]:
                    handle_failure(job, "fail", w, res)
                    if viol:
                        stop.set()
            else:
                if kind == "hang":
                    w.kill()
                handle_failure(job, kind, w, None)
                w.kill()
                w = None
                if viol:
                    stop.set()
        if w is not None:
            w.kill()

    # corpus first, a few at a time
    def cor(lst):
        for c in lst:
            bad, m = replay_once(prop, c, env, run, HANG * 1.5, asan)
            if bad:
                fails, m = confirm(c)
                if fails:
                    rep = json.load(open(c))
                    p = save({"property": prop, "sub": rep["sub"], **({"case": rep["case"]} if "case" in rep else {"job": rep["job"]})})
                    with lock:
                        viol.append((p, rep["sub"] + " (regression corpus %s)" % os.path.basename(c), m))

    th = [threading.Thread(target=cor, args=(corpus[k::NW],)) for k in range(NW)]
    [t.start() for t in th]
    [t.join() for t in th]
    known_lines = []
    for k in load_known(prop):
        path = os.path.join(run, "known-%s.json" % k["id"])
        json.dump(k["replay"], open(path, "w"))
        bad, m = replay_once(prop, path, env, run, HANG * 1.5, asan)
        if bad:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not viol:
        th = []
        for idx in range(NW):
            t = threading.Thread(target=loop, args=(idx, w0 if idx == 0 else None))
            t.start()
            th.append(t)
        [t.join() for t in th]
    else:
        w0.kill()

    # evidence
    per = {}
    samples = []
    rules = {x[0]: x[4] for x in subs}
    for job, r in results:
        d = per.setdefault(job["sub"] + ("@big" if job.get("big") else ""), {"evaluations": 0, "distinct": 0, "distinct_nontrivial": 0, "skipped": 0,
                                        "cpu_s": 0.0, "events": {}})
        d["evaluations"] += r["evals"]
        d["distinct"] += r["distinct"]
        d["distinct_nontrivial"] += r["nontrivial"]
        d["skipped"] += r["skipped"]
        d["cpu_s"] = round(d["cpu_s"] + r["t"], 2)
        for k, v in r["events"].items():
            d["events"][k] = d["events"].get(k, 0) + v
        if r["samples"] and sum(1 for s in samples if s["sub"] == job["sub"]) < 1:
            samples.append({"sub": job["sub"], "case": r["samples"][-1]})
    for k in per:
        per[k]["rule"] = rules.get(k.split("@")[0], "")
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in per.values()),
            "rule": "Cases are drawn by Hypothesis strategies (seeded from VERIF_SEED); a case counts once per distinct "
                    "generated value within its shard and is non-trivial when its sub-test's rule (see subtests) says so: "
                    + "; ".join("%s: %s" % (k, v) for k, v in rules.items() if v),
            "samples": samples[:12],
            "subtests": per,
            "corpus_replayed": len(corpus),
            "exhaustive": False,
        },
        "assumptions": ["the reference oracles under /verif/props are correct", "Debug build of higram without TBB"
                        + (" instrumented with AddressSanitizer" if asan else "")],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "build_s": round(tb, 2),
        "notes": notes[:20],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(per):
        d = per[k]
        print("  %-28s %6d cases %6d distinct non-trivial %5d skipped %7.1f s  %s" % (
            k, d["evaluations"], d["distinct_nontrivial"], d["skipped"], d["cpu_s"],
            " ".join("%s=%d" % kv for kv in sorted(d["events"].items()))))
    for n in notes:
        print("NOTE:", n)
    for l in known_lines:
        print(l)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], tb))
    if viol:
        for p, sub, m in viol:
            print("sub-test %s: %s" % (sub, m))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        print("ERROR:", errors[0])
        return 2
    return 0
