"""Triage for P26: runs every entry of the call table with each mutation in a forked child of an ASan process and lists the crash classes.
Usage: python3 tools/triage26.py [nproc]"""
import os, sys, re, subprocess, collections
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
if len(sys.argv) > 1 and sys.argv[1] == "worker":
    idx, tot, seed = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    import numpy as np
    import higra as hg
    from props import p25, p26
    hg.set_auto_cache_state(False)
    worlds = [{"sh": [2, 3], "seed": 5 + seed, "lev": 4, "dt": "float64", "p": [2, 2, 2]}, {"sh": [1, 2], "seed": seed, "lev": 2, "dt": "int32", "p": [1, 1]},
              {"sh": [3, 3], "seed": 8 + seed, "lev": 12, "dt": "uint8", "p": [4, 4, 5, 5, 6, 6, 6]}]
    jobs = []
    for i, (name, f) in enumerate(p25.TABLE):
        if i % tot != idx:
            continue
        w = p26.Fuzzed(worlds[0])
        seen = []
        class Rec(p26.Fuzzed):
            def a(self, nm, k):
                if nm not in seen:
                    seen.append(nm)
                return p26.Fuzzed.a(self, nm, k)
        try:
            f(Rec(worlds[0]), 0)
        except Exception:
            pass
        for wi in range(len(worlds)):
            for o in ([99] if os.environ.get("ONLY_REMOVED") else range(11)):
                jobs.append((i, wi, None, None, o))
            for nm in ([] if os.environ.get("ONLY_REMOVED") else seen):
                for m in p26.KINDS:
                    for var in ((0, 1, 2, 3) if m in ("neg", "big", "2d", "short", "long", "min", "inf", "nan", "huge", "zero") else range(len(p26.DT)) if m == "dtype" else (0,)):
                        jobs.append((i, wi, nm, [m, 1 + var, var], None))
    for i, wi, nm, m, o in jobs:
        name, f = p25.TABLE[i]
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.dup2(wfd, 2)
            os.close(r)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CPU, (8, 9))
                w = p26.Fuzzed(worlds[wi])
                if o is not None:
                    p26.swap_objects(w, o)
                else:
                    w.mut = {nm: m}
                for k in (0, 1):
                    try:
                        p26.use(f(w, k))
                    except Exception as e:
                        pass
            except BaseException:
                pass
            os._exit(0)
        os.close(wfd)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st:
            txt = data.decode(errors="replace")
            fr = [l for l in txt.splitlines() if re.match(r"\s*#\d+ ", l) and ("higra/include" in l or "repo/" in l) and "/lib/" not in l and "pybind" not in l]
            sm = re.search(r"SUMMARY: (.*)", txt)
            loc = re.findall(r"(/\S+:\d+)", fr[0])[0] if fr and re.findall(r"(/\S+:\d+)", fr[0]) else "?"
            print("CRASH\t%s\t%s\t%s\t%s" % (name, loc, (sm.group(1) if sm else "status %d" % st)[:120], (nm, m, o, wi)), flush=True)
    print("DONE", len(jobs), flush=True)
else:
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 8
    seed = sys.argv[2] if len(sys.argv) > 2 else "0"
    from vlib import runner, build
    b = build.ensure_build(asan=True)
    env = runner.worker_env(b, True)
    ps = [subprocess.Popen([build.PY, "-W", "ignore", os.path.abspath(__file__), "worker", str(i), str(n), seed], env=env, stdout=subprocess.PIPE, text=True, cwd="/tmp") for i in range(n)]
    cl = collections.defaultdict(list)
    done = 0
    import threading
    def rd(p):
        global done
        for l in p.stdout:
            if l.startswith("CRASH"):
                _, name, loc, sm, how = l.rstrip("\n").split("\t")
                cl[(name, loc)].append((how, sm))
            elif l.startswith("DONE"):
                done += int(l.split()[1])
            else:
                print(l, end="")
    th = [threading.Thread(target=rd, args=(p,)) for p in ps]
    [t.start() for t in th]; [t.join() for t in th]
    print([p.wait() for p in ps], done, "jobs")
    for (name, loc), l in sorted(cl.items(), key=lambda x: x[0][1]):
        print(loc, "|", name, "|", len(l), "|", l[0][0], "|", l[0][1])
