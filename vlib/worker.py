"""Worker process: runs generated-case jobs sent by the parent as JSON lines on stdin."""
import faulthandler
import hashlib
import importlib
import json
import os
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

import numpy as np  # noqa

np.seterr(all="ignore")
import warnings  # noqa

warnings.simplefilter("ignore")


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if "/props/" in f.filename or "/higra/" in f.filename:
            where = "%s:%d" % (os.path.basename(f.filename), f.lineno)
            break
    return ("%s at %s: %s" % (type(e).__name__, where, str(e)))[:1500]


def rejected_layout(e, s):
    """some functions refuse non-contiguous arrays with an exception: an accepted answer, but not a result"""
    return '"layout"' in s and "bad strides for layout" in str(e)


def unfit(e):
    """the generator of a larger case chose a value type that is too small for its values"""
    if not isinstance(e, OverflowError) or "out of bounds for" not in str(e):
        return False
    return "/higra/" not in traceback.extract_tb(e.__traceback__)[-1].filename


def run_fork(fn, casefile):
    """Run fn in a forked child, so that a crash is an ordinary failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            fn()
        except BaseException as e:  # noqa
            code = 9
            if type(e).__name__ == "Skip":
                code = 8
            try:
                os.write(w, describe(e).encode()[:3000])
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.time()
    out = b""
    import select
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            b = os.read(r, 65536)
            if not b:
                break
            out += b
        elif time.time() - t0 > 40:
            os.kill(pid, 9)
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        raise AssertionError("process killed by signal %d (crash or hang)" % os.WTERMSIG(st))
    c = os.WEXITSTATUS(st)
    if c == 8:
        from vlib.core import Skip
        raise Skip()
    if c != 0:
        raise AssertionError(out.decode(errors="replace") or "exit status %d" % c)


def run_job(mod, job, casefile):
    import hypothesis
    from hypothesis import strategies as st
    from hypothesis.internal.conjecture import engine
    from vlib.core import Ctx, Skip
    from hypothesis.internal.conjecture import providers
    engine.MAX_SHRINKING_SECONDS = 45
    # Hypothesis spends most of its cases on mutations that copy one drawn value over another (half of the draws of
    # an integer in [1, 10] give 1). Three jobs out of four use independent draws instead; failures are still shrunk.
    providers.AVAILABLE_PROVIDERS["independent"] = "vlib.provider.Independent"
    from vlib import gen
    sub = {s.name: s for s in mod.SUBTESTS}[job["sub"]]
    gen.SCALE = job.get("big") or 1
    ctx = Ctx()
    seen = set()
    nontriv = set()
    stat = {"evals": 0, "skipped": 0}
    samples = []
    fail = {}
    fork = job.get("fork")
    first = [None]

    case_strategy = st.composite(lambda draw: sub.strategy(draw))()

    def body(case):
        s = json.dumps(case)
        with open(casefile, "w") as f:
            f.write(s)
        stat["evals"] += 1
        try:
            if fork:
                run_fork(lambda: sub.check(json.loads(s), ctx), casefile)
                r = True
            else:
                r = sub.check(json.loads(s), ctx)
        except Skip:
            stat["skipped"] += 1
            return
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if job.get("big") and unfit(e):
                stat["skipped"] += 1
                ctx.ev("value too large for its type")
                return
            if rejected_layout(e, s):
                stat["skipped"] += 1
                ctx.ev("layout rejected")
                return
            # remember the smallest failing case seen
            if "case" not in fail or len(s) <= len(fail["case"]):
                fail["case"] = s
                fail["msg"] = describe(e)
            if first[0] is None:
                first[0] = time.time()
            raise AssertionError("case failed") from None
        h = hashlib.blake2b(s.encode(), digest_size=8).digest()
        if h not in seen:
            seen.add(h)
            if r:
                nontriv.add(h)
                if len(samples) < 2 and len(s) < 1500:
                    samples.append(case)

    test = hypothesis.given(case_strategy)(body)
    test = hypothesis.settings(max_examples=job["n"], database=None, deadline=None,
                               backend="independent" if job["seed"] % 4 else "hypothesis",
                               suppress_health_check=list(hypothesis.HealthCheck),
                               phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink],
                               verbosity=hypothesis.Verbosity.quiet,
                               report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(job["seed"])(test)
    err = None
    try:
        test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if "case" not in fail:
            err = "harness error: " + describe(e) + "\n" + traceback.format_exc()[-3000:]
    return {"evals": stat["evals"], "skipped": stat["skipped"], "distinct": len(seen), "nontrivial": len(nontriv),
            "samples": samples, "events": ctx.events, "fail": fail or None, "error": err}


def main():
    if "--asan" not in sys.argv:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # the library may print on stdout: keep the protocol on a private descriptor
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    prop = sys.argv[1]
    casefile = sys.argv[2]
    mod = importlib.import_module("props." + prop.lower())
    from vlib.core import Ctx, Skip
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if "case" in rep:
            sub = {s.name: s for s in mod.SUBTESTS}[rep["sub"]]
            try:
                sub.check(json.loads(json.dumps(rep["case"])), Ctx())
            except Skip:
                proto.write(json.dumps({"ok": True, "skip": True}) + "\n")
                return
            except BaseException as e:  # noqa
                if rejected_layout(e, json.dumps(rep["case"])):
                    proto.write(json.dumps({"ok": True, "skip": True}) + "\n")
                    return
                proto.write(json.dumps({"ok": False, "msg": describe(e), "trace": traceback.format_exc()[-4000:]}) + "\n")
                return
            proto.write(json.dumps({"ok": True}) + "\n")
        else:
            res = run_job(mod, rep["job"], casefile)
            f = res["fail"]
            proto.write(json.dumps({"ok": not f, "msg": f and f["msg"]}) + "\n")
        return
    proto.write(json.dumps({"ready": [(s.name, s.quick, s.thorough, s.shard, s.rule, s.big) for s in mod.SUBTESTS]}) + "\n")
    for line in sys.stdin:
        job = json.loads(line)
        t = time.time()
        res = run_job(mod, job, casefile)
        res["t"] = time.time() - t
        os.close(os.open(casefile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
        proto.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
