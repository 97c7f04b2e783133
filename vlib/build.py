"""Rebuilds the higra Python package (C++ extension + .py files) from /repo's working tree.

The build directory is /repo/_build (ignored by git, the one /opt/vp/build.sh uses), so an
incremental build costs only what changed.  A content stamp kept outside /repo lets a check skip
the build when neither the sources nor the built extension changed since the last successful build.
"""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
B = os.path.join(REPO, "_build")
PY = "/opt/higra/venv/bin/python"
SITE = os.path.join(BUILD, "site")
WHEELS = ["hypothesis-", "attrs-", "sortedcontainers-"]


def _files():
    out = []
    for top in ("higra", "include", "lib"):
        for d, dn, fs in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return out


def source_hash():
    h = hashlib.sha256()
    for p in _files():
        if p.endswith((".pyc",)):
            continue
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def built_hash(bdir):
    h = hashlib.sha256()
    hd = os.path.join(bdir, "higra")
    if not os.path.isdir(hd):
        return "none"
    for d, dn, fs in os.walk(hd):
        dn.sort()
        if "CMakeFiles" in d:
            continue
        for f in sorted(fs):
            if f.endswith(".py") or (f.startswith("higram") and f.endswith(".so")):
                p = os.path.join(d, f)
                st = os.stat(p)
                h.update(p.encode())
                if f.endswith(".so"):
                    h.update(("%d" % st.st_size).encode())
                    with open(p, "rb") as fh:
                        for blk in iter(lambda: fh.read(1 << 22), b""):
                            h.update(blk)
                else:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def ensure_site():
    """Unpack hypothesis from the offline wheelhouse, for the interpreter higra is built for."""
    mark = os.path.join(SITE, ".done")
    if os.path.exists(mark):
        return
    os.makedirs(SITE, exist_ok=True)
    for w in WHEELS:
        c = [p for p in sorted(glob.glob("/opt/veriftools/wheels/%s*.whl" % w))
             if "cp312" in p or "py3-none" in p or "py2.py3" in p]
        if not c:
            raise RuntimeError("no wheel for " + w)
        # prefer the interpreter specific wheel, else pure python
        c.sort(key=lambda p: ("cp312" in p, p))
        with zipfile.ZipFile(c[-1]) as z:
            z.extractall(SITE)
    open(mark, "w").write("ok")


def _run(cmd, env, log):
    log.write(("+ " + " ".join(cmd) + "\n").encode())
    log.flush()
    return subprocess.call(cmd, stdout=log, stderr=log, env=env)


def base_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["CC"] = "gcc"
    env["CXX"] = "g++"
    env.setdefault("CCACHE_DIR", "/opt/higra/ccache")
    env.setdefault("CCACHE_MAXSIZE", "3G")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PYTHONPATH", None)
    return env


def ensure_build(asan=False, quiet=False):
    """Returns the directory to put on PYTHONPATH. Raises RuntimeError when the build fails."""
    os.makedirs(BUILD, exist_ok=True)
    ensure_site()
    bdir = os.path.join(BUILD, "asan") if asan else B
    stamp = os.path.join(BUILD, "stamp-asan" if asan else "stamp")
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        sh = source_hash()
        if os.path.exists(stamp):
            with open(stamp) as f:
                s = f.read().split()
            if len(s) == 2 and s[0] == sh and s[1] == built_hash(bdir):
                return bdir
        hd = os.path.join(bdir, "higra")
        for d, dn, fs in os.walk(hd):
            for f in fs:
                if f.endswith((".py", ".pyc")):
                    os.remove(os.path.join(d, f))
        env = base_env()
        logp = os.path.join(BUILD, "build-asan.log" if asan else "build.log")
        with open(logp, "wb") as log:
            cfg = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                   "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF", "-DPython_EXECUTABLE=" + PY,
                   "-DHG_USE_TBB=OFF"]
            if asan:
                fl = ("-g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS")
                cfg += ["-DCMAKE_CXX_FLAGS_DEBUG=" + fl, "-DDO_CPP_TEST=OFF",
                        "-DCMAKE_MODULE_LINKER_FLAGS=-fsanitize=address", "-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=address"]
            else:
                cfg += ["-DCMAKE_CXX_FLAGS_DEBUG=-g1", "-DDO_CPP_TEST=ON"]
            ok = _run(cfg, env, log) == 0 and \
                _run(["ninja", "-C", bdir, "-j%d" % (os.cpu_count() or 8), "higram"], env, log) == 0
        if not ok:
            with open(logp, errors="replace") as f:
                sys.stderr.write(f.read()[-6000:])
            raise RuntimeError("build of higra failed (log: %s)" % logp)
        with open(stamp, "w") as f:
            f.write(sh + " " + built_hash(bdir) + "\n")
        return bdir
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


NATIVE = os.path.join(BUILD, "native.so")


def ensure_native():
    """Compiles /verif/native/native.cpp against /repo/include; returns the path of the shared library."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "native", "native.cpp")
    stamp = os.path.join(BUILD, "stamp-native")
    lock = open(os.path.join(BUILD, "lock-native"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = hashlib.sha256(source_hash().encode())
        with open(src, "rb") as f:
            h.update(f.read())
        sh = h.hexdigest()
        if os.path.exists(stamp) and os.path.exists(NATIVE) and open(stamp).read() == sh:
            return NATIVE
        cmd = ["g++", "-DHG_ENABLE_TRACE", "-DXTENSOR_USE_XSIMD", "-DXTENSOR_ENABLE_ASSERT", "-D_GLIBCXX_ASSERTIONS",
               "-I" + os.path.join(REPO, "include"), "-isystem", os.path.join(REPO, "lib", "include"),
               "-std=gnu++17", "-O1", "-g1", "-fPIC", "-w", "-shared", "-o", NATIVE + ".tmp", src]
        logp = os.path.join(BUILD, "build-native.log")
        with open(logp, "wb") as log:
            ok = _run(cmd, base_env(), log) == 0
        if not ok:
            with open(logp, errors="replace") as f:
                sys.stderr.write(f.read()[-6000:])
            raise RuntimeError("build of the native harness failed (log: %s)" % logp)
        os.replace(NATIVE + ".tmp", NATIVE)
        with open(stamp, "w") as f:
            f.write(sh)
        return NATIVE
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    if "--native" in sys.argv:
        ensure_native()
    else:
        ensure_build(asan="--asan" in sys.argv)
