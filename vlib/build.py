"""Offline set-up and (re)builds, all outside /repo.

* .deps/           Hypothesis, unpacked from the pre-installed wheelhouse.
* .build/<kind>-<hash>/  the compiled extensions of the CURRENT /repo tree, keyed by the
                   content of every native source, so that a change in a C++/Cython file is
                   always compiled before a check runs (nothing is written into /repo).
kinds: plain (setup.py flags), asan (address+UB sanitizers), bsp (plain + the BSP extension, using
the system Eigen, because the submodule deps/eigen is empty here).
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEPS = os.path.join(ROOT, ".deps")
BUILD = os.path.join(ROOT, ".build")
WHEELS = "/opt/veriftools/wheels"
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def ensure_deps():
    mark = os.path.join(DEPS, "ok")
    if os.path.exists(mark):
        return DEPS
    os.makedirs(DEPS, exist_ok=True)
    with open(os.path.join(DEPS, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(mark):
            return DEPS
        for pat in ("hypothesis-*-cp312-cp312-*.whl", "sortedcontainers-*.whl"):
            found = sorted(glob.glob(os.path.join(WHEELS, pat)))
            if not found:
                raise BuildError(f"no wheel {pat} in {WHEELS}")
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(DEPS)
        open(mark, "w").write("ok")
    return DEPS


def sources(kind):
    dirs = ["ot/lp", "ot/partial"] if kind != "bsp" else ["ot/bsp"]
    files = ["setup.py"] + sorted(glob.glob(f"{REPO}/ot/helpers/*.py"))
    for d in dirs:
        for ext in ("pyx", "pxd", "h", "hpp", "cpp", "c"):
            files += sorted(glob.glob(f"{REPO}/{d}/*.{ext}"))
    out = []
    for f in files:
        if not f.startswith(REPO):
            f = os.path.join(REPO, f)
        if f.endswith(".cpp") and os.path.exists(f[:-4] + ".pyx"):
            continue
        out.append(f)
    return out


def digest(kind):
    h = hashlib.sha256((sys.version + kind + "v3").encode())
    for f in sources(kind):
        with open(f, "rb") as fh:
            h.update(os.path.relpath(f, REPO).encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


EXTS = {
    "plain": ["ot.lp.emd_wrap", "ot.partial.partial_cython"],
    "asan": ["ot.lp.emd_wrap", "ot.partial.partial_cython"],
    "bsp": ["ot.bsp.bsp_wrap"],
}

DRIVER = r'''
import os, sys, runpy
keep = os.environ["VB_EXTS"].split(",")
import setuptools
real = setuptools.setup
def setup(**kw):
    ext = [e for e in kw["ext_modules"] if e.name in keep]
    for e in ext:
        e.include_dirs = list(e.include_dirs) + [x for x in os.environ.get("VB_INC", "").split(":") if x]
        e.extra_compile_args = list(e.extra_compile_args) + os.environ.get("VB_CFLAGS", "").split()
        e.extra_link_args = list(e.extra_link_args) + os.environ.get("VB_LDFLAGS", "").split()
    kw["ext_modules"] = ext
    return real(**kw)
setuptools.setup = setup
sys.argv = ["setup.py", "build_ext", "--inplace", "-j", "4"]
sys.path.insert(0, os.getcwd())
import Cython.Build
rc = Cython.Build.cythonize
def cythonize(exts, **kw):
    return rc([e for e in exts if e.name in keep], **kw)
Cython.Build.cythonize = cythonize
runpy.run_path("setup.py", run_name="__main__")
'''


def ensure_build(kind="plain"):
    """Directory holding ot/.../*.so built from the current tree."""
    key = digest(kind)
    out = os.path.join(BUILD, f"{kind}-{key}")
    if os.path.exists(os.path.join(out, "ok")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f"lock-{kind}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        if os.path.isdir(out):
            shutil.rmtree(out)
        src = out + ".src"
        if os.path.isdir(src):
            shutil.rmtree(src)
        os.makedirs(src)
        for f in ("README.md", "setup.py", "setup.cfg", "pyproject.toml"):
            if os.path.exists(f"{REPO}/{f}"):
                shutil.copy(f"{REPO}/{f}", src)

        def ignore(d, names):
            return [n for n in names if n.endswith((".so", ".pyc")) or n == "__pycache__"
                    or (n.endswith(".cpp") and n[:-4] + ".pyx" in names)]
        shutil.copytree(f"{REPO}/ot", f"{src}/ot", ignore=ignore)
        env = dict(os.environ)
        env["VB_EXTS"] = ",".join(EXTS[kind])
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if kind == "asan":
            env["VB_CFLAGS"] = "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -fno-sanitize=vptr"
            env["VB_LDFLAGS"] = "-fsanitize=address,undefined"
        if kind == "bsp":
            env["VB_INC"] = "/usr/include/eigen3"
            env["VB_CFLAGS"] = "-std=c++17 -O1 -g0"
        p = subprocess.run([PY, "-s", "-c", DRIVER], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(f"building {kind} failed:\n" + p.stdout[-3000:])
        for ext in EXTS[kind]:
            rel = ext.replace(".", "/")
            so = glob.glob(f"{src}/{rel}.*.so")
            if not so:
                raise BuildError(f"{ext} was not built:\n" + p.stdout[-3000:])
            os.makedirs(os.path.dirname(f"{out}/{rel}"), exist_ok=True)
            shutil.copy(so[0], os.path.dirname(f"{out}/{rel}"))
        shutil.rmtree(src)
        open(os.path.join(out, "ok"), "w").write(key)
    return out


def main():
    ensure_deps()
    for kind in ("plain", "bsp", "asan"):
        print(kind, ensure_build(kind))
    # importing once warms nothing on disk (no bytecode is written); it validates the set-up
    print("setup ok")


if __name__ == "__main__":
    main()
