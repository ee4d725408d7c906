"""Builds what a check needs from /repo's current working tree.

Every run configures a fresh build directory (so no stale object can survive a
change, whatever its time stamp) and compiles through a content-hashed ccache
in /verif/.build, which only makes it faster.
"""
import fcntl
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


MISSING = []   # harness modules that do not compile against the current tree


def build(targets, tag="main", flags=None, opt=None):
    """Builds the CMake targets; returns the directory of the extension modules.

    A vx_* module (our own access code) that no longer compiles is noted in MISSING, and the
    cases that need it are skipped; anything of the repository that does not compile is an error."""
    os.makedirs(BUILD, exist_ok=True)
    bdir = os.path.join(BUILD, "cmake-" + tag)
    lock = open(os.path.join(BUILD, "lock-" + tag), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    env = dict(os.environ)
    env.update(CC="gcc", CXX="g++", CCACHE_DIR=os.path.join(BUILD, "ccache"),
               CCACHE_MAXSIZE="2G", CCACHE_SLOPPINESS="", CCACHE_NOHASHDIR="1")
    env.pop("CCACHE_DISABLE", None)
    if os.path.isdir(bdir):
        shutil.rmtree(bdir)
    cmd = ["cmake", "-S", os.path.join(ROOT, "cpp"), "-B", bdir, "-G", "Ninja",
           "-DREPO=" + REPO, "-DEIGCOPY=" + os.path.join(BUILD, "eigen3")]
    if shutil.which("ccache"):
        cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
    if opt:
        cmd += ["-DVOPT=" + opt]
    for f in flags or []:
        cmd.append(f)
    log = open(os.path.join(BUILD, "build-" + tag + ".log"), "w")
    for c in (cmd, ["ninja", "-k", "0", "-C", bdir, "-j", str(os.cpu_count() or 8)] + list(targets)):
        r = subprocess.run(c, env=env, stdout=log, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            log.flush()
            text = open(log.name).read()
            failed = [ln for ln in text.splitlines() if ln.startswith("FAILED:")]
            if failed and all("/vx_" in ln or "vx_" in ln.split("FAILED:")[1] for ln in failed):
                for x in targets:
                    if any(x in ln for ln in failed):
                        MISSING.append(x)
                print("[build] harness modules that do not compile: %s" % MISSING, file=sys.stderr)
                continue
            log.close()
            raise BuildError("build failed: %s\n%s" % (" ".join(c), text[-3000:]))
    # keep only what is loaded: drop the objects
    for d in ("CMakeFiles",):
        shutil.rmtree(os.path.join(bdir, d), ignore_errors=True)
    print("[build] %s: %.1f s" % (" ".join(targets), time.time() - t0), file=sys.stderr)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(bdir, "pyext")
