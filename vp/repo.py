"""Import the Python package and the C++ extension of /repo's working tree."""
import importlib.util
import os
import sys
import types

from vp import build as B

REPO = B.REPO
CPP = os.path.join(REPO, "src/vmecpp/cpp")
TEST_DATA = os.path.join(CPP, "vmecpp/test_data")


def _load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def ext(dirname, name, as_name=None):
    for f in os.listdir(dirname):
        if f.startswith(name + ".") and f.endswith(".so"):
            return _load(os.path.join(dirname, f), as_name or name)
    if name in B.MISSING:
        return _Absent(name)
    raise ImportError(name)


class _Absent:
    """Stands in for a harness module that does not compile: every case that uses it is skipped."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        from vp.harness import Skip
        raise Skip("harness module %s does not compile against this tree" % self._name)


def full(tag, extra=(), **kw):
    """Builds _vmecpp (+ extra vx modules), imports vmecpp; returns (vmecpp, [extras])."""
    d = B.build(["_vmecpp"] + list(extra), tag=tag, **kw)
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    cpp_pkg = types.ModuleType("vmecpp.cpp")
    cpp_pkg.__path__ = [os.path.join(src, "vmecpp/cpp")]
    spec = None
    for f in os.listdir(d):
        if f.startswith("_vmecpp."):
            spec = importlib.util.spec_from_file_location("vmecpp.cpp._vmecpp", os.path.join(d, f))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules["vmecpp.cpp._vmecpp"] = m
    sys.modules["vmecpp.cpp"] = cpp_pkg
    cpp_pkg._vmecpp = m
    import vmecpp
    return (vmecpp, [ext(d, e) for e in extra])


def modules(tag, extra, **kw):
    """Only the vx modules."""
    d = B.build(list(extra), tag=tag, **kw)
    return [ext(d, e) for e in extra]


def pure():
    """The Python package without the extension (as the repository's own test plugin does)."""
    if "vmecpp" not in sys.modules:
        p = types.ModuleType("vmecpp")
        p.__path__ = [os.path.join(REPO, "src/vmecpp")]
        sys.modules["vmecpp"] = p
    return sys.modules["vmecpp"]
