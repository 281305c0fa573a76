"""Access to the code under test (imported from the current /repo tree)."""
import os
import sys

os.environ.setdefault("TQDM_DISABLE", "1")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import pyslope.pyslope as PS  # noqa: E402
from pyslope import LineLoad, Material, Slope, Udl  # noqa: E402
from pyslope import utilities as PU  # noqa: E402

assert os.path.realpath(PS.__file__).startswith(os.path.realpath(REPO) + "/")


def close(a, b, rel=1e-7, abs_=1e-9):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def has_results(s):
    return bool(s._search)


def planes_of(s):
    """the reported planes as plain tuples, in reported order"""
    return [
        (
            float(p["c_x"]), float(p["c_y"]), float(p["radius"]),
            float(p["FOS"]),
            tuple(float(v) for v in p["l_c"]),
            tuple(float(v) for v in p["r_c"]),
        )
        for p in s._search
    ]


# ------------------------------------------------------------ canonical dump
_ATOM = (int, float, str, bool, bytes, type(None), complex)


def dump(*roots):
    """canonical form of everything reachable from the roots: equal dumps
    have equal futures (the library has no state outside of these objects,
    module state is added by `module_state`)"""
    ids, out, keep = {}, [], []

    def walk(o):
        if isinstance(o, _ATOM):
            out.append(repr(o))
            return
        if hasattr(o, "dtype") and hasattr(o, "tolist"):
            out.append("np" + repr(o.tolist()))
            return
        if id(o) in ids:
            out.append(f"@{ids[id(o)]}")
            return
        ids[id(o)] = len(ids)
        keep.append(o)
        if isinstance(o, dict):
            out.append("{")
            for k in o:
                walk(k)
                out.append(":")
                walk(o[k])
                out.append(",")
            out.append("}")
        elif isinstance(o, (list, tuple)):
            out.append("[" if isinstance(o, list) else "(")
            for v in o:
                walk(v)
                out.append(",")
            out.append("]")
        elif isinstance(o, (set, frozenset)):
            out.append("set" + repr(sorted(map(repr, o))))
        elif isinstance(o, type) or callable(o):
            out.append(getattr(o, "__qualname__", repr(type(o))))
        elif hasattr(o, "__dict__"):
            out.append(type(o).__qualname__)
            walk(o.__dict__)
        else:
            out.append(type(o).__qualname__ + ":" + repr(o))

    for r in roots:
        walk(r)
        out.append(";")
    return "".join(out)


def module_state():
    """mutable state living in the library's modules, classes, defaults"""
    out = []
    for mod in (PS, PU, sys.modules.get("pyslope.data_validation")):
        for name, val in sorted(vars(mod).items()):
            if name.startswith("__"):
                continue
            if isinstance(val, (list, dict, set)):
                out.append((name, dump(val)))
            elif isinstance(val, type) and val.__module__.startswith("pyslope"):
                for k, v in sorted(vars(val).items()):
                    if isinstance(v, (list, dict, set)) and not k.startswith("__"):
                        out.append((name, k, dump(v)))
                    f = getattr(v, "__func__", v)
                    out.extend(_fstate(name + "." + k, f))
            elif callable(val) and getattr(val, "__module__", "").startswith(
                "pyslope"
            ):
                out.extend(_fstate(name, val))
            elif isinstance(val, (int, float, str, type(None))):
                out.append((name, repr(val)))
    return digest_of(out)


def _fstate(name, f):
    out = []
    d = getattr(f, "__defaults__", None)
    if d and any(isinstance(x, (list, dict, set)) for x in d):
        out.append((name, dump(d)))
    if hasattr(f, "cache_info"):
        out.append((name, str(f.cache_info())))
    if getattr(f, "__dict__", None) and not hasattr(f, "cache_info"):
        out.append((name, dump({k: v for k, v in f.__dict__.items()
                                if isinstance(v, (list, dict, set, int, float, str))})))
    return out


def digest_of(x):
    import hashlib

    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


# ----------------------------------------------------------------- geometry
def circle_through(p1, p2, sag):
    """circle below the chord p1-p2 with sagitta = sag * chord length"""
    (x1, y1), (x2, y2) = p1, p2
    c = ((x2 - x1) ** 2 + (y2 - y1) ** 2) ** 0.5
    h = sag * c
    r = (c * c / 4 + h * h) / (2 * h)
    # unit normal pointing up
    nx, ny = (y1 - y2) / c, (x2 - x1) / c
    d = r - h
    return ((x1 + x2) / 2 + nx * d, (y1 + y2) / 2 + ny * d, r)
