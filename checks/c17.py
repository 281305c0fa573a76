import itertools

from mc.engine import Violation
from mc.impl import LineLoad, Material, Slope, Udl, close
from mc.ref import Model, Rejected, RLineLoad, RMaterial, RUdl
from mc.world import World

JUNK = ["7", "", "x", None, [1], [], (2,), {"a": 1}, {}, b"3", 2 + 1j]
NUMS = [0, 0.0, -0.0, 1, -1, 2.5, -2.5, 1e-9, -1e-9, 3, 1000, 1e6, 45, 1 / 3]
UW = [0, 0.5, 0.999999, 1, 1.0, 1.000001, 20, 49.999, 50, 50.0, 50.0001, 51, -1, -20, 1e9]
PHI = [0, 0.0, 1e-9, -1e-9, -1, 35, 60.5, 89, -35]
NAMES = ["", "Sand & silt", None, "a<b", "0"]
COLOURS = ["", "red", "#123", "#a1b2c3", "nonsense", None, "Blue"]
LOADCOL = ["red", "blue", "#123", "#a1b2c3", "nonsense", "", "green", "#12", "no colour"]
LENGTHS = [None, 0, 0.0, 1, -1, 2.5, -2.5, 1e-6, 400] + ["3", [1], (1,), {"a": 2}]
ANGLES = [None, 0, 0.0, 1e-6, 0.5, 30, 45, 89.9, 90, 90.0, 90.0001, 91, 180, -1, -45, 1000] + [
    "45", [45], (45,), {"a": 1}]
HEIGHTS = [0, 0.0, -1, -1e-9, 1e-3, 1, 2.5, 60, "2", [2], (2,), {}]
SLENGTHS = [None, 0, 0.0, 1e-9, 0.5, 3, 80, -1e-9, -3, "3", [3], (3,)]
SIZES = [None, 0, 3, 0.2, 14.5, 500, -1, -1e-9, "9", [9], (9,), ""]
LIMIT_VALUES = [None, 0, 0.5, 4, 4.1, 4.6, 5, 5.5, 6, 9, 10, 12, -1, -1e-9, "4", [4]]
DEPTHS = [None, 0, 0.0, 0.5, 5, 100, -1e-9, -1, "1", [1], (1,), {}]
HS = [None, 0, 0.4, 1, 2, -1, 1.0, "0.5", [1], (), {}]


def is_colour(c):
    return c in ("red", "blue", "green", "Blue", "#123", "#a1b2c3")


def outcome(f):
    try:
        return f()
    except (ValueError, Rejected) as e:
        return e


class C17:
    ID = "C17"
    EXPLAIN = (
        "every argument of every constructor and setter over a pool of "
        "valid, boundary, just-invalid and wrong-type values, in all pairs "
        "of arguments (all triples for the face): accepted or rejected with "
        "a value error as the reference says, stored values against the "
        "documented normalisation, and after a rejection the corrected call"
    )
    ASSUMES = [
        "booleans, NaN, infinities and numpy scalars are not covered",
        "names and colours that are not strings are not covered",
    ]

    def run(self, case, ctx):
        ctx.state(case)
        getattr(self, case["kind"])(case, ctx)

    def both(self, ctx, what, f, g):
        a, b = outcome(f), outcome(g)
        ctx.step()
        ctx.validated += 1
        ra, rb = isinstance(a, Exception), isinstance(b, Exception)
        if ra and not rb:
            raise Violation(f"{what} is rejected ({a}) but is valid")
        if rb and not ra:
            raise Violation(f"{what} is accepted but is not valid ({b})")
        ctx.outcome(what.split("(")[0], "rejected" if rb else "accepted")
        return (None, None) if rb else (a, b)

    def stored(self, what, got, want):
        for (k, v), w in zip(got.items(), want):
            same = v == w and (v is None) == (w is None)
            if isinstance(w, float) or isinstance(w, int) and not isinstance(w, bool):
                same = isinstance(v, (int, float)) and close(v, w, rel=1e-12, abs_=0)
            if not same:
                raise Violation(f"{what}: {k} is {v!r}, expected {w!r}")

    def mat(self, case, ctx):
        uw, phi, c, d, n, col = case["args"]
        what = f"Material({uw!r}, {phi!r}, {c!r}, {d!r}, {n!r}, {col!r})"
        p, q = self.both(ctx, what, lambda: Material(uw, phi, c, d, n, col),
                         lambda: RMaterial(uw, phi, c, d, n, col))
        if p is None:
            return
        self.stored(what, dict(
            unit_weight=p.unit_weight, friction_angle=p.friction_angle, cohesion=p.cohesion,
            depth_to_bottom=p.depth_to_bottom, name=p.name, color=p.color),
            (q.uw, q.phi, q.c, q.depth, q.name, q.color))
        s = Slope()
        s.set_materials(p)
        self.stored(what + " on a slope", dict(
            unit_weight=p.unit_weight, friction_angle=p.friction_angle, cohesion=p.cohesion,
            depth_to_bottom=p.depth_to_bottom, name=p.name),
            (q.uw, q.phi, q.c, q.depth, q.name))
        if is_colour(col) and p.color != col:
            raise Violation(f"{what}: colour on a slope is {p.color}")
        if not is_colour(col) and (not p.color or p.color == "nonsense"):
            raise Violation(f"{what}: colour on a slope is {p.color!r}")

    def udl(self, case, ctx):
        m, o, n, col, dyn = case["args"]
        what = f"Udl({m!r}, {o!r}, {n!r}, {col!r}, {dyn})"
        p, q = self.both(ctx, what, lambda: Udl(m, o, n, col, dyn),
                         lambda: RUdl(m, o, n, col, dyn))
        if p is None:
            return
        self.stored(what, dict(
            magnitude=p.magnitude, offset=p.offset, length=p.length, color=p.color,
            dynamic_offset=p.dynamic_offset),
            (q.mag, q.offset, q.length, col if is_colour(col) else "red", dyn))

    def ll(self, case, ctx):
        m, o, col, dyn = case["args"]
        what = f"LineLoad({m!r}, {o!r}, {col!r}, {dyn})"
        p, q = self.both(ctx, what, lambda: LineLoad(m, o, col, dyn),
                         lambda: RLineLoad(m, o, col, dyn))
        if p is None:
            return
        self.stored(what, dict(
            magnitude=p.magnitude, offset=p.offset, color=p.color,
            dynamic_offset=p.dynamic_offset),
            (q.mag, q.offset, col if is_colour(col) else "blue", dyn))

    def face(self, case, ctx):
        h, a, n = case["args"]
        what = f"Slope({h!r}, {a!r}, {n!r})"
        p, q = self.both(ctx, what, lambda: Slope(h, a, n), lambda: Model(h, a, n))
        for start in ({}, dict(height=2, angle=None, length=0.7)):
            w = World(start)
            w.do(("B", h, a, n))
            w.check_geometry(ctx)
        if p is not None:
            w.slopes[0] = p
            w.models[0] = q
            w.check_geometry(ctx)

    def setter(self, case, ctx):
        """one or more setter calls in lockstep, then a valid one"""
        w = World()
        w.do(("M+", "A"))
        for op in case["ops"]:
            ok = w.do(tuple(op))
            ctx.step()
            ctx.outcome(op[0], "accepted" if ok else "rejected")
        w.check_geometry(ctx)
        w.probe(ctx, n=1)
        s, m = w.slopes[0], w.models[0]
        if case.get("limits"):
            lim = getattr(s, "_limits", None)
            if isinstance(lim, (list, tuple)) and len(lim) == 4:
                for u, v in zip(lim, m.limits):
                    if not close(u, v):
                        raise Violation(f"limits {lim} instead of {m.limits}")
                ctx.validated += 1

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases = []

        def pairs(kind, base, pools):
            seen = set()
            for i in range(len(pools)):
                for j in range(i + 1, len(pools)):
                    for u, v in itertools.product(pools[i], pools[j]):
                        a = list(base)
                        a[i], a[j] = u, v
                        k = repr(a)
                        if k not in seen:
                            seen.add(k)
                            cases.append(dict(kind=kind, args=a))

        pairs("mat", [20, 35, 2, 5, "", ""],
              [UW + JUNK, PHI + NUMS + JUNK, NUMS + JUNK, NUMS + JUNK, NAMES, COLOURS])
        pairs("udl", [10, 1, 2, "red", False],
              [NUMS + JUNK, NUMS + JUNK, LENGTHS, LOADCOL, [True, False]])
        pairs("ll", [10, 1, "blue", False], [NUMS + JUNK, NUMS + JUNK, LOADCOL, [True, False]])
        for a in itertools.product(HEIGHTS, ANGLES, SLENGTHS):
            cases.append(dict(kind="face", args=list(a)))
        if deep:
            for a in itertools.product(UW + JUNK, PHI + JUNK, NUMS + JUNK, NUMS + JUNK):
                cases.append(dict(kind="mat", args=list(a) + ["", ""]))
        # None for numbers that have no default meaning is a type error
        ex.product(cases, "constructors and faces")
        cases = []
        for a in itertools.product(SIZES, SIZES):
            cases.append(dict(kind="setter", ops=[["E", *a], ["E", 21, None]]))
            cases.append(dict(kind="setter", ops=[["E", 17, 9], ["E", *a]]))
        for d in DEPTHS:
            for e in DEPTHS:
                cases.append(dict(kind="setter", ops=[["W", d], ["W", e]]))
            for h in HS:
                for au in (True, False):
                    cases.append(dict(kind="setter", ops=[["W", 0.4], ["WO", au, h], ["W", d]]))
        keys = ("left_x", "right_x", "left_x_right", "right_x_left")
        for i, j in itertools.combinations(range(4), 2):
            for u, v in itertools.product(LIMIT_VALUES, LIMIT_VALUES):
                cases.append(dict(kind="setter", limits=True,
                                  ops=[["X", {keys[i]: u, keys[j]: v}]]))
        for d in LIMIT_VALUES:
            for k in keys:
                cases.append(dict(kind="setter", limits=True, ops=[
                    ["X", dict(left_x=1, right_x=9, left_x_right=3, right_x_left=6)],
                    ["X", {k: d}], ["X", {"left_x": 0.2}]]))
        ex.product(cases, "setters")


CHECK = C17()
