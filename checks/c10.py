import itertools

from mc.engine import digest
from mc.impl import planes_of
from mc.searchcase import check_allowed, make
from mc.world import World

SHAPES = [(1, 45, None), (2, None, 3), (1.5, 90, None), (3, 60, None), (0.8, None, 5),
          (1, 12, None), (6, 75, None)]
LIMITS = [
    None,
    dict(left_x=0.5), dict(left_x_right=0.35), dict(right_x=0.4), dict(right_x_left=0.3),
    dict(left_x=0.62, left_x_right=0.9, right_x_left=0.25, right_x=0.55),
    dict(left_x_right=0.98, right_x_left=0.05), dict(left_x=0.2, right_x=0.12),
    dict(left_x=0.9995), dict(right_x_left=0.71, right_x=0.73), dict(left_x=-0.0, right_x=3),
]
MINS = [None, 0.6, 1.0001, 1.7, 2.5]
LOADS = [
    dict(),
    dict(udls=[(30, 0.3, 0.8)], lls=[(12, 0.9)]),
    dict(udls=[(10, 0, None)], water=0.4, wo=(False, 0.7)),
]
MATS = [
    [(20, 35, 2, 3)],
    [(18, 0, 20, 3)],
    [(19, 25, 4, 0.8), (21, 32, 1, 2.5)],
]
OPS = [
    ("XF", {"left_x": 0.5}), ("XF", {"left_x_right": 0.6, "right_x_left": 0.2}),
    ("XF", {"right_x": 0.3}), ("X0",),
    ("O", {"min_failure_dist": 2.2}), ("O", {"min_failure_dist": 0}),
    ("O", {"min_failure_dist": 99}),
    ("B", 2, 30, None), ("B", 1, 70, None), ("E", 18, None), ("M+", "C"),
    ("U+", "X"), ("U0",), ("L+", "L"), ("W", 0.6), ("PF", 0.2, 0.2, 0.2), ("P0",), ("A",),
]


class C10:
    ID = "C10"
    EXPLAIN = (
        "all combinations of face, strata, loads/water, limits and minimum "
        "failure distance, and breadth-first search over histories of limit, "
        "distance, boundary, load and plane calls: after a search every "
        "reported plane is checked against the limits and distance in force, "
        "the ground, its circle, the first crossings of the reference, and "
        "the reference FOS"
    )
    ASSUMES = ["end points may exceed a limit by rounding (2e-6 m)"]

    def run(self, case, ctx):
        if case["kind"] == "hist":
            w = World()
            for op in case["ops"]:
                w.do(tuple(op))
                ctx.step()
            s, m = w.slopes[0], w.models[0]
            k = digest(w.key())
            ctx.state(k)
            s.update_analysis_options(tolerance=1e-11, max_iterations=400, slices=10)
            m.update_analysis_options(tolerance=1e-11, max_iterations=400, slices=10)
            s.analyse_slope()
            if not m.planes:
                check_allowed(ctx, m, planes_of(s))
            return k
        conf = dict(case)
        conf.update(LOADS[case["loads"]])
        conf["mats"] = MATS[case["mats"]]
        conf["limits"] = LIMITS[case["limits"]]
        s, m = make(conf)
        ctx.state(case)
        s.analyse_slope()
        planes = planes_of(s)
        ctx.step(len(planes))
        ctx.outcome("search", "empty" if not planes else "planes")
        check_allowed(ctx, m, planes)

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases, k = [], 0
        for sh, lim, md, ld, mt in itertools.product(
                SHAPES, range(len(LIMITS)), MINS, range(len(LOADS)), range(len(MATS))):
            k += 1
            if deep or k % 3 == 0:
                cases.append(dict(kind="grid", shape=list(sh), limits=lim, min_dist=md,
                                  loads=ld, mats=mt, slices=10))
        if deep:
            for sh, lim, md in itertools.product(SHAPES, range(len(LIMITS)), MINS):
                cases.append(dict(kind="grid", shape=list(sh), limits=lim, min_dist=md,
                                  loads=1, mats=2, slices=25, iterations=2500,
                                  ext=[18, 9]))
        ex.product(cases, "face x strata x loads x limits x distance (x planes)")
        ex.bfs(OPS, 3 if deep else 2, "histories", roots=[
            (("M+", "A", "B"), ("O", {"iterations": 500})),
            (("B", 2, None, 3), ("M+", "A"), ("U+", "U"), ("XF", {"left_x": 0.4, "right_x": 0.7}),
             ("O", {"iterations": 500, "min_failure_dist": 3})),
        ], make=lambda h: dict(kind="hist", ops=list(h)))


CHECK = C10()
