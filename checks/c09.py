import itertools

from mc.engine import Violation, digest
from mc.foscase import analyse, build, chord_circles, grid_circles, judge
from mc.impl import close
from mc.world import World, expected_fos

SHAPES = [(1, 45, None), (2, None, 3), (1.5, 90, None), (3, 60, None), (0.8, None, 5)]
MATS = [
    [(20, 35, 2, 3)],
    [(19, 30, 0, 1), (21, 12, 9, 3)],
    [(18, 0, 20, 3)],
]
# depth below the crest relative to the height of the face
DEPTHS = [0, 0.001, 0.11, 0.37, 0.5, 0.83, 0.999, 1, 1.001, 1.37, 1.9, 2.6, 3.4]
WOS = [None, (True,), (True, 0.2), (False, 0), (False, 0.35), (False, 1),
       (False, 1.8), (False, -0.5), (False, 1.0)]

# histories of water calls; the state is probed after each
OPS = [
    ("W", 0), ("W", 0.4), ("W", 1.5), ("W", 2.2), ("W", 80), ("W", None), ("W0",),
    ("WO", False, 0.3), ("WO", False, 1), ("WO", False, 0), ("WO", False, 7), ("WO", False, -2),
    ("WO", True), ("WO", True, 0.4),
    ("B", 1.5, 60, None), ("B", 2, 20, None), ("B", 2, None, 0.4),
    ("M+", "C"), ("E", 16, 9), ("E", None, 20),
]


class C09:
    ID = "C09"
    EXPLAIN = (
        "all combinations of face, strata, water depth, water option and "
        "slice count with a grid of circles: FOS of the real code against "
        "the reference; for every circle the FOS over the whole ladder of "
        "water depths (monotone when the factor is 1, equal to the dry one "
        "while the table is below the circle); breadth-first search over "
        "histories of water, option and boundary calls with probe analyses "
        "in every state"
    )
    ASSUMES = ["as C07; a water table at or below the base of the section has no effect"]

    def run(self, case, ctx):
        return getattr(self, case["kind"])(case, ctx)

    def grid(self, case, ctx):
        ctx.state(case)
        h = case["shape"][0]
        s, m = build(dict(
            shape=case["shape"], mats=MATS[case["mats"]], slices=case["slices"],
            water=case["depth"] * h, wo=case["wo"]))
        cs = chord_circles(m.g, [0.02, 0.13, 0.37, 0.71], [0.04, 0.4, -0.5, -0.97],
                           [0.1, 0.24, 0.4])
        if case["slices"] == 10:
            cs += grid_circles(m.g, 5, 4, 4)
        judge(ctx, s, m, cs)

    def ladder(self, case, ctx):
        """one slope, water raised step by step, H = 1 and automatic"""
        ctx.state(case)
        h = case["shape"][0]
        conf = dict(shape=case["shape"], mats=MATS[case["mats"]], slices=case["slices"])
        s, m = build(conf)
        cs = chord_circles(m.g, [0.05, 0.33, 0.8], [0.03, 0.6, -0.6], [0.08, 0.2, 0.4])
        cs = list(dict.fromkeys(cs))
        dry = {c: p[3] for c, p in analyse(s, cs).items()}
        s.update_water_analysis_options(auto=False, H=1)
        m.update_water_analysis_options(auto=False, H=1)
        prev = dict(dry)
        for d in sorted(DEPTHS, reverse=True):
            s.set_water_table(d * h)
            m.set_water_table(d * h)
            got = {c: p[3] for c, p in analyse(s, cs).items()}
            ctx.step(len(cs))
            for c in cs:
                kind, val = expected_fos(m, c)
                if kind != "fos" or c not in prev:
                    prev.pop(c, None)
                    continue
                if c not in got:
                    raise Violation(f"circle {c} lost its FOS at water depth {d * h}")
                ctx.validated += 1
                if got[c] > prev[c] * (1 + 1e-6) + 1e-7:
                    raise Violation(
                        f"water raised to {d * h} below the crest raises the FOS of "
                        f"{c} from {prev[c]} to {got[c]}")
                low = c[1] - c[2]
                if m.g.tot_h - h * 0 - d * h < low and not close(got[c], dry[c], rel=1e-9):
                    raise Violation(f"water below circle {c}: {got[c]}, dry {dry[c]}")
                ctx.outcome("ladder", "same" if close(got[c], prev[c]) else "lower")
                prev[c] = got[c]
        s.remove_water_table()
        got = {c: p[3] for c, p in analyse(s, cs).items()}
        for c in dry:
            if not close(got.get(c), dry[c], rel=1e-9):
                raise Violation(f"no water: {got.get(c)}, never any: {dry[c]}")

    def hist(self, case, ctx):
        w = World()
        for op in case["ops"]:
            w.do(tuple(op))
            ctx.step()
        k = digest(w.key())
        ctx.state(k)
        w.probe(ctx)
        return k

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases, k = [], 0
        for sh, mt, n in itertools.product(SHAPES, range(len(MATS)), [10, 25] if not deep else [10, 11, 25, 60, 200]):
            for d, wo in itertools.product(DEPTHS, WOS):
                k += 1
                if deep or n == 10 or k % 4 == 0:
                    cases.append(dict(kind="grid", shape=list(sh), mats=mt, slices=n,
                                      depth=d, wo=wo))
        ex.product(cases, "shape x strata x slices x depth x option (x circles)")
        ex.product(
            [dict(kind="ladder", shape=list(sh), mats=mt, slices=n)
             for sh, mt, n in itertools.product(SHAPES, range(len(MATS)), (10, 25, 50))],
            "water ladders (x circles x depths)")
        ex.bfs(OPS, 5 if deep else 4, "water histories",
               roots=[(("M+", "A", "B"),)],
               make=lambda h: dict(kind="hist", ops=list(h)))


CHECK = C09()
