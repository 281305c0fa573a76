import itertools

from mc.engine import digest
from mc.foscase import build, bulge_circles, chord_circles, grid_circles, judge

SHAPES = [
    (1, 30, None), (2, None, 3), (1, 45, None), (1.5, 60, None), (3, 80, None),
    (1, 90, None), (4, None, 20), (0.35, 50, None), (12, 38, None),
]
# unit weight, friction, cohesion, depth relative to the height of the face
STACKS = [
    [(20, 35, 2, 1)],
    [(18.5, 0, 25, 3)],
    [(19, 32, 0, 2)],
    [(20, 0, 0, 2)],
    [(20, 35, 2, 0.5), (18, 25, 8, 1.2)],
    [(17, 28, 0, 0.3), (21, 15, 12, 0.9), (19, 38, 1, 1.7)],
    [(22, 0, 30, 0.45), (16, 33, 0, 0.46), (20, 20, 5, 3)],
    [(1, 45, 3, 0.8), (50, 10, 40, 0.81)],
    [(19, 36, 2, 1.001), (24, 12, 0.5, 1.002)],
    [(20, 30, 4, 0), (18, 22, 6, 1.4)],
    [(16, 26, 3, 0.1 * k + 0.05) if k % 2 else (23, 12 + k, 9, 0.1 * k + 0.05)
     for k in range(12)],
    [(18, 60, 1, 0.7), (19, 5, 0, 9)],
    [(21, 25, 300, 0.6), (15, 40, 0.01, 0.8), (19, 8, 1, 1.1), (20, 30, 6, 1.5)],
    [(19, 30, -7, -0.6), (18, 20, 3, 2)],
    # neighbours that hardly differ
    [(20, 30, 3.3, 0.6), (20, 30, 3, 2)],
    [(20, 30.2, 3, 0.3), (20, 30, 3, 0.6), (20.2, 30, 3, 0.9), (20.2, 30, 3.004, 2)],
]


class C07:
    ID = "C07"
    EXPLAIN = (
        "all combinations of face shape, layer stack and slice count, each "
        "with a grid of circles through entry x exit x curvature and a grid "
        "of centres x radii that also misses the ground, cuts it once or "
        "several times or slides uphill; every factor of safety reported by "
        "the real code (tolerance 1e-11) is compared with the fixed point "
        "computed by an independent scalar implementation of Bishop's method"
    )
    ASSUMES = [
        "circles within 1e-6 m of a tangency/corner and equations without a "
        "contracting fixed point are not decided (counted as undecided)",
    ]

    def run(self, case, ctx):
        h, a, ln = case["shape"]
        mats = [(uw, phi, c, d * h) for uw, phi, c, d in STACKS[case["stack"]]]
        s, m = build(dict(shape=case["shape"], mats=mats, slices=case["slices"]))
        g = m.g
        ctx.state(case)
        if case["kind"] == "chord":
            n = case["n"]
            ent = [0.003, 0.07, 0.31, 0.62, 0.97][:n]
            exi = [0.02, 0.21, 0.55, 0.96, -0.31, -0.83, -0.998][: n + 2]
            sag = [0.04, 0.12, 0.22, 0.37, 0.48]
            cs = chord_circles(g, ent, exi, sag)
        else:
            cs = grid_circles(g, 9, 8, 7) + bulge_circles(g)
        judge(ctx, s, m, cs)

    def explore(self, ex, tier):
        deep = tier == "thorough"
        slices = [10, 11, 25, 64, 500] if not deep else [10, 11, 12, 17, 25, 33, 64, 137, 250, 499, 500]
        cases = []
        for sh, st, n in itertools.product(SHAPES, range(len(STACKS)), slices):
            big = n >= 64
            if big and not deep and (st + SHAPES.index(sh)) % 3:
                continue
            cases.append(dict(kind="chord", shape=list(sh), stack=st, slices=n,
                              n=5 if (deep or not big) and n < 250 else 2))
            if not big:
                cases.append(dict(kind="grid", shape=list(sh), stack=st, slices=n, n=0))
        ex.product(cases, "shape x stack x slices (x circles)")


CHECK = C07()
