import itertools

from mc.engine import Violation, digest
from mc.impl import close, planes_of
from mc.ref import Rejected
from mc.searchcase import check_complete, check_order, make
from mc.world import World

SHAPES = [(1, 45, None), (2, None, 3), (1.5, 90, None), (3, 60, None), (0.8, None, 5)]
LIMITS = [
    None,
    dict(left_x=0.31, left_x_right=0.9, right_x_left=0.25, right_x=0.95),
    dict(left_x=0.5, right_x=0.4),
    dict(left_x_right=0.7, right_x_left=0.42),
]
MINS = [None, 1.4]
LOADS = [
    dict(),
    dict(udls=[(30, 0.3, 0.8)]),
    dict(lls=[(12, 0.9)]),
    dict(udls=[(30, 0.3, 0.8), (10, 1.4, None), (20, 0.05, 0.1)], lls=[(12, 0.61), (5, 1.83)]),
    dict(lls=[(1 + i, 0.13 * (i + 1)) for i in range(14)]),
    dict(udls=[(10, 0, None)], water=0.4),
]
MATS = [[(20, 35, 2, 3)], [(18, 0, 20, 3)], [(20, 20, 30, 1), (19, 5, 4, 2.5)]]
ITER = [500, 700, 999, 1000, 2000, 3999, 4800, 8000, 20000, 45000, 100000]
EXTS = [(40, None), (200, None), (9, 40), (60, 60)]
NEAR_MM = [-2, -1, -0.5, 0, 0.5, 1, 1.5, 2]
OPS = [
    ("XF", {"left_x": 0.5}), ("XF", {"right_x": 0.4}), ("X0",),
    ("O", {"min_failure_dist": 2.2}), ("O", {"iterations": 700}), ("O", {"iterations": 3}),
    ("B", 2, 30, None), ("E", 18, None), ("U+", "X"), ("U-", "X"), ("L+", "L", "I"),
    ("L0",), ("PF", 0.2, 0.2, 0.2), ("P0",), ("A",), ("A", 1.5),
]


class C11:
    ID = "C11"
    CASE_LIMIT = 400
    EXPLAIN = (
        "all combinations of face, strata, loads/water, limits, minimum "
        "distance and number of iterations, and histories of calls: the "
        "planes a search must report are enumerated by the reference "
        "(entry x exit x curvature, plus entries behind loads) and matched "
        "one to one with the reported ones; order, getters and maximum FOS "
        "are checked on each"
    )
    ASSUMES = [
        "planes within 1e-6 m of a tangency/corner/model edge or without a "
        "contracting Bishop equation may or may not be reported",
        "any evenly spaced grid with 0.97 to 1.2 times the requested number "
        "of planes is accepted",
    ]

    def judge(self, ctx, s, m, filters=()):
        s.analyse_slope()
        planes = planes_of(s)
        ctx.step(len(planes))
        check_order(ctx, s, planes)
        check_complete(ctx, m, planes)
        for q in filters:
            if not planes:
                break
            lim = planes[min(len(planes) - 1, int(q * len(planes)))][3]
            # exactly the value of a plane, and just below it
            for mx in (lim, lim * (1 - 1e-9), lim * 1.05):
                if mx <= 0:
                    continue
                s.analyse_slope(max_fos=mx)
                some = planes_of(s)
                want = [p for p in planes if p[3] <= mx]
                ctx.validated += 1
                if some != want:
                    raise Violation(
                        f"maximum FOS {mx}: {len(some)} planes reported, "
                        f"{len(want)} have a FOS up to it")
                check_order(ctx, s, some)

    def run(self, case, ctx):
        if case["kind"] == "hist":
            w = World()
            for op in case["ops"]:
                w.do(tuple(op))
                ctx.step()
            s, m = w.slopes[0], w.models[0]
            k = digest(w.key())
            ctx.state(k)
            s.update_analysis_options(slices=10)
            m.update_analysis_options(slices=10)
            if not m.planes:
                self.judge(ctx, s, m)
            return k
        if case["kind"] == "near":
            conf = dict(shape=case["shape"], slices=10, mats=MATS[0])
            conf.update(LOADS[case["loads"]])
            s, m = make(conf)
            ctx.state(case)
            g = m.g
            at = [m.udl_span(u)[0] for u in m.udls] + [m.ll_x(p) for p in m.lls]
            d = case["mm"] / 1000
            x = max(at) if case["which"] < 2 else min(at)
            kw = [dict(left_x=x + d), dict(left_x_right=x + d),
                  dict(left_x=x + d, right_x=g.bot[0] + d),
                  dict(left_x_right=g.top[0] - abs(d), right_x_left=g.top[0] + abs(d) * 2)][case["which"]]
            kw = {k: max(0, v) for k, v in kw.items()}
            try:
                m.set_analysis_limits(**kw)
            except Rejected:
                ctx.outcome("no such limits")
                return
            s.set_analysis_limits(**kw)
            self.judge(ctx, s, m)
            return
        conf = dict(case)
        conf.update(LOADS[case["loads"]])
        conf["mats"] = MATS[case["mats"]]
        conf["limits"] = LIMITS[case["limits"]]
        s, m = make(conf)
        ctx.state(case)
        self.judge(ctx, s, m, case.get("filters", ()))

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases, k = [], 0
        for sh, lim, md, ld, mt in itertools.product(
                SHAPES, range(len(LIMITS)), MINS, range(len(LOADS)), range(len(MATS))):
            k += 1
            if deep or k % 2 == 0:
                cases.append(dict(
                    kind="grid", shape=list(sh), limits=lim, min_dist=md, loads=ld,
                    mats=mt, slices=10, filters=[0, 0.3, 0.999] if k % 16 == 0 else []))
        its = ITER + ([1, 501, 1600, 12345, 16800, 31999, 64001] if deep else [])
        for it, sh, ld in itertools.product(its, SHAPES[:3], (0, 3)):
            if it > 2500 and not deep and (sh != SHAPES[1] or ld):
                continue
            cases.append(dict(kind="grid", shape=list(sh), limits=1, min_dist=None,
                              loads=ld, mats=1, slices=10, iterations=it))
        ex.product(cases, "face x strata x loads x limits x distance x iterations (x planes)")
        # sections much longer than high, and the other way round
        ex.product([dict(kind="grid", shape=list(sh), limits=lim, min_dist=md, loads=ld, mats=mt,
                         slices=10, ext=list(e))
                    for sh in SHAPES for e in EXTS for lim in (range(len(LIMITS)) if deep else (0, 2, 3))
                    for md in MINS for ld, mt in ((0, 0), (3, 1), (2, 2))
                    if deep or (md is None) == (ld == 0)],
                   "sections much longer or higher than the face")
        # limits within millimetres of the left end of loads and of the crest
        # and the toe
        cases = []
        for sh in SHAPES if deep else SHAPES[:3]:
            for ld in (1, 2, 3):
                for d in NEAR_MM:
                    for which in range(4):
                        cases.append(dict(kind="near", shape=list(sh), loads=ld, mm=d, which=which))
        ex.product(cases, "limits within millimetres of loads, crest, toe")
        ex.bfs(OPS, 3 if deep else 2, "histories", roots=[
            (("M+", "A", "B"), ("O", {"iterations": 500})),
            (("B", 2, None, 3), ("M+", "A"), ("U+", "U", "U"),
             ("XF", {"left_x": 0.4, "right_x": 0.7}), ("O", {"iterations": 500})),
        ], make=lambda h: dict(kind="hist", ops=list(h)))


CHECK = C11()
