import itertools

from mc.engine import Violation, digest
from mc.foscase import build, chord_circles
from mc.impl import close, planes_of
from mc.searchcase import check_allowed, check_complete, check_order
from mc.world import World, PROBES, probe_circle

TOLS = [0.5, 0.05, 0.005, 1e-4, 1e-8, 0, 3.0]
MAXI = [0, 1, 2, 3, 5, 15, 60]
SLICES = [1, 9, 10, 11, 25, 26, 137, 499, 500, 501, 3000]
STACKS = [
    [(20, 35, 2, 3)],
    [(19, 30, 0, 1), (21, 12, 9, 3)],
    [(18, 0, 20, 3)],
    [(20, 42, 1, 0.4), (17, 8, 3, 2.2)],
]
SHAPES = [(1, 45, None), (2, None, 3), (1.5, 90, None), (3, 60, None), (0.8, None, 5)]
OPS = [("O", d) for d in (
    {"slices": 12}, {"slices": 3}, {"slices": 2000}, {"slices": 40}, {"slices": 0},
    {"tolerance": 0.3}, {"tolerance": 1e-6}, {"tolerance": 0},
    {"max_iterations": 1}, {"max_iterations": 2}, {"max_iterations": 40}, {"max_iterations": 0},
    {"iterations": 800}, {"iterations": 1200}, {"iterations": 2},
    {"min_failure_dist": 3}, {"min_failure_dist": 0}, {"min_failure_dist": 500},
    {"slices": 17, "tolerance": 0.02, "max_iterations": 3},
    {"iterations": 700, "min_failure_dist": 2.4, "slices": 15}, {},
)] + [
    ("A",), ("B", 1.5, 60, None), ("E", 15, None), ("M+", "C"), ("U+", "U"),
    ("WO", False, 0.5), ("X0",), ("PB",),
    ("XF", {"left_x": 0.7, "right_x": 0.5}), ("XF", {"left_x": 0.4, "left_x_right": 0.8}),
]
# options against limits: a few of each, in every order
MIX = [("XF", {"left_x": 0.75, "right_x": 0.45}), ("XF", {"right_x_left": 0.3, "right_x": 0.6}),
       ("X0",), ("O", {"min_failure_dist": 3}), ("O", {"min_failure_dist": 4.1}),
       ("O", {"min_failure_dist": 50}), ("E", 14, None), ("E", 9, None), ("U+", "X"), ("B", 1.5, 60, None)]


def compare(ctx, m, c, plane, ends=None):
    """reported FOS against the iteration as specified"""
    if ends is None:
        if m.g.hits_margin(*c) < 1e-6:
            return
        ends = None
    val, odd = m.iterate(*c, ends=ends)
    if odd:
        ctx.outcome("undecided")
        return
    sl = m.slices_of(*c, ends=ends, ties=(ties := []))
    if sl and ties and min(ties) < 1e-7:
        ctx.outcome("undecided")
        return
    ctx.validated += 1
    got = None if plane is None else plane[3]
    if not close(val, got, rel=2e-9, abs_=1e-9):
        raise Violation(
            f"circle {c}: FOS {got} instead of {val} with {m.slices} slices, "
            f"tolerance {m.tol}, {m.max_iter} iterations")
    ctx.outcome("FOS" if val is not None else "no FOS")


class C13:
    ID = "C13"
    EXPLAIN = (
        "all combinations of tolerance, iteration limit, slice count, strata "
        "and face on a grid of circles: the reported FOS is the iterate the "
        "reference stops at; breadth-first search over histories of partial "
        "option updates mixed with other calls: FOS of probe circles and "
        "number, extent and FOS of the planes of a search follow the options "
        "of the reference; the upper and lower ends of each option"
    )
    ASSUMES = [
        "the iteration starts from the ordinary method of slices; cases "
        "where a change equals the tolerance up to rounding are not decided",
    ]

    def run(self, case, ctx):
        return getattr(self, case["kind"])(case, ctx)

    def grid(self, case, ctx):
        ctx.state(case)
        s, m = build(dict(shape=case["shape"], mats=STACKS[case["stack"]],
                          water=case["water"]))
        cs = chord_circles(m.g, [0.03, 0.4, 0.8], [0.04, 0.5, -0.6], [0.1, 0.24, 0.4])
        for c in cs:
            s.add_single_circular_plane(*c)
        kw = dict(case["opt"])
        s.update_analysis_options(**kw)
        m.update_analysis_options(**kw)
        s.analyse_slope()
        got = {p[:3]: p for p in planes_of(s)}
        ctx.step(len(cs))
        for c in cs:
            compare(ctx, m, c, got.get(c))

    def hist(self, case, ctx):
        w = World()
        for op in case["ops"]:
            w.do(tuple(op))
            ctx.step()
        s, m = w.slopes[0], w.models[0]
        k = digest(w.key())
        ctx.state(k)
        cs = [probe_circle(m.g, fr) for fr in PROBES]
        for c in cs:
            s.add_single_circular_plane(*c)
        s.analyse_slope()
        got = {p[:3]: p for p in planes_of(s)}
        for c in cs:
            compare(ctx, m, c, got.get(c))
        s.remove_individual_planes()
        if case["search"]:
            self.search(ctx, s, m)
        return k

    def search(self, ctx, s, m):
        s.analyse_slope()
        planes = planes_of(s)
        check_order(ctx, s, planes)
        check_allowed(ctx, m, planes, fos=False)
        check_complete(ctx, m, planes)
        for p in planes:
            compare(ctx, m, p[:3], p, ends=(p[4][0], p[5][0]))
        ctx.outcome("search", m.iterations)

    def ends(self, case, ctx):
        """iterations far outside of the bounds; a long minimum distance
        leaves few of the planes, whose number still shows the iterations"""
        ctx.state(case)
        s, m = build(dict(shape=(1, 45, None)))
        kw = dict(iterations=case["iterations"], slices=10, tolerance=0.005,
                  max_iterations=15, min_failure_dist=case["dist"])
        s.update_analysis_options(**kw)
        m.update_analysis_options(**kw)
        self.search(ctx, s, m)

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases, k = [], 0
        for sh, st, t, mi in itertools.product(SHAPES, range(len(STACKS)), TOLS, MAXI):
            for wt in (None, 0.6):
                k += 1
                cases.append(dict(kind="grid", shape=list(sh), stack=st, water=wt,
                                  opt=dict(tolerance=t, max_iterations=mi,
                                           slices=SLICES[k % len(SLICES)])))
        for sl, sh in itertools.product(SLICES, SHAPES):
            cases.append(dict(kind="grid", shape=list(sh), stack=1, water=0.3,
                              opt=dict(slices=sl)))
        ex.product(cases, "tolerance x iterations x slices x strata x face (x circles)")
        ex.product(
            [dict(kind="ends", iterations=n, dist=d) for n, d in
             ((-5, 0), (1, 0), (499, 0), (500, 0), (501, 0), (40000, 9.6), (99999, 9.75),
              (100000, 9.75), (100001, 9.75), (10 ** 6, 9.75), (10 ** 6, 9.95),
              (500, 9.0), (500, 1e9))],
            "ends of the options", chunk=1)
        mk = lambda s: lambda h: dict(kind="hist", ops=list(h), search=s)  # noqa: E731
        root = [(("M+", "A", "B"),)]
        ex.bfs(OPS, 4 if deep else 3, "option histories", roots=root, make=mk(False))
        ex.bfs(OPS, 2 if deep else 1, "option histories with searches", make=mk(True),
               roots=[root[0] + (("O", {"iterations": 500, "slices": 10}),)])
        ex.bfs(MIX, 3 if deep else 2, "options and limits, with searches", make=mk(True),
               roots=[root[0] + (("O", {"iterations": 500, "slices": 10}),)])
        if not deep:
            ex.product([mk(True)(root[0] + (("O", {"iterations": 500, "slices": 10}), a, b))
                        for a, b in itertools.product(OPS[12:20], OPS[12:])
                        ], "pairs with searches")


CHECK = C13()
