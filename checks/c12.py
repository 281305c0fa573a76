import itertools
from math import hypot

from mc.engine import Violation, digest
from mc.impl import Slope, Material, close, planes_of
from mc.ref import Model, RMaterial
from mc.searchcase import check_complete, check_order
from mc.world import World, chord_ends, compare_fos

SHAPES = [(1, 45, None), (2, None, 3), (1.5, 90, None), (3, 60, None), (0.8, None, 5)]
ENTRIES = [0.013, 0.21, 0.47, 0.83, -0.13, -0.4]
EXITS = [0.02, 0.31, 0.78, -0.17, -0.55, -0.97]
NUMS = [1, 2, 5, 8, 13]
MANY = [51, 77, 120, 333]

OPS = [
    ("PF", 0.2, 0.15, 0.2), ("PF", 0.7, 0.6, 0.3), ("PF", 0.1, -0.6, 0.12),
    ("PF", -0.2, 0.1, 0.2), ("P", 5, 50, 1), ("P", 1, 9, 4.2), ("P", 7.3, 5.9, 0.4),
    ("PX", 0.3, 0.2, 3), ("PX", 0.05, -0.7, 2), ("PX", 0.6, 0.5, 1),
    # circles that share centre line, radius or centre with ("P", 7.3, 5.9, 0.4) or each other
    ("P", 5, 7.5, 3.5), ("P", 5, 7.8, 3.5), ("P", 5.3, 7.5, 3.5), ("P", 5, 7.5, 3.2), ("P", 5, 7.5, 3.5004),
    ("P0",), ("A",), ("A", 2), ("X", {"left_x": 3.9, "right_x": 6.5}),
    ("O", {"min_failure_dist": 6}), ("O", {"iterations": 900}),
    ("B", 1.5, 60, None), ("B", 3, 25, None), ("M0",), ("M+", "A"), ("U+", "U"), ("E", 14, None),
]


def judge_planes(ctx, s, m, max_fos=None):
    """the analysis reports exactly the user's planes"""
    s.analyse_slope(**({"max_fos": max_fos} if max_fos else {}))
    planes = planes_of(s)
    check_order(ctx, s, planes)
    if not m.planes:
        if m.mats:
            check_complete(ctx, m, planes)
            ctx.outcome("full search")
        elif planes:
            raise Violation("planes with a FOS without any material")
        return
    left = list(planes)
    for c in dict.fromkeys(m.planes):
        mine = [p for p in left if all(close(u, v, rel=1e-9) for u, v in zip(p[:3], c))]
        if len(mine) > m.planes.count(c):
            raise Violation(f"circle {c} is reported {len(mine)} times")
        left = [p for p in left if p not in mine]
        compare_fos(ctx, m, c, mine[0] if mine else None)
        if any(p != mine[0] for p in mine):
            raise Violation(f"one circle, several results: {mine}")
    if left:
        raise Violation(f"reported planes nobody asked for: {left[:3]}")
    ctx.outcome("user planes", min(len(planes), 5))


class C12:
    ID = "C12"
    EXPLAIN = (
        "all entry/exit/number combinations on all faces (circles through "
        "both points, flattening, count, order), all orders of adding sets "
        "of circles, and breadth-first search over histories of adding, "
        "removing, analysing and changing options, limits, boundary, "
        "materials, loads; after each the reported planes are compared with "
        "the reference list"
    )
    ASSUMES = [
        "centres with positive coordinates; a circle that does not cut the "
        "ground when it is added is not added",
        "a circle added twice may be reported once or twice",
    ]

    def run(self, case, ctx):
        return getattr(self, case["kind"])(case, ctx)

    def chords(self, case, ctx):
        ctx.state(case)
        h, a, ln = case["shape"]
        m = Model(h, a, ln)
        m.set_materials(RMaterial(20, 30, 5, 3))
        s = Slope(h, a, ln)
        s.set_materials(Material(20, 30, 5, 3))
        kw = dict(tolerance=1e-11, max_iterations=400, slices=12, iterations=500)
        s.update_analysis_options(**kw)
        m.update_analysis_options(**kw)
        for en in ENTRIES:
            l, r = chord_ends(m.g, (en, case["exit"]))
            if r[0] - l[0] < 0.05 or l[1] - r[1] < 1e-6:
                continue
            for n in NUMS + (MANY if case.get("many") else []):
                s.remove_individual_planes()
                m.remove_individual_planes()
                s.add_single_entry_exit_plane(l[0], r[0], n)
                m.add_single_entry_exit_plane(l[0], r[0], n)
                if not m.planes:
                    continue
                judge_planes(ctx, s, m)
                got = planes_of(s)
                if len(got) > n:
                    raise Violation(f"{n} circles requested, {len(got)} reported")
                for p in got:
                    for q in (l, r):
                        if abs(hypot(q[0] - p[0], q[1] - p[1]) - p[2]) > 1e-7 * max(1, p[2]):
                            raise Violation(f"circle {p} does not pass through {q}")
                radii = sorted(p[2] for p in got)
                if any(v - u <= 1e-9 for u, v in zip(radii, radii[1:])):
                    raise Violation(f"circles through {l} and {r} are not progressively flatter: {radii}")
                ctx.step()
            if len(m.planes):
                # default number
                s.remove_individual_planes()
                s.add_single_entry_exit_plane(l[0], r[0])
                m.remove_individual_planes()
                m.add_single_entry_exit_plane(l[0], r[0], 5)
                if m.planes:
                    judge_planes(ctx, s, m)

    def orders(self, case, ctx):
        ctx.state(case)
        first = None
        adds = [tuple(o) for o in case["adds"]]
        for perm in itertools.permutations(adds):
            w = World()
            w.do(("M+", "A"))
            w.do(("O", {"tolerance": 1e-11, "max_iterations": 400}))
            for op in perm:
                w.do(op)
                ctx.step()
            s, m = w.slopes[0], w.models[0]
            judge_planes(ctx, s, m)
            got = planes_of(s)
            if first is None:
                first = got
            if sorted(first) != sorted(got):
                raise Violation(f"order of adding matters: {first} {got}")

    def hist(self, case, ctx):
        w = World()
        w.do(("O", {"tolerance": 1e-11, "max_iterations": 400, "slices": 10, "iterations": 500}))
        for op in case["ops"]:
            w.do(tuple(op))
            ctx.step()
        s, m = w.slopes[0], w.models[0]
        k = digest(w.key())
        ctx.state(k)
        if m.planes or case["search"]:
            judge_planes(ctx, s, m)
            judge_planes(ctx, s, m)
        return k

    def explore(self, ex, tier):
        deep = tier == "thorough"
        ex.product(
            [dict(kind="chords", shape=list(sh), exit=e,
                  many=deep or (i + j) % 5 == 0)
             for i, sh in enumerate(SHAPES) for j, e in enumerate(EXITS)],
            "face x exit (x entry x number)")
        sets = [
            [("PF", 0.2, 0.15, 0.2), ("PX", 0.3, 0.2, 3), ("PF", 0.7, 0.6, 0.3), ("P", 7.3, 5.9, 0.4)],
            [("PX", 0.3, 0.2, 3), ("PX", 0.05, -0.7, 2), ("PX", 0.3, 0.2, 3), ("P", 5, 50, 1)],
        ]
        ex.product([dict(kind="orders", adds=[list(o) for o in a]) for a in sets],
                   "orders of adding")
        mk = lambda s: lambda h: dict(kind="hist", ops=list(h), search=s)  # noqa: E731
        root = [(("M+", "A", "B"),)]
        ex.bfs(OPS, 2 if deep else 1, "histories with full searches", roots=root, make=mk(True))
        ex.bfs(OPS, 4 if deep else 3, "histories", make=mk(False), roots=root)
        ex.product([mk(True)((("M+", "A"), a, b, ("P0",)) + c)
                    for a in OPS[:15] for b in OPS[:17]
                    for c in ((), (("A",),), (("B", 2, 30, None),))
                    if deep or OPS.index(a) % 3 == 0],
                   "add, add, remove, search")


CHECK = C12()
