from mc.engine import Violation, digest
from mc.figs import check_section, check_table, same_figure
from mc.fresh import fresh, same_planes
from mc.impl import planes_of
from mc.world import World

OPS = [
    ("M+", "B"), ("M+", "Z"), ("M+", "C", "E"), ("M-", "A"), ("M=", "A"), ("M-", "B"),
    ("M=", "B"), ("M@", 1.5), ("M@", 3), ("M@", 0), ("M@", 99), ("M0",), ("M-", "D"),
    ("U+", "U"), ("U+", "U", "Y"), ("U+", "V", "N"), ("U+", "X"), ("U-", "U"), ("U=", "U"),
    ("U-", "V"), ("U=", "X"), ("U-", "U", "V"), ("U-", "T"), ("U0",), ("U-", "N"),
    ("L+", "L"), ("L+", "J", "L"), ("L+", "I", "O"), ("L+", "K"), ("L-", "L"), ("L=", "L"),
    ("L-", "I", "L"), ("L=", "K"), ("L-", "I"), ("L0",),
    ("W", 0.5), ("W", 1.9), ("W0",),
]
ROOT = (("M+", "A"), ("M+", "F"), ("U+", "U"), ("L+", "L"))
FULL = (
    ("B", 1.5, 50, None), ("M+", "A", "F", "E"), ("U+", "U", "V", "U"),
    ("L+", "L", "I", "J", "L"), ("W", 0.9),
)
SMALL = ("O", {"iterations": 500, "slices": 10})
PAIRS = [
    (("M+", "E"), ("M-", "E")), (("M+", "E"), ("M=", "E")), (("M+", "E"), ("M@", 0.6)),
    (("M+", "Z"), ("M@", 0)), (("M+", "Z"), ("M-", "Z")), (("M+", "C"), ("M=", "C")),
    (("U+", "U"), ("U-", "U")), (("U+", "U"), ("U=", "U")), (("U+", "V", "X"), ("U-", "X", "V")),
    (("U+", "V", "X"), ("U-", "V", "X")), (("U+", "T"), ("U0",)), (("U+", "U", "U"), ("U-", "U")),
    (("U+", "Y", "T"), ("U-", "T", "Y")),
    (("L+", "L"), ("L-", "L")), (("L+", "L"), ("L=", "L")), (("L+", "I", "K"), ("L-", "I", "K")),
    (("L+", "L", "J"), ("L=", "L")), (("L+", "I"), ("L0",)),
    (("W", 0.4), ("W0",)), (("W", 0.4), ("W", None)),
    (("PF", 0.2, 0.15, 0.2), ("P0",)),
    (("XF", {"left_x": 0.5, "right_x": 0.6}), ("X0",)),
    (("XF", {"left_x_right": 0.5, "right_x_left": 0.3}), ("X0",)),
]


# items that differ in one small detail, all assigned
TWINS = (("M+", "A", "B"), ("M+", "A1", "A2", "A3", "B1", "B2"),
         ("U+", "U", "U1", "U2", "U3", "U4", "U5", "U6", "U7"), ("L+", "L", "L1", "L2", "L3", "L4"))
TAKE = (
    [(k, n) for n in ("A", "A1", "A2", "A3", "B1", "B2", "B") for k in ("M-", "M=")]
    + [("M@", d) for d in (1.5, 1.53, 1.5004, 1.47, 3.0001, 3.000004, 3, 1.5001, 1.51)]
    + [(k, n) for n in ("U", "U1", "U2", "U3", "U4", "U5", "U6", "U7", "Y", "T") for k in ("U-", "U=")]
    + [(k, n) for n in ("L", "L1", "L2", "L3", "L4", "J", "I") for k in ("L-", "L=")]
)


class C05:
    ID = "C05"
    EXPLAIN = (
        "breadth-first search over sequences of adding and removing items "
        "(same object, equal copy, by depth, several, all, absent ones, "
        "duplicates) on the real slope; probe analyses and the numbers of "
        "items left are compared with the reference multiset in every "
        "state; add-remove pairs nested in all orders are also plotted and "
        "searched, and compared with a slope that never had the items"
    )
    ASSUMES = [
        "two loads are equal when magnitude, offset and length agree (the "
        "library's documented way of naming them by details)",
    ]

    def run(self, case, ctx):
        w = World()
        for op in case["ops"]:
            w.do(tuple(op))
            ctx.step()
        s, m = w.slopes[0], w.models[0]
        key = digest(w.key())
        ctx.state(key)
        for name, a, b in (
            ("materials", s._materials, m.mats), ("udls", s._udls, m.udls),
            ("line loads", s._lls, m.lls),
        ):
            if len(a) != len(b):
                raise Violation(f"{len(a)} {name} left instead of {len(b)}")
        left = sorted(repr((float(v.depth_to_bottom), float(v.unit_weight))) for v in s._materials)
        want = sorted(repr((float(v.depth), float(v.uw))) for v in m.mats)
        left += sorted(repr((v.magnitude, v.offset, v.length)) for v in s._udls)
        want += sorted(repr((v.mag, v.offset, v.length)) for v in m.udls)
        left += sorted(repr((v.magnitude, v.offset)) for v in s._lls)
        want += sorted(repr((v.mag, v.offset)) for v in m.lls)
        ctx.validated += 1
        if left != want:
            raise Violation(f"left are {left}, should be {want}")
        if case.get("plot"):
            fig = s.plot_boundary()
            check_section(ctx, fig, m)
            if m.mats:
                check_table(ctx, fig, m)
        if case.get("plot") or case.get("same"):
            d = same_figure(s.plot_boundary(), fresh(m).plot_boundary(), False)
            ctx.validated += 1
            if d:
                raise Violation(f"not drawn like a slope that never had the rest: {d}")
        if case.get("search"):
            s.analyse_slope()
            f = fresh(m)
            f.analyse_slope()
            d = same_planes(planes_of(s), planes_of(f))
            ctx.validated += 1
            if d:
                raise Violation(f"after removal the search differs: {d}")
            ctx.outcome("searched", "planes" if m.planes else "grid")
        else:
            w.probe(ctx)
        return key

    def explore(self, ex, tier):
        deep = tier == "thorough"
        ex.bfs(OPS, 4 if deep else 3, "add/remove", roots=[ROOT])
        ex.bfs(OPS, 2, "from slope with duplicates", roots=[FULL],
               make=lambda h: {"ops": list(h), "same": True})
        ex.bfs(TAKE, 3 if deep else 2, "removing from items that hardly differ", roots=[TWINS])
        cases = []
        n = 0
        for base in (ROOT + (SMALL,), FULL + (SMALL,)):
            for a, ra in PAIRS:
                cases.append(base + (a, ra))
                cases.append(base + (a, ("A",), ra))
                for b, rb in PAIRS:
                    n += 1
                    if not deep and n % 5:
                        continue
                    cases += [base + (a, b, ra, rb), base + (a, b, rb, ra)]
        ex.product(
            [{"ops": list(c), "plot": not i % (1 if deep else 2), "search": True}
             for i, c in enumerate(cases)],
            "nested add/remove pairs: plot and search")


CHECK = C05()
