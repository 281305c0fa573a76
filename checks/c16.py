import itertools

from mc.engine import Skip, digest
from mc.figs import (check_all_planes, check_critical, check_fos_legend,
                     check_section, check_table)
from mc.foscase import chord_circles
from mc.impl import circle_through, planes_of
from mc.searchcase import make
from mc.world import World

SHAPES = [(1, 45, None), (3, 30, None), (1.5, 90, None), (3, 60, None), (0.8, None, 5)]
MATS = [
    [(20, 35, 2, 3)],
    [(18, 0, 40, 3)],
    [(19, 25, 4, 0.8), (21, 32, 1, 2.5)],
    [(20, 0, 0, 2)],
    [(20, 45, 900, 2)],
]
EXTRA = [
    dict(),
    dict(udls=[(30, 0.3, 0.8), (7.5, 1, None)], lls=[(12, 0.9)], water=0.4),
    dict(limits=dict(left_x=0.31, left_x_right=0.9, right_x_left=0.25, right_x=0.95)),
]
MAXF = [None, 5, 1.5, 0.4, 100, "min", "median", "max", "below min", 2.05]
OPS = [
    ("A",), ("A", 1.5), ("A", 3), ("D", 1.4), ("PB",), ("PC",), ("PA",), ("PA", 1.3), ("PA", None),
    ("PF", 0.2, 0.15, 0.2), ("PF", 0.7, 0.6, 0.3), ("P0",), ("U+", "Y"), ("U0",), ("W", 0.5),
    ("B", 2, 40, None), ("E", 14, None), ("M+", "E"), ("XF", {"left_x": 0.4}),
]

LOOK = OPS[9:] + [("B", 1.5, 42, None), ("B", 1.4, 50, None), ("M-", "A"), ("U-", "U"), ("L0",), ("X0",),
                  ("O", {"slices": 15}), ("XF", {"right_x": 0.4}), ("W0",)]


class C16:
    ID = "C16"
    EXPLAIN = (
        "all combinations of face, strata, content, user planes or search, "
        "and maxima (none, beyond, between and exactly on the values of "
        "planes): both result plots are read back - section, critical arc, "
        "wedge, value, colour; drawn planes one by one with ends, arc, "
        "value, colour and order - and compared with the reported planes; "
        "breadth-first search over histories of analyses, plots and changes"
    )
    ASSUMES = [
        "the plane list is the one judged by C03, C10 and C11",
        "drawing accuracy: coordinates to 3 mm, arcs at most 10 degrees per "
        "segment, values to 3 decimals, either shade for a value on a border",
    ]

    def plots(self, ctx, s, m, maxima, section=True):
        planes = planes_of(s)
        if not planes:
            ctx.outcome("no planes")
            return
        fig = s.plot_critical()
        ctx.step()
        check_critical(ctx, fig, planes)
        if section:
            check_section(ctx, fig, m)
            if m.mats:
                check_table(ctx, fig, m)
        for k, mx in enumerate(maxima):
            v = mx
            if mx == "min":
                v = planes[0][3]
            elif mx == "below min":
                v = planes[0][3] * 0.999
            elif mx == "median":
                v = planes[len(planes) // 2][3]
            elif mx == "max":
                v = planes[-1][3]
            kw = {} if mx == 5 else dict(max_fos=v, legend=False, material_table=k > 1)
            fig = s.plot_all_planes(**kw)
            ctx.step()
            check_all_planes(ctx, fig, planes, v)
            check_critical(ctx, fig, planes)
            check_fos_legend(ctx, fig)
            if k == 0:
                if section:
                    check_section(ctx, fig, m)
            ctx.outcome("all planes", "none" if v is not None and planes[0][3] >= v else "some")
        if planes_of(s) != planes:
            from mc.engine import Violation
            raise Violation("plotting changed the planes")

    def run(self, case, ctx):
        if "ops" in case:
            w = World()
            s, m = w.slopes[0], w.models[0]
            for op in case["ops"]:
                op = tuple(op)
                ctx.step()
                if op[0] in ("PC", "PA"):
                    if planes_of(s):
                        (s.plot_critical if op[0] == "PC" else s.plot_all_planes)(*op[1:])
                    continue
                if op[0] == "D":
                    try:
                        s.analyse_dynamic(op[1])
                    except IndexError:
                        raise Skip()
                    for a, b in w.names.values():
                        if getattr(b, "dyn", False):
                            b.offset = a.offset
                    continue
                if op[0] == "A":
                    s.analyse_slope(**(dict(max_fos=op[1]) if op[1:] else {}))
                    continue
                w.do(op)
            k = digest(w.key())
            ctx.state(k)
            self.plots(ctx, s, m, [3] if case.get("all") else [])
            return k
        if "ladder" in case:
            return self.ladder(ctx, case)
        conf = dict(shape=case["shape"], slices=10, **EXTRA[case["extra"]])
        conf["ext"] = case.get("ext")
        conf["mats"] = MATS[case["mats"]]
        s, m = make(conf)
        ctx.state(case)
        if case["planes"]:
            for c in chord_circles(m.g, [0.02, 0.15, 0.4, 0.8], [0.03, 0.3, -0.7, -0.2],
                                   [0.004, 0.02, 0.12, 0.3, 0.49]):
                s.add_single_circular_plane(*c)
                m.add_single_circular_plane(*c)
        # far below the base of the section
        for c in case.get("deep", ()):
            c = circle_through((m.g.top[0] * (1 - c[0]), m.g.top[1]),
                               (x2 := m.g.bot[0] + (m.g.tot_l - m.g.bot[0]) * c[1], m.g.ysurf(x2)), c[2])
            if c[0] > 0 and c[1] > 0:
                s.add_single_circular_plane(*c)
                m.add_single_circular_plane(*c)
        s.analyse_slope()
        self.plots(ctx, s, m, case["maxima"])

    def ladder(self, ctx, case):
        """planes whose factor of safety takes every value of the ladder
        (without friction it is proportional to the cohesion)"""
        unit = None
        for target in [1.0] + case["ladder"]:
            c = 20.0 if unit is None else 20.0 * target / unit
            s, m = make(dict(shape=[1.5, 50, None], slices=10, mats=[(20, 0, c, 3)]))
            for k, q in enumerate(chord_circles(m.g, [0.15], [0.03], [0.12, 0.3])):
                s.add_single_circular_plane(*q)
                m.add_single_circular_plane(*q)
            s.update_analysis_options(tolerance=1e-9, max_iterations=50)
            s.analyse_slope()
            planes = planes_of(s)
            if unit is None:
                unit = planes[0][3]
                continue
            ctx.require(abs(planes[0][3] - target) < 1e-6 * max(1, target),
                        "without friction FOS", planes[0][3], "instead of", target)
            ctx.state("ladder", target)
            ctx.step()
            self.plots(ctx, s, m, [None, target * 1.0001], section=False)

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases, k = [], 0
        values = [x / 20 + d for x in range(1, 124) for d in (-4e-4, -1e-6, 1e-6, 4e-4, 0.02)]
        values += [0.001, 9.949, 9.951, 9.996, 10.4, 50.05, 99.96, 1234.5]
        n = 1 if deep else 3
        values = values[::n] if deep else values[::3] + values[-8:]
        ex.product([dict(ladder=values[i::24]) for i in range(24)], "ladder of critical values")
        for sh, mt, e in itertools.product(SHAPES, range(len(MATS)), range(len(EXTRA))):
            k += 1
            cases.append(dict(shape=list(sh), mats=mt, extra=e, planes=True,
                              maxima=MAXF if deep else [MAXF[(k + 3 * j) % len(MAXF)] for j in range(2)]))
            if deep or k % 4 == 0:
                cases.append(dict(shape=list(sh), mats=mt, extra=e, planes=False,
                                  maxima=MAXF if deep else [MAXF[(k // 4) % len(MAXF)]]))
        for sh, mt, l in itertools.product(SHAPES, (1, 2), (30, 60)):
            cases.append(dict(shape=list(sh), mats=mt, extra=1, planes=True, ext=[l, None], maxima=[None],
                              deep=[(a, b, g) for a in (0.5, 0.9) for b in (0.4, 0.95)
                                    for g in (0.12, 0.3, 0.49)]))
        ex.product(cases, "face x strata x content x maxima")
        ex.bfs(OPS, 3 if deep else 2, "histories, critical plane", roots=[ROOT])
        ex.product([{"ops": list(ROOT + c), "all": True} for c in
                    [(a,) for a in OPS] + [
                        (a, b) for i, a in enumerate(OPS) for j, b in enumerate(OPS[:9])
                        if deep or (i + j) % 7 == 0]
                    # look, change, analyse, look again
                    + [(l, a, ("A",)) for i, a in enumerate(LOOK) for j, l in enumerate(OPS[4:9])
                       if deep or (i + j) % 3 == 0]], "histories, all planes")


ROOT = (("B", 1.5, 50, None), ("M+", "A", "B"), ("U+", "U"), ("L+", "J"),
        ("O", {"slices": 10, "iterations": 500}),
        ("PF", 0.07, 0.06, 0.18), ("PF", 0.31, 0.21, 0.22), ("A",))

CHECK = C16()
