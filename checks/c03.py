from mc.engine import Violation, digest
from mc.figs import same_figure
from mc.fresh import fresh, read_results, same_planes
from mc.impl import close, planes_of
from mc.world import World

TIGHT = ("O", {"tolerance": 1e-11, "max_iterations": 400})
MOD = [
    ("M+", "E"), ("M-", "A"), ("M@", 3), ("M0",), ("M+", "C"),
    ("U+", "U"), ("U-", "U"), ("U0",), ("U+", "X"),
    ("L+", "L"), ("L-", "L"), ("L0",), ("L+", "K"),
    ("W", 0.3), ("W", 0.9), ("W0",), ("WO", True), ("WO", False, 0.2),
    ("B", 2, None, 3), ("B", 1.6, 50, None), ("E", 14, None), ("E", None, 9),
    ("O", {"slices": 14}), ("O", {"max_iterations": 1}), ("O", {"tolerance": 0.4}),
    ("O", {"iterations": 700}), ("O", {"min_failure_dist": 2.5}),
    ("XF", {"left_x": 0.5, "right_x": 0.7}), ("XF", {"right_x_left": 0.35}), ("X0",),
    ("PF", 0.2, 0.15, 0.2), ("P0",),
    ("U+", "N"), ("O", {}), ("M@", 77),
]
RUN = [("A",), ("A", 1.6), ("D", 1.5)]
READ = [("PB",), ("PC",), ("PA",), ("Q",)]

MODEL = (
    ("B", 1.5, 50, None), ("M+", "A", "B"), ("U+", "Y"), ("L+", "L"), ("W", 0.9), TIGHT,
)
PLANES = MODEL + (
    ("PF", 0.07, 0.06, 0.18), ("PF", 0.31, 0.21, 0.22), ("PF", 0.11, -0.83, 0.15),
    ("A",),
)
SEARCH = (
    ("B", 1.5, 50, None), ("M+", "A", "B"), ("U+", "U"), ("L+", "L"), ("W", 0.9),
    ("O", {"iterations": 500, "slices": 10}), ("A",),
)


def critical_of(fig):
    """the texts written on the figure by its traces"""
    out = []
    for t in fig.data:
        if t.text:
            out += [t.text] if isinstance(t.text, str) else list(t.text)
    return out


class Story:
    """a history with the bookkeeping of which analysis was last"""

    def __init__(self):
        self.w = World()
        self.last = None

    def step(self, op):
        w = self.w
        s = w.slopes[0]
        k = op[0]
        if k == "A":
            s.analyse_slope(**(dict(max_fos=op[1]) if len(op) > 1 else {}))
            self.last = op[1] if len(op) > 1 else None
            return
        if k == "D":
            try:
                s.analyse_dynamic(op[1])
            except (IndexError, ZeroDivisionError):
                # no plane at all, or no movable load (the two extremes give
                # the same FOS): not analysable this way
                pass
            self.last = None
            for a, b in w.names.values():
                if hasattr(b, "dyn") and b.dyn:
                    b.offset = a.offset
            return
        if k in ("PB", "PC", "PA", "Q"):
            before = planes_of(s)
            read0 = read_results(s)
            if k == "Q":
                s.get_top_coordinates(), s.get_bottom_coordinates()
                s.get_external_y_intersection(3.3)
                s.get_external_x_intersection(2.2)
                s.get_dynamic_results(), repr(s)
            elif k == "PB":
                s.plot_boundary()
            elif before:
                if k == "PC":
                    s.plot_critical()
                else:
                    s.plot_all_planes()
            if planes_of(s) != before or read_results(s) != read0:
                raise Violation(f"{op} changed the results")
            return
        w.do(op)

    def judge(self, ctx, figs=False):
        s, m = self.w.slopes[0], self.w.models[0]
        got = read_results(s)
        if got is None:
            ctx.outcome("no results available")
            return
        if got[0] == "partial":
            raise Violation(f"results only partly available: {got[1]}")
        f = fresh(m)
        f.analyse_slope(**(dict(max_fos=self.last) if self.last else {}))
        ctx.step()
        want = read_results(f)
        if want is None:
            raise Violation(
                f"results are available ({got}) but the model has none; {m.content()}"
            )
        ctx.validated += 1
        diff = same_planes(planes_of(s), planes_of(f))
        if diff:
            raise Violation(f"results are not those of the current model: {diff}")
        if not close(got[0], want[0], rel=1e-6):
            raise Violation(f"minimum FOS {got[0]} instead of {want[0]}")
        for a, b in zip(
            [*got[1], *got[2][0], *got[2][1]], [*want[1], *want[2][0], *want[2][1]]
        ):
            if not close(a, b, rel=1e-6, abs_=2e-6):
                raise Violation(f"critical plane {got} instead of {want}")
        if figs:
            # the pictures are those of the slope as it is now
            for name, a, b in (("critical", s.plot_critical(), f.plot_critical()),
                               ("all planes", s.plot_all_planes(max_fos=3), f.plot_all_planes(max_fos=3))):
                d = same_figure(a, b, False)
                if d:
                    raise Violation(f"the plot ({name}) is not that of the current model: {d}")
        ctx.outcome("results", "full search" if not m.planes else "planes",
                    "empty" if not want else "")


class C03:
    ID = "C03"
    EXPLAIN = (
        "breadth-first search over histories mixing every kind of model "
        "change, analysis, query and plot on the real Slope; in every state "
        "where results can be read they are compared with those of a newly "
        "built slope of the same content analysed once"
    )
    ASSUMES = [
        "C02 (a newly built slope means its content) is checked separately",
        "changing the attributes of a material or load object directly is "
        "not a change of the model through its interface",
    ]

    def run(self, case, ctx):
        st = Story()
        for op in case["ops"]:
            st.step(tuple(op))
            ctx.step()
        key = digest((st.w.key(), st.last))
        ctx.state(key)
        st.judge(ctx, case.get("figs"))
        if any(op[0] in ("PC", "PA") for op in case["ops"]) and read_results(
            st.w.slopes[0]
        ):
            s = st.w.slopes[0]
            want = f"{s.get_min_FOS():.3f}"
            if want not in critical_of(s.plot_critical()):
                raise Violation(f"plot_critical does not show {want}")
        if case.get("probe"):
            st.w.probe(ctx)
        return key

    def explore(self, ex, tier):
        deep = tier == "thorough"

        def mk(probe):
            return lambda h: {"ops": list(h), "probe": probe}

        ex.bfs(MOD + RUN + READ, 3 if deep else 2, "planes, analysed",
               roots=[PLANES], make=mk(True))
        # change - analyse - change - analyse and analyse - change - read
        ex.product(
            [{"ops": list(PLANES + (a, ("A",), b) + t)}
             for a in MOD for b in MOD for t in ((), (("A",),))],
            "planes: change, analyse, change, [analyse]")
        ex.product(
            [{"ops": list(PLANES + (r, a, ("A",))), "figs": True} for r in READ[1:3] for a in MOD]
            + [{"ops": list(PLANES + (("PC",), ("PA",), a, ("A",), ("PC",), b, ("A",))), "figs": True}
               for i, a in enumerate(MOD) for j, b in enumerate(MOD) if deep or (i + 2 * j) % 9 == 0],
            "planes: plot, change, analyse, plot again")
        ex.bfs(MOD + RUN[:2] + READ[:1], 2 if deep else 1, "full search, analysed",
               roots=[SEARCH], make=mk(False))
        ex.product(
            [{"ops": list(SEARCH + (a, ("A",)))} for a in MOD]
            + [{"ops": list(SEARCH + (a, ("A",), b, ("A", 1.8)))}
               for a in MOD[::3] for b in MOD[1::3]],
            "full search: change, analyse")


CHECK = C03()
