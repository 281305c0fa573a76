from mc.engine import Violation, digest
from mc.figs import check_limits, plain
from mc.impl import close, planes_of
from mc.observe import limits_of
from mc.searchcase import check_allowed, check_complete
from mc.world import World

OPS = [
    ("XF", {"left_x": 0.4}), ("XF", {"left_x": 0.75}), ("XF", {"left_x_right": 0.6}),
    ("XF", {"left_x_right": 0.35}), ("XF", {"right_x": 0.5}), ("XF", {"right_x": 0.22}),
    ("XF", {"right_x_left": 0.3}), ("XF", {"right_x_left": 0.6}),
    ("X", {"left_x": 0}), ("X", {"left_x_right": 500}), ("X", {"right_x": 500}),
    ("X", {"right_x_left": 0.001}), ("X", {}), ("X", {"left_x": 2, "right_x": 7}),
    ("XF", {"left_x": 0.1, "left_x_right": 0.9, "right_x_left": 0.1, "right_x": 0.9}),
    ("X", {"left_x": -1, "right_x": 6}), ("X", {"right_x": "x", "left_x": 0.5}),
    ("X0",),
    ("B", 1.5, 50, None), ("B", 1, 30, None), ("E", 16, None), ("E", None, 9), ("E", None, None),
    ("U+", "X"), ("U+", "U"), ("L+", "K"), ("M+", "C"), ("U0",), ("M-", "A"),
    # beyond the crest: cut back, and refused where nothing is left
    ("XF", {"left_x": 1.08, "left_x_right": 1.2}), ("XF", {"left_x_right": 1.15}),
    ("XF", {"right_x": -0.02}), ("XF", {"right_x_left": -0.1, "right_x": -0.05}),
    ("XF", {"left_x": 1, "right_x": 0.5}), ("XF", {"right_x_left": 1.1, "right_x": 1.2}),
]
MATS = [("M0",), ("M+", "A"), ("M+", "E"), ("M-", "B"), ("M@", 1.5), ("U0",), ("L0",), ("W0",), ("W", 0.4),
        ("P0",), ("X0",), ("XF", {"left_x": 0.4}), ("XF", {"right_x": 0.5, "right_x_left": 0.2}), ("E", 16, None)]
QUIET = [("A",), ("PB",), ("D", 9.0), ("W", 0.4), ("O", {"slices": 11}), ("WO", False, 0.2),
         ("PF", 0.2, 0.15, 0.2), ("P0",), ("L+", "J")]
ROOT = (("M+", "A", "B"), ("O", {"iterations": 500, "slices": 10}))


class C22:
    ID = "C22"
    EXPLAIN = (
        "breadth-first search over histories of limit settings (each limit "
        "alone, together, beyond the section, contradicting, of a wrong "
        "type), removals, and calls that resize or do not resize the "
        "section; in every state the markers on the section plot (and the "
        "stored limits) are compared with the reference, and for shorter "
        "histories a search must respect and cover the limits in force"
    )
    ASSUMES = ["markers on the section plot are only compared when a material is set"]

    def run(self, case, ctx):
        w = World()
        s, m = w.slopes[0], w.models[0]
        for op in case["ops"]:
            op = tuple(op)
            if op[0] == "D":
                try:
                    s.analyse_dynamic(op[1])
                except IndexError:
                    pass
                for a, b in w.names.values():
                    if getattr(b, "dyn", False):
                        b.offset = a.offset
            else:
                ok = w.do(op)
                if op[0] in ("X", "XF"):
                    ctx.outcome("limits", "accepted" if ok else "rejected")
            ctx.step()
        k = digest(w.key())
        ctx.state(k)
        g = m.g
        eps = 1e-6 * max(g.tot_l, g.tot_h)
        lim = limits_of(s)
        if lim is not None:
            ctx.validated += 1
            for u, v in zip(lim, m.limits):
                if not close(u, v, rel=1e-9, abs_=1e-9):
                    raise Violation(f"limits {lim} instead of {m.limits}")
        if m.mats and case.get("plot"):
            fig = plain(s.plot_boundary(material_table=False))

            def req(cond, *msg):
                ctx.validated += 1
                if not cond:
                    raise Violation(" ".join(map(str, msg)) + f" {m.content()}")

            check_limits(req, fig, m, eps)
        if case.get("search") and m.mats and not m.planes:
            s.analyse_slope()
            planes = planes_of(s)
            check_allowed(ctx, m, planes, fos=False)
            check_complete(ctx, m, planes)
            ctx.outcome("search")
        return k

    def explore(self, ex, tier):
        deep = tier == "thorough"
        mk = lambda **kw: lambda h: dict(ops=list(h), **kw)  # noqa: E731
        ex.bfs(OPS + QUIET, 3 if deep else 2, "limit histories, plotted", roots=[ROOT],
               make=mk(plot=True))
        ex.bfs(OPS + (QUIET if deep else QUIET[3:]), 4 if deep else 3, "limit histories", roots=[ROOT], make=mk())
        ex.bfs(OPS + QUIET, 2 if deep else 1, "limit histories, searched", roots=[
            ROOT,
            ROOT + (("XF", {"left_x": 0.2, "left_x_right": 0.8, "right_x_left": 0.25,
                            "right_x": 0.7}), ("L+", "J")),
            ROOT + (("XF", {"right_x": 0.7}), ("A",), ("XF", {"left_x": 0.3})),
        ], make=mk(search=True, plot=True))
        ex.bfs(MATS, 4 if deep else 3, "limits while all else is removed", make=mk(), roots=[
            ROOT + (("XF", {"left_x": 0.3, "right_x": 0.8}),)])
        ex.product([
            dict(ops=list(ROOT + (a, b)), search=True)
            for i, a in enumerate(OPS[:18]) for j, b in enumerate(OPS + QUIET)
            if deep or (i + j) % 2 == 0], "pairs, searched")


CHECK = C22()
