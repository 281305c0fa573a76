import itertools

from mc.engine import digest
from mc.figs import check_section, check_table
from mc.impl import LineLoad, Material, Udl
from mc.ref import RLineLoad, RMaterial, RUdl
from mc.world import World

from checks.c02 import BASE, MORE, OPS, RICH

SHAPES = [(2, None, 3), (1, 90, None), (1, 45, None), (3, None, 20), (5, 70, None)]
STACKS = [
    (0.5,), (5,), (20,), (0.5, 1.5), (1, 2), (2, 3, 5), (0.2, 0.4, 0.9, 3.3),
    (6,), (3, 6), (1.5, 60), (0, 2), (1, 3, 6, 12), (5, 5.5),
    (0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.1, 1.2, 1.3),
]
WATERS = [None, 0, 0.5, 1, 2, 4, 100]
LOADS = [
    ((), ()),
    (((20, 0.4, 1.1),), ((18, 0.77),)),
    (((15, 0, None), (12.5, 4, 3)), ((9, 4.31), (6, 0))),
    (((1.0625, 0.3, 0.4), (100.507, 0, None), (7.05, 1, 0.25)),
     ((3.0401, 0.1), (20.205, 0.9), (1234.5, 0), (0.1 + 0.2, 2))),
    (((33.25, 1, 0.5), (33.25, 1, 0.5), (0.25, 2.5, None)), ((7.123, 0.2), (7.123, 0.2))),
]
LIMITS = [
    {}, {"left_x": 0.3, "right_x": 0.7}, {"left_x_right": 0.6, "right_x_left": 0.4},
    {"left_x": 0.1, "left_x_right": 0.9, "right_x_left": 0.2, "right_x": 0.95},
    {"right_x_left": 0.05}, {"left_x_right": 0.5},
]
NAMES = [("", ""), ("sand", "brown"), ("Fill 2", "#0a1"), ("", "notacolour"),
         ("clay", "#102030")]


class C15:
    ID = "C15"
    EXPLAIN = (
        "all combinations of face shape, layer stack, water level, loads, "
        "limits within the bounds plus all short histories of model-building "
        "calls; the figure produced by the real code is read back: polygon "
        "areas are compared with exact areas of the layers, a grid of points "
        "must lie in exactly its own layer, and loads, water line, limit "
        "markers and the table with the reference model"
    )
    ASSUMES = ["loads fit on the section (the library makes room when they are set)"]

    def run(self, case, ctx):
        w = World()
        s, m = w.slopes[0], w.models[0]
        if "ops" in case:
            for op in case["ops"]:
                w.do(tuple(op))
                ctx.step()
            key = digest(w.key())
            ctx.state(key)
            ctx.outcome("history", "no materials" if not m.mats else "layers")
        else:
            key = None
            w.do(("B",) + tuple(case["shape"]))
            mats = [
                (20 + 0.5 * i, 30 - i, 2 + i, d) + NAMES[(i + case["name"]) % 5]
                for i, d in enumerate(case["stack"])
            ]
            s.set_materials(*[Material(*a) for a in mats])
            m.set_materials(*[
                RMaterial(*a[:5], "" if a[5] == "notacolour" else a[5]) for a in mats])
            if case["water"] is not None:
                w.do(("W", case["water"]))
            us, ls = LOADS[case["loads"]]
            s.set_udls(*[Udl(*u) for u in us])
            m.set_udls(*[RUdl(*u) for u in us])
            s.set_lls(*[LineLoad(*u) for u in ls])
            m.set_lls(*[RLineLoad(*u) for u in ls])
            if LIMITS[case["limits"]]:
                w.do(("XF", LIMITS[case["limits"]]))
            ctx.step(6)
            ctx.state(case["shape"], case["stack"], case["water"], case["loads"],
                      case["limits"])
            ctx.outcome("layers", len(mats), "water", case["water"] is not None)
        for kw in case.get("kw", [{}]):
            fig = s.plot_boundary(**kw)
            ctx.step()
            check_section(ctx, fig, m)
            if m.mats and kw.get("material_table", True):
                check_table(ctx, fig, m)
        return key

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases = []
        n = 0
        for sh, st, wt in itertools.product(SHAPES, STACKS, WATERS):
            combos = (
                itertools.product(range(len(LOADS)), range(len(LIMITS)))
                if deep
                else [(0, n % len(LIMITS))]
            )
            for lo, li in combos:
                cases.append(dict(shape=list(sh), stack=list(st), water=wt,
                                  loads=lo, limits=li, name=n % 5,
                                  kw=[{}] if n % 3 else [{"legend": True}]))
            n += 1
        if not deep:
            for i, (sh, lo, li) in enumerate(
                itertools.product(SHAPES, range(1, len(LOADS)), range(len(LIMITS)))
            ):
                cases.append(dict(shape=list(sh), stack=[1, 2.5], water=0.5,
                                  loads=lo, limits=li, name=i % 5,
                                  kw=[{"material_table": False}] if i % 2 else [{}, {}]))
        ex.product(cases, "shape x stack x water x loads x limits")
        ops = OPS + MORE[:-4]
        ex.bfs(ops, 2 if deep else 1, "from fully loaded slope", roots=[RICH])
        ex.bfs(ops, 2 if deep else 1, "from two-layer slope", roots=[BASE])
        if not deep:
            # everything that takes something away, followed by anything
            take = [o for o in ops if o[0][-1] in "-=@0" or o[0] in ("B", "E")]
            ex.product(
                [{"ops": list(RICH + (a, b))} for i, a in enumerate(take)
                 for j, b in enumerate(ops) if (i + j) % 3 == 0],
                "removal or redefinition, then another call (every third pair)")


CHECK = C15()
