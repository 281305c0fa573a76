import itertools

from mc.engine import Violation
from mc.foscase import analyse, build, chord_circles, judge
from mc.impl import LineLoad, Udl, close
from mc.ref import RLineLoad, RUdl

SHAPES = [(1, 45, None), (2, None, 3), (1.5, 90, None), (3, 60, None), (0.8, None, 5)]
MATS = [
    [(20, 35, 2, 3)],
    [(18, 0, 20, 3)],
    [(19, 25, 4, 0.8), (21, 32, 1, 2.5)],
]
UDLS = [
    [(m, o, ln)]
    for m in (0.5, 40)
    for o in (0, 0.013, 0.21, 0.4, 0.77, 1.3, 1.9, 3.1)
    for ln in (None, 0.04, 0.31, 1, 2.6, 9)
] + [
    [(20, 0, 1), (20, 1, 1)], [(20, 0.3, 0.5), (35, 0.1, None), (5, 0.2, 2)],
    [(20, 0.3, 0.5)] * 3, [(0, 0, 5)], [(0, 0.1, None), (7, 0.5, 0.4)],
    [(-15, -0.6, -1.1)], [(9, 0.45, 0)], [(1000, 0.2, 0.05)],
    [(3 + k, 0.11 * k, (0.3, None, 0.9)[k % 3]) for k in range(21)],
]
LLS = [[(m, o)] for m in (0.3, 25) for o in
       (0, 0.011, 0.17, 0.33, 0.5, 0.81, 1.23, 1.71, 2.4, 3.3, 4.1)] + [
    [(10, 0.2), (10, 0.2)], [(10, 0.2), (15, 0.9), (5, 1.6), (2, 0)],
    [(0, 0.4)], [(0, 0.4), (6, 0.41)], [(-8, -0.7)], [(500, 0.05)],
    [(2 + k, 0.093 * k) for k in range(21)],
]
UOBJ = [(20, 0.3, 0.5), (8, 0.1, None)]
LOBJ = [(10, 0.2), (6, 0.9)]
# 3-4-5 circle: slice edges and load positions are exact binary fractions
EXACT = dict(shape=(1, None, 1), circle=(5.0, 9.0, 5.0))


class C08:
    ID = "C08"
    EXPLAIN = (
        "all combinations of face, strata, slice count and load set (single "
        "loads over a grid of offsets and lengths, and combinations) with a "
        "grid of circles: FOS of the real code against the reference; all "
        "orders and colours of a load set; loads outside of each mass "
        "against the unloaded slope; line loads exactly on slice edges "
        "(must count once, either side)"
    )
    ASSUMES = ["as C07"]

    def run(self, case, ctx):
        ctx.state(case)
        getattr(self, case["kind"])(case, ctx)

    def grid(self, case, ctx):
        s, m = build(dict(
            shape=case["shape"], mats=MATS[case["mats"]], slices=case["slices"],
            udls=case["udls"], lls=case["lls"]))
        cs = chord_circles(m.g, [0.02, 0.13, 0.37, 0.71], [0.04, 0.4, -0.5, -0.97],
                           [0.1, 0.24, 0.4])
        got = judge(ctx, s, m, cs)
        # what lies outside of the sliding mass does not matter: compare
        # with the unloaded slope of the same section
        bare, bm = build(dict(shape=case["shape"], mats=MATS[case["mats"]],
                              slices=case["slices"]))
        bare.update_boundary_options(MIN_EXT_L=m.min_l)
        away = []
        for c in got:
            x1, x2 = m.g.hits(*c)[0][0], m.g.hits(*c)[1][0]
            if all(m.udl_span(u)[1] < x1 - 1e-6 or m.udl_span(u)[0] > x2 + 1e-6
                   for u in m.udls) and all(
                    m.ll_x(p) < x1 - 1e-6 or m.ll_x(p) > x2 + 1e-6 for p in m.lls):
                away.append(c)
        if away:
            base = analyse(bare, away)
            for c in away:
                ctx.validated += 1
                if c not in base or not close(base[c][3], got[c][3], rel=1e-8):
                    raise Violation(
                        f"load outside of circle {c} changes its FOS from "
                        f"{base.get(c)} to {got[c]}")
            ctx.outcome("loads outside of the mass")

    def orders(self, case, ctx):
        """every order and colouring of the same loads"""
        conf = dict(shape=case["shape"], mats=MATS[0], slices=10)
        us, ls = case["udls"], case["lls"]
        ref = None
        for pu in itertools.permutations(range(len(us))):
            for pl in itertools.permutations(range(len(ls))):
                s, m = build(conf)
                for k, i in enumerate(pu):
                    s.set_udls(Udl(*us[i], color=("red", "blue", "#123")[k % 3]))
                    m.set_udls(RUdl(*us[i]))
                s.set_lls(*[LineLoad(*ls[i], color=("red", "nocolour")[k % 2])
                            for k, i in enumerate(pl)])
                m.set_lls(*[RLineLoad(*ls[i]) for i in pl])
                cs = chord_circles(m.g, [0.05, 0.33], [0.1, -0.9], [0.12, 0.3])
                got = judge(ctx, s, m, cs)
                vals = {c: p[3] for c, p in got.items()}
                if ref is None:
                    ref = vals
                for c in ref:
                    if not close(ref[c], vals[c], rel=1e-9):
                        raise Violation(f"order of loads matters: {ref[c]} {vals[c]}")
        ctx.outcome("orders")

    def same(self, case, ctx):
        """one load object given several times, in one call or in several:
        it counts every time"""
        s, m = build(dict(shape=case["shape"], mats=MATS[0], slices=10))
        objs = {}
        for call in case["calls"]:
            for kind in "ul":
                ps, qs = [], []
                for n in call:
                    if n[0] != kind:
                        continue
                    if n not in objs:
                        a = (UOBJ if kind == "u" else LOBJ)[int(n[1])]
                        objs[n] = (Udl(*a), RUdl(*a)) if kind == "u" else (LineLoad(*a), RLineLoad(*a))
                    ps.append(objs[n][0])
                    qs.append(objs[n][1])
                if ps:
                    (s.set_udls if kind == "u" else s.set_lls)(*ps)
                    (m.set_udls if kind == "u" else m.set_lls)(*qs)
        cs = chord_circles(m.g, [0.05, 0.33, 0.7], [0.1, -0.9], [0.12, 0.3])
        judge(ctx, s, m, cs)
        ctx.outcome("same object", len(sum(case["calls"], [])))

    def edge(self, case, ctx):
        """a line load exactly on an edge between slices counts once"""
        n, off = case["slices"], case["off"]
        h, a, ln = EXACT["shape"]
        s, m = build(dict(shape=(h, a, ln), slices=n, lls=[(25, off)]))
        c = EXACT["circle"]
        got = analyse(s, [c]).get(c)
        opts = [m.bishop(*c, ll_shift=d) for d in (-1e-7, 1e-7)]
        ctx.step()
        ctx.validated += 1
        if got is None or not any(
            k == "fos" and close(got[3], v, rel=1e-7) for k, v in opts
        ):
            raise Violation(
                f"line load at offset {off} with {n} slices: FOS "
                f"{got and got[3]}, counted once it is one of {opts}")
        ctx.outcome("edge", "left" if close(got[3], opts[0][1]) else "right")

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases = []
        k = 0
        sl = [10, 13, 25] if not deep else [10, 13, 25, 40, 111, 300]
        for sh, mt in itertools.product(SHAPES, range(len(MATS))):
            for n in sl:
                for u in UDLS:
                    k += 1
                    if deep or k % 2 == 0:
                        cases.append(dict(kind="grid", shape=list(sh), mats=mt, slices=n,
                                          udls=u, lls=[]))
                for p in LLS:
                    cases.append(dict(kind="grid", shape=list(sh), mats=mt, slices=n,
                                      udls=[], lls=p))
        for sh in SHAPES:
            for u, p in itertools.product(UDLS[::5] + UDLS[-8:], LLS[::4] + LLS[-6:]):
                cases.append(dict(kind="grid", shape=list(sh), mats=2, slices=10,
                                  udls=u, lls=p))
        ex.product(cases, "shape x strata x slices x loads (x circles)")
        ex.product(
            [dict(kind="orders", shape=list(sh),
                  udls=[(20, 0.3, 0.5), (35, 0.1, None), (5, 4, 2)],
                  lls=[(10, 0.2), (15, 0.9), (2, 5)]) for sh in SHAPES],
            "all orders of loads")
        names = ["u0", "u1", "l0", "l1"]
        splits = []
        for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
            for seq in itertools.product(names, repeat=n):
                for cut in itertools.product((0, 1), repeat=n - 1):
                    calls = [[seq[0]]]
                    for q, c in zip(seq[1:], cut):
                        if c:
                            calls.append([q])
                        else:
                            calls[-1].append(q)
                    splits.append(calls)
        ex.product([dict(kind="same", shape=list(sh), calls=c)
                    for sh in (SHAPES if deep else SHAPES[:2]) for c in splits],
                   "the same load objects in several calls")
        ex.product(
            [dict(kind="edge", slices=n, off=o / 8) for n in (14, 28, 56)
             for o in range(0, 29)], "line loads on slice edges")


CHECK = C08()
