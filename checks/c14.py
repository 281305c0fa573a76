import contextlib
import io
import itertools
import re

from mc.engine import Skip, Violation, digest
from mc.figs import check_section
from mc.foscase import chord_circles
from mc.fresh import fresh, read_results, same_planes
from mc.impl import LineLoad, Material, Slope, Udl, close, planes_of
from mc.ref import Model, RLineLoad, RMaterial, RUdl

SHAPES = [(1, 45, None), (3, 30, None), (1.5, 90, None), (2.5, 60, None), (0.8, None, 3)]
MATS = [
    [(20, 32, 3, 3)],
    [(18, 0, 14, 2)],
    [(19, 25, 4, 0.8), (21, 32, 1, 2.5)],
]
STRONG = [(20, 38, 250, 3)]
# (udls (mag, offset, length, movable), line loads (mag, offset, movable))
LOADS = [
    ([(60, 0.4, 1, True)], []),
    ([], [(40, 0.3, True)]),
    ([(50, 0, None, True)], []),
    ([(50, 0.2, 0.8, True), (15, 1.1, 0.6, False)], [(12, 0.5, False), (20, 0.9, True)]),
    ([(30, 0.2, 2.5, True), (20, 0.7, 0.3, True)], []),
    ([(30, 0.2, 40, True)], []),
    ([(30, 0.2, 1, False)], [(9, 0.5, False)]),
    ([], [(25, 0.2, True), (10, 1.2, True), (5, 0.6, False)]),
    ([(60, 4, 1, True), (10, 0.3, 0.5, False)], []),
    ([], []),
    ([(2, 0.4, 1, True)], []),
    ([(3, 0, 4, False)], [(40, 0.3, True)]),
    # fixed loads that end up beyond the edge of the section (see EXTRA)
    ([(8, 7.5, 1, False)], [(40, 0.3, True), (9, 8, False)]),
]
# where the target lies between the FOS at the crest and the far position;
# "crest"/"far" exactly, numbers below/above outside of them
TARGETS = [-0.5, "crest", 0.02, 0.35, 0.8, 0.98, "far", 1.05, 3]
EXTRA = [
    {},
    dict(water=0.5, limits=True, ext=(25, 9)),
    dict(water=0.3, wo=(False, 0.4), min_dist=0.7),
    dict(ext=(10, 6.5)),
]


def build(case):
    h, a, ln = case["shape"]
    s, m = Slope(h, a, ln), Model(h, a, ln)
    mats = STRONG if case["mats"] == "strong" else MATS[case["mats"]]
    s.set_materials(*[Material(*q) for q in mats])
    m.set_materials(*[RMaterial(*q) for q in mats])
    us, ls = LOADS[case["loads"]]
    pairs = []
    for mg, o, n, d in us:
        p = Udl(mg, o, n, dynamic_offset=d), RUdl(mg, o, n, dyn=d)
        s.set_udls(p[0]), m.set_udls(p[1])
        pairs.append(p)
    for mg, o, d in ls:
        p = LineLoad(mg, o, dynamic_offset=d), RLineLoad(mg, o, dyn=d)
        s.set_lls(p[0]), m.set_lls(p[1])
        pairs.append(p)
    ex = EXTRA[case["extra"]]
    if "ext" in ex:
        s.update_boundary_options(*ex["ext"])
        m.update_boundary_options(*ex["ext"])
    if "water" in ex:
        s.set_water_table(ex["water"])
        m.set_water_table(ex["water"])
    if "wo" in ex:
        s.update_water_analysis_options(*ex["wo"])
        m.update_water_analysis_options(*ex["wo"])
    g = m.g
    if ex.get("limits"):
        kw = dict(left_x=g.top[0] * 0.3, left_x_right=g.top[0] * 0.97,
                  right_x_left=g.top[0] + 0.3 * g.l, right_x=g.bot[0] + 0.6 * (g.tot_l - g.bot[0]))
        s.set_analysis_limits(**kw)
        m.set_analysis_limits(**kw)
    kw = dict(slices=10, iterations=500)
    if ex.get("min_dist"):
        kw["min_failure_dist"] = ex["min_dist"]
    s.update_analysis_options(**kw)
    m.update_analysis_options(**kw)
    if case["planes"]:
        for c in chord_circles(g, [0.02, 0.15, 0.4, 0.8], [0.03, 0.3, -0.7], [0.12, 0.3]):
            s.add_single_circular_plane(*c)
            m.add_single_circular_plane(*c)
    return s, m, pairs


def at(m, offset):
    """the reference model with the movable loads at that offset"""
    n = m.copy()
    n.udls = [RUdl(q.mag, offset if q.dyn else q.offset, q.length, dyn=q.dyn) for q in m.udls]
    n.lls = [RLineLoad(q.mag, offset if q.dyn else q.offset, dyn=q.dyn) for q in m.lls]
    return n


def printed(s):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        s.print_dynamic_results()
    out = []
    for line in buf.getvalue().splitlines():
        v = re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", line)
        if len(v) >= 2:
            out.append((float(v[0]), float(v[1])))
    return out

CHANGES = dict(
    W=lambda s: s.set_water_table(0.35),
    W0=lambda s: s.remove_water_table(),
    H=lambda s: s.update_water_analysis_options(auto=False, H=0.3),
    M=lambda s: s.set_materials(Material(17, 26, 1, 0.9)),
    O=lambda s: s.update_analysis_options(slices=14),
    T=lambda s: s.update_analysis_options(tolerance=0.3),
    B=lambda s: s.set_external_boundary(1.3, None, 2.1),
    E=lambda s: s.update_boundary_options(MIN_EXT_L=26),
    P=lambda s: s.remove_individual_planes(),
    U=lambda s: s.set_udls(Udl(11, 0.6, 0.9)),
    L=lambda s: s.set_lls(LineLoad(8, 0.4)),
    X=lambda s: s.set_analysis_limits(left_x=1.1),
    A=lambda s: s.analyse_slope(),
)


class _Model:
    """hands the calls of CHANGES on to the reference model"""

    def __init__(self, m):
        self.m = m

    def __getattr__(self, name):
        def call(*a, **kw):
            b = []
            for v in a:
                if isinstance(v, Material):
                    v = RMaterial(v.unit_weight, v.friction_angle, v.cohesion, v.depth_to_bottom)
                elif isinstance(v, Udl):
                    v = RUdl(v.magnitude, v.offset, v.length)
                elif isinstance(v, LineLoad):
                    v = RLineLoad(v.magnitude, v.offset)
                b.append(v)
            getattr(self.m, name)(*b, **kw)
        return call


class C14:
    ID = "C14"
    EXPLAIN = (
        "all combinations of face, strata, sets of movable and fixed loads, "
        "further content and targets below, at, between and above the FOS of "
        "the extreme positions (on the same slope one after the other and on "
        "new ones; user planes and full searches): every recorded offset is "
        "analysed anew on a fresh slope, and the slope afterwards is compared "
        "with a fresh one with the loads at the last offset"
    )
    ASSUMES = [
        "the far position is the length of the crest less the longest "
        "movable load that fits on it, to 50 mm; at most 12 analyses",
    ]

    def one(self, ctx, s, m, pairs, target, memo, plot=False):
        s.analyse_dynamic(target)
        rec = dict(s.get_dynamic_results())
        ctx.step(len(rec))
        n = len(rec)
        if not 1 <= n <= 12:
            raise Violation(f"{n} records")
        for o, f in rec.items():
            if not (0 <= o <= m.g.top[0]):
                raise Violation(f"recorded offset {o} is not on the crest (0..{m.g.top[0]})")
            if o not in memo:
                q = fresh(at(m, o))
                q.analyse_slope()
                memo[o] = q.get_min_FOS()
            ctx.validated += 1
            if not close(memo[o], f, rel=1e-6):
                raise Violation(f"recorded FOS {f} at offset {o}, a fresh analysis gives {memo[o]}")
        if 0.0 not in rec:
            raise Violation(f"crest position not recorded: {rec}")
        # where do the movable loads rest
        for a, b in pairs:
            if b.dyn:
                if a.offset not in rec:
                    raise Violation(f"movable load rests at {a.offset}, not analysed: {rec}")
            elif a.offset != b.offset:
                raise Violation(f"fixed load moved from {b.offset} to {a.offset}")
        moved = {a.offset for a, b in pairs if b.dyn}
        if len(moved) > 1:
            raise Violation(f"movable loads rest at different offsets {moved}")
        far = max(rec)
        if rec[0.0] >= target:
            kind = "safe at crest"
            if n != 1:
                raise Violation(f"crest position reaches {target} already: {rec}")
            rest = 0.0
        elif n == 1 or (n == 2 and rec[far] < target):
            kind = "unsafe at far"
            if n == 1 and moved:
                raise Violation(f"ended after the crest position below {target}: {rec}")
            rest = far
        else:
            kind = "between"
            if rec[far] < target:
                raise Violation(f"far position does not reach {target}, but: {rec}")
            rest = moved.pop() if moved else None
            if n == 2 and rest not in rec:
                raise Violation(f"nothing between: {rec}")
            if rest is None:
                raise Violation(f"no movable loads, but: {rec}")
            if n == 2 and rec[far] - target > 1e-3 * target:
                raise Violation(f"nothing tried between: {rec}")
            if n == 2:
                kind = "at the far position"
            elif rest <= 0 or rest > far:
                raise Violation(f"loads rest at {rest} with target {target}: {rec}")
            if round(rec[rest], 3) < target - 0.0005 and n < 8:
                raise Violation(f"ended at {rest} with {rec[rest]} < {target}: {rec}")
            # every analysed offset was inside of the bracket known by then
            ctx.outcome("analyses", n)
        if moved and kind in ("safe at crest", "unsafe at far") and moved != {rest}:
            raise Violation(f"loads rest at {moved}, last analysed {rest}")
        if n > 1 and moved:
            # as far back as the crest allows: up to its length less that of
            # the longest movable load (one longer than the crest cannot fit)
            room = m.g.top[0]
            fit = [q.length for q in m.udls if q.dyn and q.length and q.length < room - 0.01]
            want = room - max(fit, default=0)
            if not want - 0.05 <= far <= want + 1e-9:
                raise Violation(f"far position {far}, the crest allows {want}")
        ctx.outcome(kind)
        # the slope is now the same slope with the loads at the rest offset
        now = at(m, rest) if rest is not None else m
        q = fresh(now)
        q.analyse_slope()
        d = same_planes(planes_of(s), planes_of(q))
        if d:
            raise Violation(f"after the analysis with {target} (rest {rest}): {d}")
        if plot:
            check_section(ctx, s.plot_boundary(), now)
        out = printed(s)
        for o, f in rec.items():
            if not any(abs(o - u) <= 0.00051 and abs(f - v) <= 0.00051 for u, v in out):
                raise Violation(f"offset {o} FOS {f} is not printed: {out}")
        if len(out) != n:
            raise Violation(f"{len(out)} lines printed for {n} records")
        return rec

    def hist(self, case, ctx):
        """the same target again after the slope was changed"""
        s, m, pairs = build(case)
        ctx.state(case)
        try:
            memo = {}
            rec = self.one(ctx, s, m, pairs, 1000, memo)
        except IndexError:
            raise Skip()
        for t in case["targets"]:
            v = rec[0.0] + t * (rec[max(rec)] - rec[0.0])
            s, m, pairs = build(case)
            self.one(ctx, s, m, pairs, v, memo)
            for name in case["then"]:
                CHANGES[name](s)
                if name != "A":
                    CHANGES[name](_Model(m))
                # a movable load stays where the analysis left it
                for a, b in pairs:
                    b.offset = a.offset
                ctx.step()
            if m.planes and not any(len(m.g.hits(*c)) == 2 for c in m.planes):
                continue  # the user's planes miss the new ground
            q = fresh(at(m, 0.0))
            q.analyse_slope()
            if read_results(q) is None:
                continue
            try:
                fresh(m).analyse_dynamic(v)
            except IndexError:  # no plane at some position
                continue
            self.one(ctx, s, m, pairs, v, {}, plot=True)
            ctx.outcome("again after", *case["then"])

    def run(self, case, ctx):
        if "then" in case:
            return self.hist(case, ctx)
        ctx.state(case)
        s, m, pairs = build(case)
        memo = {}
        try:
            q = fresh(at(m, 0.0))
            q.analyse_slope()
            q.get_min_FOS()
        except IndexError:
            raise Skip()
        rec = self.one(ctx, s, m, pairs, 1000, memo)
        f0, ff = rec[0.0], rec[max(rec)]
        for i, t in enumerate(case["targets"]):
            plot = i == len(case["targets"]) - 1
            if t == "crest":
                v = f0
            elif t == "far":
                v = ff
            else:
                v = f0 + t * (ff - f0) if ff > f0 else f0 * (1 + 0.1 * t)
            if v <= 0:
                continue
            if case["reuse"]:
                self.one(ctx, s, m, pairs, v, memo, plot)
                if case["reuse"] == 2:
                    # an ordinary analysis in between changes nothing
                    s.analyse_slope()
            else:
                s2, m2, p2 = build(case)
                self.one(ctx, s2, m2, p2, v, memo, plot)
            ctx.state(case, t)

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases = []
        k = 0
        for sh, mt, ld, e in itertools.product(
                SHAPES, range(len(MATS)), range(len(LOADS)), range(len(EXTRA))):
            k += 1
            cases.append(dict(shape=list(sh), mats=mt, loads=ld, extra=e, planes=True,
                              reuse=k % 3,
                              targets=TARGETS if deep else TARGETS[k % 3::3]))
        for sh, ld, e, pl in itertools.product(
                SHAPES, range(len(LOADS)), range(len(EXTRA)), (True, False)):
            k += 1
            if deep or (k % 3 == 0 if pl else k % 14 == 0):
                cases.append(dict(shape=list(sh), mats="strong", loads=ld, extra=e, planes=pl,
                                  reuse=k % 3, targets=TARGETS if deep else [0.3, 0.8]))
        ex.product(cases, "face x strata x loads x content x targets, user planes")
        names = [n for n in CHANGES if n != "A"]
        ex.product(
            [dict(shape=list(SHAPES[(i + j) % 5]), mats=(i + j) % 3, loads=ld, extra=(i + j) % 2, planes=True,
                  targets=[0.6] if not deep else [-0.5, 0.3, 0.6, 2], then=then)
             for i, ld in enumerate((0, 3, 7, 11))
             for j, then in enumerate([[a] for a in names] + [[a, "A"] for a in names]
                                      + [[a, b] for a in names for b in names if a != b
                                         and (deep or ld == 0)])],
            "dynamic analysis, changes, the same again")
        cases = []
        for sh, mt, ld, e in itertools.product(
                SHAPES, range(len(MATS)), range(len(LOADS)), range(len(EXTRA))):
            k += 1
            if deep or k % 12 == 0:
                cases.append(dict(shape=list(sh), mats=mt, loads=ld, extra=e, planes=False,
                                  reuse=k % 3 if deep else (k // 12) % 3,
                                  targets=TARGETS if deep else [0.4, "crest", 0.9][: 2]))
        ex.product(cases, "the same with full searches")


CHECK = C14()
