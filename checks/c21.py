import itertools
from math import atan, degrees, radians, tan

from mc.engine import Skip, Violation
from mc.foscase import chord_circles
from mc.impl import LineLoad, Material, Slope, Udl, close, planes_of
from mc.ref import Model, RLineLoad, RMaterial, RUdl

SHAPES = [(1, 45, None), (3, 30, None), (1.5, 90, None), (2.5, 70, None), (0.8, None, 5)]
MATS = [
    [(20, 35, 2, 3)],
    [(18, 0, 25, 2)],
    [(19, 25, 4, 0.83), (21, 32, 1, 2.5)],
    [(16, 30, 0.5, 0.4), (22, 5, 12, 1.1), (19, 38, 0, 1.9)],
]
LOADS = [
    ([], []),
    ([(30, 0.31, 0.83)], []),
    ([(12, 0, None)], [(9, 0.47)]),
    ([(25, 0.17, 0.6), (8, 0.71, 1.4)], [(6, 0.23), (14, 0.91)]),
]
WATER = [None, 0.37, 0]


def conf0(shape, mats, loads, water):
    return dict(shape=list(shape), mats=[list(q) for q in MATS[mats]],
                udls=[list(q) for q in LOADS[loads][0]], lls=[list(q) for q in LOADS[loads][1]],
                water=water, ext=[10, 6], scale=1.0, fos=1.0, order=0, rev=False, neg=False)


def copy(c):
    return dict(c, shape=list(c["shape"]), mats=[list(q) for q in c["mats"]],
                udls=[list(q) for q in c["udls"]], lls=[list(q) for q in c["lls"]], ext=list(c["ext"]))


# ---- descriptions of the same slope; None: not applicable
def sublayers(c):
    top, out = 0, []
    for uw, phi, k, d in c["mats"]:
        out += [[uw, phi, k, top + (d - top) * f] for f in (0.37, 0.71) if d > top] + [[uw, phi, k, d]]
        top = d
    c["mats"] = out


def sublayer_below(c):
    uw, phi, k, d = c["mats"][-1]
    c["mats"].append([uw, phi, k, d + 0.77])


def deeper(c):
    c["mats"][-1][3] *= 3.5


def shallower(c):
    lo = c["mats"][-2][3] if len(c["mats"]) > 1 else 0
    c["mats"][-1][3] = lo + (c["mats"][-1][3] - lo) * 0.1


def thin_layer(c):
    """a layer that ends at the crest holds nothing"""
    if c["mats"][0][3] > 0:
        c["mats"].insert(0, [33, 1, 77, 0])


def adjoining(c):
    if not c["udls"]:
        return None
    out = []
    for m, o, n in c["udls"]:
        if n is None:
            out += [[m, o, 0.4], [m, o + 0.4, None]]
        else:
            out += [[m, o + 0.35 * n, 0.65 * n], [m, o, 0.35 * n]]
    c["udls"] = out


def superposed(c):
    if not c["udls"] and not c["lls"]:
        return None
    c["udls"] = [[m * f, o, n] for m, o, n in c["udls"] for f in (0.3, 0.7)]
    c["lls"] = [[m * f, o] for m, o in c["lls"] for f in (0.75, 0.25)]


def nothing_loads(c):
    c["udls"] = [[0, 0.2, 1]] + c["udls"] + [[0, 0.1, None]]
    c["lls"] = c["lls"] + [[0, 0.3]]


def signs(c):
    c["neg"] = not c["neg"]


def reordered(c):
    c["rev"] = not c["rev"]
    c["order"] += 1


def late(c):
    """content first, boundary afterwards"""
    c["order"] += 2


def by_length(c):
    h, a, ln = c["shape"]
    if ln is not None:
        return None
    c["shape"] = [h, None, h / tan(radians(a))]


def both(c):
    h, a, ln = c["shape"]
    if ln is None:
        c["shape"] = [h, 17, h / tan(radians(a))]
    else:
        c["shape"] = [h, 89, ln]


def larger(c):
    c["ext"] = [c["ext"][0] * 2.3, c["ext"][1] * 1.9]


def wider(c):
    c["ext"] = [c["ext"][0] * 1.4 + 3.3, c["ext"][1]]


def heavier(c, k=1.25):
    if c["water"] is not None or any(not 1 <= q[0] * k <= 50 for q in c["mats"]):
        return None
    c["mats"] = [[u * k, p, s * k, d] for u, p, s, d in c["mats"]]
    c["udls"] = [[m * k, o, n] for m, o, n in c["udls"]]
    c["lls"] = [[m * k, o] for m, o in c["lls"]]


def lighter(c):
    return heavier(c, 0.3)


def magnified(c, k=2.0):
    """all lengths scaled, stresses kept"""
    if c["shape"][1] == 90 or c["water"] is not None or any(not 1 <= q[0] / k <= 50 for q in c["mats"]):
        return None
    h, a, ln = c["shape"]
    c["shape"] = [h * k, a, None if ln is None else ln * k]
    c["mats"] = [[u / k, p, s, d * k] for u, p, s, d in c["mats"]]
    c["udls"] = [[m, o * k, None if n is None else n * k] for m, o, n in c["udls"]]
    c["lls"] = [[m * k, o * k] for m, o in c["lls"]]
    c["ext"] = [v * k for v in c["ext"]]
    c["scale"] *= k


def strength(c, k=1.3):
    """cohesion and friction (tangent) scaled: the FOS scales alike"""
    c["mats"] = [[u, degrees(atan(k * tan(radians(p)))), s * k, d] for u, p, s, d in c["mats"]]
    c["fos"] *= k


def weakness(c):
    strength(c, 0.4)


def dry(c):
    """a water table below the section is none"""
    if c["water"] is not None:
        return None
    c["water"] = 5000.0


SAME = [sublayers, sublayer_below, deeper, shallower, thin_layer, adjoining, superposed,
        nothing_loads, signs, reordered, late, by_length, both, larger, wider, heavier, lighter,
        magnified, strength, weakness, dry]
NAMES = {f.__name__: f for f in SAME}
# same grid of planes too
GRID = ["sublayers", "signs", "reordered", "late", "by_length", "both", "nothing_loads",
        "heavier", "lighter", "shallower", "strength", "weakness"]


# ---- stronger ground
def more_c(c):
    c["mats"] = [[u, p, abs(s) + 3, d] for u, p, s, d in c["mats"]]


def top_c(c):
    next(q for q in c["mats"] if q[3] > 0)[2] += 5


STRONGER = {f.__name__: f for f in (more_c, top_c)}


def applied(c, names):
    """c described differently, or None"""
    for n in names:
        q = copy(c)
        f = NAMES.get(n) or STRONGER[n]
        before = repr(q)
        f(q)
        if repr(q) == before:
            return None
        c = q
    return c


def build(c):
    h, a, ln = c["shape"]
    if c["rev"]:
        c = dict(c, mats=c["mats"][::-1], udls=c["udls"][::-1], lls=c["lls"][::-1])
    if c["neg"]:
        c = dict(c, mats=[[u, p, -k, -d] for u, p, k, d in c["mats"]],
                 udls=[[-q, -o, None if n is None else -n] for q, o, n in c["udls"]],
                 lls=[[-q, -o] for q, o in c["lls"]])
    s, m = Slope(), Model(h, a, ln)

    def boundary():
        s.set_external_boundary(h, a, ln)

    def mats():
        s.set_materials(*[Material(*q) for q in c["mats"]])

    def mats1():
        for q in c["mats"]:
            s.set_materials(Material(*q))

    def udls():
        s.set_udls(*[Udl(*q) for q in c["udls"]])

    def lls():
        for q in c["lls"]:
            s.set_lls(LineLoad(*q))

    def water():
        if c["water"] is not None:
            s.set_water_table(c["water"])

    def ext():
        s.update_boundary_options(*c["ext"])

    steps = [
        [boundary, ext, mats, udls, lls, water],
        [boundary, lls, udls, water, mats1, ext],
        [mats, udls, lls, water, boundary, ext],
        [water, lls, mats1, ext, udls, boundary],
    ][c["order"] % 4]
    for f in steps:
        f()
    m.update_boundary_options(*c["ext"])
    m.set_materials(*[RMaterial(*q) for q in c["mats"]])
    m.set_udls(*[RUdl(*q) for q in c["udls"]])
    m.set_lls(*[RLineLoad(*q) for q in c["lls"]])
    if c["water"] is not None:
        m.set_water_table(c["water"])
    kw = dict(slices=20, tolerance=1e-11, max_iterations=400)
    s.update_analysis_options(**kw)
    m.update_analysis_options(**kw)
    return s, m


def crest(s):
    x, y = s.get_top_coordinates()
    return float(x), float(y)


def values(c, rel):
    """FOS of circles given relative to the crest, by index"""
    s, m = build(c)
    x, y = crest(s)
    k = c["scale"]
    at = {}
    for i, (dx, dy, r) in enumerate(rel):
        q = (x + dx * k, y + dy * k, r * k)
        if q[0] <= 0 or q[1] <= 0:
            continue
        s.add_single_circular_plane(*q)
        at[q] = i
    s.analyse_slope()
    out = {}
    for p in planes_of(s):
        i = min(at.items(), key=lambda t: sum(abs(a - b) for a, b in zip(t[0], p[:3])))[1]
        if i in out:
            raise Violation(f"circle {p[:3]} is reported twice")
        out[i] = (p[3], p[4][0] - x, p[5][0] - x, p[:3])
    return out, m


class C21:
    ID = "C21"
    EXPLAIN = (
        "all sequences of re-descriptions (sublayers, deeper or shallower "
        "last layer, split, superposed and zero loads, signs, orders of "
        "objects and calls, face by angle or length, larger sections, scaled "
        "stresses, scaled lengths) of all combinations of face, strata, loads "
        "and water: every circle's factor of safety and end points must "
        "come out the same, whole searches report the same planes, and "
        "strengthened ground never gives a lower value"
    )
    ASSUMES = [
        "planes for which a decision of the method lies within rounding "
        "(load exactly on a slice border, tangent circles, vanishing driving "
        "moment, negative m_alpha) are left out, as judged by mc/ref.py",
    ]

    def run(self, case, ctx):
        base = conf0(case["shape"], case["mats"], case["loads"], case["water"])
        ctx.state(case)
        if case.get("search"):
            return self.search(case, base, ctx)
        h, a, ln = case["shape"]
        m0 = Model(h, a, ln)
        m0.update_boundary_options(10, 6)
        g = m0.g
        # circles that lie well inside of every section
        cs = chord_circles(g, [0.03, 0.11, 0.27, 0.52], [0.02, 0.21, -0.7, -0.31],
                           [0.03, 0.12, 0.3, 0.47])
        cs = [(x - g.top[0], y - g.top[1], r) for x, y, r in cs if y - r > 0.05]
        ref, mb = values(base, cs)
        ctx.step(len(cs))
        amb = {}

        def sure(model, q):
            margin = model.g.hits_margin(*q)
            kind, val = model.bishop(*q, ties=(ties := []))
            return kind, margin > 1e-6 and (not ties or min(ties) > 1e-7)

        x, y = mb.g.top
        for i, (dx, dy, r) in enumerate(cs):
            amb[i] = sure(mb, (x + dx, y + dy, r))
        for names in case["chains"]:
            c = applied(base, names)
            if c is None:
                continue
            got, m = values(c, cs)
            ctx.step(len(cs))
            ctx.state(case, names)
            k = c["scale"]
            up = any(n in STRONGER for n in names)
            x, y = m.g.top
            n_cmp = 0
            for i, (dx, dy, r) in enumerate(cs):
                kind, ok = amb[i]
                if not ok or kind == "odd":
                    continue
                kind2, ok2 = sure(m, (x + dx * k, y + dy * k, r * k))
                if not ok2 or kind2 == "odd":
                    continue
                p, q = ref.get(i), got.get(i)
                who = f"circle {cs[i]} (relative to the crest), {names} of {base}"
                if (p is None) != (q is None):
                    raise Violation(f"{who}: {p} becomes {q}")
                if p is None:
                    continue
                ctx.validated += 1
                n_cmp += 1
                if not (close(p[1] * k, q[1], rel=1e-6, abs_=1e-6 * k)
                        and close(p[2] * k, q[2], rel=1e-6, abs_=1e-6 * k)):
                    raise Violation(f"{who}: ends {p[1:3]} become {q[1:3]}")
                if up:
                    if q[0] < c["fos"] * p[0] * (1 - 1e-7) - 1e-9:
                        raise Violation(f"{who}: FOS {p[0]} of weaker ground becomes {q[0]}")
                elif not close(p[0] * c["fos"], q[0], rel=1e-6, abs_=1e-8):
                    raise Violation(f"{who}: FOS {p[0]} (times {c['fos']}) becomes {q[0]}")
            ctx.outcome(*names, "compared" if n_cmp else "nothing to compare")

    def search(self, case, base, ctx):
        def planes(c):
            s, m = build(c)
            s.update_analysis_options(iterations=500, slices=10)
            s.analyse_slope()
            x, y = crest(s)
            return m, sorted(
                ((round(p[2], 6), p[4][0] - x, p[5][0] - x, p[3]) for p in planes_of(s))), planes_of(s)

        m, ref, raw = planes(base)
        for names in case["chains"]:
            c = applied(base, names)
            if c is None:
                continue
            m2, got, raw2 = planes(c)
            ctx.step(len(got))
            ctx.state(case, names)
            b_f = c["fos"]
            up = any(n in STRONGER for n in names)
            # the minimum over the planes
            a, b = b_f * min(p[3] for p in ref), min(p[3] for p in got)
            if up:
                if b < a * (1 - 1e-6) - 1e-9 and not self.odd(m2, raw2[0]):
                    raise Violation(f"minimum FOS {a} of weaker ground becomes {b}: {names} {base}")
                continue
            lo, hi = (raw[0], m) if a < b else (raw2[0], m2)
            if not close(a, b, rel=1e-6, abs_=1e-8) and not self.odd(hi, lo):
                raise Violation(f"minimum FOS {a} becomes {b}: {names} {base}")
            ctx.validated += 1
            if abs(len(ref) - len(got)) > 0.02 * len(ref):
                raise Violation(f"{len(ref)} planes become {len(got)}: {names} {base}")
            ctx.outcome("search", *names)

    def odd(self, m, p):
        kind, _ = m.bishop(*p[:3], ends=(p[4][0], p[5][0]), ties=(ties := []))
        return kind != "fos" or (ties and min(ties) < 1e-6)

    def explore(self, ex, tier):
        deep = tier == "thorough"
        singles = [[f.__name__] for f in SAME] + [[n] for n in STRONGER]
        pairs = [[f.__name__, g.__name__] for f, g in itertools.permutations(SAME, 2)]
        pairs += [[f.__name__, n] for f in SAME for n in STRONGER]
        cases, i = [], 0
        for sh, mt, ld, w in itertools.product(SHAPES, range(len(MATS)), range(len(LOADS)), WATER):
            i += 1
            base = dict(shape=list(sh), mats=mt, loads=ld, water=w)
            if deep or i % 2:
                cases.append(dict(base, chains=singles))
            if deep:
                for k in range(0, len(pairs), 40):
                    cases.append(dict(base, chains=pairs[k:k + 40]))
            elif i % 5 == 0:
                cases.append(dict(base, chains=pairs[i % 29::29]))
        ex.product(cases, "face x strata x loads x water x sequences of re-descriptions")
        chains = [[n] for n in GRID] + [[n] for n in STRONGER]
        cases = []
        for i, (sh, mt, ld, w) in enumerate(itertools.product(
                SHAPES, range(len(MATS)), range(len(LOADS)), WATER)):
            if deep or i % 8 == 3:
                cases.append(dict(shape=list(sh), mats=mt, loads=ld, water=w, search=True,
                                  chains=chains if deep else chains[i % 3::3]))
        ex.product(cases, "the same with full searches")


CHECK = C21()
