import itertools

from mc.engine import Violation, digest
from mc.impl import Slope, close
from mc.ref import Model, Rejected
from mc.world import World

HEIGHTS = [0.01, 0.3, 1, 1.2, 2, 2.0, 5, 7.3, 30, 250]
FACES = [
    (1, None), (5, None), (17.5, None), (30, None), (45, None), (60, None),
    (89, None), (89.999, None), (90, None), (90.0, None),
    (None, 0), (None, 0.0005), (None, 0.4), (None, 1), (None, 3.7),
    (None, 12), (None, 55.5), (30, 2), (90, 0.75), (1, 0), (45, 40.0),
]
MINS = [
    (None, None), (3, None), (None, 2), (40, 25), (8.25, 13.5), (1000, 0.5),
    (0.1, 0.1), (0.1, 400),
]


def build(h, face, mins, route):
    """the same request along different routes"""
    a, ln = face
    e, hh = mins
    kw = dict(height=h, angle=a, length=ln)
    if route == 0:
        s = Slope(**kw)
        if mins != (None, None):
            s.update_boundary_options(MIN_EXT_L=e, MIN_EXT_H=hh)
    elif route == 1:
        s = Slope(height=3, angle=25)
        s.update_boundary_options(MIN_EXT_L=e)
        s.set_external_boundary(**kw)
        s.update_boundary_options(MIN_EXT_H=hh)
    elif route == 2:
        s = Slope(height=0.5, angle=None, length=9)
        s.update_boundary_options(e, hh)
        s.set_external_boundary(h, a, ln)
    else:
        s = Slope(h, a, ln)
        s.update_boundary_options(MIN_EXT_L=60, MIN_EXT_H=31)
        s.update_boundary_options(MIN_EXT_L=e or 10, MIN_EXT_H=hh or 6)
        s.set_external_boundary(h, a, ln)
    return s


def reference(h, face, mins):
    m = Model(h, *face)
    if mins[0]:
        m.min_l = mins[0]
    if mins[1]:
        m.min_h = mins[1]
    return m


def check_ground(ctx, s, g, what):
    def req(cond, *msg):
        ctx.validated += 1
        if not cond:
            raise Violation(" ".join(map(str, (what,) + msg)))

    scale = max(g.tot_l, g.tot_h)
    eps = 1e-9 * scale

    def near(p, q):
        return abs(p - q) <= eps

    top, bot = s.get_top_coordinates(), s.get_bottom_coordinates()
    req(near(top[0], g.top[0]) and near(top[1], g.top[1]), "crest", top, g.top)
    req(near(bot[0], g.bot[0]) and near(bot[1], g.bot[1]), "toe", bot, g.bot)
    req(near(top[1] - bot[1], g.h), "face height", top, bot, g.h)
    req(near(bot[0] - top[0], g.l), "face length", top, bot, g.l)
    L, H = s._external_length, s._external_height
    req(near(L, g.tot_l) and near(H, g.tot_h), "section", L, H, g.tot_l, g.tot_h)
    req(near(top[0], L - bot[0]), "face not centred")
    # elevation at x
    xs = [L * i / 16 for i in range(17)]
    xs += [top[0] + (bot[0] - top[0]) * i / 8 for i in range(9)]
    xs += [0, L, top[0], bot[0]]
    for x in xs:
        x = min(x, L)
        y = s.get_external_y_intersection(x)
        req(y is not None, "no surface at", x)
        # the face may be nearly vertical: allow for the rounding of x
        tol = eps + g.grad * 1e-12 * scale
        req(abs(y - g.ysurf(x)) <= tol, "surface at", x, "is", y, "not", g.ysurf(x))
    req(near(s.get_external_y_intersection(top[0]), top[1]), "at crest")
    req(near(s.get_external_y_intersection(bot[0]), bot[1]), "at toe")
    for x in (-1e-6, -1, -1e9, L + 1e-6, L + 5, 1e9):
        req(s.get_external_y_intersection(x) is None, "surface outside at", x)
    # x at elevation
    for i in range(1, 16):
        y = bot[1] + (top[1] - bot[1]) * i / 16
        x = s.get_external_x_intersection(y)
        req(x is not None and near(x, g.top[0] + (g.top[1] - y) / g.grad),
            "face at elevation", y, "is", x)
        req(abs(s.get_external_y_intersection(x) - y) <= eps + g.grad * 1e-12 * scale,
            "face at elevation", y, "->", x, "-> not back")
    x = s.get_external_x_intersection(top[1])
    req(x is not None and near(x, top[0]), "crest elevation gives", x)
    x = s.get_external_x_intersection(bot[1])
    req(x is not None and near(x, bot[0]), "toe elevation gives", x)
    for f in (0, 0.3, 0.999):
        y = bot[1] * f
        x = s.get_external_x_intersection(y)
        req(x is not None and near(x, L), "below the toe at", y, "gives", x)
    for y in (top[1] + 1e-6, top[1] + 3, 1e9):
        req(s.get_external_x_intersection(y) is None, "above the crest at", y)


HOPS = [
    ("B", 2, None, 3), ("B", 1, 60, None), ("B", 0.8, None, 4.2),
    ("B", 1.2, 90, None), ("B", 5, None, 0), ("B", 2, 33, 1.5),
    ("E", 14, None), ("E", None, 9), ("E", 30, 20), ("E", 2, 1),
    ("E", None, None), ("E", 11.5, 4), ("E", 6, 30), ("B", 9, 12, None),
    # what stands on or in the ground (K and X ask for a longer section)
    ("M+", "A", "C"), ("M+", "B"), ("M@", 7.5), ("U+", "X"), ("L+", "K"), ("U0",), ("W", 5),
    ("X", {"left_x": 1}), ("PF", 0.31, 0.21, 0.22),
]


class C01:
    ID = "C01"
    EXPLAIN = (
        "all combinations of heights, faces (angle/length/both) and minimum "
        "section sizes, each reached along four routes of calls, plus all "
        "sequences of boundary calls up to the depth; the ground profile and "
        "its queries on the real Slope are compared with the reference "
        "geometry at breakpoints, ends, outside points and a grid"
    )
    ASSUMES = ["sizes between 1 cm and 250 m, angles between 1 and 90 degrees"]

    def run(self, case, ctx):
        if "ops" in case:
            w = World(*[{k: v for k, v in case["start"].items()}])
            for op in case["ops"]:
                w.do(tuple(op))
                ctx.step()
                check_ground(ctx, w.slopes[0], w.models[0].g, str(op))
            key = digest(w.key())
            ctx.state(key)
            check_ground(ctx, w.slopes[0], w.models[0].g, "start")
            ctx.outcome("histories")
            return key
        h, face, mins, route = case["h"], case["face"], case["mins"], case["route"]
        m = reference(h, face, mins)
        s = build(h, face, tuple(mins), route)
        ctx.step(3)
        ctx.state(h, tuple(face), tuple(mins), route)
        check_ground(ctx, s, m.g, f"h={h} face={face} minima={mins}")
        g = m.g
        ctx.outcome(
            "size set by",
            ("length", "minimum", "height")[
                [5 * g.l, m.min_l, 4 * g.h].index(g.tot_l)],
            ("height", "minimum", "length")[
                [3 * g.h, m.min_h, 5 * g.l / 2].index(g.tot_h)],
        )
        # textual form shows the same slope
        r = repr(s)
        v, hh = r.replace("Slope:", "").split(":")
        ctx.require(
            close(float(v.strip().rstrip("V")), g.h, abs_=6e-4)
            and close(float(hh.strip().rstrip("H")), g.l, abs_=6e-4),
            "representation", r, "for", g.h, g.l)

    def explore(self, ex, tier):
        hs, fs, ms = HEIGHTS, FACES, MINS
        if tier == "thorough":
            hs = hs + [0.05, 0.77, 3.14159, 11, 64, 99.9]
            fs = fs + [(a, None) for a in range(3, 90, 3)] + [
                (None, v / 7) for v in range(1, 60, 3)]
            ms = ms + [(a, b) for a in (5, 12, 77.7) for b in (4, 15, 60.6)]
        cases = [
            dict(h=h, face=list(f), mins=list(mm), route=r)
            for h, f, mm, r in itertools.product(hs, fs, ms, range(4))
            if not (f[0] is None and f[1] is None)
        ]
        ex.product(cases, "height x face x minima x route")
        start = dict(height=1, angle=45)
        ex.bfs(HOPS, 4 if tier == "thorough" else 3, "boundary call sequences",
               make=lambda h: {"start": start, "ops": list(h)})


CHECK = C01()
