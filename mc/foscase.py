"""One configuration: a slope, and many circles analysed in one go."""
from .engine import Violation
from .impl import LineLoad, Material, Slope, Udl, circle_through, planes_of
from .ref import Model, RLineLoad, RMaterial, RUdl
from .world import compare_fos, expected_fos


def build(conf):
    """conf: shape (h, angle, length), mats [(uw,phi,c,depth)], udls
    [(mag,offset,len)], lls [(mag,offset)], water depth, wo (auto,H), slices"""
    h, a, ln = conf["shape"]
    s, m = Slope(h, a, ln), Model(h, a, ln)
    mats = conf.get("mats") or [(20, 35, 2, 5)]
    s.set_materials(*[Material(*q) for q in mats])
    m.set_materials(*[RMaterial(*q) for q in mats])
    for q in conf.get("udls") or ():
        s.set_udls(Udl(*q))
        m.set_udls(RUdl(*q))
    for q in conf.get("lls") or ():
        s.set_lls(LineLoad(*q))
        m.set_lls(RLineLoad(*q))
    if conf.get("water") is not None:
        s.set_water_table(conf["water"])
        m.set_water_table(conf["water"])
    if conf.get("wo"):
        s.update_water_analysis_options(*conf["wo"])
        m.update_water_analysis_options(*conf["wo"])
    kw = dict(slices=conf.get("slices", 25), tolerance=1e-11, max_iterations=400)
    s.update_analysis_options(**kw)
    m.update_analysis_options(**kw)
    return s, m


def chord_circles(g, entries, exits, sags):
    out = []
    for a in entries:
        x1 = g.top[0] * (1 - a)
        for b in exits:
            if b >= 0:
                x2 = g.bot[0] + (g.tot_l - g.bot[0]) * b
            else:
                x2 = g.top[0] - b * g.l
            y2 = g.ysurf(x2)
            if y2 >= g.top[1] - 1e-9:
                continue
            for sg in sags:
                c = circle_through((x1, g.top[1]), (x2, y2), sg)
                if c[0] > 0 and c[1] > 0:
                    out.append(c)
    return out


def grid_circles(g, nx, ny, nr):
    """circles all over the section, including ones that miss the ground,
    cut it once, cut it in the wrong direction or four times"""
    out = []
    for i in range(nx):
        cx = g.tot_l * (0.031 + i) / nx
        for j in range(ny):
            cy = g.tot_h * (0.047 + j * 1.9 / ny)
            for k in range(nr):
                r = 0.9 * max(g.h, 0.15 * g.tot_h) * (0.3 + 3.1 * k / nr) + 0.0137 * i
                if cx > 0 and cy > 0:
                    out.append((cx, cy, r))
    return out


def bulge_circles(g):
    """circles around a point in the ground that come out of the face only a
    little, and leave the section at its far end or cut the crest twice"""
    out = []
    for a in (0.02, 0.2, 0.45, 0.8):
        for b in (0.06, 0.3, 0.5, 0.75, 0.94):
            cx, cy = g.top[0] * a, g.bot[1] + g.h * b
            face = g.bot[0] - g.l * b
            for e in (0.004, 0.02, 0.1, 0.4):
                out.append((cx, cy, face - cx + e * min(g.h, 1)))
    return out


def analyse(s, circles):
    s.remove_individual_planes()
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    got = {}
    for p in planes_of(s):
        if p[:3] in got:
            raise Violation(f"circle {p[:3]} is reported twice")
        got[p[:3]] = p
    return got


def judge(ctx, s, m, circles):
    """analyse all circles on the real slope, compare each with Bishop"""
    circles = list(dict.fromkeys(circles))
    if not any(len(m.g.hits(*c)) >= 2 for c in circles):
        return {}
    got = analyse(s, circles)
    ctx.step(len(circles))
    for c in circles:
        compare_fos(ctx, m, c, got.get(c))
    extra = set(got) - set(circles)
    if extra:
        raise Violation(f"reported planes that were not given: {sorted(extra)[:3]}")
    return got
