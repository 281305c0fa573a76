"""Reading figures back and comparing them with the reference model."""
import json
import os
import re
from math import atan2, hypot, radians, sqrt

from .engine import Violation
from .impl import close

class NS:
    """attribute access to the plain dict form of a figure (much faster than
    plotly's own objects); missing attributes are None"""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getattr__(self, k):
        return wrap(self.d.get(k), k)


def wrap(v, k=None):
    if isinstance(v, dict):
        if "bdata" in v:
            import base64

            import numpy as np

            return [float(q) for q in np.frombuffer(
                base64.b64decode(v["bdata"]), dtype=v["dtype"])]
        return NS(v)
    if isinstance(v, (list, tuple)) and v and isinstance(v[0], dict):
        return [NS(q) for q in v]
    if v is None and k in ("line", "font", "layout", "marker"):
        return NS({})
    if v is None and k in ("annotations", "shapes", "data"):
        return []
    return v


def plain(fig):
    return fig if isinstance(fig, NS) else NS(fig.to_dict())


NUM = r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?"


def xy(t):
    return [(float(a), float(b)) for a, b in zip(t.x, t.y)]


def shoelace(p):
    s = 0.0
    for (x1, y1), (x2, y2) in zip(p, p[1:] + p[:1]):
        s += x1 * y2 - x2 * y1
    return abs(s) / 2


def inside(p, x, y):
    c = False
    for (x1, y1), (x2, y2) in zip(p, p[1:] + p[:1]):
        if (y1 > y) != (y2 > y) and x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
            c = not c
    return c


def under(g, level):
    """area of ground below an elevation"""
    level = min(level, g.top[1])
    if level <= 0:
        return 0.0
    if level <= g.bot[1]:
        return level * g.tot_l
    xw = g.top[0] + (g.top[1] - level) / g.grad
    return (
        xw * level
        + (g.bot[0] - xw) * (level + g.bot[1]) / 2
        + (g.tot_l - g.bot[0]) * g.bot[1]
    )


def areas(fig):
    return [t for t in fig.data if t.fill == "toself"]


def annotations(fig, text):
    return [a for a in fig.layout.annotations if a.text == text]


def check_section(ctx, fig, m, lost=False):
    """fig must show the section of reference model m.  lost: loads may
    have been pushed outside of the section (not compared)"""
    fig = plain(fig)
    g = m.g
    eps = 1e-6 * max(g.tot_l, g.tot_h)

    def req(cond, *msg):
        ctx.validated += 1
        if not cond:
            raise Violation("section plot: " + " ".join(map(str, msg)) + f" {m.content()}")

    def near(p, q):
        return abs(p[0] - q[0]) <= eps and abs(p[1] - q[1]) <= eps

    # outline
    pts = xy(fig.data[0])
    want = g.outline()
    req(len(pts) >= len(want) and all(any(near(p, q) for p in pts) for q in want)
        and abs(shoelace(pts) - under(g, g.top[1])) <= eps * g.tot_l,
        "outline", pts, "expected", want)
    polys = areas(fig)
    req(len(polys) == len(m.mats), len(polys), "areas for", len(m.mats), "materials")
    if not m.mats:
        return
    # layers
    levels = m.levels()
    top = g.top[1]
    rings = [xy(t) for t in polys]
    for i, (mat, t, ring) in enumerate(zip(m.mats, polys, rings)):
        low = levels[i] if i < len(m.mats) - 1 else 0.0
        area = max(0.0, under(g, top) - under(g, low))
        req(abs(shoelace(ring) - area) <= eps * max(g.tot_l, g.tot_h),
            "material", i, mat.key(), "covers", shoelace(ring), "expected", area, ring)
        ys = [p[1] for p in ring]
        req(max(ys) <= min(top, g.top[1]) + eps and min(ys) >= low - eps,
            "material", i, "spans", (min(ys), max(ys)), "expected", (low, top))
        top = low
        for lab, v in (("γ", mat.uw), ("c", mat.c), ("ϕ", mat.phi)):
            f = re.search(lab + r":\s*(" + NUM + ")", t.name or "")
            req(f and close(float(f.group(1)), v), "material", i, "label", t.name,
                "expected", lab, v)
        req((t.name or "").startswith(mat.name), "material name", t.name, mat.name)
        if mat.color:
            req(t.fillcolor == mat.color, "colour", t.fillcolor, mat.color)
        req(bool(t.fillcolor), "no colour")
    # every grid point of the ground is in exactly its own layer
    for ix in range(1, 12):
        x = g.tot_l * (ix + 0.013) / 12
        ys = g.ysurf(x)
        for iy in range(1, 10):
            y = ys * (iy + 0.017) / 10
            if min([abs(y - lv) for lv in levels] + [abs(y - ys), y]) < eps:
                continue
            owner = m.mats.index(m.material_at(y, levels))
            hit = [i for i, r in enumerate(rings) if inside(r, x, y)]
            req(hit == [owner], "point", (x, y), "is drawn in", hit, "expected", owner)
        y = ys + (g.top[1] - ys) * 0.4 + 0.01
        req(not any(inside(r, x, y) for r in rings), "ground drawn in the air at", (x, y))
    # loads
    if not lost:
        rects = [
            s for s in fig.layout.shapes
            if s.type == "rect" and s.xref == "x" and s.x0 is not None
        ]
        spans = sorted((float(s.x0), float(s.x1)) for s in rects)
        wants = sorted(m.udl_span(u) for u in m.udls)
        req(len(spans) == len(wants) and all(near(a, b) for a, b in zip(spans, wants)),
            "udl areas", spans, "expected", wants)
        texts = []
        for a in fig.layout.annotations:
            f = re.fullmatch(rf"({NUM}) (kPa|kN/m)", str(a.text))
            if f:
                texts.append((f.group(2), float(a.x), f.group(1), float(a.y)))
        for unit, items in (
            ("kPa", [(sum(m.udl_span(u)) / 2, u.mag) for u in m.udls]),
            ("kN/m", [(m.ll_x(p), p.mag) for p in m.lls]),
        ):
            have = sorted(t[1:] for t in texts if t[0] == unit)
            req(len(have) == len(items), unit, "labels", have, "expected", items)
            left = list(have)
            for x, mag in items:
                for t in left:
                    dec = len(t[1].split(".")[1]) if "." in t[1] else 0
                    if (abs(t[0] - x) <= eps and abs(t[2] - g.top[1]) <= eps
                            and abs(float(t[1]) - mag) <= 0.5000001 * 10 ** -dec
                            and abs(float(t[1]) - mag) <= 1e-3 * mag):
                        left.remove(t)
                        break
                else:
                    req(False, "load", mag, unit, "at", x, "is not shown, labels:", have)
        # arrows of the line loads
        xs = {round(float(s.xanchor), 6) for s in fig.layout.shapes
              if s.type == "line" and s.xanchor is not None}
        for p in m.lls:
            req(any(abs(x - m.ll_x(p)) <= 2e-6 + eps for x in xs), "no arrow at", m.ll_x(p))
    # water
    lines = [t for t in fig.data if t.line.color == "blue" and t.line.width == 4]
    wl = m.water_level()
    marks = annotations(fig, "▼")
    if wl is None:
        req(not lines and not marks, "water table drawn but there is none")
    else:
        req(len(lines) == 1 and len(marks) == 1, "water table drawn", len(lines), "times")
        p = xy(lines[0])
        req(abs(marks[0].y - wl) <= eps, "water marker at", marks[0].y, "expected", wl)
        xw = g.tot_l if wl < g.bot[1] else g.top[0] + (g.top[1] - wl) / g.grad
        req(near(p[0], (0, wl)) and near(p[1], (xw, wl)), "water line", p, "expected", wl, xw)
        if wl > g.bot[1] + eps:
            req(near(p[2], g.bot) and near(p[-1], (g.tot_l, g.bot[1])),
                "water line does not follow the ground", p)
        else:
            # level all the way
            req(all(abs(q[1] - wl) <= eps for q in p) and abs(p[-1][0] - g.tot_l) <= eps,
                "water line", p)
    # limits
    check_limits(req, fig, m, eps)


def canonical(fig, colours=True):
    """everything drawn, as a sorted list of items with rounded numbers.
    colours False: without the colours of materials (chosen automatically)"""

    def norm(v):
        if isinstance(v, NS):
            v = v.d
        v = v if isinstance(v, (int, float, str, bool)) or v is None else wrap(v)
        if isinstance(v, NS):
            return {k: norm(q) for k, q in sorted(v.d.items())}
        if isinstance(v, (list, tuple)):
            return [norm(q) for q in v]
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        try:
            return round(float(v), 5) + 0.0
        except (TypeError, ValueError):
            return str(v)

    d = fig.to_dict()
    out = []
    for kind, items in (("trace", d.get("data", ())),
                        ("shape", d["layout"].get("shapes", ())),
                        ("note", d["layout"].get("annotations", ()))):
        for it in items:
            it = dict(it)
            if not colours and (
                    it.get("fill") == "toself" or it.get("xref") == "paper"):
                it.pop("fillcolor", None)
            out.append(json.dumps([kind, norm(it)], sort_keys=True))
    lay = {k: v for k, v in d["layout"].items()
           if k not in ("shapes", "annotations", "template")}
    out.append(json.dumps(["layout", norm(lay)], sort_keys=True))
    return sorted(out)


def same_figure(a, b, colours=True):
    """None when both show the same, else a description"""
    a, b = canonical(a, colours), canonical(b, colours)
    if a == b:
        return None
    x, y = list(a), list(b)
    for v in b:
        if v in x:
            x.remove(v)
    for v in a:
        if v in y:
            y.remove(v)
    return f"{x[:1]} instead of {y[:1]}"[:700]


def check_limits(req, fig, m, eps):
    g = m.g
    x1, x2, x3, x4 = m.limits
    op, cl = [x1], [x4]
    if abs(x2 - x3) > eps:
        op.append(x3)
        cl.append(x2)
    elif x2 != x3:
        op = cl = None  # too close to tell whether they are drawn
    for want, mark in ((op, "▶"), (cl, "◀")):
        if want is None:
            continue
        have = sorted((float(a.x), float(a.y)) for a in annotations(fig, mark))
        wants = sorted((x, g.ysurf(x)) for x in want)
        req(len(have) == len(wants) and all(
            abs(a[0] - b[0]) <= eps
            and abs(a[1] - b[1]) <= eps * (1 + g.grad)
            for a, b in zip(have, wants)),
            "limits", mark, have, "expected", wants)


def check_table(ctx, fig, m):
    """the material table lists the materials top down"""
    fig = plain(fig)
    an = list(fig.layout.annotations)
    heads = [a for a in an if str(a.text) == "<b>MATERIAL</b>"]
    if len(heads) != 1:
        raise Violation(f"{len(heads)} material tables")
    rows = {}
    for a in an:
        if a.xref == "x domain" and a.font.size == 13 and not str(a.text).startswith("<b>"):
            rows.setdefault(round(-float(a.y), 6), []).append((float(a.x), a.text))
    got = []
    for y in sorted(rows):
        got.append([t for _, t in sorted(rows[y], key=lambda v: v[0])])
    want = [[q.name, q.uw, q.c, q.phi] for q in m.mats]
    ctx.validated += 1

    def same(a, b):
        if isinstance(b, str):
            return (a or "") == b
        try:
            return close(float(a), b)
        except (TypeError, ValueError):
            return False

    if len(got) != len(want) or not all(
        len(r) == 4 and all(same(a, b) for a, b in zip(r, w))
        for r, w in zip(got, want)
    ):
        raise Violation(f"material table {got} instead of {want}")
    # colours of the table are those of the areas
    cols = [s.fillcolor for s in fig.layout.shapes
            if s.type == "rect" and s.xref == "paper" and s.fillcolor and s.fillcolor != "white"]
    fills = [t.fillcolor for t in areas(fig)]
    if fills and cols[:len(fills)] != fills:
        raise Violation(f"table colours {cols} instead of {fills}")
    # and stand in the row of their material
    cells = [s for s in fig.layout.shapes
             if s.type == "rect" and s.xref == "paper" and s.fillcolor and s.fillcolor != "white"]
    for y, cell in zip(sorted(rows), cells[:len(fills)]):
        if not min(cell.y0, cell.y1) - 1e-6 <= -y <= max(cell.y0, cell.y1) + 1e-6:
            raise Violation(f"colour at {cell.y0}..{cell.y1} is not in the row at {-y}")


# ------------------------------------------------------------- result plots
SCALE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fos_scale.json")))


def scale_colours(f, slack=1e-9):
    """colours the documented scale allows for a value (two when it lies on
    the border between two shades)"""
    f = max(0.0, f)
    out = set()
    for v in (f - slack, f, f + slack):
        out.add(SCALE[min(int(max(0.0, v) * 10 + 0.5), 50)])
    return out


def check_arc(req, pts, plane, tol):
    """points run along the plane's circle between its ends"""
    cx, cy, r, f, lc, rc = plane
    last = None
    pts = sorted(pts)
    for p in pts:
        req(abs(hypot(p[0] - cx, p[1] - cy) - r) <= tol, "point", p, "off the circle", plane)
        req(lc[0] - tol <= p[0] <= rc[0] + tol and p[1] <= max(lc[1], rc[1]) + tol,
            "point", p, "outside of", lc, rc)
        # angle from straight down
        ang = atan2(p[0] - cx, cy - p[1])
        # (an undercut entry above the centre is drawn as a straight line)
        if last is not None and max(lc[1], rc[1]) <= cy:
            req(abs(ang - last) * r < radians(10) * r + 3 * sqrt(2 * r * tol), "gap in the arc before", p, plane)
        last = ang


def check_critical(ctx, fig, planes):
    """the critical plane: arc, wedge to its centre, value and colour"""
    fig = plain(fig)
    p = planes[0]
    cx, cy, r, f, lc, rc = p
    tol = 2.6e-3

    def req(cond, *msg):
        ctx.validated += 1
        if not cond:
            raise Violation("critical plane plot: " + " ".join(map(str, msg)))

    texts = [t for t in fig.data if t.text]
    req(len(texts) == 1, len(texts), "annotated planes")
    t = texts[0]
    txt = t.text if isinstance(t.text, str) else t.text[0]
    req(re.fullmatch(r"\d+\.\d+", str(txt)) and abs(float(txt) - f) <= 0.00051,
        "annotated", txt, "instead of", f)
    q = xy(t)[0]
    req(abs(q[0] - cx) < 1e-3 and abs(q[1] - cy) < 1e-3, "annotation at", q, "centre", (cx, cy))
    cols = scale_colours(f, 0.00051)
    req(t.textfont and t.textfont.color in cols, "annotation colour", t.textfont.color, cols)
    mine = [
        t for t in fig.data if t.mode == "lines" and not t.fill and not t.meta and len(t.x) >= 3
        and any(abs(a - cx) < 1e-3 and abs(b - cy) < 1e-3 for a, b in xy(t))
    ]
    req(len(mine) == 1, "the plane is drawn", len(mine), "times")
    pts = xy(mine[0])
    req(mine[0].line.color in cols, "colour", mine[0].line.color, "of", f, cols)
    for e in (lc, rc):
        req(any(hypot(a - e[0], b - e[1]) < 1e-6 for a, b in pts), "end point", e, "missing", pts)
    arc = [a for a in pts if hypot(a[0] - cx, a[1] - cy) > 1.5e-3]
    check_arc(req, arc, p, tol)


def check_all_planes(ctx, fig, planes, max_fos):
    fig = plain(fig)

    def req(cond, *msg):
        ctx.validated += 1
        if not cond:
            raise Violation(f"plot of all planes below {max_fos}: " + " ".join(map(str, msg)))

    have = [t for t in fig.data if t.mode == "lines" and not t.fill and t.meta and len(t.meta) == 1]
    want = [p for p in planes if max_fos is None or p[3] < max_fos]
    req(len(have) == len(want), len(have), "planes drawn instead of", len(want))
    left = want[::-1]
    for t in have:
        pts = xy(t)

        def fits(p):
            return (hypot(pts[0][0] - p[4][0], pts[0][1] - p[4][1]) < 1e-6
                    and hypot(pts[-1][0] - p[5][0], pts[-1][1] - p[5][1]) < 1e-6
                    and abs(float(t.meta[0]) - p[3]) <= 0.00051
                    and all(abs(hypot(a - p[0], b - p[1]) - p[2]) < 1.1e-3 for a, b in pts))

        k = next((i for i, p in enumerate(left)
                  if abs(p[3] - left[0][3]) <= 1e-9 and fits(p)), None)
        req(k is not None, "next plane (most critical on top) should be", left[0],
            "drawn is", t.meta, pts[0], pts[-1])
        p = left.pop(k)
        req(t.line.color in scale_colours(p[3]), "colour", t.line.color, "of", p[3],
            scale_colours(p[3]))
        check_arc(req, pts, p, 1.1e-3)
    if have:
        # on top of the section
        first = min(i for i, t in enumerate(fig.data) if t.d is have[0].d)
        fills = [i for i, t in enumerate(fig.data) if t.fill == "toself"]
        req(not fills or first > max(fills), "planes are drawn below the ground")


def check_fos_legend(ctx, fig):
    """the legend shows the scale in ascending order"""
    fig = plain(fig)
    boxes = [s for s in fig.layout.shapes if s.type == "rect" and s.xref == "paper"
             and s.fillcolor in SCALE]
    boxes.sort(key=lambda s: -max(s.y0, s.y1))
    cols = []
    for s in boxes:
        if s.fillcolor not in cols:
            cols.append(s.fillcolor)
    ctx.validated += 1
    if cols != list(dict.fromkeys(SCALE)):
        raise Violation("legend does not show the colour scale from 0 to 5")
    # the numbers stand next to the colours they are about
    ys = sorted({round((s.y0 + s.y1) / 2, 9) for s in boxes}, reverse=True)
    step = (ys[0] - ys[-1]) / (len(ys) - 1)
    labels = [a for a in fig.layout.annotations if a.xref == "paper" and a.yref == "paper"
              and re.fullmatch(NUM, str(a.text))]
    have = sorted({float(a.text) for a in labels})
    if have[:1] != [0] or have[-1:] != [5]:
        raise Violation(f"numbers of the legend: {have}")
    for a in labels:
        at = (ys[0] - float(a.y)) / step / 10
        if abs(at - float(a.text)) > 0.35:
            raise Violation(f"{a.text} stands next to the colour of {at:.2f} in the legend")
    if any(not (-0.2 <= v <= 1.2) for s in boxes for v in (s.x0, s.x1, s.y0, s.y1)):
        raise Violation("legend is not on the page")
