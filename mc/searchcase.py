"""Whole searches: what may be reported (C10) and what must be (C11)."""
from bisect import bisect_left
from math import ceil, hypot, sqrt

from .engine import Violation
from .foscase import build
from .impl import close
from .ref import chord_family


def make(conf):
    """conf: as foscase.build plus ext (min length, min height), limits given
    as fractions of the entry / exit range, iterations, min_dist (fraction
    of the face length + height)"""
    s, m = build(conf)
    if conf.get("ext"):
        s.update_boundary_options(*conf["ext"])
        m.update_boundary_options(*conf["ext"])
    lim = conf.get("limits")
    if lim:
        g, kw = m.g, {}
        for k, v in lim.items():
            if k in ("left_x", "left_x_right"):
                kw[k] = g.top[0] * v
            else:
                kw[k] = g.top[0] + (g.tot_l - g.top[0]) * v
        s.set_analysis_limits(**kw)
        m.set_analysis_limits(**kw)
    kw = dict(iterations=conf.get("iterations", 500))
    if conf.get("min_dist") is not None:
        kw["min_failure_dist"] = conf["min_dist"] * hypot(m.height, m.length)
    s.update_analysis_options(**kw)
    m.update_analysis_options(**kw)
    return s, m


# ------------------------------------------------------------------- allowed
def check_allowed(ctx, m, planes, fos=True):
    """every reported plane is one that was allowed, with its own values"""
    g = m.g
    x1, x2, x3, x4 = m.limits
    e = 2e-6
    for cx, cy, r, f, lc, rc in planes:
        who = f"plane ({cx}, {cy}, {r})"
        for p, what in ((lc, "entry"), (rc, "exit")):
            if abs(hypot(p[0] - cx, p[1] - cy) - r) > 1e-6 * max(1, r):
                raise Violation(f"{what} {p} of {who} is not on its circle")
            if not -e <= p[0] <= g.tot_l + e or abs(g.ysurf(p[0]) - p[1]) > \
                    1e-6 * max(1, g.grad):
                raise Violation(f"{what} {p} of {who} is not on the ground")
        if not x1 - e <= lc[0] <= x2 + e:
            raise Violation(f"entry {lc} of {who} is outside of {x1}..{x2}")
        if not x3 - e <= rc[0] <= x4 + e:
            raise Violation(f"exit {rc} of {who} is outside of {x3}..{x4}")
        d = hypot(lc[0] - rc[0], lc[1] - rc[1])
        if d <= m.min_dist - 1e-7:
            raise Violation(f"{who} is {d} wide, minimum is {m.min_dist}")
        hits = g.hits(cx, cy, r)
        margin = g.hits_margin(cx, cy, r)
        if margin > 1e-6:
            if len(hits) < 2 or abs(hits[0][0] - lc[0]) > e or abs(hits[1][0] - rc[0]) > e:
                raise Violation(
                    f"{who} runs from {lc} to {rc}, but meets the ground at {hits}")
        else:
            inner = [h for h in hits if lc[0] + 0.011 < h[0] < rc[0] - 0.011]
            if inner and margin < 1e-9 and len(hits) > 2:
                inner = []
            if inner:
                raise Violation(f"{who} runs from {lc} to {rc}, crossing at {inner}")
        ctx.validated += 1
        if not fos:
            continue
        kind, val = m.bishop(cx, cy, r, ends=(lc[0], rc[0]), ties=(ties := []))
        if kind == "odd" or (ties and min(ties) < 1e-7):
            ctx.outcome("undecided FOS")
        elif kind == "none" or not close(val, f, rel=3e-7, abs_=3e-7):
            raise Violation(f"{who} is reported with FOS {f}, Bishop: {kind} {val}")
        else:
            ctx.outcome("FOS", "<1" if f < 1 else "<2" if f < 2 else "<5" if f < 5 else ">5")


# ------------------------------------------------------------------ complete
def counts(iterations):
    nc = max(5, int(iterations / 800))
    nt = int(sqrt(iterations / nc))
    nb = max(nt, ceil(iterations / (nt * nc)))
    return nt, nb, nc


def requested(m, nt, nb, nc):
    g = m.g
    x1, x2, x3, x4 = m.limits
    k = max(2, nt - len(m.udls) - len(m.lls))
    ent = [x1 + (x2 - x1) * i / (k - 1) for i in range(k)]
    ent += [m.ll_x(p) - 0.001 for p in m.lls]
    ent += [m.udl_span(u)[0] - 0.001 for u in m.udls]
    exi = [x3 + (x4 - x3) * i / nb for i in range(1, nb + 1)]
    out = []
    for a in ent:
        for b in exi:
            p, q = (a, g.top[1]), (b, g.ysurf(b))
            if b - a <= 1e-9:
                continue
            d = hypot(p[0] - q[0], p[1] - q[1])
            if abs(d - m.min_dist) < 1e-6:
                out += [(c, True) for c in chord_family(p, q, nc)]
            elif d > m.min_dist:
                out += [(c, False) for c in chord_family(p, q, nc)]
    return out


def status(m, c, near):
    """must / mustnot / may be reported"""
    g = m.g
    if c[0] <= 0 or c[1] <= 0:
        return "may"
    hits = g.hits(*c)
    tie = near or g.hits_margin(*c) < 1e-6
    if len(hits) < 2:
        return "may" if tie else "mustnot"
    x1, x2, x3, x4 = m.limits
    l, r = hits[0], hits[1]
    e = 3e-6
    slack = min(l[0] - x1, x2 - l[0], r[0] - x3, x4 - r[0])
    d = hypot(l[0] - r[0], l[1] - r[1])
    if slack < -e or d < m.min_dist - 1e-6:
        return "may" if tie else "mustnot"
    if slack < -1e-7:
        tie = True
    if d < m.min_dist + 1e-6 and m.min_dist > 0:
        tie = True
    kind, val = m.bishop(*c, ties=(ties := []))
    if kind == "odd" or (ties and min(ties) < 1e-7) or tie:
        return "may"
    if kind == "none":
        return "mustnot"
    # planes through requested points lie exactly on the limits: the library
    # allows for 1e-6, anything beyond is decided
    return "must"


def match(m, planes, nt, nb, nc, quick=False):
    """None when the reported planes are exactly the requested allowed ones"""
    req = requested(m, nt, nb, nc)
    rows = sorted((p[2], p[0], p[1]) for p in planes)
    rad = [x[0] for x in rows]
    used = [0] * len(rows)
    want = [0] * len(rows)
    bad = None
    n_must = 0
    for c, near in req:
        t = 1e-7 * max(1, c[2])
        i = bisect_left(rad, c[2] - t)
        hit = []
        while i < len(rows) and rad[i] <= c[2] + t:
            if abs(rows[i][1] - c[0]) < 2e-7 * max(1, c[2]) and abs(rows[i][2] - c[1]) < 2e-7 * max(1, c[2]):
                hit.append(i)
            i += 1
        st = status(m, c, near)
        n_must += st == "must"
        if hit and st == "mustnot":
            bad = bad or f"circle {c} is reported but not an allowed failure"
        if not hit and st == "must":
            bad = bad or f"circle {c} should be reported, and is not"
        if bad and quick:
            return bad, 0
        for i in hit:
            used[i] += 1
            want[i] = len(hit)
    if bad:
        return bad, n_must
    for i, u in enumerate(used):
        if not u:
            return f"circle {rows[i]} (r, x, y) is reported but not on the grid", n_must
        if want[i] > u:
            return f"circle {rows[i]} (r, x, y) is reported {want[i]} times", n_must
    return None, n_must


def check_complete(ctx, m, planes):
    nt, nb, nc = counts(m.iterations)
    first, n = match(m, planes, nt, nb, nc)
    ctx.validated += n
    if first is None:
        ctx.outcome("complete grid", f"{nt}x{nb}x{nc}")
        return
    # another evenly spaced grid of about as many planes is as good
    for dc in (0, 1):
        for dt in range(-2, 3):
            for db in range(-3, 4):
                a, b, c = nt + dt, nb + db, nc + dc
                if (dt, db, dc) == (0, 0, 0) or a < 2 or b < 1:
                    continue
                if not 0.97 * m.iterations <= a * b * c <= 1.2 * m.iterations:
                    continue
                bad, _ = match(m, planes, a, b, c, True)
                if bad is None:
                    ctx.outcome("other complete grid")
                    return
    raise Violation(first + f" (limits {m.limits}, minimum distance {m.min_dist}, "
                    f"{m.iterations} iterations, {len(planes)} planes reported)")


def check_order(ctx, s, planes):
    for p, q in zip(planes, planes[1:]):
        if p[3] > q[3]:
            raise Violation(f"planes not in ascending order: {p[3]} before {q[3]}")
    if not planes:
        for f in (s.get_min_FOS, s.get_min_FOS_circle, s.get_min_FOS_end_points):
            try:
                v = f()
            except Exception:
                continue
            raise Violation(f"no plane is reported but {f.__name__} gives {v}")
        return
    a = planes[0]
    if not close(s.get_min_FOS(), a[3], rel=1e-12):
        raise Violation(f"minimum FOS {s.get_min_FOS()}, first plane {a}")
    if tuple(s.get_min_FOS_circle()) != a[:3]:
        raise Violation(f"minimum circle {s.get_min_FOS_circle()}, first plane {a}")
    e = s.get_min_FOS_end_points()
    if tuple(map(tuple, e)) != a[4:6]:
        raise Violation(f"minimum end points {e}, first plane {a}")
    ctx.validated += 1
