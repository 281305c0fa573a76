"""Boring reference model of what a pySlope model *means*.

Written from the documentation (README, docs, docstrings, Bishop's simplified
method), in plain scalar Python: no numpy, no code shared with /repo.  Every
derived quantity is recomputed from the declared content each time it is
asked for, so the reference has no hidden state and cannot go stale.
"""
from math import atan, cos, hypot, isfinite, radians, sin, sqrt, tan

GAMMA_W = 9.81


class Rejected(Exception):
    """the specified outcome of the call is a ValueError and no other effect"""


# ---------------------------------------------------------------- validation
def _num(n):
    return isinstance(n, (int, float))


def need_number(n):
    if type(n) not in (int, float):
        raise Rejected("not a number")


def need_nonneg(n):
    if not _num(n) or n < 0:
        raise Rejected("negative or not a number")


def need_pos(n):
    if not _num(n) or n <= 0:
        raise Rejected("not strictly positive")


# ------------------------------------------------------------------- content
class RMaterial:
    def __init__(self, uw=20, phi=35, c=2, depth=5, name="", color=""):
        if not _num(uw) or uw < 1 or uw > 50:
            raise Rejected("unit weight")
        need_nonneg(phi)
        need_number(c)
        need_number(depth)
        self.uw, self.phi, self.c, self.depth = uw, phi, abs(c), abs(depth)
        self.name, self.color = name or "", color or ""

    def key(self):
        return (self.uw, self.phi, self.c, self.depth, self.name, self.color)


class RUdl:
    def __init__(self, mag=0, offset=0, length=None, color="red", dyn=False):
        need_number(mag)
        need_number(offset)
        if length:
            need_number(length)
            length = abs(length)
        else:
            length = None
        self.mag, self.offset, self.length = abs(mag), abs(offset), length
        self.color, self.dyn = color, dyn

    def key(self):
        return (self.mag, self.offset, self.length, self.dyn)


class RLineLoad:
    def __init__(self, mag=0, offset=0, color="blue", dyn=False):
        need_number(mag)
        need_number(offset)
        self.mag, self.offset = abs(mag), abs(offset)
        self.color, self.dyn = color, dyn

    def key(self):
        return (self.mag, self.offset, self.dyn)


# -------------------------------------------------------------------- ground
class Ground:
    """crest flat - face - toe flat, centred in the model box"""

    def __init__(self, height, length, min_h, min_l):
        length = max(length, 0.001)
        self.h, self.l = height, length
        self.tot_h = max(3 * height, min_h, 5 * length / 2)
        self.tot_l = max(5 * length, min_l, 4 * height)
        self.top = ((self.tot_l - length) / 2, self.tot_h)
        self.bot = ((self.tot_l - length) / 2 + length, self.tot_h - height)
        self.grad = height / length

    def y(self, x):
        if x < 0 or x > self.tot_l:
            return None
        return self.ysurf(x)

    def ysurf(self, x):
        if x <= self.top[0]:
            return self.top[1]
        if x >= self.bot[0]:
            return self.bot[1]
        return self.top[1] - (x - self.top[0]) * self.grad

    def outline(self):
        return [
            (0, 0), (0, self.tot_h), self.top, self.bot,
            (self.tot_l, self.bot[1]), (self.tot_l, 0), (0, 0),
        ]

    # all points where a circle meets the ground line, left to right; on the
    # crest flat only the circle's left branch counts, on the toe flat only
    # its right branch (failures run left to right); points closer than 0.01
    # m are one point.
    def hits(self, cx, cy, r):
        pts = []
        dy = self.top[1] - cy
        if abs(dy) <= r:
            x = cx - sqrt(r * r - dy * dy)
            if 0 <= x <= self.top[0]:
                pts.append((x, self.top[1]))
        dy = self.bot[1] - cy
        if abs(dy) <= r:
            x = cx + sqrt(r * r - dy * dy)
            if self.bot[0] <= x <= self.tot_l:
                pts.append((x, self.bot[1]))
        # face: P = top + t*(bot-top)
        ux, uy = self.l, -self.h
        fx, fy = self.top[0] - cx, self.top[1] - cy
        a = ux * ux + uy * uy
        b = 2 * (fx * ux + fy * uy)
        c = fx * fx + fy * fy - r * r
        disc = b * b - 4 * a * c
        if disc >= 0:
            for sg in (-1, 1):
                t = (-b + sg * sqrt(disc)) / (2 * a)
                x = self.top[0] + t * ux
                if self.top[0] <= x <= self.bot[0]:
                    pts.append((x, self.top[1] + t * uy))
        pts.sort()
        out, last = [], None
        for p in pts:
            if last is None or abs(p[0] - last) > 0.01:
                out.append(p)
            last = p[0]
        return out

    def hits_margin(self, cx, cy, r):
        """how far this circle is from a geometric coincidence (tangency, the
        crest/toe point, the model edge) where rounding decides the answer"""
        m = []
        for yy in (self.top[1], self.bot[1]):
            m.append(abs(abs(yy - cy) - r))
            if abs(yy - cy) < r:
                for sg in (-1, 1):
                    x = cx + sg * sqrt(r * r - (yy - cy) ** 2)
                    for e in (0, self.top[0], self.bot[0], self.tot_l):
                        m.append(abs(x - e))
        d = abs(hypot(cx - self.top[0], cy - self.top[1]) - r)
        m.append(d)
        m.append(abs(hypot(cx - self.bot[0], cy - self.bot[1]) - r))
        # distance from centre to the face line
        nx, ny = self.h, self.l
        dist = abs((cx - self.top[0]) * nx + (cy - self.top[1]) * ny)
        m.append(abs(dist / hypot(nx, ny) - r))
        return min(m)


def chord_family(p, q, n):
    """circles through p and q: the first enters almost vertically (1.1 times
    the radius of the one that does), the others flatten in equal steps"""
    (x1, y1), (x2, y2) = p, q
    half = hypot(x2 - x1, y2 - y1) / 2
    beta = atan((y1 - y2) / (x2 - x1))
    r0 = 1.1 * half / cos(beta)
    sag0 = r0 - sqrt(r0 * r0 - half * half)
    out = []
    for i in range(n):
        sag = sag0 * (n - i) / n
        r = (half * half + sag * sag) / (2 * sag)
        d = r - sag
        out.append(((x1 + x2) / 2 + sin(beta) * d, (y1 + y2) / 2 + cos(beta) * d, r))
    return out


# --------------------------------------------------------------------- model
class Model:
    """Declared content of a slope model + the operations on it."""

    FIELDS = (
        "height", "length", "min_h", "min_l", "mats", "udls", "lls",
        "water", "auto", "H", "slices", "iterations", "min_dist", "tol",
        "max_iter", "limits", "planes",
    )

    def __init__(self, height=1, angle=30, length=None):
        self.mats, self.udls, self.lls, self.planes = [], [], [], []
        self.water = None
        self.min_h, self.min_l = 6, 10
        self.auto, self.H = True, None
        self.limits = None
        self.set_external_boundary(height, angle, length)
        self.slices, self.iterations, self.min_dist = 25, 1000, 0
        self.tol, self.max_iter = 0.005, 15

    # ---- derived
    @property
    def g(self):
        return Ground(self.height, self.length, self.min_h, self.min_l)

    def content(self):
        return (
            self.height, self.length, self.min_h, self.min_l,
            tuple(m.key() for m in self.mats),
            tuple(u.key() for u in self.udls),
            tuple(p.key() for p in self.lls),
            self.water, self.auto, None if self.auto else self.H,
            self.slices, self.iterations, self.min_dist, self.tol,
            self.max_iter, tuple(self.limits), tuple(self.planes),
        )

    def copy(self):
        n = object.__new__(Model)
        for f in self.FIELDS:
            v = getattr(self, f)
            setattr(n, f, list(v) if isinstance(v, list) else v)
        return n

    # ---- operations
    def set_external_boundary(self, height=1, angle=30, length=None):
        need_pos(height)
        if angle is not None:
            if not _num(angle) or angle <= 0 or angle > 90:
                raise Rejected("angle")
        if length is not None:
            need_nonneg(length)
        if length is None:
            if angle is None:
                raise Rejected("angle or length")
            length = height / tan(radians(angle))
        self.height, self.length = height, max(length, 0.001)
        self.remove_analysis_limits()

    def update_boundary_options(self, MIN_EXT_L=None, MIN_EXT_H=None):
        if MIN_EXT_H:
            need_pos(MIN_EXT_H)
        if MIN_EXT_L:
            need_pos(MIN_EXT_L)
        if MIN_EXT_H:
            self.min_h = MIN_EXT_H
        if MIN_EXT_L:
            self.min_l = MIN_EXT_L
        self.remove_analysis_limits()

    def set_materials(self, *mats):
        new = list(mats) + self.mats
        depths = [m.depth for m in new]
        if len(set(depths)) < len(depths):
            raise Rejected("duplicate depth")
        new.sort(key=lambda m: m.depth)
        if new and new[-1].depth > self.g.tot_h:
            self.update_boundary_options(MIN_EXT_H=new[-1].depth)
        self.mats = new

    def remove_material(self, material=None, depth=None, remove_all=False):
        if material is not None:
            depth = material.depth
        if depth is not None:
            self.mats = [m for m in self.mats if m.depth != depth]
        if remove_all:
            self.mats = []

    def set_udls(self, *udls):
        for u in udls:
            if u.mag > 0:
                self.udls = self.udls + [u]
                need = (u.offset + (u.length or 3)) * 2.5
                if self.min_l < need:
                    self.update_boundary_options(MIN_EXT_L=need)

    def remove_udls(self, *udls, remove_all=False):
        for u in udls:
            k = (u.mag, u.offset, u.length)
            self.udls = [
                v for v in self.udls if (v.mag, v.offset, v.length) != k
            ]
        if remove_all:
            self.udls = []

    def set_lls(self, *lls):
        for p in lls:
            if p.mag > 0:
                self.lls = self.lls + [p]
                if self.min_l < p.offset * 3:
                    self.update_boundary_options(MIN_EXT_L=p.offset * 3)

    def remove_lls(self, *lls, remove_all=False):
        for p in lls:
            k = (p.mag, p.offset)
            self.lls = [v for v in self.lls if (v.mag, v.offset) != k]
        if remove_all:
            self.lls = []

    def set_water_table(self, depth):
        if depth is not None:
            need_nonneg(depth)
        self.water = depth

    def remove_water_table(self):
        self.water = None

    def update_water_analysis_options(self, auto=True, H=1):
        if auto:
            self.auto = True
        else:
            need_number(H)
            self.auto, self.H = False, min(1, max(0, H))

    def update_analysis_options(
        self, slices=None, iterations=None, min_failure_dist=None,
        tolerance=None, max_iterations=None,
    ):
        if slices:
            self.slices = max(min(500, slices), 10)
        if iterations:
            self.iterations = max(min(iterations, 100000), 500)
        if min_failure_dist is not None:
            self.min_dist = min(min_failure_dist, self.g.tot_l * 0.9)
        if tolerance is not None:
            self.tol = tolerance
        if max_iterations is not None:
            self.max_iter = max_iterations

    def remove_analysis_limits(self):
        g = self.g
        self.limits = [0, g.top[0], g.top[0], g.tot_l]

    def set_analysis_limits(
        self, left_x=None, right_x=None, left_x_right=None, right_x_left=None
    ):
        if left_x is not None:
            need_nonneg(left_x)
        for v in (right_x, left_x_right, right_x_left):
            if v is not None:
                need_pos(v)
        g = self.g
        x1, x2, x3, x4 = self.limits
        x1 = x1 if left_x is None else left_x
        x2 = x2 if left_x_right is None else left_x_right
        x3 = x3 if right_x_left is None else right_x_left
        x4 = x4 if right_x is None else right_x
        x1, x2 = max(x1, 0), min(x2, g.top[0])
        x3, x4 = max(x3, g.top[0]), min(x4, g.tot_l)
        if x1 >= x2 or x3 >= x4:
            raise Rejected("limits out of order")
        self.limits = [x1, x2, x3, x4]

    def add_single_circular_plane(self, c_x, c_y, radius):
        if len(self.g.hits(c_x, c_y, radius)) >= 2:
            self.planes = self.planes + [(c_x, c_y, radius)]

    def add_single_entry_exit_plane(self, l_cx, r_cx, num_circles=5):
        p, q = (l_cx, self.g.ysurf(l_cx)), (r_cx, self.g.ysurf(r_cx))
        for c in chord_family(p, q, num_circles):
            self.add_single_circular_plane(*c)

    def remove_individual_planes(self):
        self.planes = []

    # ---- physics
    def levels(self):
        """elevation of the bottom of each layer (last one has no bottom)"""
        return [self.g.tot_h - m.depth for m in self.mats]

    def water_level(self):
        if self.water is None:
            return None
        y = self.g.top[1] - self.water
        return y if y > 0 else None

    def water_factor(self):
        if self.auto:
            return cos(atan(self.g.grad)) ** 2
        return self.H

    def udl_span(self, u):
        right = self.g.top[0] - u.offset
        left = max(0, right - u.length) if u.length else 0
        return left, right

    def ll_x(self, p):
        return max(0, self.g.top[0] - p.offset)

    def material_at(self, y, levels):
        for m, rl in zip(self.mats, levels):
            if rl < y:
                return m
        return self.mats[-1]

    def slices_of(self, cx, cy, r, n=None, ties=None, ll_shift=0, ends=None):
        """list of slice dicts or None when there is no analysable failure.
        `ties` (a list) collects how close each yes/no decision came to its
        threshold.  ll_shift moves line loads by that much (used for ties)."""
        g = self.g
        n = n or self.slices
        if not self.mats:
            return None
        if ends is None:
            hits = g.hits(cx, cy, r)
            if len(hits) < 2:
                return None
            ends = hits[0][0], hits[1][0]
        xl, xr = ends
        if xr - xl <= 1e-6:
            return None
        b = (xr - xl) / n
        levels = self.levels()
        wl = self.water_level()
        if wl is not None:
            # where the water level daylights on the ground line
            if wl < g.bot[1]:
                xw = g.tot_l
            else:
                xw = g.top[0] + (g.top[1] - wl) / g.grad
        Hf = self.water_factor()
        out = []
        for i in range(n):
            x = xl + (i + 0.5) * b
            if (x - cx) ** 2 > r * r:
                return None
            yb = cy - sqrt(r * r - (x - cx) ** 2)
            yt = max(g.ysurf(x), yb)
            # self weight, layer by layer
            w = 0.0
            top = float("inf")
            for j, (m, rl) in enumerate(zip(self.mats, levels)):
                low = rl if j < len(levels) - 1 else -float("inf")
                w += m.uw * max(0.0, min(yt, top) - max(yb, low))
                top = rl
                if ties is not None:
                    ties.append(abs(yb - rl))
            w *= b
            a, c = x - b / 2, x + b / 2
            for u in self.udls:
                ul, ur = self.udl_span(u)
                w += max(0.0, min(c, ur) - max(a, ul)) * u.mag
            for p in self.lls:
                px = self.ll_x(p) + ll_shift
                if a <= px < c:
                    w += p.mag
                if ties is not None:
                    ties.append(abs(px - a))
                    ties.append(abs(px - c))
            u = 0.0
            if wl is not None:
                head = max(min(wl, yt) - yb, 0.0)
                f = Hf if xw < x < g.bot[0] else 1.0
                u = head * GAMMA_W * f
                if ties is not None and head > 0:
                    ties.append(abs(x - xw))
                    ties.append(abs(x - g.bot[0]))
            m = self.material_at(yb, levels)
            sin_a = (cx - x) / r
            out.append(
                dict(x=x, yb=yb, yt=yt, b=b, w=w, u=u, c=m.c,
                     t=tan(radians(m.phi)), sin=sin_a,
                     cos=sqrt(max(0.0, 1 - sin_a * sin_a)))
            )
        return out

    def bishop(self, cx, cy, r, n=None, ties=None, ll_shift=0, ends=None):
        """(kind, value): ('none', why) no failure mass / not driving,
        ('fos', f) the fixed point of Bishop's equation, ('odd', why) the
        equation has no well-behaved solution here."""
        sl = self.slices_of(cx, cy, r, n, ties, ll_shift, ends)
        if sl is None:
            return ("none", "no mass")
        drive = sum(s["w"] * s["sin"] for s in sl)
        scale = sum(abs(s["w"] * s["sin"]) for s in sl)
        if abs(drive) <= 1e-9 * max(scale, 1e-12):
            return ("odd", "driving ~ 0")
        if drive <= 0:
            return ("none", "not driving")
        return solve_bishop(sl, drive)

    def iterate(self, cx, cy, r, tol=None, max_iter=None, ends=None):
        """(value, ambiguous): the first Bishop iterate whose change is below
        the tolerance, or the last one allowed, starting from the ordinary
        method of slices.  ambiguous: a change is so close to the tolerance
        that rounding decides where to stop."""
        tol = self.tol if tol is None else tol
        max_iter = self.max_iter if max_iter is None else max_iter
        sl = self.slices_of(cx, cy, r, ends=ends)
        if sl is None:
            return None, False
        drive = sum(s["w"] * s["sin"] for s in sl)
        scale = sum(abs(s["w"] * s["sin"]) for s in sl)
        if abs(drive) <= 1e-9 * max(scale, 1e-12):
            return None, True
        if drive <= 0:
            return None, False
        f = ordinary(sl, drive)
        if f == 0:
            return 0.0, False
        odd = False
        for _ in range(max_iter):
            nf, mmin = bishop_rhs(sl, drive, f)
            if not isfinite(nf) or nf < 0 or mmin < 0.02:
                return None, True
            d = abs(nf - f)
            if abs(d - tol) < 1e-6 * tol + 1e-10 * max(1, nf):
                odd = True
            f = nf
            if d < tol:
                break
        return f, odd


def bishop_rhs(sl, drive, f):
    tot, mmin = 0.0, 1e9
    for s in sl:
        m = s["cos"] + s["sin"] * s["t"] / f
        mmin = min(mmin, m)
        if m == 0:
            return float("nan"), 0
        tot += (s["c"] * s["b"] + (s["w"] - s["u"] * s["b"]) * s["t"]) / m
    return tot / drive, mmin


def ordinary(sl, drive):
    """Fellenius' ordinary method of slices"""
    f = 0.0
    for s in sl:
        lb = s["b"] / s["cos"] if s["cos"] else 0
        f += s["c"] * lb + max(0.0, s["w"] * s["cos"] - s["u"] * lb) * s["t"]
    return f / drive


def solve_bishop(sl, drive):
    f = ordinary(sl, drive)
    if all(s["c"] == 0 and s["t"] == 0 for s in sl):
        return ("fos", 0.0)
    if f <= 0:
        return ("odd", "start 0")
    prev = None
    for _ in range(400):
        nf, mmin = bishop_rhs(sl, drive, f)
        if not isfinite(nf) or nf < 0:
            return ("odd", "diverges")
        if nf == 0:
            return ("odd", "zero strength")
        if prev is not None and abs(nf - f) > 0.9 * prev and abs(nf - f) > 1e-9:
            return ("odd", "slow")
        prev = abs(nf - f)
        if prev < 1e-13 * max(1, nf):
            f = nf
            break
        f = nf
    else:
        return ("odd", "no convergence")
    if mmin < 0.05:
        return ("odd", "m_alpha ~ 0")
    return ("fos", f)
