"""The real objects and the reference model, driven in lockstep."""
from . import ref
from .engine import Violation
from .impl import (LineLoad, Material, Slope, Udl, circle_through, close,
                   dump, module_state, planes_of)
from .ref import Model, Rejected, RLineLoad, RMaterial, RUdl

# named objects: the same name is the same object within one world
OBJECTS = {
    # materials: uw, phi, c, depth
    "A": ("mat", 20, 35, 2, 1.5),
    "B": ("mat", 18, 25, 5, 3),
    "C": ("mat", 19, 30, 0.5, 7.5),      # deeper than the default section
    "D": ("mat", 17, 20, 4, 3),          # same depth as B
    "E": ("mat", 21, 15, 6, 0.6),        # thin top layer
    "F": ("mat", 16, 28, 1, 4.5),
    "Z": ("mat", 19.5, 22, 3, 0),        # depth zero
    # with names
    "G": ("mat", 19, 27, 3, 2.2, "clay"),
    "H": ("mat", 17, 24, 6, 0.9, "clay"),
    "G1": ("mat", 20, 31, 2, 3.7, "sand"),
    # like others but for one small difference
    "A1": ("mat", 16, 40, 0, 1.53),
    "A2": ("mat", 22, 10, 9, 1.5004),
    "A3": ("mat", 20, 35, 2, 1.47),
    "B1": ("mat", 18, 25, 5, 3.0001),
    "B2": ("mat", 18, 25, 5, 3.000004),
    "U5": ("udl", 20, 0.40001, 1.1, False),
    "U6": ("udl", 20.00002, 0.4, 1.1, False),
    "U7": ("udl", 20, 0.4, 1.10003, False),
    "L3": ("ll", 18, 0.77001, False),
    "L4": ("ll", 18.00002, 0.77, False),
    "U1": ("udl", 20, 0.4, 1.3, False),
    "U2": ("udl", 20, 0.42, 1.1, False),
    "U3": ("udl", 20.04, 0.4, 1.1, False),
    "U4": ("udl", 20, 0.4, None, False),
    "L1": ("ll", 18, 0.79, False),
    "L2": ("ll", 18.04, 0.77, False),
    # udls: magnitude, offset, length, dynamic
    "U": ("udl", 20, 0.4, 1.1, False),
    "V": ("udl", 15, 0, None, False),    # continuous
    "X": ("udl", 12, 4, 3, False),       # needs a longer section (17.5)
    "Y": ("udl", 20, 0.4, 1.1, True),    # equal to U but movable
    "N": ("udl", 0, 1, 1, False),        # nothing
    "T": ("udl", 25, 0.9, None, False),  # continuous, offset
    # line loads: magnitude, offset, dynamic
    "L": ("ll", 18, 0.77, False),
    "K": ("ll", 9, 4.31, False),         # needs a longer section (12.93)
    "J": ("ll", 18, 0.77, True),         # equal to L but movable
    "O": ("ll", 0, 0.5, False),          # nothing
    "I": ("ll", 6, 0, False),            # right at the crest
}


def make_pair(name):
    spec = OBJECTS[name]
    kind, a = spec[0], spec[1:]
    if kind == "mat":
        return Material(*a), RMaterial(*a)
    if kind == "udl":
        m, o, ln, dyn = a
        return (Udl(m, o, ln, dynamic_offset=dyn), RUdl(m, o, ln, dyn=dyn))
    m, o, dyn = a
    return LineLoad(m, o, dynamic_offset=dyn), RLineLoad(m, o, dyn=dyn)


NEEDS_SLOPE = ("W0", "X0", "P0", "A", "D")

PROBES = (
    # entry (fraction of crest from its edge), exit (>=0 fraction of toe
    # flat, <0 fraction of face from the crest), sagitta
    (0.07, 0.06, 0.18),
    (0.31, 0.21, 0.22),
    (0.62, 0.43, 0.27),
    (0.11, -0.83, 0.15),
    (0.9, 0.8, 0.33),
)


def chord_ends(g, fr):
    a, b = fr[:2]
    x1 = g.top[0] * (1 - a) if a >= 0 else g.top[0] - a * g.l
    if b >= 0:
        x2 = g.bot[0] + (g.tot_l - g.bot[0]) * b
    else:
        x2 = g.top[0] - b * g.l
    return (x1, g.ysurf(x1)), (x2, g.ysurf(x2))


def probe_circle(g, fr):
    return circle_through(*chord_ends(g, fr), fr[2])


class World:
    def __init__(self, *starts):
        self.names = {}
        self.slopes, self.models = [], []
        for st in starts or ({},):
            self.slopes.append(Slope(**st))
            self.models.append(Model(**st))

    def obj(self, name):
        if name not in self.names:
            self.names[name] = make_pair(name)
        return self.names[name]

    def pairs(self, names):
        ps = [self.obj(n) for n in names]
        return [p[0] for p in ps], [p[1] for p in ps]

    # -- operations -------------------------------------------------------
    def do(self, op, i=0):
        """apply op to both sides and compare accepted / rejected.  Returns
        True when accepted."""
        s, m = self.slopes[i], self.models[i]
        f, g = self.calls(op, s, m)
        try:
            if g is not None:
                g()
            want = True
        except Rejected as e:
            want = e
        try:
            f()
            got = True
        except ValueError as e:
            got = e
        if want is True and got is not True:
            raise Violation(f"{op} was rejected ({got}) but is a valid call")
        if want is not True and got is True:
            raise Violation(f"{op} was accepted but should be rejected ({want})")
        return want is True

    def calls(self, op, s, m):
        k, a = op[0], op[1:]
        if k == "B":
            kw = dict(zip(("height", "angle", "length"), a))
            return (lambda: s.set_external_boundary(**kw),
                    lambda: m.set_external_boundary(**kw))
        if k == "E":
            kw = dict(MIN_EXT_L=a[0], MIN_EXT_H=a[1])
            return (lambda: s.update_boundary_options(**kw),
                    lambda: m.update_boundary_options(**kw))
        if k == "M+":
            p, q = self.pairs(a)
            return lambda: s.set_materials(*p), lambda: m.set_materials(*q)
        if k == "M+?":  # names of objects mixed with things of other types
            p, q = [], []
            for n in a:
                u, v = self.obj(n) if n in OBJECTS else (n, n)
                p.append(u)
                q.append(v)

            def bad():
                if not all(isinstance(v, RMaterial) for v in q):
                    raise Rejected("not a material")
                m.set_materials(*q)

            return lambda: s.set_materials(*p), bad
        if k == "M-":
            p, q = self.obj(a[0])
            return (lambda: s.remove_material(p), lambda: m.remove_material(q))
        if k == "M=":
            p, q = make_pair(a[0])
            return (lambda: s.remove_material(material=p),
                    lambda: m.remove_material(q))
        if k == "M@":
            return (lambda: s.remove_material(depth=a[0]),
                    lambda: m.remove_material(depth=a[0]))
        if k == "M0":
            return (lambda: s.remove_material(remove_all=True),
                    lambda: m.remove_material(remove_all=True))
        if k == "U+":
            p, q = self.pairs(a)
            return lambda: s.set_udls(*p), lambda: m.set_udls(*q)
        if k == "U-":
            p, q = self.pairs(a)
            return lambda: s.remove_udls(*p), lambda: m.remove_udls(*q)
        if k == "U=":
            p, q = make_pair(a[0])
            return lambda: s.remove_udls(p), lambda: m.remove_udls(q)
        if k == "U0":
            return (lambda: s.remove_udls(remove_all=True),
                    lambda: m.remove_udls(remove_all=True))
        if k == "L+":
            p, q = self.pairs(a)
            return lambda: s.set_lls(*p), lambda: m.set_lls(*q)
        if k == "L-":
            p, q = self.pairs(a)
            return lambda: s.remove_lls(*p), lambda: m.remove_lls(*q)
        if k == "L=":
            p, q = make_pair(a[0])
            return lambda: s.remove_lls(p), lambda: m.remove_lls(q)
        if k == "L0":
            return (lambda: s.remove_lls(remove_all=True),
                    lambda: m.remove_lls(remove_all=True))
        if k == "W":
            return (lambda: s.set_water_table(a[0]),
                    lambda: m.set_water_table(a[0]))
        if k == "W0":
            return s.remove_water_table, m.remove_water_table
        if k == "WO":
            kw = dict(zip(("auto", "H"), a))
            return (lambda: s.update_water_analysis_options(**kw),
                    lambda: m.update_water_analysis_options(**kw))
        if k == "O":
            return (lambda: s.update_analysis_options(**a[0]),
                    lambda: m.update_analysis_options(**a[0]))
        if k == "X":
            return (lambda: s.set_analysis_limits(**a[0]),
                    lambda: m.set_analysis_limits(**a[0]))
        if k == "XF":
            kw = self.limit_fractions(m, a[0])
            return (lambda: s.set_analysis_limits(**kw),
                    lambda: m.set_analysis_limits(**kw))
        if k == "X0":
            return s.remove_analysis_limits, m.remove_analysis_limits
        if k == "P":
            return (lambda: s.add_single_circular_plane(*a),
                    lambda: m.add_single_circular_plane(*a))
        if k == "PF":
            c = probe_circle(m.g, a)
            return (lambda: s.add_single_circular_plane(*c),
                    lambda: m.add_single_circular_plane(*c))
        if k == "PX":   # entry, exit (as in PROBES), number of circles
            l, r = chord_ends(m.g, a)
            return (lambda: s.add_single_entry_exit_plane(l[0], r[0], a[2]),
                    lambda: m.add_single_entry_exit_plane(l[0], r[0], a[2]))
        if k == "P0":
            return s.remove_individual_planes, m.remove_individual_planes
        if k == "A":
            kw = dict(max_fos=a[0]) if a else {}
            return lambda: s.analyse_slope(**kw), None
        if k == "D":
            return lambda: s.analyse_dynamic(*a), None
        if k == "PB":
            return lambda: s.plot_boundary(), None
        if k == "PC":
            return lambda: s.plot_critical(), None
        if k == "PA":
            return lambda: s.plot_all_planes(*a), None
        raise AssertionError(op)

    @staticmethod
    def limit_fractions(m, d):
        """limits given relative to the current section"""
        g, kw = m.g, {}
        for k, v in d.items():
            if k in ("left_x", "left_x_right"):
                kw[k] = g.top[0] * v
            else:
                kw[k] = g.top[0] + (g.tot_l - g.top[0]) * v
        return kw

    def would_reject(self, op, i=0):
        """what the reference says, without doing it"""
        m = self.models[i].copy()
        _, g = self.calls(op, None, m) if op[0] not in NEEDS_SLOPE else (0, 0)
        try:
            g()
        except Rejected:
            return True
        return False

    # -- observation ------------------------------------------------------
    def key(self):
        objs = [p[0] for _, p in sorted(self.names.items())]
        return (dump(*self.slopes, *objs), module_state(),
                repr([m.content() for m in self.models]))

    def check_geometry(self, ctx, i=0):
        s, m = self.slopes[i], self.models[i]
        g = m.g
        for got, want, what in (
            (s.get_top_coordinates(), g.top, "crest"),
            (s.get_bottom_coordinates(), g.bot, "toe"),
        ):
            if not (close(got[0], want[0]) and close(got[1], want[1])):
                raise Violation(f"{what} is {got}, expected {want}")
        for f in (0.0, 0.37, 1.0):
            x = g.tot_l * f
            got = s.get_external_y_intersection(min(x, s._external_length))
            if not close(got, g.ysurf(x)):
                raise Violation(f"surface at {x} is {got}, expected {g.ysurf(x)}")
        ctx.validated += 1

    def probe(self, ctx, i=0, probes=PROBES, n=None, planes=None):
        """FOS of probe circles on the real slope (destroys its planes and
        tolerance) against the reference model."""
        s, m = self.slopes[i], self.models[i]
        g = m.g
        s.remove_individual_planes()
        s.update_analysis_options(tolerance=1e-11, max_iterations=400)
        circles = planes or [probe_circle(g, fr) for fr in probes]
        circles = [c for c in circles if c[0] > 0 and c[1] > 0]
        for c in circles:
            s.add_single_circular_plane(*c)
        s.analyse_slope()
        got = {(p[0], p[1], p[2]): p for p in planes_of(s)}
        out = []
        for c in circles:
            out.append(compare_fos(ctx, m, c, got.pop(c, None)))
        if got:
            raise Violation(f"reported planes that were not given: {list(got)}")
        return tuple(out)


def expected_fos(m, c):
    """(kind, value) with kind in none/fos/odd; 'odd' = not decidable here
    (rounding or an ill-posed equation)"""
    if m.g.hits_margin(*c) < 1e-6:
        return "odd", "touching"
    ties = []
    kind, val = m.bishop(*c, ties=ties)
    if kind == "none" and val == "no mass":
        return kind, val
    if ties and min(ties) < 1e-7:
        return "odd", "tie"
    if kind == "fos" and 0 < val < 1e-3:
        return "odd", "tiny"
    return kind, val


def compare_fos(ctx, m, c, plane):
    kind, val = expected_fos(m, c)
    got = None if plane is None else plane[3]
    if kind == "odd":
        ctx.outcome("undecided", val)
        return None
    ctx.validated += 1
    if kind == "none":
        if got is not None:
            raise Violation(
                f"circle {c} should have no FOS ({val}) but got {got}; "
                f"{m.content()}"
            )
        ctx.outcome("no fos:", val)
        return None
    if got is None:
        raise Violation(
            f"circle {c} has no FOS but should have {val}; {m.content()}"
        )
    if not close(got, val, rel=2e-7, abs_=1e-7):
        raise Violation(
            f"circle {c}: FOS {got} but Bishop gives {val}; {m.content()}"
        )
    hits = m.g.hits(*c)
    for p, h in ((plane[4], hits[0]), (plane[5], hits[1])):
        if abs(p[0] - h[0]) > 1e-6 or abs(p[1] - h[1]) > 1e-6:
            raise Violation(f"circle {c}: end point {p}, expected {h}")
    ctx.outcome("fos", "<1" if val < 1 else "<2" if val < 2 else "<5" if val < 5 else ">5")
    return round(got, 6)
