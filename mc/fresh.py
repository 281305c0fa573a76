"""A canonical new slope with the content of a reference model."""
from .impl import LineLoad, Material, Slope, Udl, close, planes_of


def fresh(m, copies=True):
    s = Slope(height=m.height, angle=None, length=m.length)
    s.update_boundary_options(MIN_EXT_L=m.min_l, MIN_EXT_H=m.min_h)
    if m.mats:
        s.set_materials(*[
            Material(q.uw, q.phi, q.c, q.depth, q.name, q.color) for q in m.mats
        ])
    if m.udls:
        s.set_udls(*[
            Udl(q.mag, q.offset, q.length, color=q.color, dynamic_offset=q.dyn)
            for q in m.udls
        ])
    if m.lls:
        s.set_lls(*[
            LineLoad(q.mag, q.offset, color=q.color, dynamic_offset=q.dyn)
            for q in m.lls
        ])
    # a load that was moved may by now ask for more room than the section has
    s.update_boundary_options(MIN_EXT_L=m.min_l, MIN_EXT_H=m.min_h)
    if m.water is not None:
        s.set_water_table(m.water)
    if m.auto:
        s.update_water_analysis_options(auto=True)
    else:
        s.update_water_analysis_options(auto=False, H=m.H)
    s.update_analysis_options(
        slices=m.slices, iterations=m.iterations, min_failure_dist=m.min_dist,
        tolerance=m.tol, max_iterations=m.max_iter,
    )
    x1, x2, x3, x4 = m.limits
    s.set_analysis_limits(left_x=x1, right_x=x4, left_x_right=x2, right_x_left=x3)
    for c in m.planes:
        s.add_single_circular_plane(*c)
    return s


def same_planes(a, b, rel=1e-6):
    """None when two reported plane lists agree, else a description"""
    if len(a) != len(b):
        return f"{len(a)} planes instead of {len(b)}"

    def key(p):
        return tuple(round(v, 6) for v in p[:3])

    # match by order first, by circle second (equal FOS may come in any order)
    for p, q in zip(a, b):
        if not close(p[3], q[3], rel=rel, abs_=1e-7):
            return f"FOS {p[3]} instead of {q[3]} for circle {p[:3]}"
    a2, b2 = sorted(a, key=key), sorted(b, key=key)
    for p, q in zip(a2, b2):
        for u, v in zip(p[:4], q[:4]):
            if not close(u, v, rel=rel, abs_=2e-6):
                return f"plane {p} instead of {q}"
        for u, v in zip(p[4] + p[5], q[4] + q[5]):
            if not close(u, v, rel=rel, abs_=2e-6):
                return f"plane {p} instead of {q}"
    return None


def read_results(s):
    """what the user can read, or None when nothing is available.  Getters
    that disagree about availability are reported."""
    vals, missing = [], []
    for f in (s.get_min_FOS, s.get_min_FOS_circle, s.get_min_FOS_end_points):
        try:
            vals.append(f())
        except Exception as e:  # unavailable: which error is not specified
            missing.append(f"{f.__name__}: {type(e).__name__}")
    if not vals:
        return None
    if missing:
        return ("partial", missing)
    return tuple(vals)
