"""Everything a user can see of a slope, without changing it."""
from .fresh import read_results
from .impl import planes_of


def limits_shown(s):
    """analysis limits as marked on the section plot (needs a material):
    sorted x positions of the opening and closing markers"""
    fig = s.plot_boundary(material_table=False)
    op = sorted(a.x for a in fig.layout.annotations if a.text == "▶")
    cl = sorted(a.x for a in fig.layout.annotations if a.text == "◀")
    return op, cl


def limits_of(s):
    lim = getattr(s, "_limits", None)
    if isinstance(lim, (list, tuple)) and len(lim) == 4:
        return [float(v) for v in lim]
    return None


def visible(s):
    return (
        repr(s), s.get_top_coordinates(), s.get_bottom_coordinates(),
        planes_of(s), read_results(s), dict(s.get_dynamic_results()),
        s.plot_boundary().to_json(),
    )
