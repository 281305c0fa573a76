# planted bugs: names, many loads, limits of zero, load positions in the search
P = "pyslope/pyslope.py"
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks):
    SEEDS[name] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


seed("c06-named-colour", "C06",
     [(P, "                material.color = MATERIAL_COLORS[i % 10]",
       "                # the same colour for a material wherever it is used\n"
       "                material.color = NAMED_COLORS.setdefault(\n"
       "                    material.name or i, MATERIAL_COLORS[i % 10]\n"
       "                )"),
      (P, "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n",
       "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\nNAMED_COLORS = {}\n")],
     """
def colours(names):
    s = Slope(height=3, angle=40)
    s.set_materials(*[Material(20, 30, 3, 2 + 2 * i, name=n) for i, n in enumerate(names)])
    return [m.color for m in s._materials]


alone = colours(["sand", "clay"])
other = colours(["peat", "rock", "loam"])
fresh = colours(["rock", "gravel"])
import subprocess
code = '''import os, sys
sys.path.insert(0, os.getcwd())
from pyslope import Slope, Material
s = Slope(height=3, angle=40)
s.set_materials(Material(20, 30, 3, 2, name="rock"), Material(20, 30, 3, 4, name="gravel"))
print([m.color for m in s._materials])'''
out = subprocess.check_output([sys.executable, "-B", "-c", code], text=True).strip()
assert out == str(fresh), (out, fresh)
""", "two slopes with a material of the same name at different levels",
     "a slope's colours depend on slopes made before it")

seed("c08-ten-loads", "C08",
     [(P, """        for udl in self._udls:
            overlap = np.minimum(
                x_right""", """        for udl in self._udls[:10]:
            overlap = np.minimum(
                x_right""")],
     """
def fos(n, q):
    s = base()
    s.add_single_circular_plane(*CIRCLE)
    s.set_udls(*[Udl(q, offset=0.5) for _ in range(n)])
    s.analyse_slope()
    return s.get_min_FOS()


s = base()
l, t = s.get_top_coordinates()
r, b = s.get_bottom_coordinates()
CIRCLE = (l, t + 2, 4.5)
assert near(fos(12, 1), fos(1, 12), 1e-4), (fos(12, 1), fos(1, 12))
assert near(fos(5, 1), fos(1, 5), 1e-4)
""", "more than ten distributed loads on one slope", "loads after the tenth are left out of the factor of safety")

seed("c16-zero-limit", "C16",
     [(P, "            if max_fos is None or FOS < max_fos:", "            if not max_fos or FOS < max_fos:")],
     """
s = base()
s.update_analysis_options(slices=10, iterations=500)
s.analyse_slope()
n = len(s.plot_boundary().data)
drawn = [d for d in s.plot_all_planes(max_fos=0).data]
none = [d for d in s.plot_all_planes(max_fos=1e-9).data]
assert len(drawn) == len(none), (len(drawn), len(none))
""", "a limit of exactly zero", "planes are drawn that are not below the limit")

seed("c14-last-load-decides", "C14",
     [(P, "                    left = min(left, self._top_coord[0] - udl.length)",
       "                    left = self._top_coord[0] - udl.length")],
     """
for lengths in (3, 1), (1, 3), (2, 4, 1):
    s = Slope(height=3, angle=30, length=None)
    s.set_materials(Material(20, 35, 4, 20))
    s.update_boundary_options(MIN_EXT_L=16)
    s.update_analysis_options(slices=10, iterations=300)
    s.set_udls(*[Udl(60, length=n, offset=0, dynamic_offset=True) for n in lengths])
    s.analyse_dynamic(critical_fos=4)
    end = s.get_top_coordinates()[0]
    for u in s._udls:
        assert u.left >= 0 and near(u.right - u.left, u.length), (lengths, end, u)
    assert max(s._dynamic_results) <= end - max(lengths), (s._dynamic_results, end, lengths)
""", "two dynamic loads of different length, the shorter one last",
     "a load is pushed beyond the end of the crest")
