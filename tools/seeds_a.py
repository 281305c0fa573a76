P = "pyslope/pyslope.py"
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks, web=False):
    SEEDS[name] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, web=web)


seed("c01-resize-rounds", "C01",
     [(P, "height=self._height, length=self._length", "height=self._height, length=round(self._length, 2)")],
     """
s = Slope(height=2, angle=41)
x = s._length
s.update_boundary_options(MIN_EXT_H=30)
assert near(s._length, x), (s._length, x)
""", "a slope given by angle whose section is resized afterwards",
     "resizing the section changes the face length slightly")

seed("c01-toe-level", "C01",
     [(P, "if y < self._bot_coord[1]:\n            return self._external_length",
       "if y <= self._bot_coord[1]:\n            return self._external_length")],
     """
s = Slope(height=2, length=4)
x, y = s.get_bottom_coordinates()
assert near(s.get_external_x_intersection(y), x)
""", "a query exactly at the toe level", "the surface position at the toe level is the far end of the section")

seed("c02-depth-sort", "C02",
     [(P, "materials.sort(key=lambda x: x.depth_to_bottom)", "materials.sort(key=lambda x: round(x.depth_to_bottom, 1))")],
     """
a, b, c = Material(18, 20, 1, 1.28), Material(20, 35, 5, 1.32), Material(20, 30, 3, 9)
def run(order):
    s = Slope(height=3, angle=40)
    for m in order:
        s.set_materials(Material(m.unit_weight, m.friction_angle, m.cohesion, m.depth_to_bottom))
    s.analyse_slope()
    return s.get_min_FOS()
assert near(run([a, b, c]), run([b, a, c])), (run([a, b, c]), run([b, a, c]))
""", "two layer bottoms closer than 0.1 m, the deeper one assigned last", "layers end up in the wrong order")

seed("c02-room-forgotten", "C02",
     [(P, "min_length = ll.offset * 3\n                    if self._MIN_EXT_L < min_length:",
       "min_length = ll.offset * 3\n                    if self._external_length < min_length:")],
     """
s = Slope(height=3, length=8)
s.set_materials(Material(20, 30, 3, 20))
s.set_lls(LineLoad(200, 10))
s.set_external_boundary(height=3, length=2)
s.analyse_slope()
t = Slope(height=3, length=2)
t.set_materials(Material(20, 30, 3, 20))
t.set_lls(LineLoad(200, 10))
t.analyse_slope()
assert near(t._top_coord[0] - 10, t._lls[0].coord)
assert near(s._top_coord[0] - 10, s._lls[0].coord), s._lls[0].coord
""", "a distant line load set on a long section which is then redefined shorter",
     "the load no longer fits and is moved to the model edge")

seed("c03-tolerance-stale", "C03",
     [(P, """            self._max_iterations = max_iterations

        # reset results
        self._reset_results()
""", """            self._max_iterations = max_iterations

        # reset results (convergence options dont change the planes)
        if slices or iterations or min_failure_dist is not None:
            self._reset_results()
""")],
     """
s = base()
s.analyse_slope()
s.update_analysis_options(max_iterations=1)
assert s._search == [], "results of the old options are still reported"
""", "changing only convergence options after an analysis", "results of old options stay available")

seed("c03-plot-reverses", "C03",
     [(P, "        traces = []\n\n        for i in tqdm(self._search):", "        traces = []\n\n        self._search.reverse()\n\n        for i in tqdm(self._search):"),
      (P, "        traces.reverse()\n\n        temp = fig.to_dict()", "        temp = fig.to_dict()")],
     """
s = base()
s.analyse_slope()
f = s.get_min_FOS()
s.plot_all_planes()
assert s.get_min_FOS() == f
""", "reading the minimum after plotting all planes", "plotting reverses the results")

seed("c04-water-first", "C04",
     [(P, """            data_validation.assert_positive_number(depth, "water depth")
            self._water_RL = max(0, self._top_coord[1] - depth)
            self._water_depth = depth
""", """            self._water_depth = depth
            data_validation.assert_positive_number(depth, "water depth")
            self._water_RL = max(0, self._top_coord[1] - depth)
""")],
     """
s = base()
s.set_water_table(1)
s.analyse_slope()
f = s.get_min_FOS()
try:
    s.set_water_table(-3)
except ValueError:
    pass
s.analyse_slope()
assert near(s.get_min_FOS(), f), (f, s.get_min_FOS())
""", "a rejected water table depth followed by another analysis", "the rejected depth is kept")

seed("c04-limits-kept", "C04",
     [(P, """        right_x_left = max(right_x_left, self._top_coord[0])

""", """        right_x_left = max(right_x_left, self._top_coord[0])

        self._limits[:] = [left_x, left_x_right, right_x_left, right_x]

"""),
      (P, """        self._individual_planes = []

        self._external_boundary = None
""", """        self._individual_planes = []
        self._limits = [None] * 4

        self._external_boundary = None
"""),
      (P, "        self._limits = [left_x, left_x_right, right_x_left, right_x]\n", "")],
     """
s = base()
s.set_analysis_limits(left_x=1)
before = list(s._limits)
try:
    s.set_analysis_limits(left_x=2, right_x=0.5)
    assert False
except ValueError:
    pass
assert list(s._limits) == before, s._limits
""", "limits rejected because they are out of order", "the rejected limits stay in force")

seed("c04-height-early", "C04",
     [(P, """        # if angle assigned instead of length work out the model length
        if length is None:
            if not angle:""", """        # set relevant variables to self
        self._height = height

        # if angle assigned instead of length work out the model length
        if length is None:
            if not angle:"""),
      (P, """        self._length = length
        self._height = height
        self._gradient""", """        self._length = length
        self._gradient""")],
     """
s = base(height=3, angle=40)
try:
    s.set_external_boundary(height=5, angle=None, length=None)
    assert False
except ValueError:
    pass
s.update_boundary_options(MIN_EXT_L=40)
assert near(s._top_coord[1] - s._bot_coord[1], 3), (s._top_coord, s._bot_coord)
""", "a rejected set_external_boundary followed by a resize", "the rejected height takes effect")

seed("c05-udl-length", "C05",
     [(P, """                    and check_udl.magnitude == udl.magnitude
                    and check_udl.length == udl.length
""", """                    and check_udl.magnitude == udl.magnitude
                    and (check_udl.length or 0) >= (udl.length or 0)
""")],
     """
s = base()
s.set_udls(Udl(10, 1, 2), Udl(10, 1, 4))
s.remove_udls(Udl(10, 1, 2))
assert [u.length for u in s._udls] == [4], s._udls
""", "two loads that differ only in length", "removing the shorter also removes the longer")

seed("c05-depth-rounded", "C05",
     [(P, "if m.depth_to_bottom == depth:", "if round(m.depth_to_bottom, 1) == round(depth, 1):")],
     """
s = base()
s.set_materials(Material(18, 25, 1, 1.02), Material(19, 28, 2, 1.04))
s.remove_material(depth=1.04)
assert [m.depth_to_bottom for m in s._materials] == [1.02, 20], s._materials
""", "layers with nearly equal depths", "another layer than the named one is removed")

seed("c06-circle-cache", "C06",
     [(P, """        i_list = []

        top_intersection =""", """        key = (round(c_x, 6), round(c_y, 6), round(radius, 6), self._external_length, self._external_height)
        if key in _INTERSECTIONS:
            return _INTERSECTIONS[key]

        i_list = []

        top_intersection ="""),
      (P, """            x = i[0]

        return unique_list
""", """            x = i[0]

        _INTERSECTIONS[key] = unique_list
        return unique_list
"""),
      (P, "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n", "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n\n# intersections already found\n_INTERSECTIONS = {}\n")],
     """
def run():
    s = Slope(height=1, length=2)
    s.set_materials(Material(20, 30, 3, 5))
    s.add_single_circular_plane(6, 8, 4)
    s.analyse_slope()
    return planes(s)
want = run()
PS._INTERSECTIONS.clear() if hasattr(PS, "_INTERSECTIONS") else None
s = Slope(height=1, length=1)
s.set_materials(Material(20, 30, 3, 5))
s.add_single_circular_plane(6, 8, 4)
s.analyse_slope()
got = run()
assert got == want, (got, want)
""", "the same circle on two slopes with equal section size but different face", "end points cached for another slope are used")

seed("c07-base-weight", "C07",
     [(P, "        bottoms[-1] = -np.inf\n", "        bottoms[-1] = min(bottoms[-1], 0.0)\n")],
     """
def fos(h):
    s = Slope(height=2, length=3)
    s.update_boundary_options(MIN_EXT_H=h, MIN_EXT_L=60)
    s.set_materials(Material(20, 5, 20, 2))
    x, y = s.get_top_coordinates()
    s.add_single_circular_plane(x + 2, y + 2, 12)
    s.analyse_slope()
    return s.get_min_FOS()
assert near(fos(8), fos(40)), (fos(8), fos(40))
""", "a circle reaching below the bottom of the section", "soil below the section has no weight")

seed("c07-thin-layers", "C07",
     [(P, "overlap[overlap < 0.0] = 0.0  # in-place clip", "overlap[overlap < 0.01] = 0.0  # in-place clip")],
     """
def fos(depths):
    s = Slope(height=1, length=2)
    for d in depths:
        s.set_materials(Material(20, 30, 3, d))
    x, y = s.get_top_coordinates()
    s.add_single_circular_plane(x + 1, y + 2, 3)
    s.analyse_slope()
    return s.get_min_FOS()
a, b = fos([9]), fos([i * 0.008 for i in range(1, 200)] + [9])
assert near(a, b), (a, b)
""", "layers thinner than a centimetre", "thin layers have no weight")

seed("c08-line-boundary", "C08",
     [(P, "mask = (x_left <= ll.coord) & (ll.coord < x_right)", "mask = (x_left <= ll.coord) & (ll.coord <= x_right)"),
      (P, "mask = (xl <= ll.coord) & (ll.coord < xr)", "mask = (xl <= ll.coord) & (ll.coord <= xr)")],
     """
s = Slope(height=2, length=4)
s.update_boundary_options(MIN_EXT_L=20)
s.set_materials(Material(16, 30, 4, 20))
s.update_analysis_options(slices=16, tolerance=1e-9, max_iterations=200)
# circle cutting the crest at x=4 and the toe ground at x=12+... chosen symmetric
x0, y0 = 4.0, s._top_coord[1]
x1, y1 = 12.0, s._bot_coord[1]
import math
cx = 9.0
cy = ((x1 - cx) ** 2 - (x0 - cx) ** 2 + y1 ** 2 - y0 ** 2) / (2 * (y1 - y0))
r = math.hypot(x0 - cx, y0 - cy)
def fos(off):
    s.remove_lls(remove_all=True)
    s.set_lls(LineLoad(50, off))
    return s._analyse_circular_failure_bishop(cx, cy, r, (x0, y0), (x1, y1))
top = s._top_coord[0]
w = 0.5
a, b, c = fos(top - 6.0), fos(top - 6.0 - 1e-7), fos(top - 6.0 + 1e-7)
assert min(abs(a - b), abs(a - c)) < 1e-4, (a, b, c)
""", "a line load exactly on the boundary of two slices", "the load is counted twice")

seed("c08-equal-lines", "C08",
     [(P, "                if ll.magnitude > 0:\n", "                if ll.magnitude > 0 and ll not in self._lls:\n")],
     """
s = base()
s.set_lls(LineLoad(20, 1), LineLoad(20, 1))
s.analyse_slope()
t = base()
t.set_lls(LineLoad(40, 1))
t.analyse_slope()
assert near(s.get_min_FOS(), t.get_min_FOS()), (s.get_min_FOS(), t.get_min_FOS())
""", "two equal line loads", "the second of two equal loads is ignored")

seed("c10-merge", "C11",
     [(P, "if abs(i[0] - x) > 0.01:", "if abs(i[0] - x) > 0.1:")],
     """
s = Slope(height=0.2, length=0.3)
s.update_boundary_options(MIN_EXT_H=3, MIN_EXT_L=3)
s.set_materials(Material(20, 30, 3, 5))
x, y = s.get_top_coordinates()
s.add_single_entry_exit_plane(x - 0.02, x + 0.07, 5)
s.analyse_slope()
assert len(s._search) == 5, len(s._search)
""", "a plane with end points less than 10 cm apart in x", "short planes are lost")

seed("c11-circle-cap", "C11",
     [(P, "num_circles = max(5, int(self._iterations / 800))", "num_circles = min(max(5, int(self._iterations / 800)), 20)")],
     """
s = base()
s.update_analysis_options(iterations=24000, slices=10)
n = []
s._analyse_circular_failure_bishop = lambda c_x, c_y, radius: n.append(1) or 1.0
s.analyse_slope()
pairs = {}
for p in s._search:
    k = (round(p["l_c"][0], 4), round(p["r_c"][0], 4))
    pairs[k] = pairs.get(k, 0) + 1
assert max(pairs.values()) == 30, max(pairs.values())
""", "more than 16800 iterations", "fewer circles per entry and exit pair than documented")

seed("c11-max-fos", "C11",
     [(P, "search = list(filter(lambda x: (x[\"FOS\"] <= max_fos), search))", "search = list(filter(lambda x: (x[\"FOS\"] < max_fos), search))")],
     """
s = base()
s.analyse_slope()
f = s._search[3]["FOS"]
n = sum(p["FOS"] <= f for p in s._search)
s.analyse_slope(max_fos=f)
assert len(s._search) == n, (len(s._search), n)
""", "a maximum equal to the factor of safety of a plane", "a plane not above the maximum is dropped")

seed("c12-min-dist", "C12",
     [(P, """        search.sort(key=lambda x: x["FOS"])
""", """        search = sorted(
            (
                plane
                for plane in search
                if utilities.dist_points(plane["l_c"], plane["r_c"])
                > self._min_failure_distance
            ),
            key=lambda x: x["FOS"],
        )
""")],
     """
s = base()
x, y = s.get_top_coordinates()
s.add_single_entry_exit_plane(x - 1, x + 3, 4)
s.update_analysis_options(min_failure_dist=6)
s.analyse_slope()
assert len(s._search) == 4, len(s._search)
""", "user planes together with a minimum failure distance", "user planes shorter than the search option are dropped")

seed("c12-cut-kept", "C12",
     [(P, "            search = list(filter(lambda x: (x[\"FOS\"] <= max_fos), search))\n",
       """            search = list(filter(lambda x: (x["FOS"] <= max_fos), search))

        if self._individual_planes != []:
            self._individual_planes = search
""")],
     """
s = base()
x, y = s.get_top_coordinates()
s.add_single_entry_exit_plane(x - 1, x + 3, 4)
s.analyse_slope()
n, f = len(s._search), s._search[1]["FOS"]
s.analyse_slope(max_fos=f)
s.analyse_slope()
assert len(s._search) == n, (len(s._search), n)
""", "an analysis of user planes with a maximum followed by one without", "planes above an earlier maximum are forgotten")

seed("c13-relative", "C13",
     [(P, "if abs(FS - prev_FS) < self._tolerance:", "if abs(FS - prev_FS) < self._tolerance * FS:")],
     """
s = Slope(height=1, length=4)
s.set_materials(Material(18, 38, 30, 20))
x, y = s.get_top_coordinates()
c = (x + 1.5, y + 0.6, 3.2)
s.add_single_circular_plane(*c)
s.update_analysis_options(tolerance=1e-13)
seq = [s._analyse_circular_failure_ordinary(*c)]
for n in range(1, 20):
    s.update_analysis_options(max_iterations=n)
    s.analyse_slope()
    seq.append(s.get_min_FOS())
s.update_analysis_options(max_iterations=50)
tol = 1.0
while tol > 1e-6:
    s.update_analysis_options(tolerance=tol)
    s.analyse_slope()
    k = next(i for i in range(1, len(seq)) if abs(seq[i] - seq[i - 1]) < tol)
    assert near(s.get_min_FOS(), seq[k], 1e-12), (tol, s.get_min_FOS(), seq)
    tol *= 0.9
""", "a plane with a factor of safety well above 1 and a wide tolerance", "iteration stops although the change is above the tolerance")

seed("c13-not-converged", "C13",
     [(P, "        return float(prev_FS)\n", "        return float(prev_FS) if self._max_iterations > 1 else None\n")],
     """
s = base()
s.analyse_slope()
n = len(s._search)
s.update_analysis_options(max_iterations=1)
s.analyse_slope()
assert len(s._search) == n, (len(s._search), n)
""", "a single convergence iteration", "no plane gets a factor of safety")

seed("c14-cut-off", "C14",
     [(P, "        self._set_dynamic_offset(left)\n        self.analyse_slope()", "        self._set_dynamic_offset(left)\n        self.analyse_slope(max_fos=5)")],
     """
s = Slope(height=1, length=1)
s.set_materials(Material(20, 40, 40, 20))
s.set_lls(LineLoad(4000, 0, dynamic_offset=True))
s.set_analysis_limits(left_x=s._top_coord[0] * 0.6)
s.analyse_dynamic(critical_fos=1.5)
r = s.get_dynamic_results()
assert len(r) >= 2, r
""", "a slope that is very safe once the load is far away", "the dynamic analysis ends with an IndexError")

seed("c14-report", "C14",
     [(P, "fos = str(round(v, 3))", "fos = str(round(min(v, 9.999), 3))")],
     """
import io, contextlib
s = Slope(height=0.5, length=2)
s.set_materials(Material(20, 40, 90, 20))
s.set_lls(LineLoad(1, 0, dynamic_offset=True))
s.analyse_dynamic()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.print_dynamic_results()
v = list(s.get_dynamic_results().values())[0]
assert v > 10
assert str(round(v, 3)) in out.getvalue(), (v, out.getvalue())
""", "a factor of safety above 10", "the printed value is not the one analysed")

seed("c15-inner-limit", "C15",
     [(P, "if self._limits[1] != self._limits[2]:", "if self._limits[2] != self._top_coord[0]:")],
     """
s = base()
x = s._top_coord[0]
s.set_analysis_limits(left_x_right=x - 1)
fig = s.plot_boundary().to_dict()
xs = [round(a["x"], 6) for a in fig["layout"]["annotations"] if a["text"] in "|▶◀"]
assert round(x - 1, 6) in xs, xs
""", "only the inner entry limit is set", "the limit in force is not drawn")

seed("c16-colour-scale", "C16",
     [(P, "        if FOS > 5:\n", "        if FOS > 5.1:\n")],
     """
s = Slope(height=1, length=1)
s.set_materials(Material(20, 35, 1, 20))
x, y = s.get_top_coordinates()
s.add_single_circular_plane(x + 1, y + 1, 2.2)
lo, hi = 0.1, 200
for _ in range(200):
    c = (lo + hi) / 2
    s.remove_material(remove_all=True)
    s.set_materials(Material(20, 35, c, 20))
    s.analyse_slope()
    f = s.get_min_FOS()
    if 5.06 < f < 5.09:
        break
    lo, hi = (c, hi) if f < 5.06 else (lo, c)
assert 5.06 < f < 5.09
s.plot_critical()
""", "a critical factor of safety between 5.05 and 5.1", "the critical plot fails with a KeyError")

seed("c16-same-ends", "C16",
     [(P, """            FOS = i["FOS"]
            if max_fos is None or FOS < max_fos:
                c_x = i["c_x"]""", """            FOS = i["FOS"]
            ends = (i["l_c"], i["r_c"], round(FOS, 2))
            if (max_fos is None or FOS < max_fos) and ends not in drawn:
                drawn.append(ends)
                c_x = i["c_x"]"""),
      (P, "        traces = []\n\n        for i in tqdm(self._search):", "        traces = []\n        drawn = []\n\n        for i in tqdm(self._search):")],
     """
s = base()
x, y = s.get_top_coordinates()
s.add_single_circular_plane(x + 2, y + 1, 4.5)
s.add_single_circular_plane(x + 2, y + 1, 4.5)
s.analyse_slope()
assert len(s._search) == 2
a = len(s.plot_all_planes(max_fos=50).data) - len(s.plot_critical().data)
assert a == 2, a
""", "two equal planes among the reported ones", "only one of them is drawn")

seed("c17-negative-length", "C17",
     [(P, "        if self.length:\n            data_validation", "        if self.length and not self.length < 0:\n            data_validation")],
     """
assert Udl(10, 1, -2).length == 2, Udl(10, 1, -2)
""", "a negative load length", "the load becomes continuous")

seed("c17-range", "C17",
     [("pyslope/data_validation.py", "    if n > high:\n", "    if int(n) > high:\n")],
     """
try:
    Slope(height=1, angle=90.5)
except ValueError:
    sys.exit(0)
sys.exit("angle 90.5 accepted")
""", "a fraction above the upper bound", "values just above the range are accepted")

V = "slope/views.py"
LIMITS = """    # limits form
    limits = limits_form.cleaned_data
    if limits["consider_limits"]:
        if limits["consider_internal_limits"]:
            slope.set_analysis_limits(
                left_x=limits["left_x"],
                right_x=limits["right_x"],
                left_x_right=limits["left_x_right"],
                right_x_left=limits["right_x_left"],
            )
        else:
            slope.set_analysis_limits(
                left_x=limits["left_x"],
                right_x=limits["right_x"],
            )

"""
seed("c18-limits-first", "C18",
     [(V, LIMITS, ""), (V, "    # add materials to slope\n", LIMITS + "    # add materials to slope\n")],
     """
c = Client()
r = c.post("/", form(lls=[dict(magnitude=20, offset=6, color="blue")], limits__consider_limits="on",
                     limits__left_x=5, limits__right_x=13))
xs = [(p["l_c"][0], p["r_c"][0]) for p in c.session["search"]]
assert xs and all(a >= 5 - 1e-6 and b <= 13 + 1e-6 for a, b in xs), (min(xs), max(b for a, b in xs))
""", "limits together with a load that enlarges the section", "the limits are lost", web=True)

seed("c18-water-zero", "C18",
     [(V, 'if water_table_form.cleaned_data["consider_water"]:', 'if water_table_form.cleaned_data["consider_water"] and water_table_form.cleaned_data["water_depth"]:')],
     """
c = Client()
c.post("/", form())
dry = min(foses(c))
c.post("/", form(watertable__consider_water="on", watertable__water_depth=0))
assert min(foses(c)) < dry - 0.05, (dry, min(foses(c)))
""", "a water table at the crest", "the water table is ignored", web=True)

seed("c19-reset-report", "C19",
     [(V, """    request.session["forms"] = []
    request.session["plot_json"] = []
    request.session["search"] = []
""", """    request.session["forms"] = []
""")],
     """
c = Client()
c.post("/", form())
c.get("/reset")
r = c.get("/pdf/2")
assert r.status_code == 302, r.status_code
""", "a report requested after a reset without loading the page", "results from before the reset are reported", web=True)

seed("c20-report-filters", "C20",
     [(V, "    traces.reverse()\n\n    temp = plot.to_dict()", "    traces.reverse()\n\n    request.session[\"search\"] = [i for i in search if i[\"FOS\"] < max_fos] or search\n\n    temp = plot.to_dict()")],
     """
c = Client()
c.post("/", form())
f = sorted(foses(c))
n = len(f)
c.get("/pdf/%.3f" % f[n // 2])
assert len(foses(c)) == n, (n, len(foses(c)))
""", "a report for a small factor of safety followed by another request", "the report drops planes from the session", web=True)

seed("c20-zero", "C20",
     [(V, "max_fos = float(max_fos)", "max_fos = float(max_fos) or 5")],
     """
c = Client()
c.post("/", form())
c.get("/pdf/5")
c.get("/pdf/0")
assert len(REPORTS[1]["data"]) < len(REPORTS[0]["data"])
""", "a report up to a factor of safety of zero", "all planes are reported", web=True)

seed("c21-sliver", "C21",
     [(P, "if total_width <= 1e-6:", "if total_width <= 0.4:")],
     """
def fos(k):
    s = Slope(height=2 * k, length=3 * k)
    s.set_materials(Material(20 / k, 30, 5, 20 * k))
    x, y = s.get_top_coordinates()
    s.add_single_entry_exit_plane(x - 0.5 * k, x + 2 * k, 3)
    s.analyse_slope()
    return len(s._search)
assert fos(1) == fos(0.4) == 3
s = Slope(height=0.4, length=0.3)
s.set_materials(Material(20, 30, 1, 5))
x, y = s.get_top_coordinates()
s.add_single_entry_exit_plane(x - 0.1, x + 0.2, 3)
s.analyse_slope()
assert len(s._search) == 3
""", "planes narrower than 0.4 m", "small planes get no factor of safety")

seed("c22-other-limit", "C22",
     [(P, """        if right_x_left is None:
            right_x_left = self._limits[2]
        else:
            data_validation""", """        if right_x_left is None:
            if left_x_right is None:
                right_x_left = self._limits[2]
        else:
            data_validation"""),
      (P, """        if left_x_right is None:
            left_x_right = self._limits[1]
        else:
            data_validation""", """        if left_x_right is None:
            if right_x_left is None:
                left_x_right = self._limits[1]
        else:
            data_validation"""),
      (P, """            if left_x_right is None:
                right_x_left = self._limits[2]
""", """            if left_x_right is None or left_x_right == self._limits[1]:
                right_x_left = self._limits[2]
""")],
     """
s = base()
x = s._top_coord[0]
s.set_analysis_limits(right_x_left=x + 2)
s.set_analysis_limits(left_x_right=x - 1)
assert near(s._limits[2], x + 2), s._limits
""", "inner limits given in separate calls", "giving one inner limit resets the other")
