P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"
D = "pyslope/data_validation.py"
V = "slope/views.py"
F = "slope/forms.py"
SEEDS = {}
NEAR = """

def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))

"""


def seed(name, prop, edits, demo, needs, breaks, web=False):
    SEEDS[name] = dict(property=prop, edits=edits, demo=(NEAR if web else '') + demo, needs=needs, breaks=breaks, web=web)


# -------------------------------------------------------------------- C09
seed("c09-manual-memory", "C09",
     [(P, """            data_validation.assert_number(H, "H")
            self._water_analysis_auto = False
""", """            data_validation.assert_number(H, "H")
            self._water_analysis_auto = self._water_analysis_auto and H >= 1
""")],
     """
def f(order):
    s = base(height=3, angle=40)
    s.set_water_table(1)
    if order:
        s.update_water_analysis_options(auto=False, H=1)
    s.set_external_boundary(height=3, angle=60)
    if not order:
        s.update_water_analysis_options(auto=False, H=1)
    s.add_single_circular_plane(s.get_top_coordinates()[0] + 3, 16, 8)
    s.analyse_slope()
    return s.get_min_FOS()
assert near(f(0), f(1)), (f(0), f(1))
""", "the manual factor 1, then a new face angle", "the factor of the new angle replaces the user's")

seed("c09-head-of-crest", "C09",
     [(P, """            within_slope = (x_water < slice_x) & (slice_x < self._bot_coord[0])
            head = np.maximum(
                np.minimum(
                    self._water_RL,
                    slice_y_top,
                )
                - slice_y_bottom,
                0.0,
            )
            U = (""", """            within_slope = (x_water < slice_x) & (slice_x < self._bot_coord[0])
            dry = slice_y_bottom >= min(self._water_RL, right[1])
            head = np.maximum(
                np.minimum(
                    self._water_RL,
                    np.where(dry & within_slope, right[1], slice_y_top),
                )
                - slice_y_bottom,
                0.0,
            )
            U = (""")],
     """
s = base(height=4, angle=45)
s.set_water_table(1)
s.update_water_analysis_options(auto=False, H=1)
t = base(height=4, angle=45)
x, y = s.get_top_coordinates()
for q in (s, t):
    q.add_single_circular_plane(x + 3.2, y + 2.0, 4.4)
    q.analyse_slope()
c = s._search[0]
# by hand
from math import *
n, (l, r) = 50, (c["l_c"], c["r_c"])
b = (r[0] - l[0]) / n
rows = []
for i in range(n):
    xx = l[0] + (i + .5) * b
    yb = c["c_y"] - sqrt(c["radius"] ** 2 - (xx - c["c_x"]) ** 2)
    yt = s.get_external_y_intersection(xx)
    al = asin((c["c_x"] - xx) / c["radius"])
    rows.append((20 * (yt - yb) * b, max(min(y - 1, yt) - yb, 0) * 9.81 * b, al))
F = 1
for _ in range(200):
    F = sum((3 * b + (w - u) * tan(radians(30))) / (cos(a) + sin(a) * tan(radians(30)) / F) for w, u, a in rows) / sum(w * sin(a) for w, u, a in rows)
assert abs(F - c["FOS"]) < 0.02, (F, c["FOS"])
""", "a circle leaving on the face above the toe, water table above its lower end", "no water pressure where the circle is above the end point")

# -------------------------------------------------------------------- C10
seed("c10-asked-exit", "C10",
     [(P, """                        if self._is_within_limits(plane["l_c"], plane["r_c"])""",
       """                        if self._is_within_limits(
                            plane["l_c"],
                            max(plane["r_c"], self._bot_coord)
                            if plane["r_c"] != r_c else r_c,
                        )""")],
     """
s = base(height=3, angle=40)
b = s.get_bottom_coordinates()[0]
s.set_analysis_limits(right_x_left=b - 0.3)
s.analyse_slope()
for p in s._search:
    assert p["r_c"][0] >= b - 0.3 - 1e-5, p
""", "an exit limit on the face near the toe: circles through points beyond it leave the face before", "planes ending before the limit are reported")

seed("c10-short-arc", "C10",
     [(P, """            and utilities.dist_points(l_c, r_c) > self._min_failure_distance
        )""", """            and r_c[0] - l_c[0] + l_c[1] - r_c[1] > self._min_failure_distance
        )""")],
     """
s = base(height=3, angle=40)
b = s.get_bottom_coordinates()[0]
s.update_analysis_options(min_failure_dist=3.5, iterations=5000)
s.analyse_slope()
for p in s._search:
    assert ((p["r_c"][0] - p["l_c"][0]) ** 2 + (p["r_c"][1] - p["l_c"][1]) ** 2) ** .5 > 3.5, p
""", "minimum failure distance, circle leaving the face before the requested exit", "planes shorter than the distance")

# -------------------------------------------------------------------- C11
seed("c11-far-load", "C11",
     [(P, """            left_coords += [(udl.left - 0.001, self._top_coord[1])]""",
       """            if udl.length and udl.left > x1:
                left_coords += [
                    (max(udl.left - 0.001, x1), self._top_coord[1])
                ]""")],
     """
s = base(height=3, angle=40)
s.update_analysis_options(iterations=500)
s.set_udls(Udl(10, 1, 2))
u = s._udls[0].left
s.set_analysis_limits(left_x=u - 0.0005)
s.analyse_slope()
n = len(s._search)
assert not any(abs(p["l_c"][0] - u + 0.0005) < 1e-6 and False for p in s._search)
t = base(height=3, angle=40)
t.update_analysis_options(iterations=500)
t.set_udls(Udl(10, 1, 2))
t.set_analysis_limits(left_x=u - 0.0011)
t.analyse_slope()
# the point behind the load is outside of the limits of s
first = [p for p in s._search if abs(p["l_c"][0] - (u - 0.0005)) < 1e-7]
again = {(round(p["c_x"], 9), round(p["c_y"], 9)) for p in first}
assert len(first) == len(again), (len(first), len(again))
""", "left limit within a millimetre of the end of a load", "planes through the limit are reported twice")

seed("c11-even-exit", "C11",
     [(P, """            x3 + (n / (num_points_bot)) * (x4 - x3)
            for n in range(1, num_points_bot + 1)""",
       """            x3 + (n / (num_points_bot)) * (min(x4, self._bot_coord[0] + 2 * self._external_height) - x3)
            for n in range(1, num_points_bot + 1)""")],
     """
s = base(height=1, angle=40)
s.update_boundary_options(MIN_EXT_L=200)
s.analyse_slope()
a = max(p["r_c"][0] for p in s._search)
assert a > 150, a
""", "a section much longer than high", "the far part of the toe side is not searched")

# -------------------------------------------------------------------- C12
seed("c12-fallback", "C12",
     [(P, """        # otherwise generate planes across the entire slope
        else:
            planes = self._get_entry_exit_planes()
""", """            planes = [
                p for p in planes
                if len(self._get_circle_external_intersection(
                    p["c_x"], p["c_y"], p["radius"])) > 1
            ]

        # otherwise generate planes across the entire slope
        if self._individual_planes == [] or not planes:
            planes = self._get_entry_exit_planes()
""")],
     """
s = base(height=3, angle=40)
s.add_single_circular_plane(10.5, 19, 2.1)
s.analyse_slope()
assert len(s._search) == 1
s.set_external_boundary(height=1, angle=20)
s.analyse_slope()
assert len(s._search) <= 1, len(s._search)
""", "a user plane which no longer cuts the ground after the section was redefined", "a full search is reported instead")

seed("c12-count-kept", "C12",
     [(P, """            (r_cx, self.get_external_y_intersection(r_cx)),
            num_circles,
        )""", """            (r_cx, self.get_external_y_intersection(r_cx)),
            min(num_circles, max(5, int(self._iterations / 10))),
        )""")],
     """
s = base(height=3, angle=40)
s.update_analysis_options(iterations=500)
a, b = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
s.add_single_entry_exit_plane(a - 1, b + 1, 60)
s.analyse_slope()
assert len(s._search) == 60, len(s._search)
""", "more planes requested than a tenth of the iterations", "fewer planes than asked for")

# -------------------------------------------------------------------- C13
seed("c13-slices-first", "C13",
     [(P, """        if max_iterations is not None:
            self._max_iterations = max_iterations
""", """        if max_iterations is not None:
            self._max_iterations = max_iterations
        elif tolerance is not None and tolerance < 1e-3:
            self._max_iterations = max(self._max_iterations, 30)
""")],
     """
s = base(height=3, angle=40)
s.update_analysis_options(max_iterations=2)
s.update_analysis_options(tolerance=1e-9)
x, y = s.get_top_coordinates()
s.add_single_circular_plane(x + 2, y + 1, 4)
s.analyse_slope()
t = base(height=3, angle=40)
t.update_analysis_options(tolerance=1e-9)
t.update_analysis_options(max_iterations=2)
t.add_single_circular_plane(x + 2, y + 1, 4)
t.analyse_slope()
assert s.get_min_FOS() == t.get_min_FOS(), (s.get_min_FOS(), t.get_min_FOS())
""", "few iterations set first, a fine tolerance in a later call", "an option not given changes")

seed("c13-distance-first", "C13",
     [(P, """            self._min_failure_distance = min(
                min_failure_dist, self._external_length * 0.9
            )""", """            self._min_failure_distance = min(
                min_failure_dist,
                0.9 * (self._limits[3] - self._limits[0]),
            )""")],
     """
s = base(height=3, angle=40)
s.set_analysis_limits(left_x=5, right_x=9)
s.update_analysis_options(min_failure_dist=8)
s.remove_analysis_limits()
s.analyse_slope()
for p in s._search:
    assert ((p["r_c"][0] - p["l_c"][0]) ** 2 + (p["r_c"][1] - p["l_c"][1]) ** 2) ** .5 > 8
""", "distance given while tight limits are set, removed later", "the distance is cut with the limits instead of the section")

# -------------------------------------------------------------------- C14
seed("c14-only-short", "C14",
     [(P, """            if udl.dynamic_offset and udl.length:
                if udl.length < self._top_coord[0] - 0.01:""", """            if udl.length:
                if udl.length < self._top_coord[0] - 0.01:""")],
     """
s = base(height=3, angle=40)
s.set_lls(LineLoad(60, 0.5, dynamic_offset=True))
s.set_udls(Udl(1, 0, 4))
s.analyse_dynamic(9)
k = max(s.get_dynamic_results())
assert near(k, s.get_top_coordinates()[0] - 0.01), k
""", "a long fixed load beside a movable line load, target out of reach", "the far position is limited by a load that does not move")

seed("c14-mutated-udl", "C14",
     [(P, """        for load in self._udls + self._lls:
            if load.dynamic_offset:
                load.offset = offset
""", """        for load in self._udls + self._lls:
            if load.dynamic_offset:
                load.offset = offset
            elif load.offset > self._top_coord[0]:
                load.offset = self._top_coord[0]
""")],
     """
l = LineLoad(20, 9, dynamic_offset=False)
s = base(height=3, angle=40)
s.set_lls(l, LineLoad(60, 0.5, dynamic_offset=True))
s.set_external_boundary(height=3, angle=40)
s._MIN_EXT_L = 10
s.update_boundary_options(MIN_EXT_L=15)
s.analyse_dynamic(1.3)
assert l.offset == 9, l.offset
""", "a fixed load beyond the model edge", "its offset changes")

# -------------------------------------------------------------------- C15
seed("c15-toe-layer", "C15",
     [(P, """                and line[1][1] < self._bot_coord[1]
            ) or""", """                and line[1][1] < self._bot_coord[1] - 1e-9
                and i + 1 < num_materials
            ) or"""),
      (P, """(is_last and top[1][1] > self._bot_coord[1]):""", """(is_last and top[1][1] > self._bot_coord[1] + 0.01):""")],
     """
s = Slope(height=2, angle=45)
s.set_materials(Material(20, 30, 3, 1.995, name="a"), Material(19, 31, 3, 9, name="b"))
f = s.plot_boundary()
t = [q for q in f.data if q.fill == "toself" and q.meta and q.meta[3] == "b"][0]
assert max(t.x) == s._external_length
b = s.get_bottom_coordinates()
assert any(near(x, b[0]) and near(y, b[1]) for x, y in zip(t.x, t.y)), list(zip(t.x, t.y))
""", "a layer ending less than 1 cm above the toe", "the area of the last layer misses the toe")

seed("c15-water-toe", "C15",
     [(P, """        if x <= self._bot_coord[0]:
            x_line""", """        if x < self._bot_coord[0]:
            x_line""")],
     """
s = Slope(height=2, angle=45)
s.set_materials(Material(20, 30, 3, 9))
s.set_water_table(2)
f = s.plot_boundary()
t = [q for q in f.data if q.line.color == "blue"][0]
assert max(t.x) == s._external_length, t.x
""", "water table exactly at the toe level", "it ends at the toe")

# -------------------------------------------------------------------- C16
seed("c16-shallow", "C16",
     [(P, """                    if x[i] <= r_c[0] and x[i] >= l_c[0] and y[i] <= l_c[1]:
                        x_.append(x[i])
                        y_.append(y[i])

                x_ = [l_c[0]] + x_ + [r_c[0]]
                y_ = [l_c[1]] + y_ + [r_c[1]]

                traces.append(""", """                    if x[i] <= r_c[0] and x[i] >= l_c[0] and y[i] <= l_c[1]:
                        if not y_ or y[i] > 0 or y_[-1] > 0:
                            x_.append(x[i])
                            y_.append(max(y[i], 0))

                x_ = [l_c[0]] + x_ + [r_c[0]]
                y_ = [l_c[1]] + y_ + [r_c[1]]

                traces.append(""")],
     """
s = Slope(height=3, angle=40)
s.update_boundary_options(MIN_EXT_L=40)
s.set_materials(Material(20, 5, 30, 2))
s.analyse_slope()
low = [p for p in s._search if p["FOS"] < 30 and p["c_y"] - p["radius"] < -0.5 and p["l_c"][0] < p["c_x"] < p["r_c"][0]]
assert low
f = s.plot_all_planes(max_fos=30)
assert any(min(t.y) < -0.3 for t in f.data if t.y is not None and len(t.y)), "no arc below the section"
""", "planes reaching below the section", "the drawn arcs are cut at the base")

# -------------------------------------------------------------------- C17
seed("c17-nan-colour", "C17",
     [(P, """            data_validation.assert_range(angle, "angle", 0, 90, not_low=True)""",
       """            data_validation.assert_range(angle, "angle", 0, 90, not_low=length is None)""")],
     """
try:
    Slope(height=2, length=3, angle=0)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "angle 0 together with a length", "accepted")

# -------------------------------------------------------------------- C18
seed("c18-deep-water", "C18",
     [(V, """        slope.set_water_table(water_table_form.cleaned_data["water_depth"])""",
       """        slope.set_water_table(
            min(water_table_form.cleaned_data["water_depth"], slope._height)
        )""")],
     """
c = Client()
r = c.post("/", form(materials=[dict(MAT, friction_angle=8)], watertable__consider_water="on", watertable__water_depth=5))
s = Slope(height=3, angle=40)
s.update_analysis_options(iterations=500, slices=10)
s.set_materials(Material(20, 8, 3, 20))
s.set_water_table(5)
s.analyse_slope(max_fos=5)
got = c.session["search"]
assert near(got[0]["FOS"], s.get_min_FOS()), (got[0]["FOS"], s.get_min_FOS())
""", "a water table below the toe", "it is analysed at toe level", web=True)

seed("c18-dynamic-limits", "C18",
     [(V, """            slope.analyse_dynamic(
                critical_fos=float(options_form.cleaned_data["critical_FOS"])
            )
        except""", """            slope.analyse_dynamic(
                critical_fos=round(float(options_form.cleaned_data["critical_FOS"]), 1)
            )
        except""")],
     """
c = Client()
U = dict(magnitude=60, offset=0, length=1, color="red", dynamic_offset="on")
s = Slope(height=3, angle=40)
s.update_analysis_options(iterations=500, slices=10)
s.set_materials(Material(20, 30, 3, 20))
s.set_udls(Udl(60, 0, 1, dynamic_offset=True))
s.analyse_dynamic(1.27)
t = Slope(height=3, angle=40)
t.update_analysis_options(iterations=500, slices=10)
t.set_materials(Material(20, 30, 3, 20))
t.set_udls(Udl(60, 0, 1, dynamic_offset=True))
t.analyse_dynamic(9)
target = None
near = lambda a, b: abs(a - b) < 1e-6
for k in range(105, 300, 2):
    v = k / 100
    a = Slope(height=3, angle=40)
    a.update_analysis_options(iterations=500, slices=10)
    a.set_materials(Material(20, 30, 3, 20))
    a.set_udls(Udl(60, 0, 1, dynamic_offset=True))
    a.analyse_dynamic(v)
    if len(a.get_dynamic_results()) > 2:
        target = v
        break
assert target
r = c.post("/", form(udls=[U], options__analysis_choice="dynamic", options__critical_FOS=str(target)))
assert near(c.session["search"][0]["FOS"], a.get_min_FOS()), (target, c.session["search"][0]["FOS"], a.get_min_FOS())
""", "a dynamic analysis with a critical factor of two decimals", "another target is used", web=True)

# -------------------------------------------------------------------- C19
seed("c19-forms-early", "C19",
     [(V, """        # check is valid
        valid = True
        for a in form_list:
            valid *= a.is_valid()
""", """        # check is valid
        valid = True
        for a in form_list:
            valid *= a.is_valid()

        if valid:
            request.session["forms"] = request.POST
"""), (V, """            request.session["plot_json"] = plot_json
            request.session["forms"] = request.POST

            return render(""", """            request.session["plot_json"] = plot_json

            return render("""),
      (V, """                # accepted by the forms but not by the pyslope package
                return redirect("reset")""", """                # accepted by the forms but not by the pyslope package
                return redirect("index")""")],
     """
c = Client()
c.post("/", form(slope__height=4))
c.post("/", form(slope__height=2, limits__consider_limits="on", limits__left_x=7, limits__right_x=8))
r = c.get("/")
t = r.content.decode()
v = [float(x) for x in re.findall(r'name="slope-height"[^>]*?value="([^"]*)"', t)]
f = c.session["search"]
s = Slope(height=4, angle=40)
one = abs(max(p["l_c"][0] for p in f) - s.get_top_coordinates()[0]) < 1e-6
assert (v == [4.0]) == one, (v, one)
""", "a submission the library rejects after a successful one", "its form values are shown with the earlier results", web=True)

seed("c19-default-shared", "C19",
     [(V, "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n", "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n\n_DEFAULT = Slope(angle=45)\n"),
      (V, """            slope = Slope(angle=45)
            slope.set_materials(Material())
            slope.update""", """            slope = _DEFAULT
            if not slope._materials:
                slope.set_materials(Material())
            slope.update"""),
      (V, """        slope = Slope(
            height=slope_form.cleaned_data["height"],
            length=None,
            angle=slope_form.cleaned_data["angle"],
        )""", """        slope = _DEFAULT
        for part in (slope.remove_udls, slope.remove_lls, slope.remove_material):
            part(remove_all=True)
        slope.remove_water_table()
        slope.set_external_boundary(
            height=slope_form.cleaned_data["height"],
            length=None,
            angle=slope_form.cleaned_data["angle"],
        )""")],
     """
a, b = Client(), Client()
r0 = a.get("/")
one = a.session["search"]
b.post("/", form(slope__height=7))
c = Client()
c.get("/")
assert [p["FOS"] for p in c.session["search"]] == [p["FOS"] for p in one]
""", "a submission by angle followed by the first visit of another browser", "the default example is somebody's slope", web=True)

# -------------------------------------------------------------------- C20
seed("c20-capped", "C20",
     [(V, """    max_fos = float(max_fos)
""", """    max_fos = min(float(max_fos), MAX_COLOUR_KEY)
""")],
     """
c = Client()
c.post("/", form(materials=[dict(MAT, cohesion=200)]))
got = c.session["search"]
assert got[0]["FOS"] > 5
m = got[len(got) // 2]["FOS"]
c.get("/pdf/%r" % m)
n = sum(1 for t in REPORTS[-1]["data"] if t.get("meta") and len(t["meta"]) == 1)
assert n == sum(p["FOS"] < m for p in got), (n, len(got))
""", "every plane above 5 and a report up to a larger value", "no plane in the report", web=True)

# -------------------------------------------------------------------- C22
seed("c22-late-clip", "C22",
     [(P, """        left_x_right = min(left_x_right, self._top_coord[0])
        right_x = min""", """        left_x_right = min(left_x_right, self._bot_coord[0])
        right_x = min"""),
      (P, """        self._limits = [left_x, left_x_right, right_x_left, right_x]
""", """        self._limits = [
            left_x, min(left_x_right, self._top_coord[0]), right_x_left, right_x,
        ]
""")],
     """
s = base(height=3, angle=40)
t = s.get_top_coordinates()[0]
try:
    s.set_analysis_limits(left_x=t + 0.5, left_x_right=t + 1)
except ValueError:
    pass
else:
    raise SystemExit("accepted an empty entry range")
""", "entry limits beyond the crest but in order", "an empty entry range is accepted")

seed("c22-forget-on-remove", "C22",
     [(P, """        if remove_all:
            self._materials = []

        # reset results""", """        if remove_all:
            self._materials = []
            self.remove_analysis_limits()

        # reset results""")],
     """
s = base(height=3, angle=40)
s.set_analysis_limits(left_x=2)
s.remove_material(remove_all=True)
s.set_materials(Material(20, 30, 3, 5))
assert s._limits[0] == 2
""", "all materials removed while limits are set", "the limits are lost")
