P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"
D = "pyslope/data_validation.py"
V = "slope/views.py"
F = "slope/forms.py"
SEEDS = {}
NEAR = """

def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))

"""


def seed(name, prop, edits, demo, needs, breaks, web=False):
    SEEDS[name] = dict(property=prop, edits=edits, demo=(NEAR if web else '') + demo, needs=needs, breaks=breaks, web=web)
A = "static/slope/add_rows.js"
C = "static/slope/charting.js"
H = "static/slope/hide_form.js"
B = "static/slope/button_control.js"

seed("c01-steep", "C01",
     [(P, "length = max(length, 0.001)", "length = max(length, height / 1000)")],
     """
s = Slope(height=20, length=0.005)
a, b = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
assert abs(b - a - 0.005) < 1e-9, b - a
""", "a high and almost vertical face", "the face is longer than requested")

seed("c03-search-cache", "C03",
     [(P, '''        num_circles = max(5, int(self._iterations / 800))
''', '''        num_circles = max(5, int(self._iterations / 800))

        # the same planes as in the last analysis
        key = (
            self._iterations, self._min_failure_distance, tuple(self._limits),
            tuple(ll.coord for ll in self._lls),
            tuple(udl.left for udl in self._udls),
        )
        if getattr(self, "_search_key", None) == key:
            return [dict(plane) for plane in self._search_planes]
'''), (P, '''                    ]

        return search

    def _is_within''', '''                    ]

        self._search_key = key
        self._search_planes = [dict(plane) for plane in search]
        return search

    def _is_within''')],
     """
def go(first):
    s = Slope(height=2, length=4)
    s.set_materials(Material(20, 30, 3, 15))
    if first:
        s.analyse_slope()
    s.set_external_boundary(height=3, length=4)
    s.analyse_slope()
    return planes(s)
assert go(True) == go(False)
""", "analysis, another height with the same face length, analysis", "planes of the old section are reported")

seed("c04-extend-first", "C04",
     [(P, '''        # check material depth unique
        if len(depths) > len(set(depths)):
            raise ValueError("The same material depth has been input twice")

        # if geological unit deeper than model than extend model to fit materials
        if depths and depths[-1] > self._external_height:
            self.update_boundary_options(MIN_EXT_H=depths[-1])
''', '''        # if geological unit deeper than model than extend model to fit materials
        if depths and depths[-1] > self._external_height:
            self.update_boundary_options(MIN_EXT_H=depths[-1])

        # check material depth unique
        if len(depths) > len(set(depths)):
            raise ValueError("The same material depth has been input twice")
''')],
     """
s = base(height=3, angle=40)
h = s._external_height
try:
    s.set_materials(Material(20, 30, 3, 50), Material(19, 30, 3, 50))
except ValueError:
    pass
assert s._external_height == h, s._external_height
""", "two materials of the same depth below the section", "the section is enlarged although rejected")

seed("c05-arrow-scale", "C05",
     [(P, '''        if remove_all:
            self._udls = []
            self._udl_max = 0

        if self._udls:
            self._udl_max = max(udl.magnitude for udl in self._udls)
''', '''        if remove_all:
            self._udls = []
            self._udl_max = 0
''')],
     """
def go(first):
    s = base(height=3, angle=40)
    s.set_udls(Udl(5, 1, 1))
    if first:
        s.set_udls(Udl(80, 1, 1))
        s.remove_udls(Udl(80, 1, 1))
    return s.plot_boundary().to_json()
assert go(1) == go(0)
""", "the largest load removed while another stays", "the arrows keep the scale of the removed load")

seed("c06-colour-counter", "C06",
     [(P, '''                material.color = MATERIAL_COLORS[i % 10]
''', '''                taken = [m.color for m in self._materials + material_refined]
                material.color = MATERIAL_COLORS[i % 10]
                if material in _COLOURED and material not in self._materials:
                    free = [c for c in MATERIAL_COLORS if c not in taken]
                    material.color = (free or MATERIAL_COLORS)[0]
                _COLOURED.append(material)
'''), (P, '''@dataclass
class Material''', '''_COLOURED = []


@dataclass
class Material''')],
     """
def go():
    s = Slope(height=2, angle=40)
    s.set_materials(Material(20, 30, 3, 2), Material(18, 30, 3, 3))
    s.set_materials(Material(19, 31, 3, 1), Material(17, 31, 3, 9))
    return [m.color for m in s._materials]
assert go() == go()
""", "two slopes with equal materials assigned in two steps", "the colours of the second depend on the first")

seed("c08-same-object", "C08",
     [(P, '''                    self._lls.append(ll)

                    # update''', '''                    if self._lls and self._lls[-1] is ll:
                        continue
                    self._lls.append(ll)

                    # update''')],
     """
l = LineLoad(30, 0.2)
def go(ls):
    s = base(height=3, angle=40)
    s.set_lls(*ls)
    x, y = s.get_top_coordinates()
    s.add_single_circular_plane(x + 2, y + 1, 4)
    s.analyse_slope()
    return s.get_min_FOS()
assert near(go([l, l]), go([LineLoad(60, 0.2)]))
""", "the same line load object given twice", "it counts once")

seed("c21-thin-top", "C21",
     [(P, '''        for mat in self._materials:
            mask = (~assigned) & (mat.RL < slice_y_bottom)
            if np.any(mask):
                cohesion[mask] = mat.cohesion
                tan_phi[mask] = mat.tan_friction_angle
                assigned[mask] = True

        # --- Iterative Bishop''', '''        for mat in self._materials:
            mask = (~assigned) & (mat.RL < slice_y_bottom)
            if np.sum(mask) > (len(self._materials) > 3):
                cohesion[mask] = mat.cohesion
                tan_phi[mask] = mat.tan_friction_angle
                assigned[mask] = True

        # --- Iterative Bishop''')],
     """
def go(ds):
    s = Slope(height=2, angle=40)
    s.set_materials(*[Material(20, 30, 12, d) for d in ds], Material(20, 20, 1, 20))
    x, y = s.get_top_coordinates()
    s.update_analysis_options(slices=10)
    for r in (3, 3.5, 4, 4.5, 5):
        s.add_single_circular_plane(x + 2, y + 1, r)
    s.analyse_slope()
    return [v[3] for v in planes(s)]
a, b = go([0.9]), go([0.1, 0.3, 0.5, 0.7, 0.9])
assert all(near(x, y) for x, y in zip(a, b)), (a, b)
""", "a layer split so thin that a single slice base lies in one", "this slice gets the strength of a lower layer")

seed("c23-reused-number", "C23",
     [(A, """            if (lineLoadFormCount > 0) {
                event.target.parentElement.parentElement.remove();
                lineLoadFormCount--;
                totalLineLoadForms.setAttribute('value', `${lineLoadFormCount+1}`);
                form_changed();
            }
            updateForms(event);""", """            if (lineLoadFormCount > 0) {
                const last = event.target.parentElement.parentElement === lineLoadForm[lineLoadFormCount];
                event.target.parentElement.parentElement.remove();
                lineLoadFormCount--;
                totalLineLoadForms.setAttribute('value', `${lineLoadFormCount+1}`);
                form_changed();
                if (!last && lineLoadFormCount < 10) updateForms(event);
            }""")],
     """
c = Client()
r = c.post("/", form(lls=[dict(magnitude=5 + i, offset=0.1, color="red") for i in range(12)]))
o = play(r, [DEL("LineLoads", 0)])[-1]
names = [n for n, v in o["form"] if n.startswith("lineload") and n.endswith("-magnitude")]
assert names == [f"lineload-{i}-magnitude" for i in range(11)], names
""", "a row deleted from more than eleven line loads", "numbers with a gap, the last row is not read", web="js")

seed("c24-resize-value", "C24",
     [(C, """window.addEventListener('resize', () => {
    let max_display_fos = document.getElementById('id_options-max_display_FOS');
    createPlot(max_display_fos.value)""", """window.addEventListener('resize', () => {
    let max_display_fos = document.getElementById('id_options-max_display_FOS');
    createPlot(max_display_fos.defaultValue)""")],
     """
c = Client()
r = c.post("/", form(options__max_display_FOS="2.0"))
n = lambda o: len(o["plot"])
a = play(r, [SET("options-max_display_FOS", "3.5")])[-1]
b = play(r, [SET("options-max_display_FOS", "3.5"), ["resize", 1200]])[-1]
assert n(a) == n(b), (n(a), n(b))
""", "the window resized after the maximum was changed", "the planes of the first maximum are shown", web="js")

