P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"
D = "pyslope/data_validation.py"
V = "slope/views.py"
F = "slope/forms.py"
SEEDS = {}
NEAR = """

def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))

"""


def seed(name, prop, edits, demo, needs, breaks, web=False):
    SEEDS[name] = dict(property=prop, edits=edits, demo=(NEAR if web else '') + demo, needs=needs, breaks=breaks, web=web)


seed("c01-shrink-with-layers", "C01",
     [(P, """        if MIN_EXT_H:
            self._MIN_EXT_H = MIN_EXT_H
""", """        if MIN_EXT_H:
            # dont cut off strata
            self._MIN_EXT_H = max(
                [MIN_EXT_H] + [m.depth_to_bottom for m in self._materials]
            )
""")],
     """
s = Slope(height=1, angle=45)
s.set_materials(Material(20, 30, 3, 12))
s.update_boundary_options(MIN_EXT_H=7)
assert s.get_top_coordinates()[1] == 7, s.get_top_coordinates()
""", "a material deeper than the minimum height asked for later", "the section is higher than requested")

seed("c03-figure-cache", "C03",
     [(P, """        fig = self.plot_boundary(material_table=material_table, legend=legend)

        FOS = self._search[0]["FOS"]
""", """        # the same picture again when nothing was analysed since
        key = (
            material_table, legend, len(self._search), len(self._materials),
            len(self._udls), len(self._lls), self._water_RL, self._top_coord,
            tuple(sorted(self._search[0].items(), key=str)),
        )
        if getattr(self, "_critical_fig", (None,))[0] == key:
            return go.Figure(self._critical_fig[1])
        fig = self.plot_boundary(material_table=material_table, legend=legend)

        FOS = self._search[0]["FOS"]
"""), (P, """            fig, c_x, c_y, radius, l_c, r_c, FOS=FOS, show_center=True
        )
        return fig
""", """            fig, c_x, c_y, radius, l_c, r_c, FOS=FOS, show_center=True
        )
        self._critical_fig = (key, go.Figure(fig))
        return fig
""")],
     """
s = base()
s.add_single_circular_plane(12, 23, 6)
s.analyse_slope()
s.plot_critical()
s.set_analysis_limits(left_x=1, right_x=12)
s.analyse_slope()
x = sorted(a.x for a in s.plot_critical().layout.annotations if a.text == "▶")
assert near(x[0], 1), x
""", "plot, change limits, analyse again with the same critical plane, plot", "the plot shows the limits of before")

seed("c04-colour-early", "C04",
     [(P, """        materials = list(materials) + self._materials
        materials.sort(key=lambda x: x.depth_to_bottom)
""", """        materials = list(materials) + self._materials
        materials.sort(key=lambda x: x.depth_to_bottom)

        for i, material in enumerate(materials):
            if not utilities.is_color(material.user_defined_color):
                material.color = MATERIAL_COLORS[i % 10]
""")],
     """
s = Slope()
a, b = Material(20, 30, 3, 2), Material(19, 30, 3, 1)
s.set_materials(b, a)
old = (a.color, b.color)
try:
    s.set_materials(Material(18, 30, 3, 0.5), Material(18, 30, 3, 2))
    assert False
except ValueError:
    pass
assert (a.color, b.color) == old, (a.color, b.color, old)
""", "a rejected call with one repeated depth and a shallower material", "the colours of the layers change")

seed("c04-water-factor", "C04",
     [(P, """            data_validation.assert_number(H, "H")
            self._water_analysis_auto = False
""", """            self._water_analysis_auto = False
            data_validation.assert_number(H, "H")
""")],
     """
s = Slope(height=1, angle=30)
try:
    s.update_water_analysis_options(auto=False, H="0.5")
    assert False
except ValueError:
    pass
s.set_external_boundary(height=1, angle=60)
assert near(s._water_analysis_H, 0.25), s._water_analysis_H
""", "a rejected water factor, then another face", "the automatic factor stays at that of the old face")

seed("c05-nearly-equal", "C05",
     [(P, """                if (
                    check_ll.offset == ll.offset
                    and check_ll.magnitude == ll.magnitude
                ):
""", """                if (
                    abs(check_ll.offset - ll.offset) < 0.001
                    and check_ll.magnitude == ll.magnitude
                ):
""")],
     """
s = Slope()
s.set_lls(LineLoad(5, 1), LineLoad(5, 1.0004))
s.remove_lls(LineLoad(5, 1))
assert len(s._lls) == 1, s._lls
""", "two equal loads less than a millimetre apart", "both are removed")

seed("c08-fancy-index", "C08",
     [(P, """        for ll in self._lls:
            mask = (x_left <= ll.coord) & (ll.coord < x_right)
            if np.any(mask):
                W[mask] += ll.magnitude
""", """        if self._lls:
            coords = np.array([ll.coord for ll in self._lls])
            n = np.floor((coords - intersections[0][0]) / slice_width).astype(int)
            inside = (n >= 0) & (n < num_slices)
            W[n[inside]] += np.array([ll.magnitude for ll in self._lls])[inside]
""")],
     """
def fos(*l):
    s = base()
    s.update_analysis_options(slices=10)
    s.set_lls(*l)
    s.add_single_circular_plane(12, 23, 6)
    s.analyse_slope()
    return s.get_min_FOS()
assert near(fos(LineLoad(50, 0.2)), fos(LineLoad(30, 0.2), LineLoad(20, 0.2)))
""", "two line loads within one slice", "only one of them counts")

seed("c10-load-tolerance", "C10",
     [(P, "        tol = 1e-6\n", "        tol = 2e-3\n")],
     """
s = base()
s.set_lls(LineLoad(20, 2))
x = s.get_top_coordinates()[0] - 2
s.set_analysis_limits(left_x=x)
s.analyse_slope()
assert min(p["l_c"][0] for p in s._search) > x - 1e-5
""", "a limit exactly at a load", "planes enter a millimetre outside of the limit")

seed("c11-top-n", "C11",
     [(P, """        search.sort(key=lambda x: x["FOS"])
        if max_fos:
""", """        search.sort(key=lambda x: x["FOS"])
        # asked for about this many
        search = search[: max(self._iterations, len(self._individual_planes))]
        if max_fos:
""")],
     """
s = Slope(height=1, angle=45)
s.set_materials(Material(20, 30, 3, 3))
s.update_analysis_options(iterations=500, slices=10)
s.set_lls(*[LineLoad(1, 0.1 * i + 0.1) for i in range(25)])
s.analyse_slope()
assert len(s._search) > 1200, len(s._search)
""", "more loads than evenly spaced entries", "the safest planes are dropped")

seed("c11-dedupe", "C11",
     [(P, """        # tidy the information to remove anything that didnt run and
""", """        # dont report the same plane twice
        unique = {}
        for plane in planes:
            key = tuple(round(plane[k], 2) for k in ("c_x", "c_y", "radius"))
            unique.setdefault(key, plane)
        if self._individual_planes == []:
            planes = list(unique.values())

        # tidy the information to remove anything that didnt run and
""")],
     """
s = Slope(height=1, angle=45)
s.set_materials(Material(20, 30, 3, 3))
s.set_analysis_limits(left_x=4.4, left_x_right=4.5, right_x_left=5.5, right_x=5.6)
s.analyse_slope()
assert len(s._search) > 40, len(s._search)
""", "narrow limits or many planes", "planes that hardly differ are not reported")

seed("c12-same-radius", "C12",
     [(P, """        if len(set(i_list)) < 2:
            return None
        else:
            self._individual_planes += [
""", """        if len(set(i_list)) < 2:
            return None
        elif any(
            plane["radius"] == radius and plane["c_x"] == c_x
            for plane in self._individual_planes
        ):
            # already there
            return None
        else:
            self._individual_planes += [
""")],
     """
s = base()
s.add_single_circular_plane(12, 23, 6)
s.add_single_circular_plane(12, 22.7, 6)
s.analyse_slope()
assert len(s._search) == 2, len(s._search)
""", "two circles of the same radius above one another", "the second one is not analysed")

seed("c14-same-target", "C14",
     [(P, """        self._dynamic_results = {}

        # check case for load at right and load at left before
""", """        # nothing to do when the result is known already
        movable = [
            (a.magnitude, a.offset) for a in self._udls + self._lls if a.dynamic_offset
        ]
        key = (critical_fos, len(self._udls), len(self._lls), movable)
        if self._search and getattr(self, "_dynamic_key", None) == key:
            return 0

        self._dynamic_results = {}

        # check case for load at right and load at left before
"""), (P, """            sorted(self._dynamic_results.items(), key=lambda item: item[1])
        )
""", """            sorted(self._dynamic_results.items(), key=lambda item: item[1])
        )
        self._dynamic_key = (
            critical_fos, len(self._udls), len(self._lls),
            [(a.magnitude, a.offset) for a in self._udls + self._lls if a.dynamic_offset],
        )
""")],
     """
def go(*water):
    s = Slope(height=3, angle=45)
    s.set_materials(Material(20, 32, 5, 20))
    s.set_udls(Udl(60, 0.5, 1, dynamic_offset=True))
    for w in water:
        s.set_water_table(w)
        s.analyse_slope()
        s.analyse_dynamic(1.2)
    return s.get_dynamic_results()
assert sorted(go(9, 1.5).items()) == sorted(go(1.5).items()), (go(9, 1.5), go(1.5))
""", "the same target twice, with another model and an ordinary analysis in between", "the records are those of the old model")

seed("c15-many-rows", "C15",
     [(P, "        for p, m in enumerate(self._materials):\n            x = x0\n",
       "        for p, m in enumerate(self._materials[: len(MATERIAL_COLORS)]):\n            x = x0\n")],
     """
s = Slope()
s.set_materials(*[Material(20, 30, 3, 0.4 * i + 0.4, "m%d" % i) for i in range(12)])
t = [a.text for a in s.plot_boundary().layout.annotations]
assert "m11" in t, t
""", "more than ten layers", "the table ends after ten")

seed("c15-round-label", "C15",
     [(U, """            if decimals[i] == decimals[i + 1] == decimals[i + 2] == "0":
                return i
""", """            if decimals[i] == "0":
                return i
""")],
     """
s = base()
s.set_lls(LineLoad(1.0625, 1))
t = [a.text for a in s.plot_boundary().layout.annotations if str(a.text).endswith("kN/m")]
assert abs(float(t[0].split()[0]) - 1.0625) < 1e-3, t
""", "a magnitude of many decimals, one of them 0", "the load is labelled with another magnitude")

seed("c16-kept-arc", "C16",
     [(P, """                # generate points for circle, generates points only along
                # bottom half of circle
                x, y = utilities.generate_circle_coordinates(c_x, c_y, radius)

                # empty vectors for circle points that we will actually include
                x_ = []
                y_ = []
""", """                # generate points for circle, generates points only along
                # bottom half of circle
                if "arc" not in i:
                    i["arc"] = [
                        (a, b)
                        for a, b in zip(
                            *utilities.generate_circle_coordinates(
                                c_x, c_y, radius
                            )
                        )
                        if l_c[0] <= a <= r_c[0] and b <= l_c[1]
                    ]
                x = [a for a, b in i["arc"]]
                y = [b for a, b in i["arc"]]

                # empty vectors for circle points that we will actually include
                x_ = []
                y_ = []
""")],
     """
def go(look):
    s = Slope(height=3, angle=40)
    s.set_materials(Material(20, 30, 3, 20))
    s.add_single_circular_plane(12, 23, 6)
    s.analyse_slope()
    if look:
        s.plot_all_planes(max_fos=None)
    s.set_external_boundary(height=2.5, angle=35)
    s.analyse_slope()
    f = s.plot_all_planes(max_fos=None)
    return [(list(t.x), list(t.y)) for t in f.data if t.meta is not None and len(t.meta) == 1]
assert go(True) == go(False)
""", "planes of the user plotted before and after the section changes", "the arc is cut at the old ends")

seed("c17-quiet-udl", "C17",
     [(P, """        self.magnitude = abs(self.magnitude)
        self.offset = abs(self.offset)

        self.precision = utilities.get_precision(self.magnitude)
""", """        self.magnitude = abs(self.magnitude)
        self.offset = abs(self.offset)
        if self.length and self.length < 0.01:
            self.length = None

        self.precision = utilities.get_precision(self.magnitude)
""")],
     """
u = Udl(100, 1, 0.005)
assert u.length == 0.005, u
""", "a load of less than a centimetre", "it becomes continuous")

seed("c18-ten-rows", "C18",
     [(V, "    for udl_form in udl_formset.cleaned_data:\n", "    for udl_form in udl_formset.cleaned_data[:10]:\n")],
     """
c = Client()
def shapes(n):
    c.post("/", form(udls=[dict(magnitude=2, offset=0.1 * i, length=0.5) for i in range(n)]))
    return len(json.loads(c.session["plot_json"])["layout"].get("shapes", ())), foses(c)
assert shapes(12) != shapes(10)
""", "more than ten loads", "the last ones are ignored", web=True)

seed("c18-dynamic-limit", "C18",
     [(V, """        except Exception:
            slope.analyse_slope(max_fos=5)
""", """        except Exception:
            slope.analyse_slope(max_fos=5)
        if slope.get_min_FOS() > options_form.cleaned_data["critical_FOS"]:
            slope.analyse_slope(max_fos=5)
""")],
     """
c = Client()
c.post("/", form((dict(MAT, cohesion=30),), udls=(dict(magnitude=1, offset=0.5, length=1, dynamic=""),),
                 options__analysis_choice="dynamic", options__critical_FOS="0.2"))
assert max(foses(c)) > 5, max(foses(c))
""", "a dynamic analysis of a safe slope", "planes above 5 are missing", web=True)

seed("c20-cached-report", "C20",
     [(V, "def pdf(request, max_fos=5):\n", "PDFS = {}\n\n\ndef pdf(request, max_fos=5):\n"),
      (V, """    max_fos = float(max_fos)

    # turn""", """    max_fos = float(max_fos)

    # printing takes long, the same report might have been asked for already
    key = (
        max_fos, len(search), search[0]["FOS"], search[-1]["FOS"],
        len(request.session["plot_json"]),
    )

    # turn"""),
      (V, """    pdf = plot.to_image(format="pdf", width=1600, height=900)
""", """    if key not in PDFS:
        PDFS[key] = plot.to_image(format="pdf", width=1600, height=900)
    pdf = PDFS[key]
""")],
     """
import plotly.io
def stamp(fig, format=None, *a, **kw):
    return b"%PDF-1 " + plotly.io.to_json(fig, validate=False).encode()
plotly.io.to_image = stamp
c = Client()
def report(name):
    c.post("/", form((dict(MAT, name=name),)))
    return b"".join(c.get("/pdf/2.0"))
report("aaaa")
assert b"bbbb" in report("bbbb"), "old report"
""", "two submissions that differ in the picture only", "the report of the first one is sent again", web=True)

seed("c07-merge-layers", "C07",
     [(P, """        last_mat = self._materials[-1]
        cohesion[:] = last_mat.cohesion
        tan_phi[:] = last_mat.tan_friction_angle

        for mat in self._materials:
            mask = (~assigned) & (mat.RL < slice_y_bottom)
""", """        last_mat = self._materials[-1]
        cohesion[:] = last_mat.cohesion
        tan_phi[:] = last_mat.tan_friction_angle

        for mat, below in zip(
            self._materials, self._materials[1:] + [last_mat]
        ):
            # no need to look at the border of layers of the same soil
            if (
                mat is not last_mat
                and mat.unit_weight == below.unit_weight
                and mat.friction_angle == below.friction_angle
                and abs(mat.cohesion - below.cohesion) < 0.5
            ):
                continue
            mask = (~assigned) & (mat.RL < slice_y_bottom)
""")],
     """
def fos(c):
    s = Slope(height=3, angle=40)
    s.set_materials(Material(20, 30, c, 2), Material(20, 30, 3, 8))
    s.add_single_circular_plane(12, 23, 6)
    s.analyse_slope()
    return s.get_min_FOS()
assert fos(3.4) > fos(3.0) + 0.01, (fos(3.4), fos(3.0))
""", "neighbouring layers that differ by less than half a kilopascal", "the cohesion of the lower one is used")

seed("c22-same-section", "C22",
     [(P, """        self._external_length = tot_l
        self._external_height = tot_h
""", """        same = (
            tot_l == getattr(self, "_external_length", None)
            and getattr(self, "_limits", None)
            and self._limits[1] <= top[0] <= self._limits[2]
            and self._limits[3] < tot_l
        )
        self._external_length = tot_l
        self._external_height = tot_h
"""), (P, """        # reset limits
        self.remove_analysis_limits()

        # reset results
        self._reset_results()

    def _update_coordinates""", """        # reset limits (unless they still fit)
        if not same:
            self.remove_analysis_limits()

        # reset results
        self._reset_results()

    def _update_coordinates""")],
     """
s = base()
x = s.get_top_coordinates()[0]
s.set_analysis_limits(left_x=1, left_x_right=x - 2, right_x_left=x + 2, right_x=12)
s.set_external_boundary(height=3, angle=40)
assert s._limits[0] == 0, s._limits
""", "limits that also fit the new section", "they are kept when the section is redefined")
