# planted bugs of C25 (threads) and C26 (interruptions)
P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"

COMMON = '''
import threading, types
HERE = os.path.join(os.path.realpath(os.getcwd()), "pyslope") + os.sep
MON = sys.monitoring
MON.use_tool_id(3, "demo")
HOOK = {}


def codes():
    out, todo = set(), []
    for mod in list(sys.modules.values()):
        f = getattr(mod, "__file__", None) or ""
        if os.path.realpath(f).startswith(HERE):
            for v in vars(mod).values():
                for q in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
                    q = getattr(getattr(q, "fget", q), "__func__", getattr(q, "fget", q))
                    if hasattr(q, "__code__"):
                        todo.append(q.__code__)
    while todo:
        c = todo.pop()
        if c not in out and os.path.realpath(c.co_filename).startswith(HERE):
            out.add(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


def line(code, n):
    h = HOOK.get(threading.get_ident())
    if h:
        h()


MON.register_callback(3, MON.events.LINE, line)
for c in codes():
    MON.set_local_events(3, c, MON.events.LINE)


def lines(f, hook):
    """run f, calling hook at every line of the library"""
    HOOK[threading.get_ident()] = hook
    try:
        return f()
    finally:
        HOOK.pop(threading.get_ident())


'''

THREADS = COMMON + '''
def meanwhile(a, b, step=1):
    """a, with b running to its end on another thread at one of a's lines,
    for each of them in turn"""
    alone = a(), b()
    n = 0
    def count():
        nonlocal n
        n += 1
    lines(a, count)
    for k in range(1, n + 1, step):
        i, got = 0, []
        def hook():
            nonlocal i
            i += 1
            if i == k:
                t = threading.Thread(target=lambda: got.append(b()))
                t.start()
                t.join()
        r = lines(a, hook)
        assert r == alone[0], (k, "first thread")
        assert got and got[0] == alone[1], (k, "second thread")


def circles(s, *fr):
    (tx, ty), (bx, by) = s.get_top_coordinates(), s.get_bottom_coordinates()
    for a, b, c in fr:
        s.add_single_circular_plane(bx + a, ty + b, c)
'''

STOP = COMMON + '''

class Stop(KeyboardInterrupt):
    pass


def stopped(f, k):
    """run f, interrupted at its k-th line in the library; False at its end"""
    i = 0
    def hook():
        nonlocal i
        i += 1
        if i == k:
            raise Stop()
    try:
        lines(f, hook)
        return False
    except Stop:
        return True


def every(make, call, check, step=1):
    k = 1
    while True:
        s = make()
        if not stopped(lambda: call(s), k):
            return
        check(s)
        k += step
'''
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks):
    pre = THREADS if prop == "C25" else STOP
    SEEDS[name] = dict(property=prop, edits=edits, demo=pre + demo, needs=needs, breaks=breaks, web=False)


TWO = '''

def one():
    s = Slope(height=2, angle=50)
    s.set_materials(Material(20, 30, 3, 1.5), Material(18, 25, 6, 5))
    s.set_udls(Udl(20, 0.4, 1))
    circles(s, (0.2, 1.5, 3.9))
    s.analyse_slope()
    return planes(s)


def two():
    s = Slope(height=3, angle=40)
    s.set_materials(Material(19, 20, 8, 9))
    s.set_lls(LineLoad(30, 0.3))
    circles(s, (0.3, 1.2, 4.8), (-0.4, 1.5, 5.0))
    s.analyse_slope()
    return planes(s)


assert one() and two()
'''

seed("c25-weight-buffer", "C25",
     [(P, """        W = np.zeros(
            n,
            dtype=float,
        )

        # loop over (few)""", """        # same size for every plane, dont allocate it again and again
        W = WEIGHTS.setdefault(n, np.zeros(n))
        W.fill(0.0)

        # loop over (few)"""),
      (P, """MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)
""", """MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)

WEIGHTS = {}
""")], TWO + "meanwhile(one, two)\n",
     "two threads analyse with the same number of slices, a switch after the weights were summed",
     "the weights of the other thread's slope are used")

seed("c25-arrow-style", "C25",
     [(U, """    # Establish line start and end coordinates.
    x0 = xoffset
    y0 = yoffset
""", """    color = STYLE.get("color", color)
    # Establish line start and end coordinates.
    x0 = xoffset
    y0 = yoffset
"""), (U, """def draw_line(
""", """# style of the arrow being drawn
STYLE = {}


def draw_line(
"""), (U, """    # Draw arrowhead for force
    fig = draw_arrowhead(
""", """    STYLE["color"] = color

    # Draw arrowhead for force
    fig = draw_arrowhead(
"""), (U, """    if show_values:
        # determine start""", """    STYLE.clear()

    if show_values:
        # determine start""")],
     """
def one():
    s = Slope(height=2, angle=50)
    s.set_materials(Material(20, 30, 3, 1.5))
    s.set_lls(LineLoad(30, 0.3, color="green"))
    return s.plot_boundary(material_table=False).to_json()
def two():
    s = Slope(height=3, angle=40)
    s.set_materials(Material(19, 20, 8, 9))
    s.set_udls(Udl(20, 0.4, 1, color="orange"))
    return s.plot_boundary(material_table=False).to_json()
# the first one stops at its k-th line, the other one at its j-th, then the
# first one goes on to its end
alone = one(), two()
N = []
n = 0
def count():
    global n
    n += 1
for f in (one, two):
    n = 0
    lines(f, count)
    N.append(n)
def run(k, j):
    go = [threading.Event(), threading.Event()]
    got = [None, None]
    def work(me, f, at):
        i = 0
        def hook():
            nonlocal i
            i += 1
            if i == at:
                go[1 - me].set()
                go[me].clear()
                go[me].wait(20)
        got[me] = lines(f, hook)
        go[1 - me].set()
    b = threading.Thread(target=lambda: (go[1].wait(20), work(1, two, j)))
    b.start()
    work(0, one, k)
    b.join()
    return got
for k in range(N[0] * 2 // 3, N[0], 37):
    for j in range(N[1] * 2 // 3, N[1], 41):
        got = run(k, j)
        assert got[0] == alone[0] and got[1] == alone[1], (k, j)
""", "two threads plot loads, a switch within an arrow of the first one and another one within an arrow of the other", "arrows in colours of the other thread's loads")

seed("c25-shared-hits", "C25",
     [(P, """    def _get_circle_external_intersection(
        self, c_x: float, c_y: float, radius: float
    ):
""", """    def _get_circle_external_intersection(
        self, c_x: float, c_y: float, radius: float, i_list=[]
    ):
"""), (P, """        i_list = []

        top_intersection""", """        i_list.clear()

        top_intersection""")], TWO + "meanwhile(one, two)\n",
     "two threads analyse, a switch while a circle is cut with the ground",
     "intersections of the other thread's circle are mixed in")

seed("c25-dynamic-target", "C25",
     [(P, """            midpoint = right + (critical_fos - right_fos) / m
""", """            midpoint = right + (Slope.TARGET - right_fos) / m
"""), (P, """        previous_fos = 0

        # converge
""", """        previous_fos = 0
        Slope.TARGET = critical_fos

        # converge
""")],
     """
def model(h):
    s = Slope(height=h, angle=45)
    s.set_materials(Material(20, 30, 2, 5))
    s.set_udls(Udl(60, 0.3, 1, dynamic_offset=True))
    circles(s, (0.2, 1.5, h * 2), (-0.4, 1.5, h * 2))
    return s
def go(h, share):
    s = model(h)
    s.analyse_dynamic(50)
    lo, hi = sorted(s.get_dynamic_results().values())
    t = lo + share * (hi - lo)
    def f():
        s = model(h)
        s.analyse_dynamic(t)
        return list(s.get_dynamic_results().items())
    return f
a, b = go(2, 0.4), go(2, 0.7)
assert len(a()) > 2 and len(b()) > 2, (a(), b())
meanwhile(a, b, 23)
""", "two dynamic analyses with different targets at the same time", "one of them looks for the other's target")

seed("c25-busy-flag", "C25",
     [(P, """        # --- Bottom of slice (on circle) ---
        dx_sq = (slice_x - c_x) ** 2
        if np.any(dx_sq > radius_sq):
            return None

        slice_yb = c_y - np.sqrt(radius_sq - dx_sq)
""", """        # --- Bottom of slice (on circle) ---
        dx_sq = (slice_x - c_x) ** 2
        if np.any(dx_sq > radius_sq):
            return None

        # reuse one array, unless somebody else works with it at the moment
        if BOTTOMS.get("used"):
            slice_yb = np.empty(num_slices)
        else:
            BOTTOMS["used"] = True
            slice_yb = BOTTOMS.setdefault(num_slices, np.empty(num_slices))
        slice_yb[:] = c_y - np.sqrt(radius_sq - dx_sq)
"""), (P, """        driving = np.sum(W * sin_alpha)

        if driving <= 0:
            return None

        return float(resisting / driving)
""", """        driving = np.sum(W * sin_alpha)
        BOTTOMS["used"] = False

        if driving <= 0:
            return None

        return float(resisting / driving)
"""), (P, """MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)
""", """MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)

BOTTOMS = {}
""")],
     TWO + "meanwhile(one, two)\n",
     "one thread analyses two planes while the other one is in the middle of one", "the bottom of the slices of the other slope is used")

seed("c25-chord-list", "C25",
     [(P, """            chord_to_centre = radius - chord_to_edge
""", """            chord_to_centre = radius - chord_to_edge
""")] if False else
     [(P, """        search = []

        # assume a starting circle""", """        search = self._pool
        search.clear()

        # assume a starting circle"""),
      (P, """    def _generate_planes(self, l_c, r_c, num_circles=5):
""", """    _pool = []

    def _generate_planes(self, l_c, r_c, num_circles=5):
""")],
     """
def go(h, n):
    def f():
        s = Slope(height=h, angle=45)
        s.set_materials(Material(20, 30, 3, 5))
        (tx, ty), (bx, by) = s.get_top_coordinates(), s.get_bottom_coordinates()
        s.add_single_entry_exit_plane(tx - 0.5, bx + 0.5, n)
        s.analyse_slope()
        return planes(s)
    return f
meanwhile(go(2, 4), go(1, 3))
""", "two threads generate circles through given ends at the same time", "planes of the other slope are analysed")

BASE = '''

def make(analyse=True):
    s = Slope(height=2.5, angle=50)
    s.set_materials(Material(20, 30, 3, 1.5), Material(18, 25, 6, 5))
    s.set_udls(Udl(40, 0.3, 1, dynamic_offset=True), Udl(9, 1, 1))
    s.set_lls(LineLoad(15, 0.7, dynamic_offset=True))
    tx, bx = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
    for a, b, n in ((1, 0.6, 2), (2, 0.3, 1)):
        s.add_single_entry_exit_plane(tx - a, bx + b, n)
    if analyse:
        s.analyse_slope()
    return s


def reads(s):
    try:
        return planes(s)
    except Exception:
        return None
'''

seed("c26-early-list", "C26",
     [(P, """        # go through each assumed plane and calculate the FOS
""", """        self._search = planes

        # go through each assumed plane and calculate the FOS
""")], BASE + """
want = planes(make())
def check(s):
    try:
        f = s.get_min_FOS()
    except Exception:
        return
    assert f == want[0][3], f
def fresh():
    s = make()
    s.set_water_table(0.2)
    s.analyse_slope()
    s.remove_water_table()
    return s
every(fresh, lambda s: s.analyse_slope(), check)
""", "an analysis is interrupted after the first planes", "the factor of safety of the first plane is read as the minimum")

seed("c26-loads-lost", "C26",
     [(P, """        for load in self._udls + self._lls:
            if load.dynamic_offset:
                load.offset = offset
""", """        udls, self._udls = self._udls, []
        for udl in udls:
            if udl.dynamic_offset:
                udl.offset = offset
            self._udls.append(udl)

        for ll in self._lls:
            if ll.dynamic_offset:
                ll.offset = offset
""")], BASE + """
def check(s):
    s.plot_boundary(material_table=False)
    assert len(s._udls) == 2, len(s._udls)
every(make, lambda s: s.analyse_dynamic(0.1), check)
""", "a dynamic analysis is interrupted while loads are moved", "distributed loads are gone")

seed("c26-plot-order", "C26",
     [(P, """        for i in tqdm(self._search):
            FOS = i["FOS"]
            if max_fos is None""", """        # least critical first, so that the others are drawn on top
        self._search.reverse()

        for i in tqdm(self._search):
            FOS = i["FOS"]
            if max_fos is None"""),
      (P, """        traces.reverse()

        temp""", """        self._search.reverse()

        temp""")], BASE + """
want = planes(make())
def check(s):
    assert planes(s) == want, planes(s)
s0 = make()
n = 0
s0.plot_all_planes(max_fos=None, legend=False, material_table=False)
# only the end of the call, drawing the section takes long
import pyslope.utilities as PU
plain = PU.generate_circle_coordinates
for k in range(1, 6):
    calls = 0
    def stop(*a, **kw):
        global calls
        calls += 1
        if calls == k:
            raise Stop()
        return plain(*a, **kw)
    PU.generate_circle_coordinates = stop
    s = make()
    try:
        s.plot_all_planes(max_fos=None, legend=False, material_table=False)
    except Stop:
        pass
    PU.generate_circle_coordinates = plain
    check(s)
""", "a plot of all planes is interrupted while planes are drawn", "the least critical plane is reported as the critical one")

seed("c26-only-critical", "C26",
     [(P, """        FOS = self._search[0]["FOS"]
        c_x = self._search[0]["c_x"]
        c_y = self._search[0]["c_y"]
        radius = self._search[0]["radius"]
        l_c = self._search[0]["l_c"]
        r_c = self._search[0]["r_c"]

        fig = self._plot_failure_plane(
            fig, c_x, c_y, radius, l_c, r_c, FOS=FOS, show_center=True
        )
        return fig
""", """        plane = self._search.pop(0)

        fig = self._plot_failure_plane(
            fig,
            plane["c_x"],
            plane["c_y"],
            plane["radius"],
            plane["l_c"],
            plane["r_c"],
            FOS=plane["FOS"],
            show_center=True,
        )
        self._search.insert(0, plane)
        return fig
""")], BASE + """
want = planes(make())
import pyslope.utilities as PU
plain = PU.generate_circle_coordinates
def stop(*a, **kw):
    raise Stop()
PU.generate_circle_coordinates = stop
s = make()
try:
    s.plot_critical(material_table=False)
except Stop:
    pass
PU.generate_circle_coordinates = plain
assert planes(s) == want, planes(s)
""", "a plot is interrupted while the critical plane is drawn", "the critical plane is missing in the results")

seed("c26-busy", "C26",
     [(P, """        indivually added failure planes if added to slope.\"\"\"
""", """        indivually added failure planes if added to slope.\"\"\"
        # dont start again from within the analysis (e.g. a progress callback)
        if getattr(self, "_analysing", False):
            return
        self._analysing = True

"""), (P, """        search.sort(key=lambda x: x["FOS"])
        if max_fos:
""", """        search.sort(key=lambda x: x["FOS"])
        self._analysing = False
        if max_fos:
""")], BASE + """
want = planes(make())
def check(s):
    s.analyse_slope()
    assert planes(s) == want, planes(s)
every(lambda: make(False), lambda s: s.analyse_slope(), check, 17)
""", "an analysis is interrupted", "the slope can never be analysed again")

seed("c26-layers-reversed", "C26",
     [(P, """        uws = np.array(
            [m.unit_weight for m in self._materials],
            dtype=float,
        )
""", """        # from the bottom to the top
        self._materials.reverse()
        uws = np.array(
            [m.unit_weight for m in self._materials],
            dtype=float,
        )[::-1]
        self._materials.reverse()
""")], BASE + """
want = planes(make())
def check(s):
    s.analyse_slope()
    assert planes(s) == want, planes(s)
every(lambda: make(False), lambda s: s.analyse_slope(), check)
""", "an analysis is interrupted while weights are summed", "the order of the layers is turned around")

seed("c26-recorded-early", "C26",
     [(P, """            self._set_dynamic_offset(midpoint)
            self.analyse_slope()
            fos = self.get_min_FOS()
            self._dynamic_results[midpoint] = fos
""", """            # expected there, until it is known
            self._dynamic_results[midpoint] = critical_fos
            self._set_dynamic_offset(midpoint)
            self.analyse_slope()
            fos = self.get_min_FOS()
            self._dynamic_results[midpoint] = fos
""")], BASE + """
s = make()
lo = s.get_min_FOS() * 1.05
s = make()
s.analyse_dynamic(lo)
full = dict(s.get_dynamic_results())
assert len(full) > 2, full
def check(s):
    for x, f in s.get_dynamic_results().items():
        assert full.get(x) == f, (x, f, full)
every(make, lambda s: s.analyse_dynamic(lo), check, 29)
""", "a dynamic analysis is interrupted after its first two positions", "a factor of safety that was never calculated is recorded")

seed("c26-temporary-slices", "C26",
     [(P, """        # check for extreme case with loads at crest (right)
""", """        # the same slices for every position, also with a progress callback
        slices, self._slices = self._slices, int(self._slices)
        limits, self._limits = self._limits, list(self._limits)
        planes = self._individual_planes
        self._individual_planes = [dict(p) for p in planes]

        # check for extreme case with loads at crest (right)
"""), (P, """        self._dynamic_results[right] = fos
        if fos >= critical_fos:
            return 0
""", """        self._dynamic_results[right] = fos
        # remember for which planes, the others need not be looked at again
        self._individual_planes = [
            p for p in self._individual_planes if p["FOS"] is not None
        ]
        if fos >= critical_fos:
            self._individual_planes = planes
            return 0
"""), (P, """        self._dynamic_results[left] = fos
        if fos < critical_fos:
            return 1
""", """        self._dynamic_results[left] = fos
        self._individual_planes = planes
        if fos < critical_fos:
            return 1
""")], BASE + """
def mk():
    s = make(False)
    s.add_single_circular_plane(1, 1, 0.5)  # nowhere near the ground
    tx, bx = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
    s.set_external_boundary(height=1.5, angle=50, length=None)
    return s
a = mk()
n = len(a._individual_planes)
def check(s):
    s.set_external_boundary(height=2.5, angle=50, length=None)
    s.analyse_slope()
    assert len(s._individual_planes) == n, len(s._individual_planes)
every(mk, lambda s: s.analyse_dynamic(50), check, 13)
""", "a dynamic analysis is interrupted between its first two positions, some user planes do not cut the ground then", "those planes are gone for good")
del SEEDS["c26-temporary-slices"]
