from mc import sched
from mc.engine import Violation
from mc.fresh import read_results
from mc.impl import LineLoad, Material, Slope, Udl, circle_through, planes_of


def outcome(s, *figs):
    return (planes_of(s), read_results(s), list(s.get_dynamic_results().items()),
            s.get_top_coordinates(), s.get_bottom_coordinates(), [f.to_json() for f in figs])


def add_planes(s, *fracs):
    """circles given relative to the section"""
    (tx, ty), (bx, by) = s.get_top_coordinates(), s.get_bottom_coordinates()
    for a, b, sag in fracs:
        c = circle_through((tx * (1 - a), ty), (bx * (1 + b), by), sag)
        s.add_single_circular_plane(*c)


# programs: each makes its own slope and objects.  The variants differ in
# every number, in the count of items and (some) of slices
def planes(v):
    s = Slope(height=(3, 1.7)[v], angle=(40, 62)[v])
    s.update_analysis_options(slices=12)
    s.set_materials(*[[Material(20, 35, 2, 1.5), Material(18, 25, 5, 3)],
                      [Material(17, 20, 4, 0.6, "top", "#123456"), Material(19, 30, 3, 1),
                       Material(21, 15, 6, 4)]][v])
    s.set_udls(*[[Udl(20, 0.4, 1.1)], [Udl(33, 0.1, None, color="purple"), Udl(7, 1, 0.5, color="blue")]][v])
    s.set_lls(*[[LineLoad(18, 0.77)], [LineLoad(7, 1.3, color="green"), LineLoad(11, 0.2)]][v])
    if v:
        s.set_water_table(0.3)
    else:
        s.set_water_table(1.1)
        s.update_water_analysis_options(auto=False, H=0.4)
    add_planes(s, *[[(0.1, 0.1, 0.2), (0.4, 0.3, 0.25)],
                    [(0.2, 0.05, 0.3), (0.3, 0.1, 0.22), (0.6, 0.3, 0.3)]][v])
    s.analyse_slope()
    return s


def just_planes(v):
    return outcome(planes(v))


def boundary(v):
    s = planes(v)
    return outcome(s, s.plot_boundary(material_table=bool(v)))


def critical(v):
    s = planes(v)
    return outcome(s, s.plot_critical(material_table=not v))


def every(v):
    s = planes(v)
    return outcome(s, s.plot_all_planes(max_fos=(None, 3)[v], legend=False, material_table=False))


def legend(v):
    s = planes(v)
    return outcome(s, s.plot_boundary(material_table=False, legend=True))


def search(v):
    s = Slope(height=(2, 1)[v], angle=(50, 33)[v])
    s.set_materials(*[[Material(20, 25, 2, 5)], [Material(19, 18, 1, 0.7), Material(17, 33, 0, 6)]][v])
    s.update_analysis_options(slices=(10, 13)[v], iterations=500, min_failure_dist=(0, 0.5)[v])
    tx = s.get_top_coordinates()[0]
    bx = s.get_bottom_coordinates()[0]
    s.set_analysis_limits(left_x=tx * (0.3, 0.5)[v], right_x=bx * (1.6, 1.3)[v])
    s.analyse_slope(**[{}, dict(max_fos=5)][v])
    return outcome(s)


def dynamic(v):
    s = Slope(height=(3, 2)[v], angle=(45, 60)[v])
    s.set_materials(*[[Material(20, 35, 5, 5)], [Material(18, 30, 9, 1), Material(21, 33, 4, 4)]][v])
    s.set_udls(*[[Udl(60, 0.3, 1, dynamic_offset=True)], [Udl(9, 1, 1)]][v])
    s.set_lls(*[[LineLoad(5, 1)], [LineLoad(150, 0.4, dynamic_offset=True)]][v])
    add_planes(s, *[[(0.2, 0.1, 0.2), (0.35, 0.2, 0.25)],
                    [(0.3, 0.1, 0.2), (0.5, 0.2, 0.25), (0.7, 0.4, 0.2)]][v])
    s.analyse_slope()
    s.analyse_dynamic((1.45, 1.5)[v])
    return outcome(s), [q.offset for q in s._udls + s._lls]


def edits(v):
    s = Slope(height=(2, 4)[v], angle=None, length=(3, 4)[v])
    a, b, c = Material(20, 35, 2, 1), Material(18, 25, 5, 2.5), Material(16, 28, 1, 4)
    u, w, l = Udl(20, 0.4, 1), Udl(11, 0, None), LineLoad(18, 1.2)
    s.set_materials(a, b, c) if v else s.set_materials(c, a)
    s.set_udls(u, w)
    s.set_lls(l)
    s.set_water_table((0.5, 2)[v])
    s.set_analysis_limits(left_x=1)
    s.remove_material((a, b)[v])
    s.remove_udls((u, w)[v])
    if v:
        s.remove_lls(l)
    else:
        s.remove_water_table()
    s.remove_analysis_limits()
    s.set_external_boundary(height=(2.5, 3)[v], angle=(50, 35)[v], length=None)
    s.update_boundary_options(MIN_EXT_L=(12, 30)[v])
    try:
        s.set_materials(Material(17, 22, 3, (2, 3)[v]), Material(17, 22, 3, (2, 3)[v]))
        raise Violation("accepted")
    except ValueError:
        pass
    add_planes(s, (0.2, 0.1, (0.2, 0.24)[v]))
    s.remove_individual_planes()
    add_planes(s, (0.21, 0.13, (0.21, 0.26)[v]))
    s.analyse_slope()
    return outcome(s)


PROGRAMS = dict(planes=just_planes, edits=edits, search=search, dynamic=dynamic,
                boundary=boundary, critical=critical, all=every, legend=legend)
# program preempted, the one that runs meanwhile, executions of each line
QUICK = [
    ("planes", "planes", "first second last"), ("planes", "edits", "second"),
    ("planes", "dynamic", "last"), ("planes", "search", "second"),
    ("edits", "edits", "first last"), ("edits", "planes", "second"), 
    ("search", "search", "second"), ("search", "planes", "first middle last"),
    ("dynamic", "dynamic", "second last"), ("dynamic", "planes", "first"),
    ("dynamic", "critical", "middle"),
    ("boundary", "boundary", "first last"), ("boundary", "planes", "second"),
    ("critical", "boundary", "second"), ("critical", "critical", "last"), ("all", "all", "last"), ("all", "critical", "first"),
    ("legend", "legend", "second"),
]


TWICE = {("planes", "planes"), ("edits", "edits"), ("dynamic", "planes")}
# only at the entries of functions that draw
TWICE_DRAWING = {("boundary", "boundary"), ("critical", "boundary"), ("all", "all")}


class C25:
    ID = "C25"
    CASE_LIMIT = 300
    EXPLAIN = (
        "two threads, each building, changing, analysing and plotting slopes "
        "of its own, under a scheduler that lets one run at a time: all "
        "schedules in which the first is preempted once at a first, second "
        "or last execution of any library line and the other one runs to "
        "its end meanwhile, and those with two preemptions at function "
        "entries; every thread must get exactly what it gets alone, and so "
        "must both programs when run once more"
    )
    ASSUMES = [
        "switches between threads at line boundaries of the library (not "
        "within a line, not inside numpy or plotly)",
        "one program is compared with itself run alone; what it should give "
        "is C01-C17's business",
    ]

    def run(self, case, ctx):
        fs = [lambda p=p: PROGRAMS[p[0]](p[1]) for p in case["pair"]]
        alone = []
        for f, p in zip(fs, case["pair"]):
            k = tuple(p)
            if k not in self.solo:
                self.solo[k] = f()
            alone.append(self.solo[k])
        out, n = sched.run_two(fs, case["cut"])
        ctx.step(sum(n))
        ctx.state(case)
        ctx.outcome(case["pair"][0][0], "with", case["pair"][1][0], len(sum(case["cut"], [])), "cuts")
        for i in (0, 1):
            val, err = out[i]
            if err is not None:
                raise Violation(f"{case['pair'][i]} failed with {err!r} while {case['pair'][1 - i]} ran")
            ctx.validated += 1
            if val != alone[i]:
                raise Violation(f"{case['pair'][i]} gives another result while {case['pair'][1 - i]} "
                                f"runs: {diff(alone[i], val)}")
        if case.get("after"):
            for f, a, p in zip(fs, alone, case["pair"]):
                ctx.validated += 1
                if f() != a:
                    raise Violation(f"{p} gives another result afterwards")

    solo = {}

    def explore(self, ex, tier):
        deep = tier == "thorough"
        pts = {}
        for n in PROGRAMS:
            for v in (0, 1):
                try:
                    pts[n, v] = sched.record(lambda: PROGRAMS[n](v))[0]
                except Exception:
                    pts[n, v] = [("", 0)]
        one, two = [], []
        if deep:
            todo = [(a, b, "all" if len(pts[a, 0]) < 4000 else "first second middle last")
                    for a in PROGRAMS for b in PROGRAMS]
        else:
            todo = QUICK
        # lines that earlier programs have as well are left to them
        base = {k for n in ("planes", "edits") for v in (0, 1) for k in pts[n, v]}
        plain = {f for f, _ in base}
        last, new = None, set()
        for i, (a, b, which) in enumerate(todo):
            if a != last:
                base |= new
                last, new = a, {k for v in (0, 1) for k in pts[a, v]}
            for v in (0, 1) if deep else (i % 2,):
                p, pair = pts[a, v], [[a, v], [b, 1 - v]]
                ks = sched.chosen(p, which if which == "all" else which.split())
                if a not in ("planes", "edits") and not deep:
                    ks = [k for k in ks if p[k - 1] not in base]
                for n, k in enumerate(ks):
                    one.append(dict(pair=pair, cut=[[k], []], after=n % 20 == 0))
                q = pts[b, 1 - v]
                if deep or (a, b) in TWICE:
                    ends = sched.entries(p), sched.entries(q)
                elif (a, b) in TWICE_DRAWING:
                    ends = [[k for k in sched.entries(r) if r[k - 1][0] not in plain] for r in (p, q)]
                else:
                    continue
                for k in ends[0]:
                    for j in ends[1]:
                        two.append(dict(pair=pair, cut=[[k], [j]]))
        ex.product(one, "schedules with one preemption at a library line")
        ex.product(two, "schedules with two preemptions at function entries")


def diff(a, b):
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 30):i + 60]} became ...{b[max(0, i - 30):i + 60]}"


CHECK = C25()
