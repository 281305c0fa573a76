from mc import sched
from mc.engine import Violation
from mc.figs import check_critical
from mc.fresh import read_results
from mc.impl import LineLoad, Material, Slope, Udl, planes_of
from checks.c25 import add_planes, diff


def build(kind):
    """a slope with two layers, loads and water; user planes or a search"""
    s = Slope(height=2.5, angle=50)
    s.set_materials(Material(20, 30, 3, 1.5), Material(18, 25, 6, 5))
    s.set_udls(Udl(40, 0.3, 1, dynamic_offset=True), Udl(9, 1, 1))
    s.set_lls(LineLoad(15, 0.7, dynamic_offset=True))
    s.set_water_table(1)
    s.update_analysis_options(slices=10, iterations=500)
    if kind == "search":
        tx, bx = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
        s.set_analysis_limits(left_x=tx * 0.4, right_x=bx * 1.3)
    else:
        add_planes(s, (0.7, 0.4, 0.2), (0.35, 0.2, 0.25), (0.5, 0.01, 0.3), (0.2, 0.1, 0.2))
    return s


# what was done before
def b_none(s):
    pass


def b_analysed(s):
    s.analyse_slope()


def b_changed(s):
    # the most critical plane is another one afterwards
    s.analyse_slope()
    s.remove_udls(remove_all=True)
    s.set_udls(Udl(70, 2.2, 0.5, dynamic_offset=True))


def b_resized(s):
    s.analyse_slope()
    s.update_boundary_options(MIN_EXT_L=14)
    s.set_external_boundary(height=2.6, angle=48, length=None)


def b_few(s):
    s.analyse_slope(max_fos=1.2)


def b_dynamic(s):
    s.analyse_dynamic(1.05)
    s.set_lls(LineLoad(30, 0.2))


BEFORE = dict(none=b_none, analysed=b_analysed, changed=b_changed, resized=b_resized,
              few=b_few, dynamic=b_dynamic)
# what is interrupted
CALLS = dict(
    analyse=lambda s: s.analyse_slope(),
    maximum=lambda s: s.analyse_slope(max_fos=1.3),
    dynamic=lambda s: s.analyse_dynamic(1.25),
    safe=lambda s: s.analyse_dynamic(0.1),
    unsafe=lambda s: s.analyse_dynamic(50),
    boundary=lambda s: s.plot_boundary(),
    critical=lambda s: s.plot_critical(material_table=False),
    all=lambda s: s.plot_all_planes(max_fos=2, legend=False, material_table=False),
)
DYNAMIC = ("dynamic", "safe", "unsafe")


def offsets(s):
    return [q.offset for q in s._udls + s._lls]


def results(s):
    """everything that can be read about the last analysis"""
    r = read_results(s)
    return r, planes_of(s) if r is not None and r[0] != "partial" else None


# kind, before, call: executions of each line
QUICK = {("planes", b, "analyse"): "second last" for b in ("none", "changed", "analysed")}
QUICK.update({("planes", "changed", "dynamic"): "second last", ("planes", "none", "dynamic"): "last",
              ("planes", "changed", "maximum"): "second last", ("planes", "analysed", "dynamic"): "middle"})
QUICK.update({("planes", b, "analyse"): "last" for b in ("resized", "few", "dynamic")})
QUICK.update({("planes", b, "dynamic"): "first" for b in ("few", "dynamic")})
QUICK.update({
    ("planes", "none", "boundary"): "first", 
    ("planes", "analysed", "critical"): "first", ("planes", "few", "all"): "last",
    ("planes", "analysed", "safe"): "last", ("planes", "analysed", "unsafe"): "last",
    ("search", "none", "analyse"): "second last", ("search", "changed", "dynamic"): "entries",
})


class C26:
    ID = "C26"
    CASE_LIMIT = 200
    EXPLAIN = (
        "every kind of analysis and plot, of slopes with different histories, "
        "interrupted at every line of the library it executes (first, second, "
        "middle and last execution; every execution in thorough): what can be "
        "read afterwards is complete and belongs to the slope as it then is, "
        "and whatever is done next gives what it gives without the "
        "interruption"
    )
    ASSUMES = [
        "interruptions (Ctrl-C, an exhausted memory) happen between lines of the library",
        "what an analysis that is not interrupted gives is C01-C17's business",
    ]

    def start(self, case):
        s = build(case["kind"])
        BEFORE[case["before"]](s)
        return s

    def run(self, case, ctx):
        name, k = case["call"], case["at"]
        call = CALLS[name]

        def interrupted():
            s = self.start(case)
            return s, sched.interrupt(lambda: call(s), k)

        s = self.start(case)
        old, place = results(s), offsets(s)
        recorded = s.get_dynamic_results().items()
        s, hit = interrupted()
        ctx.step()
        ctx.state(case)
        got, now = results(s), offsets(s)
        ctx.outcome(name, "interrupted" if hit else "ends before",
                    "reads nothing" if got[0] is None else "reads old" if got == old else "reads")
        for q, a, b in zip(s._udls + s._lls, place, now):
            if a != b and not (name in DYNAMIC and q.dynamic_offset):
                raise Violation(f"a load moved from {a} to {b}")
        # what can be read is complete and true
        if got[0] is not None and got != old:
            self.same(ctx, "what can be read", got, self.solo(case, "read", now))
        elif got[0] is not None and now != place:
            self.same(ctx, "what can be read", got, self.solo(case, "read", now))
        rec = dict(self.solo(case, "recorded", place)) if name in DYNAMIC else {}
        for x, f in s.get_dynamic_results().items():
            if (x, f) not in recorded and rec.get(x) != f:
                raise Violation(f"recorded {f} at {x}; without the interruption {rec}")
        try:
            fig = None
            if not case.get("less") or got not in (old, (None, None)):
                fig = s.plot_critical(material_table=False)
        except Exception:
            fig = None
        if fig is not None:
            if got[0] is None:
                raise Violation("a critical plane is plotted but no results can be read")
            ctx.validated += 1
            check_critical(ctx, fig, got[1])
        # whatever is done next
        two = ("analyse", "again") if name in DYNAMIC else ("again", "analyse")
        for what in two + ("dynamic", "section"):
            if what in ("dynamic", "section"):
                if case.get("less"):
                    break
                s, hit = interrupted()
            elif what == two[1] and not case.get("less"):
                s, hit = interrupted()
            v = self.follow(s, case, what)
            want = self.solo(case, what, place if what in ("again", "dynamic") else now)
            self.same(ctx, what, v, want)

    def same(self, ctx, what, got, want):
        ctx.validated += 1
        if got != want:
            raise Violation(f"after the interruption, {what}: {diff(want, got)}")

    def follow(self, s, case, what):
        if what == "section":
            return s.plot_boundary().to_json()
        if what == "analyse":
            s.analyse_slope()
            return results(s)
        (CALLS[case["call"]] if what == "again" else CALLS["dynamic"])(s)
        return results(s), offsets(s), list(s.get_dynamic_results().items())

    memo = {}

    def solo(self, case, what, place):
        """without an interruption, with the loads at a place"""
        key = case["kind"], case["before"], case["call"], what, tuple(place)
        if key not in self.memo:
            s = self.start(case)
            for q, x in zip(s._udls + s._lls, place):
                q.offset = x
            if what == "read":
                (CALLS[case["call"]] if case["call"] not in DYNAMIC else CALLS["analyse"])(s)
                v = results(s)
            elif what == "recorded":
                CALLS[case["call"]](s)
                v = list(s.get_dynamic_results().items())
            else:
                v = self.follow(s, case, what)
            self.memo[key] = v
        return self.memo[key]

    def explore(self, ex, tier):
        deep = tier == "thorough"
        cases, seen = [], set()
        for kind in ("planes", "search"):
            for before in BEFORE:
                for call in CALLS:
                    c = dict(kind=kind, before=before, call=call)
                    if call in ("critical", "all") and before not in ("analysed", "few"):
                        continue
                    which = "first second middle last"
                    if not deep:
                        which = QUICK.get((kind, before, call))
                        if not which:
                            continue
                    s = self.start(c)
                    try:
                        pts = sched.record(lambda: CALLS[call](s))[0]
                    except Exception:
                        pts = [("", 0)]
                    if deep and kind == "planes" and len(pts) < 20000:
                        which = "all"
                    if which == "entries":
                        ks = sched.entries(pts)
                    else:
                        ks = sched.chosen(pts, which if which == "all" else which.split())
                    if not deep and (kind == "search" or call in ("critical", "all")):
                        # other lines are left to the first cases
                        ks = sorted({k for k in ks if pts[k - 1] not in seen} | set(sched.entries(pts)))
                    seen |= set(pts)
                    for n, k in enumerate(ks):
                        cases.append(dict(c, at=k, less=n % 5 > 0))
        ex.product(cases, "interruptions of analyses and plots")


CHECK = C26()
