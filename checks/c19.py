import os
import sys
import threading

from mc import web
from mc.engine import Skip, Violation, digest
from mc.figs import NS, check_all_planes, check_critical, check_section
from mc.impl import REPO, module_state

SUBS = [
    web.form(height=1.5, angle=60, slices=12, water=0.4, lls=((9, 0.2, False),), display="3.1",
             mats=((18, 28, 6, 1.5, "clay", "#123456"), (21, 33, 3, 4, "", ""))),
    web.form(height=2, length=3, by="length", udls=((20, 0.3, 1.5, True, "green"),),
             limits=(1, 9), inner=(4, 6), analysis="dynamic", critical="1.5"),
]
BAD = [
    web.form(height="abc", angle=33),  # refused by the forms
    web.form(height=1.1, mats=((20, 35, 2, 3), (18, 30, 1, 3))),  # by the library
]
# load, submit, invalid submission (redirect followed or not), reset
# (followed or not), report
OPS = [("G",), ("P", 0), ("P", 1), ("I", 0, True), ("I", 1, False), ("R", True), ("R", False), ("D",)]
ALPHABET = [(b,) + op for b in (0, 1) for op in OPS]


def answer(sub, memo={}):
    k = tuple(sorted(sub.items()))
    if k not in memo:
        memo[k] = web.Answer(sub)
    return memo[k]


def follow(b, r):
    for _ in range(5):
        if r.status_code not in (301, 302, 303):
            return r
        r = b.get(r.headers["Location"])
    raise Violation("redirects for ever")


class Expected:
    """what one browser must see: None (nothing stored), -1 the default
    example, k the k-th submission"""

    def __init__(self):
        self.has = None

    def page(self, ctx, r):
        page = web.Page(r)
        if self.has is None:
            self.has = -1
        if self.has == -1:
            web.check_page(ctx, page, answer(web.form()))
            for k, v in DEFAULT_FIELDS.items():
                try:
                    same = float(page.fields.get(k)) == float(v)
                except (TypeError, ValueError):
                    same = (page.fields.get(k) or "") == v
                if not same:
                    raise Violation(f"default form shows {k} = {page.fields.get(k)}")
        else:
            web.check_page(ctx, page, answer(SUBS[self.has]))
            web.check_fields(ctx, page, SUBS[self.has])

    def do(self, ctx, b, op):
        """perform one operation of a browser and judge what it sees"""
        kind = op[0]
        if kind == "G":
            self.page(ctx, b.get("/"))
        elif kind == "P":
            r = b.post(SUBS[op[1]])
            self.has = op[1]
            self.page(ctx, r)
        elif kind == "I":
            r = b.post(BAD[op[1]])
            if r.status_code not in (301, 302, 303):
                raise Violation(f"invalid submission answered with {r.status_code}")
            if op[2]:
                r = follow(b, r)
                self.has = None
                self.page(ctx, r)
        elif kind == "R":
            r = b.get("/reset")
            self.has = None
            if r.status_code not in (301, 302, 303):
                raise Violation(f"reset answered with {r.status_code}")
            if op[1]:
                self.page(ctx, follow(b, r))
        elif kind == "D":
            n = len(web.RENDERED)
            r = b.get("/pdf/2.0")
            figs = web.RENDERED[n:]
            if self.has is None:
                if r.status_code not in (301, 302, 303) or figs:
                    raise Violation(f"report without results: {r.status_code}")
            else:
                if r.status_code != 200 or len(figs) != 1:
                    raise Violation(f"report answered with {r.status_code}")
                a = answer(web.form() if self.has == -1 else SUBS[self.has])
                fig = NS(figs[0][0])
                check_section(ctx, fig, a.model)
                check_critical(ctx, fig, a.planes)
                check_all_planes(ctx, fig, a.planes, 2.0)


DEFAULT_FIELDS = {
    "slope-height": "1", "slope-angle": "45", "slope-length": "1",
    "material-TOTAL_FORMS": "1", "udl-TOTAL_FORMS": "1", "lineload-TOTAL_FORMS": "1",
    "material-0-unit_weight": "20", "material-0-friction_angle": "35",
    "material-0-cohesion": "2", "material-0-depth_to_bottom": "5", "material-0-name": "",
    "udl-0-magnitude": "0", "udl-0-offset": "0", "udl-0-length": "0",
    "lineload-0-magnitude": "0", "lineload-0-offset": "0",
    "watertable-consider_water": "", "limits-consider_limits": "",
    "limits-consider_internal_limits": "", "udl-0-dynamic_offset": "",
    "options-iterations": "500",
}


# ------------------------------------------------- overlapping requests
class Baton:
    """lets exactly one of two threads run; thread `first` is preempted after
    its k-th scheduling point (each k in `cuts` in turn), the other runs to
    its own next cut or its end"""

    def __init__(self, cuts):
        self.cuts = cuts  # per thread: sorted list of point numbers
        self.count = [0, 0]
        self.turn = 0
        self.done = [False, False]
        self.cv = threading.Condition()

    def start(self, me):
        with self.cv:
            self.cv.wait_for(lambda: self.turn == me, 100)

    def point(self, me):
        self.count[me] += 1
        if self.count[me] in self.cuts[me] and not self.done[1 - me]:
            with self.cv:
                self.turn = 1 - me
                self.cv.notify_all()
                self.cv.wait_for(lambda: self.turn == me, 100)

    def end(self, me):
        with self.cv:
            self.done[me] = True
            if not self.done[1 - me]:
                self.turn = 1 - me
            self.cv.notify_all()


VIEWS = os.path.realpath(os.path.join(REPO, "slope")) + os.sep
LIB = os.path.realpath(os.path.join(REPO, "pyslope")) + os.sep


def code_objects(prefix):
    out, todo = set(), []
    for mod in list(sys.modules.values()):
        f = getattr(mod, "__file__", None)
        if not f or not os.path.realpath(f).startswith(prefix):
            continue
        for v in list(vars(mod).values()):
            if getattr(v, "__module__", None) != mod.__name__:
                continue
            for q in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
                q = getattr(q, "__func__", q)
                q = getattr(q, "fget", q)
                q = getattr(q, "__wrapped__", q)
                if hasattr(q, "__code__"):
                    todo.append(q.__code__)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]
    return out


class Points:
    """scheduling points: every line of the web code and every function of
    the library, the first time a request gets there"""

    def __init__(self):
        self.who = {}
        self.seen = [set(), set()]
        mon = sys.monitoring
        mon.use_tool_id(mon.DEBUGGER_ID, "verif")
        ev = mon.events
        mon.register_callback(mon.DEBUGGER_ID, ev.LINE, self.hit)
        mon.register_callback(mon.DEBUGGER_ID, ev.PY_START, self.hit)
        for c in code_objects(VIEWS):
            mon.set_local_events(mon.DEBUGGER_ID, c, ev.LINE)
        for c in code_objects(LIB):
            mon.set_local_events(mon.DEBUGGER_ID, c, ev.PY_START)

    def hit(self, code, where):
        w = self.who.get(threading.get_ident())
        if w is None:
            return
        baton, me = w
        k = code, where
        if k not in self.seen[me]:
            self.seen[me].add(k)
            baton.point(me)

    def close(self):
        mon = sys.monitoring
        for c in code_objects(VIEWS) | code_objects(LIB):
            mon.set_local_events(mon.DEBUGGER_ID, c, 0)
        mon.free_tool_id(mon.DEBUGGER_ID)


def overlapped(ops, browsers, cuts):
    """run two requests on two threads under the schedule; returns responses
    and the number of scheduling points of each"""
    from django.db import connections

    baton, points = Baton(cuts), Points()
    conn = connections["default"]
    conn.inc_thread_sharing()
    out, err = [None, None], [None, None]

    def work(me):
        connections["default"] = conn
        baton.start(me)
        points.who[threading.get_ident()] = baton, me
        try:
            b, op = browsers[me], ops[me]
            if op[0] == "P":
                out[me] = b.post(SUBS[op[1]])
            elif op[0] == "G":
                out[me] = b.get("/")
            elif op[0] == "I":
                out[me] = b.post(BAD[op[1]])
            elif op[0] == "D":
                out[me] = b.get("/pdf/2.0")
        except BaseException as e:
            err[me] = e
        finally:
            points.who.pop(threading.get_ident(), None)
            baton.end(me)

    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in (0, 1)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        conn.dec_thread_sharing()
        points.close()
    for e in err:
        if e:
            raise e
    return out, baton.count


PAIRS = [(("P", 0), ("P", 1)), (("P", 1), ("P", 0)), (("G",), ("P", 0)), (("P", 1), ("G",)),
         (("I", 1), ("P", 1)), (("P", 0), ("I", 1)), (("D",), ("P", 0)), (("P", 1), ("D",))]
QUICK = [PAIRS[0], PAIRS[6]]


class C19:
    ID = "C19"
    EXPLAIN = (
        "breadth-first search over all histories of page loads, two valid "
        "and two invalid submissions, resets and reports of two browsers "
        "(states merged by the stored sessions and the library's module "
        "state): every page, form, plot and report is compared with that "
        "browser's own last submission; and all schedules with one "
        "preemption (every line of the web code, every library function) of "
        "two overlapping requests of different browsers in one process"
    )
    ASSUMES = [
        "Django's test client stands for browser and server; the default "
        "session backend on a database in memory",
        "the library's answers are those judged by C01-C17",
        "overlapping requests: switches at first executions of lines of the web "
        "code and of library functions only",
    ]

    def run(self, case, ctx):
        web.setup()
        if "cut" in case:
            return self.overlap(case, ctx)
        bs = [web.Browser(), web.Browser()]
        ex = [Expected(), Expected()]
        ops = case["ops"]
        for i, op in enumerate(ops):
            n = op[0]
            ctx.step()
            other = bs[1 - n].session()
            ex[n].do(ctx, bs[n], tuple(op[1:]))
            if bs[1 - n].session() != other:
                raise Violation(f"{op} changed the session of the other browser")
        if ops:
            ctx.outcome(ops[-1][1], "has", ex[ops[-1][0]].has)
        k = digest(([repr(b.session()) for b in bs], [e.has for e in ex], module_state()))
        ctx.state(k)
        return k

    def overlap(self, case, ctx):
        a, b = map(tuple, case["pair"])
        bs = [web.Browser(), web.Browser()]
        ex = [Expected(), Expected()]
        for i, op in enumerate((a, b)):
            if op[0] == "D" or case.get("before"):
                ex[i].do(ctx, bs[i], ("P", 1 - i))
        rendered = len(web.RENDERED)
        out, n = overlapped((a, b), bs, case["cut"])
        ctx.step(sum(n))
        ctx.state(case)
        ctx.outcome("overlap", a[0], b[0])
        for i, op in enumerate((a, b)):
            r = out[i]
            if r.status_code >= 500:
                raise Violation(f"server error in {op} overlapping {(a, b)[1 - i]}")
            if op[0] == "P":
                ex[i].has = op[1]
            if op[0] in "GP":
                ex[i].page(ctx, r)
            elif op[0] == "D":
                f = answer(SUBS[ex[i].has])
                figs = web.RENDERED[rendered:]
                if len(figs) != 1:
                    raise Violation(f"{len(figs)} figures rendered")
                check_all_planes(ctx, NS(figs[0][0]), f.planes, 2.0)
        # afterwards each browser still has its own
        for i in (0, 1):
            ex[i].page(ctx, bs[i].get("/"))

    def explore(self, ex, tier):
        web.setup()
        deep = tier == "thorough"
        for q in SUBS:
            answer(q)
        answer(web.form())

        def enabled(h, op):
            # the browsers are interchangeable: the first to act is browser 0
            return bool(h) or op[0] == 0

        ex.bfs(ALPHABET, 3 if deep else 2, "histories of two browsers", enabled=enabled)
        ex.bfs(ALPHABET[:len(OPS)], 4 if deep else 3, "histories of one browser")
        if ex.violations:
            return
        cases = []
        for pair in PAIRS if deep else QUICK:
            bs = [web.Browser(), web.Browser()]
            for b, op in zip(bs, pair):
                if op[0] == "D":
                    b.post(SUBS[0])
            try:
                _, n = overlapped(pair, bs, [[], []])
            except Exception:
                n = [60, 60]
            for k in range(1, n[0] + 1):
                cases.append(dict(pair=[list(p) for p in pair], cut=[[k], []]))
            if deep:
                for k in range(1, n[0] + 1, 3):
                    for j in range(1, n[1] + 1, 3):
                        cases.append(dict(pair=[list(p) for p in pair], cut=[[k], [j]]))
        ex.product(cases, "schedules of two overlapping requests")


CHECK = C19()
