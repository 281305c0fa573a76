import itertools

from mc import page, web
from mc.engine import Violation

KINDS = {"Materials": "material", "Udls": "udl", "LineLoads": "lineload"}
MATS12 = tuple((17 + 0.25 * i, 20 + i, 1 + i, 0.5 + 0.5 * i, f"layer {i}", "") for i in range(12))
ROOTS = [
    None,  # the default page
    dict(mats=((18, 28, 9, 2, "clay", "#123456"), (21, 33, 4, 9, "rock", ""), (20, 30, 2, 12)),
         udls=((20, 0.2, 0.8, False), (5, 0.1, 0, True)), lls=((14, 0.35, True), (3, 0.1, False)),
         water=0.4, limits=(1, 9), inner=(3.2, 5.5), height=2, length=3.5, by="length",
         display="1.3"),
    dict(mats=MATS12[:9], udls=tuple((i + 1, 0.1 * i, 0.5, i % 2 == 0) for i in range(10)),
         lls=tuple((i + 1, 0.1 * i, i % 3 == 0) for i in range(11)), limits=(4, 6), inner=(4.2, 5.7)),
    dict(mats=MATS12, by="length", length=2, limits=(3.5, 6.5), inner=(3.7, 6.2)),
]
TEXT = {"Materials": ["19.5", "31", "7", "1.75", "sand <&> \"x\"", "#abcdef"],
        "Udls": ["12", "0.3", "0.7", "green", True],
        "LineLoads": ["9", "0.4", "navy", True]}
OTHER = [("slope-height", "1.5"), ("slope-angle", "50"), ("slope-length", "2.5"),
         ("watertable-water_depth", "0.6"), ("limits-left_x", "0.5"), ("limits-right_x", "7"),
         ("limits-left_x_right", "3"), ("limits-right_x_left", "5"),
         ("options-critical_FOS", "1.7"), ("options-iterations", "750"), ("options-slices", "15")]
CHOICES = [("options-slope_choice", "length"), ("options-slope_choice", "angle"),
           ("options-analysis_choice", "dynamic"), ("watertable-consider_water", True),
           ("watertable-consider_water", False), ("limits-consider_limits", True),
           ("limits-consider_limits", False), ("limits-consider_internal_limits", True),
           ("limits-consider_internal_limits", False)]
SHOW = [("options-max_display_FOS", "1.4"), ("options-max_display_FOS", "3.0")]


def rows_ops(*kinds, dels=(0, 1, -1), types=((0, 0), (-1, -1))):
    out = []
    for k in kinds:
        out.append(("add", k))
        out += [("del", k, i) for i in dels]
        out += [("type", k, i, c) for i, c in types]
    return out


class Screen:
    """what the user sees, and how the page has to behave"""

    def __init__(self, first):
        """first: observation of the page as loaded"""
        self.rows = {k: [[v for n, v, i in r if not n.endswith("-id")] for r in first["rows"][k]]
                     for k in KINDS}
        self.names = {k: [n.split("-", 2)[2] for n, v, i in first["rows"][k][0]
                          if not n.endswith("-id")] for k in KINDS}
        self.other = dict((k, v) for k, v in first["form"]
                          if k.split("-")[0] not in KINDS.values() and k != "csrfmiddlewaretoken")
        self.dirty = False

    def apply(self, op, played=None):
        """(what the browser does, new rows of this kind) or None"""
        kind = op[0]
        if kind == "add":
            self.rows[op[1]].append(None)  # the page chooses its content
            self.dirty = True
            return ["click", {"id": f"add-{op[1]}-form"}]
        if kind == "del":
            rows = self.rows[op[1]]
            i = op[2] if op[2] >= 0 else len(rows) + op[2]
            if not 0 <= i < len(rows):
                return None
            if len(rows) > 1:
                del rows[i]
                self.dirty = True
            return ["click", {"row": op[1], "i": i, "k": "X"}]
        if kind == "type":
            rows = self.rows[op[1]]
            i = op[2] if op[2] >= 0 else len(rows) + op[2]
            if not 0 <= i < len(rows):
                return None
            c = op[3] % len(self.names[op[1]])
            v = TEXT[op[1]][c]
            if played:
                v = played[2]
            elif rows[i] is not None and rows[i][c] == v:
                v = (not v) if isinstance(v, bool) else {"sand <&> \"x\"": "gravel", "#abcdef": "red",
                                                         "green": "red", "navy": "red"}.get(v, v + "1")
            if rows[i] is None:
                rows[i] = [None] * len(self.names[op[1]])
            rows[i][c] = v
            self.dirty = True
            return ["set", {"row": op[1], "i": i, "k": c}, v]
        name, v = op[1:]
        if name == "options-max_display_FOS":
            self.other[name] = v
        elif isinstance(v, bool):
            if (name in self.other) != v:
                self.dirty = True
            self.other.pop(name, None)
            if v:
                self.other[name] = "on"
        else:
            if self.other[name] == v:
                return None
            self.other[name] = v
            self.dirty = True
        return ["set", {"name": name}, v]

    def check(self, o, ctx, where):
        ctx.validated += 1

        def req(cond, *msg):
            if not cond:
                raise Violation(f"after {where}: " + " ".join(str(m) for m in msg))

        want = {}
        for k, p in KINDS.items():
            got = [[v for n, v, i in r if not n.endswith("-id")] for r in o["rows"][k]]
            rows = self.rows[k]
            req(len(got) == len(rows), f"{len(got)} rows of {k}, expected {len(rows)}")
            for i, (g, r) in enumerate(zip(got, rows)):
                if r is None:
                    r = [None] * len(g)
                req(len(g) == len(r) and all(b is None or a == b for a, b in zip(g, r)),
                    f"row {i} of {k} shows {g}, expected {r}")
                rows[i] = g  # what a new row shows is up to the page
                for n, v in zip(self.names[k], g):
                    if v is True or v is False:
                        if v:
                            want[f"{p}-{i}-{n}"] = "on"
                    else:
                        want[f"{p}-{i}-{n}"] = v
            want[f"{p}-TOTAL_FORMS"] = str(len(rows))
            want[f"{p}-INITIAL_FORMS"] = "0"
            ids = [i for r in o["rows"][k] for n, v, i in r if i]
            req(len(ids) == len(set(ids)), f"two inputs of {k} with the same id: {sorted(ids)}")
        want.update(self.other)
        sent = [(n, v) for n, v in o["form"] if n not in ("csrfmiddlewaretoken", "Analyse")
                and not n.endswith(("MIN_NUM_FORMS", "MAX_NUM_FORMS"))
                and not (n.endswith("-id") and v == "")]
        names = [n for n, v in sent]
        req(len(set(names)) == len(names),
            f"submitted twice: {sorted(n for n in set(names) if names.count(n) > 1)}")
        sent = dict(sent)
        diff = {n: (sent.get(n), want.get(n)) for n in set(sent) | set(want)
                if sent.get(n) != want.get(n)}
        req(not diff, f"submitted but not shown, or otherwise (submitted, shown): {diff}")
        # buttons
        req(o["analyse"] == self.dirty,
            f"analysing is {'' if o['analyse'] else 'not '}possible, the form was "
            f"{'' if self.dirty else 'not '}changed")
        if self.dirty:
            req(o["pdf"] is None, f"report {o['pdf']} of outdated results is offered")
        else:
            link = f"/pdf/{self.other['options-max_display_FOS']}"
            req(o["pdf"] and o["pdf"].endswith(link), f"report link {o['pdf']}, expected {link}")
        # fields that matter are shown, others hidden
        sh, on = o["shown"], self.other
        lim = "limits-consider_limits" in on
        inner = lim and "limits-consider_internal_limits" in on
        by = on["options-slope_choice"]
        for n, v in {
            "slope-height": True, "slope-angle": by != "length", "slope-length": by == "length",
            "watertable-consider_water": True,
            "watertable-water_depth": "watertable-consider_water" in on,
            "limits-consider_limits": True, "limits-left_x": lim, "limits-right_x": lim,
            "limits-consider_internal_limits": lim, "limits-left_x_right": inner,
            "limits-right_x_left": inner,
        }.items():
            req(sh.get(n) == v, f"field {n} is {'shown' if sh.get(n) else 'hidden'}")
        for n, v, text in o["sliders"]:
            req(text == v, f"slider {n} at {v} says {text}")
        req(not o["log"], f"the page was left: {o['log']}")
        return want


WHAT = ["form", "rows", "buttons", "shown"]
_pages = {}


def opened(root):
    if root not in _pages:
        b = web.Browser()
        r = b.get("/") if ROOTS[root] is None else b.post(web.form(**ROOTS[root]))
        _pages[root] = page.Browser(r)
    return _pages[root]


class C23:
    ID = "C23"
    EXPLAIN = (
        "all sequences, to the bound, of adding rows, deleting the first, "
        "second or last row, typing into first and last rows, ticking, "
        "choosing and changing the display, on pages with one, some, nine to "
        "twelve rows; the page's own scripts run on a document object model "
        "in node; after every step the rows shown, the entries a browser "
        "would submit, the buttons, hidden fields and sliders are compared "
        "with a model of the screen; final forms are submitted to the "
        "application and must come back as shown with the library's answer"
    )
    ASSUMES = [
        "the document object model in mc/dom.js stands for a browser; Bootstrap and CSS are not modelled",
        "typed values are ones the browser's own validation accepts",
    ]

    def run(self, case, ctx):
        web.setup()
        pg = opened(case["root"])
        first = pg.first = getattr(pg, "first", None) or pg.play([], WHAT)
        scr = Screen(first)
        if case["root"]:
            self.stored(first, web.form(**ROOTS[case["root"]]))
        scr.check(first, ctx, "loading")
        # the concrete events of the history (rows are counted by the model)
        trial = Screen(first)
        todo = [(op, ev) for op in case["ops"] if (ev := trial.apply(op)) is not None]
        if todo:
            seen = pg.play([ev for _, ev in todo], WHAT, every=True)[1:]
            for n, ((op, ev), o) in enumerate(zip(todo, seen)):
                ctx.step()
                scr.apply(op, played=ev)
                want = scr.check(o, ctx, [list(p) for p, _ in todo[:n + 1]])
                ctx.outcome(op[0], "changed" if scr.dirty else "unchanged")
        else:
            want = scr.check(first, ctx, "loading")
        ctx.state((case["root"], sorted(want.items()), scr.dirty))
        if case.get("leave"):
            self.leave(ctx, pg, [ev for _, ev in todo], scr)
        if case.get("send"):
            self.send(ctx, want, scr)

    def stored(self, first, sub):
        got = dict(first["form"])
        for k, v in sub.items():
            if not k.endswith(("MIN_NUM_FORMS", "MAX_NUM_FORMS")) and got.get(k) != v:
                raise Violation(f"loaded page would submit {k} = {got.get(k)}, shown was {v}")

    def leave(self, ctx, pg, evs, scr):
        """clicking Analyse submits the form once, when that is possible"""
        o = pg.play(evs + [["click", {"id": "analysis_button"}]], WHAT)
        want = [["submit", "mainform"]] if scr.dirty else []
        ctx.validated += 1
        if o["log"] != want:
            raise Violation(f"clicking Analyse: {o['log']}, expected {want}")
        o = pg.play(evs + [["click", {"id": "reset_button"}]], WHAT)
        if o["log"] != [["go", "/reset"]]:
            raise Violation(f"clicking Clear Slope: {o['log']}")
        if not scr.dirty:
            o = pg.play(evs + [["click", {"id": "pdf_button"}]], WHAT)
            if len(o["log"]) != 1 or o["log"][0][0] != "go" or \
                    o["log"][0][1].lstrip("/") != f"pdf/{scr.other['options-max_display_FOS']}":
                raise Violation(f"clicking PDF: {o['log']}")

    def send(self, ctx, want, scr):
        """the application answers for the rows that were shown"""
        sub = dict(want)
        for p in KINDS.values():
            sub[f"{p}-MIN_NUM_FORMS"], sub[f"{p}-MAX_NUM_FORMS"] = "0", "1000"
        ans = web.Answer(sub)
        r = web.Browser().post(sub)
        if not ans.planes:
            ctx.outcome("submitted", "refused")
            if r.status_code != 302:
                raise Violation(f"unusable submission answered with {r.status_code}")
            return
        pg = web.Page(r)
        web.check_page(ctx, pg, ans)
        web.check_fields(ctx, pg, sub)
        ctx.outcome("submitted", "answered")

    def explore(self, ex, tier):
        web.setup()
        for r in range(len(ROOTS)):  # once, not in every worker
            opened(r)
        deep = tier == "thorough"
        every = [("set", *p) for p in OTHER + CHOICES + SHOW]
        cases = []
        for root in range(len(ROOTS)):
            for k in KINDS:
                ops = rows_ops(k)
                for h in itertools.product(ops, repeat=4 if deep else 3):
                    if root in (0, 1) or (h[0][0] != "type" and (deep or h[1][0] != "type")):
                        cases.append(dict(root=root, ops=h))
        ex.product(cases, "row histories of one kind")
        ops = rows_ops(*KINDS, dels=(0,), types=((-1, 1),))
        ex.product([dict(root=r, ops=h) for r in range(4)
                    for h in itertools.product(ops, repeat=3 if deep else 2)], "row histories of all kinds")
        ops = every + rows_ops(*KINDS, dels=(0,), types=((0, 2),))
        ex.product([dict(root=r, ops=h, leave=True) for r in range(4)
                    for h in itertools.product(ops, repeat=2)
                    if deep or r < 2], "any two changes")
        sw = [("set", *p) for p in CHOICES]
        ex.product([dict(root=r, ops=h) for r in range(2)
                    for h in itertools.product(sw, repeat=4 if deep else 3)], "switches")
        # long ones: past ten rows and back, then submitted
        cases = []
        for root, k in itertools.product(range(4), KINDS):
            fill = [("add", k), ("type", k, -1, 0), ("type", k, -1, 3 if k == "Materials" else 1)]
            for n, d in itertools.product((2, 11, 13), ((), (0,), (0, 0), (-1, 0), (5, 0), (1, 10), (10, 9), (0,) * 12)):
                cases.append(dict(root=root, ops=[
                    *(o for _ in range(n) for o in fill),
                    *[("del", k, i) for i in d], ("add", k), ("type", k, -1, 0)]))
        ex.product(cases, "more than ten rows")
        cases = []
        for r in range(4):
            for a in ([], [("add", "Udls"), ("type", "Udls", -1, 0), ("type", "Udls", -1, 1)],
                      [("add", "LineLoads"), ("type", "LineLoads", -1, 0)],
                      [("del", "Materials", 0)], [("del", "Udls", 1), ("del", "LineLoads", 0)],
                      [("add", "Materials"), ("type", "Materials", -1, 3), ("type", "Materials", -1, 0)]):
                for b in ([], [("set", "slope-height", "1.5")], [("set", "options-slope_choice", "length"),
                          ("set", "slope-length", "2.5")], [("set", "watertable-consider_water", True)],
                          [("add", "Udls"), ("type", "Udls", -1, 4), ("set", "options-analysis_choice", "dynamic")]):
                    cases.append(dict(root=r, ops=a + b, send=True))
        ex.product(cases, "submitted")


CHECK = C23()
