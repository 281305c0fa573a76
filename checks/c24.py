import itertools
import re

from mc import page, web
from mc.engine import Violation
from mc.figs import SCALE, scale_colours

ROOTS = [
    None,  # the default page
    dict(mats=((18, 28, 9, 2, "clay <&>", "#123456"), (21, 33, 4, 9, "rock", ""), (20, 30, 2, 0.5)),
         udls=((20, 0.2, 0.8, False), (5, 0.1, 0, True)), lls=((14, 0.35, True), (3, 0.1, False)),
         water=0.4, height=2, length=3.5, by="length", display="1.3"),
    dict(mats=((20, 40, 150, 5),), display="5"),          # everything above 5
    dict(mats=((20, 40, 20, 5),), display="3.0"),         # strong: values beyond the scale's border
    dict(mats=((20, 0, 0, 5),), display="0.5"),           # no strength at all
    dict(udls=((40, 0.1, 1, True),), analysis="dynamic", critical="1.5", display="2.5"),
    dict(mats=((17, 26, 3, 5, "a", "red"), (19, 24, 2, 1, "b", "blue"), (18, 25, 3, 3, "", "")),
         height=3, angle=35, display="0.1"),
    # more materials than there are colours
    dict(mats=tuple((16 + i / 4, 20 + i, 2 + i, 0.4 * (i + 1), f"layer {i}" if i % 3 else "")
                    for i in range(13)), display="2"),
]
MAXIMA = ["0.1", "0.9", "1.1", "1.3", "1.6", "2", "2.7", "3.3", "4.1", "4.9", "5"]
WIDTHS = [400, 899, 900, 1500]
OTHERS = [["set", {"name": "slope-height"}, "1.7"],
          ["set", {"row": "Materials", "i": 0, "k": 0}, "17.5"],
          ["click", {"id": "add-Materials-form"}],
          ["click", {"row": "Materials", "i": 0, "k": "X"}],
          ["set", {"name": "options-slope_choice"}, "length"],
          ["drag", {"name": "options-max_display_FOS"}, "4.4"],
          ["wait", 20000]]


def op_max(v):
    return ["set", {"name": "options-max_display_FOS"}, v]


class Opened:
    def __init__(self, root):
        b = web.Browser()
        spec = ROOTS[root]
        r = b.get("/") if spec is None else b.post(web.form(**spec))
        self.pg = page.Browser(r)
        self.page = web.Page(r)
        self.max = self.page.fields["options-max_display_FOS"]
        self.base = self.page.plot["data"]
        self.shapes = len(self.page.plot["layout"].get("shapes", []))
        self.notes = len(self.page.plot["layout"].get("annotations", []))
        ans = web.Answer(web.form(**(spec or {})))
        d = web.same(self.page.planes, ans.planes)
        if d:
            raise Violation("planes of the page: " + d)
        self.mats = sorted(ans.model.mats, key=lambda q: q.depth)


_opened = {}


def opened(root):
    if root not in _opened:
        _opened[root] = Opened(root)
    return _opened[root]


def num(v):
    return float(v)


def pairs(t):
    return [(num(a), num(b)) for a, b in zip(t["x"], t["y"])] if t.get("x") else []


def check_plot(ctx, o, op, mx, width, where):
    """o shows the section, the critical plane and the planes below mx"""
    ctx.validated += 1

    def req(cond, *msg):
        if not cond:
            raise Violation(f"page {where}: " + " ".join(str(m) for m in msg))

    traces = [t for t in o["plot"] if t["v"] is True and t["o"]]
    n = len(op.base)
    for t in op.base:
        want = pairs(t)
        hit = next((i for i, g in enumerate(traces)
                    if pairs(g) == want and (g["f"] or None) == (t.get("fillcolor") or None)
                    and (g["n"] or None) == (t.get("name") or None)), None)
        req(hit is not None, f"a line of the section or critical plane is not drawn: {t.get('name')} {want[:3]}")
        n -= 1
        del traces[hit]
    want = [s for s in op.page.search if s["FOS"] < float(mx)]
    req(len(traces) == len(want), f"{len(traces)} planes drawn, {len(want)} have a FOS below {mx}")
    for t, s in zip(traces, want[::-1]):
        req(pairs(t) == list(zip(s["x"], s["y"])),
            f"plane of FOS {s['FOS']} (below {mx}) is not drawn where it belongs (or not in order): {t['x'][:2]} {t['y'][:2]}")
        req(t["c"] in scale_colours(s["FOS"]), f"plane of FOS {s['FOS']} is drawn in {t['c']}")
        try:
            h = float(t["h"])
        except (TypeError, ValueError):
            h = None
        req(h is not None and abs(h - s["FOS"]) <= 0.00051, f"plane of FOS {s['FOS']} is labelled {t['h']}")
    small = width < 900
    req(o["mobile"] == small, f"tables for small screens {'shown' if o['mobile'] else 'hidden'} at width {width}")
    if small:
        rows = [[c[0].strip() for c in r] for r in o["soil"]]
        req(len(rows) == len(op.mats), f"{len(rows)} materials in the table, {len(op.mats)} analysed")
        left = list(zip(rows, o["soil"]))
        for i, q in enumerate(op.mats):
            vals = [q.uw, q.c, q.phi]
            fill = op.base[i + 1]["fillcolor"]
            hit = next((j for j, (r, raw) in enumerate(left)
                        if r[0] == (q.name or "") and raw[1][1] == fill
                        and all(abs(float(a) - b) < 1e-9 for a, b in zip(r[2:], vals))), None)
            req(hit is not None, f"material {q.name} {vals} with colour {fill} is not in the table: {o['soil']}")
            del left[hit]
        labels = [float(v) for v in re.findall(r"\d+(?:\.\d+)?", o["labels"])]
        req(not labels or (labels[0], labels[-1]) == (0, 5), f"scale labelled {labels}")
        req(o["scale"] == SCALE, f"colour scale of {len(o['scale'])} colours: {o['scale'][:3]}")
    else:
        req(o["layout"]["shapes"] == op.shapes and o["layout"]["annotations"] == op.notes,
            f"{o['layout']} drawn, expected {op.shapes} shapes and {op.notes} annotations")
    ctx.outcome("planes", "none" if not want else "all" if len(want) == len(op.page.search) else "some",
                "small" if small else "wide")


class C24:
    ID = "C24"
    EXPLAIN = (
        "all sequences, to the bound, of changes of the displayed maximum, "
        "window sizes and edits of the form on pages of several submissions "
        "(default, unsorted materials, all above 5, no strength, dynamic): "
        "the page's own scripts run on a document object model in node with "
        "a model of Plotly's calls; after every step the curves on the plot "
        "are compared one by one with the planes of the answer below the "
        "maximum, with their values, colours and order, and the tables for "
        "small screens with the analysed materials"
    )
    ASSUMES = [
        "mc/dom.js stands for browser and Plotly (newPlot, react, update, addTraces, deleteTraces, restyle, relayout)",
        "the answer in the page is the one judged by C18",
    ]

    def run(self, case, ctx):
        web.setup()
        op = opened(case["root"])
        mx, width = op.max, case.get("width", 1500)
        seen = op.pg.play(case["ops"], ["plot"], every=True, width=width)
        check_plot(ctx, seen[0], op, mx, width, f"as loaded ({mx}, {width})")
        said = []
        for ev, o in zip(case["ops"], seen[1:]):
            ctx.step()
            said.append([ev[0], *[v for v in ev[1:]]])
            if ev[0] == "resize":
                width = ev[1]
            elif ev[0] == "set" and ev[1] == {"name": "options-max_display_FOS"}:
                mx = ev[2]
            if ev[0] == "drag":
                mx = None  # may be redrawn while dragging or afterwards
            if mx is None:
                continue
            check_plot(ctx, o, op, mx, width, f"after {said}")
        ctx.state((case["root"], mx, width))

    def explore(self, ex, tier):
        web.setup()
        deep = tier == "thorough"
        for r in range(len(ROOTS)):
            opened(r)
        sizes = [["resize", w] for w in WIDTHS]
        roots = range(len(ROOTS))
        ex.product([dict(root=r, width=w, ops=[op_max(v)]) for r in roots for w in WIDTHS
                    for v in [f"{i / 10:.1f}" if i % 10 else str(i // 10) for i in range(1, 51)]
                    if deep or w in (400, 1500)], "every maximum of the slider")
        ops = [op_max(v) for v in (MAXIMA if deep else MAXIMA[1::2])] + sizes[::2] + OTHERS
        ex.product([dict(root=r, width=w, ops=list(h)) for r in roots for w in (400, 1500)
                    for h in itertools.product(ops, repeat=3 if deep else 2)], "histories")
        ops = [op_max(v) for v in ("1.1", "1.6", "4.9")] + [sizes[0], sizes[3]]
        ex.product([dict(root=r, width=w, ops=list(h)) for r in (0, 1) for w in (400, 1500)
                    for h in itertools.product(ops, repeat=5 if deep else 4)], "longer histories")


CHECK = C24()
