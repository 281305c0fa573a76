import itertools

from mc import web
from mc.engine import Violation
from mc.figs import NS, check_all_planes, check_critical, check_section

SUBS = [
    web.form(),
    web.form(height=2.5, angle=60, mats=((18, 28, 9, 2, "clay", "#123456"), (21, 33, 4, 9)),
             udls=((20, 0.2, 0.8, False),), lls=((14, 0.35, False),), water=0.4),
    web.form(height=2, length=3.5, by="length", limits=(1, 9), inner=(3.2, 5.5)),
    web.form(udls=((40, 0.1, 1, True),), analysis="dynamic", critical="1.5"),
    web.form(mats=((20, 40, 150, 5),)),
    web.form(height=1.5, angle=80, mats=((19, 20, 1, 5),)),
    web.form(mats=((20, 0, 0, 5),)),
    web.form(mats=((20, 35, 2, 0.4, "a", ""), (18, 0, 30, 5, "b", "")), slices=50),
    web.form(height=1, angle=25, mats=((16, 32, 0, 5),), iterations=1000),
]
# plane index (exactly its FOS), between two planes, or a value
MAXIMA = ["0", "0.1", "1", "1.5", "2.0", "2", "3.3", "5", "5.0", "7.5", "100", "1e3", "-1",
          ("at", 0), ("at", 3), ("at", 0.5), ("at", -1), ("above", 0), ("above", 0.5), ("above", -1)]
# what happened in the session before the report
BEFORE = ["post", "load", "post load", "post bad", "load post", "post other", "post pdf"]
EMPTY = ["", "reset", "post reset", "load reset", "other", "reset pdf"]


def pdf(ctx, b, mx):
    before = b.session()
    n = len(web.RENDERED)
    r = b.get(f"/pdf/{mx}")
    ctx.step()
    after = b.session()
    if before != after:
        diff = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
        raise Violation(f"requesting a report changed the session: {diff}")
    ctx.validated += 1
    return r, web.RENDERED[n:]


def judge(ctx, b, mx, planes, model):
    """a report on these results of this browser"""
    r, figs = pdf(ctx, b, mx)
    if r.status_code != 200 or r.headers.get("Content-Type") != "application/pdf":
        raise Violation(f"report up to {mx} answered with {r.status_code} {r.headers}")
    if len(figs) != 1:
        raise Violation(f"{len(figs)} figures rendered for one report")
    fig, fmt = figs[0]
    if fmt != "pdf" or r.content != b"%PDF-" + str(len(web.RENDERED)).encode():
        raise Violation(f"the report is not the PDF rendered ({fmt})")
    fig = NS(fig)
    check_section(ctx, fig, model)
    check_critical(ctx, fig, planes)
    check_all_planes(ctx, fig, planes, float(mx))


def refused(ctx, b, mx="2"):
    r, figs = pdf(ctx, b, mx)
    if r.status_code not in (301, 302, 303) or r.headers["Location"] != "/":
        raise Violation(f"report without results answered with {r.status_code} "
                        f"{r.headers.get('Location')}")
    if figs:
        raise Violation("report rendered without results")


def answer(sub, memo={}):
    k = tuple(sorted(sub.items()))
    if k not in memo:
        memo[k] = web.Answer(sub)
    return memo[k]


class C20:
    ID = "C20"
    EXPLAIN = (
        "all combinations of submissions (strata, loads, water, limits, "
        "dynamic, very strong and strengthless ground), maxima (below, "
        "between, exactly on and above the factors of safety) and what "
        "happened before in the session: the figure given to the PDF "
        "renderer is read back - section, critical plane, and every drawn "
        "plane with ends, arc, value, colour, order - and the stored "
        "session compared before and after"
    )
    ASSUMES = [
        "the renderer (kaleido) is replaced by a stand-in that records the figure",
        "the library's planes are those judged by C01-C17",
    ]

    def run(self, case, ctx):
        web.setup()
        b, o = web.Browser(), web.Browser()
        ctx.state(case)
        if case["sub"] is None:
            for step in case["before"].split():
                if step == "reset":
                    b.get("/reset")
                elif step == "post":
                    b.post(SUBS[1])
                elif step == "load":
                    b.get("/")
                elif step == "other":
                    o.post(SUBS[1])
                elif step == "pdf":
                    refused(ctx, b)
                ctx.step()
            refused(ctx, b, case["max"])
            ctx.outcome("no results")
            return
        sub = SUBS[case["sub"]]
        ans = answer(web.form()) if case["before"] == "load" else answer(sub)
        for step in case["before"].split():
            ctx.step()
            if step == "post":
                b.post(sub)
            elif step == "load":
                b.get("/")
            elif step == "bad":
                b.post(web.form(raw={"slope-height": "x"}))  # redirect not followed
            elif step == "other":
                o.post(SUBS[(case["sub"] + 1) % len(SUBS)])
            elif step == "pdf":
                judge(ctx, b, "2.2", ans.planes, ans.model)
        for mx in case["maxima"]:
            if isinstance(mx, (list, tuple)):
                kind, i = mx
                n = len(ans.planes)
                i = int(i * n) if isinstance(i, float) else (i if -n <= i < n else n - 1)
                f = ans.planes[i][3]
                mx = repr(f if kind == "at" else f + 1e-7)
            judge(ctx, b, mx, ans.planes, ans.model)
            ctx.outcome("planes", "none" if ans.planes[0][3] >= float(mx) else
                        "all" if ans.planes[-1][3] < float(mx) else "some")

    def explore(self, ex, tier):
        web.setup()
        deep = tier == "thorough"
        cases = []
        for i, (s, h) in enumerate(itertools.product(range(len(SUBS)), BEFORE)):
            mx = MAXIMA if deep or h == "post" else MAXIMA[i % 7::7]
            for k in range(0, len(mx), 5):
                cases.append(dict(sub=s, before=h, maxima=mx[k:k + 5]))
        ex.product(cases, "submissions x histories x maxima")
        ex.product([dict(sub=None, before=h, max=m) for h in EMPTY
                    for m in ("0", "2.0", "5", "1e9")], "sessions without results")


CHECK = C20()
