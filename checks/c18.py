import itertools

from mc import web
from mc.engine import Violation
from mc.figs import NS, SCALE, check_fos_legend, check_table

# one group of fields each; the first variant is the basis
GROUPS = dict(
    slope=[
        dict(), dict(height=2.5, angle=60), dict(height=1.2, angle=37.5, length=9),
        dict(height=2, angle=80, length=3.5, by="length"),
        dict(height=3, angle=20, length=3, by="length"),
        dict(height=1.5, angle=90), dict(height=0.7, length=0, by="length"),
    ],
    mats=[
        dict(), dict(mats=((18, 28, 4, 2, "clay", "#123456"),)),
        dict(mats=((21, 33, 1, 3, "", ""), (18, 22, 6, 0.8, "top", "green"))),
        dict(mats=((19.5, 30, 2.25, 1.5), (17, 0, 20, 0.4), (22, 38, 0, 4, "rock", "#aaa"))),
        dict(mats=((20, 35, 2, 5), (20, 35, 2, 5.5))),
        dict(mats=tuple((18 + i / 4, 25 + i, 2 + i / 2, 0.3 + 0.3 * i) for i in range(12))),
        dict(mats=((20, 40, 150, 5),)),
        dict(mats=((20, 30, 5, 30),)),
    ],
    loads=[
        dict(), dict(udls=((25, 0.2, 0.8, False),)),
        dict(lls=((14, 0.35, False),)),
        dict(udls=((12, 0.1, 0.5, False, ""), (30, 0.9, 1, False, "#00f")),
             lls=((6, 0.2, False, ""), (9, 1.4, False, "green"))),
        dict(udls=((10, 0, 0, False),)),
        dict(udls=((40, 0.1, 1, True),)),
        dict(udls=((20, 0.1, 0.5, True), (8, 0.3, 1, False)), lls=((15, 0.3, True),)),
        dict(udls=((-25, -0.2, -0.8, False),), lls=((3, 6, False),)),
        dict(udls=((0, 0.5, 2, False), (18, 0.3, 0, False))),
        dict(udls=tuple((2 + i, 0.1 * i, 0.3, False) for i in range(13)),
             lls=tuple((1 + i, 0.15 * i, False) for i in range(12))),
    ],
    water=[
        dict(), dict(water=0.3), dict(water=0), dict(water=1.6), dict(water_depth=0.2),
    ],
    limits=[
        dict(), dict(limits=(0.5, 9)), dict(limits=(1, 7.5), inner=(3.2, 5.5)),
        dict(inner=(1, 2)), dict(limits=(2, 60), inner=(30, 4.5)),
    ],
    options=[
        dict(), dict(slices=25), dict(slices=50, display="5"), dict(iterations=1250),
        dict(analysis="dynamic", critical="1.5"), dict(analysis="dynamic", critical="2.0"),
        dict(analysis="dynamic", critical="5.0"), dict(analysis="dynamic", critical="0.5"),
        dict(analysis="dynamic", critical="1.85", slices=15),
    ],
)
NUMBERS = (
    ["slope-height", "slope-angle", "slope-length"]
    + [f"material-0-{k}" for k in ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom")]
    + [f"udl-0-{k}" for k in ("magnitude", "offset", "length")]
    + [f"lineload-0-{k}" for k in ("magnitude", "offset")]
    + ["watertable-water_depth"]
    + [f"limits-{k}" for k in ("left_x", "right_x", "left_x_right", "right_x_left")]
)
NO_NUMBER = [None, "", "abc", "1,5", "nan", "inf", "-inf", "1e999", "0x1"]
BAD = (
    [{k: v} for k in NUMBERS for v in NO_NUMBER]
    + [{"options-iterations": v} for v in (None, "", "x", "499", "5001", "-500", "750.5", "nan")]
    + [{"options-slices": v} for v in (None, "", "x", "9", "51", "12.5")]
    + [{"options-critical_FOS": v} for v in (None, "", "x", "-0.1", "5.1", "nan")]
    + [{"options-max_display_FOS": v} for v in (None, "", "x", "-0.1", "5.1")]
    + [{"options-analysis_choice": v} for v in (None, "", "bishop")]
    + [{"options-slope_choice": v} for v in (None, "", "height")]
    + [{f"{p}-TOTAL_FORMS": v} for p in ("material", "udl", "lineload")
       for v in (None, "", "x")]
    + [{"material-TOTAL_FORMS": "0"}, {"material-TOTAL_FORMS": "2"}]
    + [{"material-0-name": "x" * 51}, {"material-0-color": "x" * 21},
       {"udl-0-color": "x" * 21, "udl-0-magnitude": "5"}]
)
# accepted by no library call
REFUSED = (
    [{"slope-height": v} for v in ("0", "-1", "-0")]
    + [{"slope-angle": v} for v in ("0", "-30", "90.01", "180")]
    + [{"slope-length": "-1", "options-slope_choice": "length"}]
    + [{"material-0-unit_weight": v} for v in ("0", "0.99", "50.1", "-20")]
    + [{"material-0-friction_angle": "-1"}]
    + [{"watertable-water_depth": "-0.1", "watertable-consider_water": "on"}]
    + [{"limits-consider_limits": "on", "limits-left_x": a, "limits-right_x": b}
       for a, b in (("9", "8"), ("-1", "8"), ("0", "0"), ("0", "-3"), ("5", "8"))]
    + [{"limits-consider_limits": "on", "limits-consider_internal_limits": "on",
        "limits-left_x": "1", "limits-right_x": "8", "limits-left_x_right": a,
        "limits-right_x_left": b} for a, b in (("1", "6"), ("0.5", "6"), ("4", "8"), ("4", "9"), ("0", "6"), ("4", "0"))]
    # nothing to analyse
    + [{"limits-consider_limits": "on", "limits-consider_internal_limits": "on",
        "limits-left_x": "0", "limits-right_x": "0.1", "limits-left_x_right": "0.1",
        "limits-right_x_left": "0.05"}]
)
ODD = [
    # unusual, but submitted in good order
    {"slope-angle": "200", "options-slope_choice": "length", "slope-length": "2"},
    {"slope-length": "-4"},
    {"material-0-cohesion": "-3"}, {"material-0-depth_to_bottom": "-2.5"},
    {"material-0-cohesion": "0", "material-0-friction_angle": "0"},
    {"material-0-friction_angle": "89"}, {"material-0-depth_to_bottom": "0"},
    {"slope-height": " 1.5 "}, {"slope-height": "1e0"}, {"slope-angle": "+40"},
    {"slope-height": "0.01"}, {"slope-height": "40"}, {"slope-angle": "1"},
    {"material-0-name": "a<b>\"&'</b></script>"}, {"material-0-name": "  lehm "},
    {"material-0-color": "no such colour"}, {"udl-0-magnitude": "5", "udl-0-color": "#12"},
    {"lineload-0-magnitude": "5", "lineload-0-color": "nonsense"},
    {"udl-0-magnitude": "0.01"}, {"udl-0-magnitude": "1e6"}, {"lineload-0-offset": "1000"},
    {"udl-0-dynamic_offset": "on"}, {"options-critical_FOS": "0", "options-analysis_choice": "dynamic"},
    {"udl-0-color": ""}, {"watertable-water_depth": "-4"}, {"limits-left_x": "-4"},
    {"limits-consider_internal_limits": "on", "limits-left_x_right": "-1"},
    {"extra": "field"}, {"udl-0-magnitude": "12.5", "udl-0-offset": "2", "udl-0-length": "50"},
]


class C18:
    ID = "C18"
    EXPLAIN = (
        "all submissions that differ from a basic one in at most two of six "
        "groups of fields (slope, materials, loads, water, limits, options), "
        "every field with every kind of unusable value, values only the "
        "library refuses, and unusual valid values: the page the browser "
        "gets (planes, curves, section, critical plane, tables) is compared "
        "with the library's own answer and the reference section; refused "
        "ones must lead to the reset page and the default example"
    )
    ASSUMES = [
        "the library's answers are those judged by C01-C17",
        "Django's test client stands for browser and server",
    ]

    def run(self, case, ctx):
        web.setup()
        b = web.Browser()
        ctx.step()
        if "raw" in case:
            sub = web.form(raw=case["raw"], **case.get("kw", {}))
        else:
            kw = {}
            for g, i in case["pick"].items():
                kw.update(GROUPS[g][i])
            sub = web.form(**kw)
        ctx.state(sorted(sub.items()))
        if case.get("before"):
            b.post(web.form(height=1.75))
        must = case.get("must")
        ans = web.Answer(sub) if must != "refuse" else None
        r = b.post(sub)
        if r.status_code >= 500:
            raise Violation(f"server error for {sub}")
        if ans is None or ans.planes is None:
            ctx.outcome("refused", ans.kind if ans else "unusable field")
            if r.status_code not in (301, 302, 303):
                raise Violation(f"answered with {r.status_code} although the submission {case} is not valid")
            hops = 0
            while r.status_code in (301, 302, 303):
                hops += 1
                if hops > 5:
                    raise Violation("redirects for ever")
                r = b.get(r.headers["Location"])
            page = web.Page(r)
            d = web.same(page.planes, default().planes)
            ctx.validated += 1
            if d:
                raise Violation(f"after a refused submission the page does not show the default: {d}")
            return
        if must == "library refuses":
            raise Violation(f"the library accepts {case}")
        page = web.Page(r)
        ctx.outcome(ans.kind, "planes")
        web.check_page(ctx, page, ans)
        fig = NS(page.plot)
        check_table(ctx, fig, ans.model)
        check_fos_legend(ctx, fig)
        if [page.colours[k] for k in sorted(page.colours, key=float)] != list(SCALE):
            raise Violation(f"colour scale of the page {page.colours}")
        if not case.get("odd"):
            web.check_fields(ctx, page, sub)

    def explore(self, ex, tier):
        web.setup()
        deep = tier == "thorough"
        keys = list(GROUPS)
        base = {k: 0 for k in keys}
        seen, cases = set(), []
        for n in (0, 1, 2) + ((3,) if deep else ()):
            for ks in itertools.combinations(keys, n):
                for vals in itertools.product(*(range(1, len(GROUPS[k])) for k in ks)):
                    pick = dict(base, **dict(zip(ks, vals)))
                    # quick: of the pairs, each variant with every third of
                    # the other group's
                    if not deep and n == 2 and not dynamic(pick) and (vals[0] + vals[1]) % 2:
                        continue
                    t = tuple(pick.values())
                    if t not in seen:
                        seen.add(t)
                        cases.append(dict(pick=pick))
        ex.product(cases, "submissions differing in at most %d groups" % (3 if deep else 2))
        ex.product([dict(raw=q, must="refuse", before=i % 8 == 0) for i, q in enumerate(BAD)],
                   "unusable fields")
        ex.product([dict(raw=q, must="library refuses", before=i % 4 == 0) for i, q in enumerate(REFUSED)],
                   "values the library refuses")
        ex.product([dict(raw=q, odd=True) for q in ODD], "unusual values")


def dynamic(pick):
    """movable loads x dynamic analysis: always all"""
    return pick["loads"] in (5, 6) and pick["options"] >= 4


_default = []


def default():
    if not _default:
        a = web.Answer(web.form())
        _default.append(a)
    return _default[0]


CHECK = C18()
