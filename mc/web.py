"""The web application of /repo, driven through Django's test client.

The library answers for a submission (`Answer`) are computed from what was
submitted with the public pyslope API and the reference model; they share no
code with /repo/slope.
"""
import json
import os
import warnings
from html.parser import HTMLParser
from math import hypot

from .engine import Violation
from .figs import (NS, check_critical, check_fos_legend, check_section,
                   check_table, scale_colours)
from .impl import LineLoad, Material, Slope, Udl, close, planes_of
from .ref import Model, Rejected, RLineLoad, RMaterial, RUdl

_ready = False
RENDERED = []  # figures handed to the image renderer


def setup():
    """start the application on a database in memory"""
    global _ready
    if _ready:
        return
    _ready = True
    os.environ.update(
        SECRET_KEY="verif", DJANGO_SETTINGS_MODULE="engineering.settings",
        DATABASE_URL="sqlite://:memory:")
    os.environ.pop("DJANGO_DEBUG", None)
    warnings.simplefilter("ignore")
    import plotly.io

    # a recording stand-in for the (slow, external) renderer
    def to_image(fig, format=None, *a, **kw):
        RENDERED.append((json.loads(plotly.io.to_json(fig, validate=False)),
                         format or "png"))
        return b"%PDF-" + str(len(RENDERED)).encode()

    plotly.io.to_image = to_image
    import logging

    import django

    django.setup()
    logging.disable(logging.CRITICAL)
    from django.conf import settings

    settings.ALLOWED_HOSTS = ["*"]
    from django.core.management import call_command
    from django.test.utils import setup_test_environment

    setup_test_environment()
    call_command("migrate", verbosity=0)
    # everything the first request would import
    Browser().client.get("/reset")


class Browser:
    def __init__(self):
        from django.test import Client

        self.client = Client(raise_request_exception=False)

    def get(self, url):
        return self.client.get(url)

    def post(self, data):
        return self.client.post("/", data)

    def session(self):
        """the stored session, straight from the session store"""
        from django.conf import settings
        from importlib import import_module

        c = self.client.cookies.get(settings.SESSION_COOKIE_NAME)
        if not c:
            return {}
        store = import_module(settings.SESSION_ENGINE).SessionStore(c.value)
        return json.loads(json.dumps(store.load()))


# -------------------------------------------------------------- submissions
def form(height=1, angle=45, length=1, by="angle", mats=((20, 35, 2, 5),), udls=(),
         lls=(), water=None, water_depth=None, limits=None, inner=None, analysis="normal",
         critical="2.0", display="2.0", iterations=500, slices=10, raw=None):
    """what a browser submits.  mats: (unit weight, friction angle, cohesion,
    depth[, name, colour]); udls: (magnitude, offset, length, movable[,
    colour]); lls: (magnitude, offset, movable[, colour]); a form always has
    at least one row of each kind"""
    udls = udls or ((0, 0, 0, False),)
    lls = lls or ((0, 0, False),)
    d = {
        "slope-height": height, "slope-angle": angle, "slope-length": length,
        "options-slope_choice": by, "options-analysis_choice": analysis,
        "options-critical_FOS": critical, "options-max_display_FOS": display,
        "options-iterations": iterations, "options-slices": slices,
        "watertable-water_depth": 1 if water is None else water,
        "limits-left_x": 0, "limits-right_x": 8,
        "limits-left_x_right": 4, "limits-right_x_left": 6,
    }
    if water is not None:
        d["watertable-consider_water"] = "on"
    if water_depth is not None:
        d["watertable-water_depth"] = water_depth
    if limits is not None:
        d["limits-consider_limits"] = "on"
        d["limits-left_x"], d["limits-right_x"] = limits
    if inner is not None:
        d["limits-left_x_right"], d["limits-right_x_left"] = inner
        d["limits-consider_internal_limits"] = "on"
    for p, rows in (("material", mats), ("udl", udls), ("lineload", lls)):
        d[f"{p}-TOTAL_FORMS"] = len(rows)
        d[f"{p}-INITIAL_FORMS"] = 0
        d[f"{p}-MIN_NUM_FORMS"] = 0
        d[f"{p}-MAX_NUM_FORMS"] = 1000
    for i, r in enumerate(mats):
        r = tuple(r) + ("", "")[len(r) - 4:] if len(r) < 6 else r
        for k, v in zip(("unit_weight", "friction_angle", "cohesion",
                         "depth_to_bottom", "name", "color"), r):
            d[f"material-{i}-{k}"] = v
    for i, r in enumerate(udls):
        mag, off, ln, dyn = r[:4]
        d[f"udl-{i}-magnitude"], d[f"udl-{i}-offset"], d[f"udl-{i}-length"] = mag, off, ln
        d[f"udl-{i}-color"] = r[4] if len(r) > 4 else "red"
        if dyn:
            d[f"udl-{i}-dynamic_offset"] = "on"
    for i, r in enumerate(lls):
        mag, off, dyn = r[:3]
        d[f"lineload-{i}-magnitude"], d[f"lineload-{i}-offset"] = mag, off
        d[f"lineload-{i}-color"] = r[3] if len(r) > 3 else "blue"
        if dyn:
            d[f"lineload-{i}-dynamic_offset"] = "on"
    d = {k: str(v) for k, v in d.items()}
    for k, v in (raw or {}).items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return d


class Answer:
    """the library's answer for a submission: planes (None when there is
    none) and the reference model of the section"""

    def __init__(self, d):
        f = lambda k: float(d[k])  # noqa: E731
        self.planes = None
        try:
            h = f("slope-height")
            if d["options-slope_choice"] == "length":
                a = (h,), dict(length=f("slope-length"))
            else:
                a = (h,), dict(angle=f("slope-angle"), length=None)
            s, m = Slope(*a[0], **a[1]), Model(*a[0], **a[1])
            kw = dict(slices=int(d["options-slices"]), iterations=int(d["options-iterations"]))
            s.update_analysis_options(**kw)
            m.update_analysis_options(**kw)
            n = lambda p: range(int(d[f"{p}-TOTAL_FORMS"]))  # noqa: E731
            for i in n("material"):
                q = [f(f"material-{i}-{k}") for k in
                     ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom")]
                q += [d[f"material-{i}-name"].strip(), d[f"material-{i}-color"].strip()]
                s.set_materials(Material(*q))
                if q[5] == "no such colour":
                    q[5] = ""
                m.set_materials(RMaterial(*q))
            dyn = []
            for i in n("lineload"):
                q = [f(f"lineload-{i}-magnitude"), f(f"lineload-{i}-offset"),
                     d[f"lineload-{i}-color"].strip() or "blue",
                     f"lineload-{i}-dynamic_offset" in d]
                p = LineLoad(*q), RLineLoad(*q)
                s.set_lls(p[0]), m.set_lls(p[1])
                dyn.append(p)
            for i in n("udl"):
                q = [f(f"udl-{i}-magnitude"), f(f"udl-{i}-offset"), f(f"udl-{i}-length"),
                     d[f"udl-{i}-color"].strip() or "red",
                     f"udl-{i}-dynamic_offset" in d]
                p = Udl(*q), RUdl(*q)
                s.set_udls(p[0]), m.set_udls(p[1])
                dyn.append(p)
            if "watertable-consider_water" in d:
                s.set_water_table(f("watertable-water_depth"))
                m.set_water_table(f("watertable-water_depth"))
            if "limits-consider_limits" in d:
                kw = dict(left_x=f("limits-left_x"), right_x=f("limits-right_x"))
                if "limits-consider_internal_limits" in d:
                    kw.update(left_x_right=f("limits-left_x_right"),
                              right_x_left=f("limits-right_x_left"))
                s.set_analysis_limits(**kw)
                m.set_analysis_limits(**kw)
            self.kind = "normal"
            if d["options-analysis_choice"] == "dynamic":
                self.kind = "dynamic"
                try:
                    s.analyse_dynamic(f("options-critical_FOS"))
                except Exception:
                    self.kind = "dynamic fails"
                    s.analyse_slope(max_fos=5)
            else:
                s.analyse_slope(max_fos=5)
            if not s._search:
                self.kind += ", all above 5"
                s.analyse_slope()
            for a, b in dyn:
                b.offset = a.offset
        except (ValueError, Rejected) as e:
            self.kind = f"rejected {e}"[:40]
            return
        self.model = m
        self.planes = planes_of(s) or None


# -------------------------------------------------------------------- pages
class _Page(HTMLParser):
    def __init__(self):
        super().__init__()
        self.scripts, self.fields = {}, {}
        self.sid = self.select = self.area = None
        self.first = None

    def handle_starttag(self, tag, attrs):
        a = dict(reversed(attrs))  # browsers use the first of equal attributes
        if tag == "script" and a.get("type") == "application/json":
            self.sid = a.get("id")
            self.scripts[self.sid] = ""
        elif tag == "input" and a.get("name"):
            t = a.get("type")
            if t == "checkbox":
                self.fields[a["name"]] = "on" if "checked" in a else None
            elif t == "radio":
                if "checked" in a:
                    self.fields[a["name"]] = a.get("value")
            else:
                self.fields[a["name"]] = a.get("value") or ""
        elif tag == "select":
            self.select = a.get("name")
        elif tag == "option" and self.select:
            if "selected" in a or self.select not in self.fields:
                self.fields[self.select] = a.get("value")
        elif tag == "textarea":
            self.area = a.get("name")
            self.fields[self.area] = ""

    def handle_endtag(self, tag):
        if tag == "script":
            self.sid = None
        elif tag == "select":
            self.select = None
        elif tag == "textarea":
            self.area = None

    def handle_data(self, data):
        if self.sid:
            self.scripts[self.sid] += data
        if self.area:
            self.fields[self.area] += data


class Page:
    """the main page as the browser gets it"""

    def __init__(self, response):
        if response.status_code != 200:
            raise Violation(f"page answered with {response.status_code}"
                            f" {response.headers.get('Location', '')}")
        p = _Page()
        p.feed(response.content.decode())
        self.fields = {k: v for k, v in p.fields.items()
                       if v is not None and k != "csrfmiddlewaretoken"}
        self.search = json.loads(p.scripts["search"])
        plot = json.loads(p.scripts["plot_json"])
        self.plot = json.loads(plot) if isinstance(plot, str) else plot
        self.colours = json.loads(p.scripts["COLOUR_FOS_DICT"])

    @property
    def planes(self):
        return as_planes(self.search)


def as_planes(search):
    return [(p["c_x"], p["c_y"], p["radius"], p["FOS"], tuple(p["l_c"]), tuple(p["r_c"]))
            for p in search]


def same(got, want):
    """None when equal up to rounding"""
    if len(got) != len(want):
        return f"{len(got)} planes, expected {len(want)}"
    for i, (p, q) in enumerate(zip(got, want)):
        a = p[:4] + p[4] + p[5]
        b = q[:4] + q[4] + q[5]
        if not all(close(x, y, rel=1e-9) for x, y in zip(a, b)):
            return f"plane {i} is {p}, expected {q}"
    return None


def check_page(ctx, page, ans, deep=True):
    """the page shows the library's answer"""
    d = same(page.planes, ans.planes)
    ctx.validated += 1
    if d:
        raise Violation("planes of the page: " + d)
    for s, p in zip(page.search, ans.planes):
        xs, ys = s["x"], s["y"]
        if len(xs) != len(ys) or len(xs) < 2:
            raise Violation(f"curve of plane {p}: {xs} {ys}")
        if (xs[0], ys[0]) != tuple(s["l_c"]) or (xs[-1], ys[-1]) != tuple(s["r_c"]):
            raise Violation(f"curve of plane {p} runs from {xs[0], ys[0]} to {xs[-1], ys[-1]}")
        for x, y in zip(xs, ys):
            if abs(hypot(x - p[0], y - p[1]) - p[2]) > 1.1e-3 + 1e-6 * p[2]:
                raise Violation(f"point {x, y} off the circle of {p}")
        if xs != sorted(xs):
            raise Violation(f"curve of plane {p} is not drawn left to right: {xs}")
        gap = max(b - a for a, b in zip(xs, xs[1:])) if len(xs) > 2 else 0
        if len(xs) > 2 and gap > 0.2 * p[2] + 1e-6:
            raise Violation(f"gap of {gap} in the curve of {p}")
        if len(xs) == 2 and xs[1] - xs[0] > 0.2 * p[2]:
            raise Violation(f"curve of plane {p} has no points")
    if deep:
        fig = NS(page.plot)
        check_section(ctx, fig, ans.model)
        check_critical(ctx, fig, ans.planes)


def check_fields(ctx, page, sub):
    """the form shows what was submitted"""
    ctx.validated += 1
    for k, v in sub.items():
        if k.endswith(("INITIAL_FORMS", "MIN_NUM_FORMS", "MAX_NUM_FORMS")):
            continue
        if page.fields.get(k) != v:
            raise Violation(f"form shows {k} = {page.fields.get(k)}, submitted was {v}")
    for k, v in page.fields.items():
        if k not in sub and v:
            raise Violation(f"form shows {k} = {v}, which was not submitted")
