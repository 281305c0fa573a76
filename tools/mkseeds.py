"""Build seeded/<id>/ from the definitions in tools/seeds_*.py

usage: mkseeds.py [name ...]     (existing ones are rebuilt only when named)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.dirname(os.path.abspath(__file__))

LIB = '''import os, sys
sys.path.insert(0, os.getcwd())
import pyslope.pyslope as PS
from pyslope import Slope, Material, Udl, LineLoad
assert os.path.realpath(PS.__file__).startswith(os.path.realpath(os.getcwd()))


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def base(**kw):
    s = Slope(**(kw or dict(height=3, angle=40)))
    s.set_materials(Material(20, 30, 3, 20))
    return s


def planes(s):
    return [(p["c_x"], p["c_y"], p["radius"], p["FOS"]) for p in s._search]

'''

WEB = '''import html, json, logging, os, re, sys, warnings
sys.path.insert(0, os.getcwd())
os.environ.update(SECRET_KEY="demo", DJANGO_SETTINGS_MODULE="engineering.settings",
                  DATABASE_URL="sqlite://:memory:")
os.environ.pop("DJANGO_DEBUG", None)
warnings.simplefilter("ignore")
import plotly.io
REPORTS = []


def to_image(fig, format=None, *a, **kw):
    REPORTS.append(json.loads(plotly.io.to_json(fig, validate=False)))
    return b"%PDF-1"


plotly.io.to_image = to_image
import django
django.setup()
logging.disable(logging.CRITICAL)
from django.conf import settings
settings.ALLOWED_HOSTS = ["*"]
from django.core.management import call_command
from django.test import Client
from django.test.utils import setup_test_environment
setup_test_environment()
call_command("migrate", verbosity=0)
from pyslope import Slope, Material, Udl, LineLoad

MAT = dict(unit_weight=20, friction_angle=30, cohesion=3, depth_to_bottom=20, name="", color="")


def form(materials=(MAT,), udls=(), lls=(), **kw):
    d = {
        "slope-height": 3, "slope-angle": 40, "slope-length": 4,
        "watertable-water_depth": 1,
        "limits-left_x": 0, "limits-right_x": 8, "limits-left_x_right": 4, "limits-right_x_left": 6,
        "options-analysis_choice": "normal", "options-slope_choice": "angle",
        "options-critical_FOS": "1.5", "options-max_display_FOS": "2.0",
        "options-iterations": 500, "options-slices": 10,
    }
    for prefix, rows in (("material", materials), ("udl", udls), ("lineload", lls)):
        d[prefix + "-TOTAL_FORMS"] = len(rows)
        d[prefix + "-INITIAL_FORMS"] = 0
        d[prefix + "-MIN_NUM_FORMS"] = 0
        d[prefix + "-MAX_NUM_FORMS"] = 1000
        for i, row in enumerate(rows):
            for k, v in row.items():
                if v is not None and v is not False:
                    d[f"{prefix}-{i}-{k}"] = v
    for k, v in kw.items():
        d[k.replace("__", "-")] = v
    return d


def foses(client):
    return [p["FOS"] for p in client.session["search"]]

'''


JS = '''import shutil, subprocess


def play(response, ops, what=("form", "rows", "buttons", "shown", "plot"), width=1400):
    """observations of the page after loading and after each operation"""
    page = response.content.decode()
    scripts = []
    for m in re.finditer(r"<script\\b([^>]*)>(.*?)</script>", page, re.S):
        src = re.search('src="([^"]*)', m.group(1))
        if src and not src.group(1).startswith("http"):
            name = src.group(1).split("/static/")[-1].replace("static/", "")
            scripts.append(dict(name=name, code=open("static/" + name.lstrip("/")).read()))
        elif not src and "json" not in m.group(1):
            scripts.append(dict(name="inline", code=m.group(2)))
    job = dict(key="1", html=page, url="http://testserver/", width=width, scripts=scripts,
               ops=ops, what=list(what), all=True)
    r = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "dom.js")],
                       input=json.dumps(job) + "\\n", capture_output=True, text=True, timeout=60)
    out = json.loads(r.stdout)
    assert not out.get("error"), out["error"]
    return out["steps"]


ADD = lambda k: ["click", {"id": f"add-{k}-form"}]
DEL = lambda k, i: ["click", {"row": k, "i": i, "k": "X"}]
TYPE = lambda k, i, c, v: ["set", {"row": k, "i": i, "k": c}, v]
SET = lambda n, v: ["set", {"name": n}, v]

'''


def build(name, d):
    S = os.path.join(V, "seeded", name)
    os.makedirs(S, exist_ok=True)
    with tempfile.TemporaryDirectory() as W:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {W}", shell=True)
        subprocess.check_call(f"cd {W} && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True)
        for path, old, new, *n in d["edits"]:
            p = os.path.join(W, path)
            t = open(p, encoding="utf8", newline="").read()
            want = n[0] if n else 1
            if t.count(old) != want:
                raise SystemExit(f"{name}: {t.count(old)} occurrences of {old!r} (want {want})")
            t = t.replace(old, new)
            open(p, "w", encoding="utf8", newline="").write(t)
        patch = subprocess.check_output(["git", "-C", W, "diff"])
    open(os.path.join(S, "patch.diff"), "wb").write(patch)
    demo = (WEB + (JS if d["web"] == "js" else "") if d.get("web") else LIB) + d["demo"].strip() + "\n"
    open(os.path.join(S, "demo.py"), "w").write(demo)
    if d.get("web") == "js":
        shutil.copy(os.path.join(V, "mc", "dom.js"), S)
    open(os.path.join(S, "demo.sh"), "w").write(
        '#!/bin/bash\nexport TQDM_DISABLE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(S, "meta.json"), "w"), indent=1)
    print("built", name)


names = sys.argv[1:]
for f in sorted(os.listdir(T)):
    if f.startswith("seeds_"):
        for name, d in runpy.run_path(os.path.join(T, f))["SEEDS"].items():
            if name in names or (not names and not os.path.exists(os.path.join(V, "seeded", name))):
                build(name, d)
