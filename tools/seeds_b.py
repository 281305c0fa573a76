P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"
V = "slope/views.py"
F = "slope/forms.py"
A = "static/slope/add_rows.js"
C = "static/slope/charting.js"
H = "static/slope/hide_form.js"
B = "static/slope/button_control.js"
T = "slope/templates/slope/index.html"
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks, web=False):
    SEEDS[name] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, web=web)


# ------------------------------------------------------------- front end
seed("c23-only-own-kind", "C23",
     [(A, """        // distributed loads
        count = 0;""", """        // distributed loads
        if (!event.target.classList.contains("delete-Udls-form") || udlForm.length < 3) return;
        count = 0;""")],
     """
c = Client()
r = c.post("/", form(udls=[dict(magnitude=5 + i, offset=0.1, length=1, color="red") for i in range(3)]))
o = play(r, [DEL("Udls", 0)])[-1]
names = [n for n, v in o["form"] if n.endswith("magnitude") and n.startswith("udl")]
assert names == ["udl-0-magnitude", "udl-1-magnitude"], names
""", "deleting a distributed load when two are left", "the rows keep their old numbers, the last one is not submitted", web="js")

seed("c23-count-of-page", "C23",
     [(A, "            if (lineLoadFormCount > 0) {", "            if (totalLineLoadForms.defaultValue > 0 && lineLoadForm.length > 0) {")],
     """
c = Client()
r = c.post("/", form(lls=[dict(magnitude=5, offset=0.1, color="red")]))
o = play(r, [DEL("LineLoads", 0)])[-1]
assert len(o["rows"]["LineLoads"]) == 1, o["rows"]
""", "deleting the only row", "the only row disappears, no row can be added any more", web="js")

seed("c23-inner-limits", "C23",
     [(H, """            for (let i = 4; i < 6; i++) {
                limits_form[i].style = `display:none`
            }

        }""", """
        }""")],
     """
c = Client()
r = c.post("/", form(limits__consider_limits="on", limits__consider_internal_limits="on"))
o = play(r, [SET("limits-consider_internal_limits", False)])[-1]
assert not o["shown"]["limits-left_x_right"], o["shown"]
""", "internal limits switched off while limits are considered", "the inputs of internal limits stay", web="js")

seed("c24-tenths", "C24",
     [(C, "Math.min(Math.round(search[i].FOS * 10) / 10, Number(MAX_COLOUR_FOS)).toString()",
       "Math.min(Math.round(search[i].FOS * 10) / 10, 4).toString()")],
     """
c = Client()
r = c.post("/", form(options__max_display_FOS="5"))
o = play(r, [])[-1]
from pyslope.pyslope import COLOUR_FOS_DICT
seen = 0
for t in o["plot"]:
    try:
        f = float(t["h"])
    except (TypeError, ValueError):
        continue
    if abs(f * 10 % 1 - 0.5) > 0.02:
        seen += f > 4.1
        assert t["c"] == COLOUR_FOS_DICT[min(round(f, 1), 5)], t["h"]
assert seen
""", "planes between 4 and 5", "they are drawn in the colour of 4", web="js")

seed("c24-grow-only", "C24",
     [(C, "        if (new_fos > stored_latest_fos) {", "        if (Number(new_fos) >= Number(stored_latest_fos)) {"),
      (C, "        stored_latest_fos = e;\n", "        stored_latest_fos = stored_latest_fos || e.currentTarget.value;\n")],
     """
c = Client()
r = c.post("/", form(options__max_display_FOS="2.0"))
n = lambda o: len(o["plot"])
a, b, d = play(r, [SET("options-max_display_FOS", "1.5"), SET("options-max_display_FOS", "3.5"),
                   SET("options-max_display_FOS", "2.5")])[1:]
want = n(play(r, [SET("options-max_display_FOS", "2.5")])[-1])
assert n(d) == want, (n(d), want)
""", "the display maximum changed three times: first down, then up, then to between", "planes above the maximum stay", web="js")

seed("c24-slice-order", "C24",
     [(C, "Plotly.addTraces(plot_all, traces.reverse());", "Plotly.addTraces(plot_all, max_display_fos > 3 ? traces : traces.reverse());")],
     """
c = Client()
r = c.post("/", form(options__max_display_FOS="4"))
o = play(r, [])[-1]
f = []
for t in o["plot"]:
    try:
        f.append(float(t["h"]))
    except (TypeError, ValueError):
        pass
assert f and f == sorted(f, reverse=True)
""", "a display maximum beyond 3", "the least critical planes are drawn on top", web="js")
