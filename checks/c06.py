import itertools

from mc import engine
from mc.engine import Violation, digest
from mc.figs import canonical, check_section
from mc.impl import Slope, dump, module_state, planes_of
from mc.fresh import same_planes
from mc.ref import Model
from mc.world import World, compare_fos

TIGHT = ("O", {"tolerance": 1e-11, "max_iterations": 400})
SMALL = ("O", {"iterations": 500, "slices": 10})
PL = (("PF", 0.07, 0.06, 0.18), ("PF", 0.31, 0.21, 0.22), ("PF", 0.11, -0.83, 0.15))
# a program is a list of steps, a step a list of calls on its own slope
PROGRAMS = {
    "base": [
        [("NEW", dict(height=1.5, angle=50)), TIGHT],
        [("M+", "A", "B")], [("U+", "U"), ("L+", "L")], list(PL), [("A",)],
    ],
    "big": [
        [("NEW", dict(height=2, angle=None, length=3)), TIGHT],
        [("M+", "C", "A")], [("U+", "X", "U"), ("L+", "L", "K")], [*PL, ("A",)], [("PB",)],
    ],
    "water": [
        [("NEW", dict(height=1, angle=60)), TIGHT, *PL],
        [("M+", "A"), ("W", 0.5)], [("WO", False, 0.3)], [("A",)],
        [("B", 2.5, 35, None), ("A",)],
    ],
    "search": [
        [("NEW", dict(height=1.2, angle=45)), SMALL, ("M+", "B", "A")],
        [("L+", "L")], [("A",)], [("L-", "L"), ("U+", "V")], [("A", 2.5)],
    ],
    "options": [
        [("NEW", dict(height=1.2, angle=45)), ("O", {"slices": 33, "iterations": 600})],
        [("XF", {"left_x": 0.4, "right_x": 0.8}), ("M+", "E", "B")],
        [("A",)], [("O", {"slices": 12, "min_failure_dist": 2}), ("A",)],
    ],
    "removal": [
        [("NEW", dict(height=1.5, angle=70)), TIGHT, *PL, ("M+", "A", "B", "F")],
        [("U+", "U", "V"), ("L+", "L", "I")], [("M-", "A"), ("U-", "U")],
        [("A",)], [("L0",), ("A",)],
    ],
    "default": [
        [("NEW", {})], [("M+", "A")], [("PF", 0.3, 0.2, 0.2)], [("A",)],
    ],
    "dynamic": [
        [("NEW", dict(height=1.5, angle=50)), TIGHT, *PL],
        [("M+", "A", "B"), ("U+", "Y"), ("L+", "L")], [("D", 1.5)], [("A",), ("PB",)],
    ],
}
# slopes that differ in one detail only, with the same (absolute) circles:
# nothing found out about one may be used for the other
CIRCLES = (("P", 6, 8, 4), ("P", 5.4, 7.1, 2.2), ("P", 7.2, 8.5, 4.2), ("P", 5.31, 6.42, 1.43))
TWIN = dict(face=(1, None, 2), ext=(12, 7), mats=("A", "B"), udls=("U",), lls=("L",), water=0.6,
            wo=(True, 1), opts={"slices": 20})
TWINS = [
    {}, {"face": (1, None, 1.7)}, {"face": (1.2, None, 2)}, {"face": (0.98, None, 1.96)},
    {"ext": (12.2, 7)}, {"ext": (12, 7.1)},
    {"mats": ("A2", "B")}, {"mats": ("A", "B1")}, {"mats": ("A",)}, {"mats": ("F", "A")},
    {"udls": ("U1",)}, {"udls": ("U3",)}, {"udls": ()}, {"udls": ("U", "U")}, {"udls": ("U4",)},
    {"lls": ("L1",)}, {"lls": ("L2",)}, {"lls": ()}, {"lls": ("L", "L")},
    {"water": 0.7}, {"water": None}, {"wo": (False, 1)}, {"wo": (False, 0.5)},
    {"opts": {"slices": 21}}, {"opts": {"slices": 20, "min_failure_dist": 1.2}},
    {"limits": {"left_x": 0.3}}, {"limits": {"left_x_right": 0.9, "right_x_left": 0.1}},
]


def twin(k):
    """as a program of four steps: model, user planes, analysis of them and a
    search, and once more"""
    d = {**TWIN, **TWINS[k]}
    build = [("NEW", dict(zip(("height", "angle", "length"), d["face"]))), ("E", *d["ext"]),
             ("O", {"tolerance": 1e-11, "max_iterations": 400, "iterations": 500}), ("O", d["opts"]),
             ("M+", *d["mats"]), ("WO", *d["wo"])]
    if d["udls"]:
        build.append(("U+", *d["udls"]))
    if d["lls"]:
        build.append(("L+", *d["lls"]))
    if d["water"] is not None:
        build.append(("W", d["water"]))
    if "limits" in d:
        build.append(("XF", d["limits"]))
    return [build, [*CIRCLES, ("A",)], [("P0",), ("A",), ("PB",)], [*CIRCLES, ("A",)]]


for _k in range(len(TWINS)):
    PROGRAMS[f"twin{_k}"] = twin(_k)
# programs that look at their section after every step, with objects of their
# own (nothing shared at all: everything drawn must be as it is alone)
LOOK = {
    "look1": [[("NEW", {}), ("M+", "A", "B")], [("U+", "U", "V"), ("L+", "L")], [("W", 0.5)],
              [("U-", "V"), ("M+", "F", "E")]],
    "look2": [[("NEW", dict(height=2, angle=50)), ("M+", "A")], [("M+", "E", "F", "A1", "H")],
              [("U+", "X"), ("L+", "K", "I")], [("M-", "A1"), ("L-", "K"), ("M+", "B")]],
    "look3": [[("NEW", dict(height=1.5, angle=None, length=2)), ("U+", "U1")], [("M+", "G", "A2", "A3", "G1")],
              [("M0",), ("M+", "A", "B")], [("L+", "L1"), ("U0",), ("M+", "E")]],
}
for _p, _st in LOOK.items():
    PROGRAMS[_p] = [st + [("PB",)] for st in _st]
OWN = list(LOOK)
TRIPLES = [("base", "big", "water"), ("search", "default", "removal"),
           ("options", "base", "default")]
SOLO = {}


def compress(steps, n):
    """merge steps so that the program has n of them"""
    out = [list(s) for s in steps]
    while len(out) > n:
        out[-2:] = [out[-2] + out[-1]]
    return out


class Runner:
    def __init__(self, n, own=False):
        self.w = World()
        self.w.slopes, self.w.models = [None] * n, [None] * n
        # own: every program has material and load objects of its own
        self.objects = [{} for _ in range(n)] if own else [self.w.names] * n
        self.own = own
        self.n = n
        self.log = [[] for _ in range(n)]

    def call(self, ctx, i, op):
        w = self.w
        w.names = self.objects[i]
        if op[0] == "NEW":
            w.slopes[i], w.models[i] = Slope(**op[1]), Model(**op[1])
            return
        others = [
            (j, planes_of(w.slopes[j])) for j in range(self.n)
            if j != i and w.slopes[j] is not None
        ]
        s, m = w.slopes[i], w.models[i]
        if op[0] == "PB":
            fig = s.plot_boundary()
            check_section(ctx, fig, m)
            if self.own:
                self.log[i].append(("PB", canonical(fig)))
        elif op[0] == "D":
            s.analyse_dynamic(op[1])
            for a, b in w.names.values():
                if getattr(b, "dyn", False):
                    b.offset = a.offset
            self.log[i].append(("D", sorted(s.get_dynamic_results().items())))
        else:
            w.do(op, i)
        if op[0] == "A":
            ps = planes_of(s)
            self.log[i].append(("A", ps))
            if m.planes and m.tol < 1e-9:
                got = {p[:3]: p for p in ps}
                for c in m.planes:
                    compare_fos(ctx, m, c, got.get(c))
        ctx.step()
        for j, before in others:
            if planes_of(w.slopes[j]) != before:
                raise Violation(f"{op} on slope {i} changed the results of slope {j}")


class C06:
    ID = "C06"
    EXPLAIN = (
        "all interleavings of the calls of two (and three) programs, each "
        "working on its own slope but sharing material and load objects; "
        "every analysis is compared with the same program run alone in a "
        "pristine process and with the reference model, and no call may "
        "change the results of another slope"
    )
    ASSUMES = [
        "a dynamic analysis moves the movable load objects it is given "
        "(documented), so those are not shared between the programs",
        "colours chosen automatically for materials that the programs share are not compared",
    ]

    def run(self, case, ctx):
        progs = [compress(PROGRAMS[p], n) for p, n in case["progs"]]
        r = Runner(len(progs), bool(case.get("own")))
        pos = [0] * len(progs)
        for i in case["order"]:
            for op in progs[i][pos[i]]:
                r.call(ctx, i, op)
            pos[i] += 1
        key = digest((dump(*r.w.slopes), module_state()))
        ctx.state(key)
        if len(progs) == 1:
            return r.log[0]
        for i, (p, _) in enumerate(case["progs"]):
            solo = SOLO.get((p, bool(case.get("own"))))
            if solo is None:
                continue
            mine = r.log[i]
            if len(mine) != len(solo):
                raise Violation(f"program {p} made {len(mine)} analyses, alone {len(solo)}")
            for k, (a, b) in enumerate(zip(mine, solo)):
                ctx.validated += 1
                if a[0] == "PB":
                    d = None if a == b else f"{[v for v in a[1] if v not in b[1]][:1]}"[:500]
                elif a[0] == "A":
                    d = same_planes(a[1], b[1], rel=1e-9)
                else:
                    d = None if a == b or (len(a[1]) == len(b[1]) and all(
                        abs(x - y) < 1e-9 for u, v in zip(a[1], b[1])
                        for x, y in zip(u, v))) else f"{a} instead of {b}"
                if d:
                    raise Violation(
                        f"slope of program {p}: analysis {k} gives {d} when "
                        f"interleaved with {[q for q, _ in case['progs']]}")
        # nothing left behind: each slope still means its content
        for i in range(len(progs)):
            r.w.probe(ctx, i)
        ctx.outcome("programs", "+".join(p for p, _ in case["progs"]))
        return key

    def solo(self, names):
        import time

        for p, own in [(p, False) for p in names] + [(p, True) for p in OWN]:
            case = dict(progs=[[p, 9]], order=[0] * len(PROGRAMS[p]), own=own)
            r = engine.run_chunks(self, [[(0, case)]], time.time() + 300, 120, True)[0]
            if r["values"]:
                SOLO[p, own] = r["values"][0][1]

    def explore(self, ex, tier):
        deep = tier == "thorough"
        self.solo(PROGRAMS)
        cases = []
        names = [p for p in PROGRAMS if not p.startswith(("twin", "look"))]
        pairs = list(itertools.combinations_with_replacement(names, 2))
        n = 9 if deep else 4
        for p, q in pairs:
            a, b = (len(compress(PROGRAMS[x], n)) for x in (p, q))
            if not deep and {"dynamic", "search", "options"} & {p, q}:
                a = min(a, 3)
                b = min(b, 3)
            if p == q == "dynamic":
                continue
            for pos in itertools.combinations(range(a + b), a):
                cases.append(dict(
                    progs=[[p, a], [q, b]],
                    order=[0 if k in pos else 1 for k in range(a + b)]))
        ex.product(cases, "two programs, all interleavings")
        cases = []
        for k in range(1, len(TWINS)):
            for pos in itertools.combinations(range(8), 4) if deep else (
                    (0, 1, 2, 3), (4, 5, 6, 7), (0, 2, 4, 6), (0, 1, 4, 5)):
                cases.append(dict(
                    progs=[["twin0", 4], [f"twin{k}", 4]],
                    order=[0 if j in pos else 1 for j in range(8)]))
        ex.product(cases, "slopes that differ in one detail")
        cases = []
        for p, q in itertools.combinations_with_replacement(OWN, 2):
            for pos in itertools.combinations(range(8), 4):
                if deep or p != q or pos[0] == 0:
                    cases.append(dict(progs=[[p, 4], [q, 4]], own=True,
                                      order=[0 if j in pos else 1 for j in range(8)]))
        ex.product(cases, "figures of slopes that share nothing, all interleavings")
        cases = []
        for tr in TRIPLES:
            n = 3 if deep else 2
            sizes = [len(compress(PROGRAMS[p], n)) for p in tr]
            base = sum(([i] * k for i, k in enumerate(sizes)), [])
            for order in sorted(set(itertools.permutations(base))):
                cases.append(dict(progs=[[p, k] for p, k in zip(tr, sizes)],
                                  order=list(order)))
        ex.product(cases, "three programs, all interleavings")


CHECK = C06()
