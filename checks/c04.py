from mc.engine import Violation, digest
from mc.impl import dump, planes_of
from mc.observe import visible
from mc.world import World

from checks.c02 import BASE, MORE, OPS, RICH

NAN_LIKE = ["7", None, [1], (2,), {"a": 1}]
BAD = [
    # boundary: one wrong argument with right ones around it
    ("B", 0, 45, None), ("B", -1, 45, None), ("B", 0, None, 2), ("B", "2", 45, None),
    ("B", 2, 0, None), ("B", 2, -5, None), ("B", 2, 90.001, None), ("B", 2, 91, 3),
    ("B", 2, 0, 3), ("B", 2, "45", None), ("B", 2, "45", 3), ("B", 2, None, -1),
    ("B", 2, 45, -1), ("B", 2, 45, "3"), ("B", 2, None, None), ("B", [2], 45, None),
    ("B", 3, 45, [1]), ("B", -0.001, None, 1),
    # section size: a valid first or second value must not stick
    ("E", 30, -1), ("E", -1, 30), ("E", 30, "9"), ("E", "30", 9), ("E", -3, None),
    ("E", None, -3), ("E", [30], 9), ("E", 30, [9]), ("E", "x", None), ("E", None, "x"),
    # materials
    ("M+", "B", "D"), ("M+", "D", "B"), ("M+", "E", "D"), ("M+", "D", "E"),
    ("M+", "C", "B", "D"), ("M+", "C", "D"), ("M+", "A"), ("M+", "B"), ("M+", "D"),
    ("M+", "E", "A"), ("M+", "E", "E"), ("M+", "F", "C", "F"), ("M+", "C", "C"),
    ("M+?", "E", "not a material"), ("M+?", 5, "E"), ("M+?", "E", None, "F"),
    ("M+?", "C", 3.0), ("M+?", "not a material"), ("M+?", "F", "E", "A", "x"),
    # water
    ("W", -0.1), ("W", -5), ("W", "1"), ("W", [1]),
    ("WO", False, "0.5"), ("WO", False, None), ("WO", False, [1]),
    # limits: out of order, wrong type, in each position and combination
    ("X", {"left_x": -1}), ("X", {"left_x": "1"}), ("X", {"right_x": 0}),
    ("X", {"right_x": -2}), ("X", {"right_x": "9"}), ("X", {"left_x_right": 0}),
    ("X", {"left_x_right": "2"}), ("X", {"right_x_left": -1}),
    ("X", {"right_x_left": "2"}), ("X", {"right_x_left": 0}),
    ("X", {"left_x": 1, "right_x": 0}), ("X", {"left_x": 1, "right_x": "9"}),
    ("X", {"left_x": 1, "left_x_right": "2"}),
    ("X", {"left_x": 1, "right_x_left": "2"}),
    ("X", {"left_x": 1, "right_x": 8, "left_x_right": 2, "right_x_left": [1]}),
    ("X", {"left_x": 500}), ("X", {"left_x": 500, "right_x": 600}),
    ("X", {"right_x": 0.1}), ("X", {"right_x_left": 900}),
    ("X", {"left_x": 2, "left_x_right": 2}), ("X", {"left_x": 2, "left_x_right": 1}),
    ("X", {"left_x": 0.5, "left_x_right": 0.1}),
    ("X", {"right_x_left": 9, "right_x": 8.5}),
    ("X", {"left_x": 0.5, "right_x": 9, "right_x_left": 9}),
    ("X", {"left_x": 0.5, "left_x_right": 1, "right_x": 7, "right_x_left": 700}),
    ("XF", {"left_x": 0.2, "right_x": 0}), ("XF", {"left_x": 0.3, "right_x_left": 1.2}),
    ("XF", {"left_x": 1, "right_x": 0.9}), ("XF", {"left_x_right": 0.4, "left_x": 0.4}),
    ("XF", {"right_x": 0.5, "right_x_left": 0.5}),
    ("XF", {"right_x": 0.5, "right_x_left": 0.7}),
]

TAILS = [
    (), (("A",),), (("A", 1.5),),
    (("PF", 0.07, 0.06, 0.18), ("PF", 0.11, -0.83, 0.15)),
    (("PF", 0.07, 0.06, 0.18), ("PF", 0.11, -0.83, 0.15), ("A",)),
    (("XF", {"left_x": 0.2, "right_x": 0.9, "right_x_left": 0.2, "left_x_right": 0.8}),),
]
NEXT = [
    ("B", 1.3, 65, None), ("B", 2, None, 5), ("E", 9, 4), ("E", 33, None), ("M+", "E"), ("M0",),
    ("M@", 1.5), ("U+", "U"), ("U0",), ("L+", "K"), ("L0",), ("W", 0.7), ("W0",), ("WO", True),
    ("WO", False, 0.35), ("O", {"slices": 12}), ("X0",), ("XF", {"left_x": 0.1}),
]
SMALL = ("O", {"iterations": 500, "slices": 10})


class C04:
    ID = "C04"
    EXPLAIN = (
        "in every state reached by the explored histories (with and without "
        "results, limits and user planes) every call of a catalogue of "
        "invalid calls is made on the real slope; the reference decides "
        "whether it has to be rejected, and everything reachable from the "
        "slope and the objects passed must be unchanged (when the object "
        "graph differs, all public observations and probe analyses decide)"
    )
    ASSUMES = ["rejection is signalled by ValueError (the library's documented signal)"]

    def run(self, case, ctx):
        w = World()
        for op in case["ops"]:
            w.do(tuple(op))
            ctx.step()
        s = w.slopes[0]
        key = digest(w.key())
        ctx.state(key)
        for name in "ABCDEFZ":
            w.obj(name)
        objs = [p[0] for p in w.names.values()]
        suspicious = False
        for op in BAD:
            if not w.would_reject(op):
                continue
            before = dump(s, *objs)
            vis = None
            w.do(op)  # raises Violation when it is accepted
            ctx.step()
            ctx.validated += 1
            ctx.outcome("rejected", op[0])
            if dump(s, *objs) == before:
                continue
            # compare what can be seen with an undisturbed twin
            suspicious = True
            t = World()
            for o in case["ops"]:
                t.do(tuple(o))
            for name in "ABCDEFZ":
                t.obj(name)
            vis = visible(t.slopes[0])
            now = visible(s)
            if vis != now:
                what = [i for i, (a, b) in enumerate(zip(vis, now)) if a != b]
                raise Violation(
                    f"rejected call {op} changed the slope (observations {what})"
                )
            t.do(op)
            t.check_geometry(ctx)
            t.probe(ctx)
            self.search(t, op)
            if not case.get("probe"):
                continue
            # and what is done next has the usual effect
            for nxt in NEXT:
                t = World()
                for o in case["ops"]:
                    t.do(tuple(o))
                t.do(op)
                t.do(nxt)
                ctx.step()
                t.check_geometry(ctx)
                t.probe(ctx)
        if suspicious or case.get("probe"):
            w.check_geometry(ctx)
            w.probe(ctx)
        return key

    @staticmethod
    def search(t, op):
        """the search after a rejected call is the one of a new slope"""
        from mc.fresh import fresh, same_planes

        s, m = t.slopes[0], t.models[0]
        s.remove_individual_planes()
        m.remove_individual_planes()
        s.update_analysis_options(
            tolerance=m.tol, max_iterations=m.max_iter)
        s.analyse_slope()
        f = fresh(m)
        f.analyse_slope()
        d = same_planes(planes_of(s), planes_of(f))
        if d:
            raise Violation(f"rejected call {op} changed the search: {d}")

    def explore(self, ex, tier):
        deep = tier == "thorough"
        roots = []
        for b in ((SMALL,), BASE + (SMALL,), RICH + (SMALL,)):
            for t in TAILS:
                if b == (SMALL,) and t and t[0][0] == "A":
                    continue
                roots.append(b + t)
        ops = OPS + MORE[:-2]
        ex.bfs(ops, 2 if deep else 1, "all roots x operations",
               roots=roots, make=lambda h: {"ops": list(h), "probe": True})
        ex.bfs(ops, 3 if deep else 2, "from fully loaded slope", roots=[RICH],
               make=lambda h: {"ops": list(h)})


CHECK = C04()
