from mc.engine import digest
from mc.world import PROBES, World

OPS = [
    ("B", 2, None, 3), ("B", 1, 60, None), ("B", 0.8, None, 4.2),
    ("E", 14, None), ("E", None, 9),
    ("M+", "A"), ("M+", "B"), ("M+", "C"), ("M+", "F", "E"), ("M-", "A"),
    ("M@", 3), ("M0",),
    ("U+", "U"), ("U+", "V"), ("U+", "X"), ("U-", "U"), ("U0",),
    ("L+", "L"), ("L+", "K", "I"), ("L-", "L"), ("L0",),
    ("W", 0.5), ("W", 2.1), ("W0",),
    ("WO", True), ("WO", False, 0.4),
    ("O", {"slices": 14}), ("O", {"min_failure_dist": 0.3}),
    ("XF", {"left_x": 0.2, "right_x": 0.9}),
]
BASE = (("M+", "B", "A"),)
RICH = (
    ("M+", "B", "A"), ("W", 0.5), ("U+", "U"), ("L+", "L"),
    ("WO", False, 0.4), ("O", {"slices": 14}),
)
# things that differ in one small detail
NEAR = [
    ("M+", "A"), ("M+", "A1"), ("M+", "A2"), ("M+", "A3"), ("M+", "B1"), ("M+", "B"),
    ("M+", "A1", "A2"), ("M-", "A"), ("M-", "A2"), ("M@", 1.53), ("M=", "B1"),
    ("U+", "U"), ("U+", "U1"), ("U+", "U2"), ("U+", "U3", "U"), ("U+", "U4"), ("U-", "U"),
    ("L+", "L"), ("L+", "L1"), ("L+", "L2"), ("L-", "L"), ("W", 1.5), ("W", 1.503),
    ("E", None, 6.2), ("E", 10.3, None), ("B", 1, 30.2, None), ("B", 1.004, 30, None),
]
MORE = [
    ("B", 1.2, 90, None), ("B", 3, None, 2), ("E", 25, 11), ("M+", "D"),
    ("M+", "Z"), ("M=", "C"), ("M@", 9), ("U+", "T", "N"), ("U+", "U", "V"),
    ("U=", "U"), ("L+", "O", "L"), ("L=", "K"), ("W", 0), ("W", None),
    ("WO", False, 7), ("WO", False, -1), ("O", {"slices": 3}),
    ("P", 6, 9, 4), ("P0",), ("A", 2), ("PB",),
]

# levels far below the crest: the circles of these states reach them
DEEP = [
    ("W", 0.5), ("W", 4), ("W", 6.3), ("W", 8.6), ("W0",), ("WO", True), ("WO", False, 7.5),
    ("WO", False, 0.4), ("E", None, 9), ("E", None, 12), ("E", None, 7), ("B", 4, 50, None),
    ("B", 2, 50, None), ("M+", "C"), ("M+", "A"), ("M-", "C"), ("M0",),
]
DEEPROOT = (("E", 30, None), ("M+", "B", "F"))
DEEPPROBES = ((0.9, 0.8, 0.45), (0.6, 0.5, 0.5), (0.31, 0.21, 0.22), (0.8, -0.9, 0.5))
SAME = [
    ("L+", "L", "L"), ("L+", "L"), ("L-", "L"), ("U+", "U", "U"), ("U+", "U"), ("U-", "U"),
    ("L+", "J"), ("L-", "J"), ("U+", "Y"), ("U-", "Y"), ("L0",), ("U0",), ("M0",), ("M+", "A"),
    ("U+", "X", "X"), ("L+", "K", "K"),
]

PROBE_SETS = {"": PROBES, "deep": DEEPPROBES}


class C02:
    ID = "C02"
    EXPLAIN = (
        "breadth-first search over sequences of model-building calls on the "
        "real Slope (replayed from scratch for every history), merged when "
        "the complete object graph plus module state is identical; in every "
        "distinct state probe circles are analysed by the real code and "
        "compared with a reference model that derives everything from the "
        "declared content"
    )
    ASSUMES = [
        "argument values outside the alphabet behave like those in it",
        "states with identical dumps of all reachable objects have identical futures",
    ]

    def run(self, case, ctx):
        w = World(*case.get("start", [{}]))
        ops = case["ops"]
        for op in ops:
            op = tuple(op)
            ok = w.do(op)
            ctx.step()
        key = digest(w.key())
        ctx.state(key)
        w.check_geometry(ctx)
        w.probe(ctx, probes=PROBE_SETS[case.get("probes", "")])
        return key

    def explore(self, ex, tier):
        deep = tier == "thorough"
        ex.bfs(OPS, 4 if deep else 2, "from empty slope", roots=[()])
        ex.bfs(OPS, 3, "from two-layer slope", roots=[BASE])
        ex.bfs(NEAR, 4 if deep else 3, "things that hardly differ", roots=[()])
        ex.bfs(DEEP, 4 if deep else 3, "levels far below the crest", roots=[DEEPROOT],
               make=lambda h: {"ops": list(h), "probes": "deep"})
        ex.bfs(SAME, 4 if deep else 3, "the same load several times", roots=[BASE])
        ex.bfs(OPS + MORE, 3 if deep else 2, "from fully loaded slope",
               roots=[RICH])


CHECK = C02()
