"""Mutation campaign (development aid, not a check).

mutate.py list            write all mutants to $MUT/mutants.jsonl
mutate.py tests           run the test suite on each, survivors -> survive.jsonl
mutate.py checks BUDGET   run the checks on survivors, result -> result.jsonl
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock, local

MUT = os.environ.get("MUT", "/tmp/mut")
FILES = ["pyslope/pyslope.py", "pyslope/utilities.py",
         "pyslope/data_validation.py", "slope/views.py", "slope/forms.py"]
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"]}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(a, b, new, what):
        out.append((a, b, new, what))

    def text(n):
        a, b = seg(n)
        return raw[a:b].decode()

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            skip.update(map(id, ast.walk(n)))
            skip.discard(id(n))
        if isinstance(n, ast.FunctionDef):
            for d in [n.returns] + [a.annotation for a in n.args.args]:
                if d is not None:
                    skip.update(map(id, ast.walk(d)))
        if isinstance(n, ast.JoinedStr):
            skip.update(map(id, ast.walk(n)))
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for d in list(fn.args.defaults) + [k for k in fn.args.kw_defaults if k]:
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
                a, b = seg(d)
                add(a, b, repr(not d.value) if isinstance(d.value, bool) else repr(d.value * 2 + 1), "default")
        for n in (x for s in fn.body for x in ast.walk(s)):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = seg(n)
                for o in CMP.get(type(n.ops[0]), []):
                    add(a, b, f"({text(n.left)} {o} {text(n.comparators[0])})", "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                a, b = seg(n)
                for o in BIN[type(n.op)]:
                    add(a, b, f"({text(n.left)} {o} {text(n.right)})", "bin")
            elif isinstance(n, ast.BoolOp):
                a, b = seg(n)
                o = " or " if isinstance(n.op, ast.And) else " and "
                add(a, b, "(" + o.join(f"({text(v)})" for v in n.values) + ")", "bool")
                for k in range(len(n.values)):
                    rest = [v for i, v in enumerate(n.values) if i != k]
                    o2 = " and " if isinstance(n.op, ast.And) else " or "
                    add(a, b, "(" + o2.join(f"({text(v)})" for v in rest) + ")", "drop cond")
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                a, b = seg(n.test)
                add(a, b, f"(not ({text(n.test)}))", "not")
                if isinstance(n, (ast.If, ast.IfExp)):
                    add(a, b, "True", "if True")
                    add(a, b, "False", "if False")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                a, b = seg(n)
                add(a, b, f"({text(n.operand)})", "unary")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                a, b = seg(n)
                if isinstance(n.value, bool):
                    add(a, b, repr(not n.value), "const")
                else:
                    for v in {n.value + 1, n.value * 0.999 if n.value else -1}:
                        add(a, b, f"({v!r})", "const")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                                ast.Continue, ast.Break, ast.Delete)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                a, b = seg(n)
                add(a, b, "pass", "del")
            elif isinstance(n, ast.Return) and n.value is not None:
                a, b = seg(n)
                add(a, b, "return None", "ret")
            if isinstance(n, ast.Call):
                nm = text(n.func)
                a, b = seg(n.func)
                if nm in ("min", "max"):
                    add(a, b, {"min": "max", "max": "min"}[nm], "minmax")
                if nm in ("abs", "sorted", "list", "round"):
                    if len(n.args) >= 1:
                        a, b = seg(n)
                        add(a, b, f"({text(n.args[0])})", "unwrap")
                if len(n.args) == 2 and not any(isinstance(z, ast.Starred) for z in n.args):
                    a, _ = seg(n.args[0])
                    _, b = seg(n.args[1])
                    add(a, b, f"{text(n.args[1])}, {text(n.args[0])}", "swap")
                for k, kw in enumerate(n.keywords):
                    if kw.arg and kw.arg in ("key", "reverse", "copy", "inplace", "min_value", "max_value", "required"):
                        pass
    seen = set()
    for a, b, new, what in out:
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        res = raw[:a] + new.encode() + raw[b:]
        try:
            t2 = ast.parse(res)
        except SyntaxError:
            continue
        if ast.dump(t2) == ast.dump(tree):
            continue
        yield a, b, new, what, raw[:a].count(b"\n") + 1, raw[a:b].decode()[:80]


def listing():
    os.makedirs(MUT, exist_ok=True)
    n = 0
    with open(f"{MUT}/mutants.jsonl", "w") as f:
        for p in FILES:
            for a, b, new, what, line, old in mutants("/repo/" + p):
                f.write(json.dumps(dict(n=n, f=p, a=a, b=b, new=new, what=what, line=line, old=old)) + "\n")
                n += 1
    print(n)


loc = local()
lock = Lock()
count = [0]


def copy():
    if not hasattr(loc, "dir"):
        with lock:
            k = count[0]
            count[0] += 1
        loc.dir = f"{MUT}/w{os.getpid()}_{k}"
        shutil.copytree("/repo", loc.dir, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    return loc.dir


def with_mutant(m, fun):
    d = copy()
    p = f"{d}/{m['f']}"
    raw = open("/repo/" + m["f"], "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    try:
        return fun(d)
    finally:
        open(p, "wb").write(raw)


ENV = dict(os.environ, TQDM_DISABLE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", SECRET_KEY="x")


def run_tests(d):
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                            "--no-cov", "pyslope"], cwd=d, env=ENV, capture_output=True, timeout=120)
        return r.returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def tests():
    ms = [json.loads(x) for x in open(f"{MUT}/mutants.jsonl")]
    done = set()
    if os.path.exists(f"{MUT}/tested.jsonl"):
        done = {json.loads(x)["n"] for x in open(f"{MUT}/tested.jsonl")}
    f = open(f"{MUT}/tested.jsonl", "a")

    def one(m):
        web = m["f"].startswith("slope/")
        r = 0 if web else with_mutant(m, run_tests)
        with lock:
            f.write(json.dumps(dict(m, tests=r)) + "\n")
            f.flush()

    with ThreadPoolExecutor(int(os.environ.get("NW", 8))) as ex:
        list(ex.map(one, [m for m in ms if m["n"] not in done]))


ORDER = os.environ.get("ORDER", "C17 C01 C07 C04 C22 C09 C02 C12 C08 C05 C03 C10 C13 C11 C14 C16 C15 C21 C06 C20 C18 C19").split()
WEB = "C18 C20 C19".split()


FUNCS = {
    "plot_boundary": "C15", "_plot_limits": "C15 C22", "_plot_material_table": "C15", "_plot_FOS_legend": "C16 C15",
    "plot_critical": "C16", "plot_all_planes": "C16", "_plot_failure_plane": "C16", "_plot_annotate_FOS": "C16",
    "analyse_dynamic": "C14", "_set_dynamic_offset": "C14", "print_dynamic_results": "C14", "get_dynamic_results": "C14",
    "set_external_boundary": "C01 C22 C04", "_update_coordinates": "C01 C02 C22", "update_boundary_options": "C01 C22 C04",
    "set_analysis_limits": "C22 C04 C10", "remove_analysis_limits": "C22 C05", "update_analysis_options": "C13",
    "set_materials": "C02 C04 C15", "remove_material": "C05 C02", "set_udls": "C02 C05", "remove_udls": "C05",
    "set_lls": "C02 C05", "remove_lls": "C05", "set_water_table": "C09 C02", "update_water_analysis_options": "C09 C04",
    "remove_water_table": "C05", "add_single_circular_plane": "C12", "add_single_entry_exit_plane": "C12",
    "_generate_planes": "C12 C11", "_get_entry_exit_planes": "C11 C10", "get_entry_exit_planes": "C11 C10",
    "analyse_slope": "C03 C11 C12", "_analyse_circular_failure_ordinary": "C07 C08 C09",
    "_analyse_circular_failure_bishop": "C07 C08 C09", "_get_circle_external_intersection": "C12 C10 C07",
    "_calculate_strip_weights": "C07", "get_external_y_intersection": "C01", "get_external_x_intersection": "C01",
    "get_min_FOS": "C11 C03", "_reset_results": "C03", "__post_init__": "C17", "__repr__": "C17", "__eq__": "C05", "__init__": "C17 C01",
    "pdf": "C20", "index": "C18 C19 C20", "reset": "C19", "create_slope": "C18",
}
FILEDEF = {"pyslope/data_validation.py": "C17 C04 C13", "pyslope/utilities.py": "C15 C16 C10", "slope/views.py": "C18 C20 C19 C24",
           "pyslope/pyslope.py": "C02 C15 C16 C07 C11 C14"}
_F = {}


def relevant(m):
    if m["f"] not in _F:
        _F[m["f"]] = sorted(
            (n.lineno, n.end_lineno, n.name) for n in ast.walk(ast.parse(open("/repo/" + m["f"]).read()))
            if isinstance(n, ast.FunctionDef))
    name = [n for a, b, n in _F[m["f"]] if a <= m["line"] <= b][-1:] or [""]
    first = FUNCS.get(name[0], "").split()
    rest = [c for c in FILEDEF[m["f"]].split() if c not in first]
    m["fun"] = name[0]
    return first + rest


def checks(budget):
    out = os.environ.get("OUT", f"{MUT}/result.jsonl")
    src = os.environ.get("IN", f"{MUT}/tested.jsonl")
    ms = [json.loads(x) for x in open(src)]
    ms = [m for m in ms if m.get("tests", 0) == 0]
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["n"] for x in open(out)}
    random.Random(1).shuffle(ms)
    f = open(out, "a")

    def one(m):
        def go(d):
            order = relevant(m)
            for c in order:
                env = dict(ENV, VERIF_REPO=d, VERIF_NPROC=os.environ.get("NP", "1"), VERIF_BUDGET=str(budget),
                           VERIF_OUT=d + "_out")
                try:
                    r = subprocess.run([os.environ.get("VCOPY", "/verif") + "/run.sh", c, "quick"], env=env, capture_output=True,
                                       text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    return c + " TIMEOUT"
                if r.returncode and "nothing was explored" not in r.stdout:
                    return c if r.returncode == 1 and "VIOLATION" in r.stdout else c + f" rc={r.returncode} " + r.stdout[-300:] + r.stderr[-300:]
            return None

        r = with_mutant(m, go)
        with lock:
            f.write(json.dumps(dict(m, caught=r)) + "\n")
            f.flush()

    with ThreadPoolExecutor(int(os.environ.get("NW", 8))) as ex:
        list(ex.map(one, [m for m in ms if m["n"] not in done]))


if __name__ == "__main__":
    {"list": listing, "tests": tests}.get(sys.argv[1], lambda: checks(sys.argv[2]))()
