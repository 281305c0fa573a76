"""Exhaustive bounded exploration of the real code.

Every exploration is a finite list of *cases* (configurations, or operation
histories produced level by level by breadth first search).  Cases are spread
over worker processes; each worker is forked from a parent that has imported
the code under test but never used it, so a case always starts from pristine
module state (plus the earlier cases of its own chunk, which are recorded
with a violation so that it can be replayed exactly).
"""
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT") or VERIF  # where evidence/ and replays/ go
NPROC = int(os.environ.get("VERIF_NPROC") or min(8, os.cpu_count() or 1))


class Violation(Exception):
    """the property does not hold"""


class Skip(Exception):
    """case is outside of what the property talks about"""


class HarnessError(Exception):
    pass


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    """what one chunk of cases covered"""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = Counter()
        self.samples = []
        self.done = 0
        self.skipped = 0
        self.case = None

    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *key):
        self.outcomes[" ".join(str(k) for k in key)] += 1

    def require(self, cond, *msg):
        if not cond:
            raise Violation(" ".join(str(m) for m in msg))

    def export(self):
        return dict(
            states=self.states, transitions=self.transitions,
            validated=self.validated, outcomes=self.outcomes,
            samples=self.samples[:3], done=self.done, skipped=self.skipped,
        )


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


def run_one(check, case, ctx, limit):
    """run one case; returns None or the text of the violation"""
    ctx.case = case
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return None, check.run(case, ctx)
    except Violation as e:
        return str(e), None
    except Timeout:
        return f"did not finish within {limit} s", None
    except Skip:
        ctx.skipped += 1
        return None, None
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        here = [f for f in tb if f.filename.startswith(VERIF)]
        deepest = tb[-1].filename if tb else ""
        where = "; ".join(
            f"{os.path.basename(f.filename)}:{f.lineno} {f.name}"
            for f in tb[-4:]
        )
        if deepest.startswith(VERIF) and not isinstance(e, LookupError):
            # raised by the harness' own code: maybe its bug, maybe because
            # the implementation handed it something unusable
            pass
        del here
        return f"unexpected {type(e).__name__}: {e} [{where}]", None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _child(check, cases, wfd, deadline, limit, want_values):
    ctx = Ctx()
    out = dict(violations=[], values=[], complete=True)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        seen = []
        for idx, case in cases:
            if time.time() > deadline:
                out["complete"] = False
                break
            msg, val = run_one(check, case, ctx, limit)
            if msg is not None:
                out["violations"].append((idx, case, msg, list(seen)))
                out["complete"] = False
                break
            ctx.done += 1
            if len(ctx.samples) < 3:
                ctx.samples.append(case)
            if want_values:
                out["values"].append((idx, val))
            seen.append(case)
    except BaseException:
        out["error"] = traceback.format_exc()
    out.update(ctx.export())
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_chunks(check, chunks, deadline, limit, want_values=False, stop=True):
    """fork one pristine worker per chunk, NPROC at a time"""
    todo = list(enumerate(chunks))[::-1]
    live, results = {}, {}
    stopping = False
    while todo or live:
        while todo and len(live) < NPROC and not stopping:
            ci, cases = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(live):
                    os.close(fd)
                _child(check, cases, w, deadline, limit, want_values)
            os.close(w)
            live[r] = (pid, ci, bytearray())
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 5.0)
        for fd in ready:
            pid, ci, buf = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf += b
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            if not buf:
                raise HarnessError(f"worker for chunk {ci} died")
            res = pickle.loads(bytes(buf))
            if "error" in res:
                raise HarnessError(res["error"])
            results[ci] = res
            if stop and res["violations"]:
                stopping = True
                todo = []
    return [results[k] for k in sorted(results)]


class Explorer:
    def __init__(self, check, tier, seed, budget):
        self.check, self.tier, self.seed = check, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.limit = getattr(check, "CASE_LIMIT", 120)
        self.total = Ctx()
        self.cases = 0
        self.complete = True
        self.violations = []
        self.parts = []

    def absorb(self, results):
        for r in results:
            self.total.states |= r["states"]
            self.total.transitions += r["transitions"]
            self.total.validated += r["validated"]
            self.total.outcomes += r["outcomes"]
            self.total.done += r["done"]
            self.total.skipped += r["skipped"]
            if len(self.total.samples) < 4:
                self.total.samples += r["samples"][:1]
            self.violations += r["violations"]
            self.complete &= r["complete"]

    def product(self, cases, label, chunk=None):
        """run every case of a finite space"""
        cases = list(cases)
        self.cases += len(cases)
        if self.violations:
            return
        n = max(1, min(len(cases), NPROC * 4))
        if chunk:
            n = max(1, min(len(cases), -(-len(cases) // chunk)))
        idx = list(enumerate(cases))
        chunks = [idx[i::n] for i in range(n)]
        d0 = self.total.done
        res = run_chunks(self.check, chunks, self.deadline, self.limit)
        self.absorb(res)
        self.parts.append(
            dict(space=label, size=len(cases), run=self.total.done - d0)
        )

    def bfs(self, ops, depth, label, roots=((),), enabled=None, make=None,
            merge=True):
        """breadth first search over histories: check.run(case) must replay
        the history, judge the final state and return its canonical key"""
        make = make or (lambda h: {"ops": list(h)})
        seen, frontier = set(), []
        d0 = self.total.done
        sizes = []
        level = [tuple(r) for r in roots]
        for d in range(depth + 1):
            if self.violations or not level:
                break
            idx = [(i, make(h)) for i, h in enumerate(level)]
            self.cases += len(idx)
            n = max(1, min(len(idx), NPROC * 4))
            chunks = [idx[i::n] for i in range(n)]
            res = run_chunks(
                self.check, chunks, self.deadline, self.limit, want_values=True
            )
            self.absorb(res)
            vals = {}
            for r in res:
                vals.update(dict(r["values"]))
            if len(vals) < len(level):
                sizes.append(f"{len(vals)}/{len(level)}")
                break
            frontier = []
            for i, h in enumerate(level):
                k = vals[i]
                if k is None:
                    continue
                if merge and k in seen:
                    continue
                seen.add(k)
                frontier.append(h)
            sizes.append(len(level))
            level = [
                h + (op,)
                for h in frontier
                for op in ops
                if enabled is None or enabled(h, op)
            ]
        self.parts.append(
            dict(space=label, depth=depth, alphabet=len(ops), levels=sizes,
                 distinct_states=len(seen), run=self.total.done - d0)
        )
        return seen


# ------------------------------------------------------------------ findings
def load_known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 2)
                prop = parts[1].split("=", 1)[1]
                case, _, text = parts[2].partition(" :: ")
                out.append((prop, json.loads(case), text))
    return out


def canon_case(case):
    return json.loads(json.dumps(case))


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        return do_replay(check, replay)
    budget = float(
        os.environ.get("VERIF_BUDGET") or (600 if tier == "quick" else 3 * 3600)
    )
    ex = Explorer(check, tier, seed, budget)
    known = [k for k in load_known() if k[0] == check.ID]
    check.explore(ex, tier)
    # confirm violations in pristine processes
    bad, noise = [], []
    for idx, case, msg, before in sorted(ex.violations, key=lambda v: v[0]):
        if len(bad) >= 3:
            break
        r = run_chunks(check, [[(0, case)]], time.time() + 600, ex.limit)[0]
        if r["violations"]:
            bad.append((case, r["violations"][0][2], []))
            continue
        cases = [(i, c) for i, c in enumerate(before + [case])]
        r = run_chunks(check, [cases], time.time() + 600, ex.limit)[0]
        if r["violations"]:
            bad.append((case, r["violations"][0][2], before))
        elif "did not finish" in msg:
            noise.append(msg)
        else:
            bad.append((case, msg + " (does not fail every time)", before))
    reported = 0
    lines = []
    for case, msg, before in bad:
        for _, kcase, ktext in known:
            if kcase == canon_case(case):
                lines.append(f"KNOWN-FINDING: property={check.ID} {ktext}")
                break
        else:
            reported += 1
            path = write_replay(check, reported, case, msg, before)
            lines.append(f"VIOLATION property={check.ID} replay={path}")
            lines.append(f"  {msg[:1500]}")
    if not bad:
        for _, kcase, ktext in known:
            r = run_chunks(check, [[(0, kcase)]], time.time() + 600, ex.limit)[0]
            if r["violations"]:
                lines.append(f"KNOWN-FINDING: property={check.ID} {ktext}")
    wall = time.time() - ex.t0
    t = ex.total
    evidence = dict(
        property=check.ID, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(t.states), transitions=t.transitions,
            traces_validated_against_impl=t.done,
            samples=[canon_case(s) for s in t.samples[:4]],
            exhaustive=bool(ex.complete and not bad),
            cases_planned=ex.cases, cases_run=t.done,
            cases_skipped=t.skipped,
            comparisons_with_reference=t.validated,
            spaces=ex.parts,
            distinct_outcomes=len(t.outcomes),
            outcomes=dict(t.outcomes.most_common(40)),
            explanation=check.EXPLAIN,
        ),
        assumptions=list(getattr(check, "ASSUMES", [])),
        wall_s=round(wall, 2), violations=reported,
    )
    if noise:
        evidence["coverage"]["slow_cases"] = noise
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{check.ID}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    for ln in lines:
        print(ln)
    print(
        f"{check.ID} {tier}: cases={t.done}/{ex.cases} states={len(t.states)} "
        f"transitions={t.transitions} comparisons={t.validated} "
        f"outcomes={len(t.outcomes)} skipped={t.skipped} "
        f"complete={ex.complete} wall={wall:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for p in ex.parts:
            print("   ", p)
        for k, v in t.outcomes.most_common(40):
            print("   ", v, k)
    if not reported and (t.done == 0 or not t.states):
        raise HarnessError("nothing was explored")
    return 1 if reported else 0


def write_replay(check, n, case, msg, before):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.ID}-{n}.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=check.ID, message=msg, case=case, before=before,
                 how=f"cd /verif && ./run.sh {check.ID} --replay {path}"),
            f, indent=1, default=str,
        )
        f.write("\n")
    return path


def do_replay(check, path):
    d = json.load(open(path))
    ctx = Ctx()
    for c in d.get("before") or []:
        run_one(check, c, ctx, 600)
    msg, _ = run_one(check, d["case"], ctx, 600)
    if msg is None:
        print(f"replay of {path}: property {check.ID} holds on this case")
        return 0
    print(f"VIOLATION property={check.ID} replay={path}")
    print(f"  {msg}")
    return 1
