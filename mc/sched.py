"""Control over when library code runs: a scheduler that lets one of two
threads run at a time, and interruptions at chosen points.

A *point* is an executed line of /repo's library; points of one thread are
numbered in the order they are reached, so that the same program reaches the
same points whenever it runs on its own up to there.
"""
import os
import sys
import threading
import time

from .impl import REPO

LIB = os.path.realpath(os.path.join(REPO, "pyslope")) + os.sep


def code_objects(prefix):
    """all code of the loaded modules below prefix"""
    out, todo = set(), []
    for mod in list(sys.modules.values()):
        f = getattr(mod, "__file__", None)
        if not f or not os.path.realpath(f).startswith(prefix):
            continue
        for v in list(vars(mod).values()):
            if getattr(v, "__module__", None) != mod.__name__:
                continue
            for q in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
                q = getattr(q, "__func__", q)
                q = getattr(q, "fget", q)
                while hasattr(q, "__wrapped__"):
                    q = q.__wrapped__
                if hasattr(q, "__code__"):
                    todo.append(q.__code__)
    while todo:
        c = todo.pop()
        if c in out or not os.path.realpath(c.co_filename).startswith(prefix):
            continue
        out.add(c)
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]
    return out


_codes = None
_handlers = {}


def _hit(code, line):
    h = _handlers.get(threading.get_ident())
    if h is not None:
        h(code, line)


class Points:
    """while active, the handler of a thread is called at each of its points"""

    def __enter__(self):
        global _codes
        mon = sys.monitoring
        if _codes is None:
            _codes = code_objects(LIB)
            mon.use_tool_id(mon.DEBUGGER_ID, "verif")
            mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, _hit)
        for c in _codes:
            mon.set_local_events(mon.DEBUGGER_ID, c, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        self.off()

    def off(self):
        _handlers.clear()
        for c in _codes:
            sys.monitoring.set_local_events(sys.monitoring.DEBUGGER_ID, c, 0)

    def on(self, handler):
        if handler is None:
            _handlers.pop(threading.get_ident(), None)
        else:
            _handlers[threading.get_ident()] = handler


def record(f):
    """the points f reaches when it runs alone, as (function, line) pairs"""
    out = []
    with Points() as p:
        p.on(lambda code, line: out.append((code.co_qualname, line, code)))
        try:
            f()
        finally:
            p.on(None)
    return [q[:2] for q in out], [q[1] == q[2].co_firstlineno for q in out]


def chosen(points, which=("first", "second", "middle", "last")):
    """numbers (from 1) of the chosen executions of every line"""
    at = {}
    for n, k in enumerate(points, 1):
        at.setdefault(k, []).append(n)
    if which == "all":
        return list(range(1, len(points) + 1))
    out = set()
    for ns in at.values():
        for w in which:
            i = {"first": 0, "second": min(1, len(ns) - 1), "middle": len(ns) // 2,
                 "last": len(ns) - 1}[w]
            out.add(ns[i])
    return sorted(out)


def entries(points):
    """numbers of the first point reached of every function"""
    seen, out = set(), []
    for n, (f, _) in enumerate(points, 1):
        if f not in seen:
            seen.add(f)
            out.append(n)
    return out


class Interrupted(KeyboardInterrupt):
    pass


def interrupt(f, k):
    """run f, interrupted when it reaches its k-th point; True if it was"""
    n = 0
    with Points() as p:
        def hit(code, line):
            nonlocal n
            n += 1
            if n == k:
                raise Interrupted()
        p.on(hit)
        try:
            f()
        except Interrupted:
            return True
        finally:
            p.on(None)
    return False


class Stuck(Exception):
    pass


def cpu(thread):
    """processor time a thread has used"""
    try:
        return time.clock_gettime(time.pthread_getcpuclockid(thread.ident))
    except (OSError, ValueError, TypeError):
        return 0


def run_two(fs, cuts, patience=0.06, limit=100.0):
    """run two functions on two threads, only one at a time.  Thread 0
    starts; a thread hands over at each of its points named in its cuts and
    when it ends.  A thread that cannot continue (waits for something the
    other one holds) loses its turn, too.  Returns [(value, error)] and
    the number of points reached by each"""
    cv = threading.Condition()
    turn, done, count = 0, [False, False], [0, 0]
    out = [None, None]
    cuts = [set(c) for c in cuts]

    def wait(me):
        # called with cv held
        nonlocal turn
        other = ts[1 - me]
        seen, since = cpu(other), time.time()
        end = since + limit
        while turn != me and not done[1 - me]:
            cv.wait(0.02)
            now = cpu(other)
            if now != seen:
                seen, since = now, time.time()
            elif time.time() - since > patience and turn != me:
                turn = me  # the other one is blocked
                cv.notify_all()
            if time.time() > end:
                raise Stuck()

    def work(me, points):
        nonlocal turn

        def hit(code, line):
            nonlocal turn
            count[me] += 1
            if count[me] in cuts[me]:
                cuts[me].discard(count[me])
                if not any(cuts):
                    points.off()  # nothing left to decide
                if done[1 - me]:
                    return
                with cv:
                    turn = 1 - me
                    cv.notify_all()
                    wait(me)

        try:
            with cv:
                while turn != me:
                    cv.wait(1)
            if any(cuts):
                points.on(hit)
            try:
                out[me] = fs[me](), None
            finally:
                points.on(None)
        except BaseException as e:
            out[me] = None, e
        finally:
            with cv:
                done[me] = True
                turn = 1 - me
                cv.notify_all()

    with Points() as points:
        ts = [threading.Thread(target=work, args=(i, points), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(limit)
        if any(t.is_alive() for t in ts):
            raise Stuck()
    return out, count
