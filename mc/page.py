"""The page of the web application in a (small) browser: its scripts run for
real in mc/dom.js, one node process per worker."""
import hashlib
import json
import os
import re
import subprocess

from .engine import Skip, Violation
from .impl import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_node = None
_scripts = {}


def node():
    global _node
    if _node is None or _node[0] != os.getpid() or _node[1].poll() is not None:
        env = {k: v for k, v in os.environ.items() if k != "NODE_OPTIONS"}
        _node = os.getpid(), subprocess.Popen(
            ["node", os.path.join(VERIF, "mc", "dom.js")], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, text=True, env=env), set()
    return _node[1]


def scripts(html):
    """the page's own scripts in document order"""
    out = []
    for m in re.finditer(r"<script\b([^>]*)>(.*?)</script>", html, re.S | re.I):
        att, body = m.groups()
        src = re.search(r"""src\s*=\s*["']([^"']*)""", att)
        if src:
            name = src.group(1)
            if name.startswith(("http:", "https:", "//")):
                continue  # Plotly and bootstrap: Plotly is modelled
            name = name.split("?")[0]
            if name not in _scripts:
                _scripts[name] = find_static(name)
            out.append(dict(name=name, code=_scripts[name],
                            defer=bool(re.search(r"\bdefer\b|type=.module", att))))
        elif "json" not in att and "template" not in att:
            out.append(dict(name="inline", code=body))
    return [s for s in out if not s.get("defer")] + [s for s in out if s.get("defer")]


def find_static(name):
    from django.contrib.staticfiles import finders

    rel = re.sub(r"^/?static/", "", name)
    path = finders.find(rel) or os.path.join(REPO, "static", rel)
    if not os.path.exists(path):
        raise Violation(f"the page asks for {name}, which does not exist")
    with open(path) as f:
        return f.read()


class Browser:
    """the page of one answer of the server"""

    def __init__(self, response, width=1400, url="http://testserver/"):
        if response.status_code != 200:
            raise Violation(f"page answered with {response.status_code}")
        self.html = response.content.decode()
        self.width, self.url = width, url
        self.key = hashlib.sha1(self.html.encode()).hexdigest()
        self.js = scripts(self.html)

    def play(self, ops, what, every=False, width=None):
        """observations after the operations (after each when every)"""
        p = node()
        known = _node[2]
        job = dict(key=self.key, url=self.url, width=width or self.width,
                   scripts=self.js, ops=ops, what=what, all=every)
        if self.key not in known:
            if len(known) > 25:
                known.clear()
            known.add(self.key)
            job["html"] = self.html
        try:
            p.stdin.write(json.dumps(job) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
        except BaseException:
            p.kill()  # a script that does not end
            p.wait()
            raise
        if not line:
            raise RuntimeError("node ended")
        r = json.loads(line)
        if r.get("unsupported"):
            raise Skip(r["unsupported"])
        if r.get("error"):
            raise Violation(f"script of the page fails: {r['error'][:300]}")
        return r["steps"] if every else r["steps"][-1]
