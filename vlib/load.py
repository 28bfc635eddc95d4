"""Executes /repo/enterprise from source into a private module registry in which
numpy / scipy / ... are the symbolic replacements of shim.py."""
import builtins
import os
import json
import sys
import types

from . import shim

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}
ENCODED = set()


def _compiled(path):
    c = _code.get(path)
    if c is None:
        with open(path) as f:
            src = f.read()
        c = _code[path] = compile(src, "<enc>" + path, "exec")
    return c


class Shadow:
    def __init__(self, extra=None):
        self.mods = {}
        self.sub = shim.modules()
        if extra:
            self.sub.update(extra)
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["float"] = shim._FloatT
        b["hash"] = shim.sym_hash
        self.b = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name == "enterprise" or name.startswith("enterprise."):
            leaf = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(leaf, f) and self._path(name + "." + f):
                        self.load(name + "." + f)
                return leaf
            return self.mods["enterprise"]
        if name in self.sub:
            if fromlist:
                return self.sub[name]
            return self.sub[name.split(".")[0]]
        if name == "pkg_resources" and name not in sys.modules:
            m = types.ModuleType(name)
            m.Requirement = m.resource_filename = None
            return m
        return __import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(p + "/__init__.py"):
            return p + "/__init__.py"
        return p + ".py" if os.path.exists(p + ".py") else None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, last = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        path = self._path(name)
        if path is None:
            raise ImportError("no module named " + name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else parent
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.b
        self.mods[name] = m
        try:
            exec(_compiled(path), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], last, m)
        return m


def start_recording():
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    try:
        mon.use_tool_id(4, "verif")
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith("<enc>"):
            ENCODED.add(fn[5 + len(REPO) + 1 :].removesuffix(".py").replace("/", ".") + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, on_start)
    ev = mon.events.PY_START
    if os.environ.get("VERIF_LINES"):  # line and branch coverage of the encoding, for finding gaps (tools/linecov.py)
        def on_line(code, line):
            if code.co_filename.startswith("<enc>"):
                LINES.add((code.co_filename[5 + len(REPO) + 1 :], line))
            return mon.DISABLE

        def on_branch(code, off, dest):
            if not code.co_filename.startswith("<enc>"):
                return mon.DISABLE
            k = (code.co_filename[5 + len(REPO) + 1 :], code.co_qualname, code.co_firstlineno, off, dest)
            BRANCHES.add(k)

        mon.register_callback(4, mon.events.LINE, on_line)
        mon.register_callback(4, mon.events.BRANCH, on_branch)
        ev |= mon.events.LINE | mon.events.BRANCH
    mon.set_events(4, ev)


LINES, BRANCHES = set(), set()


def dump_lines():
    d = os.environ.get("VERIF_LINES")
    if d:
        with open(os.path.join(d, "%d.json" % os.getpid()), "w") as f:
            json.dump([sorted(LINES), sorted(BRANCHES)], f)
