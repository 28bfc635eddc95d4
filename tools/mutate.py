"""mutation campaign on scratch copies: small edits of functions some check encodes; reports those that neither
the repository's tests nor the checks notice.  usage: mutate.py OUT.jsonl SEED COUNT WORKERS [module-substring]"""
import ast
import copy
import glob
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

S = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, SEED, COUNT, WORKERS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
FILT = sys.argv[5] if len(sys.argv) > 5 else ""
SKIPF = {"summary", "__repr__", "__str__", "get_coefficients_from_idx"}
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

enc, wall = {}, {}
for f in glob.glob(S + "/evidence/P*.json"):
    d = json.load(open(f))
    wall[d["property"]] = d["wall_s"]
    for q in d["coverage"]["functions_encoded"]:
        enc.setdefault(q, set()).add(d["property"])


def functions(mod, tree):
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + c.name
                if isinstance(c, ast.FunctionDef):
                    out.append((mod + ":" + q, c))
                    walk(c, q + ".<locals>.")
                else:
                    walk(c, q + ".")
            else:
                walk(c, pre)

    walk(tree, "")
    return out


def own(fn):
    """nodes of the function body, excluding nested functions and classes"""
    st = [(fn, x) for x in fn.body]
    while st:
        par, n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Raise, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") in ("logger", "warnings"):
            continue
        if isinstance(n, ast.JoinedStr):
            continue
        yield par, n
        for c in ast.iter_child_nodes(n):
            st.append((n, c))


def edits(par, n):
    """list of (description, apply(node))"""
    out = []
    if isinstance(n, ast.BinOp):
        for a, b in [(ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult)]:
            if isinstance(n.op, a) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                out.append(("%s->%s" % (a.__name__, b.__name__), lambda m, b=b: setattr(m, "op", b())))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        T = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        b = T.get(type(n.ops[0]))
        if b:
            out.append(("%s->%s" % (type(n.ops[0]).__name__, b.__name__), lambda m, b=b: setattr(m, "ops", [b()])))
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        v = n.value
        out.append(("%r->%r" % (v, v + 1 if type(v) is int else v * 1.01), lambda m, v=v: setattr(m, "value", v + 1 if type(v) is int else v * 1.01)))
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        out.append(("%r flipped" % n.value, lambda m, v=n.value: setattr(m, "value", not v)))
    if isinstance(n, ast.BoolOp):
        out.append(("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
    if isinstance(n, (ast.If, ast.IfExp)):
        out.append(("condition negated", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
        out.append(("condition True", lambda m: setattr(m, "test", ast.Constant(True))))
        out.append(("condition False", lambda m: setattr(m, "test", ast.Constant(False))))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        out.append(("minus dropped", lambda m: setattr(m, "op", ast.UAdd())))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(("not dropped", lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))))
    if isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append(("first two arguments swapped", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
        if isinstance(n.func, ast.Name) and n.func.id == "sorted" and not n.keywords:
            out.append(("sorted->list", lambda m: setattr(m.func, "id", "list")))
        if n.keywords:
            out.append(("last keyword dropped", lambda m: m.keywords.pop()))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten") and not n.args:
            out.append((".%s() dropped" % n.func.attr, "unwrap"))
        T = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "any": "all", "all": "any", "zeros": "ones", "hstack": "vstack", "sum": "mean", "argmin": "argmax", "log": "log10", "log10": "log", "zip": None}
        if isinstance(n.func, ast.Attribute) and T.get(n.func.attr):
            out.append(("%s->%s" % (n.func.attr, T[n.func.attr]), lambda m, a=T[n.func.attr]: setattr(m.func, "attr", a)))
        if isinstance(n.func, ast.Name) and T.get(n.func.id) and n.func.id in ("min", "max", "any", "all"):
            out.append(("%s->%s" % (n.func.id, T[n.func.id]), lambda m, a=T[n.func.id]: setattr(m.func, "id", a)))
    if isinstance(n, ast.Continue):
        out.append(("continue->break", "break"))
    if isinstance(n, ast.AugAssign):
        out.append(("augmented->plain", "plain"))
        out.append(("statement dropped", "drop"))
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
        out.append(("statement dropped", "drop"))
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        out.append(("statement dropped", "drop"))
    if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
        out.append((".T dropped", "unattr"))
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "params" and isinstance(n.slice, ast.Attribute):
        pass
    if os.environ.get("MUT2"):
        return more(par, n)
    if os.environ.get("MUT3"):
        return third(par, n)
    return out


def more(par, n):
    """second set: loops, slices, names, strings, order of statements"""
    out = []
    if isinstance(n, (ast.For, ast.comprehension)):
        f = lambda src: (lambda m: setattr(m, "iter", ast.parse(src.replace("X", ast.unparse(m.iter)), mode="eval").body))
        out.append(("last iteration skipped", f("list(X)[:-1]")))
        out.append(("first iteration skipped", f("list(X)[1:]")))
        out.append(("at most 3 iterations", f("list(X)[:3]")))
        out.append(("reversed iteration", f("list(X)[::-1]")))
        out.append(("sorted by text", f("sorted(X, key=str)")))
    if isinstance(n, ast.comprehension) and n.ifs:
        out.append(("comprehension filter dropped", lambda m: m.ifs.clear()))
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow, ast.MatMult)):
            out.append(("operands swapped", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right)))
        if isinstance(n.op, ast.FloorDiv):
            out.append(("// -> /", lambda m: setattr(m, "op", ast.Div())))
        if isinstance(n.op, (ast.Add, ast.Mult, ast.Sub, ast.Div)):
            out.append(("right operand dropped", lambda m: setattr(m, "right", ast.Constant(0 if isinstance(m.op, (ast.Add, ast.Sub)) else 1)) if not isinstance(m.left, (ast.List, ast.Tuple)) else None))
    if isinstance(n, ast.Slice):
        if n.upper is not None:
            out.append(("upper bound +1", lambda m: setattr(m, "upper", ast.BinOp(m.upper, ast.Add(), ast.Constant(1)))))
            out.append(("upper bound dropped", lambda m: setattr(m, "upper", None)))
        if n.lower is not None:
            out.append(("lower bound dropped", lambda m: setattr(m, "lower", None)))
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
        out.append(("indices swapped", lambda m: m.slice.elts.reverse()))
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not isinstance(par, (ast.JoinedStr, ast.Raise)):
        out.append(("text changed", lambda m: setattr(m, "value", m.value + "x")))
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
        out.append(("assignment dropped", "drop"))
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
        out.append(("attribute assignment dropped", "drop"))
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id in ("abs", "list", "int", "float", "str", "set", "sorted", "tuple") and len(n.args) == 1:
            out.append(("%s() dropped" % n.func.id, "unwrap1"))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "sqrt", "array", "atleast_1d", "asarray", "unique", "append") and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "ss", "sl") and n.args:
            out.append(("%s() dropped" % n.func.attr, "unwrap1"))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append(("last argument dropped", lambda m: m.args.pop()))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2:
            out.append(("get default to None", lambda m: m.args.__setitem__(1, ast.Constant(None))))
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in PAIR:
        out.append(("%s -> %s" % (n.id, PAIR[n.id]), lambda m: setattr(m, "id", PAIR[m.id])))
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in APAIR:
        out.append((".%s -> .%s" % (n.attr, APAIR[n.attr]), lambda m: setattr(m, "attr", APAIR[m.attr])))
    if isinstance(n, ast.Return) and n.value is not None:
        out.append(("returns None", lambda m: setattr(m, "value", ast.Constant(None))))
    return out


HELPERS = """

def _m_owner(a):
    return a[0].__dict__ if a and hasattr(a[0], "__dict__") and not isinstance(a[0], type) and not hasattr(a[0], "dtype") else globals().setdefault("_M_STORE", {})


def _m_shape(a):
    return tuple((type(x).__name__, getattr(x, "shape", None), len(x) if hasattr(x, "__len__") and not hasattr(x, "dtype") else None) for x in a)


def _m_first(key, a, v):
    d = _m_owner(a)
    if hasattr(v, "__dict__") and type(v).__name__ in ("type", "function"):
        return v
    return d.setdefault(("_m_%s_%r" % (key, _m_shape(a[1:] if d is not globals().get("_M_STORE") else a))), v)


def _m_buffer(key, a, v):
    if not hasattr(v, "dtype") or not hasattr(v, "shape") or v.shape == ():
        return v
    d = _m_owner(a)
    k = "_b_%s_%r" % (key, v.shape)
    if k in d and d[k] is not v and type(d[k]) is type(v) and d[k].dtype == v.dtype:
        d[k][...] = v
        return d[k]
    d[k] = v
    return v


def _m_sorted(x):
    if isinstance(x, list) and x and all(type(i) is int for i in x):
        return sorted(x)
    if hasattr(x, "dtype") and x.dtype.kind in "iu" and getattr(x, "ndim", 0) == 1:
        x = x.copy()
        x.sort()
    return x
"""


def third(par, n):
    """third set: results remembered or written into one buffer, sorted indices, neighbouring statements exchanged"""
    out = []
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Lambda)):
        wrap = lambda f: (lambda m: setattr(m, "value", ast.Call(ast.Name(f, ast.Load()), [ast.Constant("%d" % m.lineno), ast.Name("__ARGS__", ast.Load()), m.value], [])))
        out.append(("first result kept", wrap("_m_first")))
        out.append(("result buffer reused", wrap("_m_buffer")))
    if isinstance(n, ast.Subscript):
        def srt(m):
            f = lambda e: ast.Call(ast.Name("_m_sorted", ast.Load()), [e], [])
            m.slice = ast.Tuple([f(e) if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) else e for e in m.slice.elts], ast.Load()) if isinstance(m.slice, ast.Tuple) else f(m.slice)
        if isinstance(n.slice, (ast.Name, ast.Attribute, ast.Subscript)) or isinstance(n.slice, ast.Tuple) and any(isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) for e in n.slice.elts):
            out.append(("index sorted", srt))
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n in getattr(par, "body", []):
        def swap(m):
            b = par.body
            i = b.index(m)
            b[i], b[i + 1] = b[i + 1], b[i]
        i = par.body.index(n)
        if i + 1 < len(par.body) and isinstance(par.body[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
            out.append(("exchanged with the next statement", swap))
    if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "zeros_like", "copy") and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
        out.append(("input used as the array", "unwrap1"))
    return out


PAIR = {"i": "j", "j": "i", "k": "i", "mu": "sigma", "sigma": "mu", "pmin": "pmax", "pmax": "pmin", "toas": "freqs", "freqs": "toas", "left_array": "other", "fmin": "fmax", "fmax": "fmin", "e": "e0", "ll": "mm", "mm": "ll",
        "pos1": "pos2", "pos2": "pos1", "mask": "key", "key": "mask", "params": "self", "self": "params", "T": "F", "log10_A": "gamma", "gamma": "log10_A", "x": "y", "y": "x", "u": "v", "v": "u"}
APAIR = {"_isort": "_iisort", "_iisort": "_isort", "_toas": "_stoas", "toas": "stoas", "_raj": "_decj", "_decj": "_raj", "name": "psrname", "psrname": "name", "signal_id": "signal_name", "signal_name": "signal_id",
         "keys": "values", "values": "keys", "update": "setdefault", "ndarray_params": "white_params", "white_params": "basis_params", "basis_params": "delay_params", "delay_params": "basis_params", "_Mmat": "_F",
         "append": "extend", "extend": "append", "params": "param_names", "_masks": "_keys", "_keys": "_masks", "residuals": "toaerrs", "toaerrs": "residuals", "toarray": "copy", "shape": "size", "real": "imag", "imag": "real",
         "ones": "zeros", "eye": "ones", "dot": "outer", "outer": "dot", "hstack": "concatenate", "mean": "sum", "arange": "ones", "linspace": "logspace", "searchsorted": "digitize"}


class Sub(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        if node is self.t:
            return self.n
        return self.generic_visit(node)


def main():
    sites = []
    trees = {}
    for p in sorted(glob.glob("/repo/enterprise/**/*.py", recursive=True)):
        mod = os.path.relpath(p, "/repo")[:-3].replace("/", ".")
        if FILT and FILT not in mod:
            continue
        src = open(p).read()
        tree = trees[p] = ast.parse(src)
        for q, fn in functions(mod, tree):
            if q not in enc or fn.name in SKIPF:
                continue
            for k, (par, n) in enumerate(own(fn)):
                for j, (d, ap) in enumerate(edits(par, n)):
                    sites.append((p, q, fn.lineno, k, j, d, getattr(n, "lineno", 0)))
    random.Random(SEED).shuffle(sites)
    print(len(sites), "sites")
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            done.add(json.loads(l)["key"])
    todo = [s for s in sites[:COUNT] if repr(s[1:6]) not in done]
    import queue
    pool = queue.Queue()
    for i in range(WORKERS):
        W = "/tmp/mut/w%d_%d" % (os.getpid(), i)
        os.makedirs(W)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s; cp -an /repo/enterprise %s/" % (W, W), shell=True)
        pool.put(W)
    out = open(OUT, "a")

    def one(s):
        p, q, line, k, j, d, ln = s
        W = pool.get()
        try:
            rel = os.path.relpath(p, "/repo")
            src = open(p).read()
            tree = ast.parse(src)
            fn = [f for qq, f in functions(q.split(":")[0], tree) if qq == q and f.lineno == line][0]
            par, n = list(own(fn))[k]
            desc, ap = edits(par, n)[j]
            before = ast.unparse(n)[:160]
            if ap == "drop":
                tree = Sub(n, ast.copy_location(ast.Pass(), n)).visit(tree)
                after = "pass"
            elif ap == "break":
                tree = Sub(n, ast.copy_location(ast.Break(), n)).visit(tree)
                after = "break"
            elif ap == "plain":
                tree = Sub(n, ast.copy_location(ast.Assign([n.target], n.value), n)).visit(tree)
                after = "="
            elif ap == "unwrap":
                tree = Sub(n, n.func.value).visit(tree)
                after = "unwrapped"
            elif ap == "unwrap1":
                tree = Sub(n, n.args[0]).visit(tree)
                after = "unwrapped"
            elif ap == "unattr":
                tree = Sub(n, n.value).visit(tree)
                after = "no .T"
            else:
                ap(n)
                after = None
            ast.fix_missing_locations(tree)
            new = ast.unparse(tree)
            if "_m_" in new and os.environ.get("MUT3"):
                a = fn.args
                new = new.replace("__ARGS__", "(%s,)" % ", ".join(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs) if a.posonlyargs + a.args + a.kwonlyargs else "()") + HELPERS
            if after is None:
                after = ast.unparse(n)[:160]
            open(W + "/" + rel, "w").write(new)
            env = dict(os.environ, VERIF_REPO=W, VERIF_NOEVID="1", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            res, inc = "survived", []
            for c in sorted(enc[q], key=lambda c: wall[c]):
                try:
                    r = subprocess.run(["timeout", "400", "/opt/venv/bin/python", "run_check.py", c, "--jobs", "2"], cwd=S, env=env, capture_output=True, text=True)
                except Exception as e:
                    inc.append(c + " " + str(e))
                    continue
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = "caught " + c
                    break
                if "INCONCLUSIVE" in r.stdout or r.returncode not in (0, 1):
                    inc.append("%s rc=%d %s" % (c, r.returncode, [x[:150] for x in r.stdout.splitlines() if x.startswith("INCON")][:2]))
            if res == "survived":
                e2 = dict(env, PYTHONPATH=W, PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
                r = subprocess.run(["timeout", "300", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "tests"], cwd=W, env=e2, capture_output=True, text=True)
                t = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
                if "57 passed" not in t:
                    res = "tests"
            rec = dict(key=repr(s[1:6]), res=res, where="%s:%d" % (rel, ln), func=q, desc=desc, before=before, after=after, inc=inc)
            out.write(json.dumps(rec) + "\n")
            out.flush()
            open(W + "/" + rel, "w").write(src)
        except Exception as e:
            out.write(json.dumps(dict(key=repr(s[1:6]), res="error %r" % e, where=p, func=q, desc=d, before="", after="", inc=[])) + "\n")
            out.flush()
            open(W + "/" + os.path.relpath(p, "/repo"), "w").write(open(p).read())
        finally:
            pool.put(W)

    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, todo))
    subprocess.run("/bin/rm -rf /tmp/mut/w%d_*" % os.getpid(), shell=True)


main()
