"""rewrites every function of the package mechanically without changing what it does, and runs the repository's tests and
the strict checks on the result; run: python3 tools/autorefactor.py [transformation ...]"""
import ast, os, shutil, subprocess, sys, tempfile

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def locals_of(fn):
    """names assigned in this function and nowhere shared (no nested function or class, no global/nonlocal, not an argument)"""
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) for n in ast.walk(fn) if n is not fn):
        return set()
    if any(isinstance(n, ast.Name) and n.id in ("locals", "eval", "exec") for n in ast.walk(fn)):
        return set()
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        names = locals_of(fn)
        if names:
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id in names:
                    n.id = "v_" + n.id
                elif isinstance(n, ast.ExceptHandler) and n.name in names:
                    n.name = "v_" + n.name
        else:
            self.generic_visit(fn)
        return fn


class Returns(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value, lineno=0), ast.Return(ast.Name("result_", ast.Load()))]


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Loops(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Loops.k += 1
        it, item = "iter_%d" % Loops.k, "item_%d" % Loops.k
        new = ast.parse("%s = iter(0)\nwhile True:\n    try:\n        %s = next(%s)\n    except StopIteration:\n        break\n" % (it, item, it)).body
        new[0].value.args = [n.iter]
        new[1].body += [ast.Assign([n.target], ast.Name(item, ast.Load()), lineno=0)] + n.body
        return new


class Comps(ast.NodeTransformer):
    """list comprehensions of one generator become calls of a local function with an explicit loop; evaluated where they stood"""

    k = 0

    def body(self, stmts):
        out = []
        for s in stmts:
            out.append(self.visit(s))
        return out

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])


class Wrap(ast.NodeTransformer):
    """the body moves to an inner function that is given the arguments"""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
            return fn
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") and not n.args for n in ast.walk(fn)):
            return fn
        a = fn.args
        plain = ast.arguments([ast.arg(x.arg) for x in a.posonlyargs], [ast.arg(x.arg) for x in a.args], a.vararg and ast.arg(a.vararg.arg), [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), a.kwarg and ast.arg(a.kwarg.arg), [])
        doc = fn.body[:1] if ast.get_docstring(fn) is not None else []
        rest = fn.body[len(doc):] or [ast.Pass()]
        inner = ast.FunctionDef("body_" + fn.name.strip("_"), plain, rest, [], None, lineno=0)
        L = lambda x: ast.Name(x, ast.Load())
        pos = [L(x.arg) for x in a.posonlyargs + a.args] + ([ast.Starred(L(a.vararg.arg), ast.Load())] if a.vararg else [])
        kws = [ast.keyword(x.arg, L(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, L(a.kwarg.arg))] if a.kwarg else [])
        fn.body = doc + [inner, ast.Return(ast.Call(L(inner.name), pos, kws))]
        return fn


class Temps(ast.NodeTransformer):
    """the operands of arithmetic in assignments and returns get names first, in the order of evaluation"""

    k = 0

    def split(self, stmt):
        v = getattr(stmt, "value", None)
        if not isinstance(v, ast.BinOp):
            return stmt
        pre = []

        def name(e):
            if isinstance(e, (ast.Constant, ast.Name)):
                return e
            if isinstance(e, ast.BinOp):
                e = ast.BinOp(name(e.left), e.op, name(e.right))
            Temps.k += 1
            nm = "t_%d" % Temps.k
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], e, lineno=0))
            return ast.Name(nm, ast.Load())

        stmt.value = ast.BinOp(name(v.left), v.op, name(v.right))
        return pre + [stmt]

    def visit_ClassDef(self, n):
        # names of a class body are its attributes
        n.body = [s if isinstance(s, (ast.Assign, ast.Return)) else self.visit(s) for s in n.body]
        return n

    visit_Assign = visit_Return = split


class Operands(ast.NodeTransformer):
    """comparisons mirrored, products of a number and something else the other way round, x - y as x + (-y) for numbers"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        num = lambda e: isinstance(e, ast.Constant) and isinstance(e.value, (int, float))
        if isinstance(n.op, ast.Mult) and num(n.left) != num(n.right) and not any(isinstance(e, (ast.List, ast.Constant)) and not num(e) for e in (n.left, n.right)):
            return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Pow) and num(n.right) and n.right.value == 2:
            return n
        return n


class Statics(ast.NodeTransformer):
    """in-place names: a = b = c split, tuple assignments of calls through one name"""

    k = 0

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts):
            out, names = [], []
            for e in n.value.elts:
                Statics.k += 1
                names.append("p_%d" % Statics.k)
                out.append(ast.Assign([ast.Name(names[-1], ast.Store())], e, lineno=0))
            return out + [ast.Assign([t], ast.Name(m, ast.Load()), lineno=0) for t, m in zip(n.targets[0].elts, names)]
        return n

    def visit_ClassDef(self, n):
        n.body = [s if isinstance(s, ast.Assign) else self.visit(s) for s in n.body]
        return n


KINDS = dict(rename=Rename, returns=Returns, invert=Invert, loops=Loops, comps=Comps, wrap=Wrap, temps=Temps, operands=Operands, tuples=Statics)
SKIP = ("__init__.py", "ver.py")


def run(kind):
    W = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s; cp -an /repo/enterprise %s/ 2>/dev/null" % (W, W), shell=True)
        for d, _, fs in os.walk(W + "/enterprise"):
            for f in fs:
                if f.endswith(".py") and f not in SKIP and "tests" not in d:
                    p = os.path.join(d, f)
                    tree = ast.parse(open(p).read())
                    for k in kind.split("+"):
                        tree = KINDS[k]().visit(tree)
                    open(p, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")
        env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_REPO=W, VERIF_NOEVID="1", VERIF_STRICT="1")
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors tests 2>&1 | tail -1", shell=True, cwd=W, env=env, capture_output=True, text=True).stdout.strip()
        print(kind, "|", t, flush=True)
        for p in os.environ.get("ONLY", " ".join("P%02d" % i for i in range(1, 34))).split():
            r = subprocess.run(["/opt/venv/bin/python", R + "/run_check.py", p] + os.environ.get("ARGS", "").split(), env=env, capture_output=True, text=True)
            print("  ", kind, p, r.returncode, "" if r.returncode == 0 else r.stdout[:1500] + r.stderr[-300:], flush=True)
    finally:
        if os.environ.get("KEEP"):
            print(W)
        else:
            shutil.rmtree(W)


for i in sys.argv[1:] or KINDS:
    run(i)
