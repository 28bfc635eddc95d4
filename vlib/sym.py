"""Symbolic scalars, path exploration and the z3 back end."""
import math
import time
from fractions import Fraction

import numpy as np
import z3
from z3 import z3core as _z3c

from . import alg
from .alg import (
    AlgError, KR, SH, R, mono_items, radd, rconst, rdiv, rfactors, rgen, rmul, rneg,
    rpow_int, rstr, snap,
)

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """engine limitation: the run cannot be encoded"""


class Infeasible(Exception):
    """the current path was assumed away"""


class PathLimit(Exception):
    pass


class Ctx:
    """one symbolic execution run (one path)"""

    cur = None

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # decisions
        self.todo = []  # alternative prefixes
        self.pc = []  # list of (op, R)
        self.cache = {}
        self.vars = {}  # name -> (gen, lo, hi)
        self.stats = {"queries": 0, "z3_s": 0.0, "unknown": 0, "forks": 0}
        self.claims = []
        self.notes = set()
        self.garbage = 0
        self.expand_trig = False
        self.tmo = 3000
        self.trig_unit = {}


def ctx():
    return Ctx.cur


# ------------------------------------------------------------------ z3 encoding
class Enc:
    """encodes a set of polynomials consistently (root granularity) into z3"""

    def __init__(self):
        self.g = {}
        self.polys = []

    def scan(self, p):
        for m in p:
            for i, e in mono_items(m):
                gen = alg.T.gens[i]
                if gen.kind in ("root", "pow"):
                    self.g[i] = math.gcd(self.g.get(i, 0), e)
                elif i not in self.g:
                    self.g[i] = 1

    def close(self):
        """also scan the axioms' polynomials"""
        done = set()
        while True:
            new = [i for i in self.g if i not in done]
            if not new:
                break
            for i in new:
                done.add(i)
                gen = alg.T.gens[i]
                if gen.kind == "root":
                    self.scan(gen.data[1])
                elif i in alg.T.red:
                    self.scan(alg.T.red[i][1])
                if gen.kind == "uf" and gen.data[0] == "rint":
                    self.scan(gen.data[1][0].n)
        self.v = {}
        self.cache = {}
        for i in self.g:
            gen = alg.T.gens[i]
            self.v[i] = z3.Real("g%d_%s" % (i, gen.name))

    def poly(self, p):
        # the C interface directly: large normal forms spend their time building terms
        if not p:
            return z3.RealVal(0)
        ctx = z3.main_ctx()
        ref = ctx.ref()
        keep = self.cache
        ts, mine = [], []
        for m, c in p.items():
            fs = []
            for i, e in mono_items(m):
                k = e // self.g[i]
                x = keep.get((i, k))
                if x is None:
                    v = self.v[i]
                    x = keep[i, k] = v if k == 1 else v ** k if k > 4 else z3.Product(*([v] * k))
                fs.append(x.ast)
            if c != 1 or not fs:
                x = keep.get(c)
                if x is None:
                    x = keep[c] = z3.RealVal(c)
                fs.insert(0, x.ast)
            if len(fs) == 1:
                ts.append(fs[0])
                continue
            t = _z3c.Z3_mk_mul(ref, len(fs), (z3.Ast * len(fs))(*fs))
            _z3c.Z3_inc_ref(ref, t)
            mine.append(t)
            ts.append(t)
        t = _z3c.Z3_mk_add(ref, len(ts), (z3.Ast * len(ts))(*ts)) if len(ts) > 1 else ts[0]
        out = z3.ArithRef(t, ctx)
        for t in mine:
            _z3c.Z3_dec_ref(ref, t)
        return out

    def axioms(self, c):
        out = []
        for i in self.g:
            gen, v = alg.T.gens[i], self.v[i]
            k = gen.kind
            if k == "var":
                lo, hi = gen.data
                if lo is not None:
                    out.append(v >= z3.RealVal(str(lo)))
                if hi is not None:
                    out.append(v <= z3.RealVal(str(hi)))
                if gen.pos and lo is None:
                    out.append(v > 0)
                if i in alg.T.red:
                    o, q = alg.T.red[i]
                    out.append(v ** o == self.poly(q))
            elif k == "pi":
                out += [v > z3.RealVal("3.14159265"), v < z3.RealVal("3.14159266")]
            elif k == "root":
                out.append(v > 0)
                g = self.g[i]
                if KR % g == 0 and KR // g <= 6:
                    out.append(v ** (KR // g) == self.poly(gen.data[1]))
            elif k == "pow":
                out.append(v > 0)
            elif k in ("sin", "cos"):
                out += [v >= -1, v <= 1]
                if i in alg.T.red:
                    out.append(v ** alg.T.red[i][0] == self.poly(alg.T.red[i][1]))
            elif gen.pos:
                out.append(v > 0)
            if k == "uf" and gen.data[0] == "erf":
                out += [v > -1, v < 1]
            if k == "uf" and gen.data[0] == "rint":
                x = gen.data[1][0]
                out.append(z3.IsInt(v))
                if not x.den:
                    out += [2 * self.poly(x.n) <= (2 * v + 1) * x.d, 2 * self.poly(x.n) >= (2 * v - 1) * x.d]
        return out


def _op(expr, op):
    if op == "==":
        return expr == 0
    if op == "!=":
        return expr != 0
    if op == "<":
        return expr < 0
    if op == "<=":
        return expr <= 0
    if op == ">":
        return expr > 0
    return expr >= 0


def atom_polys(op, r):
    """list of polynomials of  r op 0 : numerator * odd denominator factors (sign-relevant ones)"""
    ps = [r.n]
    if op not in ("==", "!="):
        for f, e in r.den:
            if e & 1 and psign(alg.T.factors[f][0]) != 1:
                ps.append(alg.T.factors[f][0])
    return ps


class Formula:
    """boolean combination of atoms (op, R); used for claims and path conditions"""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def __repr__(self):
        if self.kind == "atom":
            return "%s %s 0" % (alg.rstr(self.args[1])[:120], self.args[0])
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args)) if isinstance(self.args, (list, tuple)) and self.kind != "eqx" else self.args if self.kind == "const" else "..")

    def polys(self, out):
        if self.kind == "atom":
            op, r = self.args
            out.extend(atom_polys(op, r))
            for f, e in r.den:
                out.append(alg.T.factors[f][0])
        elif self.kind == "eqx":  # N1*D2 == N2*D1 kept as products
            for side in self.args:
                for p in side:
                    out.append(p)
        elif self.kind == "const":
            pass
        else:
            for a in self.args:
                a.polys(out)

    def z3(self, enc):
        if self.kind == "const":
            return z3.BoolVal(self.args)
        if self.kind == "atom":
            op, r = self.args
            ps = atom_polys(op, r)
            e = enc.poly(ps[0])
            for p in ps[1:]:
                e = e * enc.poly(p)
            return _op(e, op)
        if self.kind == "eqx":
            l, rr = self.args
            a = enc.poly(l[0])
            for p in l[1:]:
                a = a * enc.poly(p)
            b = enc.poly(rr[0])
            for p in rr[1:]:
                b = b * enc.poly(p)
            return a == b
        if self.kind == "not":
            return z3.Not(self.args[0].z3(enc))
        xs = [a.z3(enc) for a in self.args]
        return z3.And(*xs) if self.kind == "and" else z3.Or(*xs)

    def dens(self, out):
        if self.kind == "atom":
            for f, e in self.args[1].den:
                out.add(f)
        elif self.kind not in ("const", "eqx"):
            for a in self.args:
                a.dens(out)

    def evalf(self, env):
        k = self.kind
        if k == "const":
            return self.args
        if k == "atom":
            op, r = self.args
            v = evalf(r, env)
            if op in ("==", "!=") and abs(v) < 1e-12:
                # differences of small quantities are compared on their own scale
                terms = [abs(evalf(R({m: q}, 1, ()), env)) for m, q in r.n.items()]
                zero = sum(terms) >= 1e-3 or abs(_peval(r.n, env)) <= 1e-12 * sum(terms)
                return zero == (op == "==")
            return {"==": abs(v) < 1e-12, "!=": abs(v) >= 1e-12, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
        if k == "not":
            return not self.args[0].evalf(env)
        if k == "and":
            return all(a.evalf(env) for a in self.args)
        if k == "or":
            return any(a.evalf(env) for a in self.args)
        raise Unsupported("evalf " + k)


def F_atom(op, r):
    return Formula("atom", (op, r))


def F_not(f):
    return Formula("not", [f])


def F_and(*fs):
    fs = [f if isinstance(f, Formula) else Formula("const", bool(f)) for f in fs]
    return Formula("and", fs) if fs else Formula("const", True)


def F_or(*fs):
    fs = [f if isinstance(f, Formula) else Formula("const", bool(f)) for f in fs]
    return Formula("or", fs) if fs else Formula("const", False)


def _congruence(formulas, enc):
    """equal arguments give equal values of transcendental functions; needed when a path assumes equalities"""
    if not any(f.kind == "atom" and f.args[0] == "==" for f in formulas):
        return []
    groups = {}
    for i in list(enc.g):
        g = alg.T.gens[i]
        if g.kind == "log" and g.data[0] != "p":
            groups.setdefault("log", []).append((i, [R(alg.T.factors[g.data[1]][0], 1, ())]))
        elif g.kind == "pow" and (g.data[0] == "e" or g.data[0][0] == "p"):
            groups.setdefault(("pow", g.data[0], g.data[3]), []).append((i, [R({g.data[1]: 1}, 1, g.data[2])]))
        elif g.kind in ("sin", "cos"):
            groups.setdefault(g.kind, []).append((i, [g.data]))
        elif g.kind == "uf":
            groups.setdefault(("uf", g.data[0], len(g.data[1])), []).append((i, list(g.data[1])))
    out = []
    for gs in groups.values():
        for k, (i, a) in enumerate(gs):
            for j, b in gs[:k]:
                if len(out) < 80 and all(isinstance(x, R) and isinstance(y, R) for x, y in zip(a, b)):
                    eqs = [alg.radd(x, y, -1) for x, y in zip(a, b)]
                    if sum(len(e.n) for e in eqs) <= 60:
                        for e in eqs:
                            enc.scan(e.n)
                        out.append((i, j, [e.n for e in eqs]))
    return out


def solve(formulas, c, tmo=None, fix=None, want_model=False):
    """z3 on the conjunction; returns ('sat'|'unsat'|'unknown', {genindex: Fraction})"""
    enc = Enc()
    polys = []
    for f in formulas:
        f.polys(polys)
    for p in polys:
        enc.scan(p)
    cong = _congruence(formulas, enc)
    enc.close()
    s = z3.Solver()
    s.set("timeout", int(tmo or c.tmo))
    for a in enc.axioms(c):
        s.add(a)
    for i, j, eqs in cong:
        if enc.g[i] == enc.g[j]:
            s.add(z3.Implies(z3.And(*[enc.poly(d) == 0 for d in eqs]), enc.v[i] == enc.v[j]))
    dens = set()
    for f in formulas:
        f.dens(dens)
    for d in dens:
        p = alg.T.factors[d][0]
        if psign(p) == 0:
            s.add(enc.poly(p) != 0)
    for f in formulas:
        s.add(f.z3(enc))
    if fix:
        for i, val in fix.items():
            if i in enc.v:
                s.add(enc.v[i] == z3.RealVal(str(val)))
    t = time.time()
    r = s.check()
    c.stats["queries"] += 1
    c.stats["z3_s"] += time.time() - t
    if r == z3.unsat:
        return "unsat", None
    if r == z3.unknown:
        c.stats["unknown"] += 1
        return "unknown", None
    m = s.model()
    out = {}
    for i, v in enc.v.items():
        val = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(val):
            val = val.approx(20)
        try:
            out[i] = Fraction(val.numerator_as_long(), val.denominator_as_long())
        except Exception:
            pass
    return "sat", out


# ------------------------------------------------------------------ numeric evaluation
def evalf(r, env):
    def pv(p):
        s = 0.0
        for m, c in p.items():
            t = float(c) if abs(c) < 10**300 else c
            for i, e in mono_items(m):
                t *= gval(i) ** e
            s += t
        return s

    def gval(i):
        v = env.get(i)
        if v is None:
            v = geval(alg.T.gens[i], env)
            env[i] = v
        return v

    v = pv(r.n) / r.d
    for f, e in r.den:
        v /= pv(alg.T.factors[f][0]) ** e
    return v


def _peval(p, env):
    return evalf(R(p, 1, ()), env)


def geval(g, env):
    k = g.kind
    if k == "pi":
        return math.pi
    if k == "root":
        return _peval(g.data[1], env) ** (1.0 / KR)
    if k == "pow":
        base, m, den, gran = g.data
        x = evalf(R({m: 1}, 1, den), env)
        b = math.e if base == "e" else float(base[1]) if base[0] == "p" else abs(_peval(alg.T.factors[base[1]][0], env))
        return b ** (x / KR if gran == 1 else x * float(gran))
    if k == "log":
        b = g.data
        return math.log(float(b[1])) if b[0] == "p" else math.log(abs(_peval(alg.T.factors[b[1]][0], env)))
    if k == "sin":
        return math.sin(evalf(g.data, env))
    if k == "cos":
        return math.cos(evalf(g.data, env))
    if k == "uf":
        name, args = g.data[0], g.data[1]
        import scipy.special as ss
        import scipy.stats as st

        xs = [evalf(a, env) for a in args]
        fn = {
            "erf": lambda x: math.erf(x), "arccos": lambda x: math.acos(x), "arctan2": lambda y, x: math.atan2(y, x),
            "jn": lambda n, x: float(ss.jn(n, x)), "ndtri": lambda x: float(st.norm.ppf(x)),
            "powc": lambda b, e: b ** e, "rint": lambda x: float(round(x)), "floor": math.floor,
            "invgamma_pdf": lambda x, a, sc: float(st.invgamma.pdf(x, a, scale=sc)),
            "arcsin": math.asin, "arctan": math.atan, "gamma": lambda x: float(ss.gamma(x)),
        }.get(name)
        if fn is None:
            raise Unsupported("no numeric value for " + name)
        return fn(*xs)
    raise Unsupported("no value for generator " + g.name)


# ------------------------------------------------------------------ signs and branching
def gsign(i):
    g = alg.T.gens[i]
    return 1 if g.pos else 0


def psign(p):
    """1 / -1 if the polynomial is certainly positive / negative, else 0"""
    if not p:
        return 0
    s = 0
    strict = False
    for m, c in p.items():
        t = 1 if c > 0 else -1
        st = True
        for i, e in mono_items(m):
            if not gsign(i):
                if e & 1:
                    return 0
                st = False
        if s and t != s:
            return 0
        s = t
        strict = strict or st
    return s if strict else 0


def rsign(r):
    s = psign(r.n)
    if not s:
        return 0
    for f, e in r.den:
        t = psign(alg.T.factors[f][0])
        if e & 1:
            s *= t
            if not s:
                return 0
    return s


def has_vars(r):
    seen = set()

    def pol(p):
        for m in p:
            for i, _ in mono_items(m):
                if i not in seen:
                    seen.add(i)
                    if gen(i):
                        return True
        return False

    def rr(a):
        return pol(a.n) or any(pol(alg.T.factors[f][0]) for f, e in a.den)

    def gen(i):
        g = alg.T.gens[i]
        if g.kind == "var":
            return True
        if g.kind == "pi":
            return False
        if g.kind == "root":
            return pol(g.data[1])
        if g.kind == "pow":
            return pol({g.data[1]: 1}) or any(pol(alg.T.factors[f][0]) for f, e in g.data[2]) or (
                g.data[0] != "e" and g.data[0][0] == "f" and pol(alg.T.factors[g.data[0][1]][0]))
        if g.kind == "log":
            return g.data[0] == "f" and pol(alg.T.factors[g.data[1]][0])
        if g.kind in ("sin", "cos"):
            return rr(g.data)
        if g.kind == "uf":
            return any(rr(a) for a in g.data[1])
        return True

    return rr(r)


def _holds(op, s):
    return {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", "<=": ">", ">": "<="}


def branch(op, r):
    """decide  r op 0  on the current path (forking if both outcomes are possible)"""
    if r.is_const():
        q = r.const()
        return _holds(op, (q > 0) - (q < 0))
    s = rsign(r)
    if s:
        return _holds(op, s)
    c = ctx()
    if c is None:
        if not has_vars(r):
            return _holds(op, evalf(r, {}))
        raise Unsupported("branch outside a run")
    if op in (">", ">="):
        r, op = rneg(r), {">": "<", ">=": "<="}[op]
    flip = False
    if op == "!=":
        op, flip = "==", True
    if op == "==":
        # canonical sign
        if r.n[max(r.n)] < 0:
            r = rneg(r)
        r = R(r.n, 1, ())
        g = alg.pcontent(r.n)
        if g != 1:
            r = R({m: v // g for m, v in r.n.items()}, 1, ())
    key = (op, r.key())
    hit = c.cache.get(key)
    if hit is None:
        if not has_vars(r):
            v = evalf(r, {})
            hit = _holds(op, v if abs(v) > 1e-13 else 0)
        else:
            hit = _decide(c, op, r)
        c.cache[key] = hit
    return hit != flip


def _decide(c, op, r):
    pos = len(c.trace)
    f = F_atom(op, r)
    if pos < len(c.prefix):
        out = c.prefix[pos]
        c.trace.append(out)
        c.pc.append(f if out else F_not(f))
        return out
    st, _ = solve(c.pc + [f], c)
    sf, _ = solve(c.pc + [F_not(f)], c)
    if st == "unsat" and sf == "unsat":
        raise Infeasible()
    if st == "unsat" or sf == "unsat":
        # implied: recorded so that replays of this path stay aligned, but nothing to explore
        c.trace.append(sf == "unsat")
        return sf == "unsat"
    c.stats["forks"] += 1
    c.trace.append(True)
    c.todo.append(c.trace[:-1] + [False])
    c.pc.append(f)
    if c.stats["forks"] > 400:
        raise PathLimit("too many decisions")
    return True


def assume(f):
    c = ctx()
    c.pc.append(f)
    c.cache.clear()
    st, _ = solve(c.pc, c)
    if st == "unsat":
        raise Infeasible()


# ------------------------------------------------------------------ transcendental operations
def factor_sign(fid):
    p = alg.T.factors[fid][0]
    s = psign(p)
    if s:
        return s
    return 1 if branch(">", R(p, 1, ())) else -1


def root_gen(key, poly, name):
    g = alg.T.gen(("root", key), name, "root", (key, poly), True)
    if g.i not in alg.T.red:
        alg.T.add_red(g, KR, poly)
    return g


def const_pow(q, e):
    """positive rational q ** rational e"""
    k = e * KR
    if k.denominator != 1:
        return uf("powc", [rconst(q), rconst(e)], True)
    k = int(k)
    r = rconst(1)
    pf = dict(alg.prime_factors(q.numerator))
    for p, m in alg.prime_factors(q.denominator).items():
        pf[p] = pf.get(p, 0) - m
    for p, m in sorted(pf.items()):
        t = m * k
        w, rem = divmod(t, KR)
        if w:
            r = rmul(r, rconst(Fraction(p) ** w))
        if rem:
            g = root_gen(("p", p), {0: p}, "rt%d" % p)
            r = rmul(r, R({g.mono * rem: 1}, 1, ()))
    return r


def r_pow_const(a, e):
    if e.denominator == 1:
        return rpow_int(a, int(e))
    if not a.n:
        if e > 0:
            return rconst(0)
        raise ZeroDivisionError
    if a.is_const():
        q = a.const()
        if q < 0:
            raise Unsupported("fractional power of a negative number")
        return const_pow(q, e)
    k = e * KR
    if k.denominator != 1:
        return uf("powc", [a, rconst(e)], True)
    k = int(k)
    c, fs = rfactors(a)
    r = const_pow(abs(c), e)
    sgn = 1 if c > 0 else -1
    for f, m in sorted(fs.items()):
        t = m * k
        p = alg.T.factors[f][0]
        gi = None
        if len(p) == 1:
            ((mm, _),) = p.items()
            gi = (mm.bit_length() - 1) // SH
        g0 = alg.T.gens[gi] if gi is not None else None
        if g0 is not None and g0.kind in ("root", "pow") and t % KR:
            # (x**(1/60))**(t/60): only when divisible
            if t % KR == 0:
                r = rmul(r, rpow_int(rgen(g0), t // KR))
                continue
            raise Unsupported("nested fractional power")
        w, rem = divmod(t, KR)
        s = 1
        if rem or (m % 2 and w % 2 and False):
            s = factor_sign(f)
            g = root_gen(("f", f), p if s > 0 else {x: -y for x, y in p.items()}, "rt(f%d)" % f)
            r = rmul(r, R({g.mono * rem: 1}, 1, ()))
            if w:
                r = rmul(r, rpow_int(R(p if s > 0 else {x: -y for x, y in p.items()}, 1, ()), w))
        elif w:
            # |f|**w
            if w % 2:
                s = factor_sign(f)
            r = rmul(r, rpow_int(R(p if s > 0 else {x: -y for x, y in p.items()}, 1, ()), w))
    return r


def r_sqrt(a):
    # roots of atoms: merge exponents first
    if a.n and not a.is_const():
        q = _atom_root(a, Fraction(1, 2))
        if q is not None:
            return q
    return r_pow_const(a, Fraction(1, 2))


def _atom_root(a, e):
    """a = c * prod(atom**k) * rest ; take root splitting atom exponents when divisible"""
    c, fs = rfactors(a)
    r = None
    rest = {}
    for f, m in fs.items():
        p = alg.T.factors[f][0]
        if len(p) == 1:
            ((mm, _),) = p.items()
            g = alg.T.gens[(mm.bit_length() - 1) // SH]
            if g.kind in ("root", "pow"):
                k = m * e
                if k.denominator != 1:
                    if g.kind == "root" and g.data[0][0] == "f":
                        raise Unsupported("nested fractional power")
                    raise Unsupported("root granularity")
                t = rpow_int(rgen(g), int(k))
                r = t if r is None else rmul(r, t)
                continue
        rest[f] = m
    if r is None:
        return None
    b = rconst(c)
    for f, m in rest.items():
        b = rmul(b, rpow_int(R(alg.T.factors[f][0], 1, ()), m))
    return rmul(r, r_pow_const(b, e))


def r_log(a):
    if not a.n:
        raise ZeroDivisionError("log(0)")
    c, fs = rfactors(a)
    r = rconst(0)
    c = abs(c)
    pf = dict(alg.prime_factors(c.numerator))
    for p, m in alg.prime_factors(c.denominator).items():
        pf[p] = pf.get(p, 0) - m
    for p, m in sorted(pf.items()):
        if m:
            g = alg.T.gen(("log", ("p", p)), "ln%d" % p, "log", ("p", p), True)
            r = radd(r, rmul(rconst(m), rgen(g)))
    for f, m in sorted(fs.items()):
        p = alg.T.factors[f][0]
        if len(p) == 1:
            ((mm, _),) = p.items()
            g = alg.T.gens[(mm.bit_length() - 1) // SH]
            if g.kind == "root":
                b = g.data[0]
                r = radd(r, rmul(rconst(Fraction(m, KR)), r_log(R(g.data[1], 1, ()))))
                continue
            if g.kind == "pow":
                base, mo, den, gran = g.data
                x = R({mo: 1}, 1, den)
                co = Fraction(m, KR) if gran == 1 else m * gran
                lb = rconst(1) if base == "e" else log_of_base(base)
                r = radd(r, rmul(rmul(rconst(co), x), lb))
                continue
        g = alg.T.gen(("log", ("f", f)), "ln(f%d)" % f, "log", ("f", f))
        r = radd(r, rmul(rconst(m), rgen(g)))
    return r


def log_of_base(base):
    if base[0] == "p":
        return rgen(alg.T.gen(("log", base), "ln%d" % base[1], "log", base, True))
    return rgen(alg.T.gen(("log", base), "ln(f%d)" % base[1], "log", base))


def r_exp(z):
    if not z.n:
        return rconst(1)
    r = rconst(1)
    for m, cf in sorted(z.n.items()):
        co = Fraction(cf, z.d)
        logs = [(i, e) for i, e in mono_items(m) if alg.T.gens[i].kind == "log"]
        base = "e"
        mo = m
        if len(logs) == 1 and logs[0][1] == 1:
            i = logs[0][0]
            base = alg.T.gens[i].data
            mo = m - alg.T.gens[i].mono
            if mo == 0 and not z.den:
                if base[0] == "p":
                    r = rmul(r, const_pow(Fraction(base[1]), co))
                else:
                    p = alg.T.factors[base[1]][0]
                    if co.denominator == 1 and co % 2 == 0:
                        r = rmul(r, rpow_int(R(p, 1, ()), int(co)))
                    else:
                        s = factor_sign(base[1])
                        q = R(p, 1, ()) if s > 0 else R({x: -y for x, y in p.items()}, 1, ())
                        r = rmul(r, r_pow_const(q, co))
                continue
        k = co * KR
        if k.denominator == 1:
            key, gran, k = ("pow", base, mo, z.den, 1), 1, int(k)
        else:
            key, gran, k = ("pow", base, mo, z.den, abs(co)), abs(co), (1 if co > 0 else -1)
        bname = "e" if base == "e" else str(base[1]) if base[0] == "p" else "f%d" % base[1]
        g = alg.T.gen(key, "%s^(%s)" % (bname, alg.pstr({mo: 1})), "pow", (base, mo, z.den, gran), True)
        r = rmul(r, rpow_int(rgen(g), k))
    return r


def r_pow(a, b):
    if b.is_const():
        e = b.const()
        if e.denominator != 1 and a.n and not a.is_const():
            q = _atom_root(a, e)
            if q is not None:
                return q
        return r_pow_const(a, e)
    if not a.n:
        raise Unsupported("0 ** symbolic")
    if a.is_const() and a.const() == 1:
        return rconst(1)
    if rsign(a) != 1:
        if not branch(">", a):
            raise Unsupported("symbolic power of a non-positive base")
    return r_exp(rmul(b, r_log(a)))


def uf(name, args, pos=False):
    key = ("uf", name) + tuple(a.key() for a in args)
    g = alg.T.gen(key, "%s(%s)" % (name, ",".join(rstr(a)[:20] for a in args)), "uf", (name, args), pos)
    return rgen(g)


_PI12 = {
    # multiples of pi/12 -> sin as (rational, radicand)
    0: (0, 1), 2: (Fraction(1, 2), 1), 3: (Fraction(1, 2), 2), 4: (Fraction(1, 2), 3), 6: (1, 1),
}


def _sin_pi(q):
    """sin(q*pi) for rational q if tabulated"""
    t = q * 12
    if t.denominator != 1:
        return None
    t = int(t) % 24
    s = 1
    if t >= 12:
        t -= 12
        s = -1
    if t > 6:
        t = 12 - t
    if t not in _PI12:
        return None
    c, rad = _PI12[t]
    return rmul(rconst(Fraction(c) * s), const_pow(Fraction(rad), Fraction(1, 2)))


def trig(a):
    """(sin a, cos a)"""
    if not a.n:
        return rconst(0), rconst(1)
    # pi multiples
    pim = alg.PI.mono
    if not a.den and pim in a.n:
        q = Fraction(a.n[pim], a.d)
        rest = {m: v for m, v in a.n.items() if m != pim}
        if not rest:
            s, c = _sin_pi(q), _sin_pi(q + Fraction(1, 2))
            if s is not None and c is not None:
                return s, c
        elif (q * 2).denominator == 1:
            s0, c0 = _sin_pi(q), _sin_pi(q + Fraction(1, 2))
            s1, c1 = trig(alg.mk(rest, a.d, ()))
            return radd(rmul(s1, c0), rmul(c1, s0)), radd(rmul(c1, c0), rmul(s1, s0), -1)
    # inverse functions
    if not a.den and a.d == 1 and len(a.n) == 1:
        ((m, v),) = a.n.items()
        if v == 1 and m & (m - 1) == 0 and (m.bit_length() - 1) % SH == 0:
            g = alg.T.gens[(m.bit_length() - 1) // SH]
            if g.kind == "uf" and g.data[0] == "arccos":
                x = g.data[1][0]
                return r_sqrt(radd(rconst(1), rmul(x, x), -1)), x
            if g.kind == "uf" and g.data[0] == "arcsin":
                x = g.data[1][0]
                return x, r_sqrt(radd(rconst(1), rmul(x, x), -1))
    c = ctx()
    if c is not None and c.expand_trig and len(a.n) > 1:
        items = sorted(a.n.items())
        m0, v0 = items[0]
        first = alg.mk({m0: v0}, a.d, a.den)
        second = alg.mk(dict(items[1:]), a.d, a.den)
        s0, c0 = trig(first)
        s1, c1 = trig(second)
        return radd(rmul(s0, c1), rmul(c0, s1)), radd(rmul(c0, c1), rmul(s0, s1), -1)
    neg = a.n[max(a.n)] < 0
    if neg:
        a = rneg(a)
    if c is not None and c.expand_trig:
        cc = alg.pcontent(a.n)
        if cc > 1 and cc <= 12:
            half, other = cc // 2, cc - cc // 2
            u = R({m: v // cc for m, v in a.n.items()}, a.d, a.den)
            s0, c0 = trig(rmul(rconst(half), u))
            s1, c1 = trig(rmul(rconst(other), u))
            s = radd(rmul(s0, c1), rmul(c0, s1))
            co = radd(rmul(c0, c1), rmul(s0, s1), -1)
            return (rneg(s) if neg else s), co
    k = a.key()
    cg = alg.T.gen(("cos", k), "cos(%s)" % rstr(a)[:30], "cos", a)
    sg = alg.T.gen(("sin", k), "sin(%s)" % rstr(a)[:30], "sin", a)
    if sg.i not in alg.T.red:
        alg.T.add_red(sg, 2, {0: 1, 2 * cg.mono: -1})
    s, co = rgen(sg), rgen(cg)
    return (rneg(s) if neg else s), co


# ------------------------------------------------------------------ scalars
def lift(x):
    if isinstance(x, Sym):
        return x.r
    t = type(x)
    if t is int or t is bool:
        return rconst(int(x))
    if t is float:
        return rconst(snap(x))
    if isinstance(x, Fraction):
        return rconst(x)
    import numpy as np

    if isinstance(x, (np.bool_, np.integer)):
        return rconst(int(x))
    if isinstance(x, np.floating):
        return rconst(snap(float(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def _bin(fn):
    def f(self, o):
        if type(o) is np.ndarray and o.ndim == 0:
            o = o.item()
        if isinstance(o, (SymC, complex)):
            return NotImplemented if isinstance(o, SymC) else getattr(SymC(self, 0), fn.cname)(o)
        if isinstance(o, float) and not math.isfinite(o):
            return _with_inf(fn.cname, self, o, False)
        b = lift(o)
        if b is None:
            return NotImplemented
        if fn is _rdiv and not b.n and not self.r.n:
            return math.nan
        return Sym(fn(self.r, b))

    return f


def _rbin(fn):
    def f(self, o):
        if type(o) is np.ndarray and o.ndim == 0:
            o = o.item()
        if isinstance(o, (SymC, complex)):
            return NotImplemented if isinstance(o, SymC) else getattr(SymC(o.real, o.imag), fn.cname)(SymC(self, 0))
        if isinstance(o, float) and not math.isfinite(o):
            return _with_inf(fn.cname, self, o, True)
        b = lift(o)
        if b is None:
            return NotImplemented
        if fn is _rdiv and not b.n and not self.r.n:
            return math.nan
        return Sym(fn(b, self.r))

    return f


def _with_inf(op, x, inf, right):
    """x op inf (or inf op x when right), for finite x; nan propagates"""
    if inf != inf:
        return inf
    if op == "__add__":
        return inf
    if op == "__sub__":
        return inf if right else -inf
    if op == "__truediv__" and not right:
        return Sym(rconst(0))
    if op == "__mul__" and not x.r.n:
        return math.nan
    raise Unsupported("infinity in " + op)


def _sub(a, b):
    return radd(a, b, -1)


def _rdiv(a, b):
    if not b.n:
        raise ZeroDivisionError("division by zero")
    return rdiv(a, b)


def _add(a, b):
    return radd(a, b)


def _mul(a, b):
    return rmul(a, b)


def _pow(a, b):
    return r_pow(a, b)


_add.cname, _sub.cname, _mul.cname, _rdiv.cname, _pow.cname = "__add__", "__sub__", "__mul__", "__truediv__", "__pow__"


def _cmp(op):
    def f(self, o):
        if isinstance(o, float) and o != o:
            return op == "!="
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return _holds(op, -1 if o > 0 else 1)
        b = lift(o)
        if b is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        return branch(op, radd(self.r, b, -1))

    return f


class Sym:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __hash__(self):
        return 7919

    __add__, __radd__ = _bin(_add), _rbin(_add)
    __sub__, __rsub__ = _bin(_sub), _rbin(_sub)
    __mul__, __rmul__ = _bin(_mul), _rbin(_mul)
    __truediv__, __rtruediv__ = _bin(_rdiv), _rbin(_rdiv)
    __pow__, __rpow__ = _bin(_pow), _rbin(_pow)
    __eq__, __ne__ = _cmp("=="), _cmp("!=")
    __lt__, __le__, __gt__, __ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")

    def __neg__(self):
        return Sym(rneg(self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __bool__(self):
        return branch("!=", self.r)

    def __float__(self):
        if not has_vars(self.r):
            return float(self.r.const()) if self.r.is_const() else evalf(self.r, {})
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if not has_vars(self.r):
            return int(float(self))
        # truncation toward zero of a symbolic value: bounded search by forking
        v = self if self >= 0 else -self
        for k in range(64):
            if v < k + 1:
                return k if v is self else -k
        raise Unsupported("int() of an unbounded symbolic value")

    def __index__(self):
        if self.r.is_const() and self.r.const().denominator == 1:
            return int(self.r.const())
        raise TypeError("symbolic value used as an index")

    def __floor__(self):
        if self.r.is_const():
            return math.floor(self.r.const())
        k = int(self)
        return k if self >= k else k - 1

    def __ceil__(self):
        f = self.__floor__()
        return f if self == f else f + 1

    def __round__(self, n=None):
        if n:
            q = Sym(rconst(Fraction(10) ** int(n)))
            y = self * q
            if y.r.is_const():
                return Sym(rconst(round(y.r.const()))) / q
            # the nearest integer as a symbolic value (see Enc.axioms)
            return Sym(uf("rint", [y.r])) / q
        k = (self * 2 + 1).__floor__()
        return k // 2

    def __floordiv__(self, o):
        return Sym(rconst((self / o).__floor__()))

    def __rfloordiv__(self, o):
        return Sym(rconst((o / self).__floor__()))

    def __mod__(self, o):
        return self - (self / o).__floor__() * o

    def __repr__(self):
        return "<%s>" % rstr(self.r)

    def __str__(self):
        if not has_vars(self.r):
            return repr(float(self))
        return repr(self)

    def __format__(self, spec):
        return str(self)

    # attributes numpy / callers use on scalars
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(rconst(0))

    def conjugate(self):
        return self

    def conj(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def squeeze(self):
        return self

    def sum(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling symbolic values")

    # ufunc object loops
    def sqrt(self):
        return Sym(r_sqrt(self.r))

    def cbrt(self):
        return Sym(r_pow_const(self.r, Fraction(1, 3)))

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def exp(self):
        return Sym(r_exp(self.r))

    def log(self):
        if not self.r.n:
            return -math.inf
        return Sym(r_log(self.r))

    def log10(self):
        return Sym(rdiv(r_log(self.r), r_log(rconst(10))))

    def log2(self):
        return Sym(rdiv(r_log(self.r), r_log(rconst(2))))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def exp2(self):
        return 2 ** self

    def sin(self):
        return Sym(trig(self.r)[0])

    def cos(self):
        return Sym(trig(self.r)[1])

    def tan(self):
        s, c = trig(self.r)
        return Sym(rdiv(s, c))

    def arccos(self):
        return Sym(_inv_trig("arccos", self.r))

    def arcsin(self):
        return Sym(_inv_trig("arcsin", self.r))

    def arctan(self):
        return Sym(uf("arctan", [self.r]))

    def arctan2(self, o):
        return Sym(uf("arctan2", [self.r, lift(o)]))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def rint(self):
        if self.r.is_const():
            return Sym(rconst(round(self.r.const())))
        return Sym(rconst(self.__round__()))

    def floor(self):
        return Sym(rconst(self.__floor__()))

    def ceil(self):
        return Sym(rconst(self.__ceil__()))

    def fabs(self):
        return abs(self)

    def deg2rad(self):
        return self * Sym(rgen(alg.PI)) / 180

    radians = deg2rad

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def sign(self):
        return 1 if self > 0 else (0 if self == 0 else -1)


def _inv_trig(name, x):
    if x.is_const():
        q = x.const()
        t = {("arccos", 0): Fraction(1, 2), ("arccos", 1): Fraction(0), ("arccos", -1): Fraction(1),
             ("arccos", Fraction(1, 2)): Fraction(1, 3), ("arcsin", 0): Fraction(0), ("arcsin", 1): Fraction(1, 2),
             ("arcsin", -1): Fraction(-1, 2)}.get((name, q))
        if t is not None:
            return rmul(rconst(t), rgen(alg.PI))
    return uf(name, [x])


class SymC:
    """complex number with symbolic parts"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, complex):
            return SymC(Sym(rconst(snap(x.real))), Sym(rconst(snap(x.imag))))
        r = lift(x)
        if r is None:
            return None
        return SymC(Sym(r), Sym(rconst(0)))

    def __add__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SymC.of(o) - self

    def __mul__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * SymC(o.re, -o.im)
        return SymC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pow__(self, k):
        r = SymC.of(1)
        for _ in range(int(k)):
            r = r * self
        return r

    @property
    def real(self):
        return self.re if isinstance(self.re, Sym) else Sym(lift(self.re))

    @property
    def imag(self):
        return self.im if isinstance(self.im, Sym) else Sym(lift(self.im))

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    def __eq__(self, o):
        o = SymC.of(o)
        return bool(self.re == o.re) and bool(self.im == o.im)

    def __hash__(self):
        return 7919

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def __repr__(self):
        return "(%r + %rj)" % (self.re, self.im)


def const(x):
    return Sym(lift(x))
