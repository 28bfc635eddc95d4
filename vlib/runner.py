"""Explores every path of every harness instance, discharges the claims with z3 and
replays counterexamples on the real code."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import alg, harness, load, shim, sym
from .alg import R, radd, rconst, rgen, rmul
from .sym import Ctx, F_and, F_atom, F_not, F_or, Formula, Infeasible, PathLimit, Unsupported, evalf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ----------------------------------------------------------------------------- claims
def logform(d):
    """difference linear in logs with rational coefficients: return (list[(poly, Fraction)], rest)"""
    logs = {}
    rest = {}
    if d.den:
        # group by logarithm; every log coefficient must reduce to a constant, the rest to zero
        parts = {}
        for m, c in d.n.items():
            gl = [(i, e) for i, e in alg.mono_items(m) if alg.T.gens[i].kind == "log"]
            if len(gl) > 1 or (gl and gl[0][1] != 1):
                return None
            i = gl[0][0] if gl else -1
            parts.setdefault(i, {})[m - (alg.T.gens[i].mono if gl else 0)] = c
        for i, p in parts.items():
            n2, den2 = alg._cancel(p, d.den)
            r = alg.mk(n2, d.d, den2)
            if i < 0:
                if r.n:
                    return None
            elif not r.is_const():
                return None
            elif r.n:
                logs[i] = r.const()
        return logs, rest
    for m, c in d.n.items():
        gl = [(i, e) for i, e in alg.mono_items(m) if alg.T.gens[i].kind == "log"]
        if not gl:
            rest[m] = c
            continue
        if len(gl) != 1 or gl[0][1] != 1 or m != alg.T.gens[gl[0][0]].mono:
            return None
        logs[gl[0][0]] = Fraction(c, d.d)
    return logs, rest


def product_identity(d):
    """sum q_i log F_i == 0  as  prod F^(q+ L)  ==  prod F^(q- L)  (R difference) or None"""
    lf = logform(d)
    if lf is None:
        return None
    logs, rest = lf
    if rest or not logs:
        return None
    L = 1
    for q in logs.values():
        L = L * q.denominator // math.gcd(L, q.denominator)
    lhs = rhs = rconst(1)
    for i, q in logs.items():
        b = alg.T.gens[i].data
        p = {0: b[1]} if b[0] == "p" else alg.T.factors[b[1]][0]
        if b[0] != "p":
            s = sym.psign(p)
            if s == 0:
                key = ("<", R(p, 1, ()).key())
                if Ctx.cur.cache.get(key) is True:
                    s = -1
        k = int(q * L)
        t = alg.rpow_int(R(p, 1, ()), abs(k))
        if k > 0:
            lhs = rmul(lhs, t)
        else:
            rhs = rmul(rhs, t)
    # compare squares so that signs of the factors are irrelevant (log|F|)
    return radd(rmul(lhs, lhs), rmul(rhs, rhs), -1), lhs, rhs


def eq_formula(a, b):
    """a == b kept as cross products so that the solver does the normalisation"""
    la, lb = [a.n], [b.n]
    if a.d != 1:
        lb.append({0: a.d})
    if b.d != 1:
        la.append({0: b.d})
    da, db = dict(a.den), dict(b.den)
    for f in set(da) | set(db):
        x, y = da.get(f, 0), db.get(f, 0)
        p = alg.T.factors[f][0]
        la += [p] * max(0, y - x)
        lb += [p] * max(0, x - y)
    return Formula("eqx", (la, lb))


def _cost(ps):
    t = 1
    for p in ps:
        t *= max(1, len(p))
    return t


class PathResult:
    def __init__(self):
        self.status = "ok"
        self.detail = ""
        self.violations = []
        self.inconclusive = []
        self.nclaims = 0
        self.witness = None


def sample_env(c, rnd, pcs, tries=200):
    """numeric assignment (gen index -> float) satisfying the path condition, or None"""
    for k in range(tries):
        env = {}
        for name, (g, s) in c.vars.items():
            env[g.i] = rnd.uniform(float(s[0]), float(s[1]))
        _derive(c, env)
        try:
            if all(f.evalf(env_) for env_ in (dict(env),) for f in pcs):
                return env
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            continue
    return None


def _derive(c, env):
    if c.derived:
        byname = {name: env.get(g.i) for name, (g, s) in c.vars.items()}
        for name, fn in c.derived.items():
            try:
                v = fn(byname)
                if isinstance(v, complex):
                    continue
                env[c.vars[name][0].i] = v
            except Exception:
                pass


def names_env(c, env):
    return {name: float(env[g.i]) for name, (g, s) in c.vars.items() if g.i in env}


_CHECKS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks") + os.sep


def private_in_check(e):
    """check code (not the repository's) reading an underscored attribute that is no longer there: a matter of
    how the code is written, not of what it does, so no verdict follows from it"""
    name = getattr(e, "name", None) or ""
    tb = traceback.extract_tb(e.__traceback__)
    while tb and tb[-1].name == "__getattr__":
        tb.pop()
    return name.startswith("_") and not name.startswith("__") and bool(tb) and os.path.abspath(tb[-1].filename).startswith(_CHECKS)


def run_concrete(inst, env, choices, seed=0):
    E = harness.RealEnv(env, choices, rtol=inst.kw.get("rtol", 1e-6), seed=seed)
    E.start()
    err = None
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                inst.fn(E)
    except Infeasible:
        err = "infeasible"
    except Unsupported as e:
        err = "unsupported: %s" % e
    except AttributeError as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = "".join(traceback.format_exception_only(type(e), e)).strip()
        # (a failure recorded before the missing name was read stands)
        if not private_in_check(e):
            E.failures.append(("exception", 0, err, "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-3:])))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = "".join(traceback.format_exception_only(type(e), e)).strip()
        E.failures.append(("exception", 0, err, "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-3:])))
    finally:
        E.unpatch()
    return E, err


def spread(c, rnd, model, k):
    """candidate assignment: k=0 the model, then model values with sampled others, then samples"""
    env = {}
    for name, (g, s) in c.vars.items():
        v = model.get(g.i) if model else None
        x = rnd.uniform(float(s[0]), float(s[1]))
        if k == 0:
            env[g.i] = float(v) if v is not None else x
        else:
            env[g.i] = x
    _derive(c, env)
    return env


def run_instance(inst, tier, deadline, seed=1):
    t0 = time.time()
    out = dict(instance=inst.name, prop=inst.prop, paths=0, queries=0, z3_s=0.0, unknown=0, claims=0, normalised=0, forks=0,
               infeasible=0, validated=0, mismatches=[], violations=[], inconclusive=[], reached=0, unreached=0, samples=[],
               bounds=inst.kw.get("bounds", ""), labels={}, symcompared=0, functions=[])
    maxpaths = inst.kw.get("maxpaths", 400)
    work = [[]]
    rnd = random.Random(seed * 7919 + 13)
    seen_viol = set()
    done = 0
    while work:
        if time.time() > deadline:
            out["inconclusive"].append("time limit with %d paths pending" % len(work))
            break
        if out["paths"] >= maxpaths:
            out["inconclusive"].append("path limit %d" % maxpaths)
            break
        prefix = work.pop()
        shim.reset()
        c = Ctx(prefix)
        c.derived, c.choices = {}, {}
        c.expand_trig = inst.kw.get("expand_trig", False)
        c.tmo = inst.kw.get("qtmo", 3000)
        Ctx.cur = c
        E = harness.SymEnv(c, inst.kw.get("extra"))
        exc = None
        import warnings

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                inst.fn(E)
        except Infeasible:
            out["infeasible"] += 1
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
                print("infeasible path", c.trace, [str(f) for f in c.pc], file=sys.stderr)
            work.extend(c.todo)
            _acc(out, c)
            continue
        except PathLimit as e:
            out["inconclusive"].append("path decisions: %s" % e)
            work.extend(c.todo)
            continue
        except (Unsupported, alg.AlgError) as e:
            exc = ("unsupported", "%s: %s @ %s" % (type(e).__name__, e, _where(e)))
        except RecursionError as e:
            exc = ("unsupported", "recursion")
        except AttributeError as e:
            exc = ("unsupported" if private_in_check(e) else "raised", "%s: %s @ %s" % (type(e).__name__, e, _where(e)))
        except Exception as e:
            exc = ("raised", "%s: %s @ %s" % (type(e).__name__, e, _where(e)))
        finally:
            E.unpatch()
        work.extend(c.todo)
        out["paths"] += 1
        if os.environ.get("VERIF_TRACE"):
            print("path", out["paths"], "t=%.1f" % (time.time() - t0), "claims", len(E.claims), "pc", len(c.pc), "trace", c.trace, exc or "", file=sys.stderr)
        try:
            check_path(inst, c, E, exc, out, rnd, seen_viol, deadline)
        except (Unsupported, alg.AlgError) as e:
            out["inconclusive"].append("claim check: %s" % e)
        _acc(out, c)
        if len(seen_viol) >= 3:
            break
    Ctx.cur = None
    out["wall_s"] = time.time() - t0
    out["functions"] = sorted(load.ENCODED)
    if not out["violations"] and not out["inconclusive"]:
        if not out["claims"]:
            out["inconclusive"].append("vacuous: no claim reached")
        elif not out["reached"]:
            out["inconclusive"].append("vacuous: no path reached by a concrete witness")
    return out


def _acc(out, c):
    out["queries"] += c.stats["queries"]
    out["z3_s"] += c.stats["z3_s"]
    out["unknown"] += c.stats["unknown"]
    out["forks"] += c.stats["forks"]
    c.stats.update(queries=0, z3_s=0.0, unknown=0, forks=0)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%d" % (f.filename.replace("<enc>", ""), f.lineno) for f in reversed(tb[-4:]))


def check_path(inst, c, E, exc, out, rnd, seen_viol, deadline):
    pc = c.pc
    # -------- witness run: reachability and validation of the encoding
    env = sample_env(c, rnd, pc, 120)
    model = None
    if env is None:
        # feasible values from the solver, preferring the sampling ranges
        box = []
        for name, (g, s) in c.vars.items():
            box.append(F_atom(">=", radd(rgen(g), rconst(Fraction(str(s[0]))), -1)))
            box.append(F_atom("<=", radd(rgen(g), rconst(Fraction(str(s[1]))), -1)))
        st, model = sym.solve(pc + box, c)
        if st != "sat":
            st, model = sym.solve(pc, c)
        if st == "unsat":
            out["infeasible"] += 1
            return
        if st == "sat":
            base = dict(model)
            for t in range(40):
                e = {g.i: (float(base[g.i]) if g.i in base else rnd.uniform(float(s[0]), float(s[1]))) for name, (g, s) in c.vars.items()}
                _derive(c, e)
                try:
                    if all(f.evalf(dict(e)) for f in pc):
                        env = e
                        break
                except Exception:
                    pass
    fails = None
    if env is not None:
        RE, err = run_concrete(inst, names_env(c, env), c.choices)
        if err != "infeasible":
            out["reached"] += 1
            fails = RE.failures
            if exc is None or exc[0] == "raised":
                for label, idx, x, y in RE.failures:
                    _violation(inst, c, env, out, seen_viol, label, idx, x, y, "witness")
            elif RE.failures:
                for label, idx, x, y in RE.failures:
                    _violation(inst, c, env, out, seen_viol, label, idx, x, y, "witness of unencodable path")
            if exc is None:
                _validate(c, E, RE, env, out)
    else:
        out["unreached"] += 1
    if exc is not None:
        if exc[0] == "raised" and fails:
            return
        if exc[0] == "raised" and not fails:
            # try a few more points before declaring an encoding problem
            for k in range(5):
                e = sample_env(c, rnd, pc, 60)
                if e is None:
                    break
                RE, err = run_concrete(inst, names_env(c, e), c.choices)
                if RE.failures:
                    for label, idx, x, y in RE.failures:
                        _violation(inst, c, e, out, seen_viol, label, idx, x, y, "exception path")
                    return
        out["inconclusive"].append("%s %s" % exc)
        return
    # -------- claims
    eqs = []
    for kind, label, idx, a, b in E.claims:
        out["claims"] += 1
        out["labels"][label] = out["labels"].get(label, 0) + 1
        if kind == "bool":
            if not a:
                eqs.append((label, idx, None, None, Formula("const", False)))
            else:
                out["discharged_const"] = out.get("discharged_const", 0) + 1
            continue
        if kind == "formula":
            eqs.append((label, idx, None, None, a))
            continue
        d = radd(a, b, -1)
        if not d.n:
            f = eq_formula(a, b)
            l, r = f.args
            if _cost(l) + _cost(r) > 3000:
                # too large for the solver's own normaliser: submit the normal form
                f = F_atom("==", d)
                out["normalised"] += 1
            eqs.append((label, idx, a, b, f))
            continue
        if _rounding(a, b, d):
            # the two differ only by float rounding of folded literal constants
            out["rounded"] = out.get("rounded", 0) + 1
            continue
        pi = product_identity(d)
        if pi is not None:
            dd, lh, rh = pi
            if not dd.n:
                f = eq_formula(rmul(lh, lh), rmul(rh, rh)) if len(lh.n) + len(rh.n) < 1500 else F_atom("==", dd)
                if len(lh.n) + len(rh.n) >= 1500:
                    out["normalised"] += 1
            else:
                f = F_atom("==", dd)
            eqs.append((label, idx, a, b, f))
            continue
        eqs.append((label, idx, a, b, F_atom("==", R(d.n, 1, ()))))
    # batch the (expected) valid ones
    batch = 24
    todo = []
    for i in range(0, len(eqs), batch):
        part = eqs[i : i + batch]
        st, _ = sym.solve(pc + [F_or(*[F_not(f) for *_x, f in part])], c, tmo=20000 if all(_trivial(p) for p in part) else 4000)
        if st == "unsat":
            out["discharged"] = out.get("discharged", 0) + len(part)
            continue
        todo += part
    for label, idx, a, b, f in todo:
        if time.time() > deadline:
            out["inconclusive"].append("time limit while checking claims")
            return
        if (label, idx) in seen_viol:
            continue
        st, m = sym.solve(pc + [F_not(f)], c, tmo=inst.kw.get("ctmo", 6000))
        if st == "unsat":
            out["discharged"] = out.get("discharged", 0) + 1
            continue
        if st == "unknown" and a is not None and not radd(a, b, -1).n:
            st, m = sym.solve([F_not(F_atom("==", radd(a, b, -1)))], c)
            out["normalised"] += 1
            if st == "unsat":
                out["discharged"] = out.get("discharged", 0) + 1
                continue
        # counterexample (or unknown): replay candidates on the real code
        hit = False
        for k in range(10):
            if k == 0 and m:
                e = spread(c, rnd, m, 0)
                if not _sat(pc, e):
                    continue
            else:
                e = sample_env(c, rnd, pc, 60)
                if e is None and m:
                    e = spread(c, rnd, m, 0)
                    for i in e:
                        e[i] *= 1 + rnd.uniform(-0.01, 0.01)
                    if not _sat(pc, e):
                        continue
                if e is None:
                    continue
                if a is not None and k < 5:
                    try:
                        va, vb = evalf(a, dict(e)), evalf(b, dict(e))
                        if abs(va - vb) <= 1e-7 * max(abs(va), abs(vb)):
                            continue
                    except Exception:
                        pass
            RE, err = run_concrete(inst, names_env(c, e), c.choices, seed=k)
            if err == "infeasible":
                continue
            ff = RE.failures
            if ff:
                hit = True
                for l2, i2, x, y in ff:
                    _violation(inst, c, e, out, seen_viol, l2, i2, x, y, "z3 " + st)
                break
        if not hit:
            out["inconclusive"].append("%s[%d]: %s" % (label, idx, "solver unknown" if st == "unknown" else "counterexample not reproduced on the real code"))
            if len(out["inconclusive"]) > 5:
                return


def _trivial(p):
    label, idx, a, b, f = p
    return a is not None and not radd(a, b, -1).n


def _sat(pc, e):
    try:
        return all(f.evalf(dict(e)) for f in pc)
    except Exception:
        return False


def _violation(inst, c, env, out, seen_viol, label, idx, x, y, how):
    if (label, idx) in seen_viol or len(seen_viol) >= 6:
        return
    seen_viol.add((label, idx))
    out["violations"].append(dict(property=inst.prop, instance=inst.name, label=label, index=idx, got=repr(x)[:200], expected=repr(y)[:300],
                                  how=how, env=names_env(c, env), choices=dict(c.choices)))


def _validate(c, E, RE, env, out):
    """symbolic 'got' terms evaluated at the witness against the concrete run's values"""
    sv = {}
    for kind, label, idx, a, b in E.claims:
        if kind == "eq":
            sv.setdefault((label, idx), []).append(a)
        elif kind == "bool":
            pass
    cv = {}
    for label, idx, x in RE.claims:
        cv.setdefault((label, idx), []).append(x)
    n = 0
    ee = dict(env)
    for k, lst in sv.items():
        cl = cv.get(k)
        if cl is None or len(cl) != len(lst):
            if len(out["mismatches"]) < 5:
                out["mismatches"].append("claim %s only on one side" % (k,))
            continue
        for a, x in zip(lst[:1], cl[:1]):
            if n > 300:
                break
            if x is None or isinstance(x, bool):
                continue
            try:
                v = evalf(a, ee)
            except Exception:
                continue
            n += 1
            if abs(v - x) > 1e-5 * max(abs(v), abs(x), 1e-3) and not (abs(v) > 1e30 and abs(v - x) < 1e-3 * abs(v)):
                if len(out["mismatches"]) < 5:
                    out["mismatches"].append("%s: encoding %r, real %r" % (k, v, x))
    out["symcompared"] += n
    out["validated"] += 1


# ----------------------------------------------------------------------------- driver
def _limit(gb):
    resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))


def _child(inst, tier, budget, q, i, seed):
    try:
        _limit(6)
        sys.setrecursionlimit(5000)
        load.start_recording()
        r = run_instance(inst, tier, time.time() + budget, seed)
    except MemoryError:
        r = dict(instance=inst.name, inconclusive=["memory limit"])
    except BaseException as e:
        r = dict(instance=inst.name, inconclusive=["internal: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]])
    load.dump_lines()
    q.put((i, r))


def run_all(insts, tier, budget, jobs, seed=1):
    q = mp.Queue()
    res = [None] * len(insts)
    pend = list(enumerate(insts))[::-1]
    live = {}
    t_end = time.time() + budget
    known = load_known()
    while pend or live:
        while pend and len(live) < jobs and time.time() < t_end:
            i, inst = pend.pop()
            b = min(inst.kw.get("tmo", 120 if tier == "quick" else 600), max(5, t_end - time.time()))
            p = mp.Process(target=_child, args=(inst, tier, b, q, i, seed))
            p.start()
            live[i] = (p, time.time() + b + 60)
        if not live:
            break
        try:
            i, r = q.get(timeout=0.2)
            res[i] = r
            live.pop(i)[0].join()
            if any(not is_known(v, known) for v in r.get("violations", [])):
                # decided: the rest only adds further counterexamples
                t_end = min(t_end, time.time() + (0 if os.environ.get("VERIF_FIRST") else 150))
        except Exception:
            pass
        now = time.time()
        for i, (p, lim) in list(live.items()):
            if now > min(lim, t_end + (0 if os.environ.get("VERIF_FIRST") else 30)):
                p.kill()
                p.join()
                live.pop(i)
                res[i] = dict(instance=insts[i].name, inconclusive=["killed at the time limit"])
            elif not p.is_alive() and res[i] is None:
                try:
                    j, r = q.get(timeout=1)
                    res[j] = r
                    live.pop(j)[0].join()
                except Exception:
                    if i in live:
                        live.pop(i)
                        res[i] = dict(instance=insts[i].name, inconclusive=["worker died (exit %s)" % p.exitcode])
    for i, r in enumerate(res):
        if r is None:
            res[i] = dict(instance=insts[i].name, inconclusive=["not started: budget exhausted"])
    return res


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def is_known(v, known):
    for k in known["findings"]:
        if k.get("property") == v["property"] and k.get("instance") == v["instance"] and v["label"] in k.get("labels", []):
            if "index" in k and v["index"] not in k["index"]:
                continue
            if "choices" in k and any(v["choices"].get(a) != b for a, b in k["choices"].items()):
                continue
            return k
    return None


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop.upper()
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("checks." + prop.lower())
    importlib.import_module("checks.large")
    importlib.import_module("checks.gaps")
    importlib.import_module("checks.gaps2")
    importlib.import_module("checks.gaps3")
    importlib.import_module("checks.gaps4")
    importlib.import_module("checks.gaps5")
    importlib.import_module("checks.gaps6")
    harness.add_again(prop)
    insts = [i for i in harness.INSTANCES if i.prop == prop and (tier == "thorough" or i.tier == "quick")]
    if a.only:
        insts = [i for i in insts if a.only in i.name]
    shim.install_checked_cholmod()
    if a.replay:
        v = json.load(open(a.replay))
        inst = [i for i in harness.INSTANCES if i.name == v["instance"] and i.prop == prop][0]
        E, err = run_concrete(inst, v["env"], v["choices"])
        for f in E.failures:
            print("FAIL %s[%s]: got %r expected %r" % f)
        return 1 if E.failures else 0
    budget = a.budget or (600 if tier == "quick" else 3300)
    # import the real package once, before forking
    import enterprise  # noqa

    load.Shadow
    res = run_all(insts, tier, budget, a.jobs, seed)
    known = load_known()
    viol, kn, inc = [], [], []
    for r in res:
        for v in r.get("violations", []):
            k = is_known(v, known)
            (kn.append((k, v)) if k else viol.append(v))
        for s in r.get("inconclusive", []):
            inc.append("%s: %s" % (r["instance"], s))
        if r.get("mismatches"):
            inc.append("%s: encoding mismatch: %s" % (r["instance"], "; ".join(r["mismatches"][:2])))
        if a.v:
            print("%-34s paths %4d claims %5d q %5d z3 %6.1fs wall %6.1fs norm %d reached %d/%d cmp %d %s" % (
                r["instance"], r.get("paths", 0), r.get("claims", 0), r.get("queries", 0), r.get("z3_s", 0), r.get("wall_s", 0), r.get("normalised", 0),
                r.get("reached", 0), r.get("unreached", 0) + r.get("reached", 0), r.get("symcompared", 0),
                ("VIOL " + str(len(r["violations"]))) if r.get("violations") else ""))
    wall = time.time() - t0
    # a known finding only silences an instance if every violation in it is known
    shown = set()
    for k, v in kn:
        t = "KNOWN-FINDING: property=%s %s" % (prop, k["what"])
        if t not in shown:
            print(t)
            shown.add(t)
    knames = {v["instance"] for k, v in kn}
    inc = [s for s in inc if s.split(":")[0] not in knames]
    for v in viol:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([v["instance"], v["label"], v["index"]]).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (prop, h))
        json.dump(v, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  instance %s: %s[%s] got %s expected %s (%s)" % (v["instance"], v["label"], v["index"], v["got"], v["expected"], v["how"]))
    for s in inc[:20]:
        print("INCONCLUSIVE %s" % s)
    bad = {s.split(":")[0] for s in inc}
    if not os.environ.get("VERIF_NOEVID"):
        write_evidence(prop, tier, seed, insts, res, wall, viol, kn, inc, mod)
    ok = len(insts) - len(bad)
    print("%s %s: %d instances, %d paths, %d claims, %d queries, %.1fs solver, %.1fs wall, %d violations, %d known, %d inconclusive" % (
        prop, tier, len(insts), sum(r.get("paths", 0) for r in res), sum(r.get("claims", 0) for r in res), sum(r.get("queries", 0) for r in res),
        sum(r.get("z3_s", 0) for r in res), wall, len(viol), len(kn), len(bad)))
    if viol:
        return 1
    if not insts or ok == 0:
        return 2
    if bad and os.environ.get("VERIF_STRICT"):
        return 2
    return 0


def _rounding(a, b, d):
    """the two differ only by the float rounding of folded constants: in the numerator of the difference, the terms that share
    their symbolic part cancel to within 1e-11 of their size once the constants (pi, roots, logarithms of numbers) are evaluated"""
    if len(d.n) > 20000:
        return False
    s = radd(a, b)
    if s.den != d.den:
        return False
    val = {}

    def const(i):
        if i not in val:
            try:
                val[i] = sym.geval(alg.T.gens[i], {})
            except Exception:
                val[i] = None
        return val[i]

    def terms(n, dn):
        for m, c in n.items():
            v, rest = float(Fraction(c, dn)) or float('inf'), []
            for i, e in alg.mono_items(m):
                x = const(i)
                if x is None:
                    rest.append((i, e))
                else:
                    v *= x ** e
            yield tuple(rest), v

    tot, size = {}, {}
    try:
        both = list(terms(d.n, d.d)), list(terms(s.n, s.d))
    except OverflowError:
        return False
    for k, v in both[0]:
        tot[k] = tot.get(k, 0.0) + v
        size[k] = max(size.get(k, 0.0), abs(v))
    for k, v in both[1]:
        size[k] = max(size.get(k, 0.0), abs(v))
    return all(0 < size[k] < 1e300 and abs(v) <= 1e-11 * size[k] for k, v in tot.items())


def write_evidence(prop, tier, seed, insts, res, wall, viol, kn, inc, mod):
    fns = sorted({f for r in res for f in r.get("functions", [])})
    S = lambda k: sum(r.get(k, 0) for r in res)
    samples = []
    for i, r in zip(insts, res):
        samples.append("%s: %d paths, %d claims (%s); bounds: %s" % (
            i.name, r.get("paths", 0), r.get("claims", 0), ", ".join(list(r.get("labels", {}))[:6]), i.kw.get("bounds", "")))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2),
        coverage=dict(
            states=S("paths"), transitions=S("forks") + S("paths"), traces_validated_against_impl=S("validated"), samples=samples,
            instances=len(insts), claims=S("claims"), claims_discharged_by_solver=S("discharged"), claims_structural=S("discharged_const"),
            queries=S("queries"), solver_time_s=round(S("z3_s"), 2), solver="z3", solver_unknown=S("unknown"),
            claims_submitted_in_normal_form=S("normalised"), infeasible_paths=S("infeasible"), reached_by_witness=S("reached"), claims_equal_up_to_literal_rounding=S("rounded"),
            unreached=S("unreached"), encoder_values_compared=S("symcompared"), functions_encoded=fns, inconclusive=inc[:40],
            known_findings=[k["what"] for k, v in kn],
            violation_details=[{k: v[k] for k in ("instance", "label", "index", "got", "expected", "how")} for v in viol],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        violations=len(viol),
    )
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real arithmetic; rounding, overflow and NaN are outside the encoding",
    "numpy object arrays carry the terms; scipy/sksparse/fastshermanmorrison routines are replaced by their exact contracts (vlib/shim.py)",
    "pivots of matrices handed to Cholesky are positive and solved matrices are invertible (stub contract)",
    "array shapes and signal layouts are fixed per instance as listed under samples; values are unbounded unless a range is listed",
]
