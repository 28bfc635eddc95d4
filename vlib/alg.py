"""Exact algebra used as the term language of the symbolic executor.

A value is a rational function  num / (d * prod factor**e)  over integer
polynomials in a growing table of generators.  Generators are input variables,
pi, and atoms for the transcendental operations the code performs:

  root(f)      f**(1/300) of a positive factor f      (reduced: R**300 -> f)
  pow(b, m)    b**(m/300) of prime / e and a monomial m of a symbolic exponent
  log(f)       natural logarithm of a factor
  sin/cos(a)   with sin**2 -> 1 - cos**2
  uf(name,..)  uninterpreted function application (erf, ppf, Bessel, ...)

Polynomials are dicts {packed monomial: int}; a packed monomial stores the
exponent of generator i in bits [SH*i, SH*(i+1)).
"""
import math
from fractions import Fraction
from math import gcd

SH = 20
MASK = (1 << SH) - 1
KR = 300


class AlgError(Exception):
    """the encoder cannot represent this operation"""


class Gen:
    __slots__ = ("i", "name", "kind", "data", "pos", "z3", "ev", "mono")

    def __init__(self, i, name, kind, data, pos):
        self.i, self.name, self.kind, self.data, self.pos = i, name, kind, data, pos
        self.z3 = None
        # fixed evaluation point; small where large exponents occur
        self.ev = 2 * i % 61 + 3 if kind in ("root", "pow") else (2 * i + 3) * 1000003 % 100000007 + 17
        self.mono = 1 << (SH * i)


class Table:
    def __init__(self):
        self.gens = []
        self.by_key = {}
        self.red = {}  # gen index -> (order, poly numerator to replace R**order)
        self.redmask = 0
        self.factors = []  # list of (poly, evalue)
        self.fkey = {}
        self.fdeg = []

    def gen(self, key, name, kind, data=None, pos=False):
        g = self.by_key.get(key)
        if g is None:
            g = Gen(len(self.gens), name, kind, data, pos)
            self.gens.append(g)
            self.by_key[key] = g
        return g

    def add_red(self, g, order, poly):
        self.red[g.i] = (order, poly)
        self.redmask |= MASK << (SH * g.i)

    def factor(self, poly):
        k = frozenset(poly.items())
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            ev = peval_int(poly)
            self.factors.append((poly, ev))
            self.fkey[k] = f
        return f


T = Table()


def reset():
    global T, PI
    T = Table()
    PI = T.gen(("pi",), "pi", "pi", None, True)
    _evcache.clear()


_evcache = {}


def mono_items(m):
    i = 0
    while m:
        if not (m & MASK):
            # skip zero blocks quickly
            tz = (m & -m).bit_length() - 1
            k = tz // SH
            i += k
            m >>= SH * k
        e = m & MASK
        if e:
            yield i, e
        m >>= SH
        i += 1


def mono_eval(m):
    v = _evcache.get(m)
    if v is None:
        v = 1
        for i, e in mono_items(m):
            v *= T.gens[i].ev ** e
        if len(_evcache) < 200000:
            _evcache[m] = v
    return v


def peval_int(p):
    return sum(c * mono_eval(m) for m, c in p.items())


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k != 1 else a


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) < len(b):
        a, b = b, a
    if len(b) == 1:
        ((mb, cb),) = b.items()
        if mb == 0:
            return pscale(a, cb)
        r = {m + mb: c * cb for m, c in a.items()}
    else:
        if len(a) * len(b) > 4_000_000:
            raise AlgError("polynomial too large (%d x %d terms)" % (len(a), len(b)))
        r = {}
        get = r.get
        for mb, cb in b.items():
            for m, c in a.items():
                k = m + mb
                r[k] = get(k, 0) + c * cb
        r = {m: c for m, c in r.items() if c}
    return preduce(r)


def preduce(p):
    rm = T.redmask
    if not rm:
        return p
    bad = None
    for m in p:
        x = m & rm
        if x:
            for i, e in mono_items(x):
                if e >= T.red[i][0]:
                    bad = i
                    break
            if bad is not None:
                break
    if bad is None:
        return p
    order, q = T.red[bad]
    groups = {}
    sh = SH * bad
    for m, c in p.items():
        e = (m >> sh) & MASK
        k = e // order
        groups.setdefault(k, {})[m - ((k * order) << sh)] = c
    res = groups.pop(0, {})
    for k, g in sorted(groups.items()):
        t = preduce(g)
        for _ in range(k):
            t = pmul(t, q)
        res = padd(res, t)
    return preduce(res)


def _divides(mb, ma):
    """monomial mb | ma, both packed"""
    i = 0
    while mb:
        tz = ((mb & -mb).bit_length() - 1) // SH
        if tz:
            mb >>= SH * tz
            ma >>= SH * tz
        if (mb & MASK) > (ma & MASK):
            return False
        mb >>= SH
        ma >>= SH
    return True


def pdivexact(a, b):
    """a / b if exact (over Z, allowing exact integer quotients), else None"""
    if not a:
        return {}
    if len(b) == 1:
        ((mb, cb),) = b.items()
        r = {}
        for m, c in a.items():
            if c % cb or not _divides(mb, m):
                return None
            r[m - mb] = c // cb
        return r
    mb = max(b)
    cb = b[mb]
    rest = [(m, c) for m, c in b.items() if m != mb]
    rem = dict(a)
    quo = {}
    # lexicographic order on packed ints is a monomial order
    import heapq

    heap = [-m for m in rem]
    heapq.heapify(heap)
    n = 0
    while rem:
        while True:
            if not heap:
                return None
            m = -heapq.heappop(heap)
            c = rem.get(m)
            if c:
                break
            rem.pop(m, None)
            if not rem:
                return quo
        if c % cb or m < mb or not _divides(mb, m):
            return None
        q = c // cb
        d = m - mb
        quo[d] = q
        del rem[m]
        for mr, cr in rest:
            k = d + mr
            v = rem.get(k)
            if v is None:
                rem[k] = -q * cr
                heapq.heappush(heap, -k)
            else:
                v -= q * cr
                if v:
                    rem[k] = v
                else:
                    del rem[k]
        n += 1
        if n > 200000:
            return None
    return quo


def pcontent(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def pmono_content(p):
    it = iter(p)
    m = next(it)
    exps = dict(mono_items(m))
    for mm in it:
        if not exps:
            break
        for i in list(exps):
            e = (mm >> (SH * i)) & MASK
            if e < exps[i]:
                if e:
                    exps[i] = e
                else:
                    del exps[i]
    return exps


ONE = {0: 1}


class R:
    """rational function in normal form"""

    __slots__ = ("n", "d", "den", "_h")

    def __init__(self, n, d=1, den=()):
        self.n, self.d, self.den = n, d, den

    def is_const(self):
        return not self.den and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def const(self):
        return Fraction(self.n.get(0, 0), self.d)

    def key(self):
        return (frozenset(self.n.items()), self.d, self.den)

    def __repr__(self):
        return rstr(self)


def mk(n, d, den):
    if not n:
        return R({}, 1, ())
    if d != 1:
        g = gcd(pcontent(n), d)
        if g != 1:
            n = {m: c // g for m, c in n.items()}
            d //= g
    return R(n, d, den)


def rconst(q):
    if type(q) is int:
        return R({0: q}, 1, ()) if q else R({}, 1, ())
    return R({0: q.numerator}, q.denominator, ()) if q else R({}, 1, ())


def rgen(g):
    return R({g.mono: 1}, 1, ())


def cancel_one(n, fid, e):
    """divide n by factor fid up to e times; return n, remaining e"""
    f, fev = T.factors[fid]
    if len(f) == 1:
        ((mf, _),) = f.items()
        # monomial factor: a single generator
        i = (mf.bit_length() - 1) // SH
        sh = SH * i
        k = min((m >> sh) & MASK for m in n)
        k = min(k, e)
        if k:
            s = k << sh
            n = {m - s: c for m, c in n.items()}
        return n, e - k
    ev = None
    while e:
        if ev is None:
            ev = peval_int(n)
        if fev and ev % fev:
            break
        if not fev:
            pass
        q = pdivexact(n, f)
        if q is None:
            break
        n = q
        e -= 1
        ev = ev // fev if fev else None
    return n, e


def rmul(a, b):
    if not a.n or not b.n:
        return R({}, 1, ())
    an, bn = a.n, b.n
    aden, bden = a.den, b.den
    if T.redmask and next(iter(an)) & T.redmask and next(iter(bn)) & T.redmask and (len(an) > 1 or len(bn) > 1):
        r = _mul_roots(a, b)
        if r is not None:
            return r
    if bden and not (len(an) == 1 and 0 in an):
        an, bden = _cancel(an, bden)
    if aden and not (len(bn) == 1 and 0 in bn):
        bn, aden = _cancel(bn, aden)
    n = pmul(an, bn)
    if aden and bden:
        dd = dict(aden)
        for f, e in bden:
            dd[f] = dd.get(f, 0) + e
        den = tuple(sorted(dd.items()))
    else:
        den = aden or bden
    if T.redmask and den and n:
        n, den = _cancel(n, den)
    return mk(n, a.d * b.d, den)


def _mul_roots(a, b):
    """product where a common power of a root completes to its radicand: cancel that against the denominator before expanding"""
    ca, cb = pmono_content(a.n), pmono_content(b.n)
    for i in ca:
        if i not in cb or i not in T.red or T.gens[i].kind != "root":
            continue
        order, poly = T.red[i]
        key = T.gens[i].data[0]
        if ca[i] + cb[i] < order or key[0] != "f":
            continue
        g = T.gens[i].mono
        left = ca[i] + cb[i] - order
        sa, sb = ca[i] * g - left * g, cb[i] * g
        r = rmul(R({m - sa: c for m, c in a.n.items()}, a.d, a.den), R({m - sb: c for m, c in b.n.items()}, b.d, b.den))
        if not r.n:
            return r
        fid = key[1]
        dd = dict(r.den)
        n = r.n
        if dd.get(fid):
            if dd[fid] == 1:
                del dd[fid]
            else:
                dd[fid] -= 1
            if poly != T.factors[fid][0]:
                n = {m: -c for m, c in n.items()}
        else:
            n = pmul(n, poly)
        den = tuple(sorted(dd.items()))
        if den:
            n, den = _cancel(n, den)
        return mk(n, r.d, den)
    return None


def _cancel(n, den):
    out = None
    for k, (f, e) in enumerate(den):
        n, e2 = cancel_one(n, f, e)
        if e2 != e:
            if out is None:
                out = dict(den)
            if e2:
                out[f] = e2
            else:
                del out[f]
    if out is None:
        return n, den
    return n, tuple(sorted(out.items()))


def fpow(fid, e):
    r = T.factors[fid][0]
    f = r
    for _ in range(e - 1):
        r = pmul(r, f)
    return r


def radd(a, b, sign=1):
    if not b.n:
        return a
    if not a.n:
        return b if sign == 1 else R({m: -c for m, c in b.n.items()}, b.d, b.den)
    if a.den == b.den:
        g = gcd(a.d, b.d)
        ka, kb = b.d // g, sign * (a.d // g)
        n = padd(pscale(a.n, ka), pscale(b.n, kb))
        d = a.d * (b.d // g)
        if not n:
            return R({}, 1, ())
        den = a.den
        if den:
            n, den = _cancel(n, den)
        return mk(n, d, den)
    da, db = dict(a.den), dict(b.den)
    an, bn = a.n, b.n
    both = []
    den = {}
    for f in set(da) | set(db):
        ea, eb = da.get(f, 0), db.get(f, 0)
        e = max(ea, eb)
        den[f] = e
        if ea == eb:
            both.append(f)
        elif ea < e:
            an = pmul(an, fpow(f, e - ea))
        else:
            bn = pmul(bn, fpow(f, e - eb))
    g = gcd(a.d, b.d)
    n = padd(pscale(an, b.d // g), pscale(bn, sign * (a.d // g)))
    d = a.d * (b.d // g)
    if not n:
        return R({}, 1, ())
    if T.redmask:
        both = list(den)
    for f in both:
        n, e2 = cancel_one(n, f, den[f])
        if e2:
            den[f] = e2
        else:
            del den[f]
    return mk(n, d, tuple(sorted(den.items())))


def rneg(a):
    return R({m: -c for m, c in a.n.items()}, a.d, a.den)


def pfactor(n):
    """n (nonzero) -> (sign*content int, {fid: e}) ; trial division by known factors"""
    c = pcontent(n)
    if n[max(n)] < 0:
        c = -c
    if c != 1:
        n = {m: v // c for m, v in n.items()}
    fs = {}
    if len(n) == 1 and 0 in n:
        return c, fs
    mc = pmono_content(n)
    if mc:
        s = 0
        for i, e in mc.items():
            s += e << (SH * i)
            fs[T.factor({T.gens[i].mono: 1})] = e
        n = {m - s: v for m, v in n.items()}
    if len(n) == 1:
        return c, fs
    k = frozenset(n.items())
    if k in T.fkey:
        f = T.fkey[k]
        fs[f] = fs.get(f, 0) + 1
        return c, fs
    ev = peval_int(n)
    top = max(n)
    for fid in range(len(T.factors)):
        f, fev = T.factors[fid]
        if len(f) == 1 or len(f) > 3 * len(n) + 10:
            continue
        while fev and ev % fev == 0:
            q = pdivexact(n, f)
            if q is None:
                break
            fs[fid] = fs.get(fid, 0) + 1
            n = q
            ev = ev // fev
            if len(n) == 1:
                break
        if len(n) == 1:
            break
    if not (len(n) == 1 and 0 in n):
        if len(n) == 1:
            c2, f2 = pfactor(n)
            c *= c2
            for f, e in f2.items():
                fs[f] = fs.get(f, 0) + e
        else:
            cc = pcontent(n)
            if n[max(n)] < 0:
                cc = -cc
            if cc != 1:
                n = {m: v // cc for m, v in n.items()}
                c *= cc
            for q, e in split_poly(n):
                f = T.factor(q)
                fs[f] = fs.get(f, 0) + e
    return c, fs


def split_poly(n):
    """best effort factorisation of a primitive polynomial with >1 terms"""
    r = _perfect_power(n)
    if r is not None:
        return r
    return [(n, 1)]


def _perfect_power(n):
    # perfect square test (leading coefficient positive)
    m = max(n)
    lo = min(n)
    c = n[m]
    s = math.isqrt(c) if c > 0 else 0
    if s * s != c:
        return None
    for i, e in mono_items(m):
        if e & 1:
            return None
    for i, e in mono_items(lo):
        if e & 1:
            return None
    q = psqrt(n)
    if q is None:
        return None
    sub = split_poly(q) if len(q) > 1 else [(q, 1)]
    return [(p, 2 * e) for p, e in sub]


def psqrt(n):
    """polynomial square root or None"""
    if not n:
        return {}
    m = max(n)
    c = n[m]
    if c <= 0:
        return None
    s = math.isqrt(c)
    if s * s != c:
        return None
    half = 0
    for i, e in mono_items(m):
        if e & 1:
            return None
        half += (e // 2) << (SH * i)
    q = {half: s}
    rem = padd(n, {m: -c})
    it = 0
    while rem:
        k = max(rem)
        ck = rem[k]
        if k < half or not _divides(half, k) or ck % (2 * s):
            return None
        t = k - half
        ct = ck // (2 * s)
        if t >= half:
            return None
        # rem -= 2*q*t + t^2
        sub = {mm + t: 2 * v * ct for mm, v in q.items()}
        sub[2 * t] = sub.get(2 * t, 0) + ct * ct
        q[t] = ct
        rem = padd(rem, {mm: -v for mm, v in sub.items()})
        it += 1
        if it > 2 * len(n) + 5:
            return None
    if T.redmask:
        if padd(pmul(q, q), {mm: -v for mm, v in n.items()}):
            return None
    return q


def rinv(a):
    if not a.n:
        raise ZeroDivisionError("symbolic division by zero")
    c, fs = pfactor(a.n)
    num = {0: a.d}
    for f, e in a.den:
        num = pmul(num, fpow(f, e))
    d = c
    if d < 0:
        d = -d
        num = {m: -v for m, v in num.items()}
    den = {}
    for f, e in fs.items():
        p = T.factors[f][0]
        if len(p) == 1:
            ((m, _),) = p.items()
            gi = (m.bit_length() - 1) // SH
            if gi in T.red and T.gens[gi].kind == "root":
                # 1/R**e = R**(order*k-e) / f**k
                order, q = T.red[gi]
                k = -(-e // order)
                ex = order * k - e
                if ex:
                    num = pmul(num, {m * ex: 1})
                cc, ff = pfactor(q)
                d *= cc**k
                for f2, e2 in ff.items():
                    den[f2] = den.get(f2, 0) + e2 * k
                continue
        den[f] = den.get(f, 0) + e
    num, dn = _cancel(num, tuple(sorted(den.items())))
    return mk(num, d, dn)


def rdiv(a, b):
    if b.is_const():
        c = b.const()
        if c == 0:
            raise ZeroDivisionError("symbolic division by zero")
        n = a.n
        if c.denominator != 1:
            n = pscale(n, c.denominator)
        d = a.d * abs(c.numerator)
        if c < 0:
            n = {m: -v for m, v in n.items()}
        return mk(n, d, a.den)
    return rmul(a, rinv(b))


def rpow_int(a, k):
    if k < 0:
        return rpow_int(rinv(a), -k)
    r = rconst(1)
    b = a
    while k:
        if k & 1:
            r = rmul(r, b)
        k >>= 1
        if k:
            b = rmul(b, b)
    return r


def rfactors(a):
    """a (nonzero) -> (Fraction c, {fid: int e}), a = c * prod f**e"""
    c, fs = pfactor(a.n)
    fs = dict(fs)
    for f, e in a.den:
        v = fs.get(f, 0) - e
        if v:
            fs[f] = v
        else:
            fs.pop(f, None)
    return Fraction(c, a.d), fs


_pf = {}


def prime_factors(n):
    if n in _pf:
        return _pf[n]
    m, out, p = n, {}, 2
    while p * p <= m and p < 100000:
        while m % p == 0:
            out[p] = out.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
    if m > 1:
        out[m] = out.get(m, 0) + 1
    _pf[n] = out
    return out


# ---------------------------------------------------------------- snapping floats
_snap = {}


def snap(x):
    """exact rational meant by a float literal / constant"""
    if isinstance(x, int):
        return Fraction(x)
    r = _snap.get(x)
    if r is not None:
        return r
    if x != x or x in (float("inf"), float("-inf")):
        raise AlgError("non-finite constant %r" % x)
    if x == int(x) and abs(x) < 1e15:
        r = Fraction(int(x))
    else:
        r = Fraction(repr(float(x)))
        if len(repr(float(x))) > 15:
            q = Fraction(x).limit_denominator(100000)
            if q != 0 and float(q) == x:
                r = q
            else:
                # reciprocals of "nice" numbers (1/year, ...)
                if x != 0:
                    inv = 1.0 / x
                    if 1 < abs(inv) < 1e12 and float(Fraction(1, int(round(inv)))) == x:
                        r = Fraction(1, int(round(inv)))
    _snap[x] = r
    return r


# ---------------------------------------------------------------- printing / evaluation
def pstr(p, limit=6):
    out = []
    for m, c in sorted(p.items(), reverse=True)[:limit]:
        s = "*".join(
            T.gens[i].name + ("^%d" % e if e > 1 else "") for i, e in mono_items(m)
        )
        out.append(("%d*%s" % (c, s) if c != 1 else s) if s else str(c))
    if len(p) > limit:
        out.append("...(%d terms)" % len(p))
    return " + ".join(out) or "0"


def rstr(a):
    s = pstr(a.n)
    dn = ([] if a.d == 1 else [str(a.d)]) + [
        "(%s)^%d" % (pstr(T.factors[f][0]), e) for f, e in a.den
    ]
    return s if not dn else "(%s)/(%s)" % (s, " ".join(dn))


reset()
