"""Exact real values: Laurent polynomials over Q in interned variables.

A value of IEEE type double is represented (rounding is abstracted away) as an element of
Q[v1^±1, ..., vk^±1].  A division by a sum of several terms introduces an "inverse variable"
w with the definition w * den = 1; `clear` removes those exactly when a formula is decided.
NaN and infinities are ordinary Python floats and never mix into an R.
"""
from fractions import Fraction

ONE = ()


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


_mm_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm_cache.get(k)
    if r is None:
        d = dict(a)
        for v, e in b:
            e2 = d.get(v, 0) + e
            if e2:
                d[v] = e2
            else:
                d.pop(v, None)
        r = tuple(sorted(d.items()))
        if len(_mm_cache) > 2000000:
            _mm_cache.clear()
        _mm_cache[k] = r
    return r


SQ = {}          # variable -> dict of the polynomial that replaces its square (unit quaternions)
_red_cache = {}


def set_square_rule(v, poly):
    SQ[v] = dict(poly.t)
    _red_cache.clear()


def clear_square_rules():
    SQ.clear()
    _red_cache.clear()


def _red(m):
    """None if the monomial is reduced, else the dict of its normal form modulo the square rules"""
    try:
        return _red_cache[m]
    except KeyError:
        pass
    r = None
    for v, e in m:
        if e >= 2 and v in SQ:
            rest = mono_mul(m, ((v, -2),))
            r = {}
            for m2, c2 in SQ[v].items():
                mm = mono_mul(rest, m2)
                sub = _red(mm)
                if sub is None:
                    r[mm] = r.get(mm, 0) + c2
                else:
                    for m3, c3 in sub.items():
                        r[m3] = r.get(m3, 0) + c2 * c3
            break
    if len(_red_cache) > 2000000:
        _red_cache.clear()
    _red_cache[m] = r
    return r


def _reduced(t):
    out = None
    for m in t:
        if m and _red(m) is not None:
            out = {}
            break
    if out is None:
        return t
    for m, c in t.items():
        d = _red(m) if m else None
        if d is None:
            x = out.get(m)
            out[m] = c if x is None else x + c
        else:
            for m2, c2 in d.items():
                x = out.get(m2)
                out[m2] = c * c2 if x is None else x + c * c2
    return {m: norm(c) for m, c in out.items() if c}


def mono_inv(a):
    return tuple((v, -e) for v, e in a)


def mono_pow(a, n):
    return tuple((v, e * n) for v, e in a) if n else ()


class R:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    # -- constructors
    @staticmethod
    def const(c):
        c = norm(c)
        return R({ONE: c}) if c else R({})

    @staticmethod
    def var(v):
        return R({((v, 1),): 1})

    # -- queries
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and ONE in t)

    def cval(self):
        return self.t.get(ONE, 0)

    def is_zero(self):
        return not self.t

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.t.items())
        return k

    # -- arithmetic
    def __add__(self, o):
        a, b = self.t, o.t
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = norm(x)
                else:
                    del r[m]
        return R(r)

    def __neg__(self):
        return R({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        a, b = self.t, o.t
        if not b:
            return self
        if self is o:
            return R({})
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = -c
            else:
                x = x - c
                if x:
                    r[m] = norm(x)
                else:
                    del r[m]
        return R(r)

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return R({})
        if len(b) == 1:
            a, b = b, a
        if len(a) == 1:
            (m1, c1), = a.items()
            if not m1:
                if c1 == 1:
                    return R(b)
                return R({m: norm(c1 * c) for m, c in b.items()})
            r = {mono_mul(m1, m): norm(c1 * c) for m, c in b.items()}
            return R(_reduced(r) if SQ else r)
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                x = r.get(m)
                r[m] = c1 * c2 if x is None else x + c1 * c2
        r = {m: norm(c) for m, c in r.items() if c}
        return R(_reduced(r) if SQ else r)

    def scale(self, c):
        if not c:
            return R({})
        return R({m: norm(c * x) for m, x in self.t.items()})

    def mul_mono(self, m0):
        if not m0:
            return self
        r = {mono_mul(m0, m): c for m, c in self.t.items()}
        return R(_reduced(r) if SQ else r)

    def pow(self, n):
        r = R.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def content_mono(self):
        """gcd monomial (minimum exponents over all terms, negative ones included)."""
        it = iter(self.t)
        g = dict(next(it))
        for m in it:
            d = dict(m)
            for v in list(g):
                e = d.get(v, 0)
                if e < g[v]:
                    g[v] = e
            for v, e in d.items():
                if v not in g and e < 0:
                    g[v] = e
        return tuple(sorted((v, e) for v, e in g.items() if e))

    def primitive(self):
        """(scalar, mono, prim) with self = scalar*mono*prim, prim with integer coprime coefficients,
        positive leading coefficient, no monomial content and only non-negative exponents."""
        from math import gcd
        m = self.content_mono()
        p = self.mul_mono(mono_inv(m))
        den = 1
        num = 0
        for c in p.t.values():
            if type(c) is Fraction:
                den = den * c.denominator // gcd(den, c.denominator)
        for c in p.t.values():
            num = gcd(num, int(c * den))
        s = Fraction(num, den)
        lead = max(p.t)
        if p.t[lead] < 0:
            s = -s
        return norm(s), m, R({mm: norm(c / s) if type(c) is Fraction else norm(Fraction(c) / s) for mm, c in p.t.items()})

    def eval(self, env):
        """Exact evaluation; env maps variables to Fraction/int. Raises ZeroDivisionError/KeyError."""
        s = Fraction(0)
        for m, c in self.t.items():
            x = Fraction(c)
            for v, e in m:
                x *= Fraction(env[v]) ** e
            s += x
        return s

    def subs_poly(self, v, p):
        """substitute variable v (non-negative exponents only) by polynomial p."""
        out = R({})
        pw = {0: R.const(1)}
        for m, c in self.t.items():
            e = 0
            rest = []
            for vv, ee in m:
                if vv == v:
                    e = ee
                else:
                    rest.append((vv, ee))
            base = R({tuple(rest): c})
            if e not in pw:
                pw[e] = p.pow(e)
            out = out + base * pw[e]
        return out

    def __repr__(self):
        return self.show(lambda v: "v%d" % v)

    def show(self, nm):
        if not self.t:
            return "0"
        s = []
        for m, c in sorted(self.t.items()):
            f = ["%s%s" % (nm(v), "" if e == 1 else "^%d" % e) for v, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            s.append("*".join(f))
        return " + ".join(s)


ZERO = R({})


def exact_div(num, den, limit=400):
    """exact polynomial division (Laurent monomials allowed up to content) or None."""
    if len(num.t) < 1:
        return ZERO
    nm = num.content_mono()
    dm = den.content_mono()
    n = num.mul_mono(mono_inv(nm))
    d = den.mul_mono(mono_inv(dm))
    if len(d.t) > len(n.t) * 4 or len(n.t) > limit:
        return None
    ld = max(d.t, key=_order)
    cd = d.t[ld]
    q = {}
    steps = 0
    while n.t:
        steps += 1
        if steps > limit:
            return None
        ln = max(n.t, key=_order)
        m = mono_mul(ln, mono_inv(ld))
        if any(e < 0 for _, e in m):
            return None
        c = norm(Fraction(n.t[ln]) / cd)
        q[m] = c
        n = n - d.mul_mono(m).scale(c)
    return R(q).mul_mono(mono_mul(nm, mono_inv(dm)))


def _order(m):
    # a monomial order: total degree, then lexicographic on (-var, exp)
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))
