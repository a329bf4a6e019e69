"""Models of functions that are not part of the encoded module: the harness API, the C and C++ runtime,
logging, and the numeric contract for dense linear solvers."""
import math
import re
from fractions import Fraction

import z3

import rtl
import poly
from poly import R, ZERO, exact_div
from rtl import alloc, cstr, fcmp, free_obj, ldd, ldi, memcpy, memset, st
from runtime import (Abort, CppThrow, DBits, M64, OFFM, PathEnd, SymInt, UNDEF, Unsupported)
import runtime

TABLE = {}
OVERRIDE = {}
PREFIX = []


def ext(*names):
    def f(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return f


def over(*names):
    def f(fn):
        for n in names:
            OVERRIDE[n] = fn
        return fn
    return f


def override(n):
    return OVERRIDE.get(n)


def external(n):
    f = TABLE.get(n)
    if f is not None:
        return f
    for p, fn in PREFIX:
        if n.startswith(p):
            return fn

    def missing(*a):
        raise Unsupported("call of external function " + n)
    return missing


def S():
    return rtl.S


# ------------------------------------------------------------------ harness API
_strs = {}


def kstr(p):
    return cstr(p)


def fresh_name(base):
    s = S()
    n = s.input_count.get(base, 0)
    s.input_count[base] = n + 1
    return base if n == 0 else "%s#%d" % (base, n)


@ext("vf_real")
def vf_real(name):
    s = S()
    nm = fresh_name(kstr(name))
    fx = s.cfg.fixed.get(nm)
    if fx is not None:
        s.inputs.append((nm, "const", fx))
        return R.const(fx)
    v = s.newvar(nm, "input")
    r = R.var(v)
    s.inputs.append((nm, "real", v))
    return r


@ext("vf_choice")
def vf_choice(name, n):
    s = S()
    nm = fresh_name(kstr(name))
    n &= 0xffffffff
    fx = s.cfg.fixed.get(nm)
    c = fx if fx is not None else (s.pick(list(range(n))) if n > 1 else 0)
    s.inputs.append((nm, "int", c))
    return c


@ext("vf_char")
def vf_char(name):
    s = S()
    nm = fresh_name(kstr(name))
    e = z3.BitVec("%s!c%d" % (nm, len(s.inputs)), 8)
    si = SymInt(e, 8)
    s.inputs.append((nm, "char", si))
    return SymInt(z3.ZeroExt(24, e), 32)


@ext("vf_param")
def vf_param(name):
    s = S()
    return int(s.cfg.params[kstr(name)]) & 0xffffffff


@ext("vf_assume")
def vf_assume(c):
    s = S()
    s.flush()
    if c is UNDEF:
        raise Abort("uninit", "assumption on an uninitialised value")
    if not c:
        raise PathEnd("assume")


@ext("vf_assume_lt")
def vf_assume_lt(a, b):
    s = S()
    s.flush()
    s.assume_sign(b - a, {1})


@ext("vf_assume_le")
def vf_assume_le(a, b):
    s = S()
    s.flush()
    s.assume_sign(b - a, {0, 1})


@ext("vf_assume_ne")
def vf_assume_ne(a, b):
    s = S()
    s.flush()
    s.assume_sign(b - a, {-1, 1})


@ext("vf_assume_eq")
def vf_assume_eq(a, b):
    s = S()
    s.flush()
    s.assume_sign(b - a, {0})


@ext("vf_assert")
def vf_assert(c, msg):
    s = S()
    m = kstr(msg)
    s.assert_ids[m] = s.assert_ids.get(m, 0) + 1
    s.stats.asserts += 1
    if c is UNDEF:
        s.violate("assert", m + " (uninitialised value)")
        return
    if not c:
        s.violate("assert", m)


@ext("vf_eq")
def vf_eq(a, b, msg):
    s = S()
    m = kstr(msg)
    s.assert_ids[m] = s.assert_ids.get(m, 0) + 1
    s.stats.asserts += 1
    if type(a) is DBits:
        a = a.v
    if type(b) is DBits:
        b = b.v
    if a is UNDEF or b is UNDEF:
        s.violate("eq", m + " (uninitialised value)")
        return
    if type(a) is float or type(b) is float:
        same = (type(a) is float and type(b) is float and (a == b or (a != a and b != b)))
        if not same:
            s.violate("eq", m + " (not a number or infinite)")
        return
    s.pending.append((m, a, b))


@ext("vf_reach")
def vf_reach(name):
    s = S()
    n = kstr(name)
    s.reach[n] = s.reach.get(n, 0) + 1


@ext("vf_fail")
def vf_fail(msg):
    s = S()
    m = kstr(msg)
    s.violate("assert", m)
    raise PathEnd("failed")


@ext("vf_expect_abort")
def vf_expect_abort(msg):
    """from here to vf_unexpect_abort the program has to terminate with a failed CHECK/assert"""
    S().expect_abort = kstr(msg)


@ext("vf_allow_abort")
def vf_allow_abort(on):
    S().allow_abort = bool(on)


@ext("vf_unexpect_abort")
def vf_unexpect_abort():
    s = S()
    m = s.expect_abort
    s.expect_abort = None
    if m:
        s.violate("abort", m + ": was accepted")
        raise PathEnd("failed")


@ext("vf_is_symbolic")
def vf_is_symbolic():
    return 1


@ext("vf_end")
def vf_end():
    raise PathEnd("end")


@ext("vf_event")
def vf_event(tag, a, b):
    S().events.append((kstr(tag), a, b))


# ------------------------------------------------------------------ memory
@ext("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def m_malloc(n, *r):
    return alloc(n)


@ext("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
def m_new_al(n, al, *r):
    return alloc(n)


@ext("aligned_alloc", "memalign")
def m_aligned(al, n):
    return alloc(n)


@ext("posix_memalign")
def m_posix_memalign(pp, al, n):
    st(pp, 8, alloc(n))
    return 0


@ext("calloc")
def m_calloc(a, b):
    p = alloc(a * b)
    memset(p, 0, a * b)
    return p


@ext("realloc")
def m_realloc(p, n):
    q = alloc(n)
    if p:
        o = S().obj(p)
        memcpy(q, p, min(n, o.size))
        free_obj(p)
    return q


@ext("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
     "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t")
def m_free(p, *r):
    free_obj(p)


ext("memcpy", "memmove")(memcpy)
ext("memset")(memset)


@ext("memcmp", "bcmp")
def m_memcmp(a, b, n):
    for k in range(n):
        x, y = ldi(a + k, 1), ldi(b + k, 1)
        if x is UNDEF or y is UNDEF:
            raise Abort("uninit", "memcmp of uninitialised bytes")
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else 0xffffffff
        elif not (x == y):
            return 1 if x > y else 0xffffffff
    return 0


@ext("strlen")
def m_strlen(p):
    n = 0
    while True:
        b = ldi(p + n, 1)
        if b is UNDEF:
            raise Abort("uninit", "strlen of uninitialised bytes")
        if b == 0:
            return n
        n += 1


@ext("memchr")
def m_memchr(p, c, n):
    c &= 255
    for k in range(n):
        if ldi(p + k, 1) == c:
            return p + k
    return 0


@ext("strcmp")
def m_strcmp(a, b):
    k = 0
    while True:
        x, y = ldi(a + k, 1), ldi(b + k, 1)
        if not (x == y):
            return 1 if x > y else 0xffffffff
        if x == 0:
            return 0
        k += 1


@ext("strncmp")
def m_strncmp(a, b, n):
    for k in range(n):
        x, y = ldi(a + k, 1), ldi(b + k, 1)
        if not (x == y):
            return 1 if x > y else 0xffffffff
        if x == 0:
            return 0
    return 0


@ext("strchr")
def m_strchr(p, c):
    c &= 255
    while True:
        x = ldi(p, 1)
        if x == c:
            return p
        if x == 0:
            return 0
        p += 1


@ext("strrchr")
def m_strrchr(p, c):
    c &= 255
    r = 0
    while True:
        x = ldi(p, 1)
        if x == c:
            r = p
        if x == 0:
            return r
        p += 1


@ext("strcpy")
def m_strcpy(d, p):
    k = 0
    while True:
        x = ldi(p + k, 1)
        st(d + k, 1, x)
        if x == 0:
            return d
        k += 1


@ext("strcat")
def m_strcat(d, p):
    m_strcpy(d + m_strlen(d), p)
    return d


# ------------------------------------------------------------------ numbers as text
NUM = re.compile(rb"[+-]?(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|inf(?:inity)?|nan)", re.I)


def cformat(x, prec, kind):
    return ("%.*f" if kind == 1 else "%.*e" if kind == 2 else "%.*g") % (prec, x)


@ext("vf_format")
def vf_format(v, prec, kind, out):
    """text of a number: the real text of a constant, otherwise a token that stands for the value after rounding to that many digits"""
    s = S()
    if type(v) is DBits:
        v = v.v
    if v is UNDEF:
        raise Abort("uninit", "formatting an uninitialised number")
    if type(v) is float:
        txt = cformat(v, prec, kind).encode()
    elif v.is_const():
        txt = cformat(float(v.cval()), prec, kind).encode()
    else:
        lossy = (kind == 0 and prec < 6) or (kind == 2 and prec < 5) or kind == 1
        if lossy:
            k = ("fmt", prec, kind, v.key())
            r = s.memo.get(k)
            if r is None:
                a = s.newvar("txt", "aux")
                r = s.memo[k] = R.var(a)
                s.notes.append("number written with few digits")
                if kind == 1:
                    e = R.const(Fraction(1, 2 * 10 ** prec))
                else:
                    e = v.scale(Fraction(1, 2 * 10 ** (max(prec - 1, 0) if kind == 0 else prec)))
                    if not s.sign_test(v, {0, 1}):
                        e = e.scale(-1)
                s.assume_sign(r - v - e, {-1, 0})
                s.assume_sign(r - v + e, {1, 0})
            v = r
        tab = s.memo.setdefault("tokens", [])
        n = len(tab)
        tab.append(v)
        if n >= 26 * 26:
            raise Unsupported("too many numbers written as text")
        txt = bytes((1, 97 + n // 26, 97 + n % 26))
    for k, b in enumerate(txt):
        st(out + k, 1, b)
    return len(txt)


def parse_num(p, n):
    """(value, bytes used) of the longest number at p, at most n bytes (None: up to the terminator)"""
    s = S()
    k = 0

    def at(i):
        if n is not None and i >= n:
            return 0
        b = ldi(p + i, 1)
        if b is UNDEF:
            raise Abort("uninit", "parsing uninitialised text")
        return b
    while True:
        b = at(k)
        if type(b) is int and (b in (32, 9, 10, 11, 12, 13)):
            k += 1
        else:
            break
    if type(b) is int and b == 1:
        x, y = at(k + 1), at(k + 2)
        if type(x) is int and type(y) is int and 97 <= x <= 122 and 97 <= y <= 122:
            t = (x - 97) * 26 + y - 97
            tab = s.memo.get("tokens", [])
            if t < len(tab):
                return tab[t], k + 3
        return ZERO, 0
    txt = b""
    i = k
    while True:
        b = at(i)
        if type(b) is not int:
            raise Unsupported("parsing a number from symbolic text")
        if b == 0 or b not in b"+-.0123456789eEinfatyINFATY":
            if b == 1 and txt:
                raise Unsupported("parsing a number next to a symbolic one")
            break
        txt += bytes((b,))
        i += 1
    m = NUM.match(txt)
    if not m:
        return ZERO, 0
    f = float(m.group(0))
    return (R.const(runtime.Fraction(f)) if f == f and abs(f) != float("inf") else f), k + m.end()


@ext("vf_parse")
def vf_parse(p, n, used):
    v, u = parse_num(p, n)
    st(used, 4, u)
    return v


@ext("strtod", "strtof", "__strtod_internal")
def m_strtod(p, end, *r):
    v, u = parse_num(p, None)
    if end:
        st(end, 8, p + u)
    return v


@ext("atof")
def m_atof(p):
    return parse_num(p, None)[0]


@ext("atoi")
def m_atoi(p):
    return m_strtol(p, 0) & 0xffffffff


@ext("atol", "atoll")
def m_atol(p):
    return m_strtol(p, 0)


@ext("strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll")
def m_strtol(p, end, base=10):
    v, u = parse_num(p, None)
    if end:
        st(end, 8, p + u)
    if type(v) is float:
        return 0
    return rtl.fptoint(v, 64, True)


# ------------------------------------------------------------------ llvm intrinsics
def intr(n):
    m = re.match(r"llvm\.([a-z.]+?)(?:\.p0)?(?:\.[ifv]\d+\w*|\.p0)*(?:\.[if]\d+)*$", n)
    base = m.group(1) if m else n[5:]
    return base


def _llvm(n):
    if n.startswith(("llvm.memcpy", "llvm.memmove")):
        return memcpy
    if n.startswith("llvm.memset"):
        return memset
    w = re.search(r"\.[if](\d+)$", n)
    w = int(w.group(1)) if w else 64
    b = n.split(".")[1]
    if n.startswith("llvm.fabs"):
        return rtl.fabs_
    if n.startswith("llvm.fmuladd") or n.startswith("llvm.fma."):
        return lambda a, c, d: rtl.fadd(rtl.fmul(a, c), d)
    if n.startswith("llvm.sqrt"):
        return rtl.sqrt_
    if n.startswith(("llvm.maxnum", "llvm.maximum")):
        return rtl.fmax_
    if n.startswith(("llvm.minnum", "llvm.minimum")):
        return rtl.fmin_
    if n.startswith("llvm.pow."):
        return rtl.pow_
    if n.startswith("llvm.powi"):
        return lambda a, e: rtl.pow_(a, R.const(rtl.sgn(e, 32)))
    for k in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
        if n.startswith("llvm.%s." % k):
            mode = k if k in ("floor", "ceil", "trunc", "round") else "round"
            return lambda a, mode=mode: a if type(a) is float else R.const(rtl.floor_int(a, mode))
    if n.startswith("llvm.copysign"):
        return m_copysign
    if n.startswith("llvm.is.fpclass"):
        return rtl.is_fpclass
    if n.startswith("llvm.sin."):
        return m_sin
    if n.startswith("llvm.cos."):
        return m_cos
    if b in ("umax", "umin", "smax", "smin"):
        return lambda x, y: minmax(b, x, y, w)
    if b == "abs":
        return lambda x, _p: abs(rtl.sgn(x, w)) & ((1 << w) - 1)
    if n.startswith("llvm.ctpop"):
        return lambda x: bin(x).count("1")
    if n.startswith("llvm.ctlz"):
        return lambda x, _z: w - x.bit_length()
    if n.startswith("llvm.cttz"):
        return lambda x, _z: (x & -x).bit_length() - 1 if x else w
    if n.startswith("llvm.bswap"):
        return lambda x: int.from_bytes(x.to_bytes(w // 8, "little"), "big")
    m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow", n)
    if m:
        return lambda x, y: ovf(m.group(1), m.group(2), x, y, w)
    m = re.match(r"llvm\.([us])(add|sub)\.sat", n)
    if m:
        return lambda x, y: sat_(m.group(1), m.group(2), x, y, w)
    if n.startswith("llvm.fshl") or n.startswith("llvm.fshr"):
        left = n[8] == "l"

        def fsh(a, c, d):
            d %= w
            x = (a << w) | c
            return ((x << d) >> w) & ((1 << w) - 1) if left else (x >> d) & ((1 << w) - 1)
        return fsh
    if n.startswith("llvm.eh.typeid.for"):
        return rtl.typeid_for
    if n.startswith("llvm.expect"):
        return lambda a, *r: a
    if n.startswith("llvm.objectsize"):
        return lambda *a: M64
    if n.startswith("llvm.is.constant"):
        return lambda *a: 0
    if n.startswith("llvm.trap") or n.startswith("llvm.ubsantrap"):
        return lambda *a: _abort("trap", "")
    if n.startswith("llvm.stacksave"):
        return lambda: 0
    if n.startswith("llvm.threadlocal.address"):
        return lambda p: p
    if n.startswith("llvm.fptosi.sat") or n.startswith("llvm.fptoui.sat"):
        return lambda a: rtl.fptoint(a, w, True)
    if n.startswith("llvm.vector.reduce") or True:
        def bad(*a):
            raise Unsupported("intrinsic " + n)
        return bad


def minmax(b, x, y, w):
    if b[0] == "s":
        h = 1 << (w - 1)
        kx, ky = x ^ h, y ^ h
    else:
        kx, ky = x, y
    if b.endswith("max"):
        return x if kx > ky else y
    return x if kx < ky else y


def ovf(sg, op, x, y, w):
    f = {"add": lambda a, c: a + c, "sub": lambda a, c: a - c, "mul": lambda a, c: a * c}[op]
    if sg == "u":
        r = f(x, y)
        t = r & ((1 << w) - 1)
        return (t, int(t != r))
    r = f(rtl.sgn(x, w), rtl.sgn(y, w))
    t = r & ((1 << w) - 1)
    return (t, int(rtl.sgn(t, w) != r))


def sat_(sg, op, x, y, w):
    if sg == "u":
        r = x + y if op == "add" else x - y
        return max(0, min(r, (1 << w) - 1))
    x, y = rtl.sgn(x, w), rtl.sgn(y, w)
    r = x + y if op == "add" else x - y
    return max(-(1 << (w - 1)), min(r, (1 << (w - 1)) - 1)) & ((1 << w) - 1)


def m_copysign(a, b):
    a = rtl.fabs_(a)
    if type(b) is float:
        neg = math.copysign(1, b) < 0
    else:
        neg = fcmp(4, b, ZERO)
    return rtl.fneg(a) if neg else a


class _LL:
    pass


def external_llvm(n):
    f = TABLE.get(n)
    if f is None:
        f = TABLE[n] = _llvm(n)
    return f


# ------------------------------------------------------------------ libm
@ext("sin")
def m_sin(a):
    return trig(a)[0]


@ext("cos")
def m_cos(a):
    return trig(a)[1]


def trig(a):
    if type(a) is float:
        return rtl.NAN, rtl.NAN
    if a.is_zero():
        return ZERO, R.const(1)
    s = S()
    k = ("trig", a.key())
    r = s.memo.get(k)
    if r is None:
        vs, vc = s.newvar("sin", "aux"), s.newvar("cos", "aux")
        sn, cs = R.var(vs), R.var(vc)
        d = sn * sn + cs * cs - R.const(1)
        rtl.define(vs, d)
        rtl.define(vc, d)
        r = s.memo[k] = (sn, cs)
        s.memo[("trig", (-a).key())] = (-sn, cs)
        s.inexact = True
    return r


# ------------------------------------------------------------------ rotations (unit quaternions)
def unit_quaternion(vs):
    """variables w, x, y, z with w^2 = 1 - x^2 - y^2 - z^2"""
    w, x, y, z = vs
    sq = {((x, 2),): -1, ((y, 2),): -1, ((z, 2),): -1, (): 1}
    d = R({((w, 2),): 1, ((x, 2),): 1, ((y, 2),): 1, ((z, 2),): 1, (): -1})
    for v in vs:
        rtl.define(v, d)
    poly.set_square_rule(w, R(sq))
    return tuple(R.var(v) for v in vs)


IDQ = (R.const(1), ZERO, ZERO, ZERO)


def qconj(q):
    return (q[0], -q[1], -q[2], -q[3])


def qmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)


def vkey(v):
    return tuple(x.key() for x in v)


def vneg(v):
    return tuple(-x for x in v)


@ext("vf_unitq")
def vf_unitq(name, p):
    """an arbitrary unit quaternion"""
    s = S()
    nm = kstr(name)
    vs = []
    for c in "wxyz":
        n = fresh_name("%s.%s" % (nm, c))
        v = s.newvar(n, "input")
        s.inputs.append((n, "real", v))
        vs.append(v)
    for i, r in enumerate(unit_quaternion(vs)):
        st(p + 8 * i, 8, r)


def direction(s, a):
    """(g, d) with a = g d, d an axis that was used before where possible"""
    nz = [i for i in range(3) if not a[i].is_zero()]
    for d in s.axes:
        if any(d[i].is_zero() != a[i].is_zero() for i in range(3)):
            continue
        g = exact_div(a[nz[0]], d[nz[0]])
        if g is not None and all((g * d[i] - a[i]).is_zero() for i in nz):
            return g, d
    i = min(nz, key=lambda i: len(a[i].t))
    sc, m, p = a[i].primitive()
    mon = R({m: sc})
    d = tuple(c.mul_mono(poly.mono_inv(m)).scale(Fraction(1) / sc) for c in a)
    if any(e < 0 for c in d for mm in c.t for _, e in mm):
        mon, d = R.const(1), a
    s.axes.append(d)
    return mon, d


def special(xs):
    return any(type(x) is not R for x in xs)


@ext("vf_exp")
def vf_exp(x, y, z, p):
    s = S()
    a = (x, y, z)
    if special(a):
        raise Unsupported("exponential map of a value that is not finite")
    if all(c.is_zero() for c in a):
        q = IDQ
    else:
        k = ("exp", vkey(a))
        q = s.memo.get(k)
        if q is None:
            # exp(g d) = (c, o d) with c^2 + o^2 d.d = 1, for one direction d per axis
            g, d = direction(s, a)
            vc_, vo = s.newvar("exp.c", "aux"), s.newvar("exp.s", "aux")
            dd = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
            rule = R.const(1) - R({((vo, 2),): 1}) * dd
            df = R({((vc_, 2),): 1}) - rule
            rtl.define(vc_, df)
            rtl.define(vo, df)
            poly.set_square_rule(vc_, rule)
            o = R.var(vo)
            q = (R.var(vc_), o * d[0], o * d[1], o * d[2])
            s.memo[k] = q
            s.memo[("exp", vkey(vneg(a)))] = qconj(q)
            s.expof[vc_] = s.expof[vo] = (vc_, vo, g, d, dd)
            s.inexact = True
            s.contracts.add("exponential map: unit quaternions with exp(0) = 1, exp(-v) = exp(v)^-1, exp(log q) = +-q, d exp(v) = 1/2 dv exp(v) for dv parallel to v")
    for i, r in enumerate(q):
        st(p + 8 * i, 8, r)


@ext("vf_log")
def vf_log(w, x, y, z, p):
    s = S()
    q = (w, x, y, z)
    if special(q):
        raise Unsupported("logarithmic map of a value that is not finite")
    if all(c.is_zero() for c in q[1:]) and w.is_const() and abs(w.cval()) == 1:
        v = (ZERO, ZERO, ZERO)
    else:
        k = ("log", vkey(q))
        v = s.memo.get(k)
        if v is None:
            # the logarithm of exp(a) is a only for small a: a fresh vector, as for any other rotation
            vs = [s.newvar("log." + c, "aux") for c in "xyz"]
            v = tuple(R.var(i) for i in vs)
            for i in vs:
                s.logof[i] = q
            s.axes.append(v)
            s.memo[k] = v
            s.memo[("log", vkey(tuple(-c for c in q)))] = v
            s.memo[("log", vkey(qconj(q)))] = vneg(v)
            s.memo[("log", vkey(tuple(-c for c in qconj(q))))] = vneg(v)
            s.memo[("exp", vkey(v))] = q
            s.memo[("exp", vkey(vneg(v)))] = qconj(q)
            s.inexact = True
            s.contracts.add("logarithmic map: any function with log(1) = 0, log(-q) = log(q), log(q^-1) = -log(q), exp(log q) = +-q")
    for i, r in enumerate(v):
        st(p + 8 * i, 8, r)


def ddt(s, a, sv, memo):
    """derivative of the value a with respect to the input variable sv"""
    out = ZERO
    for m, c in a.t.items():
        for v, e in m:
            dv = ddt_var(s, v, sv, memo)
            if dv.is_zero():
                continue
            rest = tuple((u, f - (u == v)) for u, f in m if f - (u == v))
            out = out + R({rest: c * e}) * dv
    return out


def ddt_var(s, v, sv, memo):
    if v == sv:
        return R.const(1)
    r = memo.get(v)
    if r is not None:
        return r
    if v in s.cutof:
        a, b = s.cutof[v]
        r = ddt(s, a, sv, memo) * b + a * ddt(s, b, sv, memo)
    elif v in s.invdef:
        d = ddt(s, s.invdef[v], sv, memo)
        r = ZERO if d.is_zero() else -(R.var(v) * R.var(v) * d)
    elif v in s.expof:
        vc_, vo, g, d, dd = s.expof[v]
        dg = ddt(s, g, sv, memo)
        if any(not ddt(s, c, sv, memo).is_zero() for c in d):
            raise Unsupported("derivative of an exponential along a changing axis")
        h = Fraction(1, 2)
        memo[vc_] = (dg * dd * R.var(vo)).scale(-h)
        memo[vo] = (dg * R.var(vc_)).scale(h)
        return memo[v]
    elif v in s.logof:
        if any(not ddt(s, c, sv, memo).is_zero() for c in s.logof[v]):
            raise Unsupported("derivative of a logarithm")
        r = ZERO
    elif s.vars[v][1] == "input":
        r = ZERO
    elif v in s.defof and not any(sv in s.defs[i][2] for i in s.defof[v]):
        r = ZERO
    else:
        raise Unsupported("derivative of " + s.vars[v][0])
    memo[v] = r
    return r


@ext("vf_ddt")
def vf_ddt(a, x):
    """d a / d x for an input x (symbolic build only)"""
    s = S()
    if type(a) is not R or type(x) is not R:
        raise Unsupported("derivative of a value that is not finite")
    (m, c), = x.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    sv = m[0][0]
    return ddt(s, a, sv, s.memo.setdefault(("ddt", sv), {}))


@ext("sincos")
def m_sincos(a, ps, pc):
    x, y = trig(a)
    st(ps, 8, x)
    st(pc, 8, y)


@ext("pow")
def m_pow(a, b):
    return rtl.pow_(a, b)


@ext("sqrt")
def m_sqrt(a):
    return rtl.sqrt_(a)


@ext("fabs")
def m_fabs(a):
    return rtl.fabs_(a)


def _op(name):
    def f(*a):
        for x in a:
            if type(x) is not R:
                return rtl.NAN
        S().inexact = True
        return rtl.opaque(name, list(a))
    return f


for _n in ("exp", "log", "tan", "asin", "acos", "atan", "atan2", "fmod", "cbrt", "hypot", "exp2", "log2", "log10", "remainder"):
    TABLE[_n] = _op(_n)
for _n in ("floor", "ceil", "trunc", "round"):
    TABLE[_n] = lambda a, mode=_n: a if type(a) is float else R.const(rtl.floor_int(a, mode))
TABLE["rint"] = TABLE["nearbyint"] = TABLE["round"]
TABLE["lround"] = TABLE["lrint"] = lambda a: rtl.floor_int(a, "round") & M64
TABLE["fmin"] = rtl.fmin_
TABLE["fmax"] = rtl.fmax_


@ext("ldexp")
def m_ldexp(a, e):
    e = rtl.sgn(e, 32)
    return a if type(a) is float else a.scale(Fraction(2) ** e)


@ext("frexp")
def m_frexp(a, pe):
    raise Unsupported("frexp")


# ------------------------------------------------------------------ termination
def _abort(kind, detail):
    raise Abort(kind, detail)


@ext("abort")
def m_abort():
    _abort("abort", "abort() called")


@ext("exit", "_exit")
def m_exit(c):
    _abort("exit", "exit() called")


@ext("_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_deleted_virtual", "__clang_call_terminate")
def m_terminate(*a):
    _abort("terminate", "std::terminate")


OVERRIDE["__clang_call_terminate"] = m_terminate


@ext("__assert_fail")
def m_assert_fail(e, f, l, fn):
    _abort("CHECK", "assertion failed: %s (%s:%d)" % (cstr(e), cstr(f).rsplit("/", 1)[-1], l))


@ext("_ZSt21__glibcxx_assert_failPKciS0_S0_")
def m_glibcxx_assert(f, l, fn, e):
    raise Abort("memory", "libstdc++ precondition violated: %s (%s:%d)" % (cstr(e) if e else "", cstr(f).rsplit("/", 1)[-1] if f else "", l))


def _thrower(n):
    n = re.sub(r"(_fmt)?(PKc.*|v|i|m)$", "", n)
    cls = "St%d%s" % (len(n), n)

    def f(*a):
        p = alloc(64, "exc")
        for k in range(0, 64, 8):
            st(p + k, 8, 0)
        raise CppThrow(p, ("std", cls), 0)
    return f


def exc_ctor(this, *a):
    for k in (0, 8):
        st(this + k, 8, 0)
    return None


def m_what(this):
    s = S()
    p = s.memo.get("what")
    if p is None:
        p = s.memo["what"] = alloc(1, "global")
        st(p, 1, 0)
    return p


EXC = re.compile(r"_ZNK?St(\d+\w+?)(C[12]E|D[012]Ev|4whatEv|aSE)")


PREFIX.append(("_ZSt20__throw_", None))


@ext("__cxa_guard_acquire")
def m_guard(p):
    if ldi(p, 1) == 0:
        return 1
    return 0


@ext("__cxa_guard_release")
def m_guard_rel(p):
    st(p, 1, 1)


@ext("__cxa_guard_abort")
def m_guard_ab(p):
    return None


@ext("__cxa_atexit", "atexit", "__cxa_thread_atexit")
def m_atexit(*a):
    return 0


@ext("__cxa_allocate_exception")
def m_alloc_exc(n):
    return alloc(max(n, 8), "exc")


@ext("__cxa_free_exception")
def m_free_exc(p):
    return None


@ext("__cxa_throw")
def m_throw(p, ti, d):
    raise CppThrow(p, ti, d)


@ext("__cxa_begin_catch")
def m_begin_catch(p):
    s = S()
    s.catch_stack.append(s.cur_exc)
    return p


@ext("__cxa_end_catch")
def m_end_catch():
    s = S()
    if s.catch_stack:
        s.catch_stack.pop()


@ext("__cxa_rethrow")
def m_rethrow():
    s = S()
    if not s.catch_stack:
        _abort("terminate", "rethrow without exception")
    raise s.catch_stack[-1]


@ext("_ZSt18uncaught_exceptionv")
def m_uncaught():
    return 0


@ext("_ZSt19uncaught_exceptionsv")
def m_uncaughts():
    return 0


@ext("__errno_location")
def m_errno():
    s = S()
    p = s.memo.get("errno")
    if p is None:
        p = s.memo["errno"] = alloc(4, "tls")
        st(p, 4, 0)
    return p


for _n in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_self",
           "printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fwrite", "pthread_once", "__gthrw_pthread_key_create",
           "__pthread_key_create", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_rdlock", "vprintf"):
    TABLE[_n] = lambda *a: 0


@ext("clock")
def m_clock():
    return 0


@ext("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv")
def m_now():
    return 0


# ------------------------------------------------------------------ logging and console output
def _arg0(*a):
    return a[0] if a else 0


for _p in ("_ZNSo", "_ZNSolsE", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNSo9_M_insert", "_ZNSo3put", "_ZNSo5flush"):
    PREFIX.append((_p, _arg0))
for _p in ("_ZNSaIcEC", "_ZNSaIcED", "_ZNSt8ios_base4Init", "_ZNSt8ios_baseC", "_ZNSt8ios_baseD", "_ZNSt9basic_iosIcSt11char_traitsIcEE5clear",
           "_ZNSt9basic_iosIcSt11char_traitsIcEE4init", "_ZNSt6localeC", "_ZNSt6localeD", "_ZNSt15basic_streambuf"):
    PREFIX.append((_p, lambda *a: 0))


def glog_stream(*a):
    s = S()
    p = s.memo.get("glogstream")
    if p is None:
        p = s.memo["glogstream"] = alloc(1024, "stream")
        vt = alloc(256, "vtab")
        for k in range(0, 256, 8):
            st(vt + k, 8, 0)
        for k in range(0, 1024, 8):
            st(p + k, 8, 0)
        st(p, 8, vt + 64)
    return p


class FatalMsg:
    pass


@ext("_ZN6google15LogMessageFatalC1EPKci", "_ZN6google15LogMessageFatalC2EPKci",
     "_ZN6google15LogMessageFatalC1EPKciRKNS_13CheckOpStringE", "_ZN6google15LogMessageFatalC2EPKciRKNS_13CheckOpStringE",
     "_ZN6google15LogMessageFatalC1EPKciRKNS_8logging8internal13CheckOpStringE")
def glog_fatal(this, f, l, *r):
    _abort("CHECK", "CHECK failed at %s:%d" % (cstr(f).rsplit("/", 1)[-1], l))


@ext("_ZN6google10LogMessage6streamEv", "_ZN6google10LogMessage6streamEv")
def glog_stream2(*a):
    return glog_stream()


def glog_ctor(this, f, l, *r):
    # severity argument (FATAL == 3) in LogMessage(file, line, severity)
    if r and r[0] == 3:
        _abort("CHECK", "LOG(FATAL) at %s:%d" % (cstr(f).rsplit("/", 1)[-1], l))
    return None


PREFIX.append(("_ZN6google10LogMessageC", glog_ctor))
PREFIX.append(("_ZN6google15LogMessageFatalD", lambda *a: _abort("CHECK", "LOG(FATAL)")))
PREFIX.append(("_ZN6google15LogMessageFatalC", glog_fatal))


@ext("_ZN6google4base21CheckOpMessageBuilderC1EPKc", "_ZN6google4base21CheckOpMessageBuilderC2EPKc")
def glog_builder(this, e):
    _abort("CHECK", "CHECK failed: " + cstr(e))


PREFIX.append(("_ZN6google4base21CheckOpMessageBuilder", lambda *a: _abort("CHECK", "CHECK failed")))
PREFIX.append(("_ZN6google8logging8internal21CheckOpMessageBuilder", lambda *a: _abort("CHECK", "CHECK failed")))
PREFIX.append(("_ZN6google", lambda *a: 0))


# ------------------------------------------------------------------ red-black tree kernel of libstdc++
# (an ordered binary search tree with the layout of std::_Rb_tree_node_base; balancing, which only affects speed, is left out)
COL, PAR, LEF, RIG = 0, 8, 16, 24


def _g(p, o):
    v = ldi(p + o, 8)
    if v is UNDEF:
        raise Abort("uninit", "tree link")
    return v


def _s(p, o, v):
    st(p + o, 8, v)


@ext("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def rb_inc(x):
    r = _g(x, RIG)
    if r:
        x = r
        while True:
            l = _g(x, LEF)
            if not l:
                return x
            x = l
    y = _g(x, PAR)
    while x == _g(y, RIG):
        x = y
        y = _g(y, PAR)
    if _g(x, RIG) != y:
        x = y
    return x


@ext("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def rb_dec(x):
    par = _g(x, PAR)
    if ldi(x, 4) == 0 and par and _g(par, PAR) == x:
        return _g(x, RIG)
    if ldi(x, 4) == 0 and par == 0:
        # header of an empty tree
        return _g(x, RIG)
    l = _g(x, LEF)
    if l:
        y = l
        while True:
            r = _g(y, RIG)
            if not r:
                return y
            y = r
    y = par
    while x == _g(y, LEF):
        x = y
        y = _g(y, PAR)
    return y


@ext("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def rb_insert(left, x, p, header):
    _s(x, PAR, p)
    _s(x, LEF, 0)
    _s(x, RIG, 0)
    st(x, 4, 1)
    if left & 1:
        _s(p, LEF, x)
        if p == header:
            _s(header, PAR, x)
            _s(header, RIG, x)
        elif p == _g(header, LEF):
            _s(header, LEF, x)
    else:
        _s(p, RIG, x)
        if p == _g(header, RIG):
            _s(header, RIG, x)


@ext("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
def rb_erase(z, header):
    l, r, p = _g(z, LEF), _g(z, RIG), _g(z, PAR)
    first, last = _g(header, LEF), _g(header, RIG)
    nxt = rb_inc(z) if z != last else header
    prv = rb_dec(z) if z != first else header

    def repl(a, b):
        pa = _g(a, PAR)
        if pa == header:
            _s(header, PAR, b)
        elif _g(pa, LEF) == a:
            _s(pa, LEF, b)
        else:
            _s(pa, RIG, b)
        if b:
            _s(b, PAR, pa)
    if l == 0:
        repl(z, r)
    elif r == 0:
        repl(z, l)
    else:
        y = r
        while _g(y, LEF):
            y = _g(y, LEF)
        if _g(y, PAR) != z:
            yr = _g(y, RIG)
            _s(_g(y, PAR), LEF, yr)
            if yr:
                _s(yr, PAR, _g(y, PAR))
            _s(y, RIG, r)
            _s(r, PAR, y)
        repl(z, y)
        _s(y, LEF, l)
        _s(l, PAR, y)
    root = _g(header, PAR)
    _s(header, LEF, nxt if z == first else first)
    _s(header, RIG, prv if z == last else last)
    if root == 0:
        _s(header, LEF, header)
        _s(header, RIG, header)
    return z


@ext("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def hash_need(this, nb, ne, ni):
    # grow when the load factor would exceed 1: (bool, size_t)
    if ne + ni > nb:
        k = max(nb * 2 + 1, ne + ni + 1, 13)
        return (1, k)
    return (0, 0)


@ext("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def hash_next(this, n):
    return max(n, 13) | 1


@ext("_ZSt11_Hash_bytesPKvmm")
def hash_bytes(p, n, seed):
    h = seed
    for k in range(n):
        b = ldi(p + k, 1)
        if type(b) is not int:
            b = S().concretize_bv(b)
        h = (h * 1099511628211 ^ b) & M64
    return h


@ext("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrD1Ev")
def m_excptr(*a):
    return None


@ext("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
def list_hook(this, pos):
    prev = ldi(pos + 8, 8)
    st(this, 8, pos)
    st(this + 8, 8, prev)
    st(prev, 8, this)
    st(pos + 8, 8, this)


@ext("_ZNSt8__detail15_List_node_base9_M_unhookEv")
def list_unhook(this):
    n, p = ldi(this, 8), ldi(this + 8, 8)
    st(p, 8, n)
    st(n + 8, 8, p)


# ------------------------------------------------------------------ dense linear solvers
@ext("vf_solve")
def vf_solve(pa, rows, cols, rs, cs, pb, pbs, px, nrhs_unused):
    """x := a solution of A x = b as a dense rank-revealing solver returns it.  Contract: if A has full row
    rank the returned x satisfies A x = b exactly (up to rounding); the same A and b give the same x.  Without
    full row rank the result is left unconstrained."""
    import linsys
    s = S()
    A = [[ldd(pa + 8 * (i * rs + j * cs), 8) for j in range(cols)] for i in range(rows)]
    b = [ldd(pb + 8 * i * pbs, 8) for i in range(rows)]
    for x in [y for r in A for y in r] + b:
        if x is UNDEF:
            raise Abort("uninit", "linear system with uninitialised entries")
        if type(x) is float:
            for j in range(cols):
                st(px + 8 * j, 8, rtl.NAN)
            return
    xs = linsys.solve(s, A, b)
    for j, x in enumerate(xs):
        st(px + 8 * j, 8, x)


_old_external = external


def external(n):  # noqa: F811
    if n.startswith("llvm."):
        return external_llvm(n)
    if re.match(r"_ZSt\d+__throw_", n):
        return _thrower(re.sub(r"^_ZSt\d+__throw_", "", n))
    f = TABLE.get(n)
    if f is not None:
        return f
    m = EXC.match(n)
    if m and "St" + m.group(1) in rtl.STD_BASE:
        k = m.group(2)
        return m_what if k == "4whatEv" else exc_ctor if k[0] in "Ca" else (lambda *a: None)
    for p, fn in PREFIX:
        if fn is not None and n.startswith(p):
            return fn
    return _old_external(n)


@ext("vf_rank")
def vf_rank(pa, rows, cols, rs, cs):
    import linsys
    A = [[ldd(pa + 8 * (i * rs + j * cs), 8) for j in range(cols)] for i in range(rows)]
    if linsys.full_row_rank(S(), A):
        return rows
    T = [[A[i][j] for i in range(rows)] for j in range(cols)]
    if linsys.full_row_rank(S(), T):
        return cols
    raise Unsupported("rank of a matrix without proved full rank")
