"""Operations called by the generated code: memory, floating point, library models."""
import math
import struct
from fractions import Fraction

import z3

from poly import R, ZERO, ONE, norm, exact_div, mono_inv
from runtime import (Abort, CppThrow, DBits, Frag, M64, OFFM, Obj, PathEnd, SymInt, UNDEF, Undef, Unsupported,
                     cell_bytes, clear_range, q_of_float, split_cell)

S = None
NAN = float("nan")
INF = float("inf")


# ------------------------------------------------------------------ memory
def ldi(p, n):
    """load an integer or pointer of n bytes"""
    o = S.objs.get(p >> 32) if type(p) is int else None
    if o is None or not o.live:
        o = S.obj(p)
        if type(p) is SymInt:
            p = S.concretize_bv(p)
    off = p & OFFM
    c = o.cells.get(off)
    if c is not None and c[0] == n:
        v = c[1]
        if type(v) is int:
            return v
        if type(v) is R or type(v) is float:
            return DBits(v)
        if type(v) is not Frag:
            return v
    return ld_slow(o, off, n, False)


def ldd(p, n):
    """load a double (n=8) or float (n=4)"""
    o = S.objs.get(p >> 32) if type(p) is int else None
    if o is None or not o.live:
        o = S.obj(p)
    off = p & OFFM
    c = o.cells.get(off)
    if c is not None and c[0] == n:
        v = c[1]
        if type(v) is R or type(v) is float:
            return v
        if v is UNDEF:
            return UNDEF
    return ld_slow(o, off, n, True)


def bits_to_real(v, n):
    f = struct.unpack("<d", struct.pack("<Q", v))[0] if n == 8 else struct.unpack("<f", struct.pack("<I", v))[0]
    if math.isnan(f) or math.isinf(f):
        return f
    return R.const(q_of_float(f))


def byte_at(cells, k):
    for b in range(16):
        c = cells.get(k - b)
        if c is not None:
            n, v = c
            if n <= b:
                return UNDEF
            if type(v) is Frag:
                return v
            cb = cell_bytes(n, v)
            return Frag(v, b, n) if cb is None else cb[b]
    return UNDEF


def ld_slow(o, off, n, fp):
    if off + n > o.size:
        raise Abort("memory", "out-of-bounds read of %d bytes at offset %d of %s object %s (size %d)"
                    % (n, off, o.kind, o.name, o.size))
    cells = o.cells
    bs = [byte_at(cells, k) for k in range(off, off + n)]
    # whole symbolic double?
    f0 = bs[0]
    if type(f0) is Frag:
        if all(type(b) is Frag and b.v is f0.v and b.k == j for j, b in enumerate(bs)) and f0.n == n:
            return f0.v if fp else DBits(f0.v)
        raise Unsupported("partial access to a symbolic double")
    if any(b is UNDEF for b in bs):
        if all(b is UNDEF for b in bs):
            return UNDEF
        if fp:
            return UNDEF
        # partially initialised integer: keep defined bytes only if high bytes undefined -> treat as undef
        return UNDEF
    if any(type(b) is Frag for b in bs):
        raise Unsupported("partial access to a symbolic double")
    if all(type(b) is int for b in bs):
        v = 0
        for j, b in enumerate(bs):
            v |= b << (8 * j)
        return bits_to_real(v, n) if fp else v
    if fp:
        raise Unsupported("double built from symbolic bytes")
    if n == 1:
        return bs[0]
    parts = [z3.BitVecVal(b, 8) if type(b) is int else b.e for b in reversed(bs)]
    return SymInt(z3.simplify(z3.Concat(*parts)), 8 * n)


def _covered(cells, k):
    for b in range(1, 16):
        c2 = cells.get(k - b)
        if c2 is not None:
            return k - b + c2[0] > k
    return False


def st(p, n, v):
    o = S.objs.get(p >> 32) if type(p) is int else None
    if o is None or not o.live:
        o = S.obj(p)
        if type(p) is SymInt:
            p = S.concretize_bv(p)
    off = p & OFFM
    if type(v) is DBits:
        v = v.v
    cells = o.cells
    c = cells.get(off)
    if c is not None and c[0] == n:
        cells[off] = (n, v)
        return
    if off + n > o.size:
        raise Abort("memory", "out-of-bounds write of %d bytes at offset %d of %s object %s (size %d)"
                    % (n, off, o.kind, o.name, o.size))
    if o.kind == "const":
        raise Abort("memory", "write to constant object")
    clear_range(o, off, n)
    cells[off] = (n, v)


def st_agg(p, layout, v):
    for (off, n), x in zip(layout, v):
        st(p + off, n, x)


def memcpy(dst, src, n, *rest):
    if type(n) is not int:
        raise Unsupported("symbolic length in memcpy")
    if n == 0:
        return dst
    so, soff = S.check(src, n)
    do, doff = S.check(dst, n)
    out = []
    cells = so.cells
    end = soff + n
    # head partial
    if cells.get(soff) is None and _covered(cells, soff):
        for b in range(1, 16):
            if soff - b in cells:
                split_cell(so, soff - b)
                break
    if n > 4 * len(cells) + 64:
        keys = sorted(k for k in cells if soff <= k < end)
        i = 0
        while i < len(keys):
            k = keys[i]
            m, v = cells[k]
            if k + m > end:
                split_cell(so, k)
                keys = keys[:i] + sorted(kk for kk in cells if k <= kk < end)
                continue
            out.append((k - soff, m, v))
            i += 1
    else:
        k = soff
        while k < end:
            c = cells.get(k)
            if c is None:
                k += 1
                continue
            if k + c[0] > end:
                split_cell(so, k)
                continue
            out.append((k - soff, c[0], c[1]))
            k += c[0]
    clear_range(do, doff, n)
    dc = do.cells
    for k, m, v in out:
        dc[doff + k] = (m, v)
    return dst


def memset(p, val, n, *rest):
    if n == 0:
        return p
    o, off = S.check(p, n)
    clear_range(o, off, n)
    if type(val) is not int:
        if val is UNDEF:
            return p
        for k in range(n):
            o.cells[off + k] = (1, val)
        return p
    val &= 255
    w = int.from_bytes(bytes([val]) * 8, "little")
    k = 0
    c = o.cells
    while n - k >= 8:
        c[off + k] = (8, w)
        k += 8
    while k < n:
        c[off + k] = (1, val)
        k += 1
    return p


def free_obj(p):
    if p == 0:
        return
    o = S.objs.get(p >> 32)
    if o is None or p & OFFM:
        raise Abort("memory", "free of invalid pointer")
    if not o.live:
        raise Abort("memory", "double free")
    o.live = False
    o.cells = None


def alloc(n, kind="heap"):
    if type(n) is not int:
        raise Unsupported("symbolic allocation size")
    if n > 1 << 31:
        raise Abort("alloc", "allocation of %d bytes" % n)
    return S.new_obj(n, kind)


def free_allocas(lo, hi):
    objs = S.objs
    for i in range(lo, hi):
        o = objs.get(i)
        if o is not None and o.kind == "stack":
            o.live = False
            o.cells = None


# ------------------------------------------------------------------ reals
def rc(c):
    return R.const(c)


def fadd(a, b):
    if type(a) is R and type(b) is R:
        return a + b
    return fspecial("+", a, b)


def fsub(a, b):
    if type(a) is R and type(b) is R:
        return a - b
    return fspecial("-", a, b)


def fmul(a, b):
    if type(a) is R and type(b) is R:
        cut = S.cfg.cut
        if cut and len(a.t) * len(b.t) > cut:
            return cut_product(a, b)
        return a * b
    return fspecial("*", a, b)


def cut_product(a, b):
    """a large product gets a name; it is multiplied out only when a decision depends on it"""
    k = ("cut", frozenset((a.key(), b.key())))
    r = S.memo.get(k)
    if r is None:
        v = S.newvar("prod", "aux")
        r = S.memo[k] = R.var(v)
        S.cutof[v] = (a, b)
    return r


def fneg(a):
    if type(a) is R:
        return -a
    if a is UNDEF:
        return a
    return -a


def fspecial(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is DBits:
        a = a.v
        return {"+": fadd, "-": fsub, "*": fmul, "/": fdiv}[op](a, b)
    if type(b) is DBits:
        b = b.v
        return {"+": fadd, "-": fsub, "*": fmul, "/": fdiv}[op](a, b)
    if a != a or b != b if (type(a) is float and type(b) is float) else (a != a if type(a) is float else b != b):
        return NAN
    if op in "+-":
        if type(a) is float and type(b) is float:
            return a + b if op == "+" else a - b
        if type(a) is float:
            return a
        return b if op == "+" else -b
    sg = lambda x: (1 if x > 0 else -1) if type(x) is float else (1 if S.sign_test(x, {1}) else (0 if S.sign_test(x, {0}) else -1))
    if op == "*":
        s = sg(a) * sg(b)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    if op == "/":
        if type(a) is float and type(b) is float:
            return NAN
        if type(b) is float:
            return ZERO
        s = sg(b)
        s = 1 if s == 0 else s
        return a * s
    raise Unsupported("special arithmetic")


def fdiv(a, b):
    if type(a) is not R or type(b) is not R:
        return fspecial("/", a, b)
    if b.is_const():
        c = b.cval()
        if c:
            return a.scale(norm(Fraction(1) / c))
    if S.sign_test(b, {0}):
        S.notes.append("division by zero")
        if S.sign_test(a, {0}):
            return NAN
        return INF if S.sign_test(a, {1}) else -INF
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return a.mul_mono(mono_inv(m)).scale(norm(Fraction(1) / c))
    q = exact_div(a, b)
    if q is not None:
        return q
    s, m, p = b.primitive()
    return (a.mul_mono(mono_inv(m)).scale(norm(Fraction(1) / s))) * R.var(inv_var(p))


def inv_var(p):
    k = p.key()
    v = S.invmemo.get(k)
    if v is None:
        v = S.newvar("inv", "inv")
        S.invmemo[k] = v
        S.invdef[v] = p
        d = R.var(v) * p - R.const(1)
        S.defs.append((frozenset([v]), d, frozenset(d.vars())))
        S.defof.setdefault(v, []).append(len(S.defs) - 1)
    return v


def define(v, d):
    """record the equation d == 0 as (part of) the definition of auxiliary variable v"""
    S.defs.append((frozenset([v]), d, frozenset(d.vars())))
    S.defof.setdefault(v, []).append(len(S.defs) - 1)


SIGNS = {1: {0}, 2: {1}, 3: {0, 1}, 4: {-1}, 5: {-1, 0}, 6: {-1, 1}}


def fcmp(pred, a, b):
    if type(a) is R and type(b) is R:
        if pred == 7:
            return 1
        if pred == 8:
            return 0
        if pred > 8:
            pred -= 8
        return 1 if S.sign_test(a - b, SIGNS[pred]) else 0
    if type(a) is DBits:
        a = a.v
    if type(b) is DBits:
        b = b.v
    if a is UNDEF or b is UNDEF:
        raise Abort("uninit", "comparison with an uninitialised double")
    if type(a) is R and type(b) is R:
        return fcmp(pred, a, b)
    if (type(a) is float and a != a) or (type(b) is float and b != b):
        return 1 if pred >= 8 else 0
    if pred == 7:
        return 1
    if pred == 8:
        return 0
    p = pred - 8 if pred > 8 else pred
    x = a if type(a) is float else 0.0
    y = b if type(b) is float else 0.0
    d = (x > y) - (x < y)
    return 1 if d in SIGNS[p] else 0


def fmin_(a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return a if fcmp(4, a, b) else b


def fmax_(a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return a if fcmp(2, a, b) else b


def fabs_(a):
    if type(a) is float:
        return abs(a)
    if a is UNDEF:
        return a
    return a if fcmp(3, a, ZERO) else -a


def sqrt_(a):
    if type(a) is float:
        return NAN if a != a or a < 0 else a
    if a.is_const():
        c = Fraction(a.cval())
        if c < 0:
            return NAN
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return R.const(Fraction(n, d))
    if fcmp(4, a, ZERO):
        return NAN
    k = ("sqrt", a.key())
    r = S.memo.get(k)
    if r is None:
        v = S.newvar("sqrt", "aux")
        r = R.var(v)
        define(v, r * r - a)
        S.add_constraint(r, {0, 1})
        S.memo[k] = r
    return r


def opaque(name, args, lo=None, hi=None):
    """uninterpreted real function (functional consistency only)"""
    k = (name,) + tuple(x.key() for x in args)
    r = S.memo.get(k)
    if r is None:
        v = S.newvar(name, "aux")
        r = R.var(v)
        S.memo[k] = r
        S.notes.append("opaque function " + name)
        if lo is not None:
            S.assume_sign(r - R.const(lo), {0, 1})
        if hi is not None:
            S.assume_sign(r - R.const(hi), {0, -1})
    return r


def pow_(a, b):
    if type(b) is R and b.is_const() and type(a) is R:
        e = b.cval()
        if type(e) is int and abs(e) <= 12:
            r = a.pow(abs(e))
            return r if e >= 0 else fdiv(R.const(1), r)
        if e == Fraction(1, 2):
            return sqrt_(a)
    if type(a) is R and type(b) is R:
        return opaque("pow", [a, b])
    raise Unsupported("pow of special value")


def floor_int(a, mode):
    """symbolic real -> concrete integer (forks over all possible values, bounded)"""
    if a.is_const():
        c = Fraction(a.cval())
        if mode == "floor":
            return math.floor(c)
        if mode == "ceil":
            return math.ceil(c)
        if mode == "trunc":
            return math.trunc(c)
        if mode == "round":
            return math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2))
        raise Unsupported(mode)
    if mode == "trunc":
        return floor_int(a, "floor") if fcmp(3, a, ZERO) else floor_int(a, "ceil")
    if mode == "ceil":
        return -floor_int(-a, "floor")
    if mode == "round":
        h = R.const(Fraction(1, 2))
        return floor_int(a + h, "floor") if fcmp(3, a, ZERO) else -floor_int(-a + h, "floor")
    # floor: search outward from 0
    for k in range(0, S.cfg.max_fanout):
        for n in ((k, -k) if k else (0,)):
            if fcmp(3, a, R.const(n)) and fcmp(4, a, R.const(n + 1)):
                return n
    raise PathEnd("cut: integer part beyond the bound")


def fptoint(a, w, signed):
    if type(a) is float:
        return 0
    if a is UNDEF:
        return UNDEF
    return floor_int(a, "trunc") & ((1 << w) - 1)


def inttofp(v, w, signed):
    if v is UNDEF:
        return UNDEF
    if type(v) is SymInt:
        v = S.concretize_bv(v)
    if signed and v >> (w - 1):
        v -= 1 << w
    return R.const(v)


def fptrunc(a):
    """double -> float: rounding is visible, so model the result as anything within half an ulp"""
    if type(a) is not R:
        return a
    if a.is_const():
        f = struct.unpack("<f", struct.pack("<f", float(a.cval())))[0]
        return R.const(q_of_float(f)) if Fraction(f) == Fraction(a.cval()) or True and float(a.cval()) == f else R.const(Fraction(f))
    k = ("fptrunc", a.key())
    r = S.memo.get(k)
    if r is None:
        v = S.newvar("f32", "aux")
        r = R.var(v)
        S.memo[k] = r
        S.notes.append("float rounding")
        S.f32.append((v, a))
        e = Fraction(1, 1 << 23)
        if S.sign_test(a, {0, 1}):
            S.assume_sign(r - a - a.scale(e), {-1, 0})
            S.assume_sign(r - a + a.scale(e), {1, 0})
        else:
            S.assume_sign(r - a + a.scale(e), {-1, 0})
            S.assume_sign(r - a - a.scale(e), {1, 0})
    return r


def is_fpclass(a, mask):
    if type(a) is float:
        if a != a:
            return 1 if mask & 3 else 0
        return 1 if mask & (512 if a > 0 else 4) else 0
    neg, zero, pos = mask & (8 | 16), mask & (32 | 64), mask & (128 | 256)
    if neg and zero and pos:
        return 1
    if not (neg or zero or pos):
        return 0
    want = set()
    if neg:
        want.add(-1)
    if zero:
        want.add(0)
    if pos:
        want.add(1)
    return 1 if S.sign_test(a, want) else 0


# ------------------------------------------------------------------ integers
def SX(v, w, w2):
    if type(v) is int:
        h = 1 << (w - 1)
        return ((v ^ h) - h) & ((1 << w2) - 1)
    if type(v) is SymInt:
        return SymInt(z3.simplify(z3.SignExt(w2 - v.w, v.e)), w2)
    if v is UNDEF:
        return v
    if type(v) is DBits:
        return SX(v._force(), w, w2)
    raise Unsupported("sext")


def ZX(v, w2):
    if type(v) is SymInt:
        return SymInt(z3.simplify(z3.ZeroExt(w2 - v.w, v.e)), w2)
    return v


def TR(v, w):
    if type(v) is SymInt:
        e = z3.simplify(z3.Extract(w - 1, 0, v.e))
        return e.as_long() if z3.is_bv_value(e) else SymInt(e, w)
    if type(v) is DBits and w == 64:
        return v
    return v & ((1 << w) - 1)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def need_int(*vs):
    for v in vs:
        if type(v) is not int:
            if v is UNDEF:
                raise Abort("uninit", "arithmetic on an uninitialised value")
            raise Unsupported("symbolic integer division/shift")


def udiv(a, b, w):
    need_int(a, b)
    if b == 0:
        raise Abort("divzero")
    return a // b


def urem(a, b, w):
    need_int(a, b)
    if b == 0:
        raise Abort("divzero")
    return a % b


def sdiv(a, b, w):
    need_int(a, b)
    a, b = sgn(a, w), sgn(b, w)
    if b == 0:
        raise Abort("divzero")
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & ((1 << w) - 1)


def srem(a, b, w):
    need_int(a, b)
    a, b = sgn(a, w), sgn(b, w)
    if b == 0:
        raise Abort("divzero")
    r = abs(a) % abs(b)
    return (r if a >= 0 else -r) & ((1 << w) - 1)


def ashr(a, b, w):
    need_int(a, b)
    return (sgn(a, w) >> b) & ((1 << w) - 1)


def bc_i2d(v, n):
    """bitcast integer -> double"""
    if type(v) is DBits:
        return v.v
    if v is UNDEF:
        return v
    if type(v) is int:
        return bits_to_real(v, n)
    raise Unsupported("bitcast of symbolic bits")


def bc_d2i(v):
    return v if v is UNDEF else DBits(v)


def cstr(p, limit=4096):
    out = []
    while len(out) < limit:
        b = ldi(p, 1)
        if type(b) is not int:
            raise Unsupported("symbolic C string")
        if b == 0:
            break
        out.append(b)
        p += 1
    return bytes(out).decode("latin1")


STD_BASE = {
    "St9exception": None, "St11logic_error": "St9exception", "St13runtime_error": "St9exception", "St9bad_alloc": "St9exception",
    "St8bad_cast": "St9exception", "St10bad_typeid": "St9exception", "St13bad_exception": "St9exception", "St17bad_function_call": "St9exception",
    "St20bad_array_new_length": "St9bad_alloc", "St11out_of_range": "St11logic_error", "St12out_of_range": "St11logic_error",
    "St12length_error": "St11logic_error", "St16invalid_argument": "St11logic_error", "St12domain_error": "St11logic_error",
    "St11range_error": "St13runtime_error", "St14overflow_error": "St13runtime_error", "St15underflow_error": "St13runtime_error",
    "St12system_error": "St13runtime_error", "St12bad_weak_ptr": "St9exception",
}


def tname(t):
    """type name behind a typeinfo (address of a typeinfo object, or ("std", class) from a runtime helper)"""
    if type(t) is tuple:
        return t[1]
    o = S.prog.global_templates.get(t >> 32)
    n = o.name.split(" ")[0] if o is not None else ""
    return n[4:] if n.startswith("_ZTI") else n


def bases(t):
    n = tname(t)
    if n in STD_BASE:
        b = STD_BASE[n]
        return [("std", b)] if b else []
    if type(t) is tuple:
        return []
    o = S.prog.global_templates.get(t >> 32)
    if o is None or o.kind == "extern":
        return []
    c = o.cells
    vt = c.get(0, (8, 0))[1]
    vo = S.prog.global_templates.get(vt >> 32) if type(vt) is int else None
    vn = vo.name if vo is not None else ""
    if "__si_class_type_info" in vn:
        return [c[16][1]]
    if "__vmi_class_type_info" in vn:
        out = []
        k = 24
        while k in c:
            out.append(c[k][1])
            k += 16
        return out
    return []


def exc_matches(thrown, caught):
    if thrown == caught or tname(thrown) == tname(caught):
        return True
    return any(exc_matches(b, caught) for b in bases(thrown))


def landing(e, cleanup, clauses):
    """(selector-matching) clauses: list of typeinfo addresses, 0 = catch all"""
    for t in clauses:
        if t == 0 or exc_matches(e.tinfo, t):
            S.cur_exc = e
            return (e.ptr, typeid_for(t))
    if cleanup:
        S.cur_exc = e
        return (e.ptr, 0)
    raise e


def typeid_for(t):
    return (t >> 32) & 0x7fffffff or 1
