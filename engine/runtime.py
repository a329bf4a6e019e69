"""State of one symbolic execution path: memory, real constraints, decisions, assertions."""
import struct
import time
from fractions import Fraction

import z3

import poly
from poly import R, ZERO, ONE, norm, mono_mul, mono_inv, exact_div

M64 = (1 << 64) - 1
OFFM = (1 << 32) - 1


class PathEnd(Exception):
    """normal or assumed-away end of a path"""


class Abort(Exception):
    """the program under analysis terminates abnormally"""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail


class Unsupported(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, ptr, tinfo, dtor=0):
        Exception.__init__(self, "c++ exception")
        self.ptr = ptr
        self.tinfo = tinfo


class Undef:
    __slots__ = ()

    def _s(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = _s
    __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _s
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __neg__ = __invert__ = _s

    def _bad(self, *a):
        raise Abort("uninit", "branch or access depends on an uninitialised value")

    __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __index__ = _bad
    __hash__ = object.__hash__

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class DBits:
    """a double held in an integer register (only moved around)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _force(self):
        v = self.v
        if isinstance(v, R) and not v.is_const():
            raise Unsupported("bit pattern of a symbolic double")
        f = float(v.cval()) if isinstance(v, R) else v
        return struct.unpack("<Q", struct.pack("<d", f))[0]

    def __and__(self, o):
        if type(o) is int and o == M64:
            return self
        return self._force() & o

    __rand__ = __and__

    def __or__(self, o):
        return self._force() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self._force() ^ o

    __rxor__ = __xor__

    def __rshift__(self, o):
        return self._force() >> o

    def __lshift__(self, o):
        return self._force() << o

    def __add__(self, o):
        return self._force() + o

    def __sub__(self, o):
        return self._force() - o

    def __eq__(self, o):
        return self._force() == (o._force() if type(o) is DBits else o)

    def __lt__(self, o):
        return self._force() < (o._force() if type(o) is DBits else o)

    __hash__ = None


class SymInt:
    """symbolic bit-vector value (unsigned view)"""
    __slots__ = ("e", "w")

    def __init__(self, e, w):
        self.e = e
        self.w = w

    def _c(self, o):
        if type(o) is int:
            return z3.BitVecVal(o, self.w)
        return o.e

    def _mk(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return SymInt(e, self.w)

    def __and__(self, o):
        if type(o) is int and o & ((1 << self.w) - 1) == (1 << self.w) - 1:
            return self
        return self._mk(self.e & self._c(o))

    __rand__ = __and__

    def __or__(self, o):
        return self._mk(self.e | self._c(o))

    __ror__ = __or__

    def __xor__(self, o):
        return self._mk(self.e ^ self._c(o))

    __rxor__ = __xor__

    def __add__(self, o):
        return self._mk(self.e + self._c(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self._mk(self.e - self._c(o))

    def __rsub__(self, o):
        return self._mk(self._c(o) - self.e)

    def __mul__(self, o):
        return self._mk(self.e * self._c(o))

    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._mk(self.e << self._c(o))

    def __rshift__(self, o):
        return self._mk(z3.LShR(self.e, self._c(o)))

    def __eq__(self, o):
        return S.decide_bv(self.e == self._c(o))

    def __ne__(self, o):
        return not S.decide_bv(self.e == self._c(o))

    def __lt__(self, o):
        return S.decide_bv(z3.ULT(self.e, self._c(o)))

    def __le__(self, o):
        return S.decide_bv(z3.ULE(self.e, self._c(o)))

    def __gt__(self, o):
        return S.decide_bv(z3.UGT(self.e, self._c(o)))

    def __ge__(self, o):
        return S.decide_bv(z3.UGE(self.e, self._c(o)))

    def __bool__(self):
        return not S.decide_bv(self.e == 0)

    __hash__ = None


class Obj:
    __slots__ = ("size", "cells", "live", "kind", "name")

    def __init__(self, size, cells, kind, name=""):
        self.size = size
        self.cells = cells
        self.live = True
        self.kind = kind
        self.name = name


def q_of_float(x):
    """double constant -> rational; decimal/short fractions are taken as the number meant."""
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return norm(f)
    g = f.limit_denominator(5000)
    if float(g) == x:
        return norm(g)
    g = Fraction(repr(x))
    return norm(g)


class Config:
    """limits of one exploration"""
    max_steps = 3_000_000
    feas_timeout_ms = 4000
    vc_timeout_ms = 12000
    cvc5_timeout_s = 20
    cross_check = False
    max_fanout = 24
    n_models = 4
    confirm_norm = True
    cut = None              # products with more terms than this get a name (see rtl.cut_product)
    debug = False

    def __init__(self, params=None, fixed=None, **kw):
        self.params = params or {}
        self.fixed = fixed or {}
        self.__dict__.update(kw)


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.vc = 0
        self.asserts = 0
        self.norm_discharged = 0
        self.solves = 0
        self.cvc5 = 0
        self.cross = 0

    def asdict(self):
        return dict(self.__dict__)


class PathState:
    def __init__(self, prog, prefix, cfg):
        self.prog = prog
        self.cfg = cfg
        self.prefix = prefix
        self.trace = []
        self.newprefixes = []
        poly.clear_square_rules()
        self.objs = {}
        self.next_id = prog.first_free_id
        self.steps = 0
        self.vars = []          # id -> (name, kind)
        self.input_count = {}
        self.inputs = []        # list of (name, kind, ref)
        self.facts = {}         # canonical poly key -> set of signs
        self.prims = {}         # key -> R
        self.cons = []          # list of (R, frozenset(signs), frozenset(vars)) path constraints
        self.defs = []          # list of (defvars frozenset, R==0, vars)
        self.defof = {}         # var -> [index in defs]
        self.invmemo = {}
        self.cutof = {}         # named product -> factors
        self.axes = []          # rotation axes
        self.expof = {}         # var -> (c, s, g, d, d.d)
        self.logof = {}         # var -> quaternion
        self.invdef = {}        # inv var -> den R
        self.bvcons = []
        self.bvsolver = None
        self.pending = []       # (id, R diff, a, b)
        self.expect_abort = False
        self.reach = {}
        self.assert_ids = {}
        self.f32 = []
        self.notes = []
        self.solve_memo = {}
        self.memo = {}
        self.stats = Stats()
        self.z3vars = {}
        self.candidates = []
        self.undecided = []
        self.choices = []
        self.events = []
        self.maybe_infeasible = False
        self.guard_state = {}
        self.exc_objs = {}
        self.ranges = {}
        self.strcache = {}
        self.allow_abort = False
        self.catch_stack = []
        self.cur_exc = None
        self.inexact = False
        self.contracts = set()

    # ---------------------------------------------------------------- variables
    def newvar(self, name, kind):
        v = len(self.vars)
        self.vars.append((name, kind))
        return v

    def vname(self, v):
        return self.vars[v][0]

    def z3var(self, v):
        r = self.z3vars.get(v)
        if r is None:
            r = self.z3vars[v] = z3.Real("%s!%d" % (self.vars[v][0], v))
        return r

    def to_z3(self, p):
        """polynomial with non-negative exponents -> z3 term"""
        terms = []
        for m, c in p.t.items():
            f = []
            if c != 1 or not m:
                f.append(z3.RealVal(str(c)))
            for v, e in m:
                x = self.z3var(v)
                if e < 0:
                    raise AssertionError("negative exponent")
                f.extend([x] * e)
            t = f[0]
            for y in f[1:]:
                t = t * y
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    # ---------------------------------------------------------------- signs
    def var_signs(self, v):
        f = self.facts.get(frozenset({((v, 1),): 1}.items()))
        if f is not None:
            return f
        if v in self.invdef:
            s = self.quick_sign(self.invdef[v])
            s = s - {0}
            return s or {-1, 1}
        return {-1, 0, 1}

    def mono_signs(self, m):
        s = {1}
        for v, e in m:
            vs = self.var_signs(v)
            if e < 0:
                vs = vs - {0}
            if e % 2 == 0:
                vs = {x * x for x in vs}
            s = {a * b for a in s for b in vs}
        return s

    def quick_sign(self, p):
        """over-approximate set of signs of p from the signs of its variables and known facts"""
        if p.is_const():
            c = p.cval()
            return {(c > 0) - (c < 0)}
        f = self.facts.get(p.key())
        if f is not None:
            return f
        pos = neg = zero_possible = False
        allzero_possible = True
        for m, c in p.t.items():
            s = self.mono_signs(m)
            if c < 0:
                s = {-x for x in s}
            if 1 in s:
                pos = True
            if -1 in s:
                neg = True
            if 0 not in s:
                allzero_possible = False
            if pos and neg:
                return {-1, 0, 1}
        r = set()
        if pos:
            r.add(1)
        if neg:
            r.add(-1)
        if allzero_possible:
            r.add(0)
        return r

    def canon(self, d):
        """d (non const) -> (flip, canonical poly with the same sign up to flip).  Monomial factors of
        known positive sign are dropped, other ones kept with exponent parity where possible."""
        s, m, p = d.primitive()
        flip = 1 if s > 0 else -1
        keep = []
        for v, e in m:
            vs = self.var_signs(v)
            if e < 0:
                vs = vs - {0}
            if vs == {1}:
                continue
            if vs == {-1}:
                if e % 2:
                    flip = -flip
                continue
            if 0 not in vs or e < 0:
                if e % 2:
                    keep.append((v, 1))
            else:
                keep.append((v, 2 if e % 2 == 0 else 1))
        if keep:
            p = p.mul_mono(tuple(keep))
        # leading sign normalisation
        lead = max(p.t)
        if p.t[lead] < 0:
            p = -p
            flip = -flip
        return flip, p

    # ---------------------------------------------------------------- feasibility
    def slice(self, seedvars):
        """constraints relevant to the seed variables: path constraints connected to them, and the
        definitions of auxiliary variables that occur."""
        vs = set(seedvars)
        used_c = set()
        used_d = set()
        changed = True
        while changed:
            changed = False
            for i, (p, sg, pv) in enumerate(self.cons):
                if i not in used_c and not vs.isdisjoint(pv):
                    used_c.add(i)
                    if not pv <= vs:
                        vs |= pv
                    changed = True
            for v in list(vs):
                if v in self.cutof and v not in self.defof:
                    a, b = self.cutof[v]
                    if len(a.t) * len(b.t) > 100000:
                        self.defof[v] = []      # left unconstrained
                        continue
                    d = R.var(v) - a * b
                    self.defs.append((frozenset([v]), d, frozenset(d.vars())))
                    self.defof[v] = [len(self.defs) - 1]
                for i in self.defof.get(v, ()):
                    if i not in used_d:
                        used_d.add(i)
                        vs |= self.defs[i][2]
                        changed = True
        return [self.cons[i] for i in sorted(used_c)], [self.defs[i] for i in sorted(used_d)], vs

    def z3_sign(self, p, signs):
        z = self.to_z3(p)
        if signs == {1}:
            return z > 0
        if signs == {-1}:
            return z < 0
        if signs == {0}:
            return z == 0
        if signs == {0, 1}:
            return z >= 0
        if signs == {-1, 0}:
            return z <= 0
        if signs == {-1, 1}:
            return z != 0
        return z3.BoolVal(bool(signs))

    def run_z3(self, forms, timeout_ms):
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        for f in forms:
            s.add(f)
        t = time.time()
        r = s.check()
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r, s

    def def_z3(self, d):
        p = self.posform(d[1])
        return self.to_z3(p) == 0

    def posform(self, p):
        """multiply with a monomial so that no exponent is negative (only for ==0 use, or when the
        variables are non zero)"""
        m = p.content_mono()
        neg = tuple((v, -e) for v, e in m if e < 0)
        return p.mul_mono(neg) if neg else p

    def feasible(self, p, signs):
        """is (path condition and sign(p) in signs) satisfiable?  True also when unknown."""
        cons, defs, vs = self.slice(p.vars())
        forms = [self.z3_sign(q, sg) for q, sg, _ in cons]
        forms += [self.def_z3(d) for d in defs]
        forms.append(self.z3_sign(p, signs))
        r, _ = self.run_z3(forms, self.cfg.feas_timeout_ms)
        if r == z3.unknown:
            self.maybe_infeasible = True
        return r != z3.unsat

    def add_constraint(self, p, signs):
        k = p.key()
        old = self.facts.get(k, {-1, 0, 1})
        new = old & signs
        self.facts[k] = new
        nk = (-p).key()
        self.facts[nk] = {-x for x in new}
        if new != old:
            self.cons.append((p, frozenset(signs), frozenset(p.vars())))

    def pick(self, options):
        """take one of several possible continuations (recorded decision)"""
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = options[0]
            for o in options[1:]:
                self.newprefixes.append(self.trace + [o])
        self.trace.append(c)
        return c

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def sign_test(self, d, want):
        """decide whether sign(d) is in `want`; forks the path when both are possible"""
        if d.is_const():
            c = d.cval()
            return ((c > 0) - (c < 0)) in want
        flip, p = self.canon(d)
        if flip < 0:
            want = {-x for x in want}
        poss = self.quick_sign(p)
        if p.is_const():
            return next(iter(poss)) in want
        yes = poss & want
        no = poss - want
        if not no:
            return True
        if not yes:
            return False
        if self.replaying():
            c = self.pick(None)
        else:
            fy = self.feasible(p, yes)
            fn = self.feasible(p, no) if fy else True
            if fy and fn:
                c = self.pick([1, 0])
            elif fy:
                c = self.pick([1])
            else:
                c = self.pick([0])
        self.add_constraint(p, yes if c else no)
        return bool(c)

    def assume_sign(self, d, want):
        if d.is_const():
            c = d.cval()
            if ((c > 0) - (c < 0)) not in want:
                raise PathEnd("assume")
            return
        flip, p = self.canon(d)
        if flip < 0:
            want = {-x for x in want}
        poss = self.quick_sign(p)
        yes = poss & want
        if not yes:
            raise PathEnd("assume")
        if yes == poss:
            return
        if not self.replaying():
            if not self.feasible(p, yes):
                self.pick([0])
                raise PathEnd("assume")
            self.pick([1])
        else:
            if not self.pick(None):
                raise PathEnd("assume")
        self.add_constraint(p, yes)

    def decide_bv(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.replaying():
            c = self.pick(None)
        else:
            opts = []
            for val, f in ((1, e), (0, z3.Not(e))):
                r, _ = self.run_z3(self.bvcons + [f], self.cfg.feas_timeout_ms)
                if r != z3.unsat:
                    opts.append(val)
            c = self.pick(opts)
        self.bvcons.append(e if c else z3.Not(e))
        return bool(c)

    def concretize_bv(self, si):
        """fork over all feasible values of a symbolic integer"""
        if self.replaying():
            c = self.pick(None)
        else:
            vals = []
            block = []
            while True:
                r, s = self.run_z3(self.bvcons + block, self.cfg.feas_timeout_ms)
                if r != z3.sat:
                    break
                v = s.model().eval(si.e, model_completion=True).as_long()
                vals.append(v)
                block.append(si.e != v)
                if len(vals) > self.cfg.max_fanout:
                    raise Unsupported("too many values of a symbolic integer")
            c = self.pick(vals)
        self.bvcons.append(si.e == c)
        return c

    # ---------------------------------------------------------------- memory
    def new_obj(self, size, kind, name=""):
        i = self.next_id
        self.next_id = i + 1
        self.objs[i] = Obj(size, {}, kind, name)
        return i << 32

    def obj(self, p):
        if type(p) is not int:
            if type(p) is SymInt:
                p = self.concretize_bv(p)
            elif p is UNDEF:
                raise Abort("uninit", "access through an uninitialised pointer")
            else:
                raise Unsupported("access through a non-pointer value")
        i = p >> 32
        o = self.objs.get(i)
        if o is None:
            t = self.prog.global_templates.get(i)
            if t is None:
                raise Abort("memory", "access to invalid address %#x" % p)
            o = Obj(t.size, dict(t.cells), t.kind, t.name)
            self.objs[i] = o
        if not o.live:
            raise Abort("memory", "use after free of %s object (size %d)" % (o.kind, o.size))
        return o

    def check(self, p, n):
        o = self.obj(p)
        off = p & OFFM
        if off + n > o.size:
            raise Abort("memory", "out-of-bounds access of %d bytes at offset %d of %s object %s (size %d)"
                        % (n, off, o.kind, o.name, o.size))
        return o, off


def cell_bytes(n, v):
    """cell value -> list of n byte values (ints or SymInt) or None"""
    if type(v) is int:
        return [(v >> (8 * k)) & 255 for k in range(n)]
    if isinstance(v, R):
        if v.is_const():
            f = float(v.cval())
            b = struct.pack("<d", f) if n == 8 else struct.pack("<f", f)
            return list(b)
        return None
    if type(v) is float:
        return list(struct.pack("<d", v) if n == 8 else struct.pack("<f", v))
    if type(v) is SymInt:
        if v.w == 8:
            return [v]
        return [SymInt(z3.simplify(z3.Extract(8 * k + 7, 8 * k, v.e)), 8) for k in range(n)]
    if v is UNDEF:
        return [UNDEF] * n
    return None


def split_cell(o, off):
    n, v = o.cells.pop(off)
    bs = cell_bytes(n, v)
    if bs is None:
        for k in range(n):
            o.cells[off + k] = (1, Frag(v, k, n))
        return
    for k, b in enumerate(bs):
        if b is not UNDEF:
            o.cells[off + k] = (1, b)


class Frag:
    """one byte of a symbolic double (can be moved and reassembled)"""
    __slots__ = ("v", "k", "n")

    def __init__(self, v, k, n):
        self.v, self.k, self.n = v, k, n


def clear_range(o, off, n):
    cells = o.cells
    lo = off - 15
    for k in range(lo if lo > 0 else 0, off):
        c = cells.get(k)
        if c is not None and k + c[0] > off:
            split_cell(o, k)
    end = off + n
    if n <= 64 or n < len(cells) * 2:
        k = off
        while k < end:
            c = cells.get(k)
            if c is None:
                k += 1
                continue
            if k + c[0] > end:
                split_cell(o, k)
                continue
            del cells[k]
            k += c[0]
    else:
        for k in [k for k in cells if off <= k < end]:
            c = cells.get(k)
            if c is None:
                continue
            if k + c[0] > end:
                split_cell(o, k)
                cells.pop(k, None)
                for kk in range(k, end):
                    cells.pop(kk, None)
            else:
                del cells[k]


S = None  # current PathState


def set_state(s):
    global S
    S = s
    import rtl
    rtl.S = s
