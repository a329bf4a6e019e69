"""Contract of dense solvers: row rank of a symbolic matrix by elimination over Laurent polynomials."""
from fractions import Fraction

import rtl
from poly import R, ZERO, exact_div, mono_inv, norm

_cache = {}


def nonzero(s, p):
    return 0 not in s.quick_sign(p)


def full_row_rank(s, A):
    """True only if proved: A has full row rank wherever the path condition holds"""
    rows = [{j: a for j, a in enumerate(r) if not a.is_zero()} for r in A]
    if not rows or len(rows) > len(A[0]):
        return False
    vs = set()
    for r in rows:
        for a in r.values():
            vs |= a.vars()
    key = (tuple(tuple((j, a.key()) for j, a in sorted(r.items())) for r in rows),
           tuple((v, tuple(sorted(s.var_signs(v)))) for v in sorted(vs)))
    c = _cache.get(key)
    if c is not None:
        return c
    used_solver = False
    rows = [dict(r) for r in rows]
    active = set(range(len(rows)))
    ok = True
    while active:
        best = None
        for i in active:
            if not rows[i]:
                ok = False
                break
            for j, a in rows[i].items():
                if not nonzero(s, a):
                    continue
                col = sum(1 for k in active if k != i and j in rows[k])
                sc = (len(a.t) > 1, col * (len(rows[i]) - 1) * (1 if len(a.t) == 1 else 4 * len(a.t)), len(a.t))
                if best is None or sc < best[0]:
                    best = (sc, i, j)
        if not ok:
            break
        if best is None:
            # ask the solver for a pivot that cannot vanish
            for i in sorted(active, key=lambda i: len(rows[i])):
                for j, a in sorted(rows[i].items(), key=lambda x: len(x[1].t)):
                    _, p = s.canon(a)
                    used_solver = True
                    if p.is_const() or not feasible_zero(s, p):
                        best = (None, i, j)
                        break
                if best:
                    break
            if best is None:
                ok = False
                break
        _, i, j = best
        piv = rows[i][j]
        active.discard(i)
        mono = len(piv.t) == 1
        for k in list(active):
            a = rows[k].get(j)
            if a is None:
                continue
            new = {}
            f = None
            if mono:
                (m, c), = piv.t.items()
                f = a.mul_mono(mono_inv(m)).scale(norm(Fraction(1) / c))
            else:
                f = exact_div(a, piv)
            if f is not None:
                for jj in set(rows[k]) | set(rows[i]):
                    if jj == j:
                        continue
                    v = rows[k].get(jj, ZERO) - f * rows[i].get(jj, ZERO)
                    if not v.is_zero():
                        new[jj] = v
            else:
                for jj in set(rows[k]) | set(rows[i]):
                    if jj == j:
                        continue
                    v = piv * rows[k].get(jj, ZERO) - a * rows[i].get(jj, ZERO)
                    if not v.is_zero():
                        new[jj] = v
                # drop the common content
                if new:
                    new = strip(s, new)
            rows[k] = new
    if not used_solver:
        _cache[key] = ok
    return ok


def strip(s, row):
    """divide a row by a monomial of known sign"""
    ms = None
    for a in row.values():
        d = dict(a.content_mono())
        if ms is None:
            ms = d
        else:
            ms = {v: min(e, d.get(v, 0)) for v, e in ms.items() if d.get(v, 0)}
    m = tuple(sorted((v, -e) for v, e in (ms or {}).items() if e and 0 not in s.var_signs(v)))
    if not m:
        return row
    return {j: a.mul_mono(m) for j, a in row.items()}


def feasible_zero(s, p):
    import z3
    cons, defs, vs = s.slice(p.vars())
    forms = [s.z3_sign(q, sg) for q, sg, _ in cons] + [s.def_z3(d) for d in defs] + [s.z3_sign(p, {0})]
    r, _ = s.run_z3(forms, s.cfg.feas_timeout_ms)
    return r != z3.unsat


def solve(s, A, b):
    key = ("solve", tuple(tuple(a.key() for a in r) for r in A), tuple(x.key() for x in b))
    r = s.memo.get(key)
    if r is not None:
        return r
    s.stats.solves += 1
    n = len(A[0])
    ok = full_row_rank(s, A)
    vs = [s.newvar("x%d" % j, "sol") for j in range(n)]
    xs = [R.var(v) for v in vs]
    if ok:
        s.contracts.add("dense solver: A x = b for full row rank A (rank proved by elimination)")
        for row, bb in zip(A, b):
            e = -bb
            for a, x in zip(row, xs):
                if not a.is_zero():
                    e = e + a * x
            s.defs.append((frozenset(v for v, a in zip(vs, row) if not a.is_zero()), e, frozenset(e.vars())))
            k = len(s.defs) - 1
            for v, a in zip(vs, row):
                if not a.is_zero():
                    s.defof.setdefault(v, []).append(k)
    else:
        s.notes.append("linear system without proved full row rank")
        s.inexact = True
    s.memo[key] = xs
    return xs
