"""Deciding equalities collected on a path, and models for counterexamples."""
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from poly import R, ZERO, mono_inv, mono_mul


def clear_inv(s, p):
    """remove inverse variables (w*den=1, den!=0): returns q with p=0 <=> q=0"""
    while True:
        ws = [v for v in p.vars() if v in s.invdef]
        if not ws:
            return p
        w = max(ws)
        den = s.invdef[w]
        byk = {}
        for m, c in p.t.items():
            k = 0
            rest = []
            for v, e in m:
                if v == w:
                    k = e
                else:
                    rest.append((v, e))
            byk.setdefault(k, {})[tuple(rest)] = c
        K = max(max(byk), 0)
        out = ZERO
        for k, t in byk.items():
            out = out + R(t) * den.pow(K - k)
        p = out


class TooLarge(Exception):
    pass


def expand(s, p, limit=300000):
    """multiply out the named products"""
    while s.cutof:
        vs = [v for v in p.vars() if v in s.cutof]
        if not vs:
            break
        v = max(vs)
        a, b = s.cutof[v]
        if len(a.t) * len(b.t) > limit:
            raise TooLarge()
        ab = a * b
        if len(ab.t) * len(p.t) > limit:
            raise TooLarge()
        p = p.subs_poly(v, ab)
    return p


def linear_proof(s, goals, defs, rounds=3, maxeq=4000):
    """prove all goals == 0 from linear combinations of (monomial * definition)"""
    base = [s.posform(clear_inv(s, d[1])) for d in defs]
    base = [b for b in base if b.t]
    if not base:
        return False
    auxk = {"sol", "aux"}
    aux = {v for b in base for v in b.vars() if s.vars[v][1] in auxk}
    if not aux:
        aux = {v for b in base for v in b.vars()}
    index = {}
    for bi, b in enumerate(base):
        for m in b.t:
            a = tuple((v, e) for v, e in m if v in aux)
            if a:
                index.setdefault(a, []).append((bi, m))
    eqs = {}
    todo = set()
    for g in goals:
        todo |= set(g.t)
    seen = set()
    for _ in range(rounds):
        new = set()
        for m in todo:
            if m in seen:
                continue
            seen.add(m)
            a = tuple((v, e) for v, e in m if v in aux)
            if not a:
                continue
            for bi, me in index.get(a, ()):
                q = mono_mul(m, mono_inv(me))
                if any(v in aux for v, _ in q):
                    continue
                k = (bi, q)
                if k in eqs:
                    continue
                e = base[bi].mul_mono(q)
                eqs[k] = e
                new |= set(e.t)
                if len(eqs) > maxeq:
                    break
            # products with one more auxiliary factor
            if len(a) > 1 or (a and a[0][1] > 1):
                for v, e in a:
                    sub = ((v, 1),)
                    for bi, me in index.get(sub, ()):
                        q = mono_mul(m, mono_inv(me))
                        if any(vv in aux and ee < 0 for vv, ee in q):
                            continue
                        k = (bi, q)
                        if k not in eqs:
                            ee = base[bi].mul_mono(q)
                            eqs[k] = ee
                            new |= set(ee.t)
        if _prove_lin(s, goals, eqs.values()):
            return True
        todo = new - seen
        if not todo or len(eqs) > maxeq:
            return False
    return False


def _prove_lin(s, goals, eqs):
    eqs = list(eqs)
    if not eqs:
        return False
    names = {}

    def zv(m):
        r = names.get(m)
        if r is None:
            r = names[m] = z3.Real("m%d" % len(names)) if m else z3.RealVal(1)
        return r

    def lin(p):
        return z3.Sum([z3.RealVal(str(c)) * zv(m) for m, c in p.t.items()])
    forms = [lin(e) == 0 for e in eqs]
    forms.append(z3.Or([lin(g) != 0 for g in goals]))
    r, _ = s.run_z3(forms, s.cfg.vc_timeout_ms)
    return r == z3.unsat


def decide(s, pending):
    """returns list of (msg, diff) not proved"""
    goals = []
    raw = []
    huge = []
    for msg, a, b in pending:
        s.stats.vc += 1
        d = a - b
        if d.is_zero():
            s.stats.norm_discharged += 1
            raw.append((a, b))
            continue
        try:
            g = clear_inv(s, expand(s, d))
        except TooLarge:
            huge.append((msg, d, a, b, "too large"))
            continue
        if g.is_zero():
            s.stats.norm_discharged += 1
            continue
        goals.append((msg, s.posform(g), a, b))
    if raw and s.cfg.confirm_norm:
        confirm(s, raw)
    if not goals:
        return huge[:3]
    vs = set()
    for _, g, _, _ in goals:
        vs |= g.vars()
    cons, defs, allv = s.slice(vs)
    eqcons = [(frozenset(), p, frozenset(p.vars())) for p, sg, _ in cons if sg == frozenset({0})]
    left = []
    if defs or eqcons:
        if linear_proof(s, [g for _, g, _, _ in goals], defs + eqcons):
            return huge[:3]
        for g in goals:
            if not linear_proof(s, [g[1]], defs + eqcons):
                left.append(g)
    else:
        left = goals
    out = []
    quick_refuted = False
    for msg, g, a, b in left:
        if out and not quick_refuted and False:
            pass
        r = nra(s, g)
        if r != "unsat":
            out.append((msg, g, a, b, r))
            if len(out) >= 3:
                break
    return out or huge[:3]


def confirm(s, raw):
    """have the solver confirm the equalities that the simplifier decided (one batched query)"""
    fs = []
    for a, b in raw:
        m = mono_mul((), ())
        neg = {}
        for p in (a, b):
            for mm in p.t:
                for v, e in mm:
                    if e < 0 and e < neg.get(v, 0):
                        neg[v] = e
        q = tuple(sorted((v, -e) for v, e in neg.items()))
        fs.append(s.to_z3(a.mul_mono(q)) != s.to_z3(b.mul_mono(q)))
    r, _ = s.run_z3([z3.Or(fs)], s.cfg.vc_timeout_ms)
    if r == z3.sat:
        raise AssertionError("solver disagrees with the simplifier")


def nra(s, g):
    """path condition and g != 0: unsat / sat / unknown"""
    cons, defs, _ = s.slice(g.vars())
    forms = [s.z3_sign(q, sg) for q, sg, _ in cons] + [s.def_z3(d) for d in defs]
    r, _ = s.run_z3(forms + [s.to_z3(g) != 0], s.cfg.vc_timeout_ms)
    if r == z3.unsat:
        return "unsat"
    if r == z3.sat:
        return "sat"
    r2 = run_cvc5(s, forms + [s.to_z3(g) != 0], s.cfg.cvc5_timeout_s)
    return r2


def run_cvc5(s, forms, timeout):
    sol = z3.Solver()
    sol.add(forms)
    txt = "(set-logic QF_NRA)\n" + sol.to_smt2()
    t = time.time()
    s.stats.cvc5 += 1
    s.stats.queries += 1
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), "-"], input=txt, capture_output=True, text=True,
                           timeout=timeout + 10)
        o = p.stdout.strip().split("\n")
        if "(error" in p.stdout or "(error" in p.stderr:
            r = "unknown"
        else:
            r = o[-1] if o and o[-1] in ("sat", "unsat") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        r = "unknown"
    s.stats.solver_s += time.time() - t
    st = s.stats
    if r == "sat":
        st.sat += 1
    elif r == "unsat":
        st.unsat += 1
    else:
        st.unknown += 1
    return r


# ------------------------------------------------------------------ models
def z3_to_frac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def dyadic(f, k=4):
    return Fraction(round(f * (1 << k)), 1 << k)


def models(s, extra, count, seed, budget_s=25):
    """yield assignments of the inputs that satisfy the path condition (and, when possible, `extra` formulas:
    the violated assertion with a visible difference)"""
    ins = [ref for _, k, ref in s.inputs if k == "real"]
    cons = [s.z3_sign(q, sg) for q, sg, _ in s.cons]
    # definitions of non-solver auxiliaries that occur in path constraints
    cv = set()
    for q, sg, v in s.cons:
        cv |= v
    _, defs, _ = s.slice(cv) if cv else ([], [], set())
    dz = [s.def_z3(d) for d in defs]
    # rounded values: prefer arguments next to a simple value, so that the native rounding agrees with the model
    near = []
    for v, a in s.f32:
        za, zf = s.to_z3(s.posform(a)) if s.posform(a).key() == a.key() else None, s.z3var(v)
        if za is not None:
            e = z3.RealVal("1/%d" % (1 << 26))
            near += [za - zf <= z3.If(zf >= 0, zf, -zf) * e, zf - za <= z3.If(zf >= 0, zf, -zf) * e]
    out = []
    rnd = random.Random(seed)
    deadline = time.time() + budget_s
    variants = []
    if extra is not None:
        variants.append(extra)
        variants.append(extra)
    variants += [None] * count
    for n, ex in enumerate(variants[:max(count, 2)]):
        if time.time() > deadline and out:
            break
        forms = list(cons) + list(dz)
        if ex is not None:
            forms = forms + ex
        lim = [8, 64, 100000][min(n, 2)] if ex is None or n else 8
        m = None
        for L, nr in ((lim, near), (lim, []), (1000000, [])) if near else ((lim, []), (1000000, [])):
            box = list(nr)
            for v in ins:
                x = s.z3var(v)
                box += [x <= L, x >= -L]
            sol = z3.Solver()
            sol.set("timeout", 4000)
            sol.add(forms + box)
            s.stats.queries += 1
            if sol.check() == z3.sat:
                m = sol.model()
                break
        if m is None:
            continue
        vals = {v: z3_to_frac(m.eval(s.z3var(v), model_completion=True)) for v in ins}
        # move to simple, generic values one variable at a time
        sol.set("timeout", 600)
        order = list(ins)
        rnd.shuffle(order)
        if nr:
            order = [v for v, _ in s.f32] + order
            vals.update({v: z3_to_frac(m.eval(s.z3var(v), model_completion=True)) for v, _ in s.f32})
        t0 = time.time()
        for v in order:
            x = s.z3var(v)
            cand = []
            if time.time() - t0 < 6:
                cand = [Fraction(rnd.randint(-48, 48), 16), Fraction(rnd.randint(1, 64), 16), dyadic(vals[v], 4), dyadic(vals[v], 8),
                        dyadic(vals[v], 16)]
            cand.append(vals[v])
            done = False
            for c in cand:
                sol.push()
                sol.add(x == z3.RealVal(str(c)))
                if sol.check() == z3.sat:
                    mm = sol.model()
                    vals = {u: z3_to_frac(mm.eval(s.z3var(u), model_completion=True)) for u in order}
                    vals[v] = c
                    done = True
                    break
                sol.pop()
            if not done:
                break
        res = []
        bvm = None
        if s.bvcons or any(k == "char" for _, k, _ in s.inputs):
            bs = z3.Solver()
            bs.add(s.bvcons)
            if bs.check() == z3.sat:
                bvm = bs.model()
        for nm, k, ref in s.inputs:
            if k == "real":
                res.append((nm, "real", float(vals[ref])))
            elif k == "const":
                res.append((nm, "real", float(ref)))
            elif k == "int":
                res.append((nm, "int", ref))
            else:
                res.append((nm, "int", bvm.eval(ref.e, model_completion=True).as_long() if bvm is not None else 0))
        if res not in out:
            out.append(res)
    return out


def sep_formula(s, goals):
    """the difference is visible: |a-b| > 1e-3 for one goal (denominators cleared: only used as guidance)"""
    fs = []
    for g in goals:
        z = s.to_z3(g)
        fs.append(z > z3.RealVal("1/100"))
        fs.append(z < z3.RealVal("-1/100"))
    cons, defs, _ = s.slice(set().union(*[g.vars() for g in goals]))
    return [z3.Or(fs)] + [s.def_z3(d) for d in defs]
