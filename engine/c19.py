"""C19: all interleavings of concurrent calls to KeyGenerator::getNextKey.

Every thread's calls are executed symbolically from the LLVM IR of the real code; a read of shared memory (globals that are not thread
local, and heap objects that exist before the threads start) gives an unconstrained bit-vector and every shared read, write, atomic
operation, lock and unlock becomes an event. For each combination of thread paths one SMT query asks for an order of the events
(program order, mutual exclusion of critical sections, each read sees the last write before it) under which two of the returned keys are equal.
A satisfying order is a counterexample; it is confirmed by running the real code, instrumented at every memory access, under
controlled schedules (harness/sched_rt.cpp)."""
import itertools
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import time

import z3

import check
import llvmc
import models
import prog
import rtl
import runtime
from llvmc import L
from runtime import Abort, CppThrow, PathEnd, PathState, SymInt, UNDEF, Unsupported

MAXEV = 80          # shared events of one thread
MAXSAME = 5         # reads of one location in one call (longer busy waiting is outside the bound)


# ------------------------------------------------------------------ one thread
class SharedGen(prog.FuncGen):
    def load_expr(self, a, ty):
        k = L.LLVMGetTypeKind(ty)
        if k in (8, 12):
            w = self.width(ty)
            e = "shld(%s,%d)" % (a, self.sz(ty))
            return "(%s)&%d" % (e, (1 << w) - 1) if w % 8 else e
        return super().load_expr(a, ty)

    def emit(self, b, i, ind):
        op = L.LLVMGetInstructionOpcode(i)
        sp = " " * ind
        o = self.lines
        if op == 28:
            vt = self.ty(L.LLVMGetOperand(i, 0))
            if L.LLVMGetTypeKind(vt) in (8, 12):
                v, a = self.ops(i)
                o.append(sp + "shst(%s,%d,%s)" % (a, self.sz(vt), v))
                return
        if op == 57:
            a, v = self.ops(i)[:2]
            o.append(sp + "%s=shrmw(%s,%d,%d,%s)" % (self.ref(i), a, self.sz(self.ty(i)), L.LLVMGetAtomicRMWBinOp(i), v))
            return
        if op == 56:
            a, c, v = self.ops(i)[:3]
            o.append(sp + "%s=shcas(%s,%d,%s,%s)" % (self.ref(i), a, self.sz(self.ty(L.LLVMGetOperand(i, 1))), c, v))
            return
        super().emit(b, i, ind)


prog_FuncGen = prog.FuncGen


def is_shared(a):
    S = runtime.S
    if S.th is None or type(a) is not int:
        return False
    i = a >> 32
    return i in S.shared


def fresh(n):
    S = runtime.S
    S.nread += 1
    return SymInt(z3.BitVec("r_%d_%d" % (S.th, S.nread), 8 * n), 8 * n)


def event(*e):
    S = runtime.S
    S.events.append(e)
    if e[0] == "C":
        S.same = {}
    if e[0] in ("R", "A"):
        n = S.same[e[1]] = S.same.get(e[1], 0) + 1
        if n > MAXSAME:
            raise PathEnd("cut")
    if len(S.events) > MAXEV:
        raise PathEnd("cut")


def shld(a, n):
    if not is_shared(a):
        return rtl.ldi(a, n)
    v = fresh(n)
    event("R", a, n, v.e, None)
    return v


def bv(v, n):
    if type(v) is int:
        return z3.BitVecVal(v, 8 * n)
    if type(v) is SymInt:
        return v.e
    raise Unsupported("store of %r to shared memory" % (type(v).__name__,))


def shst(a, n, v):
    if not is_shared(a):
        return rtl.st(a, n, v)
    event("W", a, n, None, bv(v, n))


def shrmw(a, n, op, v):
    if not is_shared(a):
        old = rtl.ldi(a, n)
        m = (1 << (8 * n)) - 1
        new = {0: lambda: v, 1: lambda: (old + v) & m, 2: lambda: (old - v) & m, 3: lambda: old & v, 5: lambda: old | v, 6: lambda: old ^ v}[op]()
        rtl.st(a, n, new)
        return old
    r = fresh(n)
    x = bv(v, n)
    f = {0: x, 1: r.e + x, 2: r.e - x, 3: r.e & x, 5: r.e | x, 6: r.e ^ x}.get(op)
    if f is None:
        raise Unsupported("atomicrmw %d" % op)
    event("A", a, n, r.e, f)
    return r


def shcas(a, n, c, v):
    if not is_shared(a):
        old = rtl.ldi(a, n)
        if old == c:
            rtl.st(a, n, v)
            return (old, 1)
        return (old, 0)
    r = fresh(n)
    if runtime.S.decide_bv(r.e == bv(c, n)):
        event("A", a, n, r.e, bv(v, n))
        return (r, 1)
    event("R", a, n, r.e, None)
    return (r, 0)


def lock(m, mode="X"):
    S = runtime.S
    if S.th is None:
        return 0
    h = S.held.setdefault(m, 0)
    if h and mode == "X" and not recursive(m):
        raise Abort("deadlock", "a thread locks a mutex it already holds")
    S.held[m] = h + 1
    if not h and is_shared(m):
        event("L" if mode == "X" else "LR", m, 0, None, None)
    return 0


def recursive(m):
    S = runtime.S
    o = S.obj(m) if hasattr(S, "obj") else None
    try:
        th, S.th = S.th, None
        k = rtl.ldi(m + 16, 4)
    except Exception:
        k = 0
    finally:
        S.th = th
    return type(k) is int and k & 3 == 1 or m in S.recursive


def unlock(m):
    S = runtime.S
    if S.th is None:
        return 0
    if not S.held.get(m):
        raise Abort("deadlock", "a thread unlocks a mutex it does not hold")
    S.held[m] -= 1
    if not S.held[m] and is_shared(m):
        event("U", m, 0, None, None)
    return 0


def trylock(m):
    S = runtime.S
    if S.th is None or not is_shared(m):
        return 0
    S.nread += 1
    if S.held.get(m) or S.decide_bv(z3.BitVec("try_%d_%d" % (S.th, S.nread), 1) == 0):
        return 16
    return lock(m)


def guard_acquire(g):
    S = runtime.S
    if S.th is None:
        if rtl.ldi(g, 1):
            return 0
        return 1
    lock(g + (1 << 20))
    if shld(g, 1) == 0:
        return 1
    unlock(g + (1 << 20))
    return 0


def guard_release(g):
    shst(g, 1, 1)
    unlock(g + (1 << 20))


def mutex_init(m, attr=0):
    S = runtime.S
    if type(attr) is int and attr:
        S.recursive.add(m)
    return 0


OVERRIDE = {
    "pthread_mutex_lock": lock, "pthread_mutex_unlock": unlock, "pthread_mutex_trylock": trylock, "pthread_mutex_init": mutex_init, "__cxa_guard_acquire": guard_acquire,
    "__cxa_guard_release": guard_release, "__cxa_guard_abort": lambda g: unlock(g + (1 << 20)),
    "pthread_rwlock_wrlock": lock, "pthread_rwlock_unlock": unlock, "pthread_rwlock_rdlock": lambda m: lock(m, "S"),
    "pthread_spin_lock": lock, "pthread_spin_unlock": unlock, "pthread_mutexattr_init": lambda a: 0, "pthread_mutexattr_settype": lambda a, t: 0,
    "pthread_mutexattr_destroy": lambda a: 0, "sched_yield": lambda: 0, "pthread_mutex_destroy": lambda m: 0,
    "__cxa_thread_atexit": lambda *a: 0,
}


class ThreadProgram(prog.Program):
    def resolve(self, n):
        f = OVERRIDE.get(n)
        if f is not None:
            return f
        return super().resolve(n)

    def ns_setup(self):
        new = not self.ns
        super().ns_setup()
        if new:
            for f in (shld, shst, shrmw, shcas):
                self.ns[f.__name__] = f

    def compile(self, name):
        prog.FuncGen = SharedGen
        try:
            return super().compile(name)
        finally:
            prog.FuncGen = prog_FuncGen


def thread_paths(p, th, calls, warm, cfg):
    """all paths of one thread: list of dict(events, cons, keys), and problems"""
    tls = {p.gaddr[g] >> 32 for g in llvmc.globals_(p.mod) if L.LLVMIsThreadLocal(g)}
    glob = {p.gaddr[g] >> 32 for g in llvmc.globals_(p.mod)} - tls
    out = []
    stack = [[]]
    stats = runtime.Stats()
    cut = 0
    executed = set()
    while stack:
        prefix = stack.pop()
        s = PathState(p, prefix, cfg)
        s.th = None
        s.shared = set()
        s.nread = 0
        s.held = {}
        s.recursive = set()
        runtime.set_state(s)
        p.executed = set()
        keys = []
        end = "end"
        why = ""
        try:
            for c in p.ctors:
                p.resolve(c)()
            for _ in range(warm):
                keys.append(bv(p.resolve("h_next")(), 8))
            s.shared = set(glob) | {i for i in range(p.first_free_id, s.next_id)}
            # thread local objects start afresh in every thread
            for i in tls:
                if i in s.objs:
                    del s.objs[i]
            s.th = th
            for _ in range(calls):
                event("C", 0, 0, None, None)
                keys.append(bv(p.resolve("h_next")(), 8))
                event("E", 0, 0, None, None)
            held = [m for m, n in s.held.items() if n]
            if held:
                end, why = "hang", "a call returns with a lock still held"
        except PathEnd as e:
            end = str(e)
        except Abort as e:
            end, why = ("hang" if e.kind == "deadlock" else "crash"), "%s: %s" % (e.kind, e.detail)
        except CppThrow as e:
            end, why = "crash", "uncaught exception"
        stack.extend(s.newprefixes)
        executed |= p.executed
        for k in ("queries", "sat", "unsat", "unknown", "solver_s"):
            setattr(stats, k, getattr(stats, k) + getattr(s.stats, k))
        if end == "cut":
            cut += 1
            continue
        init = {}
        th_, s.th = s.th, None
        for e in s.events:
            if e[0] in ("R", "W", "A"):
                try:
                    init[e[1], e[2]] = bv(rtl.ldi(e[1], e[2]), e[2])
                except (Abort, Unsupported):
                    init[e[1], e[2]] = None
        out.append(dict(events=list(s.events), cons=list(s.bvcons), keys=keys, end=end, why=why, init=init))
        if len(out) > 400:
            raise Unsupported("too many paths of one thread")
    return out, stats, cut, executed


# ------------------------------------------------------------------ interleavings
def combine(paths, warm):
    """formulas for: these thread paths run concurrently"""
    f = []
    clock = {}
    for t, p in enumerate(paths):
        f += p["cons"]
        prev = None
        for k, e in enumerate(p["events"]):
            c = clock[t, k] = z3.Int("c_%d_%d" % (t, k))
            f.append(c > prev if prev is not None else c >= 0)
            prev = c
    locs = {}
    init = {}
    for t, p in enumerate(paths):
        init.update(p["init"])
        for k, e in enumerate(p["events"]):
            if e[0] in ("R", "W", "A"):
                locs.setdefault((e[1], e[2]), []).append((t, k, e))
    ls = sorted(locs)
    for (a, n), (b, m) in zip(ls, ls[1:]):
        if a >> 32 == b >> 32 and a + n > b and any(e[0] != "R" for _, _, e in locs[a, n] + locs[b, m]):
            raise Unsupported("overlapping accesses of different size")
    for l, evs in locs.items():
        ws = [x for x in evs if x[2][0] in ("W", "A")]
        for x, y in itertools.combinations(evs, 2):
            if x[0] != y[0] and (x[2][0] != "R" or y[2][0] != "R"):
                f.append(clock[x[0], x[1]] != clock[y[0], y[1]])
        for r in evs:
            if r[2][0] not in ("R", "A"):
                continue
            cr = clock[r[0], r[1]]
            others = [w for w in ws if w is not r]
            alts = []
            cw = {id(w): clock[w[0], w[1]] for w in others}
            if init[l] is not None:
                alts.append(z3.And([r[2][3] == init[l]] + [cw[id(w)] > cr for w in others]))
            else:
                alts.append(z3.And([cw[id(w)] > cr for w in others] + [z3.BoolVal(True)]))
            for w in others:
                alts.append(z3.And([r[2][3] == w[2][4], cw[id(w)] < cr] + [z3.Or(cw[id(o)] < cw[id(w)], cw[id(o)] > cr) for o in others if o is not w]))
            f.append(z3.Or(alts))
    secs = {}
    for t, p in enumerate(paths):
        open_ = {}
        for k, e in enumerate(p["events"]):
            if e[0] in ("L", "LR"):
                open_[e[1]] = (k, e[0])
            elif e[0] == "U":
                k0, m = open_.pop(e[1])
                secs.setdefault(e[1], []).append((t, k0, k, m))
        for m, (k0, md) in open_.items():
            secs.setdefault(m, []).append((t, k0, None, md))
    for m, ss in secs.items():
        for x, y in itertools.combinations(ss, 2):
            if x[0] == y[0] or (x[3] == "LR" and y[3] == "LR"):
                continue
            alts = []
            if x[2] is not None:
                alts.append(clock[x[0], x[2]] < clock[y[0], y[1]])
            if y[2] is not None:
                alts.append(clock[y[0], y[2]] < clock[x[0], x[1]])
            f.append(z3.Or(alts) if alts else z3.BoolVal(False))
    keys = []
    for t, p in enumerate(paths):
        keys += p["keys"] if t == 0 else p["keys"][warm:]
    bad = z3.Or([a == b for a, b in itertools.combinations(keys, 2)] + [z3.BoolVal(False)])
    return f, bad, clock


def long_run(p, cfg, tot):
    """keys of one thread over any number of calls: when a call's only effect is to advance one counter by a constant (shown by the
    solver for every counter value), the key of call n is a known function of n; can two of the first 2^62 calls give the same key?
    returns (status, n1, n2)"""
    ps, st, cut, _ = thread_paths(p, 0, 1, 1, cfg)
    ps = [x for x in ps if x["end"] == "end"]
    written = {(e[1], e[2]) for x in ps for e in x["events"] if e[0] in ("W", "A")}
    steady = []
    for x in ps:
        # run the events in program order from the state after one call, with one location symbolic
        ok = True
        for e in x["events"]:
            if e[0] in ("R", "W", "A") and x["init"][e[1], e[2]] is None:
                ok = False
        if ok:
            steady.append(x)
    cands = []
    for loc in sorted(written):
        v = z3.BitVec("counter", 8 * loc[1])
        outs = []
        for x in steady:
            mem = dict(x["init"])
            if loc in mem:
                mem[loc] = v
            sub = []
            for e in x["events"]:
                k = (e[1], e[2])
                if e[0] in ("R", "A"):
                    sub.append((e[3], mem[k]))
                if e[0] in ("W", "A"):
                    mem[k] = z3.simplify(z3.substitute(e[4], *sub)) if sub else e[4]
            cons = [z3.simplify(z3.substitute(c, *sub)) if sub else c for c in x["cons"]]
            tot["queries"] += 1
            sol = z3.Solver()
            sol.add(cons)
            if sol.check() == z3.unsat:
                continue
            key = z3.simplify(z3.substitute(x["keys"][-1], *sub)) if sub else x["keys"][-1]
            changed = {k for k, e in mem.items() if k != loc and not z3.eq(z3.simplify(e), z3.simplify(x["init"][k]))}
            outs.append((cons, mem.get(loc, v), key, changed))
        if outs and not any(o[3] for o in outs) and not all(z3.eq(z3.simplify(o[1]), v) for o in outs):
            cands.append((loc, v, outs))
    if len(cands) != 1:
        return "no single counter", 0, 0
    loc, v, outs = cands[0]
    w = 8 * loc[1]
    init = z3.simplify([x for x in steady if loc in x["init"]][0]["init"][loc])

    def sat(*fs):
        tot["queries"] += 1
        sol = z3.Solver()
        sol.set("timeout", 30000)
        sol.add(*fs)
        t = time.time()
        r = sol.check()
        tot["solver_s"] += time.time() - t
        return r, (sol.model() if r == z3.sat else None)

    def at(e, val):
        return z3.substitute(e, (v, val))
    # the path taken from the present state, and the step of the counter there
    main = [o for o in outs if sat(*[at(c, init) for c in o[0]])[0] == z3.sat]
    if len(main) != 1:
        return "no single path", 0, 0
    cons, nxt, key, _ = main[0]
    c = z3.simplify(at(nxt, init) - init)
    n1, n2 = z3.BitVecs("n1 n2", 64)

    def state(n):
        return init + (z3.Extract(w - 1, 0, n) if w < 64 else n) * c
    regular = z3.And(cons + [nxt == v + c])
    top = 1 << 62
    r, m = sat(z3.ULT(n1, z3.BitVecVal(top, 64)), z3.Not(at(regular, state(n1))))
    dev = None
    if r == z3.unknown:
        return "unknown", 0, 0
    if r == z3.sat:
        # the first call that is not regular
        lo, hi = 0, m.eval(n1, model_completion=True).as_long()
        while lo < hi:
            mid = (lo + hi) // 2
            r, m = sat(z3.ULE(n1, z3.BitVecVal(mid, 64)), z3.UGE(n1, z3.BitVecVal(lo, 64)), z3.Not(at(regular, state(n1))))
            if r == z3.sat:
                hi = m.eval(n1, model_completion=True).as_long()
            elif r == z3.unsat:
                lo = mid + 1
            else:
                return "unknown", 0, 0
        dev = hi
        top = dev
    for lim in (16, 24, 32, 62):
        r, m = sat(z3.ULT(n1, n2), z3.ULT(n2, z3.BitVecVal(min(top, (1 << lim) + 4), 64)), at(key, state(n1)) == at(key, state(n2)))
        if r == z3.sat:
            return "sat", m.eval(n1, model_completion=True).as_long(), m.eval(n2, model_completion=True).as_long()
        if r == z3.unknown:
            return "unknown", 0, 0
    if dev is not None:
        val = state(z3.BitVecVal(dev, 64))
        for k in range(4):
            o = [o for o in outs if sat(*[at(x, val) for x in o[0]])[0] == z3.sat]
            if len(o) != 1:
                return "no single path", 0, 0
            r, m = sat(z3.ULT(n1, z3.BitVecVal(dev, 64)), at(key, state(n1)) == at(o[0][2], val))
            if r == z3.sat:
                return "sat", m.eval(n1, model_completion=True).as_long(), dev + k
            val = z3.simplify(at(o[0][1], val))
        return "unsat up to call %d, irregular afterwards" % (dev + 5), 0, 0
    return "unsat", 0, 0


_G = {}


def one(ix):
    import sys
    paths = [_G["tp"][t][i] for t, i in enumerate(ix)]
    t = time.time()
    try:
        f, bad, clock = combine(paths, _G["warm"])
    except Unsupported as e:
        return ix, "unsupported " + str(e), False, None, 0, 0
    s = z3.Solver()
    s.set("timeout", _G["timeout"])
    s.add(f)
    q = 1
    feas = s.check()
    if feas == z3.unsat:
        return ix, "unsat", False, None, q, time.time() - t
    s.add(bad)
    q += 1
    r = s.check()
    sched = None
    if r == z3.sat:
        m = s.model()
        sched = sorted(((m.eval(c, model_completion=True).as_long(), tk) for tk, c in clock.items()))
        sched = [(tk[0], paths[tk[0]]["events"][tk[1]][0]) for _, tk in sched]
    return ix, str(r), feas == z3.sat, sched, q, time.time() - t


def native(work, threads, calls, warm):
    """controlled schedules of the real code"""
    obj = os.path.join(work, "kg.o")
    exe = os.path.join(work, "sched")
    cmds = native_cmds(obj, exe)
    if not os.path.exists(exe):
        for c in cmds:
            r = check.run(c)
            if r.returncode:
                return None, "native build failed: " + r.stderr[-1500:]
    try:
        r = subprocess.run([exe, str(threads), str(calls), str(warm)], capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return 1, "REPLAY-FAIL does not terminate"
    return r.returncode, r.stdout[-3000:]


def native_cmds(obj, exe):
    names = ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
             "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "sched_yield")
    return [["clang++-18", "-std=gnu++14", "-O1", "-g1", "-w", "-fsanitize=thread"] + check.INC + ["-c", os.path.join(check.REPO, "curves/src/KeyGenerator.cpp"), "-o", obj],
            ["objcopy"] + ["--redefine-sym=%s=sched_%s" % (x, x) for x in names] + [obj],
            ["clang++-18", "-std=gnu++14", "-O1", "-g1", "-w"] + check.INC + [os.path.join(check.HARN, "sched_rt.cpp"), obj] + ["-o", exe, "-lboost_thread", "-lboost_system", "-lpthread"]]


def report(pid, what, order, out, *args):
    d = os.path.join(check.VERIF, "evidence", "replay", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "report.txt"), "w") as h:
        h.write("%s\norder of events found by the solver (thread, event): %s\n\nreal code under a controlled schedule:\n%s\n" % (what, order, out))
    cm = [" ".join("'%s'" % c for c in x).replace("@D@", "'\"$D\"'") for x in native_cmds("@D@/kg.o", "@D@/sched")]
    with open(os.path.join(d, "replay.sh"), "w") as h:
        h.write("#!/bin/bash\n# exit 0: all keys differ under every schedule tried\nD=$(mktemp -d)\ntrap 'rm -r \"$D\"' EXIT\n%s || exit 2\ntimeout 400 \"$D/sched\" %s %s %s\n"
                % ((" && ".join(cm),) + args))
    print("counterexample (%s)" % what)
    print("  real code: " + out.strip().split("\n")[-1][:300])
    path = os.path.join(d, "replay.sh")
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return path


def main(pid, tier, seed, work, spec, t0):
    bc = check.build_bc(work, check.specs_unit("c19"))
    funcs = check.encoded_functions(bc)
    p = ThreadProgram(bc)
    cfg = runtime.Config()
    undecided = []
    bounds = []
    tot = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0)
    states = trans = 0
    violation = None
    executed = set()
    deadline = t0 + (240 if tier == "quick" else 3000)
    for threads, calls, warm in spec[tier]:
        try:
            tp = []
            npaths = 0
            for th in range(threads):
                ps, st, cut, ex = thread_paths(p, th, calls, warm, cfg)
                executed |= ex
                tp.append(ps)
                for k in ("queries", "sat", "unsat", "unknown"):
                    tot[k] += getattr(st, k)
                tot["solver_s"] += st.solver_s
                trans += sum(len(x["events"]) for x in ps)
        except Unsupported as e:
            undecided.append("%d threads x %d calls: %s" % (threads, calls, e))
            continue
        bad = [x for ps in tp for x in ps if x["end"] in ("hang", "crash")]
        tp = [[x for x in ps if x["end"] == "end"] for ps in tp]
        _G.update(tp=tp, warm=warm, timeout=60000)
        feasible = 0
        n = 0
        combos = list(itertools.product(*[range(len(x)) for x in tp]))
        cex = None
        if bad and not violation:
            cex = (bad[0]["why"], None)
        with mp.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "8"))) as pool:
            for ix, r, fe, sched, q, dt in pool.imap_unordered(one, combos, chunksize=4):
                n += 1
                tot["queries"] += q
                tot["solver_s"] += dt
                feasible += fe
                states += 1
                if r == "unsat":
                    tot["unsat"] += 1
                elif r == "sat":
                    tot["sat"] += 1
                    cex = ("two calls return the same key", sched)
                    break
                elif r.startswith("unsupported"):
                    undecided.append("%d threads x %d calls: %s" % (threads, calls, r))
                    break
                else:
                    tot["unknown"] += 1
                    undecided.append("%d threads x %d calls: solver: %s" % (threads, calls, r))
                if time.time() > deadline:
                    undecided.append("time budget used up")
                    break
            pool.terminate()
        if not feasible and cex is None:
            undecided.append("%d threads x %d calls: no interleaving is feasible" % (threads, calls))
        bounds.append({"threads": threads, "calls_per_thread": calls, "calls_before": warm, "paths_per_thread": [len(x) for x in tp], "combinations": n,
                       "feasible_combinations": feasible, "busy_wait_paths_cut": cut})
        if cex and not violation:
            rc, out = native(work, threads, calls, warm)
            if rc == 1:
                violation = report(pid, "%d threads, %d calls each, %d before: %s" % (threads, calls, warm, cex[0]), cex[1], out, threads, calls, warm)
                break
            undecided.append("%d threads x %d calls: %s: not reproduced (%s)" % (threads, calls, cex[0], out[-200:]))
    longrun = "not decided"
    if not violation:
        try:
            longrun, n1, n2 = long_run(p, cfg, tot)
        except Unsupported as e:
            longrun, n1, n2 = "not encodable: %s" % e, 0, 0
        if longrun == "sat":
            rc, out = native(work, "long", n1, n2) if n2 < 1 << 33 else (None, "too many calls to run natively")
            if rc == 1:
                violation = report(pid, "calls %d and %d of one thread return the same key" % (n1 + 2, n2 + 2), None, out, "long", n1, n2)
            else:
                undecided.append("calls %d and %d return the same key: not reproduced (%s)" % (n1 + 2, n2 + 2, out[-200:]))
    # validation: the instrumented real code under controlled schedules
    validated = 0
    note = ""
    if not violation and not undecided:
        th, ca, wa = spec[tier][0]
        rc, out = native(work, th, ca, wa)
        note = out.strip().split("\n")[-1]
        if rc == 0:
            validated = int(note.split()[0])
        else:
            print("NATIVE-MISMATCH " + note)
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": validated, "exhaustive": not undecided and not violation,
           "samples": [{"native_schedules": note}],
           "explanation": "states: combinations of thread paths, one solver query each over all orders of their events; transitions: events encoded",
           "functions_encoded": funcs, "bounds": bounds, "outside_bounds": spec.get("outside", ""), "undecided": undecided,
           "same_key_twice_in_2^62_calls_of_one_thread": longrun}
    cov.update({k: (round(v, 3) if k == "solver_s" else v) for k, v in tot.items()})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["sequentially consistent memory; mutexes and initialisation guards provide mutual exclusion", "wrap-around of the counter is outside"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(check.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(check.VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s %s: %d combinations of thread paths, %d queries (%.1f s solver), %d native schedules, %.1f s" % (pid, tier, states, tot["queries"], tot["solver_s"], validated, time.time() - t0))
    if violation:
        return 1
    for u in undecided[:10]:
        print("UNDECIDED property=%s %s" % (pid, u))
    return 2 if undecided else 0
