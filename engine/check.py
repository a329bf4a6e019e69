#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] : decide one property by symbolic execution of /repo's current source."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")

INC = ["-I%s/curves/include" % REPO, "-I%s/curves_ros/include" % REPO, "-I/usr/include/eigen3", "-I" + HARN]
SYM = ["-DEIGEN_DONT_VECTORIZE", "-DVF_SYMBOLIC", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-gline-tables-only",
       "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm"]


class Broken(Exception):
    pass


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def build_bc(work, unit):
    """unit: dict(src, extra, flags) -> bitcode path"""
    srcs = [os.path.join(HARN, unit["src"])] + [os.path.join(REPO, e) for e in unit.get("extra", [])]
    objs = []
    procs = []
    for k, s in enumerate(srcs):
        o = os.path.join(work, "%s.%d.bc" % (os.path.basename(unit["src"]), k))
        inc = [] if unit.get("no_shim") else ["-include", "eigen_solvers.hpp"]
        cmd = ["clang++-18", "-std=gnu++14"] + unit.get("pre_inc", []) + INC + SYM + inc + unit.get("flags", []) + ["-c", s, "-o", o]
        procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        objs.append(o)
    for s, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise Broken("cannot compile %s:\n%s" % (s, err[-3000:]))
    base = os.path.join(work, os.path.basename(unit["src"]))
    l = base + ".linked.bc"
    r = run(["llvm-link-18"] + objs + ["-o", l])
    if r.returncode:
        raise Broken("llvm-link: " + r.stderr[-2000:])
    o = base + ".opt.bc"
    r = run(["opt-18", "-passes=elim-avail-extern,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", l, "-o", o])
    if r.returncode:
        raise Broken("opt: " + r.stderr[-2000:])
    return o


def encoded_functions(bc):
    """functions of /repo that are part of the module (from its debug information)"""
    r = run(["llvm-dis-18", bc, "-o", "-"])
    files = {}
    for m in re.finditer(r"^(!\d+) = !DIFile\(filename: \"([^\"]+)\", directory: \"([^\"]*)\"", r.stdout, re.M):
        f = m.group(2)
        files[m.group(1)] = f if f.startswith("/") else os.path.join(m.group(3), f)
    out = set()
    for m in re.finditer(r"DISubprogram\(name: \"([^\"]+)\"[^\n]*?file: (!\d+), line: (\d+)", r.stdout):
        f = files.get(m.group(2), "")
        if f.startswith(REPO + "/"):
            out.add("%s:%s %s" % (f[len(REPO) + 1:], m.group(3), m.group(1)))
    return sorted(out)


def native_parts(unit, entry, order=None):
    srcs = [os.path.join(HARN, unit["src"]), os.path.join(HARN, "vf_native.cpp")] + [os.path.join(REPO, e) for e in unit.get("extra", [])]
    fl = [f for f in unit.get("flags", []) if not f.startswith("-Xclang")]
    cmd = ["clang++-18", "-std=gnu++14", "-O0", "-g1", "-w"] + unit.get("pre_inc", []) + INC + fl + unit.get("native_flags", []) + ["-DVF_ENTRY=" + entry]
    if order is not None:
        cmd.append("-DVF_ORDER=%d" % order)
    cmd += ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
    return cmd, srcs, ["-lglog", "-lpthread"] + unit.get("native_libs", [])


def native_cmd(unit, entry, out, order=None):
    cmd, srcs, libs = native_parts(unit, entry, order)
    return cmd + srcs + ["-o", out] + libs


class Native:
    """natively compiled harness entry for replay"""
    sem = threading.Semaphore(8)
    objs = {}
    lock = threading.Lock()

    def __init__(self, work, unit, entry, order=None):
        self.path = os.path.join(work, "native_%s_%s" % (entry, order))
        self.unit, self.entry, self.order, self.work = unit, entry, order, work
        self.err = None
        self.thread = threading.Thread(target=self._build, daemon=True)
        self.thread.start()

    def _obj(self, cmd, src):
        """compile one source (once per set of flags)"""
        own = src.startswith(HARN)
        key = (src, tuple(c for c in cmd if own or not (c.startswith("-DVF_ENTRY") or c.startswith("-DVF_ORDER"))))
        with Native.lock:
            th = Native.objs.get(key)
            if th is None:
                out = os.path.join(self.work, "obj%d.o" % len(Native.objs))
                st = {"out": out, "err": None}

                def go():
                    with Native.sem:
                        r = run(list(key[1]) + ["-c", src, "-o", out])
                        if r.returncode:
                            st["err"] = r.stderr[-2000:]
                t = threading.Thread(target=go, daemon=True)
                t.start()
                th = Native.objs[key] = (t, st)
        return th

    def _build(self):
        cmd, srcs, libs = native_parts(self.unit, self.entry, self.order)
        os_ = [self._obj(cmd, x) for x in srcs]
        for t, _ in os_:
            t.join()
        for _, st in os_:
            if st["err"]:
                self.err = st["err"]
                return
        r = run(cmd + [st["out"] for _, st in os_] + ["-o", self.path] + libs)
        if r.returncode:
            self.err = r.stderr[-2000:]

    def run(self, vals, params, work, timeout=40):
        self.thread.join()
        if self.err:
            return None, "native build failed: " + self.err
        fd, f = tempfile.mkstemp(dir=work, suffix=".vals")
        os.close(fd)
        write_values(f, vals, params)
        d = tempfile.mkdtemp(dir=work)
        try:
            p = subprocess.run([self.path, f], capture_output=True, text=True, timeout=timeout, cwd=d, errors="replace",
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", GLOG_logtostderr="1"))
            return p.returncode, p.stderr[-4000:]
        except subprocess.TimeoutExpired:
            return -99, "REPLAY-FAIL timeout: does not terminate"
        finally:
            shutil.rmtree(d, ignore_errors=True)


def write_values(f, vals, params):
    with open(f, "w") as h:
        for k, v in params.items():
            h.write("param %s %d\n" % (k, v))
        for n, k, v in vals:
            h.write("value %s %s\n" % (n.replace(" ", "_"), repr(float(v)) if k == "real" else int(v)))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import specs
    spec = specs.SPECS[pid]
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    rc = 2
    try:
        if "custom" in spec:
            import importlib
            rc = importlib.import_module(spec["custom"]).main(pid, tier, seed, work, spec, t0)
        else:
            rc = check(pid, tier, seed, work, spec, t0)
    except Broken as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def save_replay(pid, unit, entry, cand, vals, params, out, order=None):
    d = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    write_values(os.path.join(d, "values.txt"), vals, params)
    with open(os.path.join(d, "report.txt"), "w") as h:
        h.write("property %s\nentry %s in %s\nviolated: %s\n\nnative run of the real code on these values:\n%s\n" % (pid, entry, unit["src"], cand["msg"], out))
    with open(os.path.join(d, "replay.sh"), "w") as h:
        h.write("#!/bin/bash\n# exit 0: the property holds on these values\nD=$(mktemp -d)\ntrap 'rm -r \"$D\"' EXIT\n%s || exit 2\ncd \"$D\" && ASAN_OPTIONS=detect_leaks=0 \"$D/replay\" %s\n"
                % (" ".join("'%s'" % c if " " in c or '"' in c else c for c in native_cmd(unit, entry, "@OUT@", order)).replace("@OUT@", "\"$D/replay\""), os.path.join(d, "values.txt")))
    return os.path.join(d, "replay.sh")


def variants_of(j, tier):
    """parameter sets of a job; the thorough tier includes the quick ones"""
    out = list(j.get("quick", []))
    if tier == "thorough":
        out += [p for p in j.get("thorough", []) if p not in out]
    return out or [{}]


def check(pid, tier, seed, work, spec, t0):
    import explore
    import prog
    import runtime
    budget = spec.get("budget", {"quick": 720, "thorough": 3000})[tier]
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    jobs = []
    meta = []
    units = {}
    bcs = {}
    # units in parallel
    results = {}

    def bld(name, u):
        try:
            results[name] = build_bc(work, u)
        except Exception as e:
            results[name] = e
    ths = []
    joblist = [j for j in spec["jobs"] if tier == "thorough" or not j.get("only_thorough")]
    if not joblist:
        raise Broken("no jobs")
    for j in joblist:
        n = j["unit"]
        if n not in units:
            units[n] = specs_unit(n)
            th = threading.Thread(target=bld, args=(n, units[n]))
            th.start()
            ths.append(th)
    natives = {}

    def native(j, params):
        k = (j["unit"], j["entry"], params.get("order"))
        if k not in natives:
            natives[k] = Native(work, units[k[0]], k[1], k[2])
        return natives[k]
    nat_needed = spec.get("validate", True)
    for th in ths:
        th.join()
    if nat_needed and not any(isinstance(r, Exception) for r in results.values()):
        for j in joblist:
            for params in variants_of(j, tier):
                native(j, params)
    funcs = set()
    progs = {}
    for n in units:
        r = results[n]
        if isinstance(r, Exception):
            raise r if isinstance(r, Broken) else Broken(str(r))
        progs[n] = prog.Program(r)
        funcs |= set(encoded_functions(r))
    for j in joblist:
        for params in variants_of(j, tier):
            params = dict(params)
            fixed = params.pop("_fixed", {})
            kw = dict(spec.get("cfg", {}))
            kw.update(j.get("cfg", {}))
            kw.update(params.pop("_cfg", {}))
            if tier == "thorough":
                kw.setdefault("vc_timeout_ms", 60000)
                kw.setdefault("feas_timeout_ms", 15000)
                kw.setdefault("cvc5_timeout_s", 60)
            cfg = runtime.Config(params, fixed, seed=seed, **kw)
            cfg.n_samples = j.get("samples", 2 if tier == "quick" else 6)
            if j["entry"] not in progs[j["unit"]].funcs:
                raise Broken("no entry " + j["entry"])
            jobs.append((progs[j["unit"]], j["entry"], cfg))
            meta.append((j, params))
    t_enc = time.time()
    undecided = []
    found = []

    def confirm(ji, c):
        """replay the models of a candidate on the real code"""
        j, params = meta[ji]
        for vals in c["models"]:
            rc, out = native(j, params).run(vals, params, work)
            if rc is None:
                undecided.append(out)
                return False
            if rc != 0:
                path = save_replay(pid, units[j["unit"]], j["entry"], c, vals, params, out, params.get("order"))
                print("counterexample (%s, %s): %s" % (j["entry"], params, c["msg"]))
                for l in out.split("\n"):
                    if "REPLAY-FAIL" in l or "ERROR: AddressSanitizer" in l or "Check failed" in l:
                        print("  real code: " + l[:300])
                print("VIOLATION property=%s replay=%s" % (pid, path))
                found.append(path)
                return True
        return False
    res = explore.explore(jobs, nproc, t0 + budget, confirm=confirm)
    t_exp = time.time()
    violations = len(found)
    for (j, params), r in zip(meta, res):
        for c in r.candidates:
            if not c.get("confirmed"):
                undecided.append("%s %s: not proved and not reproduced: %s [%s] %s" % (j["entry"], params, c["msg"], c["status"], c["notes"]))
    for (j, params), r in zip(meta, res):
        for u, n in r.unsupported.items():
            undecided.append("%s %s: %s (%d paths)" % (j["entry"], params, u, n))
        if r.incomplete:
            undecided.append("%s %s: time budget used up after %d paths" % (j["entry"], params, r.paths))
        if r.ends.get("cut: integer part beyond the bound"):
            undecided.append("%s %s: integer conversion beyond the bound" % (j["entry"], params))
    # vacuity: every reach marker of an entry's unit has to be hit
    if not violations:
        want = {}
        got = set()
        for (j, params), r in zip(meta, res):
            got |= set(r.reach)
            for m in j.get("reach", []):
                want[m] = j["entry"]
        for m in want:
            if m not in got:
                undecided.append("%s: marker %s never reached" % (want[m], m))
        for (j, params), r in zip(meta, res):
            if not r.paths or (not r.assert_ids and not r.reach and not r.candidates):
                undecided.append("%s %s: no assertion reached" % (j["entry"], params))
    # translator validation: native runs on models of explored paths
    validated = 0
    mismatch = []
    samples = []
    if nat_needed and not violations and not undecided:
        todo = []
        for (j, params), r in zip(meta, res):
            lim = 3 if tier == "quick" else 20
            for sv in r.samples[:lim]:
                todo.append((j, params, sv))
                native(j, params)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(nproc) as ex:
            outs = list(ex.map(lambda x: native(x[0], x[1]).run(x[2], x[1], work), todo))
        for (j, params, sv), (rc, out) in zip(todo, outs):
            if rc == 0:
                validated += 1
            else:
                mismatch.append("%s %s %s: %s" % (j["entry"], params, sv, out[-300:]))
            if len(samples) < 6:
                samples.append({"entry": j["entry"], "bounds": params, "values": [[n, v] for n, _, v in sv], "native": "ok" if rc == 0 else "differs"})
    tot = explore.Result()
    for r in res:
        tot.merge(r)
    st = tot.stats
    cov = {
        "states": tot.paths, "transitions": tot.steps + tot.paths, "traces_validated_against_impl": validated, "samples": samples,
        "exhaustive": not undecided and not violations,
        "explanation": "symbolic paths (states) and executed blocks of the encoding (transitions); every path stands for all real inputs that satisfy its path condition",
        "functions_encoded": sorted(funcs),
        "bounds": [{"entry": j["entry"], "params": p, "paths": r.paths, "ends": r.ends} for (j, p), r in zip(meta, res)],
        "outside_bounds": spec.get("outside", ""),
        "assertions_evaluated": st.get("asserts", 0), "equality_obligations": st.get("vc", 0),
        "discharged_by_normal_form_confirmed_by_solver": st.get("norm_discharged", 0),
        "queries": st.get("queries", 0), "queries_unsat": st.get("unsat", 0), "queries_sat": st.get("sat", 0),
        "queries_unknown": st.get("unknown", 0), "cvc5_queries": st.get("cvc5", 0), "solver_s": round(st.get("solver_s", 0.0), 3),
        "linear_system_contracts": st.get("solves", 0), "reached": tot.reach, "undecided": undecided, "native_mismatch": mismatch,
        "encode_s": round(t_enc - t0, 1), "explore_s": round(t_exp - t_enc, 1),
    }
    ass = ["double arithmetic is treated as exact real arithmetic; NaN and infinity only where the code creates them",
           "bounds as listed; nothing is claimed beyond them"] + sorted(tot.contracts) + spec.get("assumptions", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ass,
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d native validations, %.1f s"
          % (pid, tier, tot.paths, st.get("asserts", 0), st.get("queries", 0), st.get("solver_s", 0), validated, time.time() - t0))
    if violations:
        return 1
    for m in mismatch:
        print("NATIVE-MISMATCH " + m)
    if undecided:
        for u in undecided[:10]:
            print("UNDECIDED property=%s %s" % (pid, u))
        return 2
    return 0


def specs_unit(n):
    import specs
    return specs.UNITS[n]


if __name__ == "__main__":
    main()
