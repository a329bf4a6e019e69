"""Exploration of all paths of a harness, in parallel."""
import multiprocessing as mp
import os
import sys
import time
import traceback

import runtime
import rtl
import vc
from runtime import Abort, CppThrow, PathEnd, PathState, Unsupported

sys.setrecursionlimit(20000)


def flush(self):
    if not self.pending:
        return
    p = self.pending
    self.pending = []
    bad = vc.decide(self, p)
    if bad:
        goals = [b[1] for b in bad if b[4] != "too large"]
        self.violate("eq", "; ".join(b[0] for b in bad), goals, "/".join(b[4] for b in bad))


def violate(self, kind, msg, goals=None, status="sat"):
    """a property is violated on this path (candidate: to be replayed)"""
    extra = None
    if goals:
        try:
            extra = vc.sep_formula(self, goals)
        except Exception:
            extra = None
    ms = vc.models(self, extra, self.cfg.n_models, hash(tuple(self.trace)) & 0xffff)
    self.candidates.append(dict(kind=kind, msg=msg, status=status, models=ms, trace=list(self.trace),
                                notes=sorted(set(self.notes)), params=dict(self.cfg.params), params_fixed={k: float(v) for k, v in self.cfg.fixed.items()}))
    raise PathEnd("violation")


PathState.flush = flush
PathState.violate = violate


class Result:
    def __init__(self):
        self.paths = 0
        self.ends = {}
        self.stats = {}
        self.reach = {}
        self.assert_ids = {}
        self.candidates = []
        self.unsupported = {}
        self.executed = set()
        self.contracts = set()
        self.notes = set()
        self.maybe = 0
        self.incomplete = False
        self.steps = 0
        self.events = []
        self.samples = []

    def merge(self, o):
        self.paths += o.paths
        self.steps += o.steps
        for k in ("ends", "stats", "reach", "assert_ids", "unsupported"):
            d = getattr(self, k)
            for n, v in getattr(o, k).items():
                d[n] = d.get(n, 0) + v
        self.candidates += o.candidates
        self.executed |= o.executed
        self.contracts |= o.contracts
        self.notes |= o.notes
        self.maybe += o.maybe
        self.incomplete |= o.incomplete
        self.events += o.events
        self.samples += o.samples


def run_path(prog, entry, prefix, cfg, res):
    s = PathState(prog, prefix, cfg)
    runtime.set_state(s)
    prog.executed = set()
    end = "end"
    try:
        try:
            for c in prog.ctors:
                prog.resolve(c)()
            prog.executed = set()
            prog.resolve(entry)()
            if s.expect_abort:
                s.violate("abort", s.expect_abort + ": was accepted")
            s.flush()
        except CppThrow as e:
            raise Abort("throw", "uncaught C++ exception %s" % (e.tinfo,))
    except PathEnd as e:
        end = str(e)
        try:
            s.flush()
        except PathEnd as e2:
            end = str(e2)
    except Abort as e:
        end = "abort:" + e.kind
        ok = s.expect_abort and e.kind in ("CHECK", "abort", "throw", "terminate")
        ok = ok or (getattr(s, "allow_abort", False) and e.kind in ("CHECK", "abort", "throw"))
        try:
            s.flush()
            if not ok:
                s.violate("crash" if e.kind != "steps" else "hang", "%s: %s" % (e.kind, e.detail))
        except PathEnd as e2:
            end = str(e2)
    except Unsupported as e:
        res.unsupported[str(e)] = res.unsupported.get(str(e), 0) + 1
        end = "unsupported"
        if cfg.debug:
            traceback.print_exc()
    except RecursionError:
        res.unsupported["recursion"] = 1
    except ZeroDivisionError:
        res.unsupported["zero division in the encoding"] = 1
        if cfg.debug:
            traceback.print_exc()
    if end == "end" and len(res.samples) < getattr(cfg, "n_samples", 0) and s.reach:
        try:
            res.samples += vc.models(s, None, 1, getattr(cfg, "seed", 1) + res.paths, 5)[:1]
        except Exception:
            pass
    res.paths += 1
    res.steps += s.steps
    res.ends[end] = res.ends.get(end, 0) + 1
    for k, v in s.stats.asdict().items():
        res.stats[k] = res.stats.get(k, 0) + v
    for k, v in s.reach.items():
        res.reach[k] = res.reach.get(k, 0) + v
    for k, v in s.assert_ids.items():
        res.assert_ids[k] = res.assert_ids.get(k, 0) + v
    res.candidates += s.candidates
    res.executed |= prog.executed
    res.contracts |= s.contracts
    res.notes |= set(s.notes)
    res.maybe += bool(s.maybe_infeasible)
    if s.events:
        res.events.append((list(s.trace), s.events, end))
    return s.newprefixes


_P = {}


def _slice(args):
    job, prefix, seconds, maxcand = args
    prog, entry, cfg = _P["jobs"][job]
    res = Result()
    stack = [prefix]
    t = time.time()
    try:
        while stack and (time.time() - t < seconds) and len(res.candidates) < maxcand:
            p = stack.pop()
            stack.extend(run_path(prog, entry, p, cfg, res))
    except Exception as e:
        res.unsupported["internal: " + "".join(traceback.format_exception_only(type(e), e)).strip()] = 1
        if cfg.debug:
            traceback.print_exc()
    return job, res, stack


def explore(jobs, nproc, deadline, maxcand=6, slice_s=4.0, confirm=None, maxtry=40):
    """jobs: list of (prog, entry, cfg); returns list of Result. confirm(job, candidate) replays a candidate natively: exploration
    ends with the first one that is confirmed (or after maxtry that are not)"""
    _P["jobs"] = jobs
    out = [Result() for _ in jobs]
    pending = [(j, []) for j in range(len(jobs))]
    ctx = mp.get_context("fork")
    if nproc <= 1:
        while pending:
            j, p = pending.pop()
            _, r, rest = _slice((j, p, 1e9, maxcand))
            out[j].merge(r)
            pending += [(j, q) for q in rest]
            if out[j].candidates:
                pending = [x for x in pending if x[0] != j]
        return out
    with ctx.Pool(nproc) as pool:
        running = 0
        import queue
        q = queue.SimpleQueue()
        ncand = 0
        stop = False
        while pending or running:
            while pending and running < nproc * 2 and not stop:
                j, p = pending.pop(0)
                first = not p and slice_s
                pool.apply_async(_slice, ((j, p, 0.3 if len(pending) < nproc * 2 else slice_s, maxcand),), callback=q.put,
                                 error_callback=lambda e: q.put((None, e, None)))
                running += 1
            if stop and not running:
                break
            try:
                j, r, rest = q.get(timeout=max(0.1, deadline - time.time() + 5))
            except queue.Empty:
                stop = True
                for o in out:
                    o.incomplete = True
                pool.terminate()
                break
            running -= 1
            if j is None:
                out[0].unsupported["internal: %r" % (r,)] = 1
                continue
            out[j].merge(r)
            ncand += len(r.candidates)
            hit = False
            if confirm is not None:
                for c in r.candidates:
                    c["tried"] = True
                    c["confirmed"] = confirm(j, c)
                    if c["confirmed"]:
                        hit = True
                        break
            if hit or ncand >= (maxtry if confirm is not None else maxcand):
                stop = True
                pool.terminate()
                break
            if time.time() > deadline:
                stop = True
                out[j].incomplete = True
                for jj, _ in pending:
                    out[jj].incomplete = True
            pending += [(j, p) for p in rest]
    return out
