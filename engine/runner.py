"""Explore all scenarios of a property, decide the obligations, replay, report."""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
EVID = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")


# ---------------------------------------------------------------------------
class ReplayServer:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [PY, "-m", "engine.replay", "--server"], cwd=VERIF, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, text=True, env={**os.environ, "PYTHONUTF8": "1"})

    def run(self, case, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {"outcome": "error", "detail": "replay process died"}
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p = None
            return {"outcome": "violation", "label": "does not terminate", "detail": f"no result in {timeout} s", "in_meshio": True}
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.p = None
            return {"outcome": "violation", "label": "process died", "detail": f"exit code {rc}", "in_meshio": True}
        return json.loads(line)

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill()


# ---------------------------------------------------------------------------
_W = {}


def _worker_init():
    os.environ["PYTHONUTF8"] = "1"
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    from . import loader

    if not os.environ.get("VP_DEBUG"):
        dn = open(os.devnull, "w")
        os.dup2(dn.fileno(), 2)
        os.dup2(dn.fileno(), 1)
    _W["fns"] = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "vp")

    def start(code, off):
        f = code.co_filename
        if "/meshio/" in f:
            _W["fns"].add(f.split("/src/")[-1] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    _W["meshio"] = loader.load()
    _W["replay"] = ReplayServer()


def with_digits(f, n, nm):
    """a value with the sign and decimal exponent of f and n significant digits"""
    m, e = f"{f:.16e}".split("e")
    d = random.Random(nm)
    digits = "".join(str(d.randint(1, 9)) for _ in range(n))
    return float(("-" if f < 0 else "") + digits[0] + "." + digits[1:] + "e" + e)


def values_of(c, model):
    """concrete input values of a model"""
    from .core import fp_const_to_float

    out = {}
    for nm, (kind, s) in c.vars.items():
        v = model.eval(s.t, model_completion=True)
        if kind == "int":
            out[nm] = v.as_long()
        elif kind == "bool":
            import z3

            out[nm] = z3.is_true(v)
        else:
            f = fp_const_to_float(v)
            if s.t.get_id() in c.shape and f and abs(f) < float("inf"):
                f = with_digits(f, c.shape[s.t.get_id()], nm)
            out[nm] = f.hex() if f == f and abs(f) != float("inf") else str(f)
    return out


def generic_values(rng, c, variant):
    """candidate values: generic, distinct floats and spread ints"""
    out = {}
    k = 0
    for nm, (kind, s) in c.vars.items():
        if kind == "float":
            k += 1
            mag = [1.0, 1e3, 1e-3, 1e8][(variant + (k * 7) % 3) % 4] if variant else 1.0
            f = (k + rng.random()) * mag * (1 if rng.random() < 0.6 else -1)
            import numpy as np

            if s.sort.sbits() == 24:
                f = float(np.float32(f))
            out[nm] = f
        elif kind == "int":
            out[nm] = rng.randint(s.lo, s.hi)
        else:
            out[nm] = rng.random() < 0.5
    return out


def generic_model(c, extra, rng, variant=0):
    """a model of the path condition + extra with generic values where possible"""
    import z3

    from .core import SolverUnknown, fp_val

    s = c.solver
    cand = generic_values(rng, c, variant)
    s.push()
    try:
        if extra is not None:
            s.add(extra)
        lits = []
        for nm, (kind, sym) in c.vars.items():
            v = cand[nm]
            if kind == "float":
                lits.append(sym.t == fp_val(v, sym.sort))
            elif kind == "int":
                lits.append(sym.t == v)
            else:
                lits.append(sym.t == v)
        fl = [l for l, (k, _) in zip(lits, c.vars.values()) if k == "float"]
        other = [l for l, (k, _) in zip(lits, c.vars.values()) if k != "float"]
        for group in (fl + other, fl):
            s.push()
            s.add(*group)
            c.stats.queries += 1
            t = time.time()
            r = s.check()
            c.stats.solver_s += time.time() - t
            if r == z3.sat:
                m = s.model()
                s.pop()
                return m
            s.pop()
        # one by one (floats first)
        pin = fl + other
        if len(pin) <= 60:
            for l in pin:
                s.push()
                s.add(l)
                c.stats.queries += 1
                if s.check() != z3.sat:
                    s.pop()
        c.stats.queries += 1
        if s.check() == z3.sat:
            return s.model()
        return None
    finally:
        while s.num_scopes() > c.base_scopes:
            s.pop()


PATH_CPU = 45  # seconds of CPU time for one path


def _alarm(sig, frame):
    from . import core

    raise core.Stuck()


def explore(module, sc, tier, budget_s, seed):
    """all paths of one scenario -> result dict"""
    from . import core, text
    from .harness import SymH, Skip

    mod = importlib.import_module(module)
    meshio = _W["meshio"]
    stats = core.Stats()
    t0 = time.time()
    deadline = t0 + budget_s
    work = [[]]
    res = dict(sid=sc["id"], paths=0, ok=0, violations=[], inconclusive=[], unsupported=[],
               validated=0, skipped=0, samples=[], unfinished=0, mismatches=[], raises={})
    max_paths = sc.get("max_paths", 400 if tier == "quick" else 4000)
    rng = random.Random(f"{seed}-{sc['id']}")
    case = {"module": module, "scenario": sc}
    replay = _W["replay"]
    alphabets = sc.get("alphabets", [0])
    seen_viol = set()
    while work:
        if time.time() > deadline or res["paths"] >= max_paths:
            res["unfinished"] = len(work)
            break
        prefix = work.pop()
        c = core.Ctx(prefix, stats, deadline=deadline + 20)
        c.tab = text.Tab(sc.get("alphabet", 0))
        core.set_ctx(c)
        h = SymH(c, meshio)
        exc = None
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, sc.get("path_cpu", PATH_CPU))
        try:
            try:
                mod.harness(h, sc)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except core.Stuck:
            # does the real code come to an end?
            res["unfinished"] += 1 + len(work)
            try:
                c.base_scopes = c.solver.num_scopes()
                m = generic_model(c, None, rng)
                if m is not None:
                    vals = values_of(c, m)
                    r = replay.run({**case, "values": vals})
                    if r["outcome"] == "violation" and r.get("in_meshio", True):
                        _add_violation(res, seen_viol, sc, vals, r, case, stats)
            except core.Steer:
                pass
            h.cleanup()
            break
        except core.Infeasible:
            work.extend(reversed(c.alternatives))
            h.cleanup()
            continue
        except core.PathLimit as e:
            res["unfinished"] += 1
            h.cleanup()
            work.extend(reversed(c.alternatives))
            continue
        except (core.Unsupported, core.SolverUnknown) as e:
            tb = [f for f in traceback.extract_tb(e.__traceback__) if "/meshio/" in f.filename]
            site = f"{tb[-1].filename.split('/meshio/')[-1]}:{tb[-1].lineno}" if tb else ""
            res["unsupported"].append(f"{type(e).__name__}: {e} {site}")
            exc = None
            unsupported = True
            res["paths"] += 1
            work.extend(reversed(c.alternatives))
            h.cleanup()
            # the engine cannot follow this path; still look at one concrete run
            try:
                m = None
                c.base_scopes = c.solver.num_scopes()
                m = generic_model(c, None, rng)
                if m is not None:
                    vals = values_of(c, m)
                    r = replay.run({**case, "values": vals})
                    if r["outcome"] == "violation" and r.get("in_meshio", True):
                        _add_violation(res, seen_viol, sc, vals, r, case, stats)
            except core.Steer:
                pass
            if len(res["unsupported"]) > 5:
                break
            continue
        except Skip:
            res["skipped"] += 1
            work.extend(reversed(c.alternatives))
            h.cleanup()
            continue
        except Exception as e:
            exc = e
        except SystemExit as e:
            exc = e
        except RecursionError as e:
            exc = e
        work.extend(reversed(c.alternatives))
        res["paths"] += 1
        stats.paths += 1
        h.cleanup()
        c.base_scopes = c.solver.num_scopes()
        import z3

        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)
            site = [f"{f.filename.split('/src/')[-1]}:{f.lineno}" for f in tb if "/meshio/" in f.filename][-1:]
            h.obl = [(f"raised {type(exc).__name__}: {str(exc)[:160]} at {site or [f'{f.filename}:{f.lineno}' for f in tb[-3:]]}", False)]
        try:
            bad, vals_ok = _decide(c, h, stats, rng)
        except core.SolverUnknown as e:
            res["inconclusive"].append(f"solver: {e}")
            # still look at one concrete run of this path
            try:
                m = generic_model(c, None, rng)
                if m is not None:
                    vals = values_of(c, m)
                    r = replay.run({**case, "values": vals})
                    if r["outcome"] == "violation" and r.get("in_meshio", True):
                        _add_violation(res, seen_viol, sc, vals, r, case, stats, "witness")
            except core.Steer:
                pass
            continue
        except core.Steer as e:
            res["unfinished"] += 1
            continue
        if not bad:
            res["ok"] += 1
            # replay a witness of this path on the real code
            want = res["validated"] < sc.get("max_validate", 60)
            if want:
                try:
                    m = generic_model(c, None, rng)
                except core.Steer:
                    m = None
                if m is not None:
                    vals = values_of(c, m)
                    r = replay.run({**case, "values": vals})
                    if r["outcome"] == "ok":
                        res["validated"] += 1
                        if len(res["samples"]) < 2:
                            res["samples"].append({"scenario": sc["id"], "obligations": len(h.obl),
                                                   "witness": dict(list(vals.items())[:6])})
                    elif r["outcome"] == "violation":
                        if r.get("in_meshio", True):
                            _add_violation(res, seen_viol, sc, vals, r, case, stats, "witness")
                        else:
                            res["mismatches"].append(json.dumps(r)[:300])
                    elif r["outcome"] == "skip":
                        pass
                    else:
                        res["mismatches"].append(json.dumps(r)[:300])
            continue
        # counterexample candidates
        confirmed = False
        last = None
        for label, extra in bad[:4]:
            tries = []
            for k in range(5):
                try:
                    if k == 0:
                        m = generic_model(c, extra, rng)
                    elif k == 1:
                        c.solver.push()
                        if extra is not None:
                            c.solver.add(extra)
                        m = c.solver.model() if c.solver.check() == z3.sat else None
                        c.solver.pop()
                    else:
                        m = generic_model(c, extra, rng, k)
                except core.Steer:
                    m = None
                if m is None:
                    continue
                vals = values_of(c, m)
                if vals in tries:
                    continue
                tries.append(vals)
                r = replay.run({**case, "values": vals})
                last = r
                if r["outcome"] == "violation" and (r.get("in_meshio", True)):
                    _add_violation(res, seen_viol, sc, vals, r, case, stats)
                    confirmed = True
                    break
            if confirmed:
                break
        if not confirmed:
            res["inconclusive"].append(
                f"symbolic counterexample not reproduced: {[b[0] for b in bad][:2]} last={json.dumps(last)[:300]} unknown={c.unknown_values[:2]} conc={c.concretised[:3]}")
        if len(res["violations"]) >= 6:
            break
    core.set_ctx(None)
    res["stats"] = stats.as_dict()
    res["wall"] = time.time() - t0
    res["fns"] = sorted(_W["fns"])
    return res


def _add_violation(res, seen, sc, vals, r, case, stats, how="counterexample"):
    key = (r.get("label"),)
    if key in seen:
        return
    seen.add(key)
    res["violations"].append({"scenario": sc["id"], "label": r.get("label"), "detail": r.get("detail"),
                              "values": vals, "case": case, "how": how})


def _conjuncts(t):
    import z3

    if z3.is_and(t):
        return [q for a in t.children() for q in _conjuncts(a)]
    return [t]


def _decide(c, h, stats, rng):
    """-> (list of (label, extra constraint) that can fail, None)"""
    import z3

    from . import core

    stats.obligations += len(h.obl)
    bad = []
    terms = []
    for label, cond in h.obl:
        if cond is True:
            stats.discharged += 1
        elif cond is False:
            bad.append((label, None))
        else:
            terms.append((label, cond))
    if terms:
        conj = z3.And(*[t for _, t in terms]) if len(terms) > 1 else terms[0][1]
        neg = z3.Not(conj)
        try:
            sat = c._check(neg)
        except core.SolverUnknown:
            # too hard in one query: conjunct by conjunct
            unknown = None
            for label, t in terms:
                fine = True
                for q in _conjuncts(t):
                    try:
                        if c._check(z3.Not(q)):
                            bad.append((label, z3.Not(q)))
                            fine = False
                            break
                    except core.SolverUnknown as e:
                        unknown = e
                        fine = False
                        break
                stats.discharged += fine
                if len(bad) >= 4:
                    break
            if unknown is not None and not bad:
                raise unknown
            return bad, None
        if sat:
            for label, t in terms:
                if len(bad) >= 4:
                    break
                if c._check(z3.Not(t)):
                    bad.append((label, z3.Not(t)))
                else:
                    stats.discharged += 1
        else:
            stats.discharged += len(terms)
    return bad, None


def _task(a):
    module, sc, tier, budget, seed = a
    try:
        return explore(module, sc, tier, budget, seed)
    except BaseException as e:
        return {"sid": sc["id"], "error": "".join(traceback.format_exception(e))[-3000:]}


# ---------------------------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(prop, v):
    for k in known_findings():
        if k.get("status") != "open" or k["property"] != prop:
            continue
        if v["scenario"] not in k["scenarios"]:
            continue
        if not any(s in f"{v['label']}: {v['detail']}" for s in k["failure"]):
            continue
        return k
    return None


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--only="):
            only = a[7:]
        elif a == "-v":
            verbose = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    with open(os.path.join(VERIF, "props", "index.json")) as f:
        index = json.load(f)
    module = "props." + index[prop]
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(module)
    scs = mod.scenarios(tier)
    ids = [s["id"] for s in scs]
    assert len(set(ids)) == len(ids), "scenario ids: " + str([i for i in ids if ids.count(i) > 1])
    if only:
        scs = [s for s in scs if only in s["id"]]
    total = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    per = getattr(mod, "PER_SCENARIO", {}).get(tier, 40 if tier == "quick" else 240)
    nproc = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    failfast = os.environ.get("VP_FAILFAST")  # development only
    results = []
    ctx = mp.get_context("fork")
    tasks = [(module, s, tier, s.get("budget", per), seed) for s in sorted(scs, key=lambda s: -s.get("weight", 1))]
    unfinished = []
    nproc = max(1, min(nproc, len(tasks)))
    pool = ctx.Pool(nproc, initializer=_worker_init)
    try:
        pend = [(t[1]["id"], pool.apply_async(_task, (t,))) for t in tasks]
        end = t0 + total
        while pend:
            rest = []
            for sid, r in pend:
                if r.ready():
                    res = r.get()
                    results.append(res)
                    if failfast and any(match_known(prop, v) is None for v in res.get("violations", [])):
                        rest = []
                        break
                    if verbose:
                        _show(res)
                else:
                    rest.append((sid, r))
            pend = rest
            if pend and time.time() > end:
                unfinished = [s for s, _ in pend]
                break
            if pend:
                time.sleep(0.02)
    finally:
        pool.terminate()
        pool.join()
    return report(prop, tier, seed, mod, scs, results, unfinished, time.time() - t0, verbose)


def _show(r):
    if "error" in r:
        print("ERROR", r["sid"], r["error"])
        return
    s = r["stats"]
    print(f"{r['sid']}: paths={r['paths']} ok={r['ok']} val={r['validated']} unf={r['unfinished']} q={s['queries']} obl={s['obligations']} t={r['wall']:.1f}"
          + (f" SKIP={r['skipped']}" if r["skipped"] else "")
          + (f" VIOL={[(v['label'], v['detail'], v['how']) for v in r['violations']]}" if r["violations"] else "")
          + (f" INC={r['inconclusive'][:2]}" if r["inconclusive"] else "")
          + (f" UNS={r['unsupported'][:2]}" if r["unsupported"] else "")
          + (f" MIS={r['mismatches'][:2]}" if r["mismatches"] else "")
          + (f" CONC={list(s['concretised'])[:3]}" if s["concretised"] else ""), flush=True)


def report(prop, tier, seed, mod, scs, results, unfinished, wall, verbose):
    agg = {k: 0 for k in ("paths", "ok", "validated", "unfinished", "skipped")}
    st = {k: 0 for k in ("queries", "forks", "decisions", "obligations", "discharged", "unknown")}
    solver_s = 0.0
    conc = {}
    fns = set()
    viol, inc, uns, mis, errs, samples = [], [], [], [], [], []
    for r in results:
        if "error" in r:
            errs.append((r["sid"], r["error"]))
            continue
        for k in agg:
            agg[k] += r[k]
        for k in st:
            st[k] += r["stats"][k]
        solver_s += r["stats"]["solver_s"]
        for k, v in r["stats"]["concretised"].items():
            conc[k] = conc.get(k, 0) + v
        fns.update(r["fns"])
        viol += r["violations"]
        inc += [f"{r['sid']}: {x}" for x in r["inconclusive"]]
        uns += [f"{r['sid']}: {x}" for x in r["unsupported"]]
        mis += [f"{r['sid']}: {x}" for x in r["mismatches"]]
        samples += r["samples"][:1]
    rc = 0
    new = []
    known_hits = {}
    for v in viol:
        k = match_known(prop, v)
        if k is not None:
            known_hits.setdefault(k["id"], k)
        else:
            new.append(v)
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for v in new[:10]:
        name = hashlib.sha1(json.dumps([v["scenario"], v["label"]]).encode()).hexdigest()[:10]
        p = os.path.join(rdir, f"{prop}-{name}.json")
        with open(p, "w") as f:
            json.dump({**v["case"], "values": v["values"], "failure": [v["label"], v["detail"]], "found_by": v["how"]}, f, indent=1)
        print(f"{prop}: {v['scenario']}: {v['label']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={p}")
        rc = 1
    for x in inc[:10]:
        print("INCONCLUSIVE " + x[:600])
    for x in uns[:10]:
        print("UNDECIDED " + x[:400])
    for x in mis[:5]:
        print("MISMATCH " + x[:400])
    for s, e in errs[:5]:
        print("ERROR " + s + "\n" + e)
    decided = agg["ok"] + len(viol)
    if rc == 0 and (decided == 0 or len(errs) > len(scs) // 2):
        print("no scenario could be decided")
        rc = 2
    cov = {
        "states": agg["paths"],
        "transitions": st["decisions"],
        "traces_validated_against_impl": agg["validated"],
        "samples": samples[:8],
        "scenarios": len(scs),
        "scenario_ids": [s["id"] for s in scs][:400],
        "symbolic_paths": agg["paths"],
        "paths_all_obligations_discharged": agg["ok"],
        "branch_forks": st["forks"],
        "solver_queries": st["queries"],
        "solver_seconds": round(solver_s, 2),
        "obligations": st["obligations"],
        "discharged": st["discharged"],
        "functions_executed_symbolically": sorted(fns),
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "concretised_sites": dict(sorted(conc.items(), key=lambda x: -x[1])[:40]),
        "paths_not_explored": agg["unfinished"],
        "scenarios_not_finished": unfinished,
        "inconclusive": inc[:20],
        "undecided": uns[:20],
        "errors": [s for s, _ in errs],
        "known_findings_seen": [k["what"] for k in known_hits.values()],
        "exhaustive": not (agg["unfinished"] or unfinished or inc or uns or errs),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": BASE_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(scs)} scenarios, {agg['paths']} paths, {st['queries']} queries ({solver_s:.1f} s), "
          f"{st['discharged']}/{st['obligations']} obligations, {agg['validated']} replayed, {len(new)} violations, {wall:.1f} s"
          + (f", unfinished {len(unfinished)}" if unfinished else "") + (f", paths unexplored {agg['unfinished']}" if agg["unfinished"] else ""))
    return rc


BASE_ASSUMPTIONS = [
    "numpy, h5py, netCDF4, zlib, lzma, base64, expat and the Python text formatter/parser behave as documented: "
    "int(str(i)) == i, float(repr(x)) == x, printing >= 17 significant digits is lossless, fewer digits give a value "
    "that agrees to that many significant digits.",
    "The engine's model of numpy is validated on every run by replaying a witness of each explored path on the unmodified code.",
]


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
