"""Check runner: run.py <property> [quick|thorough]

Explores every scenario of /verif/checks/<property>_*.py symbolically over the
kasa sources in the current /repo working tree, replays every counterexample
on the real (uninstrumented) package, and writes the evidence file.
"""

from __future__ import annotations

import glob
import importlib.util
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import signal
import sys
import time
import traceback
from collections import deque

REPO = os.environ.get("KASA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
_mono = time.monotonic


def load_check(prop):
    fs = sorted(glob.glob(os.path.join(VERIF, "checks", f"{prop}_*.py")))
    if not fs:
        raise SystemExit(f"no check for {prop}")
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    spec = importlib.util.spec_from_file_location(f"check_{prop}", fs[0])
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


def load_known():
    from engine import ctx

    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if "id" in d:
                    ctx.KNOWN[d["id"]] = d


def scenarios(mod, tier):
    """[(name, fn, params)]"""
    out = []
    for s in mod.scenarios(tier):
        name, fn, params = (*s, {})[:3]
        if re.search(os.environ.get("VERIF_SCN", ""), name):
            out.append((name, fn, params))
    return out


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


# -- concrete side -------------------------------------------------------------


def exc_label(ex, root):
    """Label for an exception that escaped the scenario from kasa code."""
    frames = traceback.extract_tb(ex.__traceback__)
    kroot = os.path.join(root, "kasa") + os.sep
    if not any(f.filename.startswith(kroot) for f in frames):
        return None
    last = frames[-1].filename
    if last.startswith(VERIF + os.sep) and "/engine/" not in last:
        return None
    return f"unexpected-exception:{type(ex).__name__}"


def run_concrete(scn, assignment, tier, keeper):
    from engine import ctx as C
    from engine import sym

    sym.CUR = None
    c = C.ConcreteCtx(assignment, tier)
    err = None
    try:
        scn[1](c, **scn[2])
    except sym.PathAbort:
        pass
    except Hang:
        err = "endless"
    except Exception as ex:
        lab = exc_label(ex, REPO)
        tb = "".join(traceback.format_exception(ex)[-6:])
        if lab:
            c.failures.append((lab, tb[-1500:]))
        else:
            err = tb
    finally:
        try:
            c.close()
        finally:
            keeper.restore()
    return {
        "failures": c.failures,
        "witness": sorted(c.witness),
        "rejected": c.rejected,
        "error": err,
        "missing": c.missing,
        "log": c.log[-20:],
    }


def zygote(prop, tier, conns):
    """Child that imports the real kasa once and forks one server per worker."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.path.insert(0, REPO)
    quiet()
    # the optional C speedup would hide the python code under test
    sys.modules["kasa_crypt"] = None
    import kasa  # noqa: F401

    load_known()
    mod = load_check(prop)
    scns = scenarios(mod, tier)
    import_all()
    from engine.hook import StateKeeper

    keeper = StateKeeper()
    pids = []
    for c in conns:
        pid = os.fork()
        if pid == 0:
            for o in conns:
                if o is not c:
                    o.close()
            serve(c, scns, tier, keeper)
            os._exit(0)
        pids.append(pid)
    for c in conns:
        c.close()
    for p in pids:
        os.waitpid(p, 0)


class Timeout(BaseException):
    pass


class Hang(BaseException):
    """The code has used far more processor time than any run of it needs."""


ENDLESS = "the code comes to an end"
REPLAY_CPU_S, PATH_CPU_S, SUSPECT_CPU_S = 30, 60, 15


def _hang(*_):
    raise Hang


def serve(conn, scns, tier, keeper):
    def onalarm(*_):
        raise Timeout("concrete replay took too long")

    endless = []

    def onprof(*_):
        endless.append(1)
        raise Hang

    signal.signal(signal.SIGALRM, onalarm)
    signal.signal(signal.SIGPROF, onprof)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, assignment = msg
        endless.clear()
        signal.alarm(240)
        # processor time, so that a busy machine is not taken for an endless loop
        signal.setitimer(signal.ITIMER_PROF, REPLAY_CPU_S, 2)
        try:
            r = run_concrete(scns[i], assignment, tier, keeper)
        except BaseException as ex:
            r = {"failures": [], "witness": [], "rejected": False, "error": repr(ex), "missing": [], "log": []}
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        if endless:
            r["failures"] = [*r["failures"], (ENDLESS, f"still running after {REPLAY_CPU_S} s of processor time")]
        conn.send(r)


def import_all():
    import importlib
    import pkgutil

    import kasa

    for m in pkgutil.walk_packages(kasa.__path__, "kasa."):
        if ".cli" in m.name or "__main__" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


# -- symbolic side ---------------------------------------------------------------


def run_symbolic(scn, prefix, tier, keeper, stats, deadline):
    from engine import ctx as C
    from engine import sym

    p = sym.Path(prefix, stats, deadline)
    sym.CUR = p
    c = C.SymCtx(p, tier)
    aborted, err = False, None
    cpu0 = time.process_time()
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, PATH_CPU_S, 5)
    try:
        scn[1](c, **scn[2])
    except (sym.PathAbort, Hang) as ex:
        signal.setitimer(signal.ITIMER_PROF, 0)
        aborted = str(ex) or True
        if isinstance(ex, Hang) or (str(ex) in ("deadline", "too many forks") and time.process_time() - cpu0 > SUSPECT_CPU_S):
            # perhaps an endless loop: see whether the real code ends on these inputs
            p.incomplete = True
            r, m = p._check()
            if r == sym.z3.sat:
                p.cex.append((ENDLESS, p.assignment(m), "no end in sight"))
    except sym.PathStop:
        pass
    except Exception as ex:
        lab = exc_label(ex, REPO)
        tb = "".join(traceback.format_exception(ex)[-6:])
        if lab:
            r, m = p._check()
            if r == sym.z3.sat:
                p.cex.append((lab, p.assignment(m), tb[-1500:]))
        else:
            err = tb
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            c.close()
        finally:
            sym.CUR = None
            keeper.restore()
    return p, aborted, err


def worker(conn, rep, scns, tier, keeper, deadline, seed, validate):
    from engine import hook, sym

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rnd = random.Random(seed)
    sent_funcs: set = set()
    nval: dict[int, int] = {}

    def replay(i, a):
        rep.send((i, a))
        return rep.recv()

    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        i, prefix, slice_s = task
        stats = sym.Stats()
        stack = [prefix]
        t_end = min(_mono() + slice_s, deadline)
        res = {
            "i": i, "cex": [], "witness": set(), "errors": [], "validated": 0,
            "diverged": [], "incomplete": False, "samples": [], "concrete_fail": [], "t": 0.0,
        }
        t0 = _mono()
        while stack and _mono() < t_end:
            pre = stack.pop()
            p, aborted, err = run_symbolic(scns[i], pre, tier, keeper, stats, deadline)
            stats.paths += 1
            if aborted:
                stats.aborted += 1
            stack.extend(p.pending)
            res["witness"] |= p.witness
            res["incomplete"] |= p.incomplete
            if err:
                res["errors"].append(err)
            for lab, a, info in p.cex:
                res["cex"].append((lab, a, info))
            if not aborted and not err and not p.cex and nval.get(i, 0) < validate:
                nval[i] = nval.get(i, 0) + 1
                r, m = p._check()
                if r == sym.z3.sat:
                    a = p.assignment(m)
                    out = replay(i, a)
                    res["validated"] += 1
                    if out["failures"]:
                        res["concrete_fail"].append((a, out))
                    elif out["error"] or set(out["witness"]) != p.witness or out["missing"]:
                        res["diverged"].append(
                            (a, out["error"], sorted(set(out["witness"]) ^ p.witness), out["missing"])
                        )
                    if len(res["samples"]) < 2:
                        res["samples"].append({"scenario": scns[i][0], "inputs": _short(a), "witnesses": sorted(p.witness)})
            if len(res["cex"]) > 40:
                break
        # confirm counterexamples on the real code
        done: dict[str, int] = {}
        out = []
        for lab, a, info in res["cex"]:
            if done.get(lab, 0) >= 3:
                continue
            done[lab] = done.get(lab, 0) + 1
            r = replay(i, a)
            ok = any(fl == lab for fl, _ in r["failures"])
            other = [f for f in r["failures"] if f[0] != lab]
            out.append((lab, a, info, ok, other, r["error"]))
            if ok:
                done[lab] = 99
        res["cex"] = out
        res["rest"] = stack
        res["stats"] = stats
        res["funcs"] = hook.ENTERED - sent_funcs
        sent_funcs |= hook.ENTERED
        res["t"] = _mono() - t0
        conn.send(res)


def _short(a):
    return {k: (v if not isinstance(v, list) or len(v) < 40 else v[:40]) for k, v in a.items()}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["TZ"] = "UTC"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = _mono()
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
    mpctx = mp.get_context("fork")

    rep_pairs = [mpctx.Pipe() for _ in range(nproc)]
    zy = mpctx.Process(target=_zy, args=(prop, tier, rep_pairs))
    zy.start()
    for a, b in rep_pairs:
        b.close()

    from engine import hook, sym

    hook.install(REPO)
    sys.path.insert(0, REPO)
    quiet()
    import kasa  # noqa: F401

    load_known()
    mod = load_check(prop)
    scns = scenarios(mod, tier)
    import_all()
    keeper = hook.StateKeeper()
    hook.ENTERED.clear()
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (
        getattr(mod, "QUICK_S", 60) if tier == "quick" else getattr(mod, "THOROUGH_S", 780)
    )
    deadline = _mono() + budget
    validate = getattr(mod, "VALIDATE", 40 if tier == "quick" else 200)

    workers = []
    for k in range(nproc):
        a, b = mpctx.Pipe()
        pr = mpctx.Process(
            target=_wk, args=(b, a, rep_pairs, k, scns, tier, keeper, deadline, seed + k, validate)
        )
        pr.start()
        b.close()
        workers.append((pr, a))
    for a, b in rep_pairs:
        a.close()

    n = len(scns)
    queues = [deque([[]]) for _ in range(n)]
    busy = [0] * n
    per = [
        {"scenario": s[0], "params": str(s[2])[:300], "paths": 0, "complete": True, "seconds": 0.0, "witness": set(), "checks": 0}
        for s in scns
    ]
    total = sym.Stats()
    funcs, samples, errors, spurious, diverged = set(), [], [], [], []
    violations: dict = {}
    known_hits: dict = {}
    validated = 0
    idle = list(range(nproc))
    rr = 0
    stop_at = deadline
    conn2k = {w[1]: k for k, w in enumerate(workers)}
    wbusy: dict[int, int] = {}
    while True:
        now = _mono()
        # hand out work round-robin over scenarios
        while idle and now < stop_at:
            pick = None
            for d in range(n):
                i = (rr + d) % n
                if queues[i]:
                    pick = i
                    break
            if pick is None:
                break
            rr = (pick + 1) % n
            pre = queues[pick].popleft()
            k = idle.pop()
            pending = sum(len(q) for q in queues)
            sl = 0.15 if pending < nproc else 1.0
            workers[k][1].send((pick, pre, sl))
            busy[pick] += 1
            wbusy[k] = pick
        if not wbusy:
            break
        for c in mpc.wait([workers[k][1] for k in wbusy], timeout=5):
            k = conn2k[c]
            try:
                r = c.recv()
            except EOFError:
                i = wbusy.pop(k)
                errors.append((scns[i][0], "worker process died"))
                per[i]["complete"] = False
                busy[i] -= 1
                continue
            i = wbusy.pop(k)
            idle.append(k)
            busy[i] -= 1
            total.merge(r["stats"])
            pi = per[i]
            pi["paths"] += r["stats"].paths
            pi["checks"] += r["stats"].checks
            pi["seconds"] += r["t"]
            pi["witness"] |= r["witness"]
            if r["incomplete"]:
                pi["complete"] = False
            queues[i].extend(r["rest"])
            funcs |= r["funcs"]
            validated += r["validated"]
            if len(samples) < 12 and sum(s["scenario"] == scns[i][0] for s in samples) < 2:
                samples += r["samples"][:1]
            errors += [(scns[i][0], e) for e in r["errors"][:2]]
            diverged += [(scns[i][0], *d) for d in r["diverged"]]
            for lab, a, info, ok, other, err in r["cex"]:
                if ok:
                    _record(lab, i, a, info, scns, violations, known_hits)
                elif lab != ENDLESS:
                    spurious.append((scns[i][0], lab, a, info, err))
                for ol, oi in other:
                    _record(ol, i, a, oi, scns, violations, known_hits)
            for a, out in r["concrete_fail"]:
                for ol, oi in out["failures"]:
                    _record(ol, i, a, oi, scns, violations, known_hits)
            if violations and stop_at == deadline:
                stop_at = min(deadline, _mono() + 3)
    for k, (pr, a) in enumerate(workers):
        try:
            a.send(None)
        except OSError:
            pass
    for pr, a in workers:
        pr.join(5)
        if pr.is_alive():
            pr.kill()
    zy.join(5)
    if zy.is_alive():
        zy.kill()
    for i in range(n):
        if queues[i]:
            per[i]["complete"] = False

    wall = _mono() - t_start
    outdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    rc = 0
    for fid, (i, a, info) in known_hits.items():
        d = __import__("engine.ctx", fromlist=["KNOWN"]).KNOWN[fid]
        print(f"KNOWN-FINDING: property={prop} {fid} {d.get('what', '')}")
    for j, ((name, lab), (i, a, info)) in enumerate(violations.items()):
        safe = "".join(ch if ch.isalnum() else "_" for ch in f"{name}-{lab}")[:80]
        path = os.path.join(outdir, f"{prop}-{safe}.json")
        with open(path, "w") as fh:
            json.dump(
                {"property": prop, "scenario": name, "tier": tier, "label": lab, "inputs": a, "info": info}, fh, indent=1
            )
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  scenario={name} check={lab}")
        print(f"  inputs={json.dumps(_short(a))[:600]}")
        if info:
            print("  " + str(info)[-500:].replace("\n", "\n  "))
        rc = 1
        if j >= 7:
            break

    want = getattr(mod, "WITNESSES", None)
    seen = set().union(*[p["witness"] for p in per]) if per else set()
    unreached = sorted(set(want or ()) - seen)
    kasa_funcs = sorted(funcs)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "coverage": {
            "explanation": "Symbolic execution of the real kasa sources (regenerated from "
            "the working tree on this run): every feasible path of each scenario within the "
            "stated bounds is enumerated by z3 feasibility queries, and on each path z3 decides "
            "each assertion for all values of the symbolic inputs. `complete` per scenario says "
            "whether the path space was exhausted on this run.",
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "functions_encoded": kasa_funcs,
            "functions_encoded_count": len(kasa_funcs),
            "paths": total.paths,
            "forks": total.forks,
            "queries": total.queries,
            "solver_s": round(total.solver_s, 2),
            "solver_unknown": total.unknown,
            "assertions": total.checks,
            "assertions_discharged": total.discharged,
            "assertions_trivially_true_after_simplification": total.trivial,
            "assertions_undecided": total.undecided,
            "paths_infeasible_or_cut": total.aborted,
            "concretisation_caps_hit": total.conc_capped,
            "traces_validated_against_impl": validated,
            "replay_divergences": len(diverged),
            "spurious_counterexamples": len(spurious),
            "harness_errors": len(errors),
            "exhaustive": all(p["complete"] for p in per) and not errors,
            "witnesses_reached": sorted(seen),
            "witnesses_unreached": unreached,
            "scenarios": [
                {**p, "witness": sorted(p["witness"]), "seconds": round(p["seconds"], 2)} for p in per
            ],
            "samples": samples,
            "known_findings_seen": sorted(known_hits),
        },
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(
        f"{prop} {tier}: {n} scenarios, {total.paths} paths, {total.queries} queries "
        f"({total.solver_s:.1f}s solver), {total.discharged}/{total.checks} assertions discharged, "
        f"{validated} traces replayed, {wall:.1f}s"
        + ("" if ev["coverage"]["exhaustive"] else "  [not exhausted: " + ", ".join(p["scenario"] for p in per if not p["complete"])[:400] + "]")
    )
    if unreached:
        print(f"NOTE unreached witnesses: {unreached}")
    for nm, e in errors[:3]:
        print(f"NOTE harness error in {nm}: {e[-1500:]}")
    for d in diverged[:3]:
        print(f"NOTE concrete/symbolic divergence: {str(d)[:1200]}")
    for s in spurious[:4]:
        print(f"NOTE counterexample not reproduced on the real code: {str(s)[:1500]}")
    sys.stdout.flush()
    os._exit(rc)


def _record(lab, i, a, info, scns, violations, known_hits):
    if lab.startswith("known:"):
        known_hits.setdefault(lab.split(":")[1], (i, a, info))
        return
    violations.setdefault((scns[i][0], lab), (i, a, info))


def _zy(prop, tier, pairs):
    for a, b in pairs:
        a.close()
    zygote(prop, tier, [b for a, b in pairs])
    os._exit(0)


def _wk(conn, parent_end, pairs, k, scns, tier, keeper, deadline, seed, validate):
    parent_end.close()
    for j, (a, b) in enumerate(pairs):
        if j != k:
            a.close()
    worker(conn, pairs[k][0], scns, tier, keeper, deadline, seed, validate)
    os._exit(0)


if __name__ == "__main__":
    main()
