"""Explores the harnesses of one property, replays what it finds, writes the evidence."""
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from symex import api, core, loader  # noqa: E402
from symex.server import recv_msg, send_msg  # noqa: E402

MOD = {}
TOL = 1e-7


def module_of(prop):
    """harness module whose PROPS lists prop"""
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.startswith("h_") and f.endswith(".py"):
            with open(os.path.join(d, f)) as fh:
                head = fh.read()
            if f'"{prop}"' in head.split("PROPS", 1)[-1].split("\n", 1)[0]:
                return "harness." + f[:-3]
    raise SystemExit(f"no harness module for {prop}")


class Client:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX)
        for i in range(600):
            try:
                self.s.connect(path)
                break
            except (FileNotFoundError, ConnectionRefusedError):
                time.sleep(0.1)
        else:
            raise RuntimeError("replay server did not start")

    def run(self, harness, param, inputs, timeout=30):
        if not inputs:
            return []
        send_msg(self.s, {"harness": harness, "param": param, "inputs": inputs,
                          "timeout": timeout})
        r = recv_msg(self.s)
        if r is None:
            raise RuntimeError("replay server died")
        return r


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    return a == b


FUNCS = {}


def start_monitoring():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "sx")
    except ValueError:
        return
    prefix = os.path.join(loader.REPO, loader.PKG)

    def on_start(code, off):
        if code.co_filename.startswith(prefix):
            FUNCS[os.path.relpath(code.co_filename, loader.REPO) + ":" + code.co_qualname] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


class PathTimeout(core.EngineSignal):
    pass


def explore(task):
    """One (harness, param): returns a result dict. Runs in a pool worker."""
    hname, param, tier, sock, seed = task
    h = api.REGISTRY[hname]
    opts = dict(h.opts)
    budget = opts.pop("budget", None) or (240 if tier == "quick" else 780)
    t_end = MOD.get("t_end")
    if t_end is not None:
        budget = max(5.0, min(budget, t_end - time.monotonic()))
    maxp = opts.pop("max_paths", 20000 if tier == "quick" else 200000)
    str_mode = opts.pop("str_mode", "opaque")
    hash_mode = opts.pop("hash_mode", "const")
    eng = core.Engine(max_paths=maxp, time_budget=budget,
                      hash_constants=opts.pop("hash_constants", (0,)),
                      grid_bits=opts.pop("grid_bits", 3), str_mode=str_mode)
    eng.hash_mode = hash_mode
    core.set_engine(eng)
    guard = MOD["guard"]
    labels = {}
    res = {"harness": hname, "param": param, "completed": 0, "violations": [], "mismatch": [],
           "limits": {}, "validated": 0, "samples": [], "labels": labels, "unreproduced": []}
    t0 = time.monotonic()
    client = Client(sock)
    pending = []
    seen_viol = {}
    rnd = random.Random(seed)

    def on_alarm(*a):
        raise PathTimeout()
    signal.signal(signal.SIGALRM, on_alarm)

    def add_violation(label, inputs, kind, rep):
        if not is_known(h.prop, hname, label):
            eng.deadline = min(eng.deadline, time.monotonic() + 5)
        res["violations"].append({"label": label, "inputs": inputs, "kind": kind,
                                  "tb": rep.get("tb"), "exc": rep.get("exc"),
                                  "failed": rep.get("failed")})

    def flush():
        if not pending:
            return
        reps = client.run(hname, param, [p[0] for p in pending])
        for (inputs, obs), rep in zip(pending, reps):
            if rep["failed"] or rep["exc"]:
                # the real code fails on a solver-chosen witness of an explored path
                label = rep["failed"][0] if rep["failed"] else "exc:" + rep["exc"]
                if seen_viol.get(label, 0) < 3:
                    seen_viol[label] = seen_viol.get(label, 0) + 1
                    add_violation(label, inputs, "witness", rep)
                continue
            if rep["infeasible"] or not close(obs, rep["obs"]):
                if len(res["mismatch"]) < 5:
                    res["mismatch"].append({"inputs": inputs, "symbolic": obs,
                                            "concrete": rep["obs"],
                                            "infeasible": rep["infeasible"]})
                continue
            res["validated"] += 1
        pending.clear()

    while eng.worklist:
        if eng.paths >= eng.max_paths or time.monotonic() > eng.deadline:
            eng.complete = False
            break
        # depth first, with an occasional seeded pick so that a truncated run is spread out
        i = -1
        if len(eng.worklist) > 64 and rnd.random() < 0.05:
            i = rnd.randrange(len(eng.worklist))
        prefix = eng.worklist.pop(i)
        guard.restore()
        eng.start_path(prefix)
        ctx = api.SymCtx(eng, labels)
        ctx.narrow = h.narrow
        eng.paths += 1
        kind = None
        signal.setitimer(signal.ITIMER_REAL, 120)
        try:
            h.fn(ctx, **param)
            kind = "done"
        except core.PathInfeasible:
            kind = "infeasible"
        except core.CheckFailed:
            kind = "failed"
        except core.PathAbort as e:
            kind = "limit"
            why = e.why
        except PathTimeout:
            kind = "limit"
            why = "path timeout"
        except RecursionError as e:
            kind = "exc"
            exc = e
        except Exception as e:
            kind = "exc"
            exc = e
            if os.environ.get("SX_DEBUG"):
                traceback.print_exc(file=sys.stderr)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            if kind == "done":
                model = eng.ensure_model()
                inputs = eng.inputs_from(model)
                obs = {k: eng.eval_py(v, model) for k, v in ctx.obs.items()}
                obs = json.loads(json.dumps(obs))
                res["completed"] += 1
                pending.append((inputs, obs))
                if len(res["samples"]) < 2:
                    res["samples"].append({"inputs": inputs, "observed": obs})
            elif kind == "exc":
                model = eng.ensure_model()
                inputs = eng.inputs_from(model)
                label = "exc:" + type(exc).__name__
                ctx.violations.append((label, inputs, "exception"))
                excinfo = "".join(traceback.format_exception(exc, limit=-3))
        except core.PathInfeasible:
            kind = "infeasible"
        except core.PathAbort as e:
            kind = "limit"
            why = e.why
        if kind == "infeasible":
            eng.infeasible += 1
        if kind == "limit":
            res["limits"][why] = res["limits"].get(why, 0) + 1
            # the engine could not follow this path: run the real code on solver-chosen members of it
            try:
                for _ in range(4):
                    m = eng.ensure_model()
                    pend_inputs = eng.inputs_from(m)
                    rep = client.run(hname, param, [pend_inputs])[0]
                    if rep["failed"] or rep["exc"]:
                        label = rep["failed"][0] if rep["failed"] else "exc:" + rep["exc"]
                        if seen_viol.get(label, 0) < 3:
                            seen_viol[label] = seen_viol.get(label, 0) + 1
                            add_violation(label, pend_inputs, "witness", rep)
                        break
                    import z3
                    block = z3.Or([s.e != m.eval(s.e, model_completion=True)
                                   for s in eng.vars.values() if core.is_sym(s)])
                    eng._add(block)
            except (core.EngineSignal, RuntimeError):
                pass
        for label, inputs, vkind in ctx.violations:
            if seen_viol.get(label, 0) >= 3:
                continue
            rep = client.run(hname, param, [inputs])[0]
            if label in rep["failed"] or rep["exc"] or (vkind == "exception" and rep["failed"]):
                seen_viol[label] = seen_viol.get(label, 0) + 1
                if rep["exc"] and label not in rep["failed"]:
                    label = rep["failed"][0] if rep["failed"] else "exc:" + rep["exc"]
                add_violation(label, inputs, vkind, rep)
            elif rep["failed"]:
                label = rep["failed"][0]
                seen_viol[label] = seen_viol.get(label, 0) + 1
                add_violation(label, inputs, vkind, rep)
            elif vkind == "exception":
                why = f"engine: {label} not reproduced"
                res["limits"][why] = res["limits"].get(why, 0) + 1
                if len(res["unreproduced"]) < 3:
                    res["unreproduced"].append({"label": label, "inputs": inputs, "tb": excinfo,
                                                "soft": True})
            else:
                if len(res["unreproduced"]) < 3:
                    res["unreproduced"].append({"label": label, "inputs": inputs, "soft": False})
        if len(pending) >= 64:
            flush()
        if len(res["violations"]) >= opts.get("max_violations", 40):
            eng.complete = False
            break
    flush()
    res.update(paths=eng.paths, infeasible=eng.infeasible, decisions=eng.decisions,
               queries=eng.queries, solver_s=eng.solver_s, unknown=eng.unknown,
               concretised=eng.concretised, assert_queries=eng.assert_queries,
               complete=eng.complete and not eng.worklist and not res["limits"],
               wall=time.monotonic() - t0, funcs=sorted(FUNCS))
    if core.PROF is not None:
        with open("/tmp/sx_prof.txt", "a") as fh:
            for k, v in sorted(core.PROF.items(), key=lambda x: -x[1])[:15]:
                fh.write(f"{hname} {param} {v} {k}\n")
        core.PROF.clear()
    client.s.close()
    return res


def _safe_explore(task):
    try:
        return explore(task)
    except BaseException as e:  # noqa
        return {"harness": task[0], "param": task[1], "error": "".join(
            traceback.format_exception(e))}


def is_known(prop, hname, label):
    if "known" not in MOD:
        MOD["known"] = load_known()
    return known_key(prop, hname, label) in MOD["known"]


def known_key(prop, hname, label):
    return (prop, f"{hname}/{label}".replace(" ", "_"))


def load_known():
    """known_findings.txt: lines `finding: property=<id> key=<harness>/<label> <text>` and
    `fixed: property=<id> <commit> <text>` (the latter suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return out


def main(argv):
    t_start = time.monotonic()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("only="):
            only = a[5:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    out = os.fdopen(os.dup(1), "w", buffering=1)
    err = os.fdopen(os.dup(2), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SX_DEBUG"):
        os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    modname = module_of(prop)
    tmp = tempfile.mkdtemp(prefix="sx_")
    sock = os.path.join(tmp, "s")
    env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + loader.REPO,
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
    srv = subprocess.Popen([sys.executable, "-m", "symex.server", sock, modname], env=env, cwd=tmp)
    code = 3
    try:
        code = _main(prop, tier, only, seed, out, err, modname, sock, t_start)
    except BaseException as e:  # noqa
        err.write("".join(traceback.format_exception(e)))
        out.write(f"ERROR property={prop} {type(e).__name__}: {e}\n")
        code = 3
    finally:
        srv.kill()
        srv.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    out.flush()
    os._exit(code)


def _main(prop, tier, only, seed, out, err, modname, sock, t_start):
    loader.install()
    start_monitoring()
    mod = importlib.import_module(modname)
    for m in getattr(mod, "PRELOAD", ()):
        importlib.import_module(m)
    MOD["guard"] = loader.StateGuard()
    FUNCS.clear()
    total = float(os.environ.get("SX_BUDGET", "600" if tier == "quick" else "820"))
    MOD["t_end"] = t_start + total
    tasks = []
    for h in api.REGISTRY.values():
        if h.prop != prop or (only and only not in h.name):
            continue
        for p in (h.thorough if tier == "thorough" else h.params):
            tasks.append((h.name, p, tier, sock, seed))
    if not tasks:
        raise SystemExit(f"no harness for {prop}")
    nproc = int(os.environ.get("SX_PROCS", "8"))
    ctx = mp.get_context("fork")
    if nproc == 1:
        results = []
        for t in tasks:
            results.append(_safe_explore(t))
            if any(not is_known(prop, results[-1]["harness"], v["label"])
                   for v in results[-1].get("violations", ())):
                break
    else:
        results = []
        stop_at = None
        with ctx.Pool(min(nproc, len(tasks)), maxtasksperchild=8) as pool:
            it = pool.imap_unordered(_safe_explore, tasks, chunksize=1)
            while len(results) < len(tasks):
                try:
                    r = it.next(timeout=None if stop_at is None
                                else max(0.01, stop_at - time.monotonic()))
                except mp.TimeoutError:
                    break
                results.append(r)
                if stop_at is None and any(not is_known(prop, r["harness"], v["label"])
                                           for v in r.get("violations", ())):
                    stop_at = time.monotonic() + 10   # a violation is certain: finish up
            pool.terminate()
    results.sort(key=lambda r: (r["harness"], json.dumps(r["param"], sort_keys=True)))
    return report(prop, tier, seed, results, out, t_start)


def report(prop, tier, seed, results, out, t_start):
    known = load_known()
    errors = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    nviol = 0
    printed_known = set()
    n = 0
    for r in good:
        printed = set()
        for v in r["violations"]:
            key = known_key(prop, r["harness"], v["label"])
            if key in known:
                if key not in printed_known:
                    printed_known.add(key)
                    out.write(f"KNOWN-FINDING: property={prop} {key[1]} {known[key]}\n")
                continue
            nviol += 1
            if v["label"] in printed or n > 25:
                continue
            printed.add(v["label"])
            path = os.path.join(rdir, f"{prop}-{n}.json")
            n += 1
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": r["harness"], "param": r["param"],
                           "label": v["label"], "inputs": v["inputs"], "kind": v["kind"],
                           "traceback": v["tb"]}, f, indent=1)
            out.write(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}\n")
            out.write(f"  harness={r['harness']} param={json.dumps(r['param'])} "
                      f"label={v['label']} exc={v['exc']} inputs={json.dumps(v['inputs'])}\n")
            if v["tb"]:
                out.write("    " + v["tb"].strip().splitlines()[-1][:200] + "\n")
    mism = [(r, m) for r in good for m in r["mismatch"]]
    unrep = [(r, u) for r in good for u in r["unreproduced"]]
    hard = [x for x in unrep if not x[1]["soft"]]
    vac = [r for r in good if r["completed"] == 0 and not r["violations"] and not r["limits"]
           or (not r["labels"] and not r["violations"] and not r["limits"])]
    funcs = sorted({f for r in good for f in r["funcs"]})
    labels = {}
    for r in good:
        for k, c in r["labels"].items():
            kk = r["harness"] + "/" + k
            labels[kk] = labels.get(kk, 0) + c
    bounds = {h.name: h.bounds for h in api.REGISTRY.values() if h.prop == prop}
    samples = []
    for r in good:
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append({"harness": r["harness"], "param": r["param"], **s})
    limits = {}
    for r in good:
        for k, c in r["limits"].items():
            limits[k] = limits.get(k, 0) + c
    complete = all(r["complete"] for r in good) and not errors
    import z3
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] - r["infeasible"] for r in good),
            "transitions": sum(r["decisions"] for r in good),
            "traces_validated_against_impl": sum(r["validated"] for r in good),
            "samples": samples,
            "exhaustive": complete,
            "explanation": "states = feasible symbolic paths of the real functions; transitions = "
                           "solver-decided branch points; each completed path's solver model is "
                           "replayed on the untouched package and its observations compared",
            "harness_runs": len(good), "paths_completed": sum(r["completed"] for r in good),
            "solver": "z3 " + z3.get_version_string(),
            "queries": sum(r["queries"] for r in good),
            "assertion_queries": sum(r["assert_queries"] for r in good),
            "solver_seconds": round(sum(r["solver_s"] for r in good), 3),
            "solver_unknown": sum(r["unknown"] for r in good),
            "values_concretised": sum(r["concretised"] for r in good),
            "functions_encoded": funcs,
            "bounds": bounds,
            "assertions_reached": labels,
            "engine_limits": limits,
            "incomplete_runs": [f"{r['harness']} {json.dumps(r['param'])}" for r in good
                                if not r["complete"]],
        },
        "assumptions": [
            "times are dyadic rationals k/2^m inside the stated range, for which double arithmetic "
            "(+,-,*,comparison) is exact; z3 reasons over the reals",
            "hash collisions between different keys do not occur",
            "text of log messages and exceptions is not produced (operands are evaluated)",
        ],
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": nviol,
        "known_findings_seen": sorted(k[1] for k in printed_known),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in errors:
        out.write(f"ERROR in {r['harness']} {r['param']}: {r['error']}\n")
    for r, m in mism[:5]:
        out.write(f"ENCODING-MISMATCH {r['harness']} {json.dumps(r['param'])} "
                  f"{json.dumps(m)[:1500]}\n")
    for r, u in unrep[:5]:
        out.write(f"{'NOTE' if u['soft'] else 'UNREPRODUCED'} {r['harness']} "
                  f"{json.dumps(r['param'])} {u['label']} {json.dumps(u['inputs'])[:800]}\n"
                  f"{u.get('tb', '') if u['soft'] else ''}")
    for r in vac:
        out.write(f"VACUOUS {r['harness']} {r['param']}\n")
    if limits:
        out.write(f"LIMITS {json.dumps(limits)}\n")
    c = ev["coverage"]
    out.write(f"{prop} {tier}: runs={len(good)} paths={c['states']} decisions={c['transitions']} "
              f"queries={c['queries']} solver_s={c['solver_seconds']} "
              f"validated={c['traces_validated_against_impl']} exhaustive={complete} "
              f"violations={nviol} wall={ev['wall_s']}s\n")
    if os.environ.get("SX_VERBOSE"):
        for r in sorted(good, key=lambda r: -r["wall"])[:15]:
            out.write(f"   {r['wall']:.1f}s paths={r['paths']} q={r['queries']} "
                      f"conc={r['concretised']} {r['harness']} {json.dumps(r['param'])}\n")
    if nviol:
        return 1
    if errors or vac:
        return 2
    if (mism or hard) and os.environ.get("SX_STRICT"):
        return 2
    return 0
