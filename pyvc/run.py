"""python -m pyvc.run C01 [--unit U] [--case K] [--replay FILE] [-v]

Runs every contract of one property against /repo's current tree, writes evidence/<id>.json, prints VIOLATION and
KNOWN-FINDING lines.  Exit 0: held on everything explored; 1: violated; 2: the check itself failed."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
warnings.simplefilter("ignore")


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class Task:
    def __init__(self, unit, case):
        self.unit, self.case = unit, case


def case_str(c):
    return str(c)


# ------------------------------------------------------------------ running one unit on one case (in a child process)

def run_sym(unit, case, tier, seed, out):
    from . import core, symnp, facade
    budget = unit.budget if tier == "quick" else unit.budget * 4
    deadline = time.time() + budget
    vcs, paths, notes, assumed, covered = [], {}, [], set(), 0
    rng = random.Random(seed)

    def body(c):
        v = facade.SymV(c, rng, unit, tier)
        c.v = v
        with facade.environment(unit, v):
            if case is facade.NOCASE:
                unit.fn(v)
            else:
                unit.fn(v, case)
    pathno = 0
    for c, outcome, pay in core.explore(body, unit.max_paths, deadline, unit.timeout_ms):
        pathno += 1
        paths[outcome] = paths.get(outcome, 0) + 1
        if c is not None:
            assumed |= c.assumed
            v = getattr(c, "v", None)
            if v is not None:
                for vc in v.vcs:
                    vc.path = pathno
                    vcs.append((vc, c.havoced))
                if v.vcs:
                    covered += 1
            if outcome == "exception":
                e, tb = pay
                m = None
                if c.solver.check() == core.z3.sat:
                    m = c.model_env(c.solver.model())
                env = None
                try:
                    env = c.sample(rng)
                except BaseException:
                    pass
                full = dict(m or {})
                full.update(env or {})
                mine = facade.in_spec(e)
                st = "unknown" if mine else "refuted"
                vcs.append((core.VC("no exception", st, "exec", full, "%s: %s\n%s" % (type(e).__name__, e, tb[-1500:]),
                                    pathno), c.havoced))
            elif outcome in ("unsupported", "budget"):
                notes.append("%s: %s" % (outcome, pay))
        elif outcome == "budget":
            notes.append("budget: %s" % pay)
    out["paths"] = paths
    out["notes"] = sorted(set(notes))[:10]
    out["assumed"] = sorted(assumed)
    out["vcs"] = [(vc.name, vc.status, vc.backend, vc.env, vc.detail, vc.path, h) for vc, h in vcs]
    out["covered"] = covered
    out["stats"] = dict(core.STATS)


def run_conc_once(unit, case, vals, rng, tier="quick", limit=None):
    limit = limit or max(60, 4 * unit.conc_s)
    """one concrete run on the real, unpatched code.  Returns (status, label, detail, v)"""
    from . import facade
    v = facade.ConcV(vals, rng, unit, tier)
    v.case = case_str(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        if case is facade.NOCASE:
            unit.fn(v)
        else:
            unit.fn(v, case)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", None, None, v
    except facade.CheckFail as e:
        return "fail", e.label, e.detail, v
    except facade.Skip:
        return "skip", None, None, v
    except Hang:
        return "fail", "terminates", "no answer within %d s" % limit, v
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        if facade.in_spec(e):
            return "harness", "no exception", tb[-2500:], v
        return "fail", "no exception", "%s: %s\n%s" % (type(e).__name__, e, tb[-2500:]), v
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_task(unit, case, tier, seed, conn):
    out = {"unit": unit.name, "case": case_str(case), "violations": [], "evals": 0, "skips": 0, "harness": [],
           "distinct": 0, "sample": None, "vcs": [], "paths": {}, "notes": [], "assumed": [], "stats": {}, "covered": 0,
           "undecided": []}
    t0 = time.time()
    if os.environ.get("VERIF_STACK"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["VERIF_STACK"]), file=open("/tmp/pyvc_stack.%d" % os.getpid(), "w"))
    base = (seed * 1000003 + hash_str(unit.name + case_str(case))) & 0x7fffffff
    try:
        signal.signal(signal.SIGALRM, _alarm)
        if unit.sym:
            signal.setitimer(signal.ITIMER_REAL, (unit.budget if tier == "quick" else 4 * unit.budget) + 30)
            try:
                run_sym(unit, case, tier, base, out)
            except Hang:
                out["notes"].append("budget: the symbolic run did not finish")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out["sym_s"] = round(time.time() - t0, 2)
        # replay of refuted obligations on the real code
        seen = set()
        tried = {}
        replay_end = time.time() + 60
        for name, status, backend, env, detail, path, havoc in out["vcs"]:
            if status != "refuted":
                if status == "unknown":
                    out["undecided"].append("%s (path %s): %s" % (name, path, (detail or "")[:200]))
                continue
            if name in seen or name.split("[")[0] in seen:
                continue
            tried[name.split("[")[0]] = tried.get(name.split("[")[0], 0) + 1
            repro = None
            st = None
            for attempt in ([env] if env is not None else []):
                st, lab, det, v = run_conc_once(unit, case, dict(attempt), random.Random(base), tier, 20)
                hit = [h for h in v.known_hit if h[0] == name.split("[")[0]]
                if hit and st != "fail":
                    repro = hit[0] + (v.used,)
                    break
                if st == "fail" and lab == "terminates":
                    st = None          # the counterexample is too large to run
                if st == "fail":
                    repro = (lab, det, v.used)
                    break
            if repro is None:
                n = 0
                tend = min(time.time() + 15, replay_end) if tried[name.split("[")[0]] <= 2 else 0
                while n < 400 and time.time() < tend:
                    n += 1
                    st, lab, det, v = run_conc_once(unit, case, None, random.Random(base + 7919 * n), tier)
                    hit = [h for h in v.known_hit if h[0] == name.split("[")[0]]
                    if hit and st != "fail":
                        repro = hit[0] + (v.used,)
                        break
                    if st == "fail":
                        repro = (lab, det, v.used)
                        break
            if repro:
                if (name, repro[0]) not in seen:
                    seen.add((name, repro[0]))
                    seen.add(name)
                    seen.add(name.split("[")[0])
                    out["violations"].append({"label": repro[0], "obligation": name, "detail": repro[1],
                                              "env": repro[2], "verifier": (detail or "")[:600], "found": True})
            elif unit.exact and not havoc and st in (None, "skip") and ": invariant" not in name and ": the variant" not in name:
                out["violations"].append({"label": name, "obligation": name, "detail": detail, "env": env,
                                          "verifier": (detail or "")[:600], "found": False})
                seen.add(name)
            else:
                out["undecided"].append("%s (path %s): refuted symbolically, not reproduced on the real code: %s"
                                        % (name, path, (detail or "")[-900:] if os.environ.get("VERIF_SHOW") else (detail or "")[:300]))
        # bounded concrete runs
        n = unit.conc if tier == "quick" else unit.conc_thorough
        tend = time.time() + (unit.conc_s if tier == "quick" else 10 * unit.conc_s)
        used = set()
        for i in range(n):
            if time.time() > tend:
                break
            st, lab, det, v = run_conc_once(unit, case, None, random.Random(base + 104729 * (i + 1)), tier)
            out["evals"] += 1
            for hlab, hdet in v.known_hit:
                if hlab not in [x["label"] for x in out["violations"]]:
                    out["violations"].append({"label": hlab, "obligation": hlab, "detail": hdet, "env": v.used,
                                              "verifier": "", "found": True})
            if st == "skip":
                out["skips"] += 1
                continue
            if st == "harness":
                out["harness"].append(det[-1500:])
                continue
            if st == "ok":
                k = json.dumps(v.used, default=str, sort_keys=True)
                if v.nchecks:
                    used.add(hash(k))
                if out["sample"] is None or i == 1:
                    out["sample"] = k[:400]
                continue
            key = ("conc", lab)
            if key not in seen and lab not in [x["label"] for x in out["violations"]]:
                out["violations"].append({"label": lab, "obligation": lab, "detail": det, "env": v.used,
                                          "verifier": "", "found": True})
            if lab == "terminates" or len(out["violations"]) > 3 + len(v.known_hit):
                break
        out["distinct"] = len(used)
    except BaseException:
        out["error"] = traceback.format_exc()
    out["wall"] = round(time.time() - t0, 2)
    try:
        conn.send(json.loads(json.dumps(out, default=_js)))
    except BaseException as e:
        conn.send({"unit": unit.name, "case": case_str(case), "error": "send: %s" % e})
    conn.close()


def _js(x):
    if hasattr(x, "tolist"):
        return x.tolist()
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (set, frozenset, tuple)):
        return list(x)
    return str(x)


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0x7fffffff
    return h


def run_all(tasks, tier, seed, nproc, verbose):
    ctxm = mp.get_context("fork")
    todo = list(tasks)
    live = {}
    res = []
    while todo or live:
        while todo and len(live) < nproc:
            t = todo.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=run_task, args=(t.unit, t.case, tier, seed, w))
            p.start()
            w.close()
            limit = t.unit.budget + t.unit.conc_s + 180 if tier == "quick" else 4 * t.unit.budget + 10 * t.unit.conc_s + 300
            live[r] = (p, t, time.time() + limit)
        for r in mpc.wait(list(live), timeout=1.0):
            p, t, _ = live.pop(r)
            try:
                o = r.recv()
            except EOFError:
                p.join(5)
                o = {"unit": t.unit.name, "case": case_str(t.case), "died": p.exitcode}
            r.close()
            p.join()
            o["_unit"] = t.unit
            res.append(o)
            if verbose:
                print("  %-45s %-28s %6.1fs vcs=%d/%d evals=%d %s%s" % (
                    o["unit"], o["case"][:28], o.get("wall", 0), sum(1 for x in o.get("vcs", []) if x[1] == "proved"),
                    len(o.get("vcs", [])), o.get("evals", 0), o.get("paths"),
                    " VIOL %s" % [x["label"] for x in o["violations"]] if o.get("violations") else ""))
                for n in o.get("notes", []) + o.get("undecided", [])[:3]:
                    print("      note:", n[-1500:] if os.environ.get("VERIF_SHOW") else n[:300])
                if o.get("harness"):
                    print("      HARNESS:", o["harness"][0][-900:])
                if o.get("error"):
                    print("      ERROR:", o["error"][-1500:])
                if o.get("died") is not None:
                    print("      DIED", o["died"])
                sys.stdout.flush()
        for r in [r for r, x in live.items() if time.time() > x[2]]:
            p, t, _ = live.pop(r)
            p.kill()
            p.join()
            res.append({"unit": t.unit.name, "case": case_str(t.case), "timeout": True, "_unit": t.unit})
    return res


def load(prop):
    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import pygsti
    assert os.path.realpath(pygsti.__file__).startswith(os.path.realpath(REPO)), pygsti.__file__
    mod = importlib.import_module("specs." + prop)
    from . import facade
    return mod, [u for u in facade.UNITS if u.prop == prop]


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv.pop(0)
    opt = {}
    verbose = False
    while argv:
        a = argv.pop(0)
        if a == "-v":
            verbose = True
        else:
            opt[a.lstrip("-")] = argv.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod, units = load(prop)
    from . import facade
    facade.KNOWN[:] = known_findings(prop)
    if "replay" in opt:
        return replay(units, opt["replay"])
    tasks = []
    for u in units:
        if "unit" in opt and opt["unit"] not in u.name:
            continue
        for c in u.get_cases(tier):
            if "case" in opt and opt["case"] not in case_str(c):
                continue
            tasks.append(Task(u, c))
    tasks.sort(key=lambda t: -t.unit.weight)
    if not tasks:
        print("no contract selected")
        return 2
    res = run_all(tasks, tier, seed, int(os.environ.get("VERIF_JOBS", "8")), verbose)
    return report(prop, mod, units, res, tier, seed, t0, partial="unit" in opt or "case" in opt)


def replay(units, path):
    d = json.load(open(path))
    for u in units:
        if u.name == d["unit"]:
            for c in u.get_cases("thorough"):
                if case_str(c) == d["case"]:
                    env = d.get("env")
                    st, lab, det, v = run_conc_once(u, c, dict(env) if env else None, random.Random(d.get("seed", 1)))
                    print(st, lab)
                    print(det)
                    print("inputs:", json.dumps(v.used, default=str)[:2000])
                    return 0 if st in ("ok", "skip") else 1
    print("no such unit")
    return 2


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x["property"] == prop]


def report(prop, mod, units, res, tier, seed, t0, partial):
    kf = known_findings(prop)
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    more = 0
    viol, known, errors = [], {}, []
    nob = ndis = 0
    back = {}
    undecided, bounded, assumed, samples, notes = [], [], set(), [], []
    evals = distinct = 0
    z3s = cvs = 0.0
    nq = 0
    funcs_proved, funcs_bounded = set(), set()
    per_unit = {}
    nohold = []
    for o in res:
        u = o["_unit"]
        pu = per_unit.setdefault(u.name, {"obligations": 0, "discharged": 0, "undecided": 0, "concrete_runs": 0,
                                          "cases": 0, "paths": 0, "mode": "contract proved on symbolic inputs" if u.sym
                                          else "bounded: contract evaluated on concrete inputs"})
        pu["cases"] += 1
        if o.get("error"):
            errors.append("%s[%s]: %s" % (o["unit"], o["case"], o["error"][-1500:]))
            continue
        if o.get("died") == -9:
            undecided.append("%s[%s]: the process was killed (out of memory?)" % (o["unit"], o["case"]))
            continue
        if o.get("died") is not None:
            o["violations"] = [{"label": "no crash", "obligation": "no crash", "detail":
                                "the interpreter running the code died with exit code %s" % o["died"], "env": None,
                                "verifier": "", "found": True}]
        if o.get("timeout"):
            undecided.append("%s[%s]: no answer in time" % (o["unit"], o["case"]))
            continue
        und = 0
        for name, status, backend, env, detail, path, hv in o.get("vcs", []):
            nob += 1
            pu["obligations"] += 1
            if status == "proved":
                ndis += 1
                pu["discharged"] += 1
                back[backend] = back.get(backend, 0) + 1
        for x in o.get("undecided", []):
            undecided.append("%s[%s]: %s" % (o["unit"], o["case"], x))
            und += 1
        for x in o.get("notes", []):
            undecided.append("%s[%s]: %s" % (o["unit"], o["case"], x))
            und += 1
        pu["undecided"] += und
        pu["paths"] += sum(o.get("paths", {}).values())
        pu["concrete_runs"] += o.get("evals", 0)
        assumed.update(o.get("assumed", []))
        evals += o.get("evals", 0)
        distinct += o.get("distinct", 0)
        if o.get("sample") and len(samples) < 6:
            samples.append("%s[%s] %s" % (o["unit"], o["case"], o["sample"]))
        st = o.get("stats", {})
        z3s += st.get("z3_s", 0)
        cvs += st.get("cvc5_s", 0)
        nq += st.get("z3_queries", 0)
        if u.sym:
            if o.get("covered", 0) == 0 and not o.get("violations") and not und:
                errors.append("%s[%s]: the precondition is unsatisfiable or no obligation was generated (%s)"
                              % (o["unit"], o["case"], o.get("paths")))
            (funcs_proved if not und and not o.get("violations") else funcs_bounded).update(u.funcs)
        else:
            funcs_bounded.update(u.funcs)
        if o.get("harness"):
            notes.append("%s[%s]: contract could not be run: %s" % (o["unit"], o["case"], o["harness"][0][-300:]))
        if not u.sym and o.get("evals", 0) > 0 and o.get("skips", 0) == o["evals"]:
            errors.append("%s[%s]: every concrete run was skipped" % (o["unit"], o["case"]))
        for x in o.get("violations", []):
            m = [k for k in kf if k["unit"] == o["unit"] and k["label"] == x["label"]
                 and ("case" not in k or k["case"] == o["case"])
                 and ("detail_has" not in k or k["detail_has"] in (x["detail"] or ""))]
            if m:
                known[m[0]["text"]] = 1
                continue
            if sum(1 for _, y, q in viol if y["label"] == x["label"] and q["unit"] == o["unit"]) >= 2:
                more += 1       # same contract and obligation: two reports are enough
                continue
            n = len(viol)
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "unit": o["unit"], "case": o["case"], "label": x["label"],
                       "obligation": x["obligation"], "env": x["env"], "detail": x["detail"],
                       "verifier_output": x["verifier"], "input_found": x["found"], "seed": seed,
                       "how": "cd /verif && ./check.sh %s --replay %s" % (prop, path)}, open(path, "w"), indent=1,
                      default=_js)
            viol.append((path, x, o))
    if nob == 0 and not viol and any(u.sym for u in units):
        errors.append("no obligation was generated")
    level = getattr(mod, "LEVEL", "proof")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nob, "discharged": ndis, "discharged_by": back,
            "undecided": len(undecided), "undecided_list": undecided[:20],
            "checker_cmd": "cd /verif && ./check.sh %s" % prop,
            "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
            "functions_under_contract_proved": sorted(funcs_proved - funcs_bounded),
            "functions_under_contract_bounded_or_partly_bounded": sorted(funcs_bounded),
            "contracts": per_unit,
            "solver_s": {"z3": round(z3s, 2), "cvc5": round(cvs, 2)}, "z3_queries": nq,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "each concrete evaluation runs one contract on the unmodified code with inputs drawn from the seed; "
                    "distinct_nontrivial counts different inputs on which the precondition held and at least one "
                    "postcondition was evaluated",
            "samples": samples,
            "bounded_part": "concrete evaluations are the bounded stand-in; they are never counted in 'discharged'",
            "contracts_not_runnable": notes[:10],
        },
        "assumptions": sorted(assumed) + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol) + more,
    }
    if not partial:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", "%s.json" % prop), "w"), indent=1, default=_js)
    for t in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for path, x, o in viol:
        print("%s: contract %s[%s], obligation '%s': %s" % (prop, o["unit"], o["case"], x["label"],
                                                         (x["detail"] or "")[:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if x["found"] else " no-failing-input-found"))
    print("%s: %d obligations, %d discharged %s, %d undecided; %d concrete evaluations (%d distinct); %.1f s" % (
        prop, nob, ndis, back, len(undecided), evals, distinct, time.time() - t0))
    for n in notes[:5]:
        print("note:", n)
    if os.environ.get("VERIF_SHOW"):
        for n in undecided[:20]:
            print("undecided:", n)
    if viol:
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR", e)
        return 2 if 2 * len(errors) > len(res) else 0
    return 0


TRUSTED = [
    "CPython 3.12 executes the contract run and the code alike (the code under contract is executed, not translated)",
    "z3, cvc5 and the ring normaliser in pyvc/ring.py",
    "pyvc/symnp.py: the numpy operations on object arrays mean what numpy's float operations mean",
    "floating point is read as real arithmetic; ring coefficients are compared with tolerance 1e-9",
]

if __name__ == "__main__":
    sys.exit(main())
