"""Run one property: explore every case symbolically, replay models on the unmodified code, decide, write evidence."""

import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

MAX_CE = 3


class Sink:
    """collects what one case produced"""

    def __init__(self, case, scratch, seed, maxwit):
        self.case = case
        self.scratch = scratch
        self.ces = []
        self.wit = []
        self.nwit = 0
        self.reached = set()
        self.covered = set()
        self.unsupported = []
        self.path_bad = False
        self.rnd = random.Random(seed)
        self.maxwit = maxwit
        self.seen_msgs = {}

    def violation(self, api, model, msg):
        from . import api as A
        from .engine import StopCase

        ins = A.input_values(api, model)
        self.path_bad = True
        n = self.seen_msgs.get(msg, 0)
        self.seen_msgs[msg] = n + 1
        if n < MAX_CE:
            self.ces.append(dict(kind="check", msg=msg, values=ins))
        if n >= MAX_CE + 2 or len(self.ces) >= 6:
            raise StopCase()


def run_case(modname, cname, opts):
    """in a worker process"""
    from . import api as A
    from . import engine as EN
    from . import values as V

    sys.setrecursionlimit(12000)
    mod = importlib.import_module(modname)
    case = mod.suite.by_name(cname)
    scratch = tempfile.mkdtemp(prefix="sxs")
    t0 = time.time()
    eng = EN.Engine(
        seed=opts["seed"],
        query_ms=opts["query_ms"],
        max_steps=case.max_steps,
        max_paths=case.max_paths,
        deadline=t0 + opts["case_s"],
    )
    sink = Sink(case, scratch, opts["seed"], opts["maxwit"] if case.witnesses is None else case.witnesses)
    state = {}
    res = dict(case=cname, status="done", detail="")

    def body():
        api = A.Sym(eng, sink)
        state["api"] = api
        state["exc"] = None
        sink.path_bad = False
        try:
            case.run(api)
        except (Exception, SystemExit) as ex:  # noqa: BLE001
            state["exc"] = ex
            state["tb"] = traceback.format_exc()

    hashes = {}

    def on_path(kind, payload):
        api = state["api"]
        if kind == "unsupported":
            sink.unsupported.append(payload)
            m = eng.get_model()
            sink.wit.append(dict(values=A.input_values(api, m), obs=None))
            return
        if kind == "loopbound":
            m = eng.get_model()
            sink.ces.append(dict(kind="hang", msg="does not terminate", values=A.input_values(api, m)))
            if len(sink.ces) >= 6:
                raise EN.StopCase()
            return
        if state["exc"] is not None:
            ex = state["exc"]
            m = eng.get_model()
            key = "unexpected %s" % type(ex).__name__
            n = sink.seen_msgs.get(key, 0)
            sink.seen_msgs[key] = n + 1
            if n < MAX_CE:
                sink.ces.append(
                    dict(kind="exc", msg=key, exc=type(ex).__name__, values=A.input_values(api, m), tb=state["tb"][-1800:])
                )
            if n >= MAX_CE + 2:
                raise EN.StopCase()
            return
        if sink.path_bad:
            return
        # reservoir of witnesses for translator validation
        sink.nwit += 1
        k = sink.nwit
        if k <= sink.maxwit:
            idx = k - 1
            sink.wit.append(None)
        else:
            idx = sink.rnd.randrange(k)
            if idx >= sink.maxwit:
                return
            idx = min(idx, len(sink.wit) - 1)
        ins, obs = A.evaluate(api, eng.get_model())
        sink.wit[idx] = dict(values=ins, obs=obs)

    try:
        eng.explore(body, on_path)
    except EN.StopCase:
        res["status"] = "stopped"
    except EN.Inconclusive as ex:
        res["status"] = "inconclusive"
        res["detail"] = str(ex)
    except EN.Control as ex:
        res["status"] = "error"
        res["detail"] = "%s %s" % (type(ex).__name__, ex) + traceback.format_exc()[-1500:]
    except Exception as ex:  # noqa: BLE001
        res["status"] = "error"
        res["detail"] = traceback.format_exc()[-3000:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(
        ces=sink.ces,
        wit=[w for w in sink.wit if w],
        unsupported=sink.unsupported[:20],
        n_unsupported=len(sink.unsupported),
        reached=sorted(sink.reached),
        covered=sorted(sink.covered),
        stats=eng.stats,
        functions=sorted(eng.functions),
        wall=time.time() - t0,
    )
    return res


def worker(conn, modname, cname, opts):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        r = run_case(modname, cname, opts)
    except BaseException:  # noqa: BLE001
        r = dict(case=cname, status="error", detail=traceback.format_exc()[-3000:])
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(modname, cases, opts, jobs):
    ctx = multiprocessing.get_context("fork")
    todo = sorted(cases, key=lambda c: -c.weight)
    running, results = {}, []
    end = time.time() + opts["total_s"]
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            left = end - time.time()
            if left < 5:
                results.append(dict(case=c.name, status="inconclusive", detail="not started before the deadline of the whole check"))
                continue
            opts = dict(opts, case_s=min(opts["case_s"], left))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, modname, c.name, opts))
            p.start()
            b.close()
            running[a] = (p, c, time.time())
        ready = multiprocessing.connection.wait(list(running), timeout=1) if running else []
        for a in ready:
            p, c, t = running.pop(a)
            try:
                results.append(a.recv())
                if os.environ.get("SX_FIRST") and results[-1].get("ces"):  # development: stop at the first counterexample
                    todo = []
                    for q, _, _ in running.values():
                        q.kill()
                    running = {}
                    break
            except EOFError:
                results.append(dict(case=c.name, status="error", detail="worker died (memory?)"))
            p.join()
        for a, (p, c, t) in list(running.items()):
            if time.time() - t > opts["case_s"] + 30 or time.time() > end + 30:
                p.kill()
                p.join()
                running.pop(a)
                results.append(dict(case=c.name, status="inconclusive", detail="killed at deadline"))
    return results


def concrete(jobs, nproc=8):
    """run jobs on the unmodified code; returns list of results (None: the process died on it)"""
    if not jobs:
        return []
    tmp = tempfile.mkdtemp(prefix="sxr")
    try:
        n = max(1, min(nproc, (len(jobs) + 19) // 20))
        chunks = [jobs[i::n] for i in range(n)]
        procs = []
        env = dict(os.environ)
        env.update(PYTHONPATH=os.pathsep.join([VERIF, REPO]), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        for i, ch in enumerate(chunks):
            f, o = os.path.join(tmp, "j%d" % i), os.path.join(tmp, "o%d" % i)
            with open(f, "w") as fh:
                json.dump(ch, fh)
            procs.append(
                (subprocess.Popen([VENV, "-m", "sx.conc", f, o], cwd=tmp, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), o, ch)
            )
        out = [None] * len(jobs)
        for i, (p, o, ch) in enumerate(procs):
            try:
                _, err = p.communicate(timeout=250)
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
            lines = open(o).read().splitlines() if os.path.exists(o) else []
            for k, ln in enumerate(lines):
                try:
                    out[i + k * n] = json.loads(ln)
                except ValueError:
                    pass
            for k in range(len(ch)):
                if out[i + k * n] is None:
                    out[i + k * n] = dict(status="died", fails=[], obs=[], detail=(err or b"").decode(errors="replace")[-800:])
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def obs_equal(a, b):
    return a == b


def replay_verdict(ce, r):
    """does concrete result r confirm counterexample ce?"""
    if r["status"] == "rejected":
        return False
    if r["fails"]:
        return True
    if r["status"] in ("exc", "hang"):
        return True
    if r["status"] == "died":
        return ce["kind"] == "hang"
    return False


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", help="only cases whose name contains this")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--case-s", type=float, default=None)
    args = ap.parse_args(argv)

    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True

    if args.replay:
        return do_replay(args.replay)

    t0 = time.time()
    pid = args.property
    modname = "harness.%s" % pid.lower()
    sys.path.append(REPO) if REPO not in sys.path else None
    sys.path.append(VENV_SITE)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from . import instr

    instr.install([REPO, VERIF])
    try:
        mod = importlib.import_module(modname)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print("ERROR: cannot import the code or the harness")
        return 2
    suite = mod.suite
    cases = suite.cases["quick" if args.tier == "quick" else "thorough"]
    if args.case:
        cases = [c for c in cases if args.case in c.name]
    opts = dict(
        seed=args.seed,
        query_ms=60000 if args.tier == "quick" else 80000,
        case_s=args.case_s or (200 if args.tier == "quick" else 780),
        total_s=560 if args.tier == "quick" else 800,
        maxwit=60 if args.tier == "quick" else 300,
    )
    results = run_all(modname, cases, opts, args.jobs)
    t_sym = time.time() - t0
    if args.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0)):
            st = r.get("stats", {})
            print(
                "  %-44s %-9s %6.1fs paths=%d q=%d solver=%.1fs claims=%d ces=%d unsup=%d %s"
                % (r["case"], r["status"], r.get("wall", 0), st.get("paths", 0), st.get("queries", 0), st.get("solver_s", 0), st.get("claims", 0), len(r.get("ces", [])), r.get("n_unsupported", 0), r["detail"][-1500:])
            )
            for u in r.get("unsupported", [])[:4]:
                print("       UNSUPPORTED", u)

    # ---- concrete replay of counterexamples and witnesses
    byname = {c.name: c for c in cases}
    jobs, meta, hangs = [], [], 0
    for r in results:
        c = byname[r["case"]]
        for ce in r.get("ces", []):
            hangs += ce["kind"] == "hang"
            if ce["kind"] == "hang" and hangs > 16:
                continue  # each replay takes until its time limit
            jobs.append(dict(module=modname, case=c.name, values=ce["values"], limit=c.limit))
            meta.append((r, ce, None))
        for w in r.get("wit", []):
            jobs.append(dict(module=modname, case=c.name, values=w["values"], limit=c.limit))
            meta.append((r, None, w))
    conc = concrete(jobs)

    violations, spurious, mismatches, validated = [], [], [], 0
    for (r, ce, w), j, k in zip(meta, jobs, conc):
        if ce is not None:
            if replay_verdict(ce, k):
                violations.append((r, ce, j, k))
            else:
                spurious.append((r, ce, k))
        else:
            if k["fails"] or k["status"] in ("exc", "hang"):
                violations.append((r, dict(kind="replay", msg="found while replaying a path witness: %s" % (k["fails"] or k.get("detail", k["status"])), values=w["values"]), j, k))
            elif w["obs"] is None:
                pass
            elif k["status"] != "ok" or not obs_equal(w["obs"], k["obs"]):
                mismatches.append((r, w, k))
            else:
                validated += 1

    known = load_known(pid)
    errors, soft = [], []  # soft: parts the encoding does not decide; strict runs (development) treat them as errors
    softcases = set()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    known_hit, fresh = [], []
    for v in violations:
        kf = match_known(known, v)
        (known_hit if kf else fresh).append((v, kf))
    seen = set()
    for (r, ce, j, k), kf in known_hit:
        if kf["id"] not in seen:
            seen.add(kf["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    rank = {}
    for v, _ in fresh:  # one report per distinct claim first
        m = v[1]["msg"]
        rank[id(v)] = sum(1 for w, _ in fresh if w[1]["msg"] == m and id(w) in rank)
    fresh.sort(key=lambda x: rank[id(x[0])])
    for n, ((r, ce, j, k), _) in enumerate(fresh[:10]):
        path = os.path.join(evdir, "replay", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, job=j, claim=ce["msg"], kind=ce["kind"], observed=k), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        if n < 4:
            print("   case %s: %s; inputs %s" % (r["case"], ce["msg"], json.dumps(ce["values"])[:600]))
            print("   concrete: %s %s %s" % (k["status"], k.get("detail", ""), k["fails"][:3]))
            if k.get("trace"):
                print("   " + k["trace"][-400:].replace("\n", "\n   "))
    for r, ce, k in spurious:
        softcases.add(r["case"])
        soft.append("counterexample did not reproduce: case %s: %s; inputs %s; concrete %s %s" % (r["case"], ce["msg"], json.dumps(ce["values"])[:400], k["status"], k.get("detail", "")) + ("\n" + ce.get("tb", "") if args.v else ""))
    for r, w, k in mismatches:
        softcases.add(r["case"])
        d = [(a, b) for a, b in zip(w["obs"] or [], k["obs"]) if a != b][:2]
        soft.append("encoding and real code disagree: case %s inputs %s: %s %s %s" % (r["case"], json.dumps(w["values"])[:300], k["status"], k.get("detail", ""), json.dumps(d)[:500]) + ("\n" + k.get("trace", "") if args.v else ""))
    incomplete, timeouts, tot_paths, tot_unsup = [], [], 0, 0
    allreached, allcovered = set(), set()
    for r in results:
        st = r.get("stats", {})
        tot_paths += st.get("paths", 0)
        tot_unsup += r.get("n_unsupported", 0)
        allreached |= set(r.get("reached", []))
        allcovered |= set(r.get("covered", []))
        if r["status"] == "inconclusive":
            timeouts.append((r["case"], r["detail"]))
        elif r["status"] == "error":
            softcases.add(r["case"])
            soft.append("case %s %s: %s" % (r["case"], r["status"], r["detail"][-1500:]))
        elif r["status"] == "done" and not r["ces"] and not r["reached"] and not r.get("n_unsupported"):
            errors.append("case %s never reached a claim (vacuous)" % r["case"])
        elif r["status"] == "done" and st.get("paths", 0) and r.get("n_unsupported", 0) >= st["paths"]:
            incomplete.append(r["case"])
    need = set(getattr(mod, "COVER", []))
    if not args.case and not fresh and not known_hit and need - allcovered and tot_unsup == 0 and not soft and not any(r["status"] == "inconclusive" for r in results):
        errors.append("reachability witnesses missing: %s" % sorted(need - allcovered))
    if tot_unsup:
        print("INCOMPLETE: %d of %d path classes left unexplored (operation without a model)" % (tot_unsup, tot_paths))
        for r in results:
            for u in r.get("unsupported", [])[:1]:
                print("   %s: %s" % (r["case"], u))
    for c, d in timeouts:
        print("INCOMPLETE: case %s was not explored completely: %s" % (c, d[-300:]))
    # exit 0 means: held on everything explored. Something must have been explored, and most of it.
    if soft and (os.environ.get("SX_STRICT") or 2 * (len(softcases) + len(timeouts)) > len(results)):
        errors += soft
    else:
        for e in soft[:5]:
            print("INCOMPLETE: %s" % e)
    if 2 * len(timeouts) > len(results) and not fresh:
        errors.append("most cases were not explored completely")
    if tot_unsup and tot_unsup >= tot_paths and not fresh:
        errors.append("no path class could be encoded")

    wall = time.time() - t0
    if not args.case:
        write_evidence(mod, pid, args, results, byname, validated, fresh, known_hit, tot_unsup, errors + ['INCOMPLETE %s' % c for c, _ in timeouts] + ['INCOMPLETE %s' % e for e in soft if e not in errors], wall, instr.LOADED, len(mismatches))
    agg = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results)
    print(
        "%s %s: cases=%d paths=%d queries=%d (unsat %d, sat %d) solver=%.1fs claims=%d (solver %d) tables=%d (confirmed %d) functions=%d validated=%d wall=%.1fs (symbolic %.1fs)"
        % (pid, args.tier, len(results), agg("paths"), agg("queries"), agg("unsat"), agg("sat"), agg("solver_s"), agg("claims"), agg("claims_solver"), agg("facts"), agg("facts_confirmed"), len(set(f for r in results for f in r.get("functions", []) if f.startswith("edk2toollib"))), validated, wall, t_sym)
    )
    if fresh:
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR:", e)
        return 2
    return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]


def match_known(known, v):
    r, ce, j, k = v
    for kf in known:
        if kf.get("cases") and not any(c in r["case"] for c in kf["cases"]):
            continue
        msgs = list(k["fails"])
        if k["status"] == "exc":
            msgs.append("unexpected " + k.get("detail", ""))
        if k["status"] == "hang":
            msgs.append("does not terminate")
        if msgs and all(m in kf["msgs"] for m in msgs):
            return kf
    return None


def write_evidence(mod, pid, args, results, byname, validated, fresh, known_hit, unsup, errors, wall, loaded, mism):
    agg = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results)
    fns = sorted(set(f for r in results for f in r.get("functions", []) if f.startswith("edk2toollib")))
    samples = []
    for r in results:
        for w in r.get("wit", [])[:1]:
            if w.get("obs") is not None:
                samples.append(dict(case=r["case"], inputs=w["values"], observed=(w["obs"] or [])[:4]))
    ev = dict(
        property=pid,
        tier=args.tier,
        seed=args.seed,
        level="model_checking",
        coverage=dict(
            states=agg("paths"),
            transitions=agg("branches"),
            traces_validated_against_impl=validated,
            samples=samples[:12],
            functions_encoded=fns,
            source_files={k: v[1] for k, v in loaded.items() if k.startswith("edk2toollib")},
            queries=agg("queries"),
            queries_unsat=agg("unsat"),
            queries_sat=agg("sat"),
            queries_unknown=agg("unknown"),
            solver_s=round(agg("solver_s"), 3),
            claims=agg("claims"),
            claims_decided_by_solver=agg("claims_solver"),
            table_decisions=agg("facts"),
            table_decisions_confirmed_by_solver=agg("facts_confirmed"),
            unexplored_path_classes=unsup,
            validation_mismatches=mism,
            cases=[
                dict(
                    case=r["case"],
                    bounds=byname[r["case"]].bounds,
                    status=r["status"],
                    paths=r.get("stats", {}).get("paths", 0),
                    queries=r.get("stats", {}).get("queries", 0),
                    solver_s=round(r.get("stats", {}).get("solver_s", 0), 3),
                    claims=r.get("reached", []),
                    reached=r.get("covered", []),
                )
                for r in sorted(results, key=lambda r: r["case"])
            ],
            known_findings=[kf["id"] for _, kf in known_hit],
            errors=errors[:10],
            meaning="states = feasible path classes fully explored, transitions = branch decisions put to z3; every claim is decided by z3 for all input values of its path class within the stated bounds; traces_validated_against_impl = path witnesses re-run on the unmodified code with identical observations",
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    "Input lengths and element counts are the concrete sizes listed per case; larger sizes are outside the claim.",
    "Logging and printing to the console have no effect on results (modelled as no-ops).",
    "Library functions (struct, uuid, io, datetime, re, str/bytes methods) behave as modelled in sx/; the models are cross-checked by replaying path witnesses on the unmodified code under CPython.",
]


def do_replay(path):
    d = json.load(open(path))
    r = concrete([d["job"]])[0]
    print(json.dumps(dict(claim=d["claim"], result=r), indent=1)[:4000])
    return 1 if (r["fails"] or r["status"] in ("exc", "hang")) else 0
