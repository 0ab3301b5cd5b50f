"""check <ID>: generates and discharges every obligation of a property's contracts.

Exit 0: all obligations discharged. Exit 1: some obligation is not; the VIOLATION line names a replay file."""
import glob
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build      # noqa: E402
import replay     # noqa: E402

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VC_JOBS", "8"))
AGAIN = 300
LIMIT = 420 if TIER == "quick" else 3000    # seconds for all proofs of one property
CONTRACT = re.compile(r"@vc_contract__([A-Z]+)__(\w+)$")


def trace(*a):
    if os.environ.get("VC_TRACE"):
        print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------- one contract
def run_contract(mod, dem, fn, deadline):
    import vexec
    import loops
    import prover
    import terms as tm
    t0 = time.time()
    mode = CONTRACT.match(fn).group(1)
    res = {"contract": fn[len("@vc_contract__"):], "mode": mode, "failures": [], "obligations": 0, "discharged": 0, "trivial": 0,
           "backends": {}, "solver_s": 0.0, "kinds": {}, "named": {}, "covers": {}, "assumed": [], "bounded": [], "functions": [],
           "paths": 0, "instructions": 0, "loops": [], "checks": 0}
    rule = set()
    ex = None
    try:
        while True:
            ex = vexec.Exec(mod, dem, "F" if mode == "FP" else "R", "BV" if mode in ("FP", "BV") else "INT", set())
            ex.loops.rule = rule
            ex.deadline = deadline
            try:
                ex.run(fn)
                break
            except loops.NeedRule as e:
                rule = rule | {e.key}
    except Exception as e:
        where = ""
        try:
            where = ex.whereami(ex.cur) if getattr(ex, "cur", None) is not None else ""
        except Exception:
            pass
        res["failures"].append({"obligation": "the verifier reaches every statement", "kind": "reach", "where": where, "result": "%s: %s" % (type(e).__name__, str(e)[:500]),
                                "model": {}, "output": traceback.format_exc()[-1500:]})
        res["time"] = time.time() - t0
    P = prover.Prover(ex.im, deadline=deadline, long=25 if TIER == "quick" else 120, scale=vexec.SCALE[0])
    for o in ex.obls:
        res["obligations"] += 1
        res["kinds"][o.kind] = res["kinds"].get(o.kind, 0) + 1
        if o.result == "proved":
            res["discharged"] += 1
            b = o.backend or "loop rule"
            res["backends"][b] = res["backends"].get(b, 0) + 1
            continue
        t1 = time.time()
        if len(res["failures"]) >= 3 or (res["failures"] and res["failures"][-1].get("slow")):
            continue
        try:
            r = P.prove(o.pc, o.goal)
        except Exception as e:
            r = ("unknown", "%s: %s" % (type(e).__name__, e), None)
        res["solver_s"] += time.time() - t1
        if r[0] == "proved":
            res["discharged"] += 1
            res["backends"][r[1]] = res["backends"].get(r[1], 0) + 1
        else:
            consts = []
            for t in tm.walk([o.goal] + list(o.pc)):
                if t.op == "const" and len(consts) < 200:
                    try:
                        consts.append(float(t.args[0]))
                    except Exception:
                        pass
            res["failures"].append({"obligation": o.name, "kind": o.kind, "where": o.where[:600], "result": "%s (%s)" % (r[0], r[1]), "model": r[2] or {},
                                    "output": "not discharged: hypotheses %s |- %s" % (str(o.pc)[:1500], str(o.goal)[:1500]), "consts": consts,
                                    "slow": time.time() - t1 > 20})
    for nm, n in ex.named.items():
        res["named"][nm] = n
    res["trivial"] = getattr(ex, "trivial", 0)
    res["obligations"] += res["trivial"]
    res["discharged"] += res["trivial"]
    if res["trivial"]:
        res["backends"]["simplifier"] = res["backends"].get("simplifier", 0) + res["trivial"]
    res["covers"] = dict(ex.covers)
    res["assumed"] = sorted(ex.assumed)
    res["bounded"] = sorted(ex.bounded)
    res["functions"] = sorted(ex.entered)
    res["paths"], res["instructions"] = ex.paths, ex.instrs
    res["loops"] = [{"function": l[0][:200], "steps": l[2], "summarised": l[3], "invariants": l[5]} for l in ex.loopstats][:40]
    res["checks"] = ex.checks
    if not res["failures"]:
        if not ex.named:
            res["failures"].append({"obligation": "the contract is not vacuous", "kind": "vacuity", "where": fn, "result": "no obligation of the contract was reached", "model": {}, "output": ""})
        for c, v in ex.covers.items():
            if v == "unsat":
                res["failures"].append({"obligation": "case reachable: " + c, "kind": "vacuity", "where": fn, "result": "the case is unreachable", "model": {}, "output": ""})
    res["time"] = time.time() - t0
    return res


def child(mod, dem, fn, deadline, conn, mem, scale):
    try:
        import vexec
        vexec.SCALE[0] = scale
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        threading.stack_size(512 << 20)
        out = []
        th = threading.Thread(target=lambda: out.append(run_contract(mod, dem, fn, deadline)))
        th.start()
        th.join()
        conn.send(out[0] if out else {"crash": "no result"})
    except BaseException as e:
        try:
            conn.send({"crash": "%s: %s" % (type(e).__name__, e)})
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def failed_contract(fn, why):
    return {"contract": fn[len("@vc_contract__"):], "mode": CONTRACT.match(fn).group(1), "obligations": 1, "discharged": 0, "trivial": 0, "backends": {}, "solver_s": 0, "kinds": {},
            "named": {}, "covers": {}, "assumed": [], "bounded": [], "functions": [], "paths": 0, "instructions": 0, "loops": [], "checks": 0, "time": 0,
            "failures": [{"obligation": "the verifier reaches every statement", "kind": "reach", "where": fn, "result": why, "model": {}, "output": why}]}


def run_all(jobs, deadline, scale=1):
    """jobs: (mod, dem, fn, src)"""
    ctx = mp.get_context("fork")
    pend = list(jobs)
    act = []
    results = []
    while pend or act:
        while pend and len(act) < JOBS:
            mod, dem, fn, src = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(mod, dem, fn, deadline, b, 12 << 30, scale))
            p.start()
            b.close()
            act.append((p, a, fn, src, time.time()))
        for x in list(act):
            p, a, fn, src, t0 = x
            r = None
            if a.poll(0.01):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"crash": "the proof process ended (exit %s)" % p.exitcode}
            elif time.time() > deadline + 20:
                os.kill(p.pid, signal.SIGKILL)
                r = {"crash": "time limit"}
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                act.remove(x)
                if "crash" in r:
                    r = failed_contract(fn, r["crash"])
                r["file"] = os.path.basename(src)
                trace("%-40s %6.1f s  %d obligations %d discharged %d paths %d fails" % (r["contract"], r["time"], r["obligations"], r["discharged"], r["paths"], len(r["failures"])))
                for f in r["failures"]:
                    trace("    FAIL", f["kind"], f["obligation"], f["result"], f["where"][:300])
                results.append(r)
    return results


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) contract=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"contract": m.group(2), "obligation": m.group(3), "what": m.group(4)})
    return out


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    srcs = sorted(glob.glob(os.path.join(VERIF, "contracts", pid + "_*.cpp")))
    if not srcs:
        print("no contracts for", pid)
        sys.exit(2)
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        rc = check(pid, srcs, tmp, t0, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(pid, srcs, tmp, t0, only):
    import ir
    jobs, results = [], []
    deadline = time.time() + LIMIT

    def comp(src):
        ll = os.path.join(tmp, os.path.basename(src) + ".ll")
        try:
            build.emit(src, ll)
            return src, ll, None
        except build.CompileError as e:
            return src, None, str(e)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(JOBS) as tp:
        for src, ll, err in tp.map(comp, srcs):
            if err:
                trace(err)
                r = failed_contract("@vc_contract__REAL__compile", "the contracts do not compile against the current sources")
                r["failures"][0].update(obligation="the contracts apply to the current sources", kind="compile", output=err)
                r["file"] = os.path.basename(src)
                results.append(r)
                continue
            mod = ir.Module(open(ll).read())
            dem = build.demangle([n[1:] for n in mod.fns])
            prio = re.findall(r"FIRST: (\w+)", open(src).read())
            fns = [f for f in sorted(mod.fns) if CONTRACT.match(f)]
            if not fns:
                r = failed_contract("@vc_contract__REAL__none", "the file defines no contract")
                r["file"] = os.path.basename(src)
                results.append(r)
            fns.sort(key=lambda f: CONTRACT.match(f).group(2) not in prio)
            for f in fns:
                if only and only not in f:
                    continue
                jobs.append((mod, dem, f, src))
    jobs.sort(key=lambda j: 0)
    trace("compiled %.1f s, %d contracts" % (time.time() - t0, len(jobs)))
    first = run_all(jobs, deadline)
    results += first

    findings = known_findings(pid)
    def split():
        viol, known = [], []
        for r in results:
            for f in r["failures"]:
                k = [x for x in findings if x["contract"] == r["contract"] and x["obligation"] == f["obligation"]]
                if k:
                    known.append(k[0])
                else:
                    viol.append((r, f))
        return viol, known

    viol, known = split()
    found = None
    if viol:
        if not os.environ.get("VC_NOREPLAY"):
            try:
                found = replay.search(pid, viol, os.path.join(VERIF, "contracts"), tmp, SEED)
            except Exception:
                trace(traceback.format_exc())
        again = {r["contract"] for r, f in viol if r in first}
        if not found and again and time.time() - t0 < AGAIN:
            # a busy machine may have cut a solver short: once more with more time
            trace("again: %s" % sorted(again))
            second = run_all([j for j in jobs if j[2][len("@vc_contract__"):] in again], t0 + LIMIT * 2, 4)
            results = [r for r in results if r["contract"] not in again] + second
            viol, known = split()
    for k in {x["what"] for x in known}:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    vlines = 0
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % pid)
        doc = {"property": pid, "failed_obligations": [{"contract": r["contract"], "file": "contracts/" + r["file"], **{k: v for k, v in f.items() if k != "consts"}} for r, f in viol],
               "failing_input": found}
        json.dump(doc, open(path, "w"), indent=1, default=str)
        for r, f in viol:
            print("obligation not discharged: %s / %s [%s] %s" % (r["contract"], f["obligation"], f["kind"], f["result"][:200]))
        rel = os.path.relpath(path, VERIF)
        if found:
            print("failing input (%s, %s): %s" % (found["contract"], found["failure"][:200], json.dumps(found["inputs"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rel))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rel))
        vlines = 1
    write_evidence(pid, results, known, viol, t0)
    return 1 if vlines else 0


TRUSTED = [
    "the verifier in /verif/engine (LLVM IR parser, symbolic execution, loop rule, algebraic normaliser)",
    "z3 4.8/5.x and cvc5 1.1.2",
    "clang 18 front end (C++ to LLVM IR at -O1 without passes, then sroa and simplifycfg)",
    "models of the C/C++ runtime and libm in /verif/engine/models.py",
    "shim/huira/util/logger.hpp replaces the logger: message text is dropped, throws are kept",
]


def write_evidence(pid, results, known, viol, t0):
    man = {}
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            man[c["property"]] = c
    except Exception:
        pass
    level = man.get(pid, {}).get("level", "proof")
    ob = sum(r["obligations"] for r in results)
    di = sum(r["discharged"] for r in results)
    be, kinds = {}, {}
    for r in results:
        for k, v in r["backends"].items():
            be[k] = be.get(k, 0) + v
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    fns = sorted({f for r in results for f in r["functions"] if f.startswith("huira::") or "huira::" in f.split("(")[0]})
    ass = sorted({a for r in results for a in r["assumed"]})
    if any(r["mode"] == "REAL" for r in results):
        ass.append("REAL contracts: floating point arithmetic is exact real arithmetic; signed integers are mathematical with an overflow obligation per operation")
    bounded = sorted({"%s: %s" % (r["contract"], b) for r in results for b in r["bounded"]})
    ass += ["bounded, not counted as proved: " + b for b in bounded]
    nb = sum(r["obligations"] for r in results if r["bounded"])
    cov = {"obligations": ob - nb, "discharged": di - sum(r["discharged"] for r in results if r["bounded"]),
           "checker_cmd": "./check %s" % pid, "trusted_base": TRUSTED,
           "bounded_obligations": nb, "backends": be, "obligation_kinds": kinds,
           "solver_s": round(sum(r["solver_s"] for r in results), 2),
           "paths": sum(r["paths"] for r in results), "instructions": sum(r["instructions"] for r in results),
           "path_queries": sum(r["checks"] for r in results),
           "functions_under_contract": fns,
           "contracts": [{"contract": r["contract"], "file": r.get("file"), "mode": r["mode"], "obligations": r["obligations"], "discharged": r["discharged"],
                          "named": r["named"], "covers": r["covers"], "loops": r["loops"], "bounded": r["bounded"], "seconds": round(r["time"], 2)} for r in results],
           "known_findings": [k["what"] for k in known]}
    if level == "other":
        cov["explanation"] = "see contracts"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov, "assumptions": ass,
               "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
