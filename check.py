#!/usr/bin/env python3-vt
"""check.py PROP [quick|thorough]: decides one property on /repo's current tree.

1. The verification conditions of every function under contract that the property rests on are generated
   from the current source and given to the solvers (deciding step).
2. The executable form of the same contracts is run on concrete inputs of the real code: it supplies the
   failing input for a broken contract, and is the bounded stand-in for functions outside the subset.
"""
import ast
import itertools
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable


def start_rt(prop, tier, seed, budget, hashseed, tmp, tag):
    out = os.path.join(tmp, "rt_%s.json" % tag)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.Popen([PY, os.path.join(HERE, "rt", "main.py"), prop, tier, str(seed), out, str(budget)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, out


def finish_rt(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"evaluations": 0, "distinct": 0, "fails": [], "harness": ["killed after %d s" % limit], "nharness": 1, "samples": [], "bound": "", "wall": limit, "exhausted": False}
    if not os.path.exists(out):
        return {"evaluations": 0, "distinct": 0, "fails": [], "harness": ["no report: " + txt[-400:]], "nharness": 1, "samples": [], "bound": "", "wall": 0, "exhausted": False}
    return json.load(open(out))


# ------------------------------------------------------------------ verification
def attempt(area, con, rename, loopmap=None):
    from engine import Engine
    import areas
    e = areas.engine(area, REPO)
    e.rename_user = dict(rename)
    if loopmap:
        e.loopmap = dict(loopmap)
    obls, vac = [], []
    inl, called, trusted, dropped = set(), set(), set(), set()
    for v in (con.variants or [None]):
        obls += e.verify(con, v)
        vac += e.vac
        inl |= e.inlined
        called |= e.called
        trusted |= e.trusted_used
        dropped |= e.dropped
    return obls, vac, {"inlined": sorted(inl), "called": sorted(called), "trusted": sorted(trusted), "dropped": sorted(map(str, dropped))}


def candidates(fd):
    """names assigned in a function, in order"""
    out = []
    for n in ast.walk(fd):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out


def verify_function(area, con, workers, budget, early=None):
    """-> dict(status = proved | failed | outside, ...)"""
    import solver
    from engine import Unsupported, Unbound
    from theory import TypeClash
    import z3
    t0 = time.time()
    info = {"function": con.name, "obligations": 0, "discharged": 0, "by": {}, "solver_s": 0.0, "failed": [], "status": "outside"}

    def solve(obls):
        return solver.decide(obls, workers=workers, budget=budget, stop=early)

    def gen(rename):
        try:
            return attempt(area, con, rename), None
        except Unbound as u:
            return None, u
        except Unsupported as u:
            return None, u
        except (TypeClash, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, RecursionError, NotImplementedError, AssertionError, ValueError) as u:
            return None, Unsupported("%s: %s" % (type(u).__name__, u))

    rename = {}
    got, err = gen(rename)
    tried = 0
    if isinstance(err, Unbound):
        # a local that the annotations name is called differently now: search for the variable meant
        frontier = [{}]
        best = None
        while frontier and tried < 60 and best is None:
            ren = frontier.pop(0)
            g, er = gen(ren)
            tried += 1
            if g is not None:
                res = solve(g[0])
                if all(r["status"] == "proved" for r in res):
                    best = (ren, g, res)
                continue
            if isinstance(er, Unbound) and er.name not in ren:
                import areas
                prog = areas.program(area, REPO)
                for cnd in candidates(prog.funcs[con.name][0]):
                    if cnd not in ren.values():
                        frontier.append(dict(ren, **{er.name: cnd}))
        if best is None:
            info["why"] = "the annotations name a local (%s) that the current source does not have" % err
            info["wall_s"] = round(time.time() - t0, 2)
            return info
        rename, got, res = best
    elif err is not None:
        info["why"] = str(err)
        info["wall_s"] = round(time.time() - t0, 2)
        return info
    else:
        res = solve(got[0])
    obls, vac, meta = got
    info.update(meta)
    if rename:
        info["renamed"] = rename
    info["obligations"] = len(obls)
    for o, r in zip(obls, res):
        info["solver_s"] += r["time"]
        if r["status"] == "proved":
            info["discharged"] += 1
            info["by"][r["by"]] = info["by"].get(r["by"], 0) + 1
        else:
            info["failed"].append({"obligation": "%s:%s" % (con.name, o.label), "verdict": r["status"], "log": r["log"]})
    info["status"] = "proved" if not info["failed"] else "failed"
    info["vacuity_checks"] = len(vac)
    info["solver_s"] = round(info["solver_s"], 2)
    info["wall_s"] = round(time.time() - t0, 2)
    return info


_job = {}


def found():
    """a concrete failing input is already there"""
    for o in _job["outs"]:
        if os.path.exists(o):
            try:
                if json.load(open(o))["fails"]:
                    return True
            except ValueError:
                pass
    return False


def not_reached(name):
    return {"function": name, "obligations": 0, "discharged": 0, "by": {}, "solver_s": 0.0, "failed": [], "status": "outside", "why": "not reached: time went to obligations that fail"}


def verify_job(a, name):
    import areas
    area = areas.load()[a]
    con = area.C[name]
    if time.time() > _job["deadline"]:
        return not_reached(name)
    wide = "%s.%s" % (a, name) in areas.WIDE
    return verify_function(area, con, 7 if wide else 3, _job["budget"] * (2 if wide else 1), found)


def verify_all(prop, outs, deadline, t0, budget):
    """the contracts tagged with the property and, transitively, every contract their bodies are checked against"""
    import concurrent.futures as cf
    import multiprocessing
    import areas
    _job.update(outs=outs, deadline=deadline, budget=budget)
    areas.load()
    todo = areas.for_property(prop)
    if not todo:
        return []
    order = areas.COST
    seen = {c.name for _, c in todo}
    infos, failed = [], False
    with cf.ProcessPoolExecutor(6, mp_context=multiprocessing.get_context("fork")) as ex:
        run = {}

        def submit(items):
            for m, c in sorted(items, key=lambda mc: -order.get(mc[1].name, 1)):
                run[ex.submit(verify_job, m.__name__, c.name)] = (m, c)
        submit(todo)
        while run:
            done, _ = cf.wait(list(run), return_when=cf.FIRST_COMPLETED)
            for f in done:
                m, c = run.pop(f)
                i = f.result()
                infos.append(i)
                failed = failed or i["status"] == "failed"
                new = []
                for n in i.get("called", []):
                    for k in areas.expand(m, n):
                        if k.name not in seen:
                            seen.add(k.name)
                            new.append((m, k))
                submit(new)
            if failed and time.time() > t0 + 200:
                for f in list(run):
                    if f.cancel():
                        infos.append(not_reached(run.pop(f)[1].name))
    infos.sort(key=lambda i: i["function"])
    return infos


# ------------------------------------------------------------------ main
def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                out.append(json.loads(ln))
    return out


def main():
    prop = sys.argv[1]
    if prop == "--selfcheck":
        import areas
        n = sum(len(m.C) for m in areas.load().values())
        for b in ("z3-new", "z3", "cvc5"):
            subprocess.run([b, "--version"], stdout=subprocess.DEVNULL, check=True)
        print("ready: %d contracts" % n)
        return 0
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vchk")
    nrt = 2 if tier == "quick" else 6
    rbudget = 40 if tier == "quick" else 500
    procs = [start_rt(prop, tier, seed + 97 * i, rbudget, seed + i, tmp, str(i)) for i in range(nrt)]
    import areas
    outs = [o for _, o in procs]
    vdeadline = t0 + (420 if tier == "quick" else 3000)
    infos = verify_all(prop, outs, vdeadline, t0, 200 if tier == "quick" else 600)
    rts = [finish_rt(p, o, rbudget + 60) for p, o in procs]
    failed = [i for i in infos if i["status"] == "failed"]
    if failed and not any(r["fails"] for r in rts):
        # look harder for an input that shows the failed obligation on the real code
        more = [start_rt(prop, "thorough", seed + 1000 + 31 * i, 90, seed + 50 + i, tmp, "m%d" % i) for i in range(4)]
        rts += [finish_rt(p, o, 150) for p, o in more]
    subprocess.run(["rm", "-rf", tmp])

    fails = [f for r in rts for f in r["fails"]]
    fails.sort(key=lambda f: len(json.dumps(f)))
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    new, old = [], []
    for f in fails:
        hit = None
        for k in known:
            if k["match"] in f["what"]:
                hit = k
        (old if hit else new).append((f, hit))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    obligations = sum(i["obligations"] for i in infos)
    discharged = sum(i["discharged"] for i in infos)
    outside = [i for i in infos if i["status"] == "outside"]
    failures = []
    for i in failed:
        failures += i["failed"]
    violations = 0
    if new:
        violations = 1
        f = new[0][0]
        path = os.path.join("evidence", "replay_%s.json" % prop)
        json.dump({"property": prop, "input": f["input"], "what": f["what"], "failed_obligations": failures[:20],
                   "replay_cmd": "cd /verif && python3-vt rt/main.py --replay %s" % path}, open(os.path.join(HERE, path), "w"), indent=1)
        print("%s: %s" % (prop, f["what"]))
        for x in failures[:10]:
            print("failed obligation: %s (%s)" % (x["obligation"], x["verdict"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif failures:
        violations = 1
        path = os.path.join("evidence", "replay_%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": failures, "verifier_output": json.dumps(failures[:10]),
                   "note": "the verifier does not accept these obligations on the current source; no concrete failing input was found"}, open(os.path.join(HERE, path), "w"), indent=1)
        for x in failures[:10]:
            print("failed obligation: %s (%s) %s" % (x["obligation"], x["verdict"], "; ".join(x["log"])[:200]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))

    evals = sum(r["evaluations"] for r in rts)
    import propinfo
    pi = propinfo.INFO.get(prop, {})
    by = {}
    for i in infos:
        for k, v in i["by"].items():
            by[k] = by.get(k, 0) + v
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "python3-vt /verif/check.py %s %s" % (prop, tier),
        "trusted_base": propinfo.TRUSTED + pi.get("trusted", []),
        "functions_under_contract": [{k: v for k, v in i.items() if k in ("function", "status", "obligations", "discharged", "solver_s", "wall_s", "by", "inlined", "trusted", "dropped", "why", "renamed", "failed")} for i in infos],
        "discharged_by": by,
        "solver_s": round(sum(i["solver_s"] for i in infos), 2),
        "bounded_functions": pi.get("bounded", []) + ["%s (outside the subset on this tree: %s)" % (i["function"], i.get("why", "")) for i in outside],
        "evaluations": evals, "distinct_nontrivial": sum(r["distinct"] for r in rts),
        "rule": "executable contract on concrete inputs (replay and bounded stand-in): " + (rts[0]["bound"] if rts else ""),
        "samples": [s for r in rts for s in r["samples"]][:2],
        "harness_notes": [h for r in rts for h in r["harness"]][:3],
        "explanation": pi.get("explanation", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": pi.get("level", "other"), "coverage": cov,
          "assumptions": propinfo.ASSUMPTIONS + pi.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        cov["samples"] = []
        for i in cov["functions_under_contract"]:
            i.pop("dropped", None)
            i["failed"] = i.get("failed", [])[:3]
        txt = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        f.write(txt)
    broken = [h for r in rts for h in r["harness"] if h.startswith("no report")]
    if broken and not violations:
        print("the executable contract did not run: " + broken[0])
        return 2
    print("%s: %d/%d obligations of %d functions discharged, %d outside the subset; %d concrete evaluations; %.1f s" % (prop, discharged, obligations, len(infos), len(outside), evals, time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
