"""Discharges obligations with a portfolio of external SMT solvers, each query in its own process."""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import tempfile
import time
import z3
import theory as TH
import relevance

Z3NEW = "z3-new"
Z3OLD = "z3"
CVC5 = "cvc5"


def smt2(obl):
    fs = list(obl.pc) + [z3.Not(obl.goal)]
    ax = TH.relevant_axioms(fs, getattr(obl, "without", ()))
    s = z3.Solver()
    s.add(*ax)
    s.add(*fs)
    txt = s.to_smt2()
    # z3's printer omits sorts that only occur inside datatypes
    pre = ""
    for so in ("Ref", "Str", "Val"):
        if "(declare-sort %s 0)" % so in txt:
            txt = txt.replace("(declare-sort %s 0)\n" % so, "")
        pre += "(declare-sort %s 0)\n" % so
    return pre + txt


STAGES = [
    [("z3-new", [Z3NEW, "-T:2", "smt.mbqi=false", "auto_config=false", "smt.random_seed=1"]), ("cvc5/q", [CVC5, "--tlimit=2500", "-q"]), ("z3-4.8", [Z3OLD, "-T:3", "auto_config=false", "smt.mbqi=false"]), ("z3-new/2", [Z3NEW, "-T:6", "smt.mbqi=false", "auto_config=false", "smt.random_seed=11"])],
    [("cvc5/fs", [CVC5, "--tlimit=4000", "-q", "--full-saturate-quant"]), ("cvc5", [CVC5, "--tlimit=8000", "-q"]), ("z3-new/auto", [Z3NEW, "-T:15", "smt.random_seed=7"]), ("z3-4.8/2", [Z3OLD, "-T:15", "auto_config=false", "smt.mbqi=false", "smt.random_seed=3"])],
    [("z3-new/s2", [Z3NEW, "-T:40", "smt.mbqi=false", "auto_config=false", "smt.random_seed=3", "smt.qi.eager_threshold=100"]), ("z3-new/case", [Z3NEW, "-T:40", "auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.random_seed=5"]), ("cvc5/full", [CVC5, "--tlimit=40000", "-q", "--full-saturate-quant"])],
    # other seeds, and more time: a slow or loaded machine must not turn a proof into an alarm
    [("cvc5/long", [CVC5, "--tlimit=15000", "-q"])] + [("z3-new/s%d" % k, [Z3NEW, "-T:8", "smt.mbqi=false", "auto_config=false", "smt.random_seed=%d" % k]) for k in (23, 42, 77, 5)] + [
        ("cvc5/seed", [CVC5, "--tlimit=10000", "-q", "--seed=7"]), ("z3-4.8/s9", [Z3OLD, "-T:10", "auto_config=false", "smt.mbqi=false", "smt.random_seed=9"])],
]


def run_one(cmd, path, limit):
    t = time.time()
    try:
        p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        return "timeout", "", time.time() - t
    first = ""
    if "(error" in out or "Error" in out:
        return "error", out[:600], time.time() - t
    for ln in out.splitlines():
        if ln.strip() in ("sat", "unsat", "unknown", "timeout"):
            first = ln.strip()
            break
    if not first:
        first = "error"
    return first, out[:600], time.time() - t


def discharge(job):
    """job = (index, text, max_stage, workdir, scale) -> dict"""
    idx, text, maxstage, work, deadline, minstage = job
    path = os.path.join(work, "q%d.smt2" % idx)
    with open(path, "w") as f:
        f.write(text)
    log = []
    total = 0.0
    try:
        for k, stage in enumerate(STAGES[minstage:maxstage]):
            if time.time() > deadline:
                log.append("deadline")
                break
            for name, cmd in stage:
                if time.time() > deadline:
                    break
                limit = 60
                r, out, dt = run_one(cmd, path, limit)
                total += dt
                log.append("%s:%s:%.2fs" % (name, r if r != "error" else "error " + out[:200], dt))
                if r == "unsat":
                    return {"i": idx, "status": "proved", "by": name, "time": total, "log": log}
                if r == "sat":
                    return {"i": idx, "status": "refuted", "by": name, "time": total, "log": log}
        return {"i": idx, "status": "unknown", "by": None, "time": total, "log": log}
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass


def run(texts, workers=8, maxstage=3, budget=600, minstage=0):
    work = tempfile.mkdtemp(prefix="vcq")
    deadline = time.time() + budget
    res = [None] * len(texts)
    # identical queries are solved once
    first = {}
    jobs = []
    for i, t in enumerate(texts):
        h = hashlib.sha256(t.encode()).hexdigest()
        if h in first:
            continue
        first[h] = i
        jobs.append((i, t, maxstage, work, deadline, minstage))
    try:
        with cf.ThreadPoolExecutor(workers) as ex:
            for r in ex.map(discharge, jobs):
                res[r["i"]] = r
    finally:
        try:
            os.rmdir(work)
        except OSError:
            pass
    for i, t in enumerate(texts):
        if res[i] is None:
            h = hashlib.sha256(t.encode()).hexdigest()
            r = dict(res[first[h]])
            r["time"] = 0.0
            r["i"] = i
            res[i] = r
    return res


class Sub:
    def __init__(self, pc, goal):
        self.pc, self.goal = pc, goal


def filtered(o, cap, p):
    """the obligation with the hypotheses nearest to its goal (dropping hypotheses is sound)"""
    s = Sub([o.pc[j] for j in relevance.rank(o.pc, o.goal, p=p, cap=cap)], o.goal)
    s.without = getattr(o, "without", ())
    return s


# (relevance filter or None, first stage, last stage, how many undecided obligations may enter)
PLAN = [(None, 0, 1, None), ((25, 0.5), 0, 1, 40), ((60, 0.4), 0, 1, 40), (None, 1, 2, 12), (None, 3, 4, 8), ((40, 0.3), 1, 2, 12), (None, 2, 3, 6)]


def decide(obls, workers=8, budget=600, stages=4, stop=None):
    """discharge obligations; later steps of PLAN only for what is still open"""
    texts = [smt2(o) for o in obls]
    res = None
    end = time.time() + budget
    for flt, lo, hi, most in PLAN:
        if hi > stages:
            continue
        if res is None:
            res = run(texts, workers=workers, budget=budget, minstage=lo, maxstage=hi)
            continue
        left = [i for i, r in enumerate(res) if r["status"] != "proved"]
        if not left or (stop is not None and stop()) or time.time() > end:
            break
        if most is not None:
            left = left[:most]
        if flt is not None:
            left = [i for i in left if len(obls[i].pc) > flt[0]]
        more = run([texts[i] if flt is None else smt2(filtered(obls[i], *flt)) for i in left], workers=workers, budget=end - time.time(), minstage=lo, maxstage=hi)
        for i, r in zip(left, more):
            if r["status"] == "refuted" and flt is not None:
                r["status"] = "unknown"
            r["log"] = res[i]["log"] + [("filtered %d:" % flt[0] if flt else "") + x for x in r["log"]]
            r["time"] += res[i]["time"]
            if r["status"] != "proved" and res[i]["status"] == "refuted":
                r["status"] = "refuted"
            res[i] = r
    return res
