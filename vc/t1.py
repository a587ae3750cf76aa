"""Development runner: t1.py AREA [function ...]; env ROOT, STAGES, V=-v, DUMP=1"""
import os
import sys
import time
import traceback
import importlib
from engine import *
import areas
import solver
ROOT = os.environ.get("ROOT", "/repo")
area = importlib.import_module(sys.argv[1])
names = sys.argv[2:] or list(area.C)
tot = 0
for n in names:
    con = area.C[n]
    if con.trusted:
        continue
    e = areas.engine(area, ROOT)
    t = time.time()
    try:
        obls, vac = [], []
        for v in (con.variants or [None]):
            obls += e.verify(con, v)
            vac += e.vac
    except Unbound as u:
        print(n, "UNBOUND", u)
        continue
    except Unsupported as u:
        if os.environ.get("TB"):
            traceback.print_exc()
        print(n, "UNSUPPORTED", u)
        continue
    t1 = time.time() - t
    res = solver.decide(obls, stages=int(os.environ.get("STAGES", "3")))
    vr = solver.run([solver.smt2(o) for o in vac], maxstage=1)
    bad = [(o, r) for o, r in zip(obls, res) if r["status"] != "proved"]
    tot += len(obls)
    print(n, len(obls), "obls", len(bad), "bad", "gen %.1f solve %.1f" % (t1, time.time() - t - t1), "max %.1f" % max([r["time"] for r in res] or [0]), "VACUOUS " + str([o.label for o, r in zip(vac, vr) if r["status"] == "proved"]) if any(r["status"] == "proved" for r in vr) else "")
    for o, r in zip(obls, res):
        if r["status"] != "proved" or r["time"] > 1.5 or "-v" in os.environ.get("V", ""):
            print("   ", o.label, r["status"], r["log"])
        if r["status"] != "proved" and os.environ.get("DUMP"):
            open("/tmp/fail_%s.smt2" % o.label.replace(":", "_").replace("/", "_"), "w").write(solver.smt2(o))
print(tot, "obligations")
