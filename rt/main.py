"""Runs the executable contracts of one property. usage: main.py PROP TIER SEED OUT.json [BUDGET] | main.py --replay FILE"""
import collections
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
AREAS = ["ebay", "others"]


class Timeout(Exception):
    pass


def alarm(*a):
    raise Timeout()


def area(prop):
    for a in AREAS:
        try:
            m = importlib.import_module(a)
        except ModuleNotFoundError as e:
            if e.name == a:
                continue
            raise
        if prop in m.PROPS:
            return m
    raise SystemExit("no executable contract for " + prop)


def stub_gap(e, tb):
    """the code used a part of a stand-in library that the stand-in does not have"""
    m = sys.modules.get("stubs")
    if m is None:
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if getattr(o, "__module__", None) == "stubs" or getattr(type(o), "__module__", None) == "stubs" or getattr(o, "_stub", False):
            return True
    if os.path.basename(tb[-1].filename) == "stubs.py" and isinstance(e, (AssertionError, NotImplementedError, AttributeError, TypeError)):
        return True
    if isinstance(e, TypeError) and any(str(e).startswith((n + "(", n + ".")) for n in m.__dict__ if isinstance(m.__dict__[n], type) or callable(m.__dict__[n])):
        return True
    return isinstance(e, (ImportError, NotImplementedError))


def one(check, inp, limit=20):
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return check(json.loads(json.dumps(inp)))
    except Timeout:
        return "did not terminate within %d s" % limit
    except RecursionError:
        return "RecursionError"
    except Exception as e:  # the real code raised where its contract says it returns
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        if not where:
            if os.environ.get("RT_TRACE"):
                traceback.print_exc()
            last = os.path.basename(tb[-1].filename)
            if "site-packages" in tb[-1].filename and not isinstance(e, (ImportError, NotImplementedError)):
                return "the result cannot be used as its contract says: %s: %s" % (type(e).__name__, e)
            if HERE in tb[-1].filename and last != "stubs.py":
                shape = isinstance(e, (KeyError, IndexError, ValueError, ZeroDivisionError))
                if isinstance(e, AttributeError) and type(getattr(e, "obj", e)) in (tuple, list, dict, set, int, float, str, type(None), np.ndarray):
                    shape = True
                if isinstance(e, TypeError):
                    shape = any(w in str(e) for w in ("NoneType", "subscriptable", "not iterable", "unpack", "has no len", "unhashable"))
                if shape:
                    return "the result has a shape its contract excludes: %s: %s" % (type(e).__name__, e)
            return "HARNESS %s: %s" % (type(e).__name__, e)
        if stub_gap(e, tb):
            return "HARNESS %s: %s" % (type(e).__name__, e)
        w = where[-1]
        return "raised %s: %s (%s:%d)" % (type(e).__name__, e, os.path.relpath(w.filename, REPO), w.lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        if "input" not in r:
            print(r.get("verifier_output", ""))
            return 1
        m = area(r["property"])
        res = one(getattr(m, "check_" + r["property"]), r["input"])
        print("input: %s" % json.dumps(r["input"]))
        print("result: %s" % res)
        return 1 if res else 0
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    budget = float(sys.argv[5]) if len(sys.argv) > 5 else (40 if tier == "quick" else 500)
    m = area(prop)
    check = getattr(m, "check_" + prop)
    n, fails, harness, samples, seen = 0, [], [], [], set()
    t0 = time.time()
    for inp in getattr(m, "cases_" + prop)(tier, seed):
        key = hashlib.sha256(json.dumps(inp, sort_keys=True, default=str).encode()).hexdigest()
        if key in seen:
            continue
        seen.add(key)
        n += 1
        r = one(check, inp)
        if r and r.startswith("HARNESS"):
            harness.append(r)
            if len(harness) > 20:
                break
        elif r:
            fails.append({"input": inp, "what": r})
            if len(fails) >= 3:
                break
        elif len(samples) < 2 and n % 17 == 3:
            s = json.dumps(inp)
            if len(s) < 1500:
                samples.append(inp)
        if time.time() - t0 > budget:
            break
    fails.sort(key=lambda f: len(json.dumps(f)))
    json.dump({"evaluations": n, "distinct": len(seen), "fails": fails, "harness": harness[:5], "nharness": len(harness), "samples": samples,
               "bound": m.BOUND if isinstance(m.BOUND, str) else m.BOUND[prop], "wall": time.time() - t0, "exhausted": time.time() - t0 <= budget}, open(out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
