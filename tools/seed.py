"""Make or re-confirm the planted bugs of /verif/seeded in scratch copies.
   seed.py make ID...   build patch.diff from SEEDS and confirm;   seed.py confirm [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SD = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)


def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def confirm(sid):
    d = os.path.join(SD, sid)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        repo = os.path.join(tmp, "repo")
        sh("cp -a /repo %s && git -C %s checkout -q -- ." % (repo, repo), "/")
        a, o1 = sh("bash %s/demo.sh" % demo, repo)
        r, o = sh("git apply %s/patch.diff" % d, repo)
        if r:
            return "patch does not apply: " + o
        b, o2 = sh("bash %s/demo.sh" % demo, repo)
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = [t for k in base for t in (base[k] if isinstance(base[k], list) else [])]
        r, o = sh("PYTHONPATH=%s bash %s/run_tests.sh" % (repo, HERE), repo)
        return None if (a == 0 and b != 0 and r == 0) else "demo before %d after %d tests %d\n%s\n%s\n%s" % (a, b, r, o1[-600:], o2[-300:], o[-800:])
    finally:
        shutil.rmtree(tmp)


def make(sid, s):
    d = os.path.join(SD, sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mk_")
    try:
        repo = os.path.join(tmp, "repo")
        sh("cp -a /repo %s && git -C %s checkout -q -- ." % (repo, repo), "/")
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        r, o = sh("git diff", repo)
        open(os.path.join(d, "patch.diff"), "w").write(o)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    if s.get("py", "python3") == "python3-vt":
        shutil.copy(os.path.join(HERE, "demo_stubs.py"), os.path.join(d, "demo_stubs.py"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" %s "$(dirname "$0")/demo.py"\n' % s.get("py", "python3"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        from seeds import SEEDS
        for i in ids or [k for k in SEEDS if not os.path.exists(os.path.join(SD, k, "patch.diff"))]:
            make(i, SEEDS[i])
            print(i, confirm(i) or "ok")
    else:
        for i in ids or sorted(os.listdir(SD)):
            if os.path.isdir(os.path.join(SD, i)):
                print(i, confirm(i) or "ok")
