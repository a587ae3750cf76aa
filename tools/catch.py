"""catch.py [ID...]: apply each planted bug to a copy of /repo and run its property's quick check on the copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, "seeded")


def one(i):
    prop = json.load(open(os.path.join(SD, i, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch_")
    try:
        subprocess.run("cp -a /repo %s/repo && git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff && cp -a %s %s/verif && rm -rf %s/verif/.git" % (tmp, tmp, tmp, os.path.join(SD, i), HERE, tmp, tmp), shell=True, check=True)
        p = subprocess.run(["python3-vt", "check.py", prop, os.environ.get("TIER", "quick")], cwd=tmp + "/verif", env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED="1"), capture_output=True, text=True)
        return i, prop, p.returncode, [l for l in p.stdout.splitlines() if "VIOLATION" in l or "what" in l.lower()][:3], p.stderr[-300:]
    finally:
        shutil.rmtree(tmp)


ids = sys.argv[1:] or sorted(os.listdir(SD))
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for r in ex.map(one, ids):
        print(*r)
