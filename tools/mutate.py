#!/usr/bin/env python3-vt
"""Development tool: mutates the functions the properties rest on, runs the checks against each mutant in a
scratch copy and lists the mutants that no check notices.
mutate.py FILE [--props C01,C02] [--func NAME] [--max N] [--seed S] [--only K] (paths relative to the repo)"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "causalnex/ebaybbn/bbn.py": "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13",
    "causalnex/ebaybbn/graph.py": "C05,C07,C01,C04,C13", "causalnex/ebaybbn/utils.py": "C05,C01",
    "causalnex/structure/structuremodel.py": "C14,C15,C16", "causalnex/structure/categorical_variable_mapper.py": "C17",
    "causalnex/structure/notears.py": "C18", "causalnex/structure/dynotears.py": "C19", "causalnex/structure/transformers.py": "C20",
    "causalnex/discretiser/discretiser.py": "C21", "causalnex/structure/data_generators/core.py": "C22", "causalnex/inference/inference.py": "C23",
    "causalnex/network/network.py": "C24,C23,C25,C28", "causalnex/evaluation/evaluation.py": "C25", "causalnex/plots/plots.py": "C26",
    "causalnex/structure/pytorch/core.py": "C27", "causalnex/structure/pytorch/notears.py": "C27", "causalnex/structure/pytorch/dist_type/_base.py": "C27",
    "causalnex/structure/pytorch/dist_type/categorical.py": "C27",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any"}
DROP = {"sorted", "deepcopy", "copy", "set", "list", "abs", "reversed", "dict", "tuple", "str"}


def sites(tree, funcs):
    """[(description, function that applies the mutation to a fresh copy's node)] addressed by walk index"""
    out = []
    nodes = list(ast.walk(tree))
    infn = {}
    for fd in nodes:
        if isinstance(fd, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(fd):
                infn[id(n)] = infn.get(id(n), []) + [fd.name]
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
    inraise = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                inraise.add(id(m))
        if isinstance(n, (ast.FunctionDef,)):
            for a in (n.args.args + n.args.kwonlyargs):
                if a.annotation:
                    for m in ast.walk(a.annotation):
                        inraise.add(id(m))
            if n.returns:
                for m in ast.walk(n.returns):
                    inraise.add(id(m))
    for k, n in enumerate(nodes):
        fn = infn.get(id(n))
        if not fn or id(n) in doc or id(n) in inraise and not isinstance(n, ast.Raise):
            continue
        if funcs and not set(fn) & set(funcs):
            continue
        d = "%s:%s" % (fn[-1], getattr(n, "lineno", "?"))

        def add(what, f):
            out.append((k, "%s %s" % (d, what), f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add("cmp %s->%s" % (type(n.ops[0]).__name__, o.__name__), lambda x, o=o: x.ops.__setitem__(0, o()))
        if isinstance(n, ast.BoolOp):
            add("boolop", lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            add("drop first", lambda x: x.values.pop(0) if len(x.values) > 1 else None)
            add("drop last", lambda x: x.values.pop() if len(x.values) > 1 else None)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add("binop %s" % type(n.op).__name__, lambda x: setattr(x, "op", BIN[type(x.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add("augop", lambda x: setattr(x, "op", BIN[type(x.op)]()))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            if isinstance(v, bool):
                add("const %r" % v, lambda x: setattr(x, "value", not x.value))
            elif isinstance(v, (int, float)):
                add("const %r+1" % v, lambda x: setattr(x, "value", x.value + 1))
                add("const %r-1" % v, lambda x: setattr(x, "value", x.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) < 25:
            add("str %r" % n.value, lambda x: setattr(x, "value", x.value + "_"))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add("cond True", lambda x: setattr(x, "test", ast.Constant(True))) if not isinstance(n, ast.While) else None
            add("cond False", lambda x: setattr(x, "test", ast.Constant(False)))
        if isinstance(n, ast.UnaryOp):
            add("drop unary", lambda x: "unary")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in NAMES:
                add("name %s" % n.func.id, lambda x: setattr(x.func, "id", NAMES[x.func.id]))
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if nm in DROP and (n.args or isinstance(n.func, ast.Attribute)):
                add("drop call %s" % nm, lambda x: "unwrap")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add("swap args", lambda x: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]))
            for j, kw in enumerate(n.keywords):
                add("drop kw %s" % kw.arg, lambda x, j=j: x.keywords.pop(j))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for j, g in enumerate(n.generators):
                if g.ifs:
                    add("drop comp if", lambda x, j=j: setattr(x.generators[j], "ifs", []))
        if isinstance(n, ast.Expr) or isinstance(n, (ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            add("delete stmt", lambda x: "delete")
        if isinstance(n, ast.Break):
            add("break->continue", lambda x: "continue")
        if isinstance(n, ast.For):
            add("skip first iteration", lambda x: setattr(x, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [x.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())))
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, target, action):
        self.t, self.a = target, action

    def visit(self, n):
        if n is self.t:
            if self.a == "delete":
                return ast.Pass()
            if self.a == "continue":
                return ast.Continue()
            if self.a == "unary":
                return n.operand
            if self.a == "unwrap":
                return n.args[0] if n.args else n.func.value
        return self.generic_visit(n)


def mutant(src, k, f):
    tree = ast.parse(src)
    n = list(ast.walk(tree))[k]
    r = f(n)
    if isinstance(r, str):
        tree = Apply(n, r).visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def work(job):
    path, desc, text, props, slot = job
    root = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", "/repo/causalnex", root + "/causalnex"], check=True)
        with open(os.path.join(root, path), "w") as fh:
            fh.write(text)
        # stable tests
        if "ebaybbn" in path:
            subprocess.run(["cp", "-a", "/repo/tests", root + "/tests"], check=True)
        env = dict(os.environ, VERIF_REPO=root, VERIF_EVID=root, OMP_NUM_THREADS="1")
        res = []
        for p in props.split(","):
            out = os.path.join(root, "o.json")
            if os.path.exists(out):
                os.unlink(out)
            try:
                r = subprocess.run(["python3-vt", os.path.join(HERE, "rt", "main.py"), p, "quick", "1", out, "40"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
                rep = json.load(open(out))
                if rep["fails"]:
                    return desc, "R:" + p, rep["fails"][0]["what"][:100]
                if rep["evaluations"] == 0 or rep.get("nharness"):
                    res.append("%s:harness" % p)
            except subprocess.TimeoutExpired:
                return desc, "R-timeout:" + p, ""
            except Exception as e:
                return desc, "R-error:" + p, str(e)[:80]
        return desc, "SURVIVED", " ".join(res)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def tests_pass(path, text):
    root = tempfile.mkdtemp(prefix="mutt")
    try:
        subprocess.run(["cp", "-a", "/repo/.", root + "/"], check=True)
        with open(os.path.join(root, path), "w") as fh:
            fh.write(text)
        stable = json.load(open("/opt/vp/BASELINE.json"))
        return root, stable
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--props")
    ap.add_argument("--func")
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--grep")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    src = open("/repo/" + a.file).read()
    ss = sites(ast.parse(src), a.func.split(",") if a.func else None)
    if a.grep:
        ss = [s for s in ss if a.grep in s[1]]
    if a.max and len(ss) > a.max:
        random.Random(a.seed).shuffle(ss)
        ss = ss[:a.max]
    base = ast.unparse(ast.parse(src))
    jobs = []
    for k, d, f in ss:
        try:
            t = mutant(src, k, f)
        except Exception:
            continue
        if t == base:
            continue
        jobs.append((a.file, d, t, a.props or FILES[a.file], 0))
    print(len(jobs), "mutants", flush=True)
    if a.show:
        import difflib
        for j in jobs:
            print(j[1])
            print("\n".join(list(difflib.unified_diff(base.splitlines(), j[2].splitlines(), n=1, lineterm=""))[2:]))
        return
    n = {"caught": 0, "survived": 0}
    with cf.ThreadPoolExecutor(a.j) as ex:
        for d, s, w in ex.map(work, jobs):
            if s == "SURVIVED":
                n["survived"] += 1
                print(d, s, w, flush=True)
            else:
                n["caught"] += 1
                if s.startswith("R-"):
                    print(d, s, w, flush=True)
    print(n)


if __name__ == "__main__":
    main()
