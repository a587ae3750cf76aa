"""Executable counterparts of the contracts outside ebaybbn (see ebay.py)."""
import copy
import itertools
import json
import random as _random
import re
import numpy as np
import networkx as nx
import stubs

PROPS = ["C%02d" % i for i in range(14, 29)]
BOUND = {p: "seeded random cases of small size plus fixed corner cases" for p in PROPS}


def rng_for(prop, seed):
    return _random.Random("%s-%s" % (prop, seed))


def count(tier, quick):
    return quick if tier == "quick" else quick * 12


def SM():
    return stubs.load("structure.structuremodel").StructureModel


def snapshot(g):
    return ({n: dict(d) for n, d in g.nodes(data=True)}, {(u, v): dict(d) for u, v, d in g.edges(data=True)}, dict(g.graph))


def rejects(f, exc=ValueError):
    try:
        f()
    except exc:
        return True
    return False


# ------------------------------------------------------------------ C14
ORIG = ["unknown", "learned", "expert"]


def _op(rng, n):
    k = rng.choice(["edge", "edge", "edges", "weighted", "badedge", "badedges", "badweighted", "rm", "node", "query", "copy"])
    e = lambda: [rng.randrange(n), rng.randrange(n)]
    o = rng.choice(ORIG + [None])
    at = rng.choice([{}, {}, {"weight": rng.randint(-3, 3)}, {"color": "red", "mean_effect": 1}])
    if k in ("edge", "badedge"):
        return [k, e(), o if k == "edge" else rng.choice(["Learned", "", "bogus", "expert "]), at]
    if k in ("edges", "badedges"):
        es = [e() + ([{"weight": rng.randint(1, 5)}] if rng.random() < 0.4 else []) for _ in range(rng.randint(0, 4))]
        form = rng.choice(["list", "set", "gen"])
        if k == "edges" and es and rng.random() < 0.3:
            es[0] = es[0][:2] + [{"origin": rng.choice(ORIG), "q": 1}]
        if form == "set" and any(len(x) > 2 for x in es):
            form = "list"
        return [k, es, o if k == "edges" else rng.choice(["LEARNED", "bogus"]), {"x": 1} if at else {}, form]
    if k in ("weighted", "badweighted"):
        es = [e() + [rng.randint(-5, 5)] for _ in range(rng.randint(0, 4))]
        return [k, es, o if k == "weighted" else "bogus", rng.choice(["weight", "weight", "w2"])]
    return [k, e()]


def cases_C14(tier, seed):
    rng = rng_for("C14", seed)
    inits = [{"kind": "none"}, {"kind": "edges", "e": [[0, 1], [1, 2]]}, {"kind": "edges", "e": [[0, 1], [1, 0]]}, {"kind": "dict", "e": [[0, 1], [2, 1]]},
             {"kind": "nx", "e": [[0, 1], [1, 2]]}, {"kind": "sm", "e": [[0, 1], [1, 2]]}, {"kind": "np", "e": [[0, 1], [2, 0]]}]
    for i in inits:
        for o in ORIG + [None, "bogus"]:
            yield {"init": i, "origin": o, "ops": []}
    for _ in range(count(tier, 600)):
        n = rng.randint(2, 4)
        yield {"init": rng.choice(inits), "origin": rng.choice(ORIG + [None]), "ops": [_op(rng, n) for _ in range(rng.randint(1, 7))]}


def check_C14(c):
    S = SM()
    es = [tuple(e) for e in c["init"].get("e", [])]
    kind = c["init"]["kind"]
    data = None
    model = {}
    extra = {}
    if kind == "edges":
        data = es
    elif kind == "dict":
        data = {}
        for u, v in es:
            data.setdefault(u, []).append(v)
    elif kind == "nx":
        data = nx.DiGraph()
        data.add_edges_from(es, weight=2)
        extra = {"weight": 2}
    elif kind == "sm":
        data = S()
        data.add_edges_from(es, origin="expert")
        snap0 = snapshot(data)
    elif kind == "np":
        data = np.zeros((3, 3))
        for u, v in es:
            data[u, v] = 1.5
        extra = {"weight": 1.5}
    o = c["origin"]
    if o == "bogus":
        if not rejects(lambda: S(data, origin=o)):
            return "constructor accepts the origin %r" % o
        return None
    g = S(data) if o is None else S(data, origin=o)
    if kind == "sm" and snapshot(data) != snap0:
        return "constructing from a structure model changed it"
    for e in es:
        model[e] = dict(extra, origin=o or "unknown")

    def compare(when):
        got = {(u, v): dict(d) for u, v, d in g.edges(data=True)}
        if got != model:
            return "%s: edges are %r, expected %r" % (when, got, model)
        seen = []
        for og in ORIG:
            l = g.edges_with_origin(og)
            want = [e for e in g.edges if model[e]["origin"] == og]
            if sorted(map(tuple, l)) != sorted(want):
                return "%s: edges_with_origin(%r) = %r, expected %r" % (when, og, l, want)
            seen += l
        return None
    r = compare("after construction")
    if r:
        return r
    for op in c["ops"]:
        k = op[0]
        before = snapshot(g)
        if k == "edge":
            (u, v), og, at = op[1], op[2], op[3]
            g.add_edge(u, v, **(dict(at) if og is None else dict(at, origin=og)))
            model.setdefault((u, v), {}).update(dict(at, origin=og or "unknown"))
        elif k == "badedge":
            (u, v), og, at = op[1], op[2], op[3]
            if not rejects(lambda: g.add_edge(u, v, origin=og, **at)):
                return "add_edge accepts the origin %r" % og
        elif k in ("edges", "badedges"):
            ees, og, at, form = [tuple(x) for x in op[1]], op[2], op[3], op[4]
            arg = [tuple(x[:2]) + ((dict(x[2]),) if len(x) > 2 else ()) for x in ees]
            keep = copy.deepcopy(arg)
            if form == "set":
                arg = set(arg)
                ees = list(arg)
            elif form == "gen":
                arg = (x for x in arg)
            kw = dict(at) if og is None else dict(at, origin=og)
            if k == "badedges":
                if not rejects(lambda: g.add_edges_from(arg, **kw)):
                    return "add_edges_from accepts the origin %r" % og
            else:
                g.add_edges_from(arg, **kw)
                if form == "list" and arg != keep:
                    return "add_edges_from changed the edges passed in"
                for x in ees:
                    model.setdefault(tuple(x[:2]), {}).update(dict(at, origin=og or "unknown", **{}) if len(x) < 3 else {**at, "origin": og or "unknown", **x[2]})
        elif k in ("weighted", "badweighted"):
            ees, og, w = [tuple(x) for x in op[1]], op[2], op[3]
            kw = {} if og is None else {"origin": og}
            if w != "weight":
                kw["weight"] = w
            if k == "badweighted":
                if not rejects(lambda: g.add_weighted_edges_from(ees, **kw)):
                    return "add_weighted_edges_from accepts the origin %r" % og
            else:
                g.add_weighted_edges_from(ees, **kw)
                for u, v, x in ees:
                    model.setdefault((u, v), {}).update({w: x, "origin": og or "unknown"})
        elif k == "rm":
            if tuple(op[1]) in model:
                g.remove_edge(*op[1])
                del model[tuple(op[1])]
        elif k == "node":
            g.add_node(op[1][0])
        elif k == "copy":
            h = g.copy()
            if snapshot(h)[1] != snapshot(g)[1] or not isinstance(h, S):
                return "a copy does not keep the origins: %r instead of %r" % (snapshot(h)[1], snapshot(g)[1])
        if k.startswith("bad") and snapshot(g) != before:
            return "a refused %s changed the graph" % k
        r = compare("after %r" % (op,))
        if r:
            return r
    # an origin given per edge is validated too
    for bad in ("bogus", None):
        before = snapshot(g)
        for bunch in ([(0, 1), (1, 2, {"origin": bad})], [(7, 8, {"origin": bad})], [(7, 8, {"origin": bad}), (1, 2)], [(7, 8, {"origin": "expert"}), (8, 9, {"w": 1}), (1, 2, {"origin": bad}), (0, 1)]):
            if not rejects(lambda: g.add_edges_from(bunch)):
                return "add_edges_from accepts the origin %r given with an edge of %r" % (bad, bunch)
            if snapshot(g) != before:
                return "a refused add_edges_from changed the graph"
            if not rejects(lambda: g.add_edges_from((e for e in bunch), origin="learned")):
                return "add_edges_from accepts the origin %r given with an edge of an iterator" % (bad,)
            if snapshot(g) != before:
                return "a refused add_edges_from changed the graph"
    h = S(data, origin="learned", name="n", k=3)
    if dict(h.graph).get("k") != 3 or dict(h.graph).get("name") != "n":
        return "the constructor drops the graph attributes passed: %r" % (dict(h.graph),)
    return None


# ------------------------------------------------------------------ C15
def _wgraph(rng, n, p, ws, acyclic=False):
    es = []
    for i in range(n):
        for j in range(n):
            if i != j and (i < j or not acyclic) and rng.random() < p:
                es.append([i, j, rng.choice(ws)])
    rng.shuffle(es)
    return {"n": n, "e": es}


def cases_C15(tier, seed):
    rng = rng_for("C15", seed)
    yield {"n": 2, "e": [[0, 1, 0.5], [1, 0, -0.2]], "t": 0.3}
    yield {"n": 3, "e": [[0, 1, -1.0], [1, 2, 1.0], [2, 0, -1.0]], "t": 1.0}
    yield {"n": 1, "e": [[0, 0, 2.0]], "t": 2.0}
    yield {"n": 2, "e": [], "t": 1.0}
    yield {"n": 2, "e": [[0, 1, 0.0]], "t": 0.0}
    for _ in range(count(tier, 250)):
        ws = rng.choice([[-1.0, 1.0, 0.5, -0.5], [rng.uniform(-2, 2) for _ in range(40)], [0.1, -0.1, 0.2, -0.3, 3.0, 0.0], [1, -2, 3, -4]])
        g = _wgraph(rng, rng.randint(1, 6), rng.choice([0.2, 0.5, 0.9]), ws, rng.random() < 0.25)
        if rng.random() < 0.2:
            g["e"].append([0, 0, rng.choice(ws)])
        g["t"] = rng.choice([0.0, 0.3, 0.5, 1.0, 2.5, abs(rng.choice(ws)), -1.0])
        yield g


def mkgraph(c):
    g = SM()()
    g.add_nodes_from([(i, {"tag": i * 7}) for i in range(c["n"])])
    for k, (u, v, w) in enumerate(c["e"]):
        g.add_edge(u, v, origin=ORIG[k % 3], weight=w, idx=k)
    g.graph["label"] = "L"
    return g


def check_C15(c):
    g = mkgraph(c)
    n0, e0, gr0 = snapshot(g)
    r = g.remove_edges_below_threshold(c["t"])
    n1, e1, gr1 = snapshot(g)
    want = {k: d for k, d in e0.items() if abs(d["weight"]) >= c["t"]}
    if (n1, gr1) != (n0, gr0):
        return "remove_edges_below_threshold changed nodes or graph attributes"
    if e1 != want:
        return "remove_edges_below_threshold(%r) leaves %r, expected %r" % (c["t"], sorted(e1), sorted(want))
    g = mkgraph(c)
    g.threshold_till_dag()
    n1, e1, gr1 = snapshot(g)
    if (n1, gr1) != (n0, gr0):
        return "threshold_till_dag changed nodes or graph attributes"
    if any(e0.get(k) != d for k, d in e1.items()):
        return "threshold_till_dag changed a kept edge"
    if not nx.is_directed_acyclic_graph(g):
        return "threshold_till_dag leaves a cycle: %r" % sorted(e1)
    rem = [k for k in e0 if k not in e1]
    if nx.is_directed_acyclic_graph(mkgraph(c)) and rem:
        return "threshold_till_dag removed %r from an acyclic graph" % rem
    if rem:
        top = max(abs(e0[k]["weight"]) for k in rem)
        low = [k for k in e1 if abs(e1[k]["weight"]) < top]
        if low:
            return "threshold_till_dag kept %r although it removed stronger edges (up to %r)" % (low, top)
        last = [k for k in rem if abs(e0[k]["weight"]) == top]
        ok = False
        for k in last:
            h = g.copy()
            h.add_edge(*k)
            ok = ok or not nx.is_directed_acyclic_graph(h)
        if not ok:
            return "threshold_till_dag went on after the graph was acyclic: removed %r" % rem
    return None


# ------------------------------------------------------------------ C16
def cases_C16(tier, seed):
    rng = rng_for("C16", seed)
    yield {"n": 3, "e": [], "q": 1}
    yield {"n": 0, "e": [], "q": 1}
    yield {"n": 5, "e": [[0, 1, 1], [2, 3, 1], [3, 4, 1], [4, 2, 1]], "q": 0}
    yield {"n": 4, "e": [[1, 0, 1], [1, 2, 1]], "q": 2}
    yield {"n": 3, "e": [[0, 0, 1], [1, 2, 1]], "q": 0}
    for _ in range(count(tier, 600)):
        n = rng.randint(1, 8)
        g = _wgraph(rng, n, rng.choice([0.05, 0.12, 0.25]), [1.0, -0.5, 2.0])
        g["q"] = rng.randint(0, n + 1)
        yield g


def check_C16(c):
    g = mkgraph(c)
    before = snapshot(g)
    und = {i: {i} for i in range(c["n"])}
    for u, v, _ in c["e"]:
        m = und[u] | und[v]
        for x in m:
            und[x] = m
    q = c["q"]

    def full(h, comp):
        if not isinstance(h, SM()):
            return "is not a structure model"
        want_n = {k: before[0][k] for k in comp}
        want_e = {k: d for k, d in before[1].items() if k[0] in comp}
        got = snapshot(h)
        if got[0] != want_n or got[1] != want_e:
            return "has nodes %r and edges %r, expected %r and %r" % (sorted(got[0]), got[1], sorted(want_n), want_e)
        return None
    if q in und:
        h = g.get_target_subgraph(q)
        r = full(h, und[q])
        if r:
            return "target subgraph of %r %s" % (q, r)
        if h is g:
            return "target subgraph is the graph itself"
        h.add_edge("new1", "new2")
        h.remove_node(q)
    else:
        if not rejects(lambda: g.get_target_subgraph(q), nx.NodeNotFound):
            return "no NodeNotFound for the missing node %r" % q
    if snapshot(g) != before:
        return "extracting or editing the target subgraph changed the graph"
    h = g.get_largest_subgraph()
    if not c["e"]:
        if h is not None:
            return "largest subgraph of a graph without edges is %r" % (h,)
    else:
        comps = []
        for s in und.values():
            if s not in comps:
                comps.append(s)
        sz = [sum(1 for e in before[1] if e[0] in s) for s in comps]
        if h is None or set(h.nodes) not in [s for s, z in zip(comps, sz) if z == max(sz)]:
            return "largest subgraph is %r, components have edge counts %r" % (None if h is None else sorted(h.nodes), list(zip(map(sorted, comps), sz)))
        r = full(h, set(h.nodes))
        if r:
            return "largest subgraph " + r
        h.remove_node(next(iter(h.nodes)))
    if snapshot(g) != before:
        return "extracting or editing the largest subgraph changed the graph"
    return None


# ------------------------------------------------------------------ C17
def cases_C17(tier, seed):
    rng = rng_for("C17", seed)
    yield {"schema": [], "nodes": ["a"], "default": "continuous"}
    yield {"schema": [["a", "categorical:1"]], "nodes": ["a", "b"], "default": "categorical:2"}
    yield {"schema": [["a", "categorical:12"], ["b", "binary"]], "nodes": ["b", "a", "zz"], "default": "count"}
    names = ["a", "b", "c", "x_y", "B", 0, 1, 7, "long name"]
    # names that share a prefix with the expanded names of another one (without colliding with them)
    for _ in range(count(tier, 150)):
        ks = rng.sample(["a", "a_1", "a_x", "a_9", "a_", "a_1_1", 1, "1_1"], rng.randint(2, 5))
        s = [[n, rng.choice(["binary", "continuous", "count", "categorical:%d" % rng.choice([1, 2, 3])])] for n in ks]
        exp = [n if not t.startswith("cat") else None for n, t in s]
        fts = [n for n in exp if n is not None] + ["%s_%d" % (n, i) for n, t in s if t.startswith("cat") for i in range(int(t[12:]))]
        if len(set(map(str, fts))) == len(fts) and not any(n in fts for n, t in s if t.startswith("cat")):
            yield {"schema": s, "nodes": ks, "default": "continuous"}
    for _ in range(count(tier, 600)):
        k = rng.randint(1, 7)
        ns = rng.sample(names, k)
        s = [[n, rng.choice(["binary", "continuous", "count", "categorical:%d" % rng.choice([1, 2, 3, 11])])] for n in ns]
        yield {"schema": s, "nodes": rng.sample(names, rng.randint(0, 9)), "default": rng.choice(["continuous", "binary", "count", "categorical:4"])}


def check_C17(c):
    m = stubs.load("structure.categorical_variable_mapper")
    schema = {k: v for k, v in c["schema"]}
    keep = dict(schema)
    f = m.VariableFeatureMapper(schema)
    if schema != keep:
        return "the schema passed in was changed"
    card = {k: (int(v.split(":")[1]) if v.startswith("categorical") else 1) for k, v in schema.items()}
    n = sum(card.values())
    if f.n_features != n or f.n_variables != len(schema):
        return "n_features/n_variables are %r/%r, expected %r/%r" % (f.n_features, f.n_variables, n, len(schema))
    if sorted(map(repr, f.variable_list)) != sorted(map(repr, schema)):
        return "variable_list is %r" % (f.variable_list,)
    owned = []
    for v, t in schema.items():
        ix = f.get_indices(v)
        ix = list(ix)
        if len(ix) != card[v]:
            return "variable %r owns columns %r, expected %d columns" % (v, ix, card[v])
        if ix != list(range(ix[0], ix[0] + len(ix))):
            return "columns of %r are not consecutive: %r" % (v, ix)
        owned += ix
        kind = t.split(":")[0]
        for k in ("binary", "continuous", "count", "categorical"):
            if f.is_var_of_type(v, k) != (k == kind) or (v in f.get_var_of_type(k)) != (k == kind):
                return "type of %r is wrong for %r" % (v, k)
        fn = f.get_feature_names(v)
        if kind == "categorical":
            if fn != ["%s_%d" % (v, i) for i in range(card[v])]:
                return "feature names of %r are %r" % (v, fn)
            if [f.get_feature_index(x) for x in fn] != ix:
                return "feature indices of %r do not match its columns" % v
            if not rejects(lambda: f.get_feature_index(v)):
                return "get_feature_index accepts the categorical variable %r" % v
            if f.get_indices(v, squeeze=True) != ix:
                return "squeeze changes the indices of the categorical %r" % v
        else:
            if fn != v or f.get_feature_index(v) != ix[0] or f.get_indices(v, squeeze=True) != ix[0]:
                return "feature lookup of %r is inconsistent" % v
        for x, i in zip(fn if kind == "categorical" else [fn], ix):
            if f.get_feature_names()[i] != x:
                return "column %d is named %r, expected %r" % (i, f.get_feature_names()[i], x)
    if sorted(owned) != list(range(n)):
        return "columns %r are not a partition of 0..%d" % (sorted(owned), n - 1)
    want = [list(f.get_indices(v)) for v, t in schema.items() if t.startswith("cat")]
    if sorted(f.get_categorical_indices()) != sorted(want):
        return "categorical indices %r, expected %r" % (f.get_categorical_indices(), want)
    vs = list(schema)
    exp = [i for v in vs for i in f.get_indices(v)]
    if f.get_indices(list(vs)) != exp or sorted(f.get_indices(set(vs))) != sorted(exp) or f.get_indices(iter(list(vs))) != exp:
        return "get_indices of a collection is not the concatenation"
    if not rejects(lambda: f.get_indices("no such variable")) or not rejects(lambda: f.get_var_of_type("float")):
        return "unknown variable or type accepted"
    if any(not rejects(lambda: f.is_var_of_type(v, "float")) for v in ["no such variable"] + vs):
        return "unknown type accepted"
    for v in c["nodes"]:
        for b in ("categorical", "categorical:0", "categorical:2.5", "counts", "bin"):
            if not rejects(lambda: m.validate_schema(nodes=c["nodes"], default_type=c["default"], schema=dict(schema, **{"other": "x"}, **{}) | {v: b})):
                return "validate_schema accepts the type %r of the node %r" % (b, v)
    full = m.validate_schema(nodes=c["nodes"], default_type=c["default"], schema=schema)
    if full != {k: schema.get(k, c["default"]) for k in c["nodes"]} or schema != keep:
        return "validate_schema gives %r" % full
    if m.validate_schema(nodes=c["nodes"], schema=None) != {k: "continuous" for k in c["nodes"]}:
        return "validate_schema without a schema gives the wrong default"
    for bad in ("float", "categorical", "categorical:", "categorical:0", "categorical:03", "categorical:x", "categorical:3x", "binarycount", "count:2x", ""):
        if not rejects(lambda: m.validate_schema(nodes=["n1", "n2"], schema={"n1": bad})):
            return "validate_schema accepts the type %r" % bad
    for bad in ("float", "continuousx", ""):
        if not rejects(lambda: m.validate_schema(nodes=["n1"], default_type=bad)):
            return "validate_schema accepts the default type %r" % bad
    return None


# ------------------------------------------------------------------ adversarial optimiser for C18, C19, C27
class Sol:
    def __init__(self, x):
        self.x = x


OPT = [None]   # the optimiser in use: None for the real one


def _hook_opt():
    """scipy.optimize.minimize: the stand-in while one is set, else the real one, whose solution is a writable
    array as in the supported versions"""
    import scipy.optimize as so
    real = so.minimize

    def minimize(*a, **k):
        if OPT[0] is not None:
            return OPT[0].minimize(*a, **k)
        r = real(*a, **k)
        r.x = np.array(r.x)
        return r
    so.minimize = minimize


_hook_opt()


class FakeOpt:
    """stands for scipy.optimize: minimize may return any vector within the bounds"""

    def __init__(self, seed, density):
        self.r = np.random.RandomState(seed)
        self.density = density
        self.calls = 0
        self.bounds = None

    def minimize(self, fun, x0, args=(), method=None, jac=None, bounds=None, **k):
        self.calls += 1
        self.bounds = bounds = list(bounds)
        if len(bounds) != len(x0):
            raise ValueError("length of x0 != length of bounds")
        x = np.zeros(len(x0))
        for i, (lo, hi) in enumerate(bounds):
            a, b = (-2.0 if lo is None else lo), (2.0 if hi is None else hi)
            x[i] = self.r.uniform(a, b) if self.r.rand() < self.density else min(max(0.0, a), b)
            if x[i] == 0 and self.density >= 1 and b > a:
                x[i] = b
        self.last = x.copy()
        return Sol(x)


def _tabu(rng, d, lag=None):
    out = {}
    if rng.random() < 0.6:
        out["edges"] = [([rng.randint(0, lag)] if lag is not None else []) + [rng.randrange(d), rng.randrange(d)] for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.4:
        out["parents"] = rng.sample(range(d), rng.randint(0, min(2, d)))
    if rng.random() < 0.4:
        out["children"] = rng.sample(range(d), rng.randint(0, min(2, d)))
    return out


def cases_C18(tier, seed):
    rng = rng_for("C18", seed)
    for lasso in (0, 1):
        yield {"d": 3, "lasso": lasso, "tabu": {}, "seed": 1, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
        yield {"d": 3, "lasso": lasso, "tabu": {"edges": [[0, 2]]}, "seed": 2, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
        yield {"d": 3, "lasso": lasso, "tabu": {"parents": [0]}, "seed": 2, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
        yield {"d": 3, "lasso": lasso, "tabu": {"children": [0]}, "seed": 2, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
        yield {"d": 1, "lasso": lasso, "tabu": {}, "seed": 1, "thr": 0.0, "names": ["b"], "density": 1.0}
    for _ in range(count(tier, 300)):
        d = rng.randint(1, 5)
        yield {"d": d, "lasso": rng.randint(0, 1), "tabu": _tabu(rng, d), "seed": rng.randrange(10**6), "thr": rng.choice([0.0, 0.0, 0.3]),
               "names": rng.sample(["z", "b", "a", "col_1", "X", 5, 3], d), "density": rng.choice([1.0, 1.0, 0.5])}


def forb(t, i, j, lag=None):
    e = [i, j] if lag is None else [lag, i, j]
    return e in t.get("edges", []) or i in t.get("parents", []) or j in t.get("children", [])


def check_C18(c):
    m = stubs.load("structure.notears")
    d, t = c["d"], c["tabu"]
    X = np.random.RandomState(c["seed"]).randn(12, d)
    keepX = X.copy()

    def kw(conv):
        k = {}
        if "edges" in t:
            k["tabu_edges"] = [(conv(a), conv(b)) for a, b in t["edges"]]
        if "parents" in t:
            k["tabu_parent_nodes"] = [conv(a) for a in t["parents"]]
        if "children" in t:
            k["tabu_child_nodes"] = [conv(a) for a in t["children"]]
        return k
    try:
        for pandas in (False, True):
            o = OPT[0] = FakeOpt(c["seed"], c["density"])
            names = c["names"] if pandas else list(range(d))
            data = stubs.DataFrame(X.copy(), columns=names) if pandas else X
            k = kw(lambda i: names[i])
            keepk = copy.deepcopy(k)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f = getattr(m, ("from_pandas" if pandas else "from_numpy") + ("_lasso" if c["lasso"] else ""))
                g = f(data, 0.1, max_iter=1, w_threshold=c["thr"], **k) if c["lasso"] else f(data, max_iter=1, w_threshold=c["thr"], **k)
            if k != keepk or not np.array_equal(X, keepX) or (pandas and not np.array_equal(data.values, X)):
                return "the data or the restrictions passed in were changed"
            if list(g.nodes) != names:
                return "nodes are %r, expected %r" % (list(g.nodes), names)
            if not o.calls:
                return "no optimisation was run: every edge is fixed"
            w = o.last
            W = (w[:d * d] - w[d * d:] if c["lasso"] else w).reshape(d, d)
            for i in range(d):
                for j in range(d):
                    has = g.has_edge(names[i], names[j])
                    if (i == j or forb(t, i, j)) and has:
                        return "forbidden edge %r -> %r learned (restrictions %r)" % (names[i], names[j], k)
                    if i != j and not forb(t, i, j):
                        b = o.bounds[i * d + j]
                        want = (0, None) if c["lasso"] else (None, None)
                        if tuple(b) != want or (c["lasso"] and tuple(o.bounds[d * d + i * d + j]) != want):
                            return "edge %r -> %r is not free: bounds %r" % (names[i], names[j], b)
                        x = W[i, j]
                        if has != (abs(x) > c["thr"]) or (has and abs(g[names[i]][names[j]]["weight"] - x) > 1e-12):
                            return "learned weight of %r -> %r is %r, graph has %r" % (names[i], names[j], x, g.get_edge_data(names[i], names[j]))
                        if has and pandas and g[names[i]][names[j]]["origin"] != "learned":
                            return "edge %r -> %r has origin %r" % (names[i], names[j], g[names[i]][names[j]]["origin"])
    finally:
        OPT[0] = None
    # with the real optimiser: strongly dependent data
    if d >= 2 and c["seed"] % 5 == 2:
        r = np.random.RandomState(c["seed"])
        Y = r.randn(60, d)
        for j in range(1, d):
            Y[:, j] += 2 * Y[:, j - 1]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = m.from_numpy_lasso(Y, 0.05, max_iter=2, **kw(int)) if c["lasso"] else m.from_numpy(Y, max_iter=2, **kw(int))
        for u, v in g.edges:
            if u == v or forb(t, u, v):
                return "forbidden edge %r -> %r learned from data (restrictions %r)" % (u, v, t)
    for bad in (np.nan, np.inf):
        Z = keepX.copy()
        Z[0, 0] = bad
        if not rejects(lambda: m.from_numpy(Z)) or not rejects(lambda: m.from_numpy_lasso(Z, 0.1)):
            return "data with %r accepted" % bad
    if not rejects(lambda: m.from_numpy(np.empty((0, d)))) or not rejects(lambda: m.from_numpy_lasso(np.empty((0, d)), 0.1)):
        return "empty data accepted"
    return None


# ------------------------------------------------------------------ C19
def cases_C19(tier, seed):
    rng = rng_for("C19", seed)
    yield {"d": 2, "p": 2, "tabu": {}, "seed": 3, "thr": 0.0, "names": ["b", "a"], "density": 1.0}
    yield {"d": 3, "p": 2, "tabu": {"edges": [[1, 0, 2], [0, 0, 1], [2, 1, 1]]}, "seed": 3, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
    yield {"d": 3, "p": 3, "tabu": {"parents": [1]}, "seed": 4, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
    yield {"d": 3, "p": 1, "tabu": {"children": [2]}, "seed": 4, "thr": 0.0, "names": ["b", "a", "c"], "density": 1.0}
    for _ in range(count(tier, 300)):
        d, p = rng.randint(1, 4), rng.randint(1, 3)
        yield {"d": d, "p": p, "tabu": _tabu(rng, d, p), "seed": rng.randrange(10**6), "thr": rng.choice([0.0, 0.0, 0.4]),
               "names": rng.sample(["z", "b", "a", "col_1", "X"], d), "density": rng.choice([1.0, 1.0, 0.5])}


def check_C19(c):
    m = stubs.load("structure.dynotears")
    d, p, t = c["d"], c["p"], c["tabu"]
    r = np.random.RandomState(c["seed"])
    ts = r.randn(9 + p, d)

    def kw(conv):
        k = {}
        if "edges" in t:
            k["tabu_edges"] = [(l, conv(a), conv(b)) for l, a, b in t["edges"]]
        if "parents" in t:
            k["tabu_parent_nodes"] = [conv(a) for a in t["parents"]]
        if "children" in t:
            k["tabu_child_nodes"] = [conv(a) for a in t["children"]]
        return k
    # direct: matrices to graph
    W = np.where(r.rand(d, d) < 0.5, r.randn(d, d), 0.0)
    A = np.where(r.rand(d * p, d) < 0.5, r.randn(d * p, d), 0.0)
    want = {("%d_lag0" % i, "%d_lag0" % j): W[i, j] for i in range(d) for j in range(d) if W[i, j] != 0}
    want.update({("%d_lag%d" % (i, l), "%d_lag0" % j): A[(l - 1) * d + i, j] for l in range(1, p + 1) for i in range(d) for j in range(d) if A[(l - 1) * d + i, j] != 0})
    nodes = sorted("%d_lag%d" % (i, l) for i in range(d) for l in range(p + 1))
    if hasattr(m, "_matrices_to_structure_model"):
        g = m._matrices_to_structure_model(W.copy(), A.copy())
        got = {(u, v): w for u, v, w in g.edges.data("weight")}
        if got != want or sorted(g.nodes) != nodes:
            return "matrices W=%r A=%r become edges %r" % (W.tolist(), A.tolist(), got)
    try:
        for pandas in (False, True):
            o = OPT[0] = FakeOpt(c["seed"], c["density"])
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                X = ts[p:]
                Xl = np.hstack([ts[p - l:len(ts) - l] for l in range(1, p + 1)])
                names = c["names"] if pandas else [str(i) for i in range(d)]
                if pandas:
                    k = kw(lambda i: names[i])
                    keepk = copy.deepcopy(k)
                    g = m.from_pandas_dynamic(stubs.DataFrame(ts, columns=names), p, max_iter=1, w_threshold=c["thr"], **k)
                else:
                    k = kw(int)
                    keepk = copy.deepcopy(k)
                    g = m.from_numpy_dynamic(X, Xl, max_iter=1, w_threshold=c["thr"], **k)
                if k != keepk:
                    return "the restrictions passed in were changed"
            if sorted(g.nodes) != sorted("%s_lag%d" % (n, l) for n in names for l in range(p + 1)):
                return "nodes are %r" % sorted(g.nodes)
            for u, v in g.edges:
                if not str(v).endswith("_lag0"):
                    return "edge into the past: %r -> %r" % (u, v)
            if not o.calls:
                return "no optimisation was run: every edge is fixed"
            x = o.last
            bl = o.bounds
            for l in range(p + 1):
                pos = [x[2 * l * d * d + i] for i in range(d * d)]
                neg = [x[(2 * l + 1) * d * d + i] for i in range(d * d)]
                for i in range(d):
                    for j in range(d):
                        u, v = "%s_lag%d" % (names[i], l), "%s_lag0" % names[j]
                        has = g.has_edge(u, v)
                        ban = forb(t, i, j, l) or (l == 0 and i == j)
                        if ban and has:
                            return "forbidden edge %r -> %r learned (restrictions %r)" % (u, v, k)
                        if not ban:
                            b = [tuple(bl[2 * l * d * d + i * d + j]), tuple(bl[(2 * l + 1) * d * d + i * d + j])]
                            if b != [(0, None), (0, None)]:
                                return "edge %r -> %r is not free: bounds %r" % (u, v, b)
                            w = pos[i * d + j] - neg[i * d + j]
                            if has != (w != 0 and abs(w) >= c["thr"]) or (has and abs(g[u][v]["weight"] - w) > 1e-12):
                                return "learned weight of %r -> %r is %r, graph has %r" % (u, v, w, g.get_edge_data(u, v))
                            if has and pandas and g[u][v]["origin"] != "learned":
                                return "edge %r -> %r has origin %r" % (u, v, g[u][v]["origin"])
    finally:
        OPT[0] = None
    if d >= 2 and c["seed"] % 4 == 3:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Y = r.randn(40, d)
            for s in range(1, 40):
                Y[s] += 0.8 * np.roll(Y[s - 1], 1)
                for j in range(1, d):
                    Y[s, j] += Y[s, j - 1]
            g = m.from_numpy_dynamic(Y[p:], np.hstack([Y[p - l:40 - l] for l in range(1, p + 1)]), 0.02, 0.02, max_iter=2, **kw(int))
        for u, v in g.edges:
            i, l = map(int, u.split("_lag"))
            j = int(v.split("_lag")[0])
            if forb(t, i, j, l) or (l == 0 and i == j) or not v.endswith("lag0"):
                return "forbidden edge %r -> %r learned from data (restrictions %r)" % (u, v, t)
    return None


# ------------------------------------------------------------------ C20
def cases_C20(tier, seed):
    rng = rng_for("C20", seed)
    yield {"d": 2, "p": 1, "series": [[0, 1, 2, 3]]}
    yield {"d": 1, "p": 3, "series": [[0, 1, 2, 5, 6, 7, 8, 9], [4, 5], [1, 2, 3, 4]]}
    yield {"d": 2, "p": 2, "series": [[0, 1], [3, 4, 5]]}
    yield {"d": 2, "p": 2, "series": [[-5, -4, -3, -2, 0, 1, 2, 3]]}
    for _ in range(count(tier, 500)):
        ser = []
        for _ in range(rng.randint(1, 4)):
            i = rng.randint(-3, 5)
            s = []
            for _ in range(rng.randint(1, 12)):
                s.append(i)
                i += 1 if rng.random() < 0.8 else rng.randint(2, 4)
            ser.append(s)
        yield {"d": rng.randint(1, 3), "p": rng.randint(1, 4), "series": ser}


def check_C20(c):
    m = stubs.load("structure.transformers")
    d, p = c["d"], c["p"]
    names = ["b", "a", "c"][:d]
    dfs, k = [], 1
    for s in c["series"]:
        v = np.array([[k + 100 * r + 10000 * j for j in range(d)] for r in range(len(s))], dtype=float)
        k += 1
        dfs.append(stubs.DataFrame(v, columns=names, index=s))
    keep = [x.values.copy() for x in dfs]
    rows, lags = [], []
    for s, x in zip(c["series"], dfs):
        for r in range(len(s)):
            if r >= p and s[r] - s[r - p] == p:
                rows.append(x.values[r].tolist())
                lags.append(np.concatenate([x.values[r - l] for l in range(1, p + 1)]).tolist())
    T = m.DynamicDataTransformer
    if not rejects(lambda: T(p=p).transform(dfs), stubs.NotFittedError):
        return "transform before fit is not refused"
    X, Xl = T(p=p).fit(dfs, return_df=False).transform(dfs)
    if X.tolist() != rows or (rows and Xl.tolist() != lags) or Xl.shape != (len(rows), p * d):
        return "series with indices %r, p=%d: X=%r lags=%r, expected %r and %r" % (c["series"], p, X.tolist(), Xl.tolist(), rows, lags)
    df = T(p=p).fit(dfs).transform(dfs)
    cols = ["%s_lag0" % n for n in names] + ["%s_lag%d" % (n, l) for l in range(1, p + 1) for n in names]
    if list(df.columns) != cols or (rows and df.values.tolist() != [a + b for a, b in zip(rows, lags)]):
        return "data frame has columns %r, values %r" % (list(df.columns), df.values.tolist())
    # columns in another order on transform are put back in fitted order
    t = T(p=p).fit(dfs, return_df=False)
    rev = [x[list(reversed(names))] for x in dfs]
    X2, Xl2 = t.transform(rev)
    if X2.tolist() != rows or (rows and Xl2.tolist() != lags):
        return "columns passed to transform in another order are not put in fitted order"
    if any(not np.array_equal(a, x.values) for a, x in zip(keep, dfs)):
        return "the input was changed"
    one = T(p=p).fit(dfs[0], return_df=False).transform(dfs[0])[0]
    first = T(p=p).fit([dfs[0]], return_df=False).transform([dfs[0]])[0]
    if one.tolist() != first.tolist():
        return "a single series is treated differently from a list of one"
    if not rejects(lambda: T(p=p).fit([])):
        return "an empty list of series is not refused"
    s = c["series"][0]
    if len(s) > 1:
        bad = stubs.DataFrame(dfs[0].values, columns=names, index=[s[1], s[0]] + s[2:])
        if not rejects(lambda: T(p=p).fit([bad])) or not rejects(lambda: T(p=p).fit([dfs[0], bad])):
            return "a decreasing index is not refused"
    bad = stubs.DataFrame(dfs[0].values, columns=["q"] + names[1:], index=s)
    if not rejects(lambda: T(p=p).fit([dfs[0], bad])):
        return "series with different columns are not refused"
    if not rejects(lambda: T(p=p).fit(dfs).transform([bad])):
        return "a series without a fitted column is not refused"
    bad = stubs.DataFrame(dfs[0].values, columns=names, index=[x + 0.5 for x in s])
    if not rejects(lambda: T(p=p).fit([dfs[0], bad]), TypeError) or not rejects(lambda: T(p=p).fit(dfs).transform([bad]), TypeError):
        return "an index that is not of integers is not refused"
    bad = stubs.DataFrame(dfs[0].values, columns=names, index=s, kinds=["other"] + ["number"] * (d - 1))
    if not rejects(lambda: T(p=p).fit(bad)):
        return "a column that is not numeric is not refused"
    return None


# ------------------------------------------------------------------ C21
def cases_C21(tier, seed):
    rng = rng_for("C21", seed)
    for _ in range(count(tier, 600)):
        n = rng.randint(1, 12)
        pool = rng.choice([[rng.uniform(-5, 5) for _ in range(30)], [0, 1, 2, 3], [7], [-1.5, -1.5, 2.25, 1e6]])
        data = [float(rng.choice(pool)) for _ in range(n)]
        k = rng.choice(["uniform", "quantile", "outlier", "fixed", "percentiles"])
        a = {"method": k}
        if k in ("uniform", "quantile"):
            a["num_buckets"] = rng.randint(1, 6)
        elif k == "outlier":
            a["outlier_percentile"] = rng.choice([0, 0.1, 0.25, 0.49])
        elif k == "fixed":
            a["numeric_split_points"] = sorted(rng.choice([rng.uniform(-4, 4), 0.0, 1.0, float(rng.choice(data))]) for _ in range(rng.randint(0, 4)))
        else:
            a["percentile_split_points"] = sorted(rng.choice([0.0, 0.1, 0.5, 0.75, 1.0, rng.random()]) for _ in range(rng.randint(1, 4)))
        yield {"data": data, "args": a, "new": [float(rng.choice(pool + [-100, 100, 0.5])) for _ in range(8)], "shape2": n % 2 == 0 and rng.random() < 0.3}


def check_C21(c):
    m = stubs.load("discretiser.discretiser")
    D = m.Discretiser
    a = c["args"]
    keepa = copy.deepcopy(a)
    x = np.array(c["data"])
    if c["shape2"]:
        x = x.reshape(-1, 2)
    keep = x.copy()
    t = D(**a)
    if a["method"] == "fixed":
        if not rejects(lambda: t.fit(x), RuntimeError):
            return "fit is not refused for fixed split points"
        pts = list(a["numeric_split_points"])
        got = list(t.numeric_split_points)
        if got != pts:
            return "fixed split points are %r, given %r" % (got, pts)
    else:
        if t.fit(x) is not t:
            return "fit does not return the discretiser"
        pts = [float(v) for v in t.numeric_split_points]
        lo, hi = x.min(), x.max()
        tol = 1e-9 * max(1.0, abs(lo), abs(hi))
        if a["method"] in ("uniform", "quantile"):
            nb = a["num_buckets"]
            want = [lo + (hi - lo) * (i + 1) / nb for i in range(nb - 1)] if a["method"] == "uniform" else [float(np.quantile(x, (i + 1) / nb)) for i in range(nb - 1)]
        elif a["method"] == "outlier":
            want = [float(np.quantile(x, a["outlier_percentile"])), float(np.quantile(x, 1 - a["outlier_percentile"]))]
        else:
            want = [float(np.quantile(x, q)) for q in a["percentile_split_points"]]
        if len(want) != len(pts) or any(abs(u - v) > tol for u, v in zip(want, pts)):
            return "%r fitted on %r gives split points %r, expected %r" % (a, x.tolist(), pts, want)
        if any(u > v + tol for u, v in zip(pts, pts[1:])) or any(v < lo - tol or v > hi + tol for v in pts):
            return "split points %r are not ordered within the data" % pts
    if not np.array_equal(x, keep) or a != keepa:
        return "fit changed its input"
    new = np.array(c["new"] + [v for v in pts])
    out = t.transform(new)
    sp = t.numeric_split_points
    want = [sum(1 for s in sp if s <= v) for v in new]
    if list(out) != want:
        return "values %r with split points %r become %r, expected %r" % (new.tolist(), list(sp), list(out), want)
    if a["method"] != "fixed" and not c["shape2"]:
        u = D(**a)
        if hasattr(u, "fit_transform") and list(u.fit_transform(x)) != [sum(1 for s in sp if s <= v) for v in x]:
            return "fit_transform differs from fit and transform"
    for bad in ({"method": "nope"}, {"method": "uniform"}, {"method": "quantile"}, {"method": "outlier"}, {"method": "fixed"}, {"method": "percentiles"},
                {"method": "outlier", "outlier_percentile": 0.5}, {"method": "outlier", "outlier_percentile": -0.1}, {"method": "fixed", "numeric_split_points": [2, 1]},
                {"method": "percentiles", "percentile_split_points": [0.5, 0.2]}, {"method": "percentiles", "percentile_split_points": [0.5, 1.2]}, {"method": "percentiles", "percentile_split_points": [-0.1, 0.5]}):
        if not rejects(lambda: D(**bad)):
            return "settings %r are not refused" % bad
    return None


# ------------------------------------------------------------------ C22
def cases_C22(tier, seed):
    rng = rng_for("C22", seed)
    for gt in ("erdos-renyi", "barabasi-albert", "full"):
        for n in (2, 3, 5, 9):
            yield {"n": n, "deg": 3, "type": gt, "wmin": 0.5, "wmax": 2.0, "seed": n}
    for _ in range(count(tier, 500)):
        n = rng.randint(2, 9)
        lo = rng.choice([0.1, 0.5, 1.0, -0.5])
        yield {"n": n, "deg": rng.choice([1, 2, 3, 4, 20]), "type": rng.choice(["erdos-renyi", "barabasi-albert", "full"]), "wmin": lo, "wmax": rng.choice([abs(lo), abs(lo) + 1, -abs(lo) - 2]), "seed": rng.randrange(2**31)}


def check_C22(c):
    m = stubs.load("structure.data_generators.core")
    np.random.seed(c["seed"])
    g = m.generate_structure(c["n"], c["deg"], graph_type=c["type"], w_min=c["wmin"], w_max=c["wmax"])
    if sorted(g.nodes) != list(range(c["n"])):
        return "nodes are %r" % sorted(g.nodes)
    if not nx.is_directed_acyclic_graph(g):
        return "the graph has a cycle: %r" % sorted(g.edges)
    lo, hi = abs(c["wmin"]), abs(c["wmax"])
    for u, v, w in g.edges(data="weight"):
        if not lo - 1e-12 <= abs(w) <= hi + 1e-12:
            return "weight %r outside [%r, %r]" % (w, lo, hi)
    if c["type"] == "full" and g.number_of_edges() != c["n"] * (c["n"] - 1) // 2:
        return "full graph on %d nodes has %d edges" % (c["n"], g.number_of_edges())
    if not rejects(lambda: m.generate_structure(1, 1)) or not rejects(lambda: m.generate_structure(3, 1, "nope")) or not rejects(lambda: m.generate_structure(3, 1, w_min=2, w_max=1)):
        return "invalid parameters are not refused"
    return None


# ------------------------------------------------------------------ C23
STATES = {"str": ["lo", "mid", "hi"], "bool": [False, True], "int": [0, 1, 2], "float": [0.5, 1.5, 2.5], "int9": [10, 9, 7]}


class _Loc:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, s):
        return self.t[s]


class FakeCPD:
    """the part of a conditional table (pandas) that the inference engine reads"""

    def __init__(self, states, parents, keys, table):
        class _I(list):
            values = property(lambda s: np.array(list(s), dtype=object))
        self.index = _I(states)
        self.columns = stubs.ColumnKeys(keys, parents or [None])
        self.column_keys = keys
        self.loc = _Loc(table)


class FakeBN:
    def __init__(self, nodes, cpds):
        self.nodes, self.cpds = nodes, cpds


def _net23(rng, n=None):
    n = n or rng.randint(2, 4)
    names = rng.sample(["a", "b", "c", "d", "X_1", "x"], n)
    par = []
    for i in range(n):
        k = min(i, rng.choice([0, 1, 1, 2]))
        if i and not k and rng.random() < 0.7:
            k = 1
        par.append(sorted(rng.sample(range(i), k), key=lambda q: names[q]))
    kinds = [rng.choice(["str", "bool", "int", "float", "int9"]) for _ in range(n)]
    card = [len(STATES[k]) if rng.random() < 0.5 else 2 for k in kinds]
    tabs = []
    for i in range(n):
        cols = 1
        for q in par[i]:
            cols *= card[q]
        t = []
        for _ in range(cols):
            w = [rng.randint(0, 4) for _ in range(card[i])]
            if not sum(w):
                w[0] = 1
            t.append([x / sum(w) for x in w])
        tabs.append(t)
    return {"names": names, "par": par, "kinds": kinds, "card": card, "tabs": tabs}


def cases_C23(tier, seed):
    rng = rng_for("C23", seed)
    for _ in range(count(tier, 300)):
        net = _net23(rng)
        n = len(net["names"])
        ops = []
        for _ in range(rng.randint(1, 5)):
            k = rng.choice(["dist", "dist", "state", "state", "reset", "reset", "badsum", "badrange", "badstates", "badstates2", "badmiss", "badone"])
            i = rng.randrange(n)
            w = [rng.choice([0, 1, 1, 2, 3, 7]) for _ in range(net["card"][i])]
            if not sum(w):
                w[0] = 1
            ops.append([k, i, w, rng.randrange(net["card"][i])])
        yield {"net": net, "ops": ops, "obs": [rng.randrange(n), rng.randrange(3)]}


def check_C23(c):
    net, names = c["net"], c["net"]["names"]
    m = stubs.load("inference.inference")
    n = len(names)
    dom = [STATES[k][:q] for k, q in zip(net["kinds"], net["card"])]
    cpds, ref = {}, {}
    for i in range(n):
        ps = net["par"][i]
        keys = list(itertools.product(*[dom[q] for q in ps])) if ps else [""]
        table = {s: {k: net["tabs"][i][x][y] for x, k in enumerate(keys)} for y, s in enumerate(dom[i])}
        cpds[names[i]] = FakeCPD(dom[i], [names[q] for q in ps], keys, table)
        ref[i] = (list(ps), {(s,) + (() if k == "" else k): table[s][k] for s in dom[i] for k in keys})

    class Engine(m.InferenceEngine):
        def _create_node_function(self, name, args):  # the original builds a code object by hand, for older interpreters only
            env = {"self": self}
            exec("def %s(%s):\n    return self._cpds[%r][%s][(%s)]" % (name, ", ".join(args), args[0], args[0], "".join("(%r, %s), " % (a, a) for a in args[1:])), env)
            return env[name]
    bn = FakeBN(list(names), cpds)
    try:
        ie = Engine(bn)
    except IndexError:
        return "no engine is built"

    def expect(cur, obs):
        tot, marg = 0.0, {i: {s: 0.0 for s in dom[i]} for i in range(n)}
        for a in itertools.product(*dom):
            if any(a[i] != s for i, s in obs.items()):
                continue
            p = 1.0
            for i in range(n):
                p *= cur[i][1][(a[i],) + tuple(a[q] for q in cur[i][0])]
            tot += p
            for i in range(n):
                marg[i][a[i]] += p
        return tot, marg

    def wrong(cur, what):
        i, s = c["obs"]
        i, s = i % n, dom[i % n][s % len(dom[i % n])]
        for obs in ({}, {i: s}):
            tot, marg = expect(cur, obs)
            if tot < 1e-9:
                continue
            got = ie.query({names[k]: v for k, v in obs.items()}) if obs else ie.query()
            for k in range(n):
                for v in dom[k]:
                    g = got.get(names[k], {}).get(v)
                    if g is None or abs(g - marg[k][v] / tot) > 1e-7:
                        return "%s: P(%s=%r%s) is %r, expected %r" % (what, names[k], v, " | %s=%r" % (names[i], s) if obs else "", g, marg[k][v] / tot)
        return None
    cur = dict(ref)
    r = wrong(cur, "fitted network")
    if r:
        return r
    done = []
    for k, i, w, y in c["ops"]:
        done.append([k, names[i], w, y])
        p = [x / sum(w) for x in w]
        if k == "reset":
            ie.reset_do(names[i])
            cur[i] = ref[i]
        else:
            leaf = not any(i in cur[j][0] for j in range(n))
            if k == "dist":
                arg = dict(zip(dom[i], p))
            elif k == "state":
                arg = dom[i][y]
                p = [1.0 if t == y else 0.0 for t in range(len(dom[i]))]
            elif k == "badsum":
                arg = dict(zip(dom[i], [x * (0.9, 0.999, 1.01, 1.3)[(y + sum(w)) % 4] for x in p]))
            elif k == "badrange":
                arg = dict(zip(dom[i], [1.25, -0.25] + [0.0] * (len(dom[i]) - 2)))
            elif k == "badstates":
                arg = dict(zip(dom[i][:-1] + ["no such state"], p))
            elif k == "badmiss":
                arg = dict(zip(dom[i][1:], [1.0] + [0.0] * len(dom[i]))) if y % 2 else dict(zip(dom[i][:-1], [1.0] + [0.0] * len(dom[i])))
            elif k == "badstates2":
                arg = dict(list(zip(dom[i], p)) + [("no such state", 0.0)])
            else:
                arg = "no such state"
            keep = copy.deepcopy(arg)
            try:
                ie.do_intervention(names[i], arg)
                if k.startswith("bad"):
                    return "intervention %r on %s is not refused after %r" % (arg, names[i], done[:-1])
                cur[i] = ([], {(s,): q for s, q in zip(dom[i], p)})
            except ValueError as e:
                if not k.startswith("bad") and not leaf:
                    return "intervention %r on %s is refused (%s) after %r" % (arg, names[i], e, done[:-1])
            if arg != keep:
                return "the intervention changed the distribution given"
        r = wrong(cur, "after %r" % done)
        if r:
            return r
    return None


# ------------------------------------------------------------------ C24
class FakeTab:
    """the part of a pgmpy conditional table that the network reads"""

    def __init__(self, variables, values):
        self.variables, self.variable, self.values = variables, variables[0], values


class FakePgmpy:
    def __init__(self):
        self.g = nx.DiGraph()
        self.cpds = []

    def add_edges_from(self, es):
        self.g.add_edges_from(es)

    def add_nodes_from(self, ns):
        self.g.add_nodes_from(ns)

    @property
    def nodes(self):
        return self.g.nodes

    @property
    def edges(self):
        return self.g.edges

    def get_parents(self, n):
        return list(self.g.predecessors(n))

    def fit(self, data, estimator=None, state_names=None, **kw):
        self.state_names = state_names
        self.cpds = []
        for n in self.g.nodes:
            vs = [n] + sorted(self.g.predecessors(n))
            card = [len(state_names[v]) for v in vs]
            t = np.zeros(card)
            for row in data[vs].values:
                t[tuple(int(x) for x in row)] += 1
            s = t.sum(axis=0)
            t = np.where(s > 0, t / np.where(s > 0, s, 1), 1.0 / card[0])
            self.cpds.append(FakeTab(vs, t))

    def _joint(self, ev, missing):
        """unnormalised probability of every assignment of the variables that are missing"""
        ns = list(self.g.nodes)
        out = {}
        for asg in itertools.product(*[range(len(self.state_names[v])) for v in missing]):
            full = dict(ev, **dict(zip(missing, asg)))
            p = 1.0
            for t in self.cpds:
                p *= float(t.values[tuple(full[v] for v in t.variables)])
            out[asg] = p
        return out

    def _rows(self, data):
        cols = list(data.columns)
        if set(cols) == set(self.g.nodes):
            raise ValueError("No variable missing in data. Nothing to predict")
        if set(cols) - set(self.g.nodes):
            raise ValueError("Data has variables which are not in the model")
        missing = sorted(set(self.g.nodes) - set(cols), reverse=True)
        return missing, [{k: int(v) for k, v in zip(cols, r)} for r in data.values]

    def predict(self, data):
        missing, rows = self._rows(data)
        out = []
        for ev in rows:
            j = self._joint(ev, missing)
            out.append(list(max(j, key=lambda a: j[a])))
        return stubs.DataFrame(np.array(out, dtype=int).reshape(len(rows), len(missing)), columns=missing, index=data.index)

    def predict_probability(self, data):
        missing, rows = self._rows(data)
        cols = [(v, i) for v in missing for i in range(len(self.state_names[v]))]
        out = []
        for ev in rows:
            j = self._joint(ev, missing)
            z = sum(j.values())
            out.append([sum(p for a, p in j.items() if a[missing.index(v)] == i) / z for v, i in cols])
        return stubs.DataFrame(np.array(out, dtype=float).reshape(len(rows), len(cols)), columns=["%s_%d" % c for c in cols], index=data.index)


def network_module():
    m = stubs.load("network.network")
    m.BayesianModel = FakePgmpy
    return m


def _case24(rng):
    n = rng.randint(2, 4)
    names = rng.sample(["a", "b", "c", "ab", "n_1", "n"], n)
    edges = [[rng.randrange(i), i] for i in range(1, n)]
    for _ in range(rng.randint(0, 2)):
        i, j = sorted(rng.sample(range(n), 2))
        if [i, j] not in edges:
            edges.append([i, j])
    kinds = [rng.choice(["str", "bool", "int", "int9", "big"]) for _ in range(n)]
    rows = [[rng.randrange(12) for _ in range(n)] for _ in range(rng.randint(3, 9))]
    return {"names": names, "edges": edges, "kinds": kinds, "rows": rows}


def _states(kind, v):
    if kind == "big":
        return v  # up to twelve integer states
    s = STATES[kind]
    return s[v % len(s)]


def cases_C24(tier, seed):
    rng = rng_for("C24", seed)
    for bad in ([[0, 1], [2, 3]], [[0, 1], [1, 0]], [[0, 0], [0, 1]], [[0, 1], [1, 2], [2, 0]]):
        yield {"bad": bad}
    for _ in range(count(tier, 300)):
        yield _case24(rng)


def frame24(c, drop=None):
    names = c["names"]
    cols = {nm: [_states(k, r[i]) for r in c["rows"]] for i, (nm, k) in enumerate(zip(names, c["kinds"])) if nm != drop}
    vals = np.empty((len(c["rows"]), len(cols)), dtype=object)
    for j, nm in enumerate(cols):
        for i, v in enumerate(cols[nm]):
            vals[i, j] = v
    return stubs.DataFrame(vals, columns=list(cols), kinds=["other"] * len(cols)), cols


def build24(c):
    m = network_module()
    g = SM()()
    g.add_edges_from([(c["names"][u], c["names"][v]) for u, v in c["edges"]])
    return m.BayesianNetwork(g)


def check_C24(c):
    m = network_module()
    if "bad" in c:
        g = SM()()
        g.add_edges_from([tuple(e) for e in c["bad"]])
        if not rejects(lambda: m.BayesianNetwork(g)):
            return "a structure with edges %r is accepted" % c["bad"]
        return None
    bn = build24(c)
    if sorted(bn.nodes) != sorted(c["names"]) or sorted(bn.edges) != sorted((c["names"][u], c["names"][v]) for u, v in c["edges"]):
        return "nodes %r edges %r of the network differ from the structure" % (sorted(bn.nodes), sorted(bn.edges))
    df, cols = frame24(c)
    keep = df.values.copy()
    if bn.fit_node_states(df) is not bn:
        return "fit_node_states does not return the network"
    want = {n: set(v) for n, v in cols.items()}
    if bn.node_states != want:
        return "node states are %r, the data have %r" % (bn.node_states, want)
    bn.fit_cpds(df)
    if not np.array_equal(keep, df.values) or list(df.columns) != list(c["names"]):
        return "fitting changed the data"
    for i, nm in enumerate(c["names"]):
        par = sorted(c["names"][u] for u, v in c["edges"] if v == i)
        cpd = bn.cpds[nm]
        st = sorted(want[nm])
        if list(cpd.index) != st:
            return "rows of the table of %s are %r, expected %r" % (nm, list(cpd.index), st)
        keys = list(itertools.product(*[sorted(want[q]) for q in par])) if par else [""]
        if list(cpd.columns) != keys or (par and list(cpd.columns.names) != par):
            return "columns of the table of %s are %r, expected %r" % (nm, list(cpd.columns), keys)
        for x, k in enumerate(keys):
            rows = [r for r in range(len(c["rows"])) if all(cols[q][r] == v for q, v in zip(par, k if par else ()))]
            for y, s in enumerate(st):
                w = sum(1 for r in rows if cols[nm][r] == s) / len(rows) if rows else 1.0 / len(st)
                if abs(float(cpd.values[y][x]) - w) > 1e-9:
                    return "P(%s=%r | %r=%r) is %r, the data give %r" % (nm, s, par, k, cpd.values[y][x], w)
    before = bn.node_states
    if not rejects(lambda: bn.fit_node_states(frame24(c, drop=c["names"][0])[0]), KeyError):
        return "data without a column are not refused"
    bad = {n: set(v) for n, v in want.items()}
    bad[c["names"][-1]] = {None} | bad[c["names"][-1]]
    try:
        bn.node_states = bad
        return "a missing state is not refused"
    except ValueError:
        pass
    if bn.node_states != before:
        return "a refused assignment of states changed them"
    return more24(c, bn, want, cols)


def tables24(c, bn, want, cols, rows, when):
    """the tables of the network against relative frequencies in the given rows of the data"""
    got = bn.cpds
    if sorted(got) != sorted(c["names"]):
        return "%s: tables of %r" % (when, sorted(got))
    for i, nm in enumerate(c["names"]):
        par = sorted(c["names"][u] for u, v in c["edges"] if v == i)
        st, cpd = sorted(want[nm]), got[nm]
        keys = list(itertools.product(*[sorted(want[q]) for q in par])) if par else [""]
        if list(cpd.index) != st or list(cpd.columns) != keys:
            return "%s: the table of %s is labelled %r x %r, expected %r x %r" % (when, nm, list(cpd.index), list(cpd.columns), st, keys)
        for x, k in enumerate(keys):
            rs = [r for r in rows if all(cols[q][r] == v for q, v in zip(par, k if par else ()))]
            for y, s in enumerate(st):
                w = sum(1 for r in rs if cols[nm][r] == s) / len(rs) if rs else 1.0 / len(st)
                if abs(float(cpd.values[y][x]) - w) > 1e-9:
                    return "%s: P(%s=%r | %r=%r) is %r, the data give %r" % (when, nm, s, par, k, cpd.values[y][x], w)
    return None


def more24(c, bn, want, cols):
    names = c["names"]
    for nm in names:
        for null in (None, float("nan")):
            if not rejects(lambda: setattr(bn, "node_states", dict(want, **{nm: set(want[nm]) | {null}}))):
                return "the missing state %r of %s is not refused" % (null, nm)
            for r in (0, len(c["rows"]) - 1):
                df, _ = frame24(c)
                df.values[r, names.index(nm)] = null
                if not rejects(lambda: bn.fit_node_states(df)):
                    return "data with a missing value in row %d of %s are not refused" % (r, nm)
        if not rejects(lambda: setattr(bn, "node_states", {k: v for k, v in want.items() if k != nm}), KeyError):
            return "states without those of %s are not refused" % nm
    if bn.node_states != want:
        return "refused states changed the ones recorded"
    n = len(c["rows"])
    # columns in another order, and one that is no node
    df, _ = frame24(c)
    df = df[list(reversed(names))]
    df["no node"] = list(range(n))
    b2 = build24(c)
    b2.fit_node_states_and_cpds(df)
    if b2.node_states != dict(want, **{"no node": set(range(n))}):
        return "with the columns reversed the node states are %r, the data have %r" % (b2.node_states, want)
    r = tables24(c, b2, want, cols, range(n), "columns reversed")
    if r or list(df.columns) != list(reversed(names)) + ["no node"]:
        return r or "fitting changed the columns of the data"
    # states that the data do not have, before, between and after those that they have
    more = {nm: set(want[nm]) | ({-3, 100} if k in ("int", "int9", "big") else {"!first", "m", "~last"} if k == "str" else {True, False}) for nm, k in zip(names, c["kinds"])}
    given = {k: set(v) for k, v in more.items()}
    b2.node_states = more
    if more != given or b2.node_states != given:
        return "the states recorded are %r, those given %r" % (b2.node_states, given)
    half = [r for r in range(n) if r % 2 == 0]
    vals = np.empty((len(half), len(names)), dtype=object)
    for j, nm in enumerate(names):
        for i, r in enumerate(half):
            vals[i, j] = cols[nm][r]
    sub = stubs.DataFrame(vals, columns=list(names), kinds=["other"] * len(names))
    sub["no node"] = ["x"] * len(half)
    b2.fit_cpds(sub)
    r = tables24(c, b2, more, cols, half, "states given, half of the data")
    if r:
        return r
    # once more on the first network: the last fit counts
    bn.fit_cpds(frame24(c)[0])
    return tables24(c, bn, want, cols, range(n), "fitted again")


# ------------------------------------------------------------------ C25
def cases_C25(tier, seed):
    rng = rng_for("C25", seed)
    for _ in range(count(tier, 300)):
        c = _case24(rng)
        c["node"] = rng.randrange(len(c["names"]))
        c["test"] = [rng.randrange(len(c["rows"])) for _ in range(rng.randint(1, 6))]
        yield c


def check_C25(c):
    nw = network_module()
    ev = stubs.load("evaluation.evaluation")
    bn = build24(c)
    df, cols = frame24(c)
    bn.fit_node_states_and_cpds(df)
    nm = c["names"][c["node"]]
    sub = dict(c, rows=[c["rows"][i] for i in c["test"]])
    test, tcols = frame24(sub)
    seen = {}

    def roc_curve(t, p):
        seen["t"], seen["p"] = list(np.asarray(t)), [float(x) for x in np.asarray(p)]
        return [0.0, 0.5, 1.0], [0.0, 0.75, 1.0], [2, 1, 0]
    ev.metrics.roc_curve = roc_curve
    ev.metrics.auc = lambda x, y: (list(x), list(y))
    roc, auc = ev.roc_auc(bn, test, nm)
    st = bn.node_states[nm]
    par = sorted(c["names"][u] for u, v in c["edges"] if v == c["node"])
    cpd = bn.cpds[nm]
    pos = {k: x for x, k in enumerate(list(cpd.columns))}
    row = {s: y for y, s in enumerate(list(cpd.index))}
    key = [tuple(tcols[q][r] for q in par) if par else "" for r in range(len(c["test"]))]
    want = sorted((float(tcols[nm][r] == s), float(cpd.values[row[s]][pos[key[r]]])) for s in st for r in range(len(c["test"])))
    got = sorted((float(t), p) for t, p in zip(seen["t"], seen["p"])) if len(seen["t"]) == len(seen["p"]) else None
    if got is None or any(abs(a - x) + abs(b - y) > 1e-9 for (a, b), (x, y) in zip(got, want)) or len(got) != len(want):
        return "for %s with states %r the curve compares (truth, probability) pairs %r, expected %r" % (nm, sorted(st), got, want)
    if [tuple(x) for x in roc] != [(0.0, 0.0), (0.5, 0.75), (1.0, 1.0)] or auc != ([0.0, 0.5, 1.0], [0.0, 0.75, 1.0]):
        return "the curve is not the one computed: %r %r" % (roc, auc)
    got = {}

    def report(y_true, y_pred, **k):
        got.update(k, y_true=y_true, y_pred=y_pred)
        return got
    keep, given, test = ev.metrics.__dict__.get("classification_report"), {}, frame24(sub)[0]
    ev.metrics.classification_report = report
    pred = bn.predict

    def predict(d, n):
        given["r"] = pred(d, n)
        return given["r"]
    bn.predict = predict
    try:
        res = ev.classification_report(bn, test, nm)
    finally:
        ev.metrics.classification_report = keep
    if list(got.get("y_true", [])) != tcols[nm] or got["y_pred"] is not given["r"] or list(got["labels"]) != sorted(st) or res is not got:
        return "the report of %s compares %r with labels %r, expected %r with %r" % (nm, list(got.get("y_true", [])), got.get("labels"), tcols[nm], sorted(st))
    if list(got["target_names"]) != ["%s_%s" % (nm, s) for s in sorted(st)] or not got.get("output_dict"):
        return "the report of %s names its labels %r" % (nm, got["target_names"])
    return None


# ------------------------------------------------------------------ C28
def cases_C28(tier, seed):
    rng = rng_for("C28", seed)
    for i in range(count(tier, 400)):
        c = _case24(rng)
        n = len(c["names"])
        if rng.random() < 0.3:
            c["names"][rng.randrange(n)] = "x.(+"
        c["node"] = rng.choice([rng.randrange(n), c["edges"][0][1]])
        c["test"] = [rng.randrange(len(c["rows"])) for _ in range(rng.randint(1, 6))]
        c["index"] = rng.sample(range(20), len(c["test"]))
        par = [u for u, v in c["edges"] if v == c["node"]]
        k = rng.randrange(4)
        if k == 0 or not par:  # all parents are there
            c["drop"] = [v for v in range(n) if v not in par and rng.random() < 0.4]
        else:
            c["drop"] = rng.sample(par, rng.randint(1, len(par))) + ([c["node"]] if rng.random() < 0.5 else [])
        if len(c["drop"]) == n:
            c["drop"] = c["drop"][:-1]
        c["order"] = rng.sample(range(n), n)
        if i % 3 == 0:
            c["tables"] = rng.randrange(10 ** 6)
        yield c


def check_C28(c):
    network_module()
    bn = build24(c)
    df, cols = frame24(c)
    bn.fit_node_states_and_cpds(df)
    nm = c["names"][c["node"]]
    if "tables" in c:  # any tables, not only those of the counts
        r = np.random.RandomState(c["tables"])
        for t in bn._model.cpds:
            v = r.rand(*np.shape(t.values)) + 0.01
            t.values = v / v.sum(axis=0)
    st = {n: sorted(set(v)) for n, v in cols.items()}
    keep = [i for i in c["order"] if i not in c["drop"]]
    rows = [c["rows"][i] for i in c["test"]]
    vals = np.empty((len(rows), len(keep)), dtype=object)
    for y, r in enumerate(rows):
        for x, i in enumerate(keep):
            vals[y, x] = _states(c["kinds"][i], r[i])
    data = stubs.DataFrame(vals, columns=[c["names"][i] for i in keep], index=c["index"], kinds=["other"] * len(keep))
    snap = (data.values.copy(), list(data.columns), list(data.index))
    par = sorted(c["names"][u] for u, v in c["edges"] if v == c["node"])
    complete = all(q in list(data.columns) for q in par)
    tab = {t.variable: t for t in bn._model.cpds}
    want = []  # probability of each state, row by row
    best = []  # the states predicted may be any of these
    for y in range(len(rows)):
        row = {c["names"][i]: st[c["names"][i]].index(vals[y, x]) for x, i in enumerate(keep)}
        if complete:
            d = [float(tab[nm].values[(s,) + tuple(row[q] for q in par)]) for s in range(len(st[nm]))]
            best.append([s for s, p in zip(st[nm], d) if p > max(d) - 1e-12])
        else:
            ev = {k: v for k, v in row.items() if k != nm}
            missing = [v for v in c["names"] if v not in ev]
            j = bn._model._joint(ev, missing)
            z, top = sum(j.values()), max(j.values())
            if z <= 0:
                return None  # evidence of probability zero
            d = [sum(p for a, p in j.items() if a[missing.index(nm)] == s) / z for s in range(len(st[nm]))]
            best.append([st[nm][a[missing.index(nm)]] for a, p in j.items() if p > top - 1e-12])
        want.append(d)
    got = bn.predict(data, nm)
    what = "%s with states %r from columns %r" % (nm, st[nm], list(data.columns))
    if list(got.columns) != [nm + "_prediction"] or list(got.index) != c["index"] or len(got) != len(rows):
        return "predicting %s gives columns %r and rows %r" % (what, list(got.columns), list(got.index))
    p = list(got[nm + "_prediction"].values)
    if any(not any(type(b) is type(v) and b == v or b == v for b in bs) for v, bs in zip(p, best)):
        return "predicting %s gives %r, the most probable states are %r" % (what, p, best)
    pr = bn.predict_probability(data, nm)
    names = ["%s_%s" % (nm, s) for s in st[nm]]
    if sorted(map(str, pr.columns)) != sorted(names) or list(pr.index) != c["index"] or len(pr) != len(rows):
        return "probabilities of %s have columns %r and rows %r" % (what, list(pr.columns), list(pr.index))
    for k, s in enumerate(st[nm]):
        g = [float(v) for v in pr[names[k]].values]
        if any(abs(a - w[k]) > 1e-9 for a, w in zip(g, want)):
            return "probability of %r for %s is %r, the tables give %r" % (s, what, g, [w[k] for w in want])
    if not np.array_equal(snap[0], data.values) or snap[1:] != (list(data.columns), list(data.index)):
        return "predicting changed the data"
    return None


# ------------------------------------------------------------------ C26
def cases_C26(tier, seed):
    rng = rng_for("C26", seed)
    keys = ["color", "fontsize", "shape", "label", "penwidth", "arrowhead", "mine", "width"]

    def attrs():
        return {k: rng.choice(["red", "1", "x"]) for k in rng.sample(keys, rng.randint(1, 3))}
    for _ in range(count(tier, 500)):
        n = rng.randint(0, 4)
        edges = [[i, j] for i in range(n) for j in range(n) if rng.random() < 0.4]
        calls = []
        for _ in range(rng.randint(1, 3)):
            calls.append({"an": rng.choice([None, {}, attrs()]), "ae": rng.choice([None, {}, attrs()]),
                          "n": rng.choice([None, {}, [[i, attrs()] for i in range(n) if rng.random() < 0.5]]),
                          "e": rng.choice([None, {}, [[e, attrs()] for e in edges if rng.random() < 0.5]])})
        yield {"n": n, "str": rng.random() < 0.5, "edges": edges, "calls": calls, "pre": rng.random() < 0.5}


def check_C26(c):
    m = stubs.load("plots.plots")
    nm = (lambda i: "v%d" % i) if c["str"] else (lambda i: i)
    g = SM()()
    g.add_nodes_from([nm(i) for i in range(c["n"])])
    g.add_edges_from([(nm(u), nm(v)) for u, v in c["edges"]], origin="learned", weight=2.0)
    if c["pre"]:
        for v in g.nodes:
            g.nodes[v]["color"] = "own"
            g.nodes[v]["note"] = "kept"
        for e in g.edges:
            g.edges[e]["arrowhead"] = "own"
    styles = copy.deepcopy((m.NODE_STYLE, m.EDGE_STYLE, m.GRAPH_STYLE))
    before = snapshot(g)
    for k in c["calls"]:
        na = {nm(i): a for i, a in k["n"]} if k["n"] else k["n"]
        ea = {(nm(e[0]), nm(e[1])): a for e, a in k["e"]} if k["e"] else k["e"]
        args = [k["an"], k["ae"], na, ea]
        keep = copy.deepcopy(args)
        captured = {}

        class AG:
            def __init__(self):
                self.graph_attr = {}

            def layout(self, prog=None):
                pass
        old = nx.nx_agraph.to_agraph

        def to_agraph(x):
            captured["g"] = x
            return AG()
        nx.nx_agraph.to_agraph = to_agraph
        try:
            ag = m.plot_structure(g, all_node_attributes=args[0], all_edge_attributes=args[1], node_attributes=args[2], edge_attributes=args[3], graph_attributes={"bgcolor": "w", "z": 1})
        finally:
            nx.nx_agraph.to_agraph = old
        out = captured.get("g")
        if out is None:
            return "nothing is plotted"
        if args != keep:
            return "plotting changed the attributes given: %r" % k
        if snapshot(g) != before:
            return "plotting changed the structure"
        if (m.NODE_STYLE, m.EDGE_STYLE, m.GRAPH_STYLE) != styles:
            return "plotting changed the default styles"
        if out is g or set(out.nodes) != set(before[0]) or set(out.edges) != set(before[1]):
            return "the plotted graph has nodes %r edges %r" % (list(out.nodes), list(out.edges))
        for v in out.nodes:
            want = dict(before[0][v])
            want["label"] = out.nodes[v].get("label")
            if str(v) not in str(want["label"]) and not any("label" in (x or {}) for x in (args[0], (na or {}).get(v))):
                return "label of node %r is %r" % (v, want["label"])
            want.update(styles[0].NORMAL)
            want.update(args[0] or {})
            want.update((na or {}).get(v, {}))
            if dict(out.nodes[v]) != want:
                return "attributes of node %r are %r, expected %r (call %r)" % (v, dict(out.nodes[v]), want, k)
        for e in out.edges:
            want = dict(before[1][e])
            want.update(styles[1].NORMAL)
            want.update(args[1] or {})
            want.update((ea or {}).get(e, {}))
            if dict(out.edges[e]) != want:
                return "attributes of edge %r are %r, expected %r (call %r)" % (e, dict(out.edges[e]), want, k)
        wantg = dict(styles[2])
        wantg.update({"bgcolor": "w", "z": 1})
        if dict(ag.graph_attr) != wantg:
            return "graph attributes are %r, expected %r" % (dict(ag.graph_attr), wantg)
    return None


# ------------------------------------------------------------------ C27
def cases_C27(tier, seed):
    rng = rng_for("C27", seed)
    for _ in range(count(tier, 500)):
        d = rng.randint(2, 4)
        cats = [rng.choice(["cont", "cont", "cat", "bin", "ord"]) for _ in range(d)]
        pairs = [[i, j] for i in range(d) for j in range(d) if i != j]
        yield {"d": d, "kinds": cats, "schema": rng.random() < 0.7 or "cat" in cats, "hidden": rng.choice([None, [], [0], [1], [3], [2, 2]]),
               "card": rng.randint(2, 4), "te": rng.choice([None, [], rng.sample(pairs, rng.randint(1, len(pairs)))]),
               "tp": rng.choice([None, [], rng.sample(range(d), 1)]), "tc": rng.choice([None, [], rng.sample(range(d), 1)]),
               "thr": rng.choice([None, 0.0, 0.5]), "pandas": rng.random() < 0.5, "seed": rng.randrange(10**6), "zero": rng.random() < 0.2}


def check_C27(c):
    m = stubs.load("structure.pytorch.notears")
    rng = _random.Random(c["seed"])
    d = c["d"]
    alias = {"cont": "cont", "bin": "bin", "ord": "ord", "cat": "cat"}
    n = 8
    X = np.zeros((n, d))
    for j, k in enumerate(c["kinds"]):
        for i in range(n):
            X[i, j] = i % c["card"] if k == "cat" else i % 2 if k == "bin" else i % 3 if k == "ord" else rng.uniform(-1, 1)
    hid = 1 if not c["hidden"] or not c["hidden"][0] else c["hidden"][0]
    seen = {}

    class Adversary:
        """stands for the neural model: any weights within the bounds it was given; the layout of the
        bounds (output node, hidden unit, input node) is that of the first layer's weight matrix"""

        def __init__(self, n_features, dist_types, hidden_layer_units=None, bounds=None, **kw):
            seen["n"] = n_features
            self.d, self.b = n_features, bounds

        def fit(self, x, max_iter=100, **kw):
            if len(self.b) != self.d * self.d * hid:
                raise RuntimeError("bounds have the wrong length %d for %d columns and %d units" % (len(self.b), self.d, hid))
            if x.shape[1] != self.d:
                raise RuntimeError("data have %d columns, the model %d" % (x.shape[1], self.d))
            w = []
            for lo, hi in self.b:
                v = 0.0 if c["zero"] and rng.random() < 0.3 else rng.choice([0.01, 0.7, 3.0]) * rng.choice([1, -1])
                v = v if lo is None else max(lo, v)
                w.append(v if hi is None else min(hi, v))
            W = np.array(w).reshape(self.d, hid, self.d)  # output, unit, input
            self.adj = np.sqrt((W ** 2).sum(axis=1)).T
            self.adj_mean_effect = W.sum(axis=1).T
            self.bias = None
    m.NotearsMLP = Adversary
    kw = {"hidden_layer_units": c["hidden"], "w_threshold": c["thr"]}
    names = ["A", "B", "C", "D"][:d]
    lab = (lambda i: names[i]) if c["pandas"] else (lambda i: i)
    tabu = {"tabu_edges": [(lab(i), lab(j)) for i, j in c["te"]] if c["te"] is not None else None,
            "tabu_parent_nodes": [lab(i) for i in c["tp"]] if c["tp"] is not None else None, "tabu_child_nodes": [lab(i) for i in c["tc"]] if c["tc"] is not None else None}
    keep = copy.deepcopy(tabu)
    schema = {lab(i): alias[k] for i, k in enumerate(c["kinds"])} if c["schema"] else None
    keepX = X.copy()
    data = stubs.DataFrame(X.copy(), columns=names) if c["pandas"] else X
    g = (m.from_pandas if c["pandas"] else m.from_numpy)(data, dist_type_schema=schema, **tabu, **kw)
    if tabu != keep:
        return "learning changed the restrictions given"
    if not np.array_equal(keepX, data.values if c["pandas"] else X):
        return "learning changed the data"
    # which original column each node stands for, by the type attached to it
    col = {}
    for v in g.nodes:
        col[v] = g.nodes[v]["dist_type"].idx
    wantn = sum(c["card"] if k == "cat" and schema else 1 for k in c["kinds"])
    if len(col) != wantn or set(col.values()) != set(range(d)):
        return "nodes %r do not stand for the %d columns" % (sorted(map(str, col)), wantn)
    te = {tuple(e) for e in c["te"] or []}
    tp, tc = set(c["tp"] or []), set(c["tc"] or [])

    def forbidden(i, j):
        return (i, j) in te or i in tp or j in tc
    for u, v in g.edges:
        i, j = col[u], col[v]
        if u == v:
            return "self-loop at %r" % u
        if i == j:
            return "edge %r -> %r between columns of one categorical variable" % (u, v)
        if forbidden(i, j):
            return "forbidden edge %r -> %r (columns %d -> %d)" % (u, v, i, j)
        if g.edges[u, v]["origin"] != "learned":
            return "edge %r -> %r has origin %r" % (u, v, g.edges[u, v]["origin"])
    gc = g.graph["graph_collapsed"]
    cn = {lab(i): i for i in range(d)}
    for u, v in gc.edges:
        if u not in cn or v not in cn or forbidden(cn[u], cn[v]):
            return "forbidden edge %r -> %r in the collapsed graph" % (u, v)
    if not c["zero"] and not c["thr"]:
        for u in g.nodes:
            for v in g.nodes:
                if col[u] != col[v] and not forbidden(col[u], col[v]) and not g.has_edge(u, v):
                    return "permitted edge %r -> %r is excluded" % (u, v)
    return None
