"""The planted bugs: written from the property texts and the code."""
B = "causalnex/ebaybbn/bbn.py"
U = "causalnex/ebaybbn/utils.py"
S = "causalnex/structure/"
NET = '''
from causalnex.ebaybbn import build_bbn
from causalnex.ebaybbn.bbn import *
import itertools


def joint(bbn, ev):
    """posterior marginals by enumeration"""
    vs = [n.variable_name for n in bbn.nodes]
    doms = [bbn.domains.get(v, [True, False]) for v in vs]
    tot, m = 0.0, {}
    for a in itertools.product(*doms):
        d = dict(zip(vs, a))
        if any(d[k] != v for k, v in ev.items()):
            continue
        p = 1.0
        for n in bbn.nodes:
            p *= n.func(*[d[x] for x in n.argspec])
        tot += p
        for v in vs:
            m[(v, d[v])] = m.get((v, d[v]), 0.0) + p
    return {k: x / tot for k, x in m.items()}


def same(bbn, ev):
    got, want = bbn.query(**ev), joint(bbn, ev)
    for k, v in want.items():
        assert abs(got.get(k, 0.0) - v) < 1e-6, (k, got.get(k), v)
    for k, v in got.items():
        assert k in want or abs(v) < 1e-9, k
'''
SEEDS = {}


def seed(sid, prop, needs, what, edits, demo, py="python3"):
    SEEDS[sid] = {"property": prop, "needs": needs, "what": what, "edits": edits, "demo": demo, "py": py}


seed("c01-evidence-identity", "C01", "evidence whose value is equal to but not the same object as the domain's value", "posterior is not computed: all states of the observed variable are ruled out",
     [(B, "                                if value != evidence[variable]:", "                                if value is not evidence[variable]:")],
     NET + '''
def f_a(a): return {"left side": 0.25, "right side": 0.75}[a]
def f_b(a, b): return (0.9 if b else 0.1) if a == "left side" else (0.2 if b else 0.8)
bbn = build_bbn(f_a, f_b, domains={"a": ["left side", "right side"]})
same(bbn, {"a": " ".join(["left", "side"])})
''')
seed("c11-sepset-choice", "C11", "a clique with two separators, the first of which also fits inside the target clique", "the message is sent through another clique's separator",
     [(B, "        sepset_node = list(set(self.neighbours).intersection(target.neighbours))[0]",
       "        sepset_node = [\n            s\n            for s in self.neighbours\n            if target.clique.nodes.issuperset(s.sepset.label)\n        ][0]")],
     NET + '''
import random
for s in range(40):
    r = random.Random(s)
    names = ["v%d" % i for i in range(6)]
    fs = []
    for i, v in enumerate(names):
        ps = r.sample(names[:i], min(i, r.choice([1, 2, 2])))
        t = {k: r.uniform(0.05, 0.95) for k in itertools.product([True, False], repeat=len(ps))}
        env = {"t": t}
        exec("def f_%s(%s): return t[(%s)] if %s else 1 - t[(%s)]" % (v, ", ".join(ps + [v]), "".join(p + "," for p in ps), v, "".join(p + "," for p in ps)), env)
        fs.append(env["f_" + v])
    b = build_bbn(*fs)
    same(b, {})
    same(b, {"v5": True})
''')
seed("c02-tiny-evidence", "C02", "evidence whose probability is below 1e-9", "the posteriors of unlikely evidence do not sum to one",
     [(B, "                if normalizers[k[0]] != 0:", "                if normalizers[k[0]] > 1e-9:")],
     NET + '''
def f_a(a): return 1e-11 if a else 1 - 1e-11
def f_b(a, b): return (0.9 if b else 0.1) if a else (0.2 if b else 0.8)
q = build_bbn(f_a, f_b).query(a=True)
assert abs(q[("b", True)] + q[("b", False)] - 1) < 1e-6, q
''')
seed("c03-falsy", "C03", "invalid evidence that is false in a boolean context, such as None or an empty string", "evidence outside the domain is accepted",
     [(B, '            if v not in domain:', '            if v and v not in domain:')],
     NET + '''
def f_a(a): return 0.3 if a == "x" else 0.7
def f_b(a, b): return 0.5
b = build_bbn(f_a, f_b, domains={"a": ["x", "y"]})
try:
    b.query(a="")
except Exception as e:
    assert type(e).__name__ == "VariableValueNotInDomainError", e
else:
    raise SystemExit("invalid evidence accepted")
''')
seed("c04-domains-filled", "C04", "a variable without an explicit domain, and a domains mapping that is looked at after a query", "a query writes the default domain into the caller's mapping",
     [(B, """            variables.sort()
            for variable in variables:
                domain = bbn.domains.get(variable, [True, False])
                vals.append(list(product([variable], domain)))
            permutations = product(*vals)
            for permutation in permutations:
                tt[permutation] = 1""", """            variables.sort()
            for variable in variables:
                domain = bbn.domains.setdefault(variable, [True, False])
                vals.append(list(product([variable], domain)))
            permutations = product(*vals)
            for permutation in permutations:
                tt[permutation] = 1""")],
     NET + '''
def f_a(a): return 0.3 if a else 0.7
def f_b(a, b): return 0.5
doms = {"b": ["x", "y"]}
b = build_bbn(f_a, f_b, domains=doms)
b.query()
assert doms == {"b": ["x", "y"]}, doms
''')
seed("c05-args-by-name", "C05", "two networks built in one process whose factors have the same names and different arguments", "the second network is linked by the first one's argument lists",
     [(U, '''    if hasattr(func, "argspec"):
        return func.argspec
    # return inspect.getargspec(func).args
    return [p for p in inspect.signature(func).parameters]
''', '''    if hasattr(func, "argspec"):
        return func.argspec
    # inspecting a signature is slow: remember it
    key = (func.__module__, func.__name__)
    if key not in _SIGNATURES:
        _SIGNATURES[key] = [p for p in inspect.signature(func).parameters]
    return _SIGNATURES[key]
'''), (U, "def get_args(func):", "_SIGNATURES = dict()\n\n\ndef get_args(func):")],
     NET + '''
def net(chain):
    def f_a(a): return 0.5
    if chain:
        def f_b(a, b): return 0.5
        def f_c(b, c): return 0.5
    else:
        def f_b(a, b): return 0.5
        def f_c(a, c): return 0.5
    return build_bbn(f_a, f_b, f_c)
net(True)
b = net(False)
par = {n.variable_name: sorted(p.variable_name for p in n.parents) for n in b.nodes}
assert par == {"a": [], "b": ["a"], "c": ["a"]}, par
''')
seed("c06-impossible", "C06", "a state that has probability zero in every row of the table", "the state is missing from the variable's domain",
     [(B, "            domain.add(value)\n", "            if prob:\n                domain.add(value)\n")],
     NET + '''
c = {"a": [[[], {"x": 0.2, "y": 0.8, "z": 0.0}]], "b": [[[["a", p]], {"x": w, "y": 1 - w}] for p, w in (("x", 0.1), ("y", 0.2), ("z", 0.5))]}
q = build_bbn_from_conditionals(c).query()
assert q[("a", "z")] == 0.0, q
''')
seed("c07-three-parents", "C07", "a variable with three parents", "only neighbouring parents are married",
     [(B, "        for parent_1, parent_2 in combinations(node.parents, 2):", "        for parent_1, parent_2 in zip(node.parents, node.parents[1:]):")],
     NET + '''
def f_a(a): return 0.5
def f_b(b): return 0.5
def f_c(c): return 0.5
def f_d(a, b, c, d): return 0.5
bbn = build_bbn(f_a, f_b, f_c, f_d)
gm = make_moralized_copy(make_undirected_copy(bbn), bbn)
adj = {n.variable_name: sorted(x.variable_name for x in n.neighbours) for n in gm.nodes}
assert adj == {v: sorted(set("abcd") - {v}) for v in "abcd"}, adj
''')
seed("c08-last-clique", "C08", "a cluster contained in a clique recorded earlier than the last one", "a non-maximal clique is recorded",
     [(B, "    if any([cluster.issubset(c.nodes) for c in cliques]):", "    if cliques and cluster.issubset(cliques[-1].nodes):")],
     NET + '''
import random
for s in range(60):
    r = random.Random(s)
    n = 6
    nodes = [UndirectedNode(name="n%d" % i) for i in range(n)]
    for i, x in enumerate(nodes):
        x.variable_name = "n%d" % i
    for i in range(n):
        for j in range(i):
            if r.random() < 0.4:
                nodes[i].neighbours.append(nodes[j])
                nodes[j].neighbours.append(nodes[i])
    cs, _ = triangulate(UndirectedGraph(nodes), priority_func)
    for a in cs:
        for b in cs:
            assert a is b or not a.nodes <= b.nodes, (s, cs)
''')
seed("c09-cost-first", "C09", "cliques whose cheapest separator is not the largest one", "the join tree violates the running intersection property",
     [(B, "        deco.sort(key=lambda x: x[1:])", "        deco.sort(key=lambda x: (x[2], x[1], x[3]))")],
     NET + '''
import random
def rip(jt):
    cl = jt.clique_nodes
    adj = {c: set(c.neighbouring_cliques) for c in cl}
    for v in {n for c in cl for n in c.clique.nodes}:
        have = [c for c in cl if v in c.clique.nodes]
        seen, todo = {have[0]}, [have[0]]
        while todo:
            for y in adj[todo.pop()]:
                if y in have and y not in seen:
                    seen.add(y)
                    todo.append(y)
        assert len(seen) == len(have)
for s in range(300):
    r = random.Random(s)
    fs = []
    for i in range(7):
        ps = ["v%d" % j for j in r.sample(range(i), min(i, r.choice([0, 1, 2, 3])))]
        env = {}
        exec("def f_v%d(%s): return 0.5" % (i, ", ".join(ps + ["v%d" % i])), env)
        fs.append(env["f_v%d" % i])
    rip(build_join_tree(build_bbn(*fs)))
''')
seed("c10-second-arg", "C10", "evidence on a variable that shares its clique with a variable of the same value", "evidence zeroes entries by value only for the first variable of a key",
     [(B, "                        for variable, value in k:\n                            if variable == node.variable_name:", "                        for variable, value in k[:2]:\n                            if variable == node.variable_name:")],
     NET + '''
def f_a(a): return 0.3 if a else 0.7
def f_b(b): return 0.6 if b else 0.4
def f_c(a, b, c): return (0.9 if c else 0.1) if a == b else (0.25 if c else 0.75)
same(build_bbn(f_a, f_b, f_c), {"c": True})
''')
seed("c12-cache-text", "C12", "two states that are written the same, such as 1 and '1', or None and 'None'", "samples are drawn from the posterior of another partial assignment",
     [(B, "                key = tuple(sorted(sample.items()))", "                key = tuple(sorted((k, str(v)) for k, v in sample.items()))")],
     NET + '''
import random
random.seed(3)
D = [1, "1"]
def f_a(a): return 0.5
def f_b(a, b): return 1.0 if (type(a) is type(b)) else 0.0
b = build_bbn(f_a, f_b, domains={"a": D, "b": D})
for s in b.draw_samples({}, 60):
    assert type(s["a"]) is type(s["b"]), s
''')
seed("c14-keep-origin", "C14", "re-adding an edge that exists already with another origin", "the edge keeps its first origin",
     [(S + "structuremodel.py", '''        attr.update({"origin": origin})
        super().add_edge(u_of_edge, v_of_edge, **attr)''', '''        if not self.has_edge(u_of_edge, v_of_edge) or origin != "unknown":
            attr.update({"origin": origin})
        super().add_edge(u_of_edge, v_of_edge, **attr)''')],
     '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
S = demo_stubs.load("structure.structuremodel").StructureModel
g = S()
g.add_edge("a", "b", origin="learned")
g.add_edge("a", "b")
assert g["a"]["b"]["origin"] == "unknown"
''', "python3-vt")
seed("c17-prefix-variable", "C17", "two categorical variables one of whose names is a prefix of the other's", "a variable claims the features of another one",
     [(S + "categorical_variable_mapper.py", '''                    self._fte_index_dict[fte]
                    for fte, var in self._cat_fte_var_dict.items()
                    if var == k''', '''                    self._fte_index_dict[fte]
                    for fte in self._cat_fte_var_dict
                    if fte.startswith("{}_".format(k))''')],
     '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
M = demo_stubs.load("structure.categorical_variable_mapper").VariableFeatureMapper
m = M({"a": "categorical:2", "a_1": "categorical:3", "x": "continuous"})
ix = [i for v in m.variable_list for i in m.get_indices(v)]
assert sorted(ix) == list(range(m.n_features)), ix
''', "python3-vt")
seed("c18-lasso-children", "C18", "a tabu child in lasso learning with a negative effect", "the negative half of the weights ignores the restriction",
     [(S + "notears.py", '''        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (0, None)
        for i in range(d)
        for j in range(d)
    ] * 2
''', '''        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (0, None)
        for i in range(d)
        for j in range(d)
    ]
    bnds += [b if i == j else (0, None) for i in range(d) for j, b in enumerate(bnds[i * d : i * d + d])]
''')],
     '''
import os, sys, warnings
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
m = demo_stubs.load("structure.notears")
warnings.simplefilter("ignore")
r = np.random.RandomState(0)
X = r.randn(200, 3)
X[:, 1] -= 2 * X[:, 0]
X[:, 2] += X[:, 1]
g = m.from_numpy_lasso(X, 0.01, max_iter=3, tabu_child_nodes=[1])
assert not [e for e in g.edges if e[1] == 1], g.edges
''', "python3-vt")
seed("c23-shared-reset", "C23", "a reset while another variable is still intervened on", "resetting one variable undoes the interventions on all",
     [("causalnex/inference/inference.py", "        self._cpds[observation] = self._cpds_original[observation]\n", "        self._cpds = copy.deepcopy(self._cpds_original)\n")],
     '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
m = demo_stubs.load("inference.inference")


class E(m.InferenceEngine):
    def __init__(self):
        self._cpds = {"a": {0: {(): 0.5}, 1: {(): 0.5}}, "b": {0: {(("a", 0),): 0.2, (("a", 1),): 0.4}, 1: {(("a", 0),): 0.8, (("a", 1),): 0.6}},
                      "c": {0: {(("b", 0),): 0.2, (("b", 1),): 0.4}, 1: {(("b", 0),): 0.8, (("b", 1),): 0.6}}}
        self._cpds_original = m.copy.deepcopy(self._cpds)

    def _generate_bbn(self):
        pass


e = E()
e._do("a", {0: 1.0, 1: 0.0})
e._do("b", {0: 0.0, 1: 1.0})
e.reset_do("b")
assert e._cpds["a"] == {0: {(): 1.0}, 1: {(): 0.0}}, e._cpds["a"]
assert e._cpds["b"] == e._cpds_original["b"]
''', "python3-vt")
seed("c26-style-leak", "C26", "a plot with all_node_attributes followed by another plot", "attributes of one plot leak into the defaults of the next",
     [("causalnex/plots/plots.py", "    _all_node_attr = {**NODE_STYLE.NORMAL}\n", "    _all_node_attr = NODE_STYLE.NORMAL\n")],
     '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
m = demo_stubs.load("plots.plots")
S = demo_stubs.load("structure.structuremodel").StructureModel
g = S([("a", "b")])
m._add_attributes(g, all_node_attributes={"color": "red"})
assert m._add_attributes(g).nodes["a"]["color"] != "red"
''', "python3-vt")
seed("c27-tabu-once", "C27", "a tabu edge listed between two categorical variables", "only the first class columns of the second variable are covered",
     [(S + "pytorch/dist_type/_base.py", '''            elif j == idx_group[0]:
                new_tabu_edges += [(i, idx) for idx in idx_group[1:]]
''', '''            elif j == idx_group[0] and i < j:
                new_tabu_edges += [(i, idx) for idx in idx_group[1:]]
''')],
     '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
m = demo_stubs.load("structure.pytorch.dist_type._base")
t = m.ExpandColumnsMixin.update_tabu_edges([0, 5, 6], [(3, 0)], False)
assert sorted(t) == [(3, 0), (3, 5), (3, 6)], t
''', "python3-vt")
seed("c19-lag-layout", "C19", "two or more lags", "the lagged weights are read from the wrong part of the vector: restrictions of one lag land on another",
     [(S + "dynotears.py", '''        w_tilde[2 * d_vars :]
        .reshape(2 * p_orders, d_vars ** 2)[1::2]
        .reshape(d_vars * p_orders, d_vars)
''', '''        w_tilde[2 * d_vars :]
        .reshape(2, p_orders * d_vars ** 2)[1]
        .reshape(d_vars * p_orders, d_vars)
'''), (S + "dynotears.py", '''        w_tilde[2 * d_vars :]
        .reshape(2 * p_orders, d_vars ** 2)[::2]
        .reshape(d_vars * p_orders, d_vars)
''', '''        w_tilde[2 * d_vars :]
        .reshape(2, p_orders * d_vars ** 2)[0]
        .reshape(d_vars * p_orders, d_vars)
''')], '''
import os, sys, warnings
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
m = demo_stubs.load("structure.dynotears")
warnings.simplefilter("ignore")
r = np.random.RandomState(0)
Y = r.randn(200, 2)
for t in range(2, 200):
    Y[t, 1] += 0.9 * Y[t - 1, 0] + 0.9 * Y[t - 2, 0]
X, L = Y[2:], np.hstack([Y[1:-1], Y[:-2]])
g = m.from_numpy_dynamic(X, L, 0.01, 0.01, max_iter=3, tabu_edges=[(1, 0, 1)])
assert not g.has_edge("0_lag1", "1_lag0"), g.edges
assert g.has_edge("0_lag2", "1_lag0"), g.edges
''', "python3-vt")
STUB = '''
import os, sys, warnings
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import demo_stubs
warnings.simplefilter("ignore")
'''
seed("c20-gap-of-two", "C20", "a series with a single missing time stamp", "a row mixes values from both sides of a gap",
     [(S + "transformers.py", "np.where(np.diff(t.index) > 1)[0]", "np.where(np.diff(t.index) > self_p)[0]".replace("self_p", "2"))],
     STUB + '''
m = demo_stubs.load("structure.transformers")
pd = sys.modules["pandas"]
t = pd.DataFrame(np.array([[1.0], [2.0], [4.0], [5.0]]), columns=["a"], index=[1, 2, 4, 5])
X, L = m.DynamicDataTransformer(p=1).fit(t, return_df=False).transform(t)
assert X.tolist() == [[2.0], [5.0]] and L.tolist() == [[1.0], [4.0]], (X, L)
''', "python3-vt")
seed("c22-tiny-range", "C22", "a smallest weight that is negative, so that its absolute value matters", "the weights' absolute values leave the requested range",
     [(S + "data_generators/core.py", "    w_min, w_max = abs(w_min), abs(w_max)\n", "    w_min, w_max = max(w_min, 0), abs(w_max)\n")],
     STUB + '''
m = demo_stubs.load("structure.data_generators.core")
np.random.seed(0)
g = m.generate_structure(6, 3, "full", -1.0, 2.0)
assert all(1.0 <= abs(w) <= 2.0 for _, _, w in g.edges(data="weight")), list(g.edges(data="weight"))
''', "python3-vt")
seed("c15-signed-order", "C15", "a cyclic graph with a negative weight that is large in absolute value", "thresholding until acyclic removes a strong edge and keeps a weaker one",
     [(S + "structuremodel.py", "key=lambda x: abs(x[2])", "key=lambda x: x[2]")],
     STUB + '''
g = demo_stubs.load("structure.structuremodel").StructureModel()
g.add_weighted_edges_from([("a", "b", -3.0), ("b", "c", 2.0), ("c", "a", 1.0)])
g.threshold_till_dag()
assert sorted(g.edges) == [("a", "b"), ("b", "c")], list(g.edges)
''', "python3-vt")
seed("c16-most-nodes", "C16", "a component with more nodes but fewer edges than another", "the largest subgraph is not the one with most edges",
     [(S + "structuremodel.py", "            if len(subgraph.edges) > largest_n_edges:\n", "            if len(subgraph.edges) and len(subgraph.nodes) > largest_n_edges:\n"),
      (S + "structuremodel.py", "                largest_n_edges = len(subgraph.edges)\n", "                largest_n_edges = len(subgraph.nodes)\n")],
     STUB + '''
g = demo_stubs.load("structure.structuremodel").StructureModel()
g.add_edges_from([("a", "b"), ("c", "b"), ("c", "d"), ("d", "e")])
g.add_edges_from([(u, v) for u in "wxyz" for v in "wxyz" if u < v])
assert sorted(g.get_largest_subgraph().nodes) == list("wxyz")
''', "python3-vt")
