"""Contracts for causalnex/plots/plots.py. A graph is a table of nodes and a table of edges, each with its
dictionary of attributes; networkx's set_*_attributes and to_agraph and copy.deepcopy are assumed contracts."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported, HeapView

MODULES = {"plots": "causalnex/plots/plots.py"}
EDGE = PAIR(VAL, VAL)
ATTR = DICT(STR, VAL)
NT, ET = DICT(VAL, ATTR), DICT(EDGE, ATTR)
FIELDS = {"StructureModel": {"NA": NT, "EA": ET}, "AGraph": {"of": REF("StructureModel"), "graph_attr": ATTR}}
BASES = {}
for t in (NT, ET, OPT(ATTR), OPT(NT), OPT(ET), SEQ(VAL), SEQ(PAIR(STR, VAL)), SEQ(STR), SEQ(EDGE)):
    sort(t)
C, HOOKS, BUILTINS, VALUES = {}, {}, {}, {}
NA, EA = "StructureModel.NA", "StructureModel.EA"
SM = REF("StructureModel")


def contract(name, **k):
    C[name] = Contract(name, props=["C26"], **k)
    return C[name]


def none(o):
    return o.sort().recognizer(0)(o)


def the(o):
    return o.sort().accessor(1, 0)(o)


# ------------------------------------------------------------------ the default styles: fixed, and never changed
NSTYLE, ESTYLE, GSTYLE = [z3.Const(n, sort(ATTR)) for n in ("NODE_STYLE.NORMAL", "EDGE_STYLE.NORMAL", "GRAPH_STYLE")]


def style(t, *fields):
    def mk(eng, st):
        h = eng.newcell(st, ATTR, t, True)  # borrowed: a change of it fails
        return PyObj("record", **{f: h for f in fields}) if fields else h
    return mk


VALUES["NODE_STYLE"], VALUES["EDGE_STYLE"], VALUES["GRAPH_STYLE"] = style(NSTYLE, "NORMAL"), style(ESTYLE, "NORMAL"), style(GSTYLE)


# ------------------------------------------------------------------ libraries (assumed)
def b_deepcopy(eng, st, args, kws, node, mod):
    """copy.deepcopy(graph): a new graph with equal tables, sharing nothing"""
    g = eng.term(st, args[0], SM)
    r = fresh("copy", SM)
    nn = fresh("now", INT)
    st.pc += [r != null, birth(r) == st.now, nn == st.now + 1]
    st.now = nn
    eng.log(("field", None, "@alloc"))
    for k in (NA, EA):
        eng.write(st, H(eng.prog.ftype(k), ("field", r, k)), eng.hget(st, k)[g])
    return V(SM, r)


BUILTINS["deepcopy"] = BUILTINS["copy.deepcopy"] = b_deepcopy


class Nodes(Model):
    what = "DiGraph.nodes"

    def __init__(self, r):
        self.r = r

    def iterate(self, eng, st):
        q = fresh("enum", SEQ(VAL))
        t = Dom(eng.hget(st, NA)[self.r])
        x = z3.Const("x!nv", Val)
        st.pc += [Distinct(q), FA(x, Mem(q, x) == t[x], Mem(q, x), t[x]), enumerates(q, t)]
        return VAL, q

    def getitem(self, eng, st, idx):
        k = eng.term(st, idx, VAL)
        eng.obl(st, "safe:node-exists", Has(eng.hget(st, NA)[self.r], k))
        return H(ATTR, ("elem", H(NT, ("field", self.r, NA)), k))


HOOKS[("StructureModel", "nodes")] = lambda eng, st, b: model(Nodes(eng.term(st, b)))


def set_attributes(key, ty):
    """networkx.set_node_attributes / set_edge_attributes"""
    kty = ty.args[0]

    def f(eng, st, args, kws, node, mod):
        p = dict(zip(("G", "values", "name"), args), **kws)
        if not set(p) <= {"G", "values", "name"}:
            raise Unsupported("set attributes")
        g = eng.term(st, p["G"], SM)
        h = H(ty, ("field", g, key))
        t = eng.read(st, h)
        r = fresh("attrs", ty)
        n, k = z3.Const("n!sa", sort(kty)), z3.Const("k!sa", Str)
        a, b = Get(t, n), Get(r, n)
        if isinstance(p.get("name", NONEV), type(NONEV)):
            v = eng.term(st, p["values"], ty)  # per node (edge); others are ignored
            x = Get(v, n)
            new, val = And(Has(v, n), Has(x, k)), Get(x, k)
        else:
            nm, v = eng.term(st, p["name"], STR), p["values"]
            if eng.tyof(eng.some(st, v)).kind not in ("Val", "Str", "Int", "Real", "Bool"):
                raise Unsupported("values of set attributes")
            new, val = k == nm, eng.term(st, v, VAL)
        st.pc.append(FA(n, Has(r, n) == Has(t, n), Has(r, n), Has(t, n)))
        st.pc.append(FA([n, k], Imp(Has(t, n), And(Has(b, k) == Or(Has(a, k), new), Get(b, k) == If(new, val, Get(a, k)))), Has(b, k), Get(b, k)))
        eng.write(st, h, r)
        return NONEV
    return f


BUILTINS["networkx.set_node_attributes"] = set_attributes(NA, NT)
BUILTINS["networkx.set_edge_attributes"] = set_attributes(EA, ET)


def b_agraph(eng, st, args, kws, node, mod):
    """networkx.nx_agraph.to_agraph: a pygraphviz graph of the given one"""
    g = eng.term(st, args[0], SM)
    r = fresh("agraph", REF("AGraph"))
    nn = fresh("now", INT)
    st.pc += [r != null, birth(r) == st.now, nn == st.now + 1]
    st.now = nn
    eng.log(("field", None, "@alloc"))
    eng.write(st, H(SM, ("field", r, "AGraph.of")), g)
    eng.write(st, H(ATTR, ("field", r, "AGraph.graph_attr")), z3.Const("AGRAPH.default", sort(ATTR)))
    return V(REF("AGraph"), r)


BUILTINS["networkx.nx_agraph.to_agraph"] = b_agraph
HOOKS[("AGraph", "layout")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: NONEV)
LABEL = StrC("label")


# ------------------------------------------------------------------ the documented precedence
def decorated(old, new, kty, normal, every, single, upto=None):
    """normal attributes, overridden by those for all, overridden by those for one; what nobody sets stays"""
    n, k = z3.Const("n!de", sort(kty)), z3.Const("k!de", Str)
    a, b = Get(old, n), Get(new, n)
    one = And(Not(none(single)), Has(the(single), n), Has(Get(the(single), n), k))
    al = And(Not(none(every)), Has(the(every), k))
    nl = Has(normal, k)
    isnode = kty is VAL
    free = k == LABEL if isnode else z3.BoolVal(False)
    return [("same-%s" % ("nodes" if isnode else "edges"), FA(n, Has(new, n) == Has(old, n), Has(new, n), Has(old, n))),
            ("own-attributes-win", FA([n, k], Imp(And(Has(old, n), one), And(Has(b, k), Get(b, k) == Get(Get(the(single), n), k))), Has(b, k), Get(b, k))),
            ("then-those-for-all", FA([n, k], Imp(And(Has(old, n), Not(one), al), And(Has(b, k), Get(b, k) == Get(the(every), k))), Has(b, k), Get(b, k))),
            ("then-the-style", FA([n, k], Imp(And(Has(old, n), Not(one), Not(al), nl), And(Has(b, k), Get(b, k) == Get(normal, k))), Has(b, k), Get(b, k))),
            ("otherwise-kept", FA([n, k], Imp(And(Has(old, n), Not(one), Not(al), Not(nl), Not(free)), And(Has(b, k) == Has(a, k), Imp(Has(a, k), Get(b, k) == Get(a, k)))), Has(b, k), Get(b, k)))] + (
        [("labelled", FA(n, Imp(Has(old, n), Has(b, LABEL)), Has(new, n), Get(new, n)))] if isnode else [])


PAR = {"sm": SM, "all_node_attributes": OPT(ATTR), "all_edge_attributes": OPT(ATTR), "node_attributes": OPT(NT), "edge_attributes": OPT(ET)}


def deco(c, h, r):
    a, g = c.a, c.a["sm"]
    return ([("nodes:" + l, f) for l, f in decorated(c.o[NA][g], h[NA][r], VAL, NSTYLE, a["all_node_attributes"], a["node_attributes"])] +
            [("edges:" + l, f) for l, f in decorated(c.o[EA][g], h[EA][r], EDGE, ESTYLE, a["all_edge_attributes"], a["edge_attributes"])])


def copied(lp):
    return lp.v("_sm")


def untouched(lp, r):
    """no graph but the copy changes in the loop"""
    x = z3.Const("x!un", Ref)
    e = HeapView(lp.eng, lp.entry.heap)
    return [("other-graphs", FA(x, Imp(x != r, And(lp.n[NA][x] == e[NA][x], lp.n[EA][x] == e[EA][x])), lp.n[NA][x], lp.n[EA][x]))]


def inv_label(lp):
    g, r = lp.a["sm"], copied(lp)
    old, new = lp.o[NA][g], lp.n[NA][r]
    n, k = z3.Const("n!il", Val), z3.Const("k!il", Str)
    a, b = Get(old, n), Get(new, n)
    return [("nodes", FA(n, Has(new, n) == Has(old, n), Has(new, n), Has(old, n))),
            ("kept", FA([n, k], Imp(And(Has(old, n), k != LABEL), And(Has(b, k) == Has(a, k), Get(b, k) == Get(a, k))), Has(b, k), Get(b, k))),
            ("labelled", FA(n, Imp(And(Has(old, n), Mem(lp.S, n), Idx(lp.S, n) < lp.i), Has(b, LABEL)), Has(new, n), Get(new, n))),
            ("edges", lp.n[EA][r] == lp.o[EA][g]), ("new", And(r != null, lp.fresh_ref(r)))] + untouched(lp, r)


def inv_all(key, name, kty):
    def inv(lp):
        r = copied(lp)
        old, new, d = HeapView(lp.eng, lp.entry.heap)[key][r], lp.n[key][r], lp.v(name)
        n, k = z3.Const("n!ia", sort(kty)), z3.Const("k!ia", Str)
        a, b = Get(old, n), Get(new, n)
        done = And(Mem(lp.ks, k), Idx(lp.ks, k) < lp.i)
        other = EA if key == NA else NA
        return [("same", FA(n, Has(new, n) == Has(old, n), Has(new, n), Has(old, n))),
                ("set", FA([n, k], Imp(Has(old, n), And(Has(b, k) == Or(Has(a, k), done), Get(b, k) == If(done, Get(d, k), Get(a, k)))), Has(b, k), Get(b, k))),
                ("others", lp.n[other][r] == HeapView(lp.eng, lp.entry.heap)[other][r])] + untouched(lp, r)
    return inv


contract("_add_attributes", params=PAR, ret=SM, allocates=True, requires=lambda c: [("a-graph", c.a["sm"] != null)],
         ensures=lambda c: [("new-graph", And(c.res != null, c.fresh_ref(c.res)))] + deco(c, c.n, c.res),
         loops=[LoopSpec(inv_label), LoopSpec(inv_all(NA, "_all_node_attr", VAL)), LoopSpec(inv_all(EA, "_all_edge_attr", EDGE))])


def ps_ens(c):
    r = c.res
    k = z3.Const("k!ps", Str)
    a, ga = c.n["AGraph.graph_attr"][r], c.a["graph_attributes"]
    own = And(Not(none(ga)), Has(the(ga), k))
    return [("new", And(r != null, c.fresh_ref(r))), ("copy", c.fresh_ref(c.n["AGraph.of"][r]))] + deco(c, c.n, c.n["AGraph.of"][r]) + [
        ("graph-attributes-win", FA(k, Imp(own, And(Has(a, k), Get(a, k) == Get(the(ga), k))), Has(a, k), Get(a, k))),
        ("then-the-graph-style", FA(k, Imp(And(Not(own), Has(GSTYLE, k)), And(Has(a, k), Get(a, k) == Get(GSTYLE, k))), Has(a, k), Get(a, k)))]


contract("plot_structure", params=dict([("sm", SM), ("prog", STR)] + [(k, v) for k, v in PAR.items() if k != "sm"] + [("graph_attributes", OPT(ATTR))]), ret=REF("AGraph"), allocates=True,
         requires=lambda c: [("a-graph", c.a["sm"] != null)], ensures=ps_ens)
