"""Contracts for causalnex/structure/structuremodel.py. networkx.DiGraph is an assumed dependency: a graph
is a set of nodes N and a table E from edges to attribute dictionaries."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported, define_array

MODULES = {"structuremodel": "causalnex/structure/structuremodel.py"}
EDGE = PAIR(VAL, VAL)
ATTR = DICT(STR, VAL)
ET = DICT(EDGE, ATTR)
FIELDS = {"DiGraph": {"E": ET, "N": SET(VAL)}, "StructureModel": {},
          "EdgeItem": {"u": VAL, "v": VAL, "has": BOOL, "d": ATTR}}
BASES = {"nx.DiGraph": ["DiGraph"]}
FROZEN = {"EdgeItem.d"}
for t in (ET, SEQ(EDGE), SET(EDGE), SEQ(VAL), SEQ(REF("X")), SEQ(SET(VAL)), SET(STR), SEQ(PAIR(VAL, VAL, REAL)), SEQ(PAIR(VAL, VAL, VAL))):
    sort(t)
C, HOOKS, BUILTINS = {}, {}, {}
E, N = "DiGraph.E", "DiGraph.N"
SM = REF("StructureModel")


def contract(name, **k):
    C[name] = Contract(name, **k)
    return C[name]


def edge(u, v):
    return MkPair(EDGE, u, v)


boxS = z3.Function("box.Str", Str, Val)
unboxS = z3.Function("unbox.Str", Val, Str)
boxR = z3.Function("box.Real", z3.RealSort(), Val)
unboxR = z3.Function("unbox.Real", Val, z3.RealSort())
_s, _r = z3.Const("s!bx", Str), z3.Real("r!bx")
axiom("box.Str", FA(_s, unboxS(boxS(_s)) == _s, boxS(_s)))
axiom("box.Real", FA(_r, unboxR(boxR(_r)) == _r, boxR(_r)))
ORIGIN, WEIGHT = StrC("origin"), StrC("weight")


def valid(o):
    return Or(*[o == boxS(StrC(x)) for x in ("unknown", "learned", "expert")])


# ------------------------------------------------------------------ the library (assumed)
class EdgeView(Model):
    what = "DiGraph.edges"

    def __init__(self, r):
        self.r = r

    def table(self, eng, st):
        return eng.hget(st, E)[self.r]

    def iterate(self, eng, st):
        return EDGE, eng.dkeys(st, ET, self.table(eng, st))

    def live(self, eng, st):
        return H(ET, ("field", self.r, E))

    def length(self, eng, st):
        return V(INT, Card(Dom(self.table(eng, st))))

    def contains(self, eng, st, x):
        return Has(self.table(eng, st), eng.term(st, x, EDGE))

    def truth(self, eng, st):
        return Card(Dom(self.table(eng, st))) > 0

    def call(self, eng, st, args, kws):
        if args or set(kws) - {"data"}:
            raise Unsupported("edges()")
        if not kws:
            return PyObj("model", self)
        d = kws["data"]
        if not (isinstance(d, V) and d.ty.kind == "Str"):
            raise Unsupported("edges(data=...)")
        t = self.table(eng, st)
        ks = eng.dkeys(st, ET, t)
        k, i = d.t, z3.Int("i!ed")
        e = z3.Const("e!ed", sort(EDGE))
        # every edge carries the attribute as a number (edges(data=k) gives None otherwise)
        eng.obl(st, "safe:edges-carry-" + str(k), FA(e, Imp(Has(t, e), And(Has(Get(t, e), k), boxR(unboxR(Get(Get(t, e), k))) == Get(Get(t, e), k))), Has(t, e)))
        ty = PAIR(VAL, VAL, REAL)
        q = fresh("edgedata", SEQ(ty))
        st.pc.append(Len(q) == Len(ks))
        st.pc.append(FA(i, Imp(And(0 <= i, i < Len(ks)), At(q, i) == MkPair(ty, P(At(ks, i), 0), P(At(ks, i), 1), unboxR(Get(Get(t, At(ks, i)), k)))), At(q, i), At(ks, i)))
        st.pc.append(FA(e, Imp(Has(t, e), At(q, Idx(ks, e)) == MkPair(ty, P(e, 0), P(e, 1), unboxR(Get(Get(t, e), k)))), Has(t, e)))
        return PyObj("iter", ety=ty, seq=q)


class NodeView(Model):
    what = "DiGraph.nodes"

    def __init__(self, r):
        self.r = r

    def iterate(self, eng, st):
        q = fresh("enum", SEQ(VAL))
        t = eng.hget(st, N)[self.r]
        x = z3.Const("x!nv", Val)
        st.pc += [Distinct(q), FA(x, Mem(q, x) == t[x], Mem(q, x), t[x]), Len(q) == Card(t), enumerates(q, t)]
        return VAL, q

    def length(self, eng, st):
        return V(INT, Card(eng.hget(st, N)[self.r]))

    def contains(self, eng, st, x):
        return eng.hget(st, N)[self.r][eng.term(st, x, VAL)]


class AdjView(Model):
    what = "DiGraph[u]"

    def __init__(self, r, u):
        self.r, self.u = r, u

    def getitem(self, eng, st, idx):
        k = edge(self.u, eng.term(st, idx, VAL))
        eng.obl(st, "safe:edge-exists", Has(eng.hget(st, E)[self.r], k))
        return H(ATTR, ("elem", H(ET, ("field", self.r, E)), k))

    def contains(self, eng, st, x):
        return Has(eng.hget(st, E)[self.r], edge(self.u, eng.term(st, x, VAL)))


HOOKS[("DiGraph", "edges")] = lambda eng, st, b: model(EdgeView(eng.term(st, b)))
HOOKS[("DiGraph", "nodes")] = lambda eng, st, b: model(NodeView(eng.term(st, b)))
HOOKS[("DiGraph", "[]")] = lambda eng, st, b, i: model(AdjView(eng.term(st, b), eng.term(st, i, VAL)))


class SubgraphView(Model):
    """view of the induced subgraph; only copied"""
    what = "DiGraph.subgraph(nodes)"

    def __init__(self, r, ns):
        self.r, self.ns = r, ns

    def attr(self, eng, st, name):
        if name == "copy":
            return PyObj("pyfn", self.copy)

    def copy(self, eng, st, args, kws):
        x = fresh("new_sub", SM)
        nn = fresh("now", INT)
        st.pc += [birth(x) == st.now, x != null, nn == st.now + 1, clsof(x) == eng.prog.clsid("StructureModel")]
        st.now = nn
        e, n = eng.hget(st, E), eng.hget(st, N)
        k = z3.Const("k!sg", sort(EDGE))
        y = z3.Const("y!sg", Val)
        st.pc += [e[x] == INDUCED(e[self.r], self.ns), n[x] == Inter(n[self.r], self.ns)]
        eng.trusted_used.add("DiGraph.subgraph(c).copy()")
        return V(SM, x)


VSet = z3.ArraySort(Val, z3.BoolSort())
INDUCED = z3.Function("INDUCED", sort(ET), VSet, sort(ET))
_t, _ns, _k = z3.Const("t!in", sort(ET)), z3.Const("ns!in", VSet), z3.Const("k!in", sort(EDGE))
axiom("INDUCED", FA([_t, _ns, _k], Has(INDUCED(_t, _ns), _k) == And(Has(_t, _k), _ns[P(_k, 0)], _ns[P(_k, 1)]), Has(INDUCED(_t, _ns), _k)))
axiom("INDUCED.val", FA([_t, _ns, _k], Imp(Has(INDUCED(_t, _ns), _k), Get(INDUCED(_t, _ns), _k) == Get(_t, _k)), Get(INDUCED(_t, _ns), _k)))
HOOKS[("DiGraph", "subgraph")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: model(SubgraphView(g.term(s, b), g.as_set(s, a[0]))))

# weak connection: joined by a path that ignores directions; the components are its classes
EdgeSet = z3.ArraySort(sort(EDGE), z3.BoolSort())
CONN = z3.Function("CONN", EdgeSet, Val, Val, z3.BoolSort())
COMP = z3.Function("COMP", VSet, EdgeSet, Val, VSet)   # the component of a node
_es, _a, _b, _c = z3.Const("E!cn", EdgeSet), *z3.Consts("a!cn b!cn c!cn", Val)
axiom("CONN.refl", FA([_es, _a], CONN(_es, _a, _a), CONN(_es, _a, _a)))
axiom("CONN.sym", FA([_es, _a, _b], CONN(_es, _a, _b) == CONN(_es, _b, _a), CONN(_es, _a, _b)))
axiom("CONN.trans", FA([_es, _a, _b, _c], Imp(And(CONN(_es, _a, _b), CONN(_es, _b, _c)), CONN(_es, _a, _c)), (CONN(_es, _a, _b), CONN(_es, _b, _c))))
axiom("COMP", FA([_ns, _es, _a, _b], COMP(_ns, _es, _a)[_b] == And(_ns[_b], CONN(_es, _a, _b)), COMP(_ns, _es, _a)[_b]))

axiom("COMP.eq", FA([_ns, _es, _a, _b], Imp(CONN(_es, _a, _b), COMP(_ns, _es, _a) == COMP(_ns, _es, _b)), (CONN(_es, _a, _b), COMP(_ns, _es, _a)), (CONN(_es, _a, _b), COMP(_ns, _es, _b))))


def b_wcc(eng, st, args, kws, node, mod):
    r = eng.term(st, args[0])
    e, n = Dom(eng.hget(st, E)[r]), eng.hget(st, N)[r]
    q = fresh("wcc", SEQ(SET(VAL)))
    rep, pos = fresh_fun("rep", INT, VAL), fresh_fun("pos", VAL, INT)
    i, x = z3.Int("i!wc"), z3.Const("x!wc", Val)
    st.pc.append(FA(i, Imp(InR(i, q), And(n[rep(i)], At(q, i) == COMP(n, e, rep(i)))), At(q, i)))
    st.pc.append(FA(x, Imp(n[x], And(0 <= pos(x), pos(x) < Len(q), At(q, pos(x)) == COMP(n, e, x))), n[x]))
    eng.trusted_used.add("networkx.weakly_connected_components")
    return PyObj("iter", ety=SET(VAL), seq=q)


BUILTINS["networkx.weakly_connected_components"] = b_wcc
ACYC = z3.Function("ACYC", EdgeSet, z3.BoolSort())
axiom("ACYC.empty", ACYC(EmptySet(sort(EDGE))))
axiom("ACYC.card0", FA(_es, Imp(Card(_es) == 0, ACYC(_es)), ACYC(_es)), ["ACYC"])


def b_dag(eng, st, args, kws, node, mod):
    eng.trusted_used.add("networkx.is_directed_acyclic_graph")
    return V(BOOL, ACYC(Dom(eng.hget(st, E)[eng.term(st, args[0])])))


BUILTINS["networkx.algorithms.is_directed_acyclic_graph"] = b_dag
BUILTINS["networkx.is_directed_acyclic_graph"] = b_dag
BUILTINS["numpy.abs"] = lambda eng, st, args, kws, node, mod: eng.b_abs(st, args, kws, node, mod)

only_self = lambda c, x: x == c.a["self"]


def other_edges_kept(c, touched):
    k = z3.Const("k!oe", sort(EDGE))
    e0, e1 = c.o[E][c.a["self"]], c.n[E][c.a["self"]]
    return FA(k, Imp(Not(touched(k)), And(Has(e1, k) == Has(e0, k), Imp(Has(e0, k), Get(e1, k) == Get(e0, k)))), Has(e1, k), Get(e1, k), Has(e0, k))


def merged(new, old, had, upd):
    """the attributes upd over the attributes old (if there were any)"""
    a = z3.Const("a!mg", Str)
    return FA(a, And(Has(new, a) == Or(And(had, Has(old, a)), Has(upd, a)), Imp(Has(new, a), Get(new, a) == If(Has(upd, a), Get(upd, a), Get(old, a)))), Has(new, a), Get(new, a))


def add_edge_ens(c, upd=None):
    me, k = c.a["self"], edge(c.a["u_of_edge"], c.a["v_of_edge"])
    e0, e1 = c.o[E][me], c.n[E][me]
    y = z3.Const("y!ae", Val)
    return [("edge-present", Has(e1, k)), ("attributes-stored", merged(Get(e1, k), Get(e0, k), Has(e0, k), upd if upd is not None else c.a["attr"])),
            ("other-edges-kept", other_edges_kept(c, lambda x: x == k)),
            ("nodes-added", FA(y, c.n[N][me][y] == Or(c.o[N][me][y], y == P(k, 0), y == P(k, 1)), c.n[N][me][y]))]


MODS = [(E, only_self), (N, only_self)]
contract("DiGraph.add_edge", trusted=True, params={"self": SM, "u_of_edge": VAL, "v_of_edge": VAL, "**attr": ATTR}, ret=NONE, modifies=MODS, ensures=add_edge_ens)

# bulk insertion of items (u, v) or (u, v, data)
ITEMS = SEQ(REF("EdgeItem"))
HOOKS[("EdgeItem", "len")] = lambda eng, st, x: V(INT, If(eng.hget(st, "EdgeItem.has")[eng.term(st, x)], z3.IntVal(3), z3.IntVal(2)))


def item_get(eng, st, b, i):
    r, j = eng.term(st, b), z3.simplify(eng.term(st, i))
    if not z3.is_int_value(j) or j.as_long() not in (0, 1, 2):
        raise Unsupported("edge item index")
    j = j.as_long()
    if j == 2:
        eng.obl(st, "safe:edge-data", eng.hget(st, "EdgeItem.has")[r])
        return H(ATTR, ("field", r, "EdgeItem.d"), True)
    return V(VAL, eng.hget(st, "EdgeItem.uv"[:9] + "uv"[j])[r])


HOOKS[("EdgeItem", "[]")] = item_get


def ikey(h, r):
    return edge(h["EdgeItem.u"][r], h["EdgeItem.v"][r])


LAST = z3.Function("LAST", sort(ITEMS), sort(EDGE), z3.ArraySort(Ref, Val), z3.ArraySort(Ref, Val), z3.IntSort())


def last_item(h, q, k):
    """index of the last item for edge k"""
    return LAST(q, k, h["EdgeItem.u"], h["EdgeItem.v"])


_q, _u, _v, _i = z3.Const("q!la", sort(ITEMS)), *z3.Consts("u!la v!la", z3.ArraySort(Ref, Val)), z3.Int("i!la")
axiom("LAST", FA([_q, _k, _u, _v, _i], Imp(And(0 <= _i, _i < Len(_q), _u[At(_q, _i)] == P(_k, 0), _v[At(_q, _i)] == P(_k, 1)),
      And(_i <= LAST(_q, _k, _u, _v), LAST(_q, _k, _u, _v) < Len(_q), _u[At(_q, LAST(_q, _k, _u, _v))] == P(_k, 0), _v[At(_q, LAST(_q, _k, _u, _v))] == P(_k, 1))), (LAST(_q, _k, _u, _v), At(_q, _i))))


def named_edge(h, q, k):
    l = last_item(h, q, k)
    return And(0 <= l, l < Len(q), h["EdgeItem.u"][At(q, l)] == P(k, 0), h["EdgeItem.v"][At(q, l)] == P(k, 1))


def item_data(h, q, k, a):
    it = At(q, last_item(h, q, k))
    return And(h["EdgeItem.has"][it], Has(h["EdgeItem.d"][it], a)), Get(h["EdgeItem.d"][it], a)


def bulk_ens(c, has, val):
    """has/val: the common attributes"""
    me, q, h = c.a["self"], c.a["ebunch_to_add"], c.o
    e0, e1 = c.o[E][me], c.n[E][me]
    k, a, y = z3.Const("k!bk", sort(EDGE)), z3.Const("a!bk", Str), z3.Const("y!bk", Val)
    hd, vd = item_data(h, q, k, a)
    return [("named-edges-present", FA(k, Has(e1, k) == Or(Has(e0, k), named_edge(h, q, k)), Has(e1, k))),
            ("other-edges-kept", FA(k, Imp(And(Has(e1, k), Not(named_edge(h, q, k))), Get(e1, k) == Get(e0, k)), Get(e1, k))),
            ("common-attributes-stored", FA([k, a], Imp(And(Has(e1, k), named_edge(h, q, k), has(a)), And(Has(Get(e1, k), a), Get(Get(e1, k), a) == If(hd, vd, val(a)))), Has(Get(e1, k), a), Get(Get(e1, k), a)))]


contract("DiGraph.add_edges_from", trusted=True, params={"self": SM, "ebunch_to_add": ITEMS, "**attr": ATTR}, ret=NONE, modifies=MODS,
         ensures=lambda c: bulk_ens(c, lambda a: Has(c.a["attr"], a), lambda a: Get(c.a["attr"], a)))

WITEMS = SEQ(PAIR(VAL, VAL, VAL))
WLAST = z3.Function("WLAST", sort(WITEMS), sort(EDGE), z3.IntSort())
_wq = z3.Const("q!wl", sort(WITEMS))
_l = WLAST(_wq, _k)
axiom("WLAST", FA([_wq, _k, _i], Imp(And(0 <= _i, _i < Len(_wq), P(At(_wq, _i), 0) == P(_k, 0), P(At(_wq, _i), 1) == P(_k, 1)),
      And(_i <= _l, _l < Len(_wq), P(At(_wq, _l), 0) == P(_k, 0), P(At(_wq, _l), 1) == P(_k, 1))), (_l, At(_wq, _i))))


def wnamed(q, k):
    l = WLAST(q, k)
    return And(0 <= l, l < Len(q), P(At(q, l), 0) == P(k, 0), P(At(q, l), 1) == P(k, 1))


def wbulk_ens(c, has, val):
    me, q = c.a["self"], c.a["ebunch_to_add"]
    e0, e1 = c.o[E][me], c.n[E][me]
    w = c.a["weight"]
    k, a = z3.Const("k!wb", sort(EDGE)), z3.Const("a!wb", Str)
    return [("named-edges-present", FA(k, Has(e1, k) == Or(Has(e0, k), wnamed(q, k)), Has(e1, k))),
            ("other-edges-kept", FA(k, Imp(And(Has(e1, k), Not(wnamed(q, k))), Get(e1, k) == Get(e0, k)), Get(e1, k))),
            ("weights-stored", FA(k, Imp(And(Has(e1, k), wnamed(q, k)), And(Has(Get(e1, k), w), Get(Get(e1, k), w) == P(At(q, WLAST(q, k)), 2))), Get(e1, k))),
            ("common-attributes-stored", FA([k, a], Imp(And(Has(e1, k), wnamed(q, k), has(a), a != w), And(Has(Get(e1, k), a), Get(Get(e1, k), a) == val(a))), Has(Get(e1, k), a), Get(Get(e1, k), a)))]


# the library method calls self.add_edges_from(((u, v, {weight: d}) for u, v, d in ebunch), **attr)
contract("DiGraph.add_weighted_edges_from", trusted=True, params={"self": SM, "ebunch_to_add": WITEMS, "weight": STR, "**attr": ATTR}, ret=NONE, modifies=MODS,
         requires=lambda c: [("origin-given-and-valid", And(Has(c.a["attr"], ORIGIN), valid(Get(c.a["attr"], ORIGIN)), c.a["weight"] != ORIGIN))],
         ensures=lambda c: wbulk_ens(c, lambda a: Has(c.a["attr"], a), lambda a: Get(c.a["attr"], a)), defaults={"weight": lambda g, s: V(STR, WEIGHT)})

DATA = z3.Function("GRAPH_OF", Val, sort(ET))   # the edges described by the data passed to a constructor
DATAN = z3.Function("NODES_OF", Val, VSet)
contract("DiGraph.__init__", trusted=True, params={"self": SM, "incoming_graph_data": VAL, "**attr": ATTR}, ret=NONE, modifies=MODS,
         ensures=lambda c: [("as-described", And(c.n[E][c.a["self"]] == DATA(c.a["incoming_graph_data"]), c.n[N][c.a["self"]] == DATAN(c.a["incoming_graph_data"])))])


def removed_ens(c, gone):
    me = c.a["self"]
    k = z3.Const("k!rm", sort(EDGE))
    e0, e1 = c.o[E][me], c.n[E][me]
    return [("only-these-removed", FA(k, Has(e1, k) == And(Has(e0, k), Not(gone(k))), Has(e1, k), Has(e0, k))),
            ("attributes-kept", FA(k, Imp(Has(e1, k), Get(e1, k) == Get(e0, k)), Get(e1, k)))]


contract("DiGraph.remove_edges_from", trusted=True, params={"self": SM, "ebunch": SEQ(EDGE)}, ret=NONE, modifies=[(E, only_self)],
         ensures=lambda c: removed_ens(c, lambda k: Mem(c.a["ebunch"], k)))
contract("DiGraph.remove_edge", trusted=True, params={"self": SM, "u": VAL, "v": VAL}, ret=NONE, modifies=[(E, only_self)],
         requires=lambda c: [("edge-exists", Has(c.o[E][c.a["self"]], edge(c.a["u"], c.a["v"])))],
         ensures=lambda c: [("one-edge-removed", And(Dom(c.n[E][c.a["self"]]) == z3.Store(Dom(c.o[E][c.a["self"]]), edge(c.a["u"], c.a["v"]), False),
                                                     Vals(c.n[E][c.a["self"]]) == Vals(c.o[E][c.a["self"]])))])


# ------------------------------------------------------------------ C14
def inv(h, me):
    """every edge carries a valid origin"""
    k = z3.Const("k!iv", sort(EDGE))
    t = h[E][me]
    return FA(k, Imp(Has(t, k), And(Has(Get(t, k), ORIGIN), valid(Get(Get(t, k), ORIGIN)))), Has(t, k), Get(t, k))


contract("_validate_origin", params={"origin": VAL}, ret=NONE, props=["C14"], raises=[("ValueError", lambda c: Not(valid(c.a["origin"])))])

contract("StructureModel.__init__", params={"self": SM, "incoming_graph_data": VAL, "origin": VAL, "**attr": ATTR}, ret=NONE, props=["C14"],
         modifies=MODS, raises=[("ValueError", lambda c: Not(valid(c.a["origin"])))],
         ensures=lambda c: init_ens(c), loops=[LoopSpec(lambda lp: init_inv(lp))])


def init_ens(c):
    me, d = c.a["self"], c.a["incoming_graph_data"]
    k, a = z3.Const("k!in", sort(EDGE)), z3.Const("a!in", Str)
    e = c.n[E][me]
    return [("every-edge-origin-valid", inv(c.n, me)),
            ("every-edge-has-the-origin-passed", FA(k, Imp(Has(e, k), And(Has(Get(e, k), ORIGIN), Get(Get(e, k), ORIGIN) == c.a["origin"])), Has(e, k))),
            ("edges-as-described", Dom(e) == Dom(DATA(d))),
            ("other-attributes-as-described", FA([k, a], Imp(And(Has(e, k), a != ORIGIN), And(Has(Get(e, k), a) == Has(Get(DATA(d), k), a), Get(Get(e, k), a) == Get(Get(DATA(d), k), a))), Get(Get(e, k), a), Has(Get(e, k), a)))]


def init_inv(lp):
    me, d = lp.a["self"], lp.a["incoming_graph_data"]
    e = lp.n[E][me]
    k, a, j, x = z3.Const("k!in", sort(EDGE)), z3.Const("a!in", Str), z3.Int("j!in"), z3.Const("x!in", Ref)
    return [("same-edges", Dom(e) == Dom(DATA(d))),
            ("origins-so-far", FA(j, Imp(And(0 <= j, j < lp.i), And(Has(Get(e, At(lp.S, j)), ORIGIN), Get(Get(e, At(lp.S, j)), ORIGIN) == lp.a["origin"])), At(lp.S, j))),
            ("other-attributes-kept", FA([k, a], Imp(And(Has(e, k), a != ORIGIN), And(Has(Get(e, k), a) == Has(Get(DATA(d), k), a), Get(Get(e, k), a) == Get(Get(DATA(d), k), a))), Get(Get(e, k), a), Has(Get(e, k), a))),
            ("other-graphs-kept", FA(x, Imp(x != me, lp.n[E][x] == lp.h0[E][x]), lp.n[E][x]))]


contract("StructureModel.add_edge", params={"self": SM, "u_of_edge": VAL, "v_of_edge": VAL, "origin": VAL, "**attr": ATTR}, ret=NONE, props=["C14"], modifies=MODS,
         raises=[("ValueError", lambda c: Not(valid(c.a["origin"])))],
         requires=lambda c: [("every-edge-origin-valid", inv(c.o, c.a["self"])), ("origin-named", Not(Has(c.a["attr"], ORIGIN)))],
         ensures=lambda c: se_add_ens(c))


def se_add_ens(c):
    me, k = c.a["self"], edge(c.a["u_of_edge"], c.a["v_of_edge"])
    e0, e1 = c.o[E][me], c.n[E][me]
    a, y = z3.Const("a!sa", Str), z3.Const("y!sa", Val)
    at = c.a["attr"]
    n, o = Get(e1, k), Get(e0, k)
    return [("every-edge-origin-valid", inv(c.n, me)),
            ("edge-present-with-origin", And(Has(e1, k), Has(n, ORIGIN), Get(n, ORIGIN) == c.a["origin"])),
            ("attributes-stored", FA(a, Imp(a != ORIGIN, And(Has(n, a) == Or(And(Has(e0, k), Has(o, a)), Has(at, a)), Imp(Has(n, a), Get(n, a) == If(Has(at, a), Get(at, a), Get(o, a))))), Has(n, a), Get(n, a))),
            ("other-edges-kept", other_edges_kept(c, lambda x: x == k))]


def items_bad(c):
    """an item of the bunch whose own data carry an invalid origin"""
    j = z3.Int("j!ib")
    q, h = c.a["ebunch_to_add"], c.o
    it = At(q, j)
    return EX(j, And(0 <= j, j < Len(q), h["EdgeItem.has"][it], Has(h["EdgeItem.d"][it], ORIGIN), Not(valid(Get(h["EdgeItem.d"][it], ORIGIN)))))


def items_inv(lp):
    j = z3.Int("j!ii")
    q, h = lp.a["ebunch_to_add"], lp.o
    it = At(q, j)
    return [("validated-so-far", FA(j, Imp(And(0 <= j, j < lp.i, h["EdgeItem.has"][it], Has(h["EdgeItem.d"][it], ORIGIN)), valid(Get(h["EdgeItem.d"][it], ORIGIN))), it))]


def se_bulk_ens(c):
    me, at = c.a["self"], c.a["attr"]
    return [("every-edge-origin-valid", inv(c.n, me))] + bulk_ens(c, lambda a: Or(a == ORIGIN, Has(at, a)), lambda a: If(a == ORIGIN, c.a["origin"], Get(at, a)))


contract("StructureModel.add_edges_from", params={"self": SM, "ebunch_to_add": ITEMS, "origin": VAL, "**attr": ATTR}, ret=NONE, props=["C14"], modifies=MODS,
         raises=[("ValueError", lambda c: Or(Not(valid(c.a["origin"])), items_bad(c)))],
         requires=lambda c: [("every-edge-origin-valid", inv(c.o, c.a["self"])), ("origin-named", Not(Has(c.a["attr"], ORIGIN)))],
         ensures=se_bulk_ens, loops=[LoopSpec(items_inv)])

contract("StructureModel.add_weighted_edges_from", params={"self": SM, "ebunch_to_add": WITEMS, "weight": STR, "origin": VAL, "**attr": ATTR}, ret=NONE, props=["C14"], modifies=MODS,
         raises=[("ValueError", lambda c: Not(valid(c.a["origin"])))],
         requires=lambda c: [("every-edge-origin-valid", inv(c.o, c.a["self"])), ("origin-named", Not(Has(c.a["attr"], ORIGIN))), ("weight-is-not-origin", c.a["weight"] != ORIGIN)],
         ensures=lambda c: [("every-edge-origin-valid", inv(c.n, c.a["self"]))] + wbulk_ens(c, lambda a: Or(a == ORIGIN, Has(c.a["attr"], a)), lambda a: If(a == ORIGIN, c.a["origin"], Get(c.a["attr"], a))))


def ewo_ens(c):
    k = z3.Const("k!ew", sort(EDGE))
    t = c.o[E][c.a["self"]]
    return [("exactly-the-edges-of-the-origin", FA(k, Mem(c.res, k) == And(Has(t, k), Get(Get(t, k), ORIGIN) == c.a["origin"]), Mem(c.res, k), Has(t, k))),
            ("none-repeated", Distinct(c.res))]


contract("StructureModel.edges_with_origin", params={"self": SM, "origin": VAL}, ret=SEQ(EDGE), props=["C14"],
         requires=lambda c: [("every-edge-origin-valid", inv(c.o, c.a["self"]))], ensures=ewo_ens)


# ------------------------------------------------------------------ C15
def weight(t, k):
    return unboxR(Get(Get(t, k), WEIGHT))


def absw(t, k):
    w = weight(t, k)
    return If(w < 0, -w, w)


def weighted(h, me):
    k = z3.Const("k!wt", sort(EDGE))
    t = h[E][me]
    return FA(k, Imp(Has(t, k), And(Has(Get(t, k), WEIGHT), boxR(unboxR(Get(Get(t, k), WEIGHT))) == Get(Get(t, k), WEIGHT))), Has(t, k))


contract("StructureModel.remove_edges_below_threshold", params={"self": SM, "threshold": REAL}, ret=NONE, props=["C15"], modifies=[(E, only_self)],
         requires=lambda c: [("edges-weighted", weighted(c.o, c.a["self"]))],
         ensures=lambda c: removed_ens(c, lambda k: absw(c.o[E][c.a["self"]], k) < c.a["threshold"]))


def ttd_common(e0, e1):
    k, f = z3.Consts("k!td f!td", sort(EDGE))
    return [("only-removals", Subset(Dom(e1), Dom(e0))), ("attributes-kept", Vals(e1) == Vals(e0)),
            ("kept-not-weaker-than-removed", FA([k, f], Imp(And(Has(e1, k), Has(e0, f), Not(Has(e1, f))), absw(e0, f) <= absw(e0, k)), (Has(e1, k), Has(e0, f)))),
            ("stops-when-acyclic", Or(Dom(e1) == Dom(e0), EX(f, And(Has(e0, f), Not(Has(e1, f)), Not(ACYC(z3.Store(Dom(e1), f, True)))))))]


contract("StructureModel.threshold_till_dag", params={"self": SM}, ret=NONE, props=["C15"], modifies=[(E, only_self)],
         requires=lambda c: [("edges-weighted", weighted(c.o, c.a["self"]))],
         ensures=lambda c: [("acyclic", ACYC(Dom(c.n[E][c.a["self"]]))), ("acyclic-graph-untouched", Imp(ACYC(Dom(c.o[E][c.a["self"]])), Dom(c.n[E][c.a["self"]]) == Dom(c.o[E][c.a["self"]])))] + ttd_common(c.o[E][c.a["self"]], c.n[E][c.a["self"]]),
         loops=[LoopSpec(lambda lp: ttd_common(lp.o[E][lp.a["self"]], lp.n[E][lp.a["self"]]) + [
             ("acyclic-graph-untouched", Imp(ACYC(Dom(lp.o[E][lp.a["self"]])), Dom(lp.n[E][lp.a["self"]]) == Dom(lp.o[E][lp.a["self"]]))),
             ("other-graphs-kept", FA(z3.Const("x!td", Ref), Imp(z3.Const("x!td", Ref) != lp.a["self"], lp.n[E][z3.Const("x!td", Ref)] == lp.o[E][z3.Const("x!td", Ref)]), lp.n[E][z3.Const("x!td", Ref)]))],
             decreases=lambda lp: Card(Dom(lp.n[E][lp.a["self"]])))])


# ------------------------------------------------------------------ C16
def is_component(c, r, x):
    """graph r is the weakly connected component of node x, with its edges and attributes"""
    me = c.a["self"]
    e, n = c.o[E][me], c.o[N][me]
    return And(c.n[E][r] == INDUCED(e, COMP(n, Dom(e), x)), c.n[N][r] == Inter(n, COMP(n, Dom(e), x)))


contract("StructureModel.get_target_subgraph", params={"self": SM, "node": VAL}, ret=SM, props=["C16"], allocates=True,
         raises=[("NodeNotFound", lambda c: Not(c.o[N][c.a["self"]][c.a["node"]]))],
         ensures=lambda c: [("whole-component", is_component(c, c.res, c.a["node"])), ("separate-object", c.fresh_ref(c.res)), ("contains-the-node", c.n[N][c.res][c.a["node"]])],
         loops=[LoopSpec(lambda lp: [("not-in-earlier", FA(z3.Int("j!gt"), Imp(And(0 <= z3.Int("j!gt"), z3.Int("j!gt") < lp.i), Not(lp.n[N][At(lp.S, z3.Int("j!gt"))][lp.a["node"]])), At(lp.S, z3.Int("j!gt"))))])])


def largest_ens(c):
    x = z3.Const("x!lg", Val)
    me, r = c.a["self"], c.res
    e, n = c.o[E][me], c.o[N][me]
    size = lambda y: Card(Dom(INDUCED(e, COMP(n, Dom(e), y))))
    return [("a-component", Imp(r != null, EX(x, And(n[x], is_component(c, r, x))))),
            ("greatest-number-of-edges", Imp(r != null, FA(x, Imp(n[x], size(x) <= Card(Dom(c.n[E][r]))), n[x]))),
            ("none-only-without-edges", Imp(r == null, FA(x, Imp(n[x], size(x) <= 0), n[x]))),
            ("separate-object", Imp(r != null, And(c.fresh_ref(r), Card(Dom(c.n[E][r])) > 0)))]


def largest_inv(lp):
    j = z3.Int("j!lg")
    r = lp.v("largest_subgraph")
    m = lp.v("largest_n_edges")
    x = z3.Const("x!li", Val)
    me = lp.a["self"]
    e, n = lp.o[E][me], lp.o[N][me]
    return [("greatest-so-far", FA(j, Imp(And(0 <= j, j < lp.i), Card(Dom(lp.n[E][At(lp.S, j)])) <= m), At(lp.S, j))),
            ("best-is-one-of-them", If(r == null, m == 0, And(m > 0, m == Card(Dom(lp.n[E][r])), EX(j, And(0 <= j, j < lp.i, r == At(lp.S, j))))))]


contract("StructureModel.get_largest_subgraph", params={"self": SM}, ret=SM, props=["C16"], allocates=True, locals={"largest_subgraph": SM, "largest_n_edges": INT},
         ensures=largest_ens, loops=[LoopSpec(largest_inv)])
