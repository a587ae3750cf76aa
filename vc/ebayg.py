"""Contracts for causalnex/ebaybbn: undirected, moral and triangulated graphs, join tree construction, export."""
import z3
from theory import *
from engine import LoopSpec, PyTuple, PyObj, V, H, define_array
from ebay import *
from ebay import contract, BUILTINS, C, NAMES, VNB, VNF, _y, _n, NB, FUNC, PAR, CHI, FN, names_inj, NAMEF
from ebayq import JTN, CN, CL, SL, SN, ISC, ISS

NN, UN, UF, UA = "Node.name", "UndirectedNode.name", "UndirectedNode.func", "UndirectedNode.argspec"


def dag_ok(h, b):
    """the nodes of a network have distinct names and variables, and its parents are nodes of it, without 2-cycles"""
    q, nm, par = h["BBN.nodes"][b], h[NN], h[PAR]
    x, y = z3.Const("x!dk", Ref), z3.Const("y!dk", Ref)
    return [("nodes-distinct", Distinct(q)),
            ("names-distinct", FA([x, y], Imp(And(Mem(q, x), Mem(q, y), nm[x] == nm[y]), x == y), (Mem(q, x), Mem(q, y)))),
            ("parents-are-nodes", FA([x, y], Imp(And(Mem(q, x), Mem(par[x], y)), And(Mem(q, y), Not(Mem(par[y], x)))), (Mem(q, x), Mem(par[x], y)))),
            ("parents-distinct", FA(x, Imp(Mem(q, x), Distinct(par[x])), Mem(q, x)))]


def adj(h, x, y):
    return Or(Mem(h[PAR][x], y), Mem(h[PAR][y], x))


def ucopy_ens(c, g=None, extra=None):
    b, h, o = c.a["dag"], c.n, c.o
    q, U = o["BBN.nodes"][b], h[JTN][c.res]
    x, y, u, w = z3.Const("x!uc", Ref), z3.Const("y!uc", Ref), z3.Const("u!uc", Ref), z3.Const("w!uc", Ref)
    same = lambda u, x: And(h[UN][u] == o[NN][x], h[VNF][u] == o[VNB][x], h[UF][u] == o[FUNC][x])
    return [("fresh", c.fresh_ref(c.res)), ("nodes-distinct", Distinct(U)),
            ("copy-of-each-node", FA(x, Imp(Mem(q, x), EX(u, And(Mem(U, u), same(u, x)))), Mem(q, x))),
            ("only-copies", FA(u, Imp(Mem(U, u), And(c.fresh_ref(u), EX(x, And(Mem(q, x), same(u, x))))), Mem(U, u))),
            ("names-distinct", FA([u, w], Imp(And(Mem(U, u), Mem(U, w), h[UN][u] == h[UN][w]), u == w), (Mem(U, u), Mem(U, w)))),
            ("neighbours-are-nodes", FA([u, w], Imp(And(Mem(U, u), Mem(h[NB][u], w)), Mem(U, w)), (Mem(U, u), Mem(h[NB][u], w)))),
            ("adjacent-iff-parent", FA([u, w, x, y], Imp(And(Mem(U, u), Mem(U, w), Mem(q, x), Mem(q, y), h[UN][u] == o[NN][x], h[UN][w] == o[NN][y]), Mem(h[NB][u], w) == adj(o, x, y)), (Mem(U, u), Mem(U, w), Mem(q, x), Mem(q, y)))),
            ("no-repeated-neighbour", FA(u, Imp(Mem(U, u), Distinct(h[NB][u])), Mem(U, u)))]


UD = DICT(STR, REF("UndirectedNode"))


def old_kept_(lp, *keys):
    n = z3.Const("n!ok", Ref)
    return [("old-objects-kept:" + k, FA(n, Imp(birth(n) < lp.now0, lp.n[k][n] == lp.o[k][n]), lp.n[k][n])) for k in keys]


def uc_index(lp, d, i):
    """d maps the names of the first i nodes to their copies"""
    h, o, q = lp.n, lp.o, lp.o["BBN.nodes"][lp.a["dag"]]
    j, k, x = z3.Int("j!ui"), z3.Const("k!ui", Str), z3.Const("x!ui", Ref)
    G = Get(d, k)
    Gx = Get(d, o[NN][x])
    return [("copied", FA(x, Imp(And(Mem(q, x), Idx(q, x) < i), And(Has(d, o[NN][x]), h[UN][Gx] == o[NN][x], h[VNF][Gx] == o[VNB][x], h[UF][Gx] == o[FUNC][x])), Mem(q, x))),
            ("copies", FA(k, Imp(Has(d, k), And(G != null, h[UN][G] == k, birth(G) >= lp.now0, birth(G) < lp.now, EX(x, And(Mem(q, x), Idx(q, x) < i, o[NN][x] == k)))), Has(d, k), G))]


def uc_inv0(lp):
    d, h, k = lp.v("nodes"), lp.n, z3.Const("k!u0", Str)
    return uc_index(lp, d, lp.i) + [("no-neighbours-yet", FA(k, Imp(Has(d, k), Len(h[NB][Get(d, k)]) == 0), Has(d, k), Get(d, k)))] + old_kept_(lp, NB, UN, UF, UA, VNF)


def uc_edges(lp, rel):
    d, h, o, q = lp.v("nodes"), lp.n, lp.o, lp.o["BBN.nodes"][lp.a["dag"]]
    x, y, k, w = z3.Const("x!ue", Ref), z3.Const("y!ue", Ref), z3.Const("k!ue", Str), z3.Const("w!ue", Ref)
    G = lambda t: Get(d, o[NN][t])
    return [("neighbours-so-far", FA([x, y], Imp(And(Mem(q, x), Mem(q, y)), Mem(h[NB][G(x)], G(y)) == rel(x, y)), (Mem(q, x), Mem(q, y)))),
            ("neighbours-are-copies", FA([k, w], Imp(And(Has(d, k), Mem(h[NB][Get(d, k)], w)), And(Has(d, h[UN][w]), Get(d, h[UN][w]) == w)), (Has(d, k), Mem(h[NB][Get(d, k)], w)))),
            ("no-repeated-neighbour", FA(k, Imp(Has(d, k), Distinct(h[NB][Get(d, k)])), Has(d, k), Get(d, k)))] + old_kept_(lp, NB)


def uc_inv1(lp):
    q, par = lp.S, lp.o[PAR]
    done = lambda t: Idx(q, t) < lp.i
    return uc_edges(lp, lambda x, y: Or(And(done(x), Mem(par[x], y)), And(done(y), Mem(par[y], x))))


def uc_inv2(lp):
    q, par, ps = lp.outer.S, lp.o[PAR], lp.S
    cur = At(q, lp.outer.i)
    done = lambda t: Idx(q, t) < lp.outer.i
    dp = lambda t: And(Mem(ps, t), Idx(ps, t) < lp.i)
    return uc_edges(lp, lambda x, y: Or(And(done(x), Mem(par[x], y)), And(done(y), Mem(par[y], x)), And(x == cur, dp(y)), And(y == cur, dp(x))))


contract("make_undirected_copy", params={"dag": REF("BBN")}, ret=REF("UndirectedGraph"), props=["C07"], allocates=True,
         requires=lambda c: dag_ok(c.o, c.a["dag"]), ensures=ucopy_ens, locals={"nodes": UD},
         loops=[LoopSpec(uc_inv0), LoopSpec(uc_inv1), LoopSpec(uc_inv2)])

# ------------------------------------------------------------------ copies and moralisation
def graph_ok(h, g, q=None):
    """an undirected graph: nodes with distinct names, neighbours are other nodes of it, listed once, on both sides"""
    q = h[JTN][g] if q is None else q
    u, w = z3.Const("u!gk", Ref), z3.Const("w!gk", Ref)
    return [("nodes-distinct", Distinct(q)),
            ("names-distinct", FA([u, w], Imp(And(Mem(q, u), Mem(q, w), h[UN][u] == h[UN][w]), u == w), (Mem(q, u), Mem(q, w)))),
            ("neighbours-are-nodes", FA([u, w], Imp(And(Mem(q, u), Mem(h[NB][u], w)), And(Mem(q, w), u != w)), (Mem(q, u), Mem(h[NB][u], w)))),
            ("symmetric", FA([u, w], Imp(And(Mem(q, u), Mem(h[NB][u], w)), Mem(h[NB][w], u)), (Mem(q, u), Mem(h[NB][u], w)))),
            ("no-repeated-neighbour", FA(u, Imp(Mem(q, u), Distinct(h[NB][u])), Mem(q, u)))]


def gcopy(o, h, g, g2, fresh):
    """g2 (in h) is a separate copy of g (in o): same names, variables and factors; returns the facts without adjacency"""
    q, U = o[JTN][g], h[JTN][g2]
    x, u, w = z3.Const("x!gc", Ref), z3.Const("u!gc", Ref), z3.Const("w!gc", Ref)
    same = lambda u, x: And(h[UN][u] == o[UN][x], h[VNF][u] == o[VNF][x], h[UF][u] == o[UF][x])
    return [("fresh", fresh(g2)), ("copies-distinct", Distinct(U)),
            ("copy-of-each-node", FA(x, Imp(Mem(q, x), EX(u, And(Mem(U, u), same(u, x)))), Mem(q, x))),
            ("only-copies", FA(u, Imp(Mem(U, u), And(fresh(u), EX(x, And(Mem(q, x), same(u, x))))), Mem(U, u))),
            ("copy-names-distinct", FA([u, w], Imp(And(Mem(U, u), Mem(U, w), h[UN][u] == h[UN][w]), u == w), (Mem(U, u), Mem(U, w)))),
            ("copy-neighbours-are-nodes", FA([u, w], Imp(And(Mem(U, u), Mem(h[NB][u], w)), Mem(U, w)), (Mem(U, u), Mem(h[NB][u], w))))]


def gcopy_adj(o, h, g, g2, rel):
    q, U = o[JTN][g], h[JTN][g2]
    x, y, u, w = z3.Const("x!ga", Ref), z3.Const("y!ga", Ref), z3.Const("u!ga", Ref), z3.Const("w!ga", Ref)
    return ("adjacent", FA([u, w, x, y], Imp(And(Mem(U, u), Mem(U, w), Mem(q, x), Mem(q, y), h[UN][u] == o[UN][x], h[UN][w] == o[UN][y]), Mem(h[NB][u], w) == rel(x, y)), (Mem(U, u), Mem(U, w), Mem(q, x), Mem(q, y))))


def norep(h, g2):
    u = z3.Const("u!nr", Ref)
    return ("copy-no-repeated-neighbour", FA(u, Imp(Mem(h[JTN][g2], u), Distinct(h[NB][u])), Mem(h[JTN][g2], u)))


contract("deepcopy:UndirectedGraph", params={"x": REF("UndirectedGraph")}, ret=REF("UndirectedGraph"), trusted="copy.deepcopy makes a separate isomorphic copy of a graph of nodes", allocates=True,
         requires=lambda c: graph_ok(c.o, c.a["x"]),
         ensures=lambda c: gcopy(c.o, c.n, c.a["x"], c.res, c.fresh_ref) + [gcopy_adj(c.o, c.n, c.a["x"], c.res, lambda x, y: Mem(c.o[NB][x], y)), norep(c.n, c.res)])


def copars(h, b, x, y):
    """the network nodes named like x and y are both parents of one node"""
    p1, p2, n = z3.Const("p1!cp", Ref), z3.Const("p2!cp", Ref), z3.Const("n!cp", Ref)
    q = h["BBN.nodes"][b]
    return EX([p1, p2, n], And(Mem(q, n), Mem(h[PAR][n], p1), Mem(h[PAR][n], p2), p1 != p2, h[NN][p1] == h[UN][x], h[NN][p2] == h[UN][y]))


def mor_req(c):
    g, b, h = c.a["gu"], c.a["dag"], c.o
    x, u = z3.Const("x!mq", Ref), z3.Const("u!mq", Ref)
    return graph_ok(h, g) + dag_ok(h, b)[1:] + [("same-nodes", FA(x, Imp(Mem(h["BBN.nodes"][b], x), EX(u, And(Mem(h[JTN][g], u), h[UN][u] == h[NN][x]))), Mem(h["BBN.nodes"][b], x)))]


def mor_ens(c):
    g, b = c.a["gu"], c.a["dag"]
    return gcopy(c.o, c.n, g, c.res, c.fresh_ref) + [gcopy_adj(c.o, c.n, g, c.res, lambda x, y: Or(Mem(c.o[NB][x], y), copars(c.o, b, x, y))), norep(c.n, c.res)]


def mor_state(lp, rel):
    d, h, g = lp.v("gm_nodes"), lp.n, lp.v("gm")
    U = h[JTN][g]
    u, w = z3.Const("u!ms", Ref), z3.Const("w!ms", Ref)
    e0 = lp.h0 if lp.outer is None else (lp.outer.h0 if lp.outer.outer is None else lp.outer.outer.h0)
    return [("neighbours-so-far", FA([u, w], Imp(And(Mem(U, u), Mem(U, w)), Mem(h[NB][u], w) == Or(Mem(e0[NB][u], w), rel(u, w))), (Mem(U, u), Mem(U, w)))),
            ("neighbours-are-nodes", FA([u, w], Imp(And(Mem(U, u), Mem(h[NB][u], w)), Mem(U, w)), (Mem(U, u), Mem(h[NB][u], w)))),
            norep(h, g)] + old_kept_(lp, NB)


def par2(lp, x, u, w, pos=None):
    """copies u and w are named like two parents of network node x"""
    p1, p2 = z3.Const("p1!p2", Ref), z3.Const("p2!p2", Ref)
    o, h = lp.o, lp.n
    ps = o[PAR][x]
    return EX([p1, p2], And(Mem(ps, p1), Mem(ps, p2), p1 != p2, o[NN][p1] == h[UN][u], o[NN][p2] == h[UN][w]))


def mor_inv1(lp):
    q = lp.S
    x = z3.Const("x!m1", Ref)
    return mor_state(lp, lambda u, w: EX(x, And(Mem(q, x), Idx(q, x) < lp.i, par2(lp, x, u, w))))


def mor_inv2(lp):
    q, S, o, h = lp.outer.S, lp.S, lp.o, lp.n
    x, k = z3.Const("x!m1", Ref), z3.Int("k!m2")
    a, b = (lambda k: o[NN][P(At(S, k), 0)]), (lambda k: o[NN][P(At(S, k), 1)])
    return mor_state(lp, lambda u, w: Or(EX(x, And(Mem(q, x), Idx(q, x) < lp.outer.i, par2(lp, x, u, w))),
                                         EX(k, And(0 <= k, k < lp.i, Or(And(a(k) == h[UN][u], b(k) == h[UN][w]), And(a(k) == h[UN][w], b(k) == h[UN][u]))))))


contract("make_moralized_copy", params={"gu": REF("UndirectedGraph"), "dag": REF("BBN")}, ret=REF("UndirectedGraph"), props=["C07"], allocates=True,
         requires=mor_req, ensures=mor_ens, locals={"gm_nodes": UD, "gm": REF("UndirectedGraph")},
         loops=[LoopSpec(mor_inv1), LoopSpec(mor_inv2)])

# ------------------------------------------------------------------ elimination
from engine import comb2_fun
UREF = REF("UndirectedNode")
COMB2 = comb2_fun(UREF)
PSEQ = sort(SEQ(PAIR(UREF, UREF)))
NBS = z3.ArraySort(Ref, sort(SEQ(UREF)))
FILLN = z3.Function("FILLN", NBS, PSEQ, z3.IntSort(), z3.IntSort())  # number of the first n pairs that are not adjacent
_nbm, _ps, _pn = z3.Const("nb!fl", NBS), z3.Const("S!fl", PSEQ), z3.Int("n!fl")
axiom("FILLN.0", FA([_nbm, _ps], FILLN(_nbm, _ps, 0) == 0, FILLN(_nbm, _ps, 0)))
axiom("FILLN.S", FA([_nbm, _ps, _pn], Imp(_pn >= 0, FILLN(_nbm, _ps, _pn + 1) == FILLN(_nbm, _ps, _pn) + If(Mem(_nbm[P(At(_ps, _pn), 1)], P(At(_ps, _pn), 0)), 0, 1)), FILLN(_nbm, _ps, _pn + 1)))


def cluster_of(h, x):
    """a node followed by its neighbours"""
    return Cat(App(th(SEQ(UREF)).empty, x), h[NB][x])


def fill(h, x):
    """number of pairs of the node's cluster that are not joined"""
    S = COMB2(cluster_of(h, x))
    return FILLN(h[NB], S, Len(S))


def sym_cluster(h, x):
    """within the cluster of x, adjacency is recorded on both sides"""
    a, b = z3.Const("a!sc", Ref), z3.Const("b!sc", Ref)
    inn = lambda t: Or(t == x, Mem(h[NB][x], t))
    return FA([a, b], Imp(And(inn(a), inn(b), Mem(h[NB][a], b)), Mem(h[NB][b], a)), (Mem(h[NB][a], b),))


PRIO = PAIR(INT, INT)
ENTRY = PAIR(INT, INT, STR)
contract("priority_func", params={"node": UREF}, ret=PRIO, props=["C08"],
         requires=lambda c: [("symmetric-cluster", sym_cluster(c.o, c.a["node"]))],
         ensures=lambda c: [("arcs-it-would-add", P(c.res, 0) == fill(c.o, c.a["node"])), ("equal-weights", P(c.res, 1) == 2)],
         loops=[LoopSpec(lambda lp: [("counted", lp.v("introduced_arcs") == FILLN(lp.o[NB], lp.S, lp.i))])])


def prio_entry(h, x):
    return MkPair(ENTRY, fill(h, x), z3.IntVal(2), h[UN][x])


def entry_lt(eng, a, b):
    return eng.lex_lt(ENTRY, a, b)


def pq_inv(lp):
    q, d, h = lp.v("pq"), lp.a["nodes"], lp.o
    e, k = z3.Const("e!pq", sort(ENTRY)), z3.Const("k!pq", Str)
    j = z3.Int("j!pq")
    return [("length", Len(q) == lp.i),
            ("entries", FA(e, Imp(Mem(q, e), EX(k, And(Has(d, k), e == prio_entry(h, Get(d, k))))), Mem(q, e))),
            ("all-so-far", FA(j, Imp(And(0 <= j, j < lp.i), Mem(q, prio_entry(h, Get(d, P(At(lp.S, j), 0))))), At(lp.S, j))),
            ("least-first", FA(j, Imp(InR(j, q), Not(entry_lt(lp.eng, At(q, j), At(q, 0)))), At(q, j)))]


contract("construct_priority_queue", params={"nodes": UD}, ret=SEQ(ENTRY), props=["C08"], locals={"pq": SEQ(ENTRY)},
         requires=lambda c: [("symmetric-clusters", FA(_y, Imp(Has(c.a["nodes"], _y), sym_cluster(c.o, Get(c.a["nodes"], _y))), Has(c.a["nodes"], _y)))],
         ensures=lambda c: [("some-entry", Imp(EX(_y, Has(c.a["nodes"], _y)), Len(c.res) > 0)),
                            ("entries-are-nodes", FA(z3.Const("e!pq", sort(ENTRY)), Imp(Mem(c.res, z3.Const("e!pq", sort(ENTRY))), EX(_y, And(Has(c.a["nodes"], _y), z3.Const("e!pq", sort(ENTRY)) == prio_entry(c.o, Get(c.a["nodes"], _y))))), Mem(c.res, z3.Const("e!pq", sort(ENTRY))))),
                            ("least-first", FA(_y, Imp(Has(c.a["nodes"], _y), Not(entry_lt(c.eng, prio_entry(c.o, Get(c.a["nodes"], _y)), At(c.res, 0)))), Get(c.a["nodes"], _y)))],
         loops=[LoopSpec(pq_inv)])
