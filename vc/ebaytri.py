"""Contract for triangulate (C08)."""
import z3
from theory import *
from engine import LoopSpec, PyTuple, PyObj, V, H, keeps, has
from ebay import *
from ebay import contract, NB
from ebayg import *
from ebayg import NN, UN, UF, UA, JTN, CN, UREF, UD, graph_ok, old_kept_

# triangulation: gm grows in place while a copy gm_ loses one node per round
CLQ = REF("Clique")


def clu(h, order, nm, v, u):
    """u is in the cluster that v formed when it was eliminated: v and its neighbours that come later"""
    later = Or(Not(Mem(order, nm[u])), Idx(order, nm[v]) < Idx(order, nm[u]))
    return Or(u == v, And(Mem(h[NB][v], u), later))


def tri_facts(c, h, order, cliques, CNS=None):
    """facts about the graph, the order so far and the cliques so far"""
    o, U, nm = c.o, c.o[JTN][c.a["gm"]], c.o[UN]
    u, w, v, q, q2 = z3.Const("u!tf", Ref), z3.Const("w!tf", Ref), z3.Const("v!tf", Ref), z3.Const("q!tf", Ref), z3.Const("q2!tf", Ref)
    later = lambda v, u: Or(Not(Mem(order, nm[u])), Idx(order, nm[v]) < Idx(order, nm[u]))
    CNS = h[CN] if CNS is None else CNS
    r = [(l, f) for l, f in graph_ok(h, c.a["gm"], U)]
    r += [("edges-kept", FA([u, w], Imp(And(Mem(U, u), Mem(o[NB][u], w)), Mem(h[NB][u], w)), (Mem(U, u), Mem(o[NB][u], w)))),
          ("order-without-repeats", Distinct(order)),
          ("later-neighbours-joined", FA([v, u, w], Imp(And(Mem(U, v), Mem(order, nm[v]), Mem(h[NB][v], u), Mem(h[NB][v], w), later(v, u), later(v, w), u != w), Mem(h[NB][u], w)), (Mem(U, v), Mem(h[NB][v], u), Mem(h[NB][v], w)))),
          ("cliques-are-clusters", FA(q, Imp(Mem(cliques, q), EX(v, And(Mem(U, v), Mem(order, nm[v]), FA(u, CNS[q][u] == clu(h, order, nm, v, u), CNS[q][u])))), Mem(cliques, q))),
          ("clusters-in-cliques", FA(v, Imp(And(Mem(U, v), Mem(order, nm[v])), EX(q, And(Mem(cliques, q), FA(u, Imp(clu(h, order, nm, v, u), CNS[q][u]), CNS[q][u], Mem(h[NB][v], u))))), Mem(U, v), Mem(order, nm[v]))),
          ("no-clique-in-another", FA([q, q2], Imp(And(Mem(cliques, q), Mem(cliques, q2), q != q2), Not(Subset(CNS[q], CNS[q2]))), (Mem(cliques, q), Mem(cliques, q2)))),
          ("cliques-distinct", Distinct(cliques))]
    return r


def tri_ens(c):
    o, U, nm = c.o, c.o[JTN][c.a["gm"]], c.o[UN]
    cl, order = P(c.res, 0), P(c.res, 1)
    q, k, u = z3.Const("q!te", Ref), z3.Const("k!te", Str), z3.Const("u!te", Ref)
    return tri_facts(c, c.n, order, cl) + [
        ("cliques-new", FA(q, Imp(Mem(cl, q), c.fresh_ref(q)), Mem(cl, q))),
        ("order-lists-every-node", FA(u, Imp(Mem(U, u), Mem(order, nm[u])), Mem(U, u))),
        ("order-lists-nodes", FA(k, Imp(Mem(order, k), EX(u, And(Mem(U, u), nm[u] == k))), Mem(order, k)))]


def tri_rest(lp, h):
    """the elimination graph is the part of gm that is left"""
    o, U, nm, gn = lp.o, lp.o[JTN][lp.a["gm"]], lp.o[UN], lp.v("gmnodes")
    R, eo, g_ = h[JTN][lp.v("gm_")], lp.v("elimination_ordering"), lp.v("gm_")
    r, s, u, k, q = z3.Const("r!tr", Ref), z3.Const("s!tr", Ref), z3.Const("u!tr", Ref), z3.Const("k!tr", Str), z3.Const("q!tr", Ref)
    G = lambda t: Get(gn, h[UN][t])
    return [("rest:" + l, f) for l, f in graph_ok(h, g_)] + [
        ("nodes-old", FA(u, Imp(Mem(U, u), birth(u) < lp.now0), Mem(U, u))),
        ("index", FA(k, Imp(Has(gn, k), And(Mem(U, Get(gn, k)), nm[Get(gn, k)] == k)), Has(gn, k), Get(gn, k))),
        ("indexed", FA(u, Imp(Mem(U, u), And(Has(gn, nm[u]), Get(gn, nm[u]) == u)), Mem(U, u))),
        ("rest-not-eliminated", FA(r, Imp(Mem(R, r), And(birth(r) >= lp.now0, birth(r) < lp.now, Has(gn, h[UN][r]), Not(Mem(eo, h[UN][r])))), Mem(R, r))),
        ("others-eliminated", FA(u, Imp(Mem(U, u), Or(Mem(eo, nm[u]), EX(r, And(Mem(R, r), h[UN][r] == nm[u])))), Mem(U, u))),
        ("order-lists-nodes", FA(k, Imp(Mem(eo, k), Has(gn, k)), Mem(eo, k))),
        ("rest-joined-alike", FA([r, s], Imp(And(Mem(R, r), Mem(R, s)), Mem(h[NB][r], s) == Mem(h[NB][G(r)], G(s))), (Mem(R, r), Mem(R, s))))]


def tri_kept(lp):
    n, U = z3.Const("n!tk", Ref), lp.o[JTN][lp.a["gm"]]
    return [("other-nodes-kept", FA(n, Imp(And(birth(n) < lp.now0, Not(Mem(U, n))), lp.n[NB][n] == lp.o[NB][n]), lp.n[NB][n]))] + old_kept_(lp, JTN, CN, UN)


def tri_inv(lp):
    q = z3.Const("q!ti", Ref)
    cl = lp.v("cliques")
    return tri_rest(lp, lp.n) + tri_facts(lp, lp.n, lp.v("elimination_ordering"), cl) + tri_kept(lp) + [
        ("cliques-new", FA(q, Imp(Mem(cl, q), And(birth(q) >= lp.now0, birth(q) < lp.now)), Mem(cl, q)))]


def tri_inv1(lp):
    """joining the cluster of the chosen node, in both graphs"""
    h, e, S, gn, v = lp.n, lp.h0, lp.S, lp.v("gmnodes"), lp.v("v")
    U, R, eo, nm = lp.o[JTN][lp.a["gm"]], h[JTN][lp.v("gm_")], lp.v("elimination_ordering"), lp.o[UN]
    gmn = lp.v("gm_nodes")
    r, s, u, w, k = z3.Const("r!t1", Ref), z3.Const("s!t1", Ref), z3.Const("u!t1", Ref), z3.Const("w!t1", Ref), z3.Int("k!t1")
    G = lambda t: Get(gn, h[UN][t])
    a, b = (lambda k: P(At(S, k), 0)), (lambda k: P(At(S, k), 1))
    pair = lambda x, y: EX(k, And(0 <= k, k < lp.i, Or(And(a(k) == x, b(k) == y), And(a(k) == y, b(k) == x))))
    return [("rest-index", FA(u, Imp(And(Mem(U, u), Not(Mem(eo, nm[u]))), And(Mem(R, Get(gmn, nm[u])), h[UN][Get(gmn, nm[u])] == nm[u], Get(gn, nm[u]) == u)), Mem(U, u))),
            ("chosen-in-rest", And(Mem(R, v), Has(gn, h[UN][v]), Not(Mem(eo, h[UN][v])), Mem(U, G(v)))),
            ("pairs", FA(k, Imp(InR(k, S), And(Mem(R, a(k)), Mem(R, b(k)), a(k) != b(k), Or(a(k) == v, Mem(e[NB][v], a(k))), Or(b(k) == v, Mem(e[NB][v], b(k))))), At(S, k)))] + [
        ("rest:" + l, f) for l, f in graph_ok(h, lp.v("gm_"))] + graph_ok(h, lp.a["gm"], U) + [
        ("rest-joined-so-far", FA([r, s], Imp(And(Mem(R, r), Mem(R, s)), Mem(h[NB][r], s) == Or(Mem(e[NB][r], s), pair(r, s))), (Mem(R, r), Mem(R, s)))),
        ("edges-kept", FA([u, w], Imp(And(Mem(U, u), Mem(e[NB][u], w)), Mem(h[NB][u], w)), (Mem(U, u), Mem(e[NB][u], w)))),
        ("eliminated-kept", FA(u, Imp(And(Mem(U, u), Mem(eo, nm[u])), h[NB][u] == e[NB][u]), Mem(U, u), h[NB][u])),
        ("rest-joined-alike", FA([r, s], Imp(And(Mem(R, r), Mem(R, s)), Mem(h[NB][r], s) == Mem(h[NB][G(r)], G(s))), (Mem(R, r), Mem(R, s)))),
        ("chosen-kept", h[NB][v] == e[NB][v])] + tri_kept(lp)[:1]


def tri_body1(l):
    """what the joining loop needs"""
    return l.split(":")[-1] not in ("later-neighbours-joined", "cliques-are-clusters", "clusters-in-cliques", "no-clique-in-another", "cliques-distinct", "cliques-new", "others-eliminated") and not l.startswith("call:construct") and not l.startswith("proved:")


def tri_exit1(lp):
    h, e, v, gn = lp.n, lp.h0, lp.v("v"), lp.v("gmnodes")
    R, U = h[JTN][lp.v("gm_")], lp.o[JTN][lp.a["gm"]]
    r, s = z3.Const("r!x1", Ref), z3.Const("s!x1", Ref)
    inn = lambda t: Or(t == v, Mem(e[NB][v], t))
    return [("rest-joined", FA([r, s], Imp(And(Mem(R, r), Mem(R, s)), Mem(h[NB][r], s) == Or(Mem(e[NB][r], s), And(r != s, inn(r), inn(s)))), (Mem(R, r), Mem(R, s)))),
            ("cluster-in-rest", FA(r, Imp(Mem(lp.v("cluster"), r), And(Mem(R, r), Has(gn, h[UN][r]), Mem(U, Get(gn, h[UN][r])))), Mem(lp.v("cluster"), r)))]


def gmclu(lp, h, u):
    """u is in the cluster of the chosen node in gm: the node and its neighbours that are left"""
    v, eo = lp.v("v"), lp.v("elimination_ordering")
    V_ = Get(lp.v("gmnodes"), h[UN][v])
    return Or(u == V_, And(Mem(h[NB][V_], u), Not(Mem(eo, h[UN][u]))))


def tri_exit1b(lp):
    """the cluster in gm"""
    h = lp.n
    U = lp.o[JTN][lp.a["gm"]]
    u, w = z3.Const("u!x1", Ref), z3.Const("w!x1", Ref)
    return [("cluster-joined", FA([u, w], Imp(And(Mem(U, u), Mem(U, w), gmclu(lp, h, u), gmclu(lp, h, w), u != w), Mem(h[NB][u], w)), (Mem(U, u), Mem(U, w))))]


def tri_keep1(l):
    return l != "comb2" and not l.startswith("call:") and not (l.startswith("proved:") and "exit" not in l) and l not in ("loop1:rest-joined-so-far", "loop1:pairs", "dictdef")


def tri_inv2(lp):
    """the chosen node is taken out of its neighbours' lists"""
    h, e, S, v, U = lp.n, lp.h0, lp.S, lp.v("v"), lp.o[JTN][lp.a["gm"]]
    R = h[JTN][lp.v("gm_")]
    h0, cl0, cl, gc = lp.outer.n, lp.outer.v("cliques"), lp.v("cliques"), lp.v("gmcluster")
    r, s, u, q, q2 = z3.Const("r!t2", Ref), z3.Const("s!t2", Ref), z3.Const("u!t2", Ref), z3.Const("q!t2", Ref), z3.Const("q2!t2", Ref)
    out = lambda r: And(Mem(S, r), Idx(S, r) < lp.i)
    return [("gm-cluster", FA(u, gc[u] == And(Mem(U, u), gmclu(lp, e, u)), gc[u])),
            ("cliques-before", FA(q, Imp(Mem(cl0, q), And(Mem(cl, q), h[CN][q] == h0[CN][q])), Mem(cl0, q))),
            ("cliques-now", FA(q, Imp(Mem(cl, q), Or(Mem(cl0, q), And(h[CN][q] == gc, FA(q2, Imp(Mem(cl0, q2), Not(Subset(gc, h0[CN][q2]))), Mem(cl0, q2))))), Mem(cl, q))),
            ("at-most-one-new", FA([q, q2], Imp(And(Mem(cl, q), Mem(cl, q2), Not(Mem(cl0, q)), Not(Mem(cl0, q2))), q == q2), (Mem(cl, q), Mem(cl, q2)))),
            ("recorded", EX(q, And(Mem(cl, q), Subset(gc, h[CN][q]))))] + [
        ("next:" + l, f) for l, f in tri_facts(lp, e, App(lp.v("elimination_ordering"), h[UN][v]), cl, h[CN])] + [
        ("removed-so-far", FA([r, s], Mem(h[NB][r], s) == And(Mem(e[NB][r], s), Not(And(s == v, out(r)))), Mem(h[NB][r], s), Mem(e[NB][r], s))),
        ("no-repeated-neighbour", FA(r, Imp(Mem(R, r), Distinct(h[NB][r])), Mem(R, r))),
        ("others-kept", FA(r, Imp(Not(Mem(S, r)), h[NB][r] == e[NB][r]), h[NB][r]))]


def tri_exit2(lp):
    h, e, v, U = lp.n, lp.h0, lp.v("v"), lp.o[JTN][lp.a["gm"]]
    R = h[JTN][lp.v("gm_")]
    r, s, u = z3.Const("r!x2", Ref), z3.Const("s!x2", Ref), z3.Const("u!x2", Ref)
    return [("gm-untouched", FA(u, Imp(Mem(U, u), h[NB][u] == e[NB][u]), Mem(U, u))),
            ("removed", FA([r, s], Imp(Mem(R, r), Mem(h[NB][r], s) == And(Mem(e[NB][r], s), s != v)), Mem(h[NB][r], s), (Mem(R, r), Mem(e[NB][r], s))))]


L0 = ("loop0:*", "loop1:*", "proved:loop1:exit:*")
TRI_FOCUS = [
    ("loop1:inv:.*:preserved|safe:key", lambda l: not has(l, "wf", "proved:loop1:*", "comb2", "loop0:clique*", "loop0:clusters*", "loop0:later*")),
    ("loop1:inv:(rest:)?(neighbours-are-nodes|no-repeated-neighbour|symmetric):preserved", keeps("", "loop1:pairs", "loop0:nodes-old", "loop1:edges-kept", "loop1:chosen*", "loop1:rest*", "loop1:nei*", "loop1:no-*", "loop1:nodes*", "loop1:names*", "loop1:symmetric", "loop0:index*", "loop0:rest-not-eliminated", "proved:safe*")),
    ("loop1:exit:cluster-joined", keeps("proved:loop1:exit:rest-joined", "loop1:rest-joined-alike", "loop1:rest-index", "loop1:chosen-in-rest", "loop1:chosen-kept", "loop1:rest:names-distinct")),
    ("loop2:inv:next:later-neighbours-joined:entry", keeps("loop0:later*", "loop1:edges-kept", "loop1:eliminated-kept", "loop1:neighbours-are-nodes", "loop1:chosen-in-rest", "loop0:index*", "proved:loop1:exit:cluster-joined", "loop0:names-distinct")),
    ("loop2:inv:next:cli.*-clusters:entry", keeps("loop0:cliques-are-clusters", "loop1:eliminated-kept", "loop1:neighbours-are-nodes", "loop1:chosen-in-rest", "loop0:index*", "proved:loop2:inv:gm-cluster:entry", "proved:loop2:inv:cliques-*:entry", "loop0:names-distinct")),
    ("loop2:inv:next:clusters-in-cliques:entry", keeps("loop0:clusters-in-cliques", "loop1:eliminated-kept", "loop1:neighbours-are-nodes", "loop1:chosen-in-rest", "loop0:index*", "proved:loop2:inv:gm-cluster:entry", "proved:loop2:inv:recorded:entry", "proved:loop2:inv:cliques-before:entry", "loop0:names-distinct")),
    ("loop2:exit:gm-untouched", keeps("loop2:others-kept", "loop0:rest-not-eliminated", "loop1:rest:neighbours-are-nodes", "loop1:chosen*", "loop0:nodes-old")),
    ("loop0:inv:other-nodes-kept:preserved", keeps("loop2:others-kept", "loop0:rest-not-eliminated", "loop1:rest:neighbours-are-nodes", "loop1:chosen*", "loop1:other-nodes-kept", "loop0:other-nodes-kept")),
    ("loop0:inv:symmetric:preserved", keeps("loop2:next:symmetric", "loop2:next:neighbours-are-nodes", "proved:loop2:exit:gm-untouched")),
    ("loop0:inv:later-neighbours-joined:preserved", keeps("", "loop2:next:later*", "loop2:next:neighbours-are-nodes", "proved:loop2:exit:gm-untouched")),
]

contract("triangulate", params={"gm": REF("UndirectedGraph")}, ret=PAIR(SEQ(CLQ), SEQ(STR)), props=["C08"], allocates=True,
         requires=lambda c: [("graph", c.a["gm"] != null)] + graph_ok(c.o, c.a["gm"]), ensures=tri_ens,
         modifies=[(NB, lambda c, x: Mem(c.o[JTN][c.a["gm"]], x))], focus=TRI_FOCUS,
         locals={"gmnodes": UD, "gm_nodes": UD, "gm_": REF("UndirectedGraph"), "elimination_ordering": SEQ(STR), "cliques": SEQ(CLQ), "v": UREF, "cluster": SEQ(UREF), "gmcluster": SET(UREF)},
         loops=[LoopSpec(tri_inv, decreases=lambda lp: Len(lp.n[JTN][lp.v("gm_")])), LoopSpec(tri_inv1, body=tri_body1, exit=[(tri_exit1, tri_keep1), (tri_exit1b, None)]), LoopSpec(tri_inv2, exit=[(tri_exit2, None)])])
