"""Contracts for causalnex/ebaybbn: the graphviz export (C13)."""
import z3
from theory import *
from engine import LoopSpec
from ebay import *
from ebay import contract, NAMES, INJ, RefSet, RefStr, CHI

E2S = PAIR(STR, STR)
ES = SEQ(E2S)
EdgeSet = z3.ArraySort(sort(E2S), z3.BoolSort())
NQ, RQ = SEQ(STR), SEQ(REF("BBNNode"))
sort(ES), sort(NQ), sort(RQ)
slt = strict_lt(Str)
HEAD = TextAdd(StrC(""), "digraph G {\n", '  graph [ dpi = 300 bgcolor="transparent" rankdir="LR"];\n')
NT = z3.Function("NODELINES", sort(NQ), z3.IntSort(), Str)               # the header and the lines of the first i names
ET = z3.Function("EDGELINES", Str, sort(ES), z3.IntSort(), Str)          # a text and the lines of the first i edges
_q, _i, _j, _t, _e = z3.Const("q!gx", sort(NQ)), z3.Int("i!gx"), z3.Int("j!gx"), z3.Const("t!gx", Str), z3.Const("e!gx", sort(ES))
axiom("NODELINES.0", FA(_q, NT(_q, 0) == HEAD, NT(_q, 0)))
axiom("NODELINES.S", FA([_q, _i], Imp(_i >= 0, NT(_q, _i + 1) == TextAdd(NT(_q, _i), "  ", At(_q, _i), ' [ shape="ellipse" color="blue"];\n')), NT(_q, _i + 1)))
axiom("EDGELINES.0", FA([_t, _e], ET(_t, _e, 0) == _t, ET(_t, _e, 0)))
axiom("EDGELINES.S", FA([_t, _e, _i], Imp(_i >= 0, ET(_t, _e, _i + 1) == TextAdd(ET(_t, _e, _i), "  ", P(At(_e, _i), 0), " -> ", P(At(_e, _i), 1), ";\n")), ET(_t, _e, _i + 1)))

# the listing of a set of edges in lexicographic order: a strictly increasing listing is unique
SRTE = z3.Function("SORTEDEDGES", EdgeSet, sort(ES))
LEXS = z3.Function("LEXSORTED", sort(ES), z3.BoolSort())
_w1, _w2 = z3.Function("LEX.i", sort(ES), z3.IntSort())(_e), z3.Function("LEX.j", sort(ES), z3.IntSort())(_e)
lex = lambda a, b: Or(slt(P(a, 0), P(b, 0)), And(P(a, 0) == P(b, 0), slt(P(a, 1), P(b, 1))))
axiom("LEX.def", FA(_e, Or(LEXS(_e), And(0 <= _w1, _w1 < _w2, _w2 < Len(_e), lex(At(_e, _w2), At(_e, _w1)))), LEXS(_e)))
axiom("LEX.uniq", FA(_e, Imp(And(LEXS(_e), Distinct(_e)), _e == SRTE(ToSet(_e))), LEXS(_e)))
# nodes listed by distinct names: their names are the sorted listing of the names
BYN = z3.Function("SORTEDBY", sort(RQ), RefStr, z3.BoolSort())
_r, _f = z3.Const("r!gx", sort(RQ)), z3.Const("f!gx", RefStr)
_v1, _v2 = z3.Function("SORTEDBY.i", sort(RQ), RefStr, z3.IntSort())(_r, _f), z3.Function("SORTEDBY.j", sort(RQ), RefStr, z3.IntSort())(_r, _f)
axiom("SORTEDBY.def", FA([_r, _f], Or(BYN(_r, _f), And(0 <= _v1, _v1 < _v2, _v2 < Len(_r), slt(_f[At(_r, _v2)], _f[At(_r, _v1)]))), BYN(_r, _f)))
_SN = SrtSet(NAMES(ToSet(_r), _f))
axiom("SORTEDBY.names", FA([_r, _f], Imp(And(BYN(_r, _f), Distinct(_r), INJ(ToSet(_r), _f)), And(Len(_SN) == Len(_r), FA(_i, Imp(InR(_i, _r), At(_SN, _i) == _f[At(_r, _i)]), At(_SN, _i), At(_r, _i)))), BYN(_r, _f)))

NN = "Node.name"


def edge_of(h, q, e):
    """e names a parent and its child"""
    n, m = z3.Const("n!eo", Ref), z3.Const("m!eo", Ref)
    return EX([n, m], And(Mem(q, n), Mem(h[CHI][n], m), e == MkPair(E2S, h[NN][n], h[NN][m])))


def gx_ens(c):
    q = c.o["BBN.nodes"][c.a["self"]]
    names = SrtSet(NAMES(ToSet(q), c.o[NN]))
    E = c.a["$edges"]
    es = SRTE(E)
    return [("text", c.res == TextAdd(ET(NT(names, Len(q)), es, Len(es)), "}\n"))]


def gx_edges(lp, done, extra=None):
    E, h = lp.v("edges"), lp.o
    e, n, m = z3.Const("e!ge", sort(E2S)), z3.Const("n!ge", Ref), z3.Const("m!ge", Ref)
    return [("edges-in", FA(e, Imp(E[e], lp.a["$edges"][e]), E[e])),
            ("edges-of-done-nodes", FA([n, m], Imp(And(done(n), Mem(h[CHI][n], m)), E[MkPair(E2S, h[NN][n], h[NN][m])]), Mem(h[CHI][n], m)))]


def gx_l0(lp):
    q = lp.o["BBN.nodes"][lp.a["self"]]
    nm = lp.o[NN]
    names = SrtSet(NAMES(ToSet(q), nm))
    S = lp.S
    return [("same-nodes", ToSet(S) == ToSet(q)), ("by-name", And(BYN(S, nm), Distinct(S), Len(S) == Len(q))),
            ("names", And(Len(names) == Len(S), FA(_i, Imp(InR(_i, S), At(names, _i) == nm[At(S, _i)]), At(S, _i)))),
            ("node-lines", lp.v("fh") == NT(names, lp.i))] + gx_edges(lp, lambda n: And(Mem(S, n), Idx(S, n) < lp.i))


def gx_l1(lp):
    q = lp.o["BBN.nodes"][lp.a["self"]]
    S, h = lp.outer.S, lp.o
    cur = At(S, lp.outer.i)
    j = z3.Int("j!g1")
    return [("here", And(Mem(q, cur), Mem(S, cur)))] + gx_edges(lp, lambda n: And(Mem(S, n), Idx(S, n) < lp.outer.i)) + [
        ("edges-here", FA(j, Imp(And(0 <= j, j < lp.i), lp.v("edges")[MkPair(E2S, h[NN][cur], h[NN][At(lp.S, j)])]), At(lp.S, j)))]


def gx_l2(lp):
    q, nm = lp.o["BBN.nodes"][lp.a["self"]], lp.o[NN]
    names = SrtSet(NAMES(ToSet(q), nm))
    return [("same-edges", And(Subset(ToSet(lp.S), lp.a["$edges"]), Subset(lp.a["$edges"], ToSet(lp.S)))), ("listing", And(LEXS(lp.S), lp.S == SRTE(lp.a["$edges"]))),
            ("edge-lines", lp.v("fh") == ET(NT(names, Len(q)), SRTE(lp.a["$edges"]), lp.i))]


def gx_req(c):
    q, E = c.o["BBN.nodes"][c.a["self"]], c.a["$edges"]
    e = z3.Const("e!gr", sort(E2S))
    return [("names-distinct", And(Distinct(q), INJ(ToSet(q), c.o[NN]))),
            ("edges-are-the-edges", FA(e, E[e] == edge_of(c.o, q, e), E[e]))]


contract("BBN.get_graphviz_source", params={"self": REF("BBN")}, ret=STR, props=["C13"], ghosts={"edges": EdgeSet},
         requires=gx_req, ensures=gx_ens, locals={"edges": SET(E2S), "fh": TEXT}, loops=[LoopSpec(gx_l0), LoopSpec(gx_l1), LoopSpec(gx_l2)])
