"""Contracts for causalnex/ebaybbn: evidence validation, potentials, queries, graph construction."""
import z3
from theory import *
from engine import LoopSpec, PyTuple, PyObj, V, H, define_array
from ebay import *
from ebay import contract, gsum, ARGS, FUNC, AS, HAS, SIG, BUILTINS, C, NAMES, VNB, VNF, _y, _n, PTT, PTO, NB, ENT, KEY, KS, SS, TR, TT, FN, cnames, snames, cvn, svn, names_inj, clique_ok, sepset_ok, grouped, grouped_inv, sub_seq, keylen, absorbed, absorb_req, absorb_ens, project_ens, project_req

CN, CL, SL, SN = "Clique.nodes", "JoinTreeCliqueNode.clique", "SepSet.label", "JoinTreeSepSetNode.sepset"
DOMT = DICT(STR, SET(VAL))
EVT = DICT(STR, VAL)
EVS = sort(EVT)
ValSet = z3.ArraySort(Val, z3.BoolSort())
TF = z3.Store(z3.Store(EmptySet(Val), val_true, True), val_false, True)


def domain(h, b, v):
    """the states of a variable (True and False when none are declared)"""
    d = h["BBN.domains"][b]
    return If(Has(d, v), Get(d, v), TF)


def bvars(h, b):
    """the variables of a network"""
    return NAMES(ToSet(h["BBN.nodes"][b]), h[VNB])


def bad_name(h, b, ev):
    k = z3.Const("k!bv", Str)
    return EX(k, And(Has(ev, k), Not(bvars(h, b)[k])))


def bad_value(h, b, ev):
    k = z3.Const("k!bv", Str)
    return EX(k, And(Has(ev, k), Not(domain(h, b, k)[Get(ev, k)])))


def vk_inv(lp):
    j = z3.Int("j!vk")
    ev, b = lp.a["kwds"], lp.a["self"]
    k = At(lp.ks, j)
    return [("checked", FA(j, Imp(And(0 <= j, j < lp.i), And(bvars(lp.o, b)[k], domain(lp.o, b, k)[Get(ev, k)])), k))]


contract("BBN.validate_keyvals", params={"self": REF("BBN"), "**kwds": EVT}, ret=BOOL, props=["C03", "C04"],
         raises=[("VariableNotInGraphError", lambda c: bad_name(c.o, c.a["self"], c.a["kwds"])),
                 ("VariableValueNotInDomainError", lambda c: bad_value(c.o, c.a["self"], c.a["kwds"]))],
         ensures=lambda c: [("accepted", c.res)], loops=[LoopSpec(vk_inv)])

# ------------------------------------------------------------------ join tree accessors
ISC = lambda eng, r: clsof(r) == eng.prog.clsid("JoinTreeCliqueNode")
ISS = lambda eng, r: clsof(r) == eng.prog.clsid("JoinTreeSepSetNode")
JTN = "UndirectedGraph.nodes"


def nodes_filter(pred):
    def ens(c):
        x = z3.Const("x!nf", Ref)
        src = c.o[JTN][c.a["self"]]
        return [("exactly", FA(x, Mem(c.res, x) == And(Mem(src, x), pred(c.eng, x)), Mem(c.res, x), Mem(src, x))),
                ("no-repeats", Imp(Distinct(src), Distinct(c.res)))]
    return ens


contract("JoinTree.clique_nodes", params={"self": REF("JoinTree")}, ret=SEQ(REF("JoinTreeCliqueNode")), props=["C09", "C10", "C11"], ensures=nodes_filter(ISC))
contract("JoinTree.sepset_nodes", params={"self": REF("JoinTree")}, ret=SEQ(REF("JoinTreeSepSetNode")), props=["C09", "C11"], ensures=nodes_filter(ISS))


def ncl(h, me, n):
    """n is a neighbouring clique of me: they share a separator"""
    s = z3.Const("s!nc", Ref)
    return And(n != me, EX(s, And(Mem(h[NB][me], s), Mem(h[NB][s], n))))


def ncl_inv(lp):
    v, me = lp.v("neighbours"), lp.a["self"]
    n, j = z3.Const("n!ni", Ref), z3.Int("j!ni")
    h = lp.o
    return [("found", FA(n, Imp(v[n], And(n != me, EX(j, And(0 <= j, j < lp.i, Mem(h[NB][At(lp.S, j)], n))))), v[n])),
            ("all", FA([j, n], Imp(And(0 <= j, j < lp.i, Mem(h[NB][At(lp.S, j)], n), n != me), v[n]), (At(lp.S, j), Mem(h[NB][At(lp.S, j)], n))))]


def ncl_inv2(lp):
    v, v0, me = lp.v("neighbours"), lp.e("neighbours"), lp.a["self"]
    n, j = z3.Const("n!nj", Ref), z3.Int("j!nj")
    return [("found", FA(n, Imp(v[n], Or(v0[n], And(n != me, EX(j, And(0 <= j, j < lp.i, At(lp.S, j) == n))))), v[n])),
            ("kept", FA(n, Imp(v0[n], v[n]), v0[n])),
            ("all", FA(j, Imp(And(0 <= j, j < lp.i, At(lp.S, j) != me), v[At(lp.S, j)]), At(lp.S, j)))]


contract("JoinTreeCliqueNode.neighbouring_cliques", params={"self": REF("JoinTreeCliqueNode")}, ret=SET(REF("JoinTreeCliqueNode")), props=["C11"],
         locals={"neighbours": SET(REF("JoinTreeCliqueNode"))},
         ensures=lambda c: [("exactly", FA(_n, Imp(c.res[_n], ncl(c.o, c.a["self"], _n)), c.res[_n])),
                            ("all", FA([_n, z3.Const("s!nc", Ref)], Imp(And(_n != c.a["self"], Mem(c.o[NB][c.a["self"]], z3.Const("s!nc", Ref)), Mem(c.o[NB][z3.Const("s!nc", Ref)], _n)), c.res[_n]),
                                       (Mem(c.o[NB][c.a["self"]], z3.Const("s!nc", Ref)), Mem(c.o[NB][z3.Const("s!nc", Ref)], _n))))],
         loops=[LoopSpec(ncl_inv), LoopSpec(ncl_inv2)])


def clique_nodes_of(c, h, jt, x):
    return And(Mem(h[JTN][jt], x), ISC(c.eng, x))


def one(v):
    return App(th(SEQ(STR)).empty, v)


# ------------------------------------------------------------------ reading a marginal
KeySetS, KeyRealS = z3.ArraySort(KS, z3.BoolSort()), z3.ArraySort(KS, z3.RealSort())


def marg_of(h, x, v, keys, val):
    """the table of clique x sums to (keys, val) over variable v"""
    e, k = z3.Const("e!mo", KS), z3.Const("k!mo", KS)
    d, X, R = h[PTT][x], cvn(h, x), one(v)
    return And(FA(e, Imp(keys[e], EX(k, And(Has(d, k), TR(k, X, R) == e))), keys[e]),
               FA(k, Imp(Has(d, k), keys[TR(k, X, R)]), Has(d, k)),
               FA(e, gsum(d, X, R, e) == val[e], gsum(d, X, R, e)))


def marg_req(c):
    jt, b = c.a["self"], c.a["bbn_node"]
    h = c.o
    x, n = z3.Const("x!mr", Ref), z3.Const("n!mr", Ref)
    v, nm = h[VNB][b], h["Node.name"][b]
    isc = clique_nodes_of(c, h, jt, x)
    nodes = h[CN][h[CL][x]]
    has = nodes[n]
    return [("some-clique-contains-it", EX([x, n], And(isc, has, h["UndirectedNode.name"][n] == nm))),
            ("same-variable", FA([x, n], Imp(And(isc, has, h["UndirectedNode.name"][n] == nm), h[VNF][n] == v), (Mem(h[JTN][jt], x), has))),
            ("cliques-well-formed", FA(x, Imp(isc, And(*[f for _, f in clique_ok(h, x)])), Mem(h[JTN][jt], x))),
            ("marginals-agree", FA(x, Imp(And(isc, cnames(h, x)[v]), marg_of(h, x, v, c.a["$keys"], c.a["$val"])), Mem(h[JTN][jt], x)))]


def marg_ens(c):
    e = z3.Const("e!me", KS)
    return [("one-entry-per-state", FA(e, Has(c.res, e) == c.a["$keys"][e], Has(c.res, e), c.a["$keys"][e])),
            ("sums-of-entries", FA(e, Imp(Has(c.res, e), Get(c.res, e) == c.a["$val"][e]), Get(c.res, e), Has(c.res, e)))]


def marg_inv(lp):
    cs, h, b = lp.v("containing_nodes"), lp.o, lp.a["bbn_node"]
    j, n, x = z3.Int("j!mi"), z3.Const("n!mi", Ref), z3.Const("x!mi", Ref)
    inn = lambda y: EX(n, And(h[CN][h[CL][y]][n], h["UndirectedNode.name"][n] == h["Node.name"][b]))
    return [("containing", FA(x, Imp(Mem(cs, x), And(Mem(lp.S, x), inn(x))), Mem(cs, x))),
            ("all-containing", FA(j, Imp(And(0 <= j, j < lp.i, inn(At(lp.S, j))), Mem(cs, At(lp.S, j))), At(lp.S, j)))]


def marg_inv2(lp):
    cl = lp.v("clique_node")
    return grouped_inv(lp, lp.v("tt"), lp.o[PTT][cl], cvn(lp.o, cl), one(lp.o[VNB][lp.a["bbn_node"]]))


contract("JoinTree.marginal", params={"self": REF("JoinTree"), "bbn_node": REF("BBNNode")}, ret=TT, props=["C11", "C01", "C02"],
         ghosts={"keys": KeySetS, "val": KeyRealS}, requires=marg_req, ensures=marg_ens,
         locals={"containing_nodes": SEQ(REF("JoinTreeCliqueNode")), "tt": TT, "clique_node": REF("JoinTreeCliqueNode")},
         loops=[LoopSpec(marg_inv), LoopSpec(marg_inv2)])

# ------------------------------------------------------------------ one message


def pm_req(c):
    me, t, s = c.a["self"], c.a["target"], c.a["$sep"]
    h = c.o
    x, k, k2 = z3.Const("x!pm", Ref), z3.Const("k!pm", KS), z3.Const("k2!pm", KS)
    e = TR(k, cvn(h, t), svn(h, s))
    d = h[PTT][t]
    return [("one-separator", FA(x, And(Mem(h[NB][me], x), Mem(h[NB][t], x)) == (x == s), (Mem(h[NB][me], x), Mem(h[NB][t], x)), (z3.Const("x!pm", Ref) == s) if False else (Mem(h[NB][me], x),))),
            ("shared", And(Mem(h[NB][me], s), Mem(h[NB][t], s))), ("distinct-objects", And(me != t, s != me, s != t))] + \
        clique_ok(h, me) + [("target:" + l, f) for l, f in clique_ok(h, t)] + sepset_ok(h, s) + [
            ("sepset-within-clique", sub_seq(svn(h, s), cvn(h, me))), ("sepset-within-target", sub_seq(svn(h, s), cvn(h, t))),
            ("support", FA(k, Imp(And(Has(d, k), Get(d, k) != 0), And(EX(k2, And(Has(h[PTT][me], k2), TR(k2, cvn(h, me), svn(h, s)) == e)), Has(h[PTT][s], e), Get(h[PTT][s], e) != 0)), Has(d, k)))]


def pm_ens(c):
    me, t, s = c.a["self"], c.a["target"], c.a["$sep"]
    tt, nt = c.o[PTT][t], c.n[PTT][t]
    val = absorbed(c.o, tt, s, t, c.n[PTT][s], c.o[PTT][s])
    k = z3.Const("k!ae", KS)
    return [("old-separator-kept", c.n[PTO][s] == c.o[PTT][s])] + grouped(c.n[PTT][s], c.o[PTT][me], cvn(c.o, me), svn(c.o, s)) + [
        ("same-keys", FA(k, Has(nt, k) == Has(tt, k), Has(nt, k), Has(tt, k))),
        ("entries-updated", FA(k, Imp(Has(tt, k), Get(nt, k) == val(k)), Get(nt, k)))]


contract("JoinTreeCliqueNode.pass_message", params={"self": REF("JoinTreeCliqueNode"), "target": REF("JoinTreeCliqueNode")}, ret=NONE, props=["C11", "C01", "C02"],
         ghosts={"sep": Ref}, requires=pm_req, ensures=pm_ens,
         modifies=[(PTT, lambda c, x: Or(x == c.a["$sep"], x == c.a["target"])), (PTO, lambda c, x: x == c.a["$sep"])])

# ------------------------------------------------------------------ assignment of factors to cliques
ASG = DICT(REF("JoinTreeCliqueNode"), SEQ(REF("BBNNode")))
sort(ASG)


def family_in(h, x, c):
    """all variables of the factor of node x are variables of clique c"""
    a = z3.Const("a!fi", Str)
    A = ARGS(h, h[FUNC][x])
    return FA(a, Imp(Mem(A, a), cnames(h, c)[a]), Mem(A, a))


def ac_req(c):
    jt, b, h = c.a["self"], c.a["bbn"], c.o
    x, k = z3.Const("x!ar", Ref), z3.Const("k!ar", Ref)
    return [("family-in-some-clique", FA(x, Imp(Mem(h["BBN.nodes"][b], x), EX(k, And(clique_nodes_of(c, h, jt, k), Subset(ToSet(ARGS(h, h[FUNC][x])), cnames(h, k))))), Mem(h["BBN.nodes"][b], x))),
            ("nodes-distinct", Distinct(h["BBN.nodes"][b])),
            ("clique-names-distinct", FA(k, Imp(clique_nodes_of(c, h, jt, k), names_inj(h[CN][h[CL][k]], h[VNF])), Mem(h[JTN][jt], k)))]


def ac_facts(c, D, upto=None):
    jt, b, h = c.a["self"], c.a["bbn"], c.o
    x, k, k2, j = z3.Const("x!af", Ref), z3.Const("k!af", Ref), z3.Const("k2!af", Ref), z3.Int("j!af")
    q = h["BBN.nodes"][b]
    inn = lambda kk, xx: And(Has(D, kk), Mem(Get(D, kk), xx))
    r = [("assigned-where-it-fits", FA([k, x], Imp(inn(k, x), And(Mem(q, x), Idx(q, x) < (Len(q) if upto is None else upto), clique_nodes_of(c, h, jt, k), Subset(ToSet(ARGS(h, h[FUNC][x])), cnames(h, k)))), Mem(Get(D, k), x))),
         ("assigned-once", FA([k, k2, x], Imp(And(inn(k, x), inn(k2, x)), k == k2), (Mem(Get(D, k), x), Mem(Get(D, k2), x)))),
         ("keys-are-cliques", FA(k, Imp(Has(D, k), clique_nodes_of(c, h, jt, k)), Has(D, k))),
         ("no-repeats", FA(k, Imp(Has(D, k), Distinct(Get(D, k))), Has(D, k), Get(D, k)))]
    if upto is None:
        r.append(("every-factor-assigned", FA(x, Imp(Mem(q, x), EX(k, inn(k, x))), Mem(q, x))))
    else:
        r.append(("every-factor-assigned", FA(j, Imp(And(0 <= j, j < upto), EX(k, inn(k, At(q, j)))), At(q, j))))
    return r


def ac_inv(lp):
    x = z3.Const("x!ai", Ref)
    asg = lp.v("assigned")
    return ac_facts(lp, lp.v("assignments_by_clique"), lp.i) + [
        ("assigned-set", FA(x, asg[x] == And(Mem(lp.S, x), Idx(lp.S, x) < lp.i), asg[x]))]


def ac_inv2(lp):
    D0, D = lp.e("assignments_by_clique"), lp.v("assignments_by_clique")
    a0, a = lp.e("assigned"), lp.v("assigned")
    n, c0 = lp.v("node"), At(lp.S, 0)
    old = If(Has(D0, c0), Get(D0, c0), th(SEQ(REF("BBNNode"))).empty)
    k, x = z3.Const("k!a2", Ref), z3.Const("x!a2", Ref)
    return [("first", Imp(lp.i == 0, And(D == D0, a == a0))),
            ("recorded", Imp(lp.i > 0, And(a == z3.Store(a0, n, True), Has(D, c0), Get(D, c0) == App(old, n)))),
            ("others-kept", Imp(lp.i > 0, FA(k, And(Imp(k != c0, And(Has(D, k) == Has(D0, k), Get(D, k) == Get(D0, k)))), Has(D, k), Get(D, k))))]


contract("JoinTree.assign_clusters", params={"self": REF("JoinTree"), "bbn": REF("BBN")}, ret=ASG, props=["C10", "C01", "C02"],
         requires=ac_req, ensures=lambda c: ac_facts(c, c.res),
         locals={"assignments_by_clique": ASG, "assigned": SET(REF("BBNNode")), "node": REF("BBNNode")},
         loops=[LoopSpec(ac_inv), LoopSpec(ac_inv2)])

# ------------------------------------------------------------------ potentials
EVAL = z3.Function("EVAL", Ref, sort(SEQ(VAL)), z3.RealSort())   # value of a factor (assumed a pure function)


def eval_call(eng, st, f, args, kws):
    if kws or len(args) != 1 or not (isinstance(args[0], PyObj) and args[0].kind == "star"):
        from engine import Unsupported
        raise Unsupported("call of a factor")
    sv = args[0].a[0]
    return V(REAL, EVAL(eng.term(st, f), eng.term(st, sv, SEQ(VAL))))


BUILTINS["call"] = eval_call
DS = sort(DOMT)
sort(SEQ(KEY)), sort(SEQ(SEQ(ENT)))
FULL = z3.Function("FULL", KS, SS, DS, z3.BoolSort())
_fk, _fX, _fD, _fj = z3.Const("k!fu", KS), z3.Const("X!fu", SS), z3.Const("D!fu", DS), z3.Int("j!fu")
_fw = z3.Function("FULL.w", KS, SS, DS, z3.IntSort())
domof = lambda D, v: If(Has(D, v), Get(D, v), TF)
_fi = _fw(_fk, _fX, _fD)
axiom("FULL.len", FA([_fk, _fX, _fD], Imp(FULL(_fk, _fX, _fD), Len(_fk) == Len(_fX)), FULL(_fk, _fX, _fD)))
axiom("FULL.use", FA([_fk, _fX, _fD, _fj], Imp(And(FULL(_fk, _fX, _fD), 0 <= _fj, _fj < Len(_fX)), And(P(At(_fk, _fj), 0) == At(_fX, _fj), domof(_fD, At(_fX, _fj))[P(At(_fk, _fj), 1)])), (FULL(_fk, _fX, _fD), At(_fk, _fj))))
axiom("FULL.def", FA([_fk, _fX, _fD], Or(FULL(_fk, _fX, _fD), Len(_fk) != Len(_fX), And(0 <= _fi, _fi < Len(_fX), Not(And(P(At(_fk, _fi), 0) == At(_fX, _fi), domof(_fD, At(_fX, _fi))[P(At(_fk, _fi), 1)])))), FULL(_fk, _fX, _fD)))


def vals_inv(lp):
    """one list of (variable, state) pairs per variable"""
    v, D = lp.v("vals"), lp.o["BBN.domains"][lp.a["bbn"]]
    j, x = z3.Int("j!va"), z3.Const("x!va", sort(ENT))
    return [("one-list-per-variable", Len(v) == lp.i),
            ("its-states", FA([j, x], Imp(And(0 <= j, j < lp.i), Mem(At(v, j), x) == And(P(x, 0) == At(lp.S, j), domof(D, At(lp.S, j))[P(x, 1)])), Mem(At(v, j), x)))]


def full_table(l, wrap, d, X, D, val):
    """d has exactly one entry per combination of states, with the given value"""
    k = z3.Const("k!ft", KS)
    return [(l + ":one-entry-per-combination-of-states", wrap(FA(k, Imp(Has(d, k), FULL(k, X, D)), Has(d, k)))),
            (l + ":every-combination", wrap(FA(k, Imp(FULL(k, X, D), Has(d, k)), FULL(k, X, D)))),
            (l, wrap(FA(k, Imp(Has(d, k), Get(d, k) == val(k)), Get(d, k), Has(d, k))))]


def nvn(eng, h, x):
    """the sorted variables of a clique or separator node"""
    return If(ISC(eng, x), cvn(h, x), svn(h, x))


# values passed to a factor: the states that entry k (over variables X) gives to the factor's arguments A
VS = sort(SEQ(VAL))
AV = z3.Function("AV", KS, SS, SS, VS)
_aA = z3.Const("A!av", SS)
axiom("AV.len", FA([_fk, _fX, _aA], Len(AV(_fk, _fX, _aA)) == Len(_aA), AV(_fk, _fX, _aA)))
axiom("AV.at", FA([_fk, _fX, _aA, _fj], Imp(And(0 <= _fj, _fj < Len(_aA)), At(AV(_fk, _fX, _aA), _fj) == P(At(_fk, Idx(_fX, At(_aA, _fj))), 1)), At(AV(_fk, _fX, _aA), _fj), (AV(_fk, _fX, _aA), At(_aA, _fj))))
# product of the values of the first n factors of q at entry k
RSeq = sort(SEQ(REF("X")))
RB, RSS = z3.ArraySort(Ref, z3.BoolSort()), z3.ArraySort(Ref, SS)
PP = z3.Function("PP", RSeq, z3.ArraySort(Ref, Ref), RSS, RB, KS, SS, z3.IntSort(), z3.RealSort())
_pq, _pf, _pa, _ph = z3.Const("q!pp", RSeq), z3.Const("f!pp", z3.ArraySort(Ref, Ref)), z3.Const("a!pp", RSS), z3.Const("h!pp", RB)
_pargs = (_pq, _pf, _pa, _ph, _fk, _fX)
_fof = _pf[At(_pq, _fj)]
axiom("PP.0", FA(list(_pargs), PP(*_pargs, 0) == 1, PP(*_pargs, 0)))
axiom("PP.S", FA(list(_pargs) + [_fj], Imp(_fj >= 0, PP(*_pargs, _fj + 1) == PP(*_pargs, _fj) * EVAL(_fof, AV(_fk, _fX, If(_ph[_fof], _pa[_fof], SIG(_fof))))), PP(*_pargs, _fj + 1)))


def pprod(h, q, k, X, n=None):
    return PP(q, h[FUNC], h[AS], h[HAS], k, X, Len(q) if n is None else n)


contract("UndirectedNode.variable_names", params={"self": REF("UndirectedNode")}, ret=SEQ(STR), trusted="virtual",
         note="dispatch to JoinTreeCliqueNode.variable_names or JoinTreeSepSetNode.variable_names",
         requires=lambda c: [("is-a-tree-node", Or(ISC(c.eng, c.a["self"]), ISS(c.eng, c.a["self"])))] +
         [(l, Imp(ISC(c.eng, c.a["self"]), f)) for l, f in C["JoinTreeCliqueNode.variable_names"].requires(c)] +
         [(l, Imp(ISS(c.eng, c.a["self"]), f)) for l, f in C["JoinTreeSepSetNode.variable_names"].requires(c)],
         ensures=lambda c: [(l, Imp(ISC(c.eng, c.a["self"]), f)) for l, f in C["JoinTreeCliqueNode.variable_names"].ensures(c)] +
         [(l, Imp(ISS(c.eng, c.a["self"]), f)) for l, f in C["JoinTreeSepSetNode.variable_names"].ensures(c)])


def tree_ok(c, h, jt):
    """every node of the tree is a clique or separator with distinct variables"""
    x = z3.Const("x!to", Ref)
    return [("nodes-are-cliques-or-separators", FA(x, Imp(Mem(h[JTN][jt], x), And(Or(ISC(c.eng, x), ISS(c.eng, x)),
             Imp(ISC(c.eng, x), names_inj(h[CN][h[CL][x]], h[VNF])),
             Imp(ISS(c.eng, x), And(*[f for _, f in sepset_ok(h, x)])))), Mem(h[JTN][jt], x))),
            ("tree-nodes-distinct", Distinct(h[JTN][jt]))]


def ip_req(c):
    jt, b, D, h = c.a["self"], c.a["bbn"], c.a["assignments"], c.o
    k, x = z3.Const("k!ip", Ref), z3.Const("x!ip", Ref)
    return tree_ok(c, h, jt) + [
        ("assigned-to-cliques", FA(k, Imp(Has(D, k), clique_nodes_of(c, h, jt, k)), Has(D, k))),
        ("assigned-where-it-fits", FA([k, x], Imp(And(Has(D, k), Mem(Get(D, k), x)), Subset(ToSet(ARGS(h, h[FUNC][x])), cnames(h, k))), Mem(Get(D, k), x)))]


def ones(k):
    return z3.RealVal(1)


def contradicts(h, k, q, ev, n=None):
    """entry k gives an observed variable of one of the nodes of q another state than observed"""
    j, p = z3.Int("j!co"), z3.Int("p!co")
    v = h[VNB][At(q, j)]
    return EX([j, p], And(0 <= j, j < (Len(q) if n is None else n), Has(ev, v), 0 <= p, p < Len(k), P(At(k, p), 0) == v, P(At(k, p), 1) != Get(ev, v)))


def ones_tables(l, c, o, h, D, sel):
    """every selected node holds a full table of ones over its variables"""
    x = z3.Const("x!ot", Ref)
    jt = c.a["self"]
    r = []
    for nm, isk, names in (("clique", ISC, cvn), ("separator", ISS, svn)):
        w = lambda f, isk=isk: FA(x, Imp(And(Mem(o[JTN][jt], x), isk(c.eng, x), sel(x)), f), Mem(o[JTN][jt], x))
        r += full_table(l + "-" + nm, w, h[PTT][x], names(o, x), D, ones)
    return r


def ip_tables(l, lp, h, sel, val):
    """every selected clique x holds the values val(k, factors of x) over its variables"""
    x, D = z3.Const("x!it", Ref), lp.a["assignments"]
    w = lambda f: FA(x, Imp(And(Has(D, x), sel(x)), f), Has(D, x))
    X = cvn(lp.o, x)
    return full_table(l, w, h[PTT][x], X, lp.o["BBN.domains"][lp.a["bbn"]], lambda k: val(lp, k, Get(D, x), X))


def v_done(lp, k, q, X):
    return pprod(lp.o, q, k, X)


def v_final(lp, k, q, X):
    """... with the entries that contradict the evidence set to zero"""
    return If(contradicts(lp.o, k, q, lp.a["evidence"]), z3.RealVal(0), pprod(lp.o, q, k, X))


def ip_rest(c, h):
    D = c.a["assignments"]
    return ones_tables("others-are-one", c, c.o, h, c.o["BBN.domains"][c.a["bbn"]], lambda x: Not(Has(D, x)))


TRU = lambda x: z3.BoolVal(True)


def ip_ens(c):
    return ip_rest(c, c.n) + ip_tables("products-of-factors-with-evidence", c, c.n, TRU, v_final)


def frame_ptt(lp, h):
    x = z3.Const("x!fp", Ref)
    return ("tables-outside-kept", FA(x, Imp(Not(Mem(lp.o[JTN][lp.a["self"]], x)), h[PTT][x] == lp.o[PTT][x]), h[PTT][x]))


def ip_l0(lp):
    h = lp.n
    return ones_tables("reset", lp, lp.o, h, lp.o["BBN.domains"][lp.a["bbn"]], lambda x: Idx(lp.S, x) < lp.i) + [frame_ptt(lp, h)]


def perm_inv(val):
    def inv(lp):
        tt, k, j = lp.v("tt"), z3.Const("k!pi", KS), z3.Int("j!pi")
        return [("entries", FA(k, Imp(Has(tt, k), And(Mem(lp.S, k), Idx(lp.S, k) < lp.i, Get(tt, k) == val(lp, k))), Has(tt, k), Get(tt, k))),
                ("all-entries", FA(k, Imp(And(Mem(lp.S, k), Idx(lp.S, k) < lp.i), Has(tt, k)), Has(tt, k), Mem(lp.S, k)))]
    return inv


def ip_l3(lp):
    h = lp.n
    return ip_rest(lp, h) + [frame_ptt(lp, h)] + ip_tables("products", lp, h, lambda x: Idx(lp.ks, x) < lp.i, v_done)


def prod_val(lp, k):
    cl, q = lp.v("clique"), lp.v("bbn_nodes")
    return pprod(lp.o, q, k, cvn(lp.o, cl))


def ip_states(lp, k, cl):
    """the states this entry gives to the variables of the clique"""
    y, X, av = z3.Const("y!is", Str), cvn(lp.o, cl), lp.v("argvals")
    return [("entry-is-full", FULL(k, X, lp.o["BBN.domains"][lp.a["bbn"]])),
            ("states-of-variables", FA(y, Imp(cnames(lp.o, cl)[y], And(Has(av, y), Get(av, y) == P(At(k, Idx(X, y)), 1))), Has(av, y), Get(av, y), Idx(X, y)))]


def ip_l6(lp):
    """product over the factors assigned to the clique, for one entry"""
    k, cl = lp.v("permutation"), lp.v("clique")
    return ip_states(lp, k, cl) + [("partial-product", lp.v("potential") == pprod(lp.o, lp.S, k, cvn(lp.o, cl), lp.i))]


def ip_l7(lp):
    """arguments of one factor, in its own order"""
    k, cl, al = lp.v("permutation"), lp.v("clique"), lp.v("arg_list")
    j = z3.Int("j!l7")
    return [("length", Len(al) == lp.i),
            ("values", FA(j, Imp(And(0 <= j, j < lp.i), At(al, j) == P(At(k, Idx(cvn(lp.o, cl), At(lp.S, j))), 1)), At(al, j))),
            ("arguments", Imp(lp.i == Len(lp.S), SeqEq(al, AV(k, cvn(lp.o, cl), lp.S))))]


def ip_e0(lp):
    h = lp.n
    return ip_rest(lp, h) + [frame_ptt(lp, h)] + ip_tables("zeroed", lp, h, lambda x: Idx(lp.ks, x) < lp.i, v_final) + ip_tables("not-yet", lp, h, lambda x: Idx(lp.ks, x) >= lp.i, v_done)


def ip_tab(l, lp, h, cl, val):
    X = cvn(lp.o, cl)
    return full_table(l, lambda f: f, h[PTT][cl], X, lp.o["BBN.domains"][lp.a["bbn"]], val)


def others_kept(lp, cl):
    x = z3.Const("x!ok", Ref)
    return ("other-tables-kept", FA(x, Imp(x != cl, lp.n[PTT][x] == lp.h0[PTT][x]), lp.n[PTT][x]))


def ip_e1(lp):
    cl, X = lp.v("clique"), cvn(lp.o, lp.v("clique"))
    ev, q = lp.a["evidence"], lp.S
    return ip_tab("zeroed-so-far", lp, lp.n, cl, lambda k: If(contradicts(lp.o, k, q, ev, lp.i), z3.RealVal(0), pprod(lp.o, q, k, X))) + [others_kept(lp, cl)]


def ip_bad(lp, k, v, ev, n=None):
    p = z3.Int("p!ib")
    return EX(p, And(0 <= p, p < (Len(k) if n is None else n), P(At(k, p), 0) == v, P(At(k, p), 1) != Get(ev, v)))


def ip_e2(lp):
    cl, ev, v = lp.v("clique"), lp.a["evidence"], lp.o[VNB][lp.v("node")]
    d0 = lp.h0[PTT][cl]
    k = z3.Const("k!e2", KS)
    d = lp.n[PTT][cl]
    return [("same-keys", FA(k, Has(d, k) == Has(d0, k), Has(d, k), Has(d0, k))),
            ("zeroed", FA(k, Imp(Has(d, k), Get(d, k) == If(And(Idx(lp.ks, k) < lp.i, ip_bad(lp, k, v, ev)), 0, Get(d0, k))), Get(d, k), Has(d, k))), others_kept(lp, cl)]


def ip_e3(lp):
    cl, ev, v, kk = lp.v("clique"), lp.a["evidence"], lp.o[VNB][lp.v("node")], lp.v("k")
    d0, d = lp.h0[PTT][cl], lp.n[PTT][cl]
    k = z3.Const("k!e3", KS)
    return [("same-keys", FA(k, Has(d, k) == Has(d0, k), Has(d, k), Has(d0, k))),
            ("zeroed", FA(k, Imp(Has(d, k), Get(d, k) == If(And(k == kk, ip_bad(lp, k, v, ev, lp.i)), 0, Get(d0, k))), Get(d, k), Has(d, k))), others_kept(lp, cl)]


contract("JoinTree.initialize_potentials", params={"self": REF("JoinTree"), "assignments": ASG, "bbn": REF("BBN"), "evidence": EVT}, ret=NONE, props=["C10", "C01", "C02"],
         requires=ip_req, ensures=ip_ens,
         modifies=[(PTT, lambda c, x: Mem(c.o[JTN][c.a["self"]], x)), ("BBNNode.clique", lambda c, x: z3.BoolVal(True))],
         locals={"tt": TT, "vals": SEQ(SEQ(ENT)), "clique": REF("JoinTreeCliqueNode"), "bbn_nodes": SEQ(REF("BBNNode")), "permutation": KEY, "potential": REAL, "arg_list": SEQ(VAL), "node": REF("X"), "k": KEY},
         loops=[LoopSpec(ip_l0), LoopSpec(vals_inv), LoopSpec(perm_inv(lambda lp, k: z3.RealVal(1))),
                LoopSpec(ip_l3), LoopSpec(vals_inv), LoopSpec(perm_inv(prod_val)), LoopSpec(ip_l6), LoopSpec(ip_l7),
                LoopSpec(ip_e0), LoopSpec(ip_e1), LoopSpec(ip_e2), LoopSpec(ip_e3)])

LIK = DICT(PAIR(STR, VAL), INT)


def il_inv(lp):
    L, D, h, b = lp.v("likelihood"), lp.a["assignments"], lp.o, lp.a["bbn"]
    p = z3.Const("p!il", sort(PAIR(STR, VAL)))
    return [("ones", FA(p, Imp(Has(L, p), Get(L, p) == 1), Has(L, p), Get(L, p)))]


contract("JoinTree.initial_likelihoods", params={"self": REF("JoinTree"), "assignments": ASG, "bbn": REF("BBN")}, ret=LIK, props=["C10"],
         locals={"likelihood": LIK}, ensures=lambda c: [("ones", FA(z3.Const("p!il", sort(PAIR(STR, VAL))), Imp(Has(c.res, z3.Const("p!il", sort(PAIR(STR, VAL)))), Get(c.res, z3.Const("p!il", sort(PAIR(STR, VAL)))) == 1), Has(c.res, z3.Const("p!il", sort(PAIR(STR, VAL))))))],
         loops=[LoopSpec(il_inv), LoopSpec(il_inv), LoopSpec(il_inv)])
