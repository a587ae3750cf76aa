"""Contracts for causalnex/ebaybbn (the exact-inference engine)."""
import z3
from theory import *
from engine import Contract, LoopSpec, Program, V, H, PyTuple, PyObj, NONEV

MODULES = {"bbn": "causalnex/ebaybbn/bbn.py", "graph": "causalnex/ebaybbn/graph.py", "utils": "causalnex/ebaybbn/utils.py",
           "exceptions": "causalnex/ebaybbn/exceptions.py"}

ENT = PAIR(STR, VAL)          # one (variable, value) pair
KEY = SEQ(ENT)                # key of a potential table
TT = DICT(KEY, REAL)          # potential table
FN = REF("function")

FIELDS = {
    "HasArgs": {"argspec": SEQ(STR), "?argspec": BOOL},
    "function": {"__name__": STR, "_domain": SET(VAL), "argspec": "@HasArgs.argspec", "?argspec": "@HasArgs.?argspec"},
    "Node": {"name": STR, "parents": SEQ(REF("BBNNode")), "children": SEQ(REF("BBNNode"))},
    "BBNNode": {"func": FN, "argspec": "@HasArgs.argspec", "?argspec": "@HasArgs.?argspec", "variable_name": STR,
                "clique": REF("JoinTreeCliqueNode")},
    "BBN": {"nodes": SEQ(REF("BBNNode")), "vars_to_nodes": DICT(STR, REF("BBNNode")), "domains": DICT(STR, SET(VAL))},
    "UndirectedNode": {"name": STR, "neighbours": SEQ(REF("UndirectedNode")), "func": FN, "argspec": SEQ(STR),
                       "variable_name": STR, "potential_tt": TT, "potential_tt_old": TT, "marked": BOOL},
    "UndirectedGraph": {"nodes": SEQ(REF("UndirectedNode"))},
    "JoinTree": {},
    "JoinTreeCliqueNode": {"clique": REF("Clique")},
    "JoinTreeSepSetNode": {"sepset": REF("SepSet")},
    "Clique": {"nodes": SET(REF("UndirectedNode")), "node": REF("JoinTreeCliqueNode")},
    "SepSet": {"X": REF("Clique"), "Y": REF("Clique"), "label": SEQ(REF("UndirectedNode"))},
}
BASES = {"function": ["HasArgs"]}
for t in (ENT, KEY, TT, SEQ(STR), SET(VAL), SET(STR), SET(REF("X")), SEQ(REF("X")), SEQ(KEY), SEQ(VAL)):
    sort(t)

C = {}


def contract(name, **k):
    C[name] = Contract(name, **k)
    return C[name]


# ------------------------------------------------------------------ spec functions
KS, SS = sort(KEY), sort(SEQ(STR))
TR = z3.Function("TR", KS, SS, SS, KS)
_x, _r = z3.Const("x!TR", KS), z3.Consts("X!TR R!TR", SS)
_j = z3.Int("j!TR")
axiom("TR.len", FA([_x] + _r, Len(TR(_x, *_r)) == Len(_r[1]), TR(_x, *_r)))
axiom("TR.at", FA([_x] + _r + [_j], Imp(And(0 <= _j, _j < Len(_r[1])), At(TR(_x, *_r), _j) == At(_x, Idx(_r[0], At(_r[1], _j)))), At(TR(_x, *_r), _j), (TR(_x, *_r), At(_r[1], _j))))


def transform_post(c):
    return [("result-is-projection", c.res == TR(c.a["x"], c.a["X"], c.a["R"]))]


def transform_inv(lp):
    e = lp.v("entry")
    j = z3.Int("j!ti")
    x, X, R = lp.a["x"], lp.a["X"], lp.a["R"]
    return [("length", Len(e) == lp.i),
            ("content", FA(j, Imp(And(0 <= j, j < lp.i), At(e, j) == At(x, Idx(X, At(R, j)))), At(e, j)))]


def transform_post_direct(c):
    t = TR(c.a["x"], c.a["X"], c.a["R"])
    return [("result-is-projection", SeqEq(c.res, t))]


contract("transform", params={"x": KEY, "X": SEQ(STR), "R": SEQ(STR)}, ret=KEY, locals={"entry": KEY}, props=["C11"],
         requires=lambda c: [("len", Len(c.a["x"]) == Len(c.a["X"])),
                             ("subset", FA(z3.Const("r!ts", Str), Imp(Mem(c.a["R"], z3.Const("r!ts", Str)), Mem(c.a["X"], z3.Const("r!ts", Str))), Mem(c.a["R"], z3.Const("r!ts", Str))))],
         ensures=transform_post_direct, loops=[LoopSpec(transform_inv)])

# ------------------------------------------------------------------ names of a set of nodes
RefSet = z3.ArraySort(Ref, z3.BoolSort())
RefStr = z3.ArraySort(Ref, Str)
StrSet = z3.ArraySort(Str, z3.BoolSort())
NAMES = z3.Function("NAMES", RefSet, RefStr, StrSet)
_nw = z3.Function("NAMES.wit", RefSet, RefStr, Str, Ref)
_S, _f, _y, _n = z3.Const("S!nm", RefSet), z3.Const("f!nm", RefStr), z3.Const("y!nm", Str), z3.Const("n!nm", Ref)
axiom("NAMES.in", FA([_S, _f, _n], Imp(_S[_n], NAMES(_S, _f)[_f[_n]]), (NAMES(_S, _f), _S[_n])))
axiom("NAMES.out", FA([_S, _f, _y], Imp(NAMES(_S, _f)[_y], And(_S[_nw(_S, _f, _y)], _f[_nw(_S, _f, _y)] == _y)), NAMES(_S, _f)[_y]))

VNF = "UndirectedNode.variable_name"


def cnames(h, c):
    """variables of a clique node"""
    return NAMES(h["Clique.nodes"][h["JoinTreeCliqueNode.clique"][c]], h[VNF])


def snames(h, s):
    """variables of a sepset node"""
    return NAMES(ToSet(h["SepSet.label"][h["JoinTreeSepSetNode.sepset"][s]]), h[VNF])


def names_inj(S, vn):
    a, b = z3.Consts("a!inj b!inj", Ref)
    return FA([a, b], Imp(And(S[a], S[b], vn[a] == vn[b]), a == b), (S[a], S[b]))


def cvn(h, c):
    return SrtSet(cnames(h, c))


def svn(h, s):
    return SrtSet(snames(h, s))


def vn_inv(lp):
    v = lp.v("var_names")
    y, j = z3.Const("y!vi", Str), z3.Int("j!vi")
    vn = lp.n[VNF]
    return [("collected", FA(y, Mem(v, y) == EX(j, And(0 <= j, j < lp.i, vn[At(lp.S, j)] == y)), Mem(v, y))),
            ("fwd", FA(j, Imp(And(0 <= j, j < lp.i), Mem(v, vn[At(lp.S, j)])), At(lp.S, j))),
            ("distinct", Distinct(v))]


contract("JoinTreeCliqueNode.variable_names", params={"self": REF("JoinTreeCliqueNode")}, ret=SEQ(STR), locals={"var_names": SEQ(STR)},
         requires=lambda c: [("distinct-names", names_inj(c.o["Clique.nodes"][c.o["JoinTreeCliqueNode.clique"][c.a["self"]]], c.o[VNF]))],
         ensures=lambda c: [("same-variables", ToSet(c.res) == cnames(c.o, c.a["self"])), ("sorted-variables", c.res == cvn(c.o, c.a["self"]))],
         loops=[LoopSpec(vn_inv)])

contract("JoinTreeSepSetNode.variable_names", params={"self": REF("JoinTreeSepSetNode")}, ret=SEQ(STR),
         requires=lambda c: [("distinct-names", names_inj(ToSet(c.o["SepSet.label"][c.o["JoinTreeSepSetNode.sepset"][c.a["self"]]]), c.o[VNF])),
                             ("distinct-label", Distinct(c.o["SepSet.label"][c.o["JoinTreeSepSetNode.sepset"][c.a["self"]]]))],
         ensures=lambda c: [("same-variables", ToSet(c.res) == snames(c.o, c.a["self"])), ("sorted-variables", c.res == svn(c.o, c.a["self"]))])

# ------------------------------------------------------------------ grouped sums over a potential table
KSeqS = sort(SEQ(KEY))
KeySet = z3.ArraySort(KS, z3.BoolSort())
KeyReal = z3.ArraySort(KS, z3.RealSort())
# PS(q, V, X, R, e, n): sum of V[q[j]] over j < n with TR(q[j], X, R) == e
PS = z3.Function("PS", KSeqS, KeyReal, SS, SS, KS, z3.IntSort(), z3.RealSort())
# GS(D, V, X, R, e): the same sum over the finite set D
GS = z3.Function("GS", KeySet, KeyReal, SS, SS, KS, z3.RealSort())
_q, _V, _X, _R, _e, _m, _D = z3.Const("q!ps", KSeqS), z3.Const("V!ps", KeyReal), z3.Const("X!ps", SS), z3.Const("R!ps", SS), z3.Const("e!ps", KS), z3.Int("n!ps"), z3.Const("D!ps", KeySet)
axiom("PS.0", FA([_q, _V, _X, _R, _e], PS(_q, _V, _X, _R, _e, 0) == 0, PS(_q, _V, _X, _R, _e, 0)))
# unrolled at an index written n + 1 (the loop index of the next iteration)
axiom("PS.S", FA([_q, _V, _X, _R, _e, _m], Imp(_m >= 0, PS(_q, _V, _X, _R, _e, _m + 1) == PS(_q, _V, _X, _R, _e, _m) + If(TR(At(_q, _m), _X, _R) == _e, _V[At(_q, _m)], 0)), PS(_q, _V, _X, _R, _e, _m + 1)))
axiom("GS.enum", FA([_q, _D, _V, _X, _R, _e, _m], Imp(And(enumerates(_q, _D), _m == Len(_q)), PS(_q, _V, _X, _R, _e, _m) == GS(_D, _V, _X, _R, _e)), (enumerates(_q, _D), PS(_q, _V, _X, _R, _e, _m))))


def gsum(d, X, R, e):
    return GS(Dom(d), Vals(d), X, R, e)


def grouped(tt, d, X, R):
    """tt is the marginalisation of table d from variables X to variables R: its keys are exactly the
    projections of d's keys and every entry is the sum of the entries projecting to it"""
    e, k = z3.Const("e!gr", KS), z3.Const("k!gr", KS)
    return [("keys-are-projections", FA(e, Imp(Has(tt, e), EX(k, And(Has(d, k), TR(k, X, R) == e))), Has(tt, e))),
            ("projections-are-keys", FA(k, Imp(Has(d, k), Has(tt, TR(k, X, R))), Has(d, k))),
            ("entries-are-sums", FA(e, Imp(Has(tt, e), Get(tt, e) == gsum(d, X, R, e)), Get(tt, e), Has(tt, e)))]


def grouped_inv(lp, tt, d, X, R):
    e, j = z3.Const("e!gi", KS), z3.Int("j!gi")
    q, V = lp.ks, Vals(d)
    return [("keys-seen", FA(e, Imp(Has(tt, e), EX(j, And(0 <= j, j < lp.i, TR(At(q, j), X, R) == e))), Has(tt, e))),
            ("keys-all", FA(j, Imp(And(0 <= j, j < lp.i), Has(tt, TR(At(q, j), X, R))), At(q, j))),
            ("partial-sums", FA(e, If(Has(tt, e), Get(tt, e), 0) == PS(q, V, X, R, e, lp.i), Has(tt, e), Get(tt, e), PS(q, V, X, R, e, lp.i)))]


PTT = "UndirectedNode.potential_tt"
PTO = "UndirectedNode.potential_tt_old"
NB = "UndirectedNode.neighbours"


def keylen(d, X):
    k = z3.Const("k!kl", KS)
    return FA(k, Imp(Has(d, k), Len(k) == Len(X)), Has(d, k))


def sub_seq(R, X):
    r = z3.Const("r!ss", Str)
    return FA(r, Imp(Mem(R, r), Mem(X, r)), Mem(R, r))


def clique_ok(h, c):
    """a clique node: its variables are distinct by name and its table is over them"""
    return [("clique-names-distinct", names_inj(h["Clique.nodes"][h["JoinTreeCliqueNode.clique"][c]], h[VNF])),
            ("clique-keys", keylen(h[PTT][c], cvn(h, c)))]


def sepset_ok(h, s):
    l = h["SepSet.label"][h["JoinTreeSepSetNode.sepset"][s]]
    return [("sepset-names-distinct", names_inj(ToSet(l), h[VNF])), ("sepset-label-distinct", Distinct(l))]


def project_req(c):
    me, s = c.a["self"], c.a["sepset_node"]
    r = [("adjacent", Mem(c.o[NB][me], s)), ("distinct-objects", me != s)]
    r += clique_ok(c.o, me) + sepset_ok(c.o, s)
    r += [("sepset-within-clique", sub_seq(svn(c.o, s), cvn(c.o, me)))]
    return r


def project_ens(c):
    me, s = c.a["self"], c.a["sepset_node"]
    return [("old-potential-kept", c.n[PTO][s] == c.o[PTT][s])] + grouped(c.n[PTT][s], c.o[PTT][me], cvn(c.o, me), svn(c.o, s))


contract("JoinTreeCliqueNode.project", params={"self": REF("JoinTreeCliqueNode"), "sepset_node": REF("JoinTreeSepSetNode")}, ret=NONE,
         locals={"tt": TT}, requires=project_req, ensures=project_ens,
         modifies=[(PTT, lambda c, x: x == c.a["sepset_node"]), (PTO, lambda c, x: x == c.a["sepset_node"])],
         loops=[LoopSpec(lambda lp: grouped_inv(lp, lp.v("tt"), lp.o[PTT][lp.a["self"]], cvn(lp.o, lp.a["self"]), svn(lp.o, lp.a["sepset_node"])))])


def absorbed(h, tt, s, t, new, old):
    """entry rule of an absorption: 0 stays 0, otherwise multiply by new/old of the projected entry"""
    def val(k):
        e = TR(k, cvn(h, t), svn(h, s))
        return If(Get(tt, k) == 0, z3.RealVal(0), Get(tt, k) * (Get(new, e) / Get(old, e)))
    return val


def absorb_req(c):
    s, t = c.a["sepset"], c.a["target"]
    k = z3.Const("k!ar", KS)
    e = TR(k, cvn(c.o, t), svn(c.o, s))
    tt = c.o[PTT][t]
    return clique_ok(c.o, t) + sepset_ok(c.o, s) + [
        ("distinct-objects", s != t),
        ("sepset-within-clique", sub_seq(svn(c.o, s), cvn(c.o, t))),
        ("support", FA(k, Imp(And(Has(tt, k), Get(tt, k) != 0), And(Has(c.o[PTT][s], e), Has(c.o[PTO][s], e), Get(c.o[PTO][s], e) != 0)), Has(tt, k)))]


def absorb_ens(c):
    s, t = c.a["sepset"], c.a["target"]
    tt, nt = c.o[PTT][t], c.n[PTT][t]
    val = absorbed(c.o, tt, s, t, c.o[PTT][s], c.o[PTO][s])
    k = z3.Const("k!ae", KS)
    return [("same-keys", FA(k, Has(nt, k) == Has(tt, k), Has(nt, k), Has(tt, k))),
            ("entries-updated", FA(k, Imp(Has(tt, k), Get(nt, k) == val(k)), Get(nt, k)))]


def absorb_inv(lp):
    tt, t, s = lp.v("tt"), lp.a["target"], lp.a["sepset"]
    src = lp.o[PTT][t]
    val = absorbed(lp.o, src, s, t, lp.o[PTT][s], lp.o[PTO][s])
    k, j = z3.Const("k!ai", KS), z3.Int("j!ai")
    q = lp.ks
    return [("keys", FA(k, Has(tt, k) == EX(j, And(0 <= j, j < lp.i, At(q, j) == k)), Has(tt, k))),
            ("keys-fwd", FA(j, Imp(And(0 <= j, j < lp.i), Has(tt, At(q, j))), At(q, j))),
            ("entries", FA(k, Imp(Has(tt, k), Get(tt, k) == val(k)), Get(tt, k), Has(tt, k)))]


contract("JoinTreeCliqueNode.absorb", params={"self": REF("JoinTreeCliqueNode"), "sepset": REF("JoinTreeSepSetNode"), "target": REF("JoinTreeCliqueNode")}, ret=NONE,
         locals={"tt": TT}, requires=absorb_req, ensures=absorb_ens, modifies=[(PTT, lambda c, x: x == c.a["target"])],
         loops=[LoopSpec(absorb_inv)])

# ------------------------------------------------------------------ factors and their arguments
FROZEN = {"HasArgs.argspec", "function._domain", "BBN.domains", "BBN.vars_to_nodes", "UndirectedNode.argspec"}
AS, HAS = "HasArgs.argspec", "HasArgs.?argspec"
SIG = z3.Function("SIG", Ref, SS)      # parameter names of a plain Python function (inspect.signature)
BUILTINS = {}


def sig_builtin(eng, st, args, kws, node, mod):
    f = eng.term(st, args[0])
    return PyObj("record", parameters=V(SEQ(STR), SIG(f)))


BUILTINS["inspect.signature"] = sig_builtin


def ARGS(h, f):
    """the argument names of a factor"""
    return If(h[HAS][f], h[AS][f], SIG(f))


contract("get_args", params={"func": REF("HasArgs")}, ret=SEQ(STR), ret_borrowed=True, props=["C05"],
         ensures=lambda c: [("argument-names", c.res == ARGS(c.o, c.a["func"]))])

contract("connect", params={"parent": REF("Node"), "child": REF("Node")}, ret=NONE, props=["C05"],
         modifies=[("Node.children", lambda c, x: x == c.a["parent"]), ("Node.parents", lambda c, x: x == c.a["child"])],
         ensures=lambda c: [("child-recorded", c.n["Node.children"][c.a["parent"]] == App(c.o["Node.children"][c.a["parent"]], c.a["child"])),
                            ("parent-recorded", c.n["Node.parents"][c.a["child"]] == App(c.o["Node.parents"][c.a["child"]], c.a["parent"]))])

# ------------------------------------------------------------------ which factor introduces which variable
# "var" maps a factor to the variable it introduces, "own" back, "rank" is a topological rank
OWNS = z3.ArraySort(Str, Ref)
RANKS = z3.ArraySort(Str, z3.IntSort())
axiom("NAMES.card", FA([z3.Const("q!nc", sort(SEQ(REF("X")))), _f], Card(NAMES(ToSet(z3.Const("q!nc", sort(SEQ(REF("X"))))), _f)) <= Len(z3.Const("q!nc", sort(SEQ(REF("X"))))),
      NAMES(ToSet(z3.Const("q!nc", sort(SEQ(REF("X"))))), _f)), ["NAMES", "card.Str", "toset.Seq_Ref_"])
INJ = z3.Function("INJ", RefSet, RefStr, z3.BoolSort())
_w1, _w2 = z3.Function("INJ.w1", RefSet, RefStr, Ref), z3.Function("INJ.w2", RefSet, RefStr, Ref)
_i1, _i2 = _w1(_S, _f), _w2(_S, _f)
axiom("INJ.def", FA([_S, _f], Or(INJ(_S, _f), And(_S[_i1], _S[_i2], _i1 != _i2, _f[_i1] == _f[_i2])), INJ(_S, _f)))
_qn = z3.Const("q!nc", sort(SEQ(REF("X"))))
axiom("NAMES.card2", FA([_qn, _f], Imp(And(Distinct(_qn), INJ(ToSet(_qn), _f)), Card(NAMES(ToSet(_qn), _f)) == Len(_qn)), NAMES(ToSet(_qn), _f)), ["NAMES", "card.Str", "toset.Seq_Ref_"])
# every non-empty set of variables has an element of least rank (rank >= 0)
ARGMIN = z3.Function("ARGMIN", StrSet, RANKS, Str)
_rk, _sy = z3.Const("rk!am", RANKS), z3.Const("S!am", StrSet)
axiom("ARGMIN", FA([_sy, _rk, _y], Imp(And(_sy[_y], _rk[_y] >= 0), And(_sy[ARGMIN(_sy, _rk)], _rk[ARGMIN(_sy, _rk)] <= _rk[_y])), (ARGMIN(_sy, _rk), _sy[_y])))
axiom("ARGMIN2", FA([_sy, _rk, _y], Imp(_sy[_y], Or(_rk[_y] < 0, _sy[ARGMIN(_sy, _rk)])), (ARGMIN(_sy, _rk), _sy[_y])))


def bn_factors(h, factors, var, own, rank):
    """the factors form a Bayesian network: each introduces one variable, and takes as other arguments
    variables introduced by factors of smaller rank"""
    f, a = z3.Const("f!bn", Ref), z3.Const("a!bn", Str)
    A = ARGS(h, f)
    return [("factors-distinct", Distinct(factors)),
            ("introduces", FA(f, Imp(Mem(factors, f), And(Mem(A, var[f]), Distinct(A), own[var[f]] == f, rank[var[f]] >= 0)), Mem(factors, f))),
            ("arguments-introduced", FA([f, a], Imp(And(Mem(factors, f), Mem(A, a)), And(Mem(factors, own[a]), var[own[a]] == a, Imp(a != var[f], rank[a] < rank[var[f]]))), (Mem(factors, f), Mem(h[AS][f], a)), (Mem(factors, f), Mem(SIG(f), a))))]


def gof_inv(lp):
    of, F = lp.v("original_factors"), lp.a["factors"]
    var, own = lp.a["$var"], lp.a["$own"]
    v, a = z3.Const("v!go", Str), z3.Const("a!go", Str)
    return [("introduced-by-owner", FA(v, Imp(Has(of, v), And(Mem(F, own[v]), var[own[v]] == v, Get(of, v) == own[v])), Has(of, v), Get(of, v))),
            ("arguments-accounted", FA([v, a], Imp(And(Has(of, v), Mem(ARGS(lp.o, own[v]), a)), Has(of, a)), (Has(of, v), Mem(lp.o[AS][own[v]], a)), (Has(of, v), Mem(SIG(own[v]), a)))),
            ("within", Subset(Dom(of), NAMES(ToSet(F), var)))]


def gof_unacc(lp, of):
    return Diff(NAMES(ToSet(lp.a["factors"]), lp.a["$var"]), Dom(of))


def gof_inv2(lp):
    of0, of = lp.e("original_factors"), lp.v("original_factors")
    m = ARGMIN(gof_unacc(lp, of0), lp.a["$rank"])
    own, F = lp.a["$own"], lp.a["factors"]
    v = z3.Const("v!g2", Str)
    return gof_inv(lp) + [("grows", Subset(Dom(of0), Dom(of))),
                          ("least-rank-accounted", Imp(And(gof_unacc(lp, of0)[m], Idx(F, own[m]) < lp.i), Has(of, m)))]


contract("get_original_factors", params={"factors": SEQ(REF("HasArgs"))}, ret=DICT(STR, REF("BBNNode")), props=["C05"],
         ghosts={"var": RefStr, "own": OWNS, "rank": RANKS},
         requires=lambda c: bn_factors(c.o, c.a["factors"], c.a["$var"], c.a["$own"], c.a["$rank"]),
         ensures=lambda c: [("every-factor-listed", FA(_n, Imp(Mem(c.a["factors"], _n), And(Has(c.res, c.a["$var"][_n]), Get(c.res, c.a["$var"][_n]) == _n)), Mem(c.a["factors"], _n))),
                            ("one-entry-per-factor", Dom(c.res) == NAMES(ToSet(c.a["factors"]), c.a["$var"])),
                            ("introducing-factor", FA(_y, Imp(Has(c.res, _y), And(Mem(c.a["factors"], Get(c.res, _y)), c.a["$var"][Get(c.res, _y)] == _y, Get(c.res, _y) == c.a["$own"][_y])), Has(c.res, _y), Get(c.res, _y)))],
         locals={"original_factors": DICT(STR, REF("BBNNode"))},
         loops=[LoopSpec(gof_inv, decreases=lambda lp: Len(lp.a["factors"]) - Card(Dom(lp.v("original_factors")))), LoopSpec(gof_inv2)])

# ------------------------------------------------------------------ BBN construction
from engine import define_array
VNB, PAR, CHI, FUNC = "BBNNode.variable_name", "Node.parents", "Node.children", "BBNNode.func"
DREF = DICT(STR, REF("BBNNode"))
NAMEF = "function.__name__"


def inj_dict(d):
    k1, k2 = z3.Consts("k1!ij k2!ij", Str)
    return FA([k1, k2], Imp(And(Has(d, k1), Has(d, k2), Get(d, k1) == Get(d, k2)), k1 == k2), (Get(d, k1), Get(d, k2)))


def values_of(q, d):
    """q lists every value of d once"""
    n, k = z3.Const("n!vo", Ref), z3.Const("k!vo", Str)
    return [("nodes-distinct", Distinct(q)),
            ("nodes-from-index", FA(n, Imp(Mem(q, n), EX(k, And(Has(d, k), Get(d, k) == n))), Mem(q, n))),
            ("nodes-in-index", FA(k, Imp(Has(d, k), Mem(q, Get(d, k))), Has(d, k)))]


def bbninit_ens(c):
    me, d = c.a["self"], c.a["nodes_dict"]
    k = z3.Const("k!bi", Str)
    return values_of(c.n["BBN.nodes"][me], d) + [
        ("index-kept", c.n["BBN.vars_to_nodes"][me] == d), ("domains-kept", c.n["BBN.domains"][me] == c.a["domains"]),
        ("variables-recorded", FA(k, Imp(Has(d, k), c.n[VNB][Get(d, k)] == k), Has(d, k)))]


def bbninit_inv(lp):
    d = lp.a["nodes_dict"]
    j, x = z3.Int("j!bn"), z3.Const("x!bn", Ref)
    return [("recorded", FA(j, Imp(And(0 <= j, j < lp.i), lp.n[VNB][Get(d, P(At(lp.S, j), 0))] == P(At(lp.S, j), 0)), At(lp.S, j))),
            ("others-kept", FA(x, Imp(Not(EX(_y, And(Has(d, _y), Get(d, _y) == x))), lp.n[VNB][x] == lp.h0[VNB][x]), lp.n[VNB][x]))]


contract("BBN.__init__", params={"self": REF("BBN"), "nodes_dict": DREF, "domains": DICT(STR, SET(VAL))}, ret=NONE, props=["C05"],
         requires=lambda c: [("one-node-per-variable", inj_dict(c.a["nodes_dict"]))],
         ensures=bbninit_ens, moves={"nodes_dict": lambda c: (c.a["self"], "BBN.vars_to_nodes"), "domains": lambda c: (c.a["self"], "BBN.domains")},
         modifies=[("BBN.nodes", lambda c, x: x == c.a["self"]), ("BBN.vars_to_nodes", lambda c, x: x == c.a["self"]), ("BBN.domains", lambda c, x: x == c.a["self"]),
                   (VNB, lambda c, x: EX(_y, And(Has(c.a["nodes_dict"], _y), Get(c.a["nodes_dict"], _y) == x)))],
         loops=[LoopSpec(bbninit_inv)])

FSEQ = SEQ(FN)
COMPF = z3.ArraySort(Ref, Ref)


def node_is(h, x, p, var):
    """p is a parent of x by x's argument list: p introduces an argument of x other than x's own variable"""
    return And(Mem(ARGS(h, h[FUNC][x]), var[h[FUNC][p]]), p != x)


def bn_nodes(h, q, F, var):
    """the nodes q carry the factors F, one each, and have their argument lists"""
    x, j, y = z3.Const("x!bq", Ref), z3.Int("j!bq"), z3.Const("y!bq", Ref)
    return [("node-per-factor", FA(x, Imp(Mem(q, x), And(Mem(F, h[FUNC][x]), h[AS][x] == ARGS(h, h[FUNC][x]), h[HAS][x])), Mem(q, x))),
            ("factor-has-node", FA(y, Imp(Mem(F, y), EX(x, And(Mem(q, x), h[FUNC][x] == y))), Mem(F, y))),
            ("one-node-each", FA([x, y], Imp(And(Mem(q, x), Mem(q, y), h[FUNC][x] == h[FUNC][y]), x == y), (Mem(q, x), Mem(q, y))))]


def bn_edges(h, q, var):
    x, p = z3.Const("x!be", Ref), z3.Const("p!be", Ref)
    return [("parents-are-arguments", FA([x, p], Imp(And(Mem(q, x), Mem(h[PAR][x], p)), And(Mem(q, p), node_is(h, x, p, var))), (Mem(q, x), Mem(h[PAR][x], p)))),
            ("arguments-are-parents", FA([x, p], Imp(And(Mem(q, x), Mem(q, p), node_is(h, x, p, var)), Mem(h[PAR][x], p)), (Mem(q, x), Mem(q, p)))),
            ("children-have-parent", FA([x, p], Imp(And(Mem(q, p), Mem(h[CHI][p], x)), And(Mem(q, x), Mem(h[PAR][x], p))), (Mem(q, p), Mem(h[CHI][p], x)))),
            ("parents-have-child", FA([x, p], Imp(And(Mem(q, x), Mem(h[PAR][x], p)), Mem(h[CHI][p], x)), (Mem(q, x), Mem(h[PAR][x], p)))),
            ("no-repeated-edge", FA(x, Imp(Mem(q, x), And(Distinct(h[PAR][x]), Distinct(h[CHI][x]))), Mem(q, x)))]


def bb_factors(c):
    return c.a["args"]


def bb_req(c):
    F = bb_factors(c)
    f, g = z3.Const("f!br", Ref), z3.Const("g!br", Ref)
    return bn_factors(c.o, F, c.a["$var"], c.a["$own"], c.a["$rank"]) + [
        ("some-factor", Len(F) > 0),
        ("names-distinct", FA([f, g], Imp(And(Mem(F, f), Mem(F, g), c.o[NAMEF][f] == c.o[NAMEF][g]), f == g), (Mem(F, f), Mem(F, g))))]


def bb_ens(c):
    b, F, var = c.res, bb_factors(c), c.a["$var"]
    q, h = c.n["BBN.nodes"][b], c.n
    x, k = z3.Const("x!bb", Ref), z3.Const("k!bb", Str)
    d = c.n["BBN.vars_to_nodes"][b]
    return [("fresh", c.fresh_ref(b))] + bn_nodes(h, q, F, var) + [("nodes-distinct", Distinct(q))] + bn_edges(h, q, var) + [
        ("variable-recorded", FA(x, Imp(Mem(q, x), h[VNB][x] == var[h[FUNC][x]]), Mem(q, x))),
        ("variable-index", And(FA(k, Imp(Has(d, k), And(Mem(q, Get(d, k)), h[VNB][Get(d, k)] == k)), Has(d, k)), FA(x, Imp(Mem(q, x), And(Has(d, h[VNB][x]), Get(d, h[VNB][x]) == x)), Mem(q, x)))),
        ("domains-kept", c.n["BBN.domains"][b] == c.a["domains"]),
        ("new-nodes", FA(x, Imp(Mem(q, x), c.fresh_ref(x)), Mem(q, x))),
        ("names-kept", FA(x, Imp(Mem(q, x), h["Node.name"][x] == h[NAMEF][h[FUNC][x]]), Mem(q, x)))]


def old_kept(lp, *keys):
    n = z3.Const("n!ok", Ref)
    return [("old-objects-kept:" + k, FA(n, Imp(birth(n) < lp.now0, lp.n[k][n] == lp.o[k][n]), lp.n[k][n])) for k in keys]


def bb_inv0(lp):
    d, F = lp.v("factor_nodes"), bb_factors(lp)
    k, j, n = z3.Const("k!b0", Str), z3.Int("j!b0"), z3.Const("n!b0", Ref)
    h, nm = lp.n, lp.o[NAMEF]
    G = Get(d, k)
    return [("one-node-per-processed-factor", FA(j, Imp(And(0 <= j, j < lp.i), And(Has(d, nm[At(F, j)]), h[FUNC][Get(d, nm[At(F, j)])] == At(F, j))), At(F, j))),
            ("nodes-are-built", FA(k, Imp(Has(d, k), And(G != null, h["Node.name"][G] == k, nm[h[FUNC][G]] == k, Mem(F, h[FUNC][G]), Idx(F, h[FUNC][G]) < lp.i, h[HAS][G], h[AS][G] == ARGS(lp.o, h[FUNC][G]), Len(h[PAR][G]) == 0, Len(h[CHI][G]) == 0, birth(G) >= lp.now0, birth(G) < lp.now)), Has(d, k), G)),
            ] + old_kept(lp, HAS, AS, PAR, CHI, FUNC, "Node.name")


def gof_ghosts(cc):
    var, own = cc.a["$var"], cc.a["$own"]
    d = cc.eng.local_term(cc.st, "factor_nodes")
    fn, nm = cc.n[FUNC], cc.o[NAMEF]
    return {"var": define_array(cc.st, Ref, Str, lambda x: var[fn[x]], "nodevar"),
            "own": define_array(cc.st, Str, Ref, lambda s: Get(d, nm[own[s]]), "nodeown"), "rank": cc.a["$rank"]}


def bb_inv1(lp):
    h, var = lp.n, lp.a["$var"]
    q = lp.S
    x, p = z3.Const("x!b1", Ref), z3.Const("p!b1", Ref)
    done = lambda t: Idx(q, t) < lp.i
    return [("parents-are-arguments", FA([x, p], Imp(And(Mem(q, x), Mem(h[PAR][x], p)), And(done(x), Mem(q, p), node_is(h, x, p, var))), (Mem(q, x), Mem(h[PAR][x], p)))),
            ("arguments-are-parents", FA([x, p], Imp(And(Mem(q, x), Mem(q, p), done(x), node_is(h, x, p, var)), Mem(h[PAR][x], p)), (Mem(q, x), Mem(q, p)))),
            ("children-mirror-parents", FA([x, p], Imp(Mem(q, p), Mem(h[CHI][p], x) == And(Mem(q, x), Mem(h[PAR][x], p))), (Mem(q, p), Mem(h[CHI][p], x)), (Mem(q, p), Mem(h[PAR][x], p)))),
            ("no-repeated-edge", FA(x, Imp(Mem(q, x), And(Distinct(h[PAR][x]), Distinct(h[CHI][x]))), Mem(q, x))),
            ] + old_kept(lp, PAR, CHI)


def bb_inv2(lp):
    h, h1 = lp.n, lp.outer.n
    q, ps = lp.outer.S, lp.S
    x, p = z3.Const("x!b2", Ref), z3.Const("p!b2", Ref)
    cur = At(q, lp.outer.i)
    done = lambda t: And(Mem(ps, t), Idx(ps, t) < lp.i)
    j = z3.Int("j!b2")
    return [("parents-so-far", FA(p, Imp(Mem(h[PAR][cur], p), done(p)), Mem(h[PAR][cur], p))),
            ("parents-all-so-far", FA(j, Imp(And(0 <= j, j < lp.i), Mem(h[PAR][cur], At(ps, j))), At(ps, j))),
            ("other-parents-kept", FA(x, Imp(x != cur, h[PAR][x] == h1[PAR][x]), h[PAR][x])),
            ("children-so-far", FA([x, p], Mem(h[CHI][p], x) == Or(Mem(h1[CHI][p], x), And(x == cur, done(p))), Mem(h[CHI][p], x), Mem(h1[CHI][p], x))),
            ("children-of-others-kept", FA(p, Imp(Not(Mem(ps, p)), h[CHI][p] == h1[CHI][p]), h[CHI][p])),
            ("no-repeated-edge", And(Distinct(h[PAR][cur]), FA(x, Imp(Mem(q, x), Distinct(h[CHI][x])), Mem(q, x))))]


def bb_variant(form):
    def mk(eng, st):
        t = z3.Const("arg_factors", sort(FSEQ))
        y = z3.Const("y!wfp", Ref)
        st.pc.append(FA(y, Imp(Mem(t, y), birth(y) < st.now), Mem(t, y)))
        dom = eng.newcell(st, DICT(STR, SET(VAL)), z3.Const("arg_domains", sort(DICT(STR, SET(VAL)))))
        dom.borrowed = True
        spec = {"args": t, "domains": eng.read(st, dom)}
        if form == "list":
            h = eng.newcell(st, FSEQ, t)
            h.borrowed = True
            return {"args": PyTuple([h]), "kwds": PyObj("kwdict", {"domains": dom}), "$spec": spec}
        return {"args": V(FSEQ, t), "kwds": PyObj("kwdict", {"domains": dom}), "$spec": spec}
    return mk


contract("build_bbn", params={"*args": FSEQ, "domains": DICT(STR, SET(VAL))}, kwparams=("domains",), ret=REF("BBN"), props=["C05"], allocates=True,
         ghosts={"var": RefStr, "own": OWNS, "rank": RANKS}, ghost_calls={"get_original_factors": gof_ghosts},
         requires=bb_req, ensures=bb_ens, variants=[bb_variant("list"), bb_variant("args")],
         locals={"factor_nodes": DREF, "variables": SET(STR)},
         loops=[LoopSpec(bb_inv0), LoopSpec(bb_inv1), LoopSpec(bb_inv2)])

import ebayq  # noqa: E402,F401  contracts of queries, potentials and graph construction
import ebayg  # noqa: E402,F401  contracts of the graphs
import ebaytri  # noqa: E402,F401  triangulation
import ebays  # noqa: E402,F401  sampling
import ebayc  # noqa: E402,F401  networks from conditional tables
import ebayx  # noqa: E402,F401  the export
