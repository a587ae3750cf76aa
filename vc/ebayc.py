"""Contracts for causalnex/ebaybbn: networks from conditional tables (C06)."""
import z3
from theory import *
from engine import LoopSpec, V, H
from ebay import *
from ebay import contract, AS, HAS, NAMEF, KEY, ENT, KS, SS, PAR, CHI, FUNC, OWNS, RANKS, old_kept
from engine import define_array
from ebayq import EVAL

GIV = SEQ(ENT)                    # [(parent, its state)]
CONDS = DICT(VAL, REAL)           # state -> probability
ROW = PAIR(GIV, CONDS)
TABLE = SEQ(ROW)
StrSet = z3.ArraySort(Str, z3.BoolSort())
sort(TABLE)
SPF = sortpairs(ENT, GIV)
DOMF = "function._domain"
PRE = z3.Function("FACTORNAME", Str, Str)


def giv(t, r):
    return P(At(t, r), 0)


def con(t, r):
    return P(At(t, r), 1)


def rowkey(t, r, var, val):
    """the parents' states in alphabetical order of the parents, then the state of the variable"""
    return App(SPF.sp(giv(t, r)), MkPair(ENT, var, val))


DIFFAT = z3.Function("DIFFAT", sort(TABLE), z3.IntSort(), z3.IntSort(), z3.IntSort())  # a place where two rows differ


def table_ok(t, pars):
    """every row names each parent once, rows differ, and there is a row with a state"""
    r, r2, i = z3.Int("r!to"), z3.Int("r2!to"), z3.Int("i!to")
    v = z3.Const("v!to", Val)
    s, d = lambda r: SPF.sp(giv(t, r)), DIFFAT(t, r, r2)
    return [("rows", Len(t) > 0),
            ("states-listed", FA(r, Imp(InR(r, t), EX(v, Has(con(t, r), v))), At(t, r))),
            ("same-parents", FA(r, Imp(InR(r, t), And(SPF.firsts(giv(t, r)) == pars, SPF.distf(giv(t, r)))), At(t, r))),
            ("rows-differ", FA([r, r2], Imp(And(InR(r, t), InR(r2, t), r != r2), And(0 <= d, d < Len(s(r)), At(s(r), d) != At(s(r2), d))), (At(t, r), At(t, r2))))]


def argnames(pars, var):
    return App(SrtSet(pars), var)


def mentioned(t, v, upto=None):
    r = z3.Int("r!mt")
    return EX(r, And(0 <= r, r < (Len(t) if upto is None else upto), Has(con(t, r), v)))


def shape(k, pars, var):
    """a key over the argument names"""
    j, q = z3.Int("j!sh"), argnames(pars, var)
    return [("key-length", Len(k) == Len(q)), ("key-names", FA(j, Imp(InR(j, q), P(At(k, j), 0) == At(q, j)), At(k, j)))]


def key_shape(lp):
    if not lp.has("key_"):
        return [("has-key", lp.i == 0), ("key-length", z3.BoolVal(True)), ("key-names", z3.BoolVal(True))]
    return [("has-key", Imp(lp.i > 0, lp.defd("key_")))] + [(lab, Imp(lp.i > 0, f)) for lab, f in shape(lp.v("key_"), lp.a["$pars"], lp.a["variable_name"])]


def mnf_ens(c):
    f, t, var = c.res, c.a["conditions"], c.a["variable_name"]
    v = z3.Const("v!mn", Val)
    return [("arguments", And(c.n[HAS][f], SeqEq(c.n[AS][f], argnames(c.a["$pars"], var)))),
            ("domain", FA(v, c.n[DOMF][f][v] == mentioned(t, v), c.n[DOMF][f][v])),
            ("name", c.n[NAMEF][f] == str_cat(StrC("f_"), var)), ("fresh", And(f != null, c.fresh_ref(f)))]


def mnf_l0(lp):
    v, r = z3.Const("v!l0", Val), z3.Int("r!l0")
    t, var, pars, tt = lp.a["conditions"], lp.a["variable_name"], lp.a["$pars"], lp.v("tt")
    out = [("rows-stored", FA([r, v], Imp(And(0 <= r, r < lp.i, Has(con(t, r), v)), And(Has(tt, rowkey(t, r, var, v)), Get(tt, rowkey(t, r, var, v)) == Get(con(t, r), v))), Has(con(t, r), v))),
           ("domain-so-far", FA(v, lp.v("domain")[v] == mentioned(t, v, lp.i), lp.v("domain")[v])),
           ("order", FA(r, Imp(InR(r, t), And([Len(argnames(pars, var)) == Len(giv(t, r)) + 1])), At(t, r)))]
    return out + key_shape(lp)


def mnf_l1(lp):
    """the parents in order"""
    k, q = lp.v("key"), lp.S
    j = z3.Int("j!l1")
    return [("copied", And(Len(k) == lp.i, FA(j, Imp(And(0 <= j, j < lp.i), At(k, j) == At(q, j)), At(k, j)))), ("whole", Imp(lp.i == Len(q), SeqEq(k, q)))]


def mnf_l2(lp):
    v, r, j = z3.Const("v!l2", Val), z3.Int("r!l2"), z3.Int("j!l2")
    t, var, pars, tt, row = lp.a["conditions"], lp.a["variable_name"], lp.a["$pars"], lp.v("tt"), lp.outer.i
    rk = lambda r, v: rowkey(t, r, var, v)
    here = At(lp.S, j)
    out = [("earlier-rows", FA([r, v], Imp(And(0 <= r, r < row, Has(con(t, r), v)), And(Has(tt, rk(r, v)), Get(tt, rk(r, v)) == Get(con(t, r), v))), Has(con(t, r), v))),
           ("parents-key", SeqEq(lp.v("key"), SPF.sp(giv(t, row)))),
           ("key-is", Imp(lp.i > 0, SeqEq(lp.v("key_"), rk(row, P(At(lp.S, lp.i - 1), 0)))) if lp.has("key_") else z3.BoolVal(True)),
           ("this-row", FA(j, Imp(And(0 <= j, j < lp.i), And(Has(tt, rk(row, P(here, 0))), Get(tt, rk(row, P(here, 0))) == P(here, 1))), here)),
           ("domain-in", FA(v, Imp(mentioned(t, v, row), lp.v("domain")[v]), lp.v("domain")[v])),
           ("domain-here", FA(j, Imp(And(0 <= j, j < lp.i), lp.v("domain")[P(here, 0)]), here)),
           ("domain-out", FA(v, Imp(lp.v("domain")[v], Or(mentioned(t, v, row), EX(j, And(0 <= j, j < lp.i, P(here, 0) == v)))), lp.v("domain")[v]))]
    return out + key_shape(lp)


def mnf_pre(c):
    """arguments: the states that a row (the ghost) gives to the parents in order, and a state which that row lists"""
    t, n = c.a["conditions"], argnames(c.a["$pars"], c.a["variable_name"])
    r, args = c.call_ghost, c.call_args
    j = z3.Int("j!mp")
    return [("as-many", Len(args) == Len(n)), ("row", InR(r, t)),
            ("states-of-row", FA(j, Imp(And(0 <= j, j < Len(giv(t, r))), At(args, j) == P(At(SPF.sp(giv(t, r)), j), 1)), At(args, j))),
            ("listed", Has(con(t, r), At(args, Len(args) - 1)))]


def mnf_val(c, res):
    return [("table-value", res == Get(con(c.a["conditions"], c.call_ghost), At(c.call_args, Len(c.call_args) - 1)))]


def mnf_call_loop(lp):
    k, args = lp.v("key"), lp.call_args
    q = rowkey(lp.a["conditions"], lp.call_ghost, lp.a["variable_name"], At(args, Len(args) - 1))
    j = z3.Int("j!cl")
    return [("as-many", Len(k) == lp.i), ("key-length", Len(q) == Len(args)),
            ("same-entries", FA(j, Imp(And(0 <= j, j < lp.i), At(k, j) == At(q, j)), At(k, j))),
            ("same-key", Imp(lp.i == Len(q), SeqEq(k, q)))]


contract("make_node_func", params={"variable_name": STR, "conditions": TABLE}, ret=REF("function"), allocates=True, props=["C06"],
         ghosts={"pars": StrSet}, requires=lambda c: table_ok(c.a["conditions"], c.a["$pars"]) + [("not-its-own-parent", Not(c.a["$pars"][c.a["variable_name"]]))],
         ensures=mnf_ens, locals={"tt": DICT(KEY, REAL), "domain": SET(VAL), "key": KEY, "key_": KEY},
         result_call=dict(args=SEQ(VAL), ret=REAL, pre=mnf_pre, val=mnf_val, ev=EVAL, trig=lambda c: At(c.a["conditions"], c.call_ghost)),
         loops=[LoopSpec(mnf_l0), LoopSpec(mnf_l1), LoopSpec(mnf_l2), LoopSpec(mnf_call_loop)])

# ------------------------------------------------------------------ the network of several tables
CNDS = DICT(STR, TABLE)
PARS = z3.ArraySort(Str, StrSet)
_k, _a2 = z3.Const("k!cc", Str), z3.Const("a!cc", Str)
FSQ = SEQ(REF("function"))


def tabs_req(c):
    d, pars, rank = c.a["conds"], c.a["$pars"], c.a["$rank"]
    out = [("some-variable", EX(_k, Has(d, _k)))]
    for lab, f in table_ok(Get(d, _k), pars[_k]):
        out.append((lab, FA(_k, Imp(Has(d, _k), f), Has(d, _k))))
    return out + [("not-its-own-parent", FA(_k, Imp(Has(d, _k), And(Not(pars[_k][_k]), rank[_k] >= 0)), Has(d, _k))),
                  ("parents-have-tables", FA([_k, _a2], Imp(And(Has(d, _k), pars[_k][_a2]), And(Has(d, _a2), rank[_a2] < rank[_k])), (Has(d, _k), pars[_k][_a2])))]


def func_is(h, d, k, f, pars):
    """f is the function of the table of k"""
    t = Get(d, k)
    v, q, r = z3.Const("v!fi", Val), z3.Const("q!fi", sort(SEQ(VAL))), z3.Int("r!fi")
    return [("arguments", And(h[HAS][f], h[AS][f] == argnames(pars[k], k))),
            ("name", h[NAMEF][f] == str_cat(StrC("f_"), k)),
            ("states", FA(v, h[DOMF][f][v] == mentioned(t, v), h[DOMF][f][v])),
            ("values", FA([q, r], Imp(row_args(t, k, pars[k], q, r), EVAL(f, q) == Get(con(t, r), At(q, Len(q) - 1))), (EVAL(f, q), At(t, r))))]


def row_args(t, var, pars, args, r):
    """args lists the states that row r gives to the parents, in alphabetical order of the parents, then a state the row lists"""
    j = z3.Int("j!ra")
    return And(Len(args) == Len(argnames(pars, var)), InR(r, t),
               FA(j, Imp(And(0 <= j, j < Len(giv(t, r))), At(args, j) == P(At(SPF.sp(giv(t, r)), j), 1)), At(args, j)), Has(con(t, r), At(args, Len(args) - 1)))


def bbc_inv(lp):
    nf, d, pars, doms = lp.v("node_funcs"), lp.a["conds"], lp.a["$pars"], lp.v("domains")
    j, v = z3.Int("j!bc"), z3.Const("v!bc", Val)
    ks = lp.eng.dkeys(lp.st, CNDS, d)
    K, F = At(ks, j), At(nf, j)
    so = lambda f: FA(j, Imp(And(0 <= j, j < lp.i), f), F)
    out = [("one-function-each", Len(nf) == lp.i)]
    out += [("function-" + lab, so(f)) for lab, f in func_is(lp.n, d, K, F, pars)]
    out += [("each-table-read", FA(_k, Imp(And(Has(d, _k), Idx(ks, _k) < lp.i), And(Mem(nf, At(nf, Idx(ks, _k))), Idx(nf, At(nf, Idx(ks, _k))) == Idx(ks, _k))), Has(d, _k)))]
    out += [("function-new", so(And(F != null, birth(F) >= lp.now0, birth(F) < lp.now))),
            ("functions-distinct", Distinct(nf)),
            ("domains-in", FA(j, Imp(And(0 <= j, j < lp.i), And(Has(doms, K), FA(v, Get(doms, K)[v] == mentioned(Get(d, K), v), Get(doms, K)[v]))), K)),
            ("domains-only", FA(_k, Imp(Has(doms, _k), And(Has(d, _k), Idx(ks, _k) < lp.i)), Has(doms, _k)))]
    return out + old_kept(lp, HAS, AS, NAMEF, DOMF)


def bbc_ghosts(cc):
    nf = cc.eng.local_term(cc.st, "node_funcs")
    ks = cc.eng.dkeys(cc.st, CNDS, cc.a["conds"])
    return {"var": define_array(cc.st, Ref, Str, lambda x: At(ks, Idx(nf, x)), "condvar"),
            "own": define_array(cc.st, Str, Ref, lambda y: At(nf, Idx(ks, y)), "condown"), "rank": cc.a["$rank"]}


def bbc_ens(c):
    b, d, pars = c.res, c.a["conds"], c.a["$pars"]
    ix, h = c.n["BBN.vars_to_nodes"][c.res], c.n
    v, p = z3.Const("v!be", Val), z3.Const("p!be", Ref)
    x = Get(ix, _k)
    out = [("fresh", c.fresh_ref(b)), ("has-variables", FA(_k, Imp(Has(d, _k), Has(ix, _k)), Has(d, _k))), ("variables", FA(_k, Has(ix, _k) == Has(d, _k), Has(ix, _k), Has(d, _k))), ("nodes", FA(p, Mem(h["BBN.nodes"][b], p) == EX(_k, And(Has(d, _k), Get(ix, _k) == p)), Mem(h["BBN.nodes"][b], p)))]
    out += [("node-" + lab, FA(_k, Imp(Has(d, _k), f), Get(ix, _k))) for lab, f in func_is(h, d, _k, h[FUNC][x], pars)]
    out += [("parents", FA([_k, p], Imp(Has(d, _k), Mem(h[PAR][x], p) == EX(_a2, And(pars[_k][_a2], Get(ix, _a2) == p))), Mem(h[PAR][x], p))),
            ("domains", And(FA(_k, Has(c.n["BBN.domains"][b], _k) == Has(d, _k), Has(c.n["BBN.domains"][b], _k), Has(d, _k)), FA([_k, v], Imp(Has(d, _k), Get(c.n["BBN.domains"][b], _k)[v] == mentioned(Get(d, _k), v)), Get(c.n["BBN.domains"][b], _k)[v])))]
    return out


contract("build_bbn_from_conditionals", params={"conds": CNDS}, ret=REF("BBN"), allocates=True, props=["C06"],
         ghosts={"pars": PARS, "rank": RANKS}, requires=tabs_req, ensures=bbc_ens,
         ghost_calls={"make_node_func": lambda c: {"pars": c.a["$pars"][c.call["variable_name"]]}, "build_bbn": bbc_ghosts},
         locals={"node_funcs": FSQ, "domains": DICT(STR, SET(VAL))}, loops=[LoopSpec(bbc_inv)])
