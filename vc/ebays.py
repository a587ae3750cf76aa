"""Contracts for causalnex/ebaybbn: sampling (C12)."""
import z3
from theory import *
from engine import LoopSpec, V, Unsupported
from ebay import *
from ebay import contract, BUILTINS, NAMES, VNB, VNF, INJ, PTT, PTO, FUNC, ARGS, KEY, cnames, clique_ok, _y
import ebayq
from ebayq import domain, bvars, bad_name, bad_value, EVT, EVS, tree_ok, clique_nodes_of, marg_of, ASG, CN, CL, JTN

E2 = PAIR(STR, VAL)
ANS = DICT(E2, REAL)
_d, _b, _k, _s, _v, _p = z3.Const("d!sm", EVS), z3.Const("b!sm", Ref), z3.Const("k!sm", sort(SEQ(E2))), z3.Const("s!sm", Val), z3.Const("v!sm", Str), z3.Const("p!sm", sort(E2))


def b_random(eng, st, args, kws, node, mod):
    r = fresh("random", REAL)
    st.pc.append(And(0 <= r, r < 1))
    return V(REAL, r)


def b_choice(eng, st, args, kws, node, mod):
    ety, q = eng.iter_seq(st, args[0])
    x = fresh("choice", ety)
    eng.obl(st, "safe:choice", Len(q) > 0)
    st.pc.append(Mem(q, x))
    return eng.wrap(st, ety, x)


BUILTINS["random.random"] = BUILTINS["random"] = b_random
BUILTINS["random.choice"] = BUILTINS["choice"] = b_choice

# ------------------------------------------------------------------ a whole query
JDT = DICT(KEY, REAL)
JD = z3.Function("JOINT", Ref, EVS, Str, sort(JDT))  # per state of a variable, the joint probability of that state and the evidence
JTREE = z3.Function("JTREE", Ref, z3.BoolSort())     # a single tree with the running intersection property (C09)
KV = PAIR(KEY, REAL)
KTOT = z3.Function("KTOT", sort(JDT), z3.RealSort())  # total of a table, in whatever order it is listed
KSUM = z3.Function("KSUM", sort(SEQ(KV)), z3.IntSort(), z3.RealSort())
_q, _n2, _t, _t2, _kk = z3.Const("q!ks", sort(SEQ(KV))), z3.Int("n!ks"), z3.Const("t!ks", sort(JDT)), z3.Const("u!ks", sort(JDT)), z3.Const("k!ks", sort(SEQ(KEY)))
axiom("KSUM.0", FA(_q, KSUM(_q, 0) == 0, KSUM(_q, 0)))
axiom("KSUM.S", FA([_q, _n2], Imp(_n2 >= 0, KSUM(_q, _n2 + 1) == KSUM(_q, _n2) + P(At(_q, _n2), 1)), KSUM(_q, _n2 + 1)))
axiom("KTOT", FA([_t, _kk, _q], Imp(And(enumerates(_kk, Dom(_t)), Len(_q) == Len(_kk), FA(_n2, Imp(InR(_n2, _kk), P(At(_q, _n2), 1) == Get(_t, At(_kk, _n2))), At(_q, _n2))), KSUM(_q, Len(_q)) == KTOT(_t)), (enumerates(_kk, Dom(_t)), KSUM(_q, Len(_q)))))
_tw = z3.Function("KTOT.w", sort(JDT), sort(JDT), sort(KEY))(_t, _t2)
axiom("KTOT.ext", FA([_t, _t2], Or(KTOT(_t) == KTOT(_t2), Has(_t, _tw) != Has(_t2, _tw), And(Has(_t, _tw), Get(_t, _tw) != Get(_t2, _tw))), (KTOT(_t), KTOT(_t2))))


def one_key(p):
    return App(th(SEQ(E2)).empty, p)


def in_joint(h, b, v, e):
    return And(e == one_key(At(e, 0)), P(At(e, 0), 0) == v, domain(h, b, v)[P(At(e, 0), 1)])


def joint_ok(h, b, ev):
    e = z3.Const("e!jo", sort(KEY))
    return ("joint-has-one-entry-per-state", FA([_v, e], Has(JD(b, ev, _v), e) == in_joint(h, b, _v, e), Has(JD(b, ev, _v), e)))


def tree_of(c, h, jt, b):
    """what a query needs to know about the join tree of network b"""
    x, n, y = z3.Const("x!tf", Ref), z3.Const("n!tf", Ref), z3.Const("y!tf", Ref)
    isc = lambda x: clique_nodes_of(c, h, jt, x)
    q = h["BBN.nodes"][b]
    has = lambda x, n: h[CN][h[CL][x]][n]
    return tree_ok(c, h, jt) + [("running-intersection", JTREE(jt)),
            ("family-in-some-clique", FA(y, Imp(Mem(q, y), EX(x, And(isc(x), Subset(ToSet(ARGS(h, h[FUNC][y])), cnames(h, x))))), Mem(q, y))),
            ("each-variable-in-a-clique", FA(y, Imp(Mem(q, y), EX([x, n], And(isc(x), has(x, n), h["UndirectedNode.name"][n] == h["Node.name"][y]))), Mem(q, y))),
            ("names-agree", FA([x, n, y], Imp(And(isc(x), has(x, n), Mem(q, y), h["UndirectedNode.name"][n] == h["Node.name"][y]), h[VNF][n] == h[VNB][y]), (Mem(h[JTN][jt], x), has(x, n), Mem(q, y))))]


def network_ok(h, b):
    q = h["BBN.nodes"][b]
    x, y = z3.Const("x!no", Ref), z3.Const("y!no", Ref)
    return [("one-node-per-variable", And(Distinct(q), INJ(ToSet(q), h[VNB]))),
            ("variables-distinct", FA([x, y], Imp(And(Mem(q, x), Mem(q, y), h[VNB][x] == h[VNB][y]), x == y), (Mem(q, x), Mem(q, y))))]


def fresh_tree(c, jt):
    x = z3.Const("x!ft", Ref)
    return [("fresh-tree", And(c.fresh_ref(jt), FA(x, Imp(Mem(c.n[JTN][jt], x), c.fresh_ref(x)), Mem(c.n[JTN][jt], x))))]


contract("build_join_tree", params={"dag": REF("BBN")}, ret=REF("JoinTree"), trusted=True, allocates=True,
         ensures=lambda c: fresh_tree(c, c.res) + tree_of(c, c.n, c.res, c.a["dag"]))
contract("BBN.build_join_tree", params={"self": REF("BBN")}, ret=REF("JoinTree"), allocates=True, props=["C01", "C02", "C04"],
         ensures=lambda c: fresh_tree(c, c.res) + tree_of(c, c.n, c.res, c.a["self"]))


class At2:
    """a context with other arguments"""

    def __init__(self, c, a):
        self.c, self.a = c, a

    def __getattr__(self, k):
        return getattr(self.c, k)


def prop_req(c):
    jt, b, ev, D = c.a["self"], c.a["$b"], c.a["$ev"], c.a["$D"]
    ac = At2(c, {"self": jt, "bbn": b, "assignments": D, "evidence": ev})
    TRU = lambda x: z3.BoolVal(True)
    val = ebayq.v_final
    return [("is-a-join-tree", JTREE(jt))] + tree_ok(c, c.o, jt) + ebayq.ac_facts(ac, D) + ebayq.ip_rest(ac, c.o) + ebayq.ip_tables("products-of-factors-with-evidence", ac, c.o, TRU, val)


def prop_ens(c):
    jt, b, ev = c.a["self"], c.a["$b"], c.a["$ev"]
    x = z3.Const("x!pe", Ref)
    isc = clique_nodes_of(c, c.o, jt, x)
    j = JD(b, ev, _v)
    return [joint_ok(c.o, b, ev),
            ("cliques-well-formed", FA(x, Imp(isc, And(*[f for _, f in clique_ok(c.n, x)])), Mem(c.o[JTN][jt], x))),
            ("calibrated", FA([x, _v], Imp(And(isc, cnames(c.o, x)[_v]), marg_of(c.n, x, _v, Dom(j), Vals(j))), (Mem(c.o[JTN][jt], x), cnames(c.o, x)[_v])))]


contract("JoinTree.propagate", params={"self": REF("JoinTree")}, ret=NONE, trusted=True, ghosts={"b": Ref, "ev": EVS, "D": sort(ASG)},
         modifies=[(f, lambda c, x: Mem(c.o[JTN][c.a["self"]], x)) for f in (PTT, PTO, "UndirectedNode.marked")],
         requires=prop_req, ensures=prop_ens)


def normal(j, t):
    return If(t == 0, j, j / t)


def answer(b, ev, p, scale=z3.BoolVal(True)):
    d = JD(b, ev, P(p, 0))
    j = Get(d, one_key(p))
    return If(And(Dom(ev) != EmptySet(Str), scale), normal(j, KTOT(d)), j)


POST = z3.Function("POSTB", Ref, EVS, sort(E2), z3.RealSort())  # the answer for one (variable, state)
axiom("POSTB.def", FA([_b, _d, _p], POST(_b, _d, _p) == answer(_b, _d, _p), POST(_b, _d, _p)))


def q_ens(c):
    b, ev = c.a["self"], c.a["kwds"]
    p = z3.Const("p!qe", sort(E2))
    return [("complete", FA(p, Has(c.res, p) == And(bvars(c.o, b)[P(p, 0)], domain(c.o, b, P(p, 0))[P(p, 1)]), Has(c.res, p))),
            ("normalised-joint", FA(p, Imp(Has(c.res, p), Get(c.res, p) == POST(b, ev, p)), Get(c.res, p))),
            joint_ok(c.o, b, ev)]


def totals_there(ev, m, nz):
    p = z3.Const("p!tt", sort(E2))
    return Imp(Dom(ev) != EmptySet(Str), FA(p, Imp(Has(m, p), Has(nz, P(p, 0))), Has(m, p)))


def inner_loop(lp):
    """the entries of one marginal, up to the i-th"""
    b, ev, m, nz, m0, nz0 = lp.a["self"], lp.a["kwds"], lp.v("marginals"), lp.v("normalizers"), lp.e("marginals"), lp.e("normalizers")
    v = lp.o[VNB][lp.v("node")]
    d = JD(b, ev, v)
    p, w, j = z3.Const("p!il", sort(E2)), z3.Const("w!il", Str), z3.Int("j!il")
    e = one_key(p)
    return [("entries-of-this", FA(p, Imp(And(P(p, 0) == v, Has(m, p)), And(domain(lp.o, b, v)[P(p, 1)], Or(Has(m0, p), Mem(lp.ks, e)))), Has(m, p))),
            ("values-of-this", FA(p, Imp(And(P(p, 0) == v, Has(m, p), Or(Not(Has(m0, p)), Get(m0, p) == Get(d, e))), Get(m, p) == Get(d, e)), Get(m, p))),
            ("listed", FA(j, Imp(And(0 <= j, j < lp.i), Has(m, At(At(lp.ks, j), 0))), At(lp.ks, j))),
            ("kept", FA(p, Imp(Has(m0, p), Has(m, p)), Has(m0, p))),
            ("others", FA(p, Imp(P(p, 0) != v, And(Has(m, p) == Has(m0, p), Get(m, p) == Get(m0, p))), Has(m, p), Get(m, p))),
            ("other-totals", FA(w, Imp(w != v, And(Has(nz, w) == Has(nz0, w), Get(nz, w) == Get(nz0, w))), Has(nz, w), Get(nz, w))),
            ("totals-there", totals_there(ev, m, nz)),
            ("no-evidence-no-totals", Imp(Dom(ev) == EmptySet(Str), nz == nz0)),
            ("total", Imp(And(Dom(ev) != EmptySet(Str), Not(Has(nz0, v))), And(Has(nz, v) == (lp.i > 0), If(Has(nz, v), Get(nz, v), 0) == KSUM(lp.S, lp.i))))]


def scale_loop(lp):
    b, ev, m, m0 = lp.a["self"], lp.a["kwds"], lp.v("marginals"), lp.e("marginals")
    p = z3.Const("p!sc", sort(E2))
    return [("same-entries", Dom(m) == Dom(m0)),
            ("totals-known", Imp(Dom(ev) != EmptySet(Str), FA(p, Imp(Has(m, p), And(Has(lp.v("normalizers"), P(p, 0)), Get(lp.v("normalizers"), P(p, 0)) == KTOT(JD(b, ev, P(p, 0))))), Has(m, p)))),
            ("scaled", FA(p, Imp(Has(m, p), Get(m, p) == answer(b, ev, p, And(Mem(lp.ks, p), Idx(lp.ks, p) < lp.i))), Get(m, p), Has(m, p)))]


def q_loop0(lp):
    """the variables of the first i nodes are done"""
    b, ev, m, nz = lp.a["self"], lp.a["kwds"], lp.v("marginals"), lp.v("normalizers")
    p, v, j = z3.Const("p!q0", sort(E2)), z3.Const("v!q0", Str), z3.Int("j!q0")
    vn = lp.o[VNB]
    done = lambda v: EX(j, And(0 <= j, j < lp.i, vn[At(lp.S, j)] == v))
    return [("entries", FA(p, Imp(Has(m, p), And(done(P(p, 0)), domain(lp.o, b, P(p, 0))[P(p, 1)], Get(m, p) == answer(b, ev, p, z3.BoolVal(False)))), Has(m, p), Get(m, p))),
            ("all-entries", FA([j, p], Imp(And(0 <= j, j < lp.i, vn[At(lp.S, j)] == P(p, 0), domain(lp.o, b, P(p, 0))[P(p, 1)]), Has(m, p)), (At(lp.S, j), Has(m, p)))),
            ("totals", Imp(Dom(ev) != EmptySet(Str), FA([j], Imp(And(0 <= j, j < lp.i, Has(nz, vn[At(lp.S, j)])), Get(nz, vn[At(lp.S, j)]) == KTOT(JD(b, ev, vn[At(lp.S, j)]))), At(lp.S, j)))),
            ("totals-there", totals_there(ev, m, nz)),
            ("only-done", FA(v, Imp(Has(nz, v), done(v)), Has(nz, v)))]


contract("BBN.query", params={"self": REF("BBN"), "**kwds": EVT}, ret=ANS, props=["C01", "C02", "C03", "C04"], allocates=True,
         raises=[("VariableNotInGraphError", lambda c: bad_name(c.o, c.a["self"], c.a["kwds"])),
                 ("VariableValueNotInDomainError", lambda c: bad_value(c.o, c.a["self"], c.a["kwds"]))],
         requires=lambda c: network_ok(c.o, c.a["self"]), ensures=q_ens, modifies=[("BBNNode.clique", lambda c, x: z3.BoolVal(True))],
         locals={"marginals": ANS, "normalizers": DICT(STR, REAL)},
         ghost_calls={"JoinTree.propagate": lambda c: {"b": c.a["self"], "ev": c.a["kwds"], "D": c.v("assignments")},
                      "JoinTree.marginal": lambda c: (lambda j: {"keys": Dom(j), "val": Vals(j)})(JD(c.a["self"], c.a["kwds"], c.o[VNB][c.call["bbn_node"]]))},
         loops=[LoopSpec(q_loop0), LoopSpec(inner_loop), LoopSpec(scale_loop)])

# ------------------------------------------------------------------ what samples rely on
POSSIBLE = z3.Function("POSSIBLE", Ref, EVS, z3.BoolSort())                         # the evidence has positive probability
POSTK = z3.Function("POSTB.key", Ref, sort(SEQ(E2)), sort(E2), z3.RealSort())       # by the contents of the evidence, listed
_w = z3.Function("POSTB.wit", sort(SEQ(E2)), EVS, sort(E2))
_wt = _w(_k, _d)
# evidence with the same contents has the same answer, in whatever order it is listed
axiom("POSTB.key", FA([_b, _k, _d, _p], Or(POSTK(_b, _k, _p) == POST(_b, _d, _p), Mem(_k, _wt) != And(Has(_d, P(_wt, 0)), Get(_d, P(_wt, 0)) == P(_wt, 1))), (POSTK(_b, _k, _p), POST(_b, _d, _p))))
LIKELY = z3.Function("POSTB.likely", Ref, EVS, Str, Val)


def valid(h, b, d):
    k = z3.Const("k!vd", Str)
    return FA(k, Imp(Has(d, k), And(bvars(h, b)[k], domain(h, b, k)[Get(d, k)])), Has(d, k))


def lawful(h, b):
    """what C01 and C02 say about answers, and the chain rule"""
    s2 = LIKELY(b, _d, _v)
    inn = And(bvars(h, b)[P(_p, 0)], domain(h, b, P(_p, 0))[P(_p, 1)])
    return [("answers-are-probabilities", FA([_d, _p], Imp(And(valid(h, b, _d), inn), And(0 <= POST(b, _d, _p), POST(b, _d, _p) <= 1)), POST(b, _d, _p))),
            ("answers-positive", FA([_d, _v], Imp(And(valid(h, b, _d), POSSIBLE(b, _d), bvars(h, b)[_v]), And(domain(h, b, _v)[s2], POST(b, _d, MkPair(E2, _v, s2)) > 0)), s2)),
            ("chain-rule", FA([_d, _v, _s], Imp(And(valid(h, b, _d), POSSIBLE(b, _d), bvars(h, b)[_v], domain(h, b, _v)[_s], POST(b, _d, MkPair(E2, _v, _s)) > 0), POSSIBLE(b, DStore(_d, _v, _s))), POSSIBLE(b, DStore(_d, _v, _s))))]


SAMPLES = SEQ(EVT)


def good(h, b, q, d):
    """an assignment of states that contains the evidence q and is possible if q is"""
    k = z3.Const("k!gd", Str)
    return [("valid", valid(h, b, d)),
            ("evidence", FA(k, Imp(Has(q, k), And(Has(d, k), Get(d, k) == Get(q, k))), Has(q, k))),
            ("possible", POSSIBLE(b, d))]


def complete(h, b, q, d):
    k = z3.Const("k!cm", Str)
    return [("complete", FA(k, Has(d, k) == bvars(h, b)[k], Has(d, k), bvars(h, b)[k]))] + good(h, b, q, d)


def samples_ok(c, res):
    j = z3.Int("j!ds")
    b, q = c.a["self"], c.a["query"]
    return [(l, FA(j, Imp(InR(j, res), f), At(res, j))) for l, f in complete(c.o, b, q, At(res, j))]


def cache_ok(lp):
    rc = lp.v("result_cache")
    b, k, p = lp.a["self"], z3.Const("k!co", sort(SEQ(E2))), z3.Const("p!co", sort(E2))
    r = Get(rc, k)
    return [("cache-complete", FA([k, p], Imp(Has(rc, k), Has(r, p) == And(bvars(lp.o, b)[P(p, 0)], domain(lp.o, b, P(p, 0))[P(p, 1)])), Has(r, p))),
            ("cache", FA([k, p], Imp(And(Has(rc, k), Has(r, p)), Get(r, p) == POSTK(b, k, p)), Get(r, p)))]


def ds_outer(lp):
    return [("count", Len(lp.v("samples")) <= If(lp.a["n"] > 0, lp.a["n"], 0))] + cache_ok(lp) + samples_ok(lp, lp.v("samples"))


def ds_inner(lp):
    return cache_ok(lp) + [("within", Subset(Dom(lp.v("sample")), bvars(lp.o, lp.a["self"])))] + good(lp.o, lp.a["self"], lp.a["query"], lp.v("sample"))


def density(lp):
    """the listed states are those of the chosen variable, with its posterior; one of them is possible"""
    d, b = lp.v("var_density"), lp.a["self"]
    v = lp.o[VNB][lp.v("next_node")]
    ans, e = lambda p: POST(b, lp.v("sample"), p), MkPair(E2, v, LIKELY(b, lp.v("sample"), v))
    pt = PAIR(E2, REAL)
    j = z3.Int("j!dy")
    x = MkPair(pt, e, ans(e))
    return [("density", FA(j, Imp(InR(j, d), And(P(P(At(d, j), 0), 0) == v, bvars(lp.o, b)[v], domain(lp.o, b, v)[P(P(At(d, j), 0), 1)],
                                                P(At(d, j), 1) == ans(P(At(d, j), 0)), P(At(d, j), 1) >= 0)), At(d, j))),
            ("some-state-is-likely", And(domain(lp.o, b, v)[P(e, 1)], ans(e) > 0)),
            ("in-result", And(Has(lp.v("result"), e), Get(lp.v("result"), e) == ans(e))), ("likely", Mem(d, x)), ("likely-at", And(InR(Idx(d, x), d), At(d, Idx(d, x)) == x))]


def ds_cum(lp):
    c, d = lp.v("cumulative_density"), lp.v("var_density")
    j = z3.Int("j!cu")
    pt = PAIR(E2, REAL)
    m = lambda q, i: P(At(q, i), 1)
    return density(lp) + [("length", Len(c) == lp.i + 1),
            ("states", FA(j, Imp(And(0 <= j, j <= lp.i), P(At(c, j), 0) == P(At(d, j), 0)), At(c, j))),
            ("first", m(c, 0) == m(d, 0)),
            ("cumulative", FA(j, Imp(And(0 < j, j <= lp.i), m(c, j) == m(c, j - 1) + m(d, j)), At(c, j))),
            ("positive", FA(j, Imp(And(0 <= j, j <= lp.i), And(m(c, j) <= m(c, lp.i), m(d, j) <= m(c, lp.i))), At(d, j)))]


def ds_pick(lp):
    c, r, i = lp.v("cumulative_density"), lp.v("r"), lp.v("i")
    j = z3.Int("j!pk")
    return [("below-total", r < P(At(c, Len(c) - 1), 1)), ("in-range", And(0 <= i, i < Len(c))), ("passed", FA(j, Imp(And(0 <= j, j < i), P(At(c, j), 1) <= r), At(c, j)))]


contract("BBN.draw_samples", params={"self": REF("BBN"), "query": EVT, "n": INT}, ret=SAMPLES, props=["C12", "C04"],
         requires=lambda c: [("evidence-valid", valid(c.o, c.a["self"], c.a["query"])), ("evidence-possible", POSSIBLE(c.a["self"], c.a["query"]))
                             ] + network_ok(c.o, c.a["self"]) + lawful(c.o, c.a["self"]),
         ensures=lambda c: [("count", Len(c.res) == If(c.a["n"] > 0, c.a["n"], 0))] + samples_ok(c, c.res),
         modifies=[("BBNNode.clique", lambda c, x: z3.BoolVal(True))],
         locals={"result_cache": DICT(SEQ(E2), ANS), "samples": SAMPLES},
         loops=[LoopSpec(ds_outer), LoopSpec(ds_inner), LoopSpec(ds_cum), LoopSpec(ds_pick)])
