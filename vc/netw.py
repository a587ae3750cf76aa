"""Contracts for causalnex/network/network.py (C24). A data frame is a list of columns with their values; networkx, pandas
and pgmpy's BayesianModel are assumed contracts. States of a node are mutually comparable (sorted would refuse them)."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported

MODULES = {"network": "causalnex/network/network.py", "evaluation": "causalnex/evaluation/evaluation.py"}
EDGE = PAIR(STR, STR)
VS = SEQ(VAL)
COLS = DICT(STR, VS)
NS = DICT(STR, DICT(VAL, INT))
NAMES = DICT(STR, SEQ(INT))
FIELDS = {"BayesianNetwork": {"_node_states": OPT(NS), "_structure": REF("StructureModel"), "_model": REF("BayesianModel")},
          "StructureModel": {"nodes_": SEQ(STR), "edges_": SEQ(EDGE)},
          "BayesianModel": {"nodes_": SEQ(STR), "edges_": SEQ(EDGE), "fitted": COLS, "states": NAMES, "estimator": STR, "prior": OPT(STR), "sample_size": OPT(INT)},
          "DataFrame": {"cols": SEQ(STR), "vals": COLS, "rows": INT, "index": VS}}
BASES = {}
for t in (EDGE, SEQ(EDGE), SET(EDGE), VS, SET(VAL), SEQ(STR), SET(STR), COLS, NS, NAMES, DICT(STR, SET(VAL)), OPT(NS), OPT(SEQ(STR)), SEQ(BOOL), SEQ(INT), OPT(STR), OPT(INT), SEQ(PAIR(INT, VAL)), SEQ(PAIR(VAL, INT)), SEQ(PAIR(STR, DICT(VAL, INT))), DICT(INT, VAL), DICT(STR, STR), SEQ(PAIR(INT, VAL)), SEQ(PAIR(STR, STR))):
    sort(t)
FROZEN = {"StructureModel.nodes_", "StructureModel.edges_", "DataFrame.cols", "DataFrame.rows", "DataFrame.index"}
C, HOOKS, BUILTINS, VALUES = {}, {}, {}, {}
BN = REF("BayesianNetwork")
B = "BayesianNetwork."
STATES, STRUCT, MODEL = B + "_node_states", B + "_structure", B + "_model"
SN, SE, MN, ME_ = "StructureModel.nodes_", "StructureModel.edges_", "BayesianModel.nodes_", "BayesianModel.edges_"
DC, DV, DN, DI = "DataFrame.cols", "DataFrame.vals", "DataFrame.rows", "DataFrame.index"
DF = REF("DataFrame")
ME = lambda c: c.a["self"]


def contract(name, props=("C24",), **k):
    C[name] = Contract(name, props=list(props), **k)
    return C[name]


def none(o):
    return o.sort().recognizer(0)(o)


def the(o):
    return o.sort().accessor(1, 0)(o)


def boxi(t):
    return z3.Function("box.Int", z3.IntSort(), Val)(t)


_s, _i, _x, _d = z3.Const("s!nw", sort(VS)), z3.Int("i!nw"), z3.Const("x!nw", Val), z3.Const("d!nw", sort(DICT(VAL, INT)))
_k, _e, _q = z3.Const("k!nw", Str), z3.Const("e!nw", sort(EDGE)), z3.Const("q!nw", sort(SEQ(EDGE)))
axiom("box.Int", FA(_i, z3.Function("unbox.Int", Val, z3.IntSort())(boxi(_i)) == _i, boxi(_i)))

# ------------------------------------------------------------------ pandas (assumed)
UNIQ = z3.Function("UNIQ", sort(VS), sort(VS))  # Series.unique: every value once
NULL = z3.Function("pd.isnull", Val, z3.BoolSort())
NULLS = z3.Function("pd.isnulls", sort(VS), sort(SEQ(BOOL)))
NAN = z3.Const("NaN", Val)
MAPPED = z3.Function("MAPPED", sort(VS), sort(DICT(VAL, INT)), sort(VS))  # Series.map(dict)
axiom("UNIQ", FA(_s, And(Distinct(UNIQ(_s)), ToSet(UNIQ(_s)) == ToSet(_s)), UNIQ(_s)))
axiom("NULLS", FA(_s, Len(NULLS(_s)) == Len(_s), NULLS(_s)))
axiom("NULLS.at", FA([_s, _i], Imp(InR(_i, _s), At(NULLS(_s), _i) == NULL(At(_s, _i))), At(NULLS(_s), _i)))
axiom("MAPPED.len", FA([_s, _d], Len(MAPPED(_s, _d)) == Len(_s), MAPPED(_s, _d)))
MAPI = z3.Function("MAPI", sort(VS), sort(DICT(INT, VAL)), sort(VS))  # Series.map(dict) of ints
_di, unboxi = z3.Const("di!nw", sort(DICT(INT, VAL))), z3.Function("unbox.Int", Val, z3.IntSort())
axiom("MAPI.len", FA([_s, _di], Len(MAPI(_s, _di)) == Len(_s), MAPI(_s, _di)))
axiom("MAPI.at", FA([_s, _di, _i], Imp(InR(_i, _s), At(MAPI(_s, _di), _i) == If(Has(_di, unboxi(At(_s, _i))), Get(_di, unboxi(At(_s, _i))), NAN)), At(MAPI(_s, _di), _i)))
axiom("MAPPED.at", FA([_s, _d, _i], Imp(InR(_i, _s), At(MAPPED(_s, _d), _i) == If(Has(_d, At(_s, _i)), boxi(Get(_d, At(_s, _i))), NAN)), At(MAPPED(_s, _d), _i)))


def b_isnull(eng, st, args, kws, node, mod):
    (x,) = args
    if kws:
        raise Unsupported("isnull options")
    ty = eng.tyof(x)
    if ty.kind == "Seq":
        return V(SEQ(BOOL), NULLS(eng.term(st, x, VS)))
    return V(BOOL, NULL(eng.term(st, x, VAL)))


BUILTINS["pandas.isnull"] = BUILTINS["pandas.isna"] = b_isnull


class Column(Model):
    what = "Series"

    def __init__(self, q, index=None):
        self.q, self.index = q, index

    def attr(self, eng, st, name):
        if name == "unique":
            return PyObj("pyfn", lambda g, s, a, k: V(VS, UNIQ(self.q)))
        if name == "values":
            return V(VS, self.q)
        if name == "map":
            def f(g, s, a, k):
                if k or len(a) != 1:
                    raise Unsupported("map options")
                if isinstance(a[0], (V, H)) and prune(g.tyof(a[0]).args[0]).kind == "Int":
                    return model(Column(MAPI(self.q, g.term(s, a[0], DICT(INT, VAL))), self.index))
                return model(Column(MAPPED(self.q, g.term(s, a[0], DICT(VAL, INT))), self.index))
            return PyObj("pyfn", f)
        raise Unsupported("Series.%s" % name)

    def iterate(self, eng, st):
        return VAL, self.q

    def length(self, eng, st):
        return Len(self.q)


def frame_new(eng, st, cols, vals, rows, index):
    r, nn = fresh("frame", DF), fresh("now", INT)
    st.pc += [r != null, birth(r) == st.now, nn == st.now + 1]
    st.now = nn
    eng.log(("field", None, "@alloc"))
    for k, t in ((DC, cols), (DV, vals), (DN, rows), (DI, index)):
        st.heap[k] = eng.named(st, z3.Store(eng.hget(st, k), r, t), "H." + k)
        eng.log(("field", r, k))
    return V(DF, r)


def df_get(eng, st, base, idx):
    r = eng.term(st, base)
    cols, vals = eng.hget(st, DC)[r], eng.hget(st, DV)[r]
    if eng.tyof(idx).kind == "Str":
        k = eng.term(st, idx, STR)
        eng.obl(st, "safe:column exists", Mem(cols, k))
        return model(Column(Get(vals, k), eng.hget(st, DI)[r]))
    q = eng.term(st, idx, SEQ(STR))
    i, k = z3.Int("i!dg"), z3.Const("k!dg", Str)
    eng.obl(st, "safe:columns exist", FA(i, Imp(InR(i, q), Mem(cols, At(q, i))), At(q, i)))
    v = fresh("columns", COLS)
    st.pc += [FA(k, Has(v, k) == Mem(q, k), Has(v, k)), FA(k, Imp(Mem(q, k), Get(v, k) == Get(vals, k)), Get(v, k))]
    return frame_new(eng, st, q, v, eng.hget(st, DN)[r], eng.hget(st, DI)[r])


def df_set(eng, st, base, idx, v):
    r = eng.term(st, base)
    k = eng.term(st, idx, STR)
    cols, vals = eng.hget(st, DC)[r], eng.hget(st, DV)[r]
    if not (isinstance(v, PyObj) and v.kind == "model" and isinstance(v.a[0], Column)):
        raise Unsupported("column store")
    if v.a[0].index is not None:
        eng.obl(st, "safe:rows are aligned", v.a[0].index == eng.hget(st, DI)[r])
    if z3.is_app(k) and k.decl().name() in ("TEXT", "str_cat"):  # a name put together from parts: a new column, or in place of the one of that name
        eng.obl(st, "safe:a value per row", Len(v.a[0].q) == eng.hget(st, DN)[r])
        put(eng, st, r, DC, If(Mem(cols, k), cols, App(cols, k)))
        put(eng, st, r, DV, th_dict_set(vals, k, v.a[0].q))
        return
    eng.obl(st, "safe:column exists", Mem(cols, k))
    eng.write(st, H(COLS, ("field", r, DV)), th_dict_set(vals, k, v.a[0].q))


def th_dict_set(d, k, v):
    s = d.sort()
    return s.constructor(0)(z3.Store(Dom(d), k, True), z3.Store(Vals(d), k, v))


def df_copy(eng, st, base):
    def f(g, s, a, k):
        if a or set(k) - {"deep"} or ("deep" in k and not z3.is_true(g.truth(s, k["deep"])) and g.truth(s, k["deep"]) is not True):
            raise Unsupported("copy options")
        r = g.term(s, base)
        return frame_new(g, s, *[g.hget(s, k)[r] for k in (DC, DV, DN, DI)])
    return PyObj("pyfn", f)


HOOKS[("DataFrame", "[]")], HOOKS[("DataFrame", "[]=")], HOOKS[("DataFrame", "copy")] = df_get, df_set, df_copy
HOOKS[("DataFrame", "columns")] = lambda eng, st, b: V(SEQ(STR), eng.hget(st, DC)[eng.term(st, b)])


def frame_ok(h, r):
    k, l = z3.Consts("k!fo l!fo", Str)
    return [("a-frame", r != null), ("columns-once", Distinct(h[DC][r])), ("columns-have-values", FA(k, Has(h[DV][r], k) == Mem(h[DC][r], k), Has(h[DV][r], k), Mem(h[DC][r], k)))]


# ------------------------------------------------------------------ networkx and pgmpy (assumed)
EDGES = sort(SET(EDGE))
NCOMP = z3.Function("NCOMP", sort(SET(STR)), EDGES, z3.IntSort())  # weakly connected components
DAG = z3.Function("DAG", EDGES, z3.BoolSort())
ENDS = z3.Function("ENDS", sort(SEQ(EDGE)), sort(SEQ(STR)))  # the end points of edges, in order of appearance
axiom("ENDS", FA(_q, Distinct(ENDS(_q)), ENDS(_q)))
_EW = z3.Function("ENDS.w", sort(SEQ(EDGE)), Str, z3.IntSort())
axiom("ENDS.mem", FA([_q, _i], Imp(InR(_i, _q), And(Mem(ENDS(_q), P(At(_q, _i), 0)), Mem(ENDS(_q), P(At(_q, _i), 1)))), (ENDS(_q), At(_q, _i))))
axiom("ENDS.only", FA([_q, _k], Imp(Mem(ENDS(_q), _k), And(InR(_EW(_q, _k), _q), Or(P(At(_q, _EW(_q, _k)), 0) == _k, P(At(_q, _EW(_q, _k)), 1) == _k))), Mem(ENDS(_q), _k)))


def g_sets(eng, st, x):
    r = eng.term(st, x, REF("StructureModel"))
    return ToSet(eng.hget(st, SN)[r]), ToSet(eng.hget(st, SE)[r])


def b_ncomp(eng, st, args, kws, node, mod):
    return V(INT, NCOMP(*g_sets(eng, st, args[0])))


def b_dag(eng, st, args, kws, node, mod):
    return V(BOOL, DAG(g_sets(eng, st, args[0])[1]))


def b_cycle(eng, st, args, kws, node, mod):
    eng.obl(st, "safe:there is a cycle", Not(DAG(g_sets(eng, st, args[0])[1])))
    return V(SEQ(EDGE), fresh("cycle", SEQ(EDGE)))


BUILTINS["networkx.number_weakly_connected_components"] = b_ncomp
BUILTINS["networkx.is_directed_acyclic_graph"] = b_dag
BUILTINS["networkx.find_cycle"] = b_cycle
HOOKS[("StructureModel", "edges")] = lambda eng, st, b: V(SEQ(EDGE), eng.hget(st, SE)[eng.term(st, b)])
HOOKS[("StructureModel", "nodes")] = lambda eng, st, b: V(SEQ(STR), eng.hget(st, SN)[eng.term(st, b)])
HOOKS[("BayesianModel", "nodes")] = lambda eng, st, b: V(SEQ(STR), eng.hget(st, MN)[eng.term(st, b)])
HOOKS[("BayesianModel", "edges")] = lambda eng, st, b: V(SEQ(EDGE), eng.hget(st, ME_)[eng.term(st, b)])


def b_bayesian_model(eng, st, args, kws, node, mod):
    if args or kws:
        raise Unsupported("arguments of BayesianModel")
    r, nn = fresh("model", REF("BayesianModel")), fresh("now", INT)
    st.pc += [r != null, birth(r) == st.now, nn == st.now + 1]
    st.now = nn
    eng.log(("field", None, "@alloc"))
    for k, t in ((MN, th(SEQ(STR)).empty), (ME_, th(SEQ(EDGE)).empty)):
        st.heap[k] = eng.named(st, z3.Store(eng.hget(st, k), r, t), "H." + k)
        eng.log(("field", r, k))
    return V(REF("BayesianModel"), r)


BUILTINS["BayesianModel"] = BUILTINS["pgmpy.models.BayesianModel"] = b_bayesian_model


def add_edges(eng, st, base):
    def f(g, s, a, k):
        (x,) = a
        r = g.term(s, base)
        ety, q = g.iter_seq(s, x)
        # a new model: exactly these edges and their ends
        g.obl(s, "safe:new model", Len(g.hget(s, ME_)[r]) == 0)
        for key, ty, t in ((MN, SEQ(STR), ENDS(q)), (ME_, SEQ(EDGE), q)):
            g.write(s, H(ty, ("field", r, key)), t)
        return NONEV
    return PyObj("pyfn", f)


HOOKS[("BayesianModel", "add_edges_from")] = add_edges
VALUES["MaximumLikelihoodEstimator"] = lambda eng, st: V(STR, StrC("MaximumLikelihoodEstimator"))
VALUES["BayesianEstimator"] = lambda eng, st: V(STR, StrC("BayesianEstimator"))


def fit(eng, st, base):
    """what the estimator is given is remembered; the tables learned from it are pgmpy's"""
    def f(g, s, a, k):
        if a or not {"data", "estimator", "state_names"} <= set(k) or set(k) - {"data", "estimator", "state_names", "prior_type", "equivalent_sample_size"}:
            raise Unsupported("options of fit")
        r = g.term(s, base)
        d = g.term(s, k["data"])
        g.obl(s, "safe:data", And(d != null))
        for n, ty, t in (("fitted", COLS, g.hget(s, DV)[d]), ("states", NAMES, g.term(s, k["state_names"], NAMES)), ("estimator", STR, g.term(s, k["estimator"], STR)),
                         ("prior", OPT(STR), g.term(s, k.get("prior_type", NONEV), OPT(STR))), ("sample_size", OPT(INT), g.term(s, k.get("equivalent_sample_size", NONEV), OPT(INT)))):
            key = "BayesianModel." + n
            s.heap[key] = g.named(s, z3.Store(g.hget(s, key), r, t), "H." + key)
            g.log(("field", r, key))
        return NONEV
    return PyObj("pyfn", f)


HOOKS[("BayesianModel", "fit")] = fit

# ------------------------------------------------------------------ the network
def n_model(h, me):
    return h[MODEL][me]


def nodes_of(h, me):
    return h[MN][n_model(h, me)]


contract("BayesianNetwork.__init__", params={"self": BN, "structure": REF("StructureModel")}, allocates=True,
         requires=lambda c: [("a-structure", c.a["structure"] != null)],
         modifies=[(k, lambda c, x: x == ME(c)) for k in (STATES, STRUCT, MODEL)],
         raises=[("ValueError", lambda c: (lambda n, e: Or(NCOMP(n, e) > 1, Not(DAG(e))))(ToSet(c.o[SN][c.a["structure"]]), ToSet(c.o[SE][c.a["structure"]])))],
         ensures=lambda c: [("structure-kept", c.n[STRUCT][ME(c)] == c.a["structure"]), ("states-not-fitted", none(c.n[STATES][ME(c)])),
                            ("a-model-of-its-own", c.fresh_ref(n_model(c.n, ME(c)))),
                            ("same-edges", c.n[ME_][n_model(c.n, ME(c))] == c.o[SE][c.a["structure"]]), ("nodes-are-the-end-points", nodes_of(c.n, ME(c)) == ENDS(c.o[SE][c.a["structure"]]))])

built = lambda c: [("built", n_model(c.o, ME(c)) != null)]
contract("BayesianNetwork.structure", params={"self": BN}, ret=REF("StructureModel"), ensures=lambda c: [("the-structure", c.res == c.o[STRUCT][ME(c)])])
contract("BayesianNetwork.nodes", params={"self": BN}, ret=SEQ(STR), requires=built, ensures=lambda c: [("the-nodes", c.res == nodes_of(c.o, ME(c)))])
contract("BayesianNetwork.edges", params={"self": BN}, ret=SEQ(EDGE), requires=built, ensures=lambda c: [("the-edges", c.res == c.o[ME_][n_model(c.o, ME(c))])])


def states_ens(c):
    t = the(c.o[STATES][ME(c)])
    k, v = z3.Const("k!se", Str), z3.Const("v!se", Val)
    return [("every-node", FA(k, Has(c.res, k) == Has(t, k), Has(c.res, k))), ("its-states", FA([k, v], Imp(Has(t, k), Get(c.res, k)[v] == Has(Get(t, k), v)), Get(c.res, k)[v]))]


contract("BayesianNetwork.node_states", props=("C24", "C28"), params={"self": BN}, ret=DICT(STR, SET(VAL)), requires=lambda c: [("fitted", Not(none(c.o[STATES][ME(c)])))], ensures=states_ens)


def indexed(t, want, has):
    """t: node -> state -> position in sorted order"""
    k, v = z3.Const("k!ix", Str), z3.Const("v!ix", Val)
    i = z3.Int("i!ix")
    return [("every-node", FA(k, Has(t, k) == has(k), Has(t, k))),
            ("exactly-the-states", FA([k, v], Imp(has(k), Has(Get(t, k), v) == want(k)[v]), Has(Get(t, k), v))),
            ("position-in-sorted-order", FA([k, i], Imp(And(has(k), InR(i, SrtSet(want(k)))), Get(Get(t, k), At(SrtSet(want(k)), i)) == i), (Get(t, k), At(SrtSet(want(k)), i))))]


def missing(c, has):
    k = z3.Const("k!mi", Str)
    return EX(k, And(Mem(nodes_of(c.o, ME(c)), k), Not(has(k))))


def a_null(has, states):
    k, v = z3.Const("k!nu", Str), z3.Const("v!nu", Val)
    return EX([k, v], And(has(k), states(k)[v], NULL(v)))


def setter_inv(lp):
    t = lp.a["nodes"]
    j, v = z3.Int("j!si"), z3.Const("v!si", Val)
    return [("no-null-so-far", FA([j, v], Imp(And(0 <= j, j < lp.i, Get(t, P(At(lp.S, j), 0))[v]), Not(NULL(v))), (At(lp.S, j), Get(t, P(At(lp.S, j), 0))[v])))]


given = lambda c: (lambda k: Has(c.a["nodes"], k))
stated = lambda c: (lambda k: Get(c.a["nodes"], k))
contract("BayesianNetwork.node_states@setter", params={"self": BN, "nodes": DICT(STR, SET(VAL))}, requires=built,
         modifies=[(STATES, lambda c, x: x == ME(c))],
         raises=[("KeyError", lambda c: missing(c, given(c))), ("ValueError", lambda c: And(Not(missing(c, given(c))), a_null(given(c), stated(c))))],
         loops=[LoopSpec(setter_inv)],
         ensures=lambda c: [("fitted", Not(none(c.n[STATES][ME(c)])))] + indexed(the(c.n[STATES][ME(c)]), stated(c), given(c)))


def df_has(c, p):
    return lambda k: Mem(c.o[DC][c.a[p]], k)


def df_states(c, p):
    return lambda k: ToSet(Get(c.o[DV][c.a[p]], k))


def fit_states(p):
    return dict(requires=lambda c: built(c) + frame_ok(c.o, c.a[p]), modifies=[(STATES, lambda c, x: x == ME(c))],
                raises=[("KeyError", lambda c: missing(c, df_has(c, p))), ("ValueError", lambda c: And(Not(missing(c, df_has(c, p))), a_null(df_has(c, p), df_states(c, p))))],
                ensures=lambda c: [("returns-itself", c.res == ME(c)), ("fitted", Not(none(c.n[STATES][ME(c)])))] + indexed(the(c.n[STATES][ME(c)]), df_states(c, p), df_has(c, p)))


contract("BayesianNetwork.fit_node_states", params={"self": BN, "df": DF}, ret=BN, **fit_states("df"))


def mapped_cols(c):
    """the columns converted: those named, or all"""
    o = c.a["nodes"]
    return If(Or(none(o), Len(the(o)) == 0), c.o[DC][c.a["df"]], the(o))


def codes(c, t, q, old, new, done=None):
    k = z3.Const("k!co", Str)
    conv = Mem(q, k) if done is None else And(Mem(q, k), done(k))
    return [("same-columns", FA(k, Has(new, k) == Has(old, k), Has(new, k))),
            ("state-to-index", FA(k, Imp(conv, Get(new, k) == MAPPED(Get(old, k), Get(t, k))), Get(new, k))),
            ("other-columns-kept", FA(k, Imp(Not(conv), Get(new, k) == Get(old, k)), Get(new, k)))]


def sti_inv(lp):
    r = lp.a["df"]
    x = z3.Const("x!sti", Ref)
    return [("other-frames", FA(x, Imp(x != r, lp.n[DV][x] == lp.o[DV][x]), lp.n[DV][x]))] + codes(lp, the(lp.o[STATES][lp.a["self"]]), lp.S, lp.o[DV][r], lp.n[DV][r], lambda k: Idx(lp.S, k) < lp.i)


def sti_req(c):
    k = z3.Const("k!sr", Str)
    q = mapped_cols(c)
    return frame_ok(c.o, c.a["df"]) + [("fitted", Not(none(c.o[STATES][ME(c)]))), ("columns-once", Distinct(q)),
                                       ("columns-are-known-nodes", FA(k, Imp(Mem(q, k), And(Mem(c.o[DC][c.a["df"]], k), Has(the(c.o[STATES][ME(c)]), k))), Mem(q, k)))]


contract("BayesianNetwork._state_to_index", props=("C24", "C28"), params={"self": BN, "df": DF, "nodes": OPT(SEQ(STR))}, ret=DF, requires=sti_req,
         modifies=[(DV, lambda c, x: x == c.a["df"])], loops=[LoopSpec(sti_inv)],
         ensures=lambda c: [("same-frame", c.res == c.a["df"])] + codes(c, the(c.o[STATES][ME(c)]), mapped_cols(c), c.o[DV][c.a["df"]], c.n[DV][c.a["df"]]))

MLE, BAYES = StrC("MaximumLikelihoodEstimator"), StrC("BayesianEstimator")


def refused(c):
    m, p = c.a["method"], c.a["bayes_prior"]
    return Or(And(m != MLE, m != BAYES), And(m == BAYES, Or(none(p), And(the(p) != StrC("BDeu"), the(p) != StrC("K2")))))


def fit_ens(c, t=None, frame="data"):
    """the estimator is given the codes of every node's column, and all the codes of every node"""
    t = the(c.n[STATES][ME(c)]) if t is None else t
    m, d = n_model(c.o, ME(c)), c.o[DV][c.a[frame]]
    h = lambda f: c.n["BayesianModel." + f][m]
    k, i = z3.Const("k!fi", Str), z3.Int("i!fi")
    ns = nodes_of(c.o, ME(c))
    return [("returns-itself", c.res == ME(c)), ("estimator", h("estimator") == c.a["method"]),
            ("prior", Imp(c.a["method"] == BAYES, And(h("prior") == c.a["bayes_prior"], h("sample_size") == c.a["equivalent_sample_size"]))),
            ("the-nodes", FA(k, Has(h("fitted"), k) == Mem(ns, k), Has(h("fitted"), k))),
            ("codes-of-the-data", FA(k, Imp(Mem(ns, k), Get(h("fitted"), k) == MAPPED(Get(d, k), Get(t, k))), Get(h("fitted"), k))),
            ("all-nodes-have-codes", FA(k, Has(h("states"), k) == Has(t, k), Has(h("states"), k))),
            ("all-codes", FA([k, i], Imp(Has(t, k), Mem(Get(h("states"), k), i) == ISCODE(Get(t, k), i)), Mem(Get(h("states"), k), i)))]


ISCODE = z3.Function("ISCODE", sort(DICT(VAL, INT)), z3.IntSort(), z3.BoolSort())  # the index of some state
_cw = z3.Function("ISCODE.w", sort(DICT(VAL, INT)), z3.IntSort(), Val)
axiom("ISCODE.def", FA([_d, _i], Imp(ISCODE(_d, _i), And(Has(_d, _cw(_d, _i)), Get(_d, _cw(_d, _i)) == _i)), ISCODE(_d, _i)))
axiom("ISCODE.intro", FA([_d, _x], Imp(Has(_d, _x), ISCODE(_d, Get(_d, _x))), Has(_d, _x), Get(_d, _x)))


def fit_req(c, p="data"):
    k = z3.Const("k!fq", Str)
    t = the(c.o[STATES][ME(c)])
    ns = nodes_of(c.o, ME(c))
    return built(c) + frame_ok(c.o, c.a[p]) + [("fitted", Not(none(c.o[STATES][ME(c)]))), ("some-nodes", And(Len(ns) > 0, Distinct(ns))),
                                               ("data-and-states-for-every-node", FA(k, Imp(Mem(ns, k), And(Has(t, k), Mem(c.o[DC][c.a[p]], k))), Mem(ns, k)))]


FITP = {"data": DF, "method": STR, "bayes_prior": OPT(STR), "equivalent_sample_size": OPT(INT)}
FITTED = [("BayesianModel." + f, lambda c, x: x == n_model(c.o, ME(c))) for f in ("fitted", "states", "estimator", "prior", "sample_size")]
contract("BayesianNetwork.fit_cpds", params=dict({"self": BN}, **FITP), ret=BN, requires=fit_req, allocates=True, modifies=FITTED,
         raises=[("ValueError", refused)], ensures=fit_ens)


fs = fit_states("data")
contract("BayesianNetwork.fit_node_states_and_cpds", params=dict({"self": BN}, **FITP), ret=BN, allocates=True, modifies=FITTED + fs["modifies"], changed_by_refusal=[STATES],
         requires=lambda c: fs["requires"](c) + [("some-nodes", And(Len(nodes_of(c.o, ME(c))) > 0, Distinct(nodes_of(c.o, ME(c)))))],
         raises=[fs["raises"][0], ("ValueError", lambda c: And(Not(missing(c, df_has(c, "data"))), Or(a_null(df_has(c, "data"), df_states(c, "data")), refused(c))))],
         ensures=lambda c: fs["ensures"](c) + [x for x in fit_ens(c) if x[0] != "returns-itself"])


# ------------------------------------------------------------------ the tables, labelled
LV, SS = SEQ(VS), SEQ(STR)
for t in (LV, DICT(STR, REF("Table")), SEQ(REF("CPD"))):
    sort(t)
FIELDS["BayesianModel"]["cpds"] = SEQ(REF("CPD"))
FIELDS["BayesianModel"]["vars"] = SS  # ghost: the variables of the tables, in their order
FIELDS["CPD"] = {"variable": STR, "variables": SS, "values": REF("array")}
FIELDS["array"] = {"dims": SEQ(INT)}  # the length of each axis
FIELDS["Table"] = {"cells": REF("array"), "rows": INT, "columns": SS, "added": OPT(STR), "added_values": VS, "index": VS, "index_name": STR}
FROZEN |= {"CPD." + f for f in FIELDS["CPD"]} | {"array.dims", "BayesianModel.cpds", "BayesianModel.vars", "Table.columns", "Table.added_values", "Table.index"}
KEYS = z3.Function("MultiIndex", sort(LV), sort(SS), sort(SS))  # the combinations of levels, named
PI, PIL = z3.Function("PI", sort(SEQ(INT)), z3.IntSort()), z3.Function("PI.len", sort(LV), z3.IntSort())
_l, _m, _n = z3.Const("l!nw", sort(LV)), z3.Const("m!nw", sort(SEQ(INT))), z3.Const("n!nw", sort(SS))
_pw, _po = z3.Function("PI.w", sort(SEQ(INT)), sort(LV), z3.IntSort()), z3.Function("PI.one", sort(LV), z3.IntSort())
axiom("KEYS.len", FA([_l, _n], Imp(Len(_l) > 0, Len(KEYS(_l, _n)) == PIL(_l)), KEYS(_l, _n)))
axiom("PI.eq", FA([_m, _l], Or(PI(_m) == PIL(_l), Len(_m) != Len(_l), And(InR(_pw(_m, _l), _l), At(_m, _pw(_m, _l)) != Len(At(_l, _pw(_m, _l))))), (PI(_m), PIL(_l))))
axiom("PI.empty", FA(_m, Imp(Len(_m) == 0, PI(_m) == 1), PI(_m)))
axiom("PI.some", FA(_l, Or(PIL(_l) >= 1, And(InR(_po(_l), _l), Len(At(_l, _po(_l))) < 1)), PIL(_l)))


def b_product(eng, st, args, kws, node, mod):
    if len(args) != 1 or set(kws) - {"names"}:
        raise Unsupported("from_product options")
    l = eng.term(st, args[0], LV)
    n = eng.term(st, kws["names"], SS) if "names" in kws else fresh("unnamed", SS)
    eng.obl(st, "safe:levels", And(Len(l) > 0, Len(n) == Len(l)))
    return V(SS, KEYS(l, n))


BUILTINS["pandas.MultiIndex.from_product"] = b_product


def reshape(eng, st, base):
    def f(g, s, a, k):
        if k or len(a) != 2:
            raise Unsupported("reshape")
        r = g.term(s, base)
        d = g.hget(s, "array.dims")[r]
        n, m = g.term(s, a[0], INT), g.term(s, a[1], INT)
        g.obl(s, "safe:one row per entry of the first axis", And(Len(d) > 0, n == At(d, 0)))
        g.obl(s, "safe:as many columns as the other axes have entries", m == PI(th(SEQ(INT)).drop(d, 1)))
        return PyObj("record", array=V(REF("array"), r), rows=V(INT, n))
    return PyObj("pyfn", f)


HOOKS[("array", "reshape")] = reshape


def b_dataframe(eng, st, args, kws, node, mod):
    if kws or len(args) != 1 or not (isinstance(args[0], PyObj) and args[0].kind == "record" and "array" in args[0].k):
        raise Unsupported("DataFrame")
    r, nn = fresh("table", REF("Table")), fresh("now", INT)
    st.pc += [r != null, birth(r) == st.now, nn == st.now + 1]
    st.now = nn
    eng.log(("field", None, "@alloc"))
    for k, t in (("Table.cells", eng.term(st, args[0].k["array"])), ("Table.rows", eng.term(st, args[0].k["rows"])), ("Table.added", sort(OPT(STR)).constructor(0)())):
        st.heap[k] = eng.named(st, z3.Store(eng.hget(st, k), r, t), "H." + k)
        eng.log(("field", r, k))
    return V(REF("Table"), r)


BUILTINS["pandas.DataFrame"] = b_dataframe


def tab_set(eng, st, base, idx, v):
    r, k, q = eng.term(st, base), eng.term(st, idx, STR), eng.term(st, v, VS)
    eng.obl(st, "safe:one value per row", Len(q) == eng.hget(st, "Table.rows")[r])
    for key, t in (("Table.added", sort(OPT(STR)).constructor(1)(k)), ("Table.added_values", q)):
        st.heap[key] = eng.named(st, z3.Store(eng.hget(st, key), r, t), "H." + key)
        eng.log(("field", r, key))


def set_index(eng, st, base):
    def f(g, s, a, k):
        if len(a) != 1 or set(k) != {"inplace"} or g.truth(s, k["inplace"]) is not True and not z3.is_true(g.truth(s, k["inplace"])):
            raise Unsupported("set_index options")
        r, q = g.term(s, base), g.term(s, a[0], SS)
        o = g.hget(s, "Table.added")[r]
        g.obl(s, "safe:index of the added column", And(Len(q) == 1, Not(none(o)), the(o) == At(q, 0)))
        for key, t in (("Table.index", g.hget(s, "Table.added_values")[r]), ("Table.index_name", At(q, 0)), ("Table.added", sort(OPT(STR)).constructor(0)())):
            s.heap[key] = g.named(s, z3.Store(g.hget(s, key), r, t), "H." + key)
            g.log(("field", r, key))
        return NONEV
    return PyObj("pyfn", f)


HOOKS[("Table", "[]=")], HOOKS[("Table", "set_index")] = tab_set, set_index
MC = "BayesianModel.cpds"


def levels_of(h, me, x):
    """sorted states of the parents of x"""
    return lambda i: SrtSet(Dom(Get(the(h[STATES][me]), At(h["CPD.variables"][x], i + 1))))


def cpd_ok(h, me, x):
    t, vs, d = the(h[STATES][me]), h["CPD.variables"][x], h["array.dims"][h["CPD.values"][x]]
    i = z3.Int("i!ck")
    return And(x != null, h["CPD.values"][x] != null, Len(vs) > 0, At(vs, 0) == h["CPD.variable"][x], Len(d) == Len(vs),
               FA(i, Imp(InR(i, vs), And(Has(t, At(vs, i)), At(d, i) == Len(SrtSet(Dom(Get(t, At(vs, i))))), At(d, i) >= 1)), At(vs, i), At(d, i)))


def labelled(h0, h, me, x, r):
    """table r shows the entries of x, labelled"""
    t, vs = the(h0[STATES][me]), h0["CPD.variables"][x]
    i = z3.Int("i!lb")
    lv, nm, e = z3.Const("lv!lb", sort(LV)), th(SS).drop(vs, 1), App(th(SS).empty, StrC(""))
    cols = h["Table.columns"][r]
    return [("entries", And(r != null, h["Table.cells"][r] == h0["CPD.values"][x])),
            ("rows-are-the-sorted-states", h["Table.index"][r] == SrtSet(Dom(Get(t, h0["CPD.variable"][x])))),
            ("row-name", h["Table.index_name"][r] == h0["CPD.variable"][x]),
            ("nothing-left-over", none(h["Table.added"][r])),
            ("no-parents", Imp(Len(vs) == 1, SeqEq(cols, e))),
            ("columns-are-combinations-of-sorted-states", Imp(Len(vs) > 1, And(cols == KEYS(CLEV(cols), nm), Len(CLEV(cols)) == Len(nm), FA(i, Imp(InR(i, nm), At(CLEV(cols), i) == levels_of(h0, me, x)(i)), At(CLEV(cols), i)))))]


CLEV = z3.Function("MultiIndex.levels", sort(SS), sort(LV))
axiom("KEYS.levels", FA([_l, _n], CLEV(KEYS(_l, _n)) == _l, KEYS(_l, _n)))


def vars_of(h, me):
    return h["BayesianModel.vars"][n_model(h, me)]


TF = ["Table." + f for f in FIELDS["Table"]]


def so_far(h0, h, me, q, vs, d, n, old):
    """one labelled table per conditional distribution"""
    j, k = z3.Int("j!ci"), z3.Const("k!ci", Str)
    v, r = At(vs, j), Get(d, At(vs, j))
    return [("one-table-each", FA(j, Imp(And(0 <= j, j < n), And(Has(d, v), r != null, old(r))), v)),
            ("no-other-table", FA(k, Imp(Has(d, k), And(Mem(vs, k), Idx(vs, k) < n)), Has(d, k)))] + [
            (l, FA(j, Imp(And(0 <= j, j < n), f), At(vs, j))) for l, f in labelled(h0, h, me, At(q, j), r)]


def cpds_inv(lp):
    x = z3.Const("x!co", Ref)
    return [("old-tables-kept:" + f, FA(x, Imp(birth(x) < lp.now0, lp.n[f][x] == lp.o[f][x]), lp.n[f][x])) for f in TF] + so_far(
        lp.o, lp.n, lp.a["self"], lp.S, vars_of(lp.o, lp.a["self"]), lp.v("cpds"), lp.i, lambda r: And(birth(r) >= lp.now0, birth(r) < lp.now))


def cpds_req2(h, me):
    q, vs = h[MC][n_model(h, me)], vars_of(h, me)
    i = z3.Int("i!cr")
    return [("fitted", Not(none(h[STATES][me]))), ("one-per-variable", And(Distinct(vs), Len(vs) == Len(q), FA(i, Imp(InR(i, q), And(At(vs, i) == h["CPD.variable"][At(q, i)], cpd_ok(h, me, At(q, i)))), At(q, i), At(vs, i))))]


def cpds_req(c):
    return built(c) + cpds_req2(c.o, ME(c))


contract("BayesianNetwork.cpds", props=("C24", "C28"), params={"self": BN}, ret=DICT(STR, REF("Table")), allocates=True, requires=cpds_req,
         locals={"cpds": DICT(STR, REF("Table"))}, loops=[LoopSpec(cpds_inv)],
         ensures=lambda c: (lambda q: so_far(c.o, c.n, ME(c), q, vars_of(c.o, ME(c)), c.res, Len(q), lambda r: c.fresh_ref(r)))(c.o[MC][n_model(c.o, ME(c))]))


# ------------------------------------------------------------------ predictions (C28)
# PROB(entries, rows, levels, s, key): the entry of a table, rows labelled by the states, columns by the combinations of
# levels, at the row s and the column key
PROB = z3.Function("PROB", Ref, sort(VS), sort(LV), Val, sort(VS), Val)
IDXMAX = z3.Function("IDXMAX", Ref, sort(VS), sort(LV), sort(VS), Val)
KEY = z3.Function("KEY", sort(COLS), sort(SS), z3.IntSort(), sort(VS))  # the values of the columns named, in row i
LVLS = z3.Function("LVLS", sort(DICT(STR, DICT(VAL, INT))), sort(SS), sort(LV))  # the sorted states of each
PARENTS = z3.Function("PARENTS", sort(SEQ(EDGE)), Str, sort(SS))
MULTI = z3.Function("MultiIndex.is", sort(SS), z3.BoolSort())
DROPPED = z3.Function("DROPPED", sort(SS), sort(SS), sort(SS))
PGM = z3.Function("pgmpy.predict", Ref, sort(COLS), Str, sort(VS))  # the most likely index, row by row, given the columns
PGMP = z3.Function("pgmpy.predict_probability", Ref, sort(COLS), Str, z3.IntSort(), sort(VS))
EVID = z3.Function("EVID", sort(COLS), sort(SS), sort(NS), Str, sort(COLS))  # the columns other than the node's, as indices
_a, _ky, _c, _t, _m_ = z3.Const("a!nw", Ref), z3.Const("ky!nw", sort(VS)), z3.Const("c!nw", sort(COLS)), z3.Const("t!nw", sort(NS)), z3.Const("mo!nw", Ref)
_c2 = z3.Const("c2!nw", sort(COLS))
axiom("KEYS.multi", FA([_l, _n], MULTI(KEYS(_l, _n)), KEYS(_l, _n)))
axiom("KEY.len", FA([_c, _n, _i], Len(KEY(_c, _n, _i)) == Len(_n), KEY(_c, _n, _i)))
_j = z3.Int("j!nw")
axiom("KEY.at", FA([_c, _n, _i, _j], Imp(InR(_j, _n), At(KEY(_c, _n, _i), _j) == At(Get(_c, At(_n, _j)), _i)), At(KEY(_c, _n, _i), _j)))
_kw = z3.Function("KEY.w", sort(COLS), sort(SS), z3.IntSort(), sort(VS), z3.IntSort())
_w = _kw(_c, _n, _i, _ky)
axiom("KEY.ext", FA([_c, _n, _i, _a, _s, _l, _x, _ky], Or(_ky == KEY(_c, _n, _i), Len(_ky) != Len(_n), And(InR(_w, _n), At(_ky, _w) != At(Get(_c, At(_n, _w)), _i))), (KEY(_c, _n, _i), PROB(_a, _s, _l, _x, _ky))))
axiom("KEY.ext2", FA([_c, _n, _i, _a, _s, _l, _ky], Or(_ky == KEY(_c, _n, _i), Len(_ky) != Len(_n), And(InR(_w, _n), At(_ky, _w) != At(Get(_c, At(_n, _w)), _i))), (KEY(_c, _n, _i), IDXMAX(_a, _s, _l, _ky))))
axiom("LVLS.len", FA([_t, _n], Len(LVLS(_t, _n)) == Len(_n), LVLS(_t, _n)))
axiom("LVLS.at", FA([_t, _n, _j], Imp(InR(_j, _n), At(LVLS(_t, _n), _j) == SrtSet(Dom(Get(_t, At(_n, _j))))), At(LVLS(_t, _n), _j)))
axiom("LVLS.cols", FA([_t, _n, z3.Const("cs!nw", sort(SS))], (lambda l, w: Or(l == LVLS(_t, _n), Len(l) != Len(_n), And(InR(w, _n), At(l, w) != SrtSet(Dom(Get(_t, At(_n, w)))))))(CLEV(z3.Const("cs!nw", sort(SS))), z3.Function("LVLS.w2", sort(NS), sort(SS), sort(SS), z3.IntSort())(_t, _n, z3.Const("cs!nw", sort(SS)))), (LVLS(_t, _n), CLEV(z3.Const("cs!nw", sort(SS))))))
_best = IDXMAX(_a, _s, _l, _ky)
axiom("IDXMAX.row", FA([_a, _s, _l, _ky], Imp(Len(_s) > 0, Mem(_s, _best)), _best))
axiom("IDXMAX.max", FA([_a, _s, _l, _ky, _x], Imp(Mem(_s, _x), Not(strict_lt(Val)(PROB(_a, _s, _l, _best, _ky), PROB(_a, _s, _l, _x, _ky)))), (_best, PROB(_a, _s, _l, _x, _ky)), (_best, Mem(_s, _x))))
_n2 = z3.Const("n2!nw", sort(SS))
axiom("DROPPED.mem", FA([_n, _n2, _k], Mem(DROPPED(_n, _n2), _k) == And(Mem(_n, _k), Not(Mem(_n2, _k))), Mem(DROPPED(_n, _n2), _k)))
axiom("DROPPED.once", FA([_n, _n2], Imp(Distinct(_n), Distinct(DROPPED(_n, _n2))), DROPPED(_n, _n2)))
_ev = EVID(_c, _n, _t, _k)
_k2 = z3.Const("k2!nw", Str)
axiom("EVID.has", FA([_c, _n, _t, _k, _k2], Has(_ev, _k2) == And(Mem(_n, _k2), _k2 != _k), Has(_ev, _k2)))
axiom("EVID.get", FA([_c, _n, _t, _k, _k2], Imp(And(Mem(_n, _k2), _k2 != _k), Get(_ev, _k2) == MAPPED(Get(_c, _k2), Get(_t, _k2))), Get(_ev, _k2)))


def same_evidence(a, b, w):
    """the columns the model is given are these, or w tells them apart"""
    return Or(Has(a, w) != Has(b, w), And(Has(a, w), Has(b, w), Get(a, w) != Get(b, w)))


_xw = z3.Function("EVID.w", sort(COLS), sort(COLS), Str)(_ev, _c2)
_k3 = z3.Const("k3!nw", Str)
axiom("EVID.ext", FA([_c, _n, _t, _k, _m_, _c2, _k3], Or(PGM(_m_, _c2, _k3) == PGM(_m_, _ev, _k3), same_evidence(_ev, _c2, _xw)), (_ev, PGM(_m_, _c2, _k3))))
axiom("EVID.extp", FA([_c, _n, _t, _k, _m_, _c2, _k3, _i], Or(PGMP(_m_, _c2, _k3, _i) == PGMP(_m_, _ev, _k3, _i), same_evidence(_ev, _c2, _xw)), (_ev, PGMP(_m_, _c2, _k3, _i))))


class Row(Model):
    what = "row of a DataFrame"

    def __init__(self, cols, vals, i):
        self.cols, self.vals, self.i = cols, vals, i

    def getitem(self, eng, st, idx):
        k = eng.term(st, idx, STR)
        eng.obl(st, "safe:column exists", Mem(self.cols, k))
        return V(VAL, At(Get(self.vals, k), self.i))


def df_apply(eng, st, base):
    def f(g, s, a, k):
        import ast
        if len(a) != 1 or set(k) != {"axis"} or not z3.eq(g.term(s, k["axis"], INT), z3.IntVal(1)):
            raise Unsupported("apply options")
        r = g.term(s, base)
        cols, vals, n = [g.hget(s, x)[r] for x in (DC, DV, DN)]
        rows = g.b_range(s, [V(INT, n)], {}, None, None)
        saved = dict(s.env)
        s.env["$rows"] = rows
        s.env["$f"] = PyObj("pyfn", lambda g2, s2, a2, k2: g2.call(s2, a[0], [model(Row(cols, vals, g2.term(s2, a2[0], INT)))], {}, None, None))
        e = ast.fix_missing_locations(ast.parse("[F(I) for I in ROWS]", mode="eval").body)
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                x.id = {"F": "$f", "I": "$i", "ROWS": "$rows"}[x.id]
        try:
            ety, q = g.comp(e, e.elt, e.generators, s, None)
        finally:
            s.env = saved
        return model(Column(q, g.hget(s, DI)[r]))
    return PyObj("pyfn", f)


def df_drop(eng, st, base):
    def f(g, s, a, k):
        if a or set(k) - {"columns", "errors"} or "columns" not in k:
            raise Unsupported("drop options")
        r, q = g.term(s, base), g.term(s, k["columns"], SS)
        cols, vals = g.hget(s, DC)[r], g.hget(s, DV)[r]
        if "errors" not in k:
            i = z3.Int("i!dd")
            g.obl(s, "safe:columns exist", FA(i, Imp(InR(i, q), Mem(cols, At(q, i))), At(q, i)))
        elif not z3.eq(g.term(s, k["errors"], STR), StrC("ignore")):
            raise Unsupported("drop errors")
        x, v, c = z3.Const("x!dd", Str), fresh("columns", COLS), DROPPED(cols, q)
        s.pc += [FA(x, Has(v, x) == Mem(c, x), Has(v, x)), FA(x, Imp(Mem(c, x), Get(v, x) == Get(vals, x)), Get(v, x))]
        return frame_new(g, s, c, v, g.hget(s, DN)[r], g.hget(s, DI)[r])
    return PyObj("pyfn", f)


def relabel(g, s, cols, vals, new):
    """the same columns under new names"""
    i, x, v = z3.Int("i!rl"), z3.Const("x!rl", Str), fresh("columns", COLS)
    g.obl(s, "safe:one name per column", Len(new) == Len(cols))
    g.obl(s, "safe:names differ", Distinct(new))
    s.pc += [FA(x, Has(v, x) == Mem(new, x), Has(v, x)), FA(i, Imp(InR(i, new), Get(v, At(new, i)) == Get(vals, At(cols, i))), At(new, i))]
    return v


def df_rename(eng, st, base):
    def f(g, s, a, k):
        if a or set(k) != {"columns"}:
            raise Unsupported("rename options")
        r, d = g.term(s, base), g.term(s, k["columns"], DICT(STR, STR))
        cols, vals = g.hget(s, DC)[r], g.hget(s, DV)[r]
        new, i = fresh("names", SS), z3.Int("i!rn")
        s.pc += [Len(new) == Len(cols), FA(i, Imp(InR(i, new), At(new, i) == If(Has(d, At(cols, i)), Get(d, At(cols, i)), At(cols, i))), At(new, i))]
        return frame_new(g, s, new, relabel(g, s, cols, vals, new), g.hget(s, DN)[r], g.hget(s, DI)[r])
    return PyObj("pyfn", f)


def df_set_columns(eng, st, base, v):
    r, new = eng.term(st, base), eng.term(st, v, SS)
    t = relabel(eng, st, eng.hget(st, DC)[r], eng.hget(st, DV)[r], new)
    put(eng, st, r, DC, new)
    put(eng, st, r, DV, t)


HOOKS[("DataFrame", "apply")], HOOKS[("DataFrame", "drop")], HOOKS[("DataFrame", "rename")] = df_apply, df_drop, df_rename
HOOKS[("DataFrame", "columns=")] = df_set_columns


def b_deepcopy(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws or prune(eng.tyof(args[0])).args != ("DataFrame",):
        raise Unsupported("deepcopy")
    r = eng.term(st, args[0])
    return frame_new(eng, st, *[eng.hget(st, k)[r] for k in (DC, DV, DN, DI)])


BUILTINS["copy.deepcopy"] = BUILTINS["deepcopy"] = b_deepcopy


def get_parents(eng, st, base):
    def f(g, s, a, k):
        if len(a) != 1 or k:
            raise Unsupported("get_parents")
        return g.newcell(s, SS, PARENTS(g.hget(s, ME_)[g.term(s, base)], g.term(s, a[0], STR)))
    return PyObj("pyfn", f)


HOOKS[("BayesianModel", "get_parents")] = get_parents


def evidence(g, s, base, a, k):
    if len(a) != 1 or k:
        raise Unsupported("options of predict")
    m, d = g.term(s, base), g.term(s, a[0])
    cols, vals, ns = g.hget(s, DC)[d], g.hget(s, DV)[d], g.hget(s, MN)[m]
    i, x = z3.Int("i!ev"), z3.Const("x!ev", Str)
    g.obl(s, "safe:only variables of the model", FA(i, Imp(InR(i, cols), Mem(ns, At(cols, i))), At(cols, i)))
    return m, d, cols, vals, ns


def pgm_predict(eng, st, base):
    def f(g, s, a, k):
        m, d, cols, vals, ns = evidence(g, s, base, a, k)
        c, v, x, i = fresh("missing", SS), fresh("predicted", COLS), z3.Const("x!pp", Str), z3.Int("i!pp")
        n, q = g.hget(s, DN)[d], Get(v, x)
        codes = Get(g.hget(s, "BayesianModel.states")[m], x)
        s.pc += [Distinct(c), FA(x, Mem(c, x) == And(Mem(ns, x), Not(Mem(cols, x))), Mem(c, x)), FA(x, Has(v, x) == Mem(c, x), Has(v, x)),
                 FA(x, Imp(Mem(c, x), And(q == PGM(m, vals, x), Len(q) == n)), q),
                 FA([x, i], Imp(And(Mem(c, x), InR(i, q)), And(Mem(codes, unboxi(At(q, i))))), At(q, i))]
        return frame_new(g, s, c, v, n, g.hget(s, DI)[d])
    return PyObj("pyfn", f)


def pgm_probability(eng, st, base):
    def f(g, s, a, k):
        m, d, cols, vals, ns = evidence(g, s, base, a, k)
        c, v, x, i = fresh("missing", SS), fresh("predicted", COLS), z3.Const("x!pq", Str), z3.Int("i!pq")
        n = g.hget(s, DN)[d]
        codes = Get(g.hget(s, "BayesianModel.states")[m], x)
        nm = TEXT(x, STRV(boxi(i)))
        s.pc += [Distinct(c), FA([x, i], Imp(And(Mem(ns, x), Not(Mem(cols, x)), Mem(codes, i)), And(Mem(c, nm), Get(v, nm) == PGMP(m, vals, x, i), Len(Get(v, nm)) == n)), nm),
                 FA(x, Has(v, x) == Mem(c, x), Has(v, x))]
        return frame_new(g, s, c, v, n, g.hget(s, DI)[d])
    return PyObj("pyfn", f)


HOOKS[("BayesianModel", "predict")], HOOKS[("BayesianModel", "predict_probability")] = pgm_predict, pgm_probability


class TableColumn(Model):
    """column of a table: the entries at one combination of parent states"""
    what = "column of a table"

    def __init__(self, a, rows, levels, key):
        self.a, self.rows, self.levels, self.key = a, rows, levels, key

    def attr(self, eng, st, name):
        if name == "idxmax":
            def f(g, s, a, k):
                if a or k:
                    raise Unsupported("idxmax options")
                g.obl(s, "safe:a row", Len(self.rows) > 0)
                return V(VAL, IDXMAX(self.a, self.rows, self.levels, self.key))
            return PyObj("pyfn", f)
        if name == "loc":
            return model(self)
        raise Unsupported("Series.%s" % name)

    def getitem(self, eng, st, idx):
        x = eng.term(st, idx, VAL)
        eng.obl(st, "safe:row exists", Mem(self.rows, x))
        return V(VAL, PROB(self.a, self.rows, self.levels, x, self.key))


def table_column(eng, st, r, idx):
    a, rows, cols = [eng.hget(st, "Table." + f)[r] for f in ("cells", "index", "columns")]
    if eng.tyof(idx).kind == "Str":
        eng.obl(st, "safe:column exists", Mem(cols, eng.term(st, idx, STR)))
        eng.obl(st, "safe:the only column", And(z3.BoolVal(z3.eq(eng.term(st, idx, STR), StrC(""))), Len(cols) == 1))
        return TableColumn(a, rows, th(LV).empty, th(VS).empty)
    key, l, j = eng.term(st, idx, VS), CLEV(cols), z3.Int("j!tc")
    eng.obl(st, "safe:combinations of states", MULTI(cols))
    eng.obl(st, "safe:one state per parent", Len(key) == Len(l))
    eng.obl(st, "safe:combination exists", FA(j, Imp(InR(j, key), Mem(At(l, j), At(key, j))), At(l, j), At(key, j)))
    return TableColumn(a, rows, l, key)


HOOKS[("Table", "[]")] = lambda eng, st, base, idx: model(table_column(eng, st, eng.term(st, base), idx))


class At2(Model):
    what = "DataFrame.at"

    def __init__(self, r):
        self.r = r

    def getitem(self, eng, st, idx):
        if not isinstance(idx, PyTuple) or len(idx.items) != 2:
            raise Unsupported("at")
        return table_column(eng, st, self.r, idx.items[1]).getitem(eng, st, idx.items[0])


HOOKS[("Table", "at")] = HOOKS[("Table", "loc")] = lambda eng, st, b: model(At2(eng.term(st, b)))


class Situation:
    """the terms of one prediction: heap h, network b, data d, node"""

    def __init__(self, h, b, d, node):
        self.h, self.b, self.d, self.node = h, b, d, node
        self.m = n_model(h, b)
        self.t = the(h[STATES][b])
        self.st = Get(self.t, node)
        self.rows = SrtSet(Dom(self.st))
        self.par = th(SS).srt(PARENTS(h[ME_][self.m], node))
        self.vs = vars_of(h, b)
        self.x = At(h[MC][self.m], Idx(self.vs, node))
        self.cells = h["CPD.values"][self.x]
        self.levels = LVLS(self.t, self.par)
        self.cols, self.vals, self.n, self.index = [h[k][d] for k in (DC, DV, DN, DI)]
        self.ev = EVID(self.vals, self.cols, self.t, node)

    def prob(self, i, s):
        return PROB(self.cells, self.rows, self.levels, s, KEY(self.vals, self.par, i))

    def name(self, s):
        return TEXT(self.node, STRV(s))

    @property
    def complete(self):
        k = z3.Const("k!cp", Str)
        return FA(k, Imp(Mem(self.par, k), Mem(self.cols, k)), Mem(self.par, k))

    def requires(self):
        k, i, v = z3.Const("k!rq", Str), z3.Int("i!rq"), z3.Const("v!rq", Val)
        t, h, ns = self.t, self.h, h_nodes(self)
        codes = Get(h["BayesianModel.states"][self.m], k)
        return [("built", And(self.m != null, self.d != null)), ("fitted", Not(none(h[STATES][self.b])))] + frame_ok(h, self.d)[1:] + [
            ("a-value-per-row", And(self.n >= 0, FA(k, Imp(Mem(self.cols, k), Len(Get(self.vals, k)) == self.n), Get(self.vals, k)))),
            ("known-columns", FA(k, Imp(Mem(self.cols, k), And(Mem(ns, k), Has(t, k))), Mem(self.cols, k))), ("known-node", And(Mem(ns, self.node), Has(t, self.node))),
            ("values-are-states", FA([k, i], Imp(And(Mem(self.cols, k), InR(i, Get(self.vals, k))), Has(Get(t, k), At(Get(self.vals, k), i))), At(Get(self.vals, k), i))),
            ("positions", FA([k, v], Imp(And(Has(t, k), Has(Get(t, k), v)), Get(Get(t, k), v) == Idx(SrtSet(Dom(Get(t, k))), v)), Get(Get(t, k), v))),
            ("codes-of-the-model", FA([k, i], Imp(Mem(ns, k), Mem(codes, i) == ISCODE(Get(t, k), i)), Mem(codes, i)))]

    def tables(self):
        """the tables follow the structure: one per node, over its parents in sorted order"""
        h = self.h
        return [("table-of-the-node", Mem(self.vs, self.node)), ("over-its-parents", th(SS).drop(h["CPD.variables"][self.x], 1) == self.par)]


def h_nodes(z):
    return z.h[MN][z.m]


def sit(c, h=None):
    return Situation(h or c.o, ME(c), c.a["data"], c.a["node"])


def pred_name(node):
    return str_cat(node, StrC("_prediction"))


def best_ens(c, z, r):
    """frame r: one column, a most probable state in each row"""
    i, s = z3.Int("i!be"), z3.Const("s!be", Val)
    h = c.n
    q = Get(h[DV][r], pred_name(z.node))
    base = [("fresh", And(r != null, c.fresh_ref(r))), ("one-column", And(Len(h[DC][r]) == 1, At(h[DC][r], 0) == pred_name(z.node))), ("same-rows", And(h[DI][r] == z.index, h[DN][r] == z.n)), ("a-value-per-row", Len(q) == z.n)]
    full = [("a-state", FA(i, Imp(And(0 <= i, i < z.n), Has(z.st, At(q, i))), At(q, i))),
            ("most-probable", FA([i, s], Imp(And(0 <= i, i < z.n, Has(z.st, s)), Not(strict_lt(Val)(z.prob(i, At(q, i)), z.prob(i, s)))), (At(q, i), z.prob(i, s)), (At(q, i), Has(z.st, s))))]
    part = [("the-model's-state", FA(i, Imp(And(0 <= i, i < z.n), And(Has(z.st, At(q, i)), Get(z.st, At(q, i)) == unboxi(At(PGM(z.m, z.ev, z.node), i)))), At(q, i)))]
    return base, full, part


def score_ens(c, z, r):
    s, i = z3.Const("s!sc", Val), z3.Int("i!sc")
    h = c.n
    q = Get(h[DV][r], z.name(s))
    base = [("fresh", And(r != null, c.fresh_ref(r))), ("same-rows", And(h[DI][r] == z.index, h[DN][r] == z.n)), ("as-many-columns-as-states", Len(h[DC][r]) == Len(z.rows)),
            ("one-column-per-state", FA(s, Imp(Has(z.st, s), Mem(h[DC][r], z.name(s))), Has(z.st, s), z.name(s)))]
    full = [("a-value-per-row", FA(s, Imp(Has(z.st, s), Len(q) == z.n), q)), ("the-table's-probability", FA([s, i], Imp(And(Has(z.st, s), 0 <= i, i < z.n), At(q, i) == z.prob(i, s)), At(q, i)))]
    part = [("the-model's-probability", FA(s, Imp(Has(z.st, s), q == PGMP(z.m, z.ev, z.node, Get(z.st, s))), q))]
    return base, full, part


def guarded(p, xs):
    return [(l, Imp(p, f)) for l, f in xs]


PREDP = {"self": BN, "data": DF, "node": STR}


def differ(z):
    x, y = z3.Consts("x!na y!na", Val)
    return [("names-of-states-differ", FA([x, y], Imp(And(Has(z.st, x), Has(z.st, y), STRV(x) == STRV(y)), x == y), (STRV(x), STRV(y))))]


def p_req(c, what=None, names=False):
    z = sit(c)
    r = z.requires() + z.tables() + [x for x in cpds_req(c) if x[0] == "one-per-variable"] + (differ(z) if names else [])
    return r + ([("all-parents", z.complete)] if what == "full" else [])


def p_ens(f, what=None):
    def g(c):
        z = sit(c)
        base, full, part = f(c, z, c.res)
        if what is None:
            return base + guarded(z.complete, full) + guarded(Not(z.complete), part)
        return base + (full if what == "full" else part)
    return g


contract("BayesianNetwork._predict_from_complete_data", props=["C28"], params=PREDP, ret=DF, allocates=True, requires=lambda c: p_req(c, "full"), ensures=p_ens(best_ens, "full"))
contract("BayesianNetwork._predict_from_incomplete_data", props=["C28"], params=PREDP, ret=DF, allocates=True, requires=lambda c: p_req(c, "part"), ensures=p_ens(best_ens, "part"))
contract("BayesianNetwork.predict", props=["C28"], params=PREDP, ret=DF, allocates=True, requires=p_req, ensures=p_ens(best_ens))


def score_inv(lp):
    z = sit(lp)
    r, h = lp.v("transformed_data"), lp.n
    s, i, y = z3.Const("s!si", Val), z3.Int("i!si"), z3.Const("y!si", Ref)
    done = And(Mem(lp.S, s), Idx(lp.S, s) < lp.i)
    q = Get(h[DV][r], z.name(s))
    return [("frame", And(r != null, birth(r) >= lp.now0, h[DN][r] == z.n, h[DI][r] == z.index)), ("columns-so-far", FA(s, Imp(done, Mem(h[DC][r], z.name(s))), z.name(s))),
            ("a-value-per-row", FA(s, Imp(done, Len(q) == z.n), q)), ("probabilities-so-far", FA([s, i], Imp(And(done, 0 <= i, i < z.n), At(q, i) == z.prob(i, s)), At(q, i)))] + [
                ("old-frames:" + f, FA(y, Imp(birth(y) < lp.now0, h[f][y] == lp.o[f][y]), h[f][y])) for f in (DC, DV, DN, DI)]


contract("BayesianNetwork._predict_probability_from_complete_data", props=["C28"], params=PREDP, ret=DF, allocates=True, requires=lambda c: p_req(c, "full", True), loops=[LoopSpec(score_inv)], ensures=p_ens(score_ens, "full"))
contract("BayesianNetwork._predict_probability_from_incomplete_data", props=["C28"], params=PREDP, ret=DF, allocates=True, requires=lambda c: p_req(c, "part", True), ensures=p_ens(score_ens, "part"))
contract("BayesianNetwork.predict_probability", props=["C25", "C28"], params=PREDP, ret=DF, allocates=True, requires=lambda c: p_req(c, None, True), ensures=p_ens(score_ens))


# ------------------------------------------------------------------ evaluation (C25)
IV = DICT(VAL, SEQ(INT))
FIELDS["Dummies"] = {"cols": VS, "vals": IV, "n": INT}  # get_dummies: one column of 0 and 1 per value
GC, GV, GN = "Dummies.cols", "Dummies.vals", "Dummies.n"
GT = REF("Dummies")
for t in (IV, SEQ(REAL), SEQ(PAIR(REAL, REAL)), PAIR(SEQ(PAIR(REAL, REAL)), REAL)):
    sort(t)
STRV = z3.Function("str_of_value", Val, Str)
TEXT = z3.Function("TEXT", Str, Str, Str)  # node + "_" + state
_ta, _tb, _tc = z3.Consts("ta!nw tb!nw tc!nw", Str)
axiom("TEXT.inj", FA([_ta, _tb, _tc], Imp(TEXT(_ta, _tb) == TEXT(_ta, _tc), _tb == _tc), (TEXT(_ta, _tb), TEXT(_ta, _tc))))


def as_text(eng, st, v):
    t = eng.term(st, v)
    return STRV(t) if t.sort() == Val else STRV(boxi(t)) if t.sort() == z3.IntSort() else t if t.sort() == Str else None


def pieces(eng, st, ps, parts):
    if len(parts) == 2 and ps == [None, "_", None]:
        a, b = [as_text(eng, st, p) for p in parts]
        if a is not None and b is not None:
            return V(STR, TEXT(a, b))
    return None


def b_str(eng, st, args, kws, node, mod):
    t = as_text(eng, st, args[0])
    if t is None or len(args) != 1 or kws:
        raise Unsupported("str()")
    return V(STR, t)


HOOKS[("Str", "pieces")] = pieces
BUILTINS["str"] = b_str


def obj(eng, st, cls, **fs):
    r, nn = fresh(cls.lower(), REF(cls)), fresh("now", INT)
    st.pc += [r != null, birth(r) == st.now, nn == st.now + 1]
    st.now = nn
    eng.log(("field", None, "@alloc"))
    for f, t in fs.items():
        put(eng, st, r, cls + "." + f, t)
    return V(REF(cls), r)


def put(eng, st, r, key, t):
    st.heap[key] = eng.named(st, z3.Store(eng.hget(st, key), r, t), "H." + key)
    eng.log(("field", r, key))


def indicators(v, q, s):
    """v holds 1 where q equals s, 0 elsewhere"""
    i = z3.Int("i!in")
    return [Len(v) == Len(q), FA(i, Imp(InR(i, q), At(v, i) == If(At(q, i) == s, z3.IntVal(1), z3.IntVal(0))), At(v, i))]


IND = z3.Function("INDICATOR", sort(VS), Val, sort(SEQ(INT)))
axiom("INDICATOR.len", FA([_s, _x], Len(IND(_s, _x)) == Len(_s), IND(_s, _x)))
axiom("INDICATOR.at", FA([_s, _x, _i], Imp(InR(_i, _s), At(IND(_s, _x), _i) == If(At(_s, _i) == _x, z3.IntVal(1), z3.IntVal(0))), At(IND(_s, _x), _i)))


def b_dummies(eng, st, args, kws, node, mod):
    if kws or len(args) != 1 or not is_column(args[0]):
        raise Unsupported("get_dummies")
    q = args[0].a[0].q
    v, x = fresh("dummies", IV), z3.Const("x!gd", Val)
    st.pc += [FA(x, Has(v, x) == Mem(q, x), Has(v, x)), FA(x, Imp(Mem(q, x), Get(v, x) == IND(q, x)), Get(v, x))]
    return obj(eng, st, "Dummies", cols=SrtSet(ToSet(q)), vals=v, n=Len(q))


def is_column(v):
    return isinstance(v, PyObj) and v.kind == "model" and isinstance(v.a[0], Column)


BUILTINS["pandas.get_dummies"] = b_dummies


def gt_get(eng, st, base, idx):
    r, q = eng.term(st, base), eng.term(st, idx, VS)
    cols, vals = eng.hget(st, GC)[r], eng.hget(st, GV)[r]
    i, x = z3.Int("i!gg"), z3.Const("x!gg", Val)
    eng.obl(st, "safe:columns exist", FA(i, Imp(InR(i, q), Mem(cols, At(q, i))), At(q, i)))
    v = fresh("columns", IV)
    st.pc += [FA(x, Has(v, x) == Mem(q, x), Has(v, x)), FA(x, Imp(Mem(q, x), Get(v, x) == Get(vals, x)), Get(v, x))]
    return obj(eng, st, "Dummies", cols=q, vals=v, n=eng.hget(st, GN)[r])


def gt_set(eng, st, base, idx, v):
    r, x = eng.term(st, base), eng.term(st, idx, VAL)
    q = eng.term(st, v, SEQ(INT))
    cols, vals = eng.hget(st, GC)[r], eng.hget(st, GV)[r]
    eng.obl(st, "safe:one entry per row", Len(q) == eng.hget(st, GN)[r])
    put(eng, st, r, GC, If(Mem(cols, x), cols, App(cols, x)))
    put(eng, st, r, GV, th_dict_set(vals, x, q))


HOOKS[("Dummies", "[]")], HOOKS[("Dummies", "[]=")] = gt_get, gt_set
HOOKS[("Dummies", "len")] = lambda eng, st, b: V(INT, eng.hget(st, GN)[eng.term(st, b)])
HOOKS[("Dummies", "columns")] = lambda eng, st, b: V(VS, eng.hget(st, GC)[eng.term(st, b)])


def values(eng, st, b):
    rav = lambda g, s, a, k: PyObj("record", ravelled=b)
    return PyObj("record", ravel=PyObj("pyfn", rav), flatten=PyObj("pyfn", rav), frame=b)


HOOKS[("Dummies", "values")] = HOOKS[("DataFrame", "values")] = values


def column(c, h=None):
    return Get((h or c.o)[DV][c.a["data"]], c.a["node"])


def of_bn(c):
    return Get(the(c.o[STATES][c.a["bn"]]), c.a["node"])


def ev_req(c):
    x = z3.Const("x!er", Val)
    q, t = column(c), of_bn(c)
    return [("fitted", And(c.a["bn"] != null, c.a["data"] != null, Not(none(c.o[STATES][c.a["bn"]])))), ("column", Mem(c.o[DC][c.a["data"]], c.a["node"])),
            ("known-node", Has(the(c.o[STATES][c.a["bn"]]), c.a["node"])), ("data-are-states", FA(x, Imp(Mem(q, x), Has(t, x)), Mem(q, x)))]


EVP = {"bn": BN, "data": DF, "node": STR}


def truth(h, r, q, t):
    """frame r: one indicator per state of t, in sorted order"""
    x, i = z3.Const("x!tr", Val), z3.Int("i!tr")
    cs, vs = h[GC][r], h[GV][r]
    return [("states-in-sorted-order", SeqEq(cs, SrtSet(Dom(t)))), ("rows", h[GN][r] == Len(q)),
            ("indicator-of-each-state", FA([x, i], Imp(And(Has(t, x), InR(i, q)), At(Get(vs, x), i) == If(At(q, i) == x, z3.IntVal(1), z3.IntVal(0))), (Get(vs, x), At(q, i)))),
            ("one-entry-per-row", FA(x, Imp(Has(t, x), Len(Get(vs, x)) == Len(q)), Get(vs, x)))]


def gt_inv(lp):
    r = lp.v("ground_truth")
    q, t, h = column(lp), of_bn(lp), lp.n
    x, y = z3.Const("x!gi", Val), z3.Const("y!gi", Ref)
    cs, vs = h[GC][r], h[GV][r]
    i = z3.Int("i!gi")
    return [("rows", And(r != null, birth(r) >= lp.now0, h[GN][r] == Len(q))), ("columns-once", Distinct(cs)), ("only-states", FA(x, Imp(Mem(cs, x), Has(t, x)), Mem(cs, x))),
            ("data-values", FA(x, Imp(Mem(q, x), Mem(cs, x)), Mem(q, x))), ("states-so-far", FA(x, Imp(And(Mem(lp.S, x), Idx(lp.S, x) < lp.i), Mem(cs, x)), Mem(cs, x))),
            ("entries", FA([x, i], Imp(And(Mem(cs, x), InR(i, q)), At(Get(vs, x), i) == If(At(q, i) == x, z3.IntVal(1), z3.IntVal(0))), (Get(vs, x), At(q, i)))),
            ("lengths", FA(x, Imp(Mem(cs, x), Len(Get(vs, x)) == Len(q)), Get(vs, x)))] + [
                ("old-frames:" + f, FA(y, Imp(birth(y) < lp.now0, h[f][y] == lp.o[f][y]), h[f][y])) for f in (GC, GV, GN)]


contract("_build_ground_truth", props=["C25"], params=EVP, ret=GT, allocates=True, requires=ev_req, loops=[LoopSpec(gt_inv)],
         ensures=lambda c: [("fresh", And(c.res != null, c.fresh_ref(c.res)))] + truth(c.n, c.res, column(c), of_bn(c)))

def ev_all(c):
    """what the evaluation needs: a network that can predict, values that are states"""
    z = sit2(c)
    return ev_req(c) + z.requires() + z.tables() + [x for x in cpds_req2(c.o, c.a["bn"]) if x[0] == "one-per-variable"] + differ(z)


def sit2(c, h=None):
    return Situation(h or c.o, c.a["bn"], c.a["data"], c.a["node"])


CURVE = {n: z3.Function("roc_curve." + n, Ref, Ref, Str, sort(SEQ(REAL))) for n in ("fpr", "tpr", "thresholds")}
AUC = z3.Function("auc", sort(SEQ(REAL)), sort(SEQ(REAL)), z3.RealSort())


def b_roc(eng, st, args, kws, node, mod):
    """what is compared: column k of the truth with column k of the scores"""
    p = dict(zip(("y_true", "y_score"), args), **kws)
    if set(p) != {"y_true", "y_score"} or any(not (isinstance(v, PyObj) and v.kind == "record" and "ravelled" in v.k) for v in p.values()):
        raise Unsupported("roc_curve")
    a, b = p["y_true"].k["ravelled"], p["y_score"].k["ravelled"]
    if eng.tyof(a).args[0] != "Dummies" or eng.tyof(b).args[0] != "DataFrame":
        raise Unsupported("roc_curve of these frames")
    c = eng.ctx0
    g, d = eng.term(st, a), eng.term(st, b)
    h = {k: eng.hget(st, k) for k in (GC, GV, GN, DC, DV)}
    k, i = z3.Int("k!rc"), z3.Int("i!rc")
    t, q = of_bn(c), column(c)
    cs, ns = h[GC][g], h[DC][d]
    eng.obl(st, "property:every state is compared", SeqEq(cs, SrtSet(Dom(t))))
    eng.obl(st, "property:as many scores as truths", Len(ns) == Len(cs))
    eng.obl(st, "property:truth is the indicator of the state", FA([k, i], Imp(And(InR(k, cs), InR(i, q)), At(Get(h[GV][g], At(cs, k)), i) == If(At(q, i) == At(cs, k), z3.IntVal(1), z3.IntVal(0))), (At(cs, k), At(q, i))))
    z = sit2(c)
    x = At(cs, k)
    v = Get(h[DV][d], At(ns, k))
    r = z3.Int("r!rc")
    eng.obl(st, "property:score is the probability of the same state", FA([k, r], Imp(And(z.complete, InR(k, cs), 0 <= r, r < z.n), And(Len(v) == z.n, At(v, r) == z.prob(r, x))), (x, z.prob(r, x)), (At(ns, k), At(v, r))))
    eng.obl(st, "property:score is the model's probability of the same state", FA(k, Imp(And(Not(z.complete), InR(k, cs)), v == PGMP(z.m, z.ev, z.node, Get(z.st, x))), x, At(ns, k)))
    return PyTuple([V(SEQ(REAL), CURVE[n](c.a["bn"], c.a["data"], c.a["node"])) for n in ("fpr", "tpr", "thresholds")])


def b_auc(eng, st, args, kws, node, mod):
    if len(args) != 2 or kws:
        raise Unsupported("auc")
    return V(REAL, AUC(eng.term(st, args[0], SEQ(REAL)), eng.term(st, args[1], SEQ(REAL))))


BUILTINS["sklearn.metrics.roc_curve"], BUILTINS["sklearn.metrics.auc"] = b_roc, b_auc
BUILTINS["metrics.roc_curve"], BUILTINS["metrics.auc"] = b_roc, b_auc


def roc_ens(c):
    x, y = [CURVE[n](c.a["bn"], c.a["data"], c.a["node"]) for n in ("fpr", "tpr")]
    i = z3.Int("i!re")
    r = P(c.res, 0)
    return [("points", FA(i, Imp(And(InR(i, x), InR(i, y)), And(P(At(r, i), 0) == At(x, i), P(At(r, i), 1) == At(y, i))), At(r, i))), ("all-points", Imp(Len(x) == Len(y), Len(r) == Len(x))),
            ("area", P(c.res, 1) == AUC(x, y))]


contract("roc_auc", props=["C25"], params=EVP, ret=PAIR(SEQ(PAIR(REAL, REAL)), REAL), allocates=True, requires=ev_all, ensures=roc_ens)
REPORT = z3.Function("REPORT", Ref, Ref, Str, Val)


def b_report(eng, st, args, kws, node, mod):
    p = dict(zip(("y_true", "y_pred"), args), **kws)
    if set(p) != {"y_true", "y_pred", "labels", "target_names", "output_dict"} or not is_column(p["y_true"]) or not z3.is_true(z3.simplify(z3.BoolVal(True) if eng.truth(st, p["output_dict"]) is True else eng.truth(st, p["output_dict"]))):
        raise Unsupported("classification_report")
    c = eng.ctx0
    l, n = eng.term(st, p["labels"], VS), eng.term(st, p["target_names"], SS)
    k = z3.Int("k!cr")
    eng.obl(st, "property:truth is the node's column", p["y_true"].a[0].q == column(c))
    z, d, i, x = sit2(c), eng.term(st, p["y_pred"], DF), z3.Int("i!cr"), z3.Const("x!cr", Val)
    q = Get(eng.hget(st, DV)[d], At(eng.hget(st, DC)[d], 0))
    eng.obl(st, "property:one column is compared", Len(eng.hget(st, DC)[d]) == 1)
    eng.obl(st, "property:compared with the predictions", FA([i, x], Imp(And(z.complete, 0 <= i, i < z.n, Has(z.st, x)), Not(strict_lt(Val)(z.prob(i, At(q, i)), z.prob(i, x)))), (At(q, i), z.prob(i, x)), (At(q, i), Has(z.st, x))))
    eng.obl(st, "property:compared with the model's predictions", FA(i, Imp(And(Not(z.complete), 0 <= i, i < z.n), Get(z.st, At(q, i)) == unboxi(At(PGM(z.m, z.ev, z.node), i))), At(q, i)))
    eng.obl(st, "property:every state is a label", SeqEq(l, SrtSet(Dom(of_bn(c)))))
    eng.obl(st, "property:labels are named after their state", And(Len(n) == Len(l), FA(k, Imp(InR(k, l), At(n, k) == TEXT(c.a["node"], STRV(At(l, k)))), At(n, k))))
    return V(VAL, REPORT(c.a["bn"], c.a["data"], c.a["node"]))


BUILTINS["metrics.classification_report"] = BUILTINS["sklearn.metrics.classification_report"] = b_report
contract("classification_report", props=["C25"], params=EVP, ret=VAL, allocates=True, requires=ev_all, ensures=lambda c: [("the-report", c.res == REPORT(c.a["bn"], c.a["data"], c.a["node"]))])
