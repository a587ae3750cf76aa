"""Contracts for neural structure learning (C27): the restrictions through column expansion, the bounds handed to the
model, and the edges of the result. torch, sklearn, numpy and the storage of a graph are assumed contracts."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported
import learn
from learn import RS, IS, IE, ARR, FLAT, SHAPE, FIN, SIZE, none, the, seq_of, new_obj, flat, shape, setf, new_array, view, pinned

P_ = "causalnex/structure/pytorch/"
MODULES = {"base": P_ + "dist_type/_base.py", "categorical": P_ + "dist_type/categorical.py", "continuous": P_ + "dist_type/continuous.py", "binary": P_ + "dist_type/binary.py",
           "ordinal": P_ + "dist_type/ordinal.py", "poisson": P_ + "dist_type/poisson.py", "pnotears": P_ + "notears.py"}
FREE = PAIR(OPT(INT), OPT(INT))
DT = REF("DistTypeBase")
ES = SET(IE)
for t in (SEQ(DT), SEQ(FREE), SEQ(IE), OPT(SEQ(IE)), OPT(IS), ES, DICT(INT, STR), OPT(DICT(INT, STR)), SEQ(PAIR(INT, STR)), OPT(REAL)):
    sort(t)
FIELDS = dict(learn.FIELDS)
FIELDS.update({"DistTypeBase": {"idx": INT}, "DistTypeCategorical": {"idx_group": IS, "encoder": REF("Encoder")}, "Encoder": {},
               "IntGraph": {"W": learn.WT, "N": SET(INT), "learner": REF("NotearsMLP"), "collapsed": REF("IntGraph")},
               "NotearsMLP": {"types": SEQ(DT), "bounds": SEQ(FREE), "d": INT, "units": INT, "adj": ARR, "adj_mean_effect": ARR}})
BASES = {}
FROZEN = {"ndarray.shape", "ndarray.finite", "NotearsMLP.types", "NotearsMLP.bounds"}
C, HOOKS, BUILTINS, VALUES = {}, dict(learn.HOOKS), dict(learn.BUILTINS), dict(learn.VALUES)
IDX, GRP = "DistTypeBase.idx", "DistTypeCategorical.idx_group"


def contract(name, props=("C27",), **k):
    C[name] = Contract(name, props=list(props), **k)
    return C[name]


# ------------------------------------------------------------------ restrictions
def b_permutations(eng, st, args, kws, node, mod):
    n = z3.simplify(eng.term(st, args[1]))
    if not (z3.is_int_value(n) and n.as_long() == 2):
        raise Unsupported("permutations arity")
    ety, s = eng.iter_seq(st, args[0])
    pt = PAIR(ety, ety)
    q = fresh("perms", SEQ(pt))
    l, r = fresh_fun("permL", pt, INT), fresh_fun("permR", pt, INT)
    i, j, p = z3.Int("i!pm"), z3.Int("j!pm"), z3.Const("p!pm", sort(pt))
    st.pc += [FA(p, Imp(Mem(q, p), And(InR(l(p), s), InR(r(p), s), l(p) != r(p), P(p, 0) == At(s, l(p)), P(p, 1) == At(s, r(p)))), Mem(q, p)),
              FA([i, j], Imp(And(InR(i, s), InR(j, s), i != j), Mem(q, MkPair(pt, At(s, i), At(s, j)))), (At(s, i), At(s, j)))]
    return PyObj("iter", ety=pt, seq=q)


BUILTINS["itertools.permutations"] = BUILTINS["permutations"] = b_permutations


def rest(g, x):
    """x is a column added for the group"""
    return And(Mem(g, x), x != At(g, 0))


def old_edge(o, x, y):
    return And(Not(none(o)), Mem(the(o), MkPair(IE, x, y)))


def group_ok(g):
    return [("group-not-empty", Len(g) >= 1), ("group-distinct", Distinct(g))]


def edges_ens(c, g, old, res, within):
    x, y = z3.Ints("x!ee y!ee")
    e = MkPair(IE, x, y)
    return [("kept", FA([x, y], Imp(old_edge(old, x, y), Mem(res, e)), Mem(res, e))),
            ("from-added-columns", FA([x, y], Imp(And(rest(g, x), old_edge(old, At(g, 0), y)), Mem(res, e)), Mem(res, e))),
            ("to-added-columns", FA([x, y], Imp(And(rest(g, y), x != At(g, 0), old_edge(old, x, At(g, 0))), Mem(res, e)), Mem(res, e))),
            ("within-the-group", FA([x, y], Imp(And(within, Mem(g, x), Mem(g, y), x != y), Mem(res, e)), Mem(res, e))),
            ("nothing-else", FA([x, y], Imp(Mem(res, e), Or(old_edge(old, x, y), And(rest(g, x), old_edge(old, At(g, 0), y)), And(rest(g, y), old_edge(old, x, At(g, 0))), And(within, Mem(g, x), Mem(g, y)))), Mem(res, e)))]


def expand_edges(lp):
    """after i of the listed edges"""
    g, new, te = lp.a["idx_group"], lp.v("new_tabu_edges"), lp.S
    k, x, y = z3.Ints("k!xe x!xe y!xe")
    e = MkPair(IE, x, y)
    src, dst = P(At(te, k), 0), P(At(te, k), 1)
    return [("from", FA([k, x], Imp(And(0 <= k, k < lp.i, src == At(g, 0), rest(g, x)), Mem(new, MkPair(IE, x, dst))), (At(te, k), Mem(g, x)))),
            ("to", FA([k, x], Imp(And(0 <= k, k < lp.i, src != At(g, 0), dst == At(g, 0), rest(g, x)), Mem(new, MkPair(IE, src, x))), (At(te, k), Mem(g, x)))),
            ("only", FA([x, y], Imp(Mem(new, e), Or(And(rest(g, x), Mem(te, MkPair(IE, At(g, 0), y))), And(rest(g, y), Mem(te, MkPair(IE, x, At(g, 0)))))), Mem(new, e)))]


contract("ExpandColumnsMixin.update_tabu_edges", params={"idx_group": IS, "tabu_edges": OPT(SEQ(IE)), "tabu_idx_group": BOOL}, ret=SEQ(IE),
         requires=lambda c: group_ok(c.a["idx_group"]), loops=[LoopSpec(expand_edges)],
         ensures=lambda c: edges_ens(c, c.a["idx_group"], c.a["tabu_edges"], c.res, c.a["tabu_idx_group"]))


def nodes_ens(g, old, res):
    x = z3.Int("x!ne")
    return [("none", none(res) == none(old)),
            ("expanded", FA(x, Imp(Not(none(old)), Mem(the(res), x) == Or(Mem(the(old), x), And(rest(g, x), Mem(the(old), At(g, 0))))), Mem(the(res), x)))]


def expand_nodes(lp):
    g, new, q = lp.a["idx_group"], lp.v("new_tabu_nodes"), lp.S
    k, x = z3.Ints("k!xn x!xn")
    return [("added", FA([k, x], Imp(And(0 <= k, k < lp.i, At(q, k) == At(g, 0), rest(g, x)), Mem(new, x)), (At(q, k), Mem(g, x)))),
            ("only", FA(x, Imp(Mem(new, x), And(rest(g, x), Mem(q, At(g, 0)))), Mem(new, x)))]


contract("ExpandColumnsMixin.update_tabu_nodes", params={"idx_group": IS, "tabu_nodes": OPT(IS)}, ret=OPT(IS), requires=lambda c: group_ok(c.a["idx_group"]),
         loops=[LoopSpec(expand_nodes)], ensures=lambda c: nodes_ens(c.a["idx_group"], c.a["tabu_nodes"], c.res))


# ------------------------------------------------------------------ the types of columns
from engine import clsof, birth  # noqa: E402




def group(h, r):
    return h[GRP][r]


def own_class(name, meth):
    """a method body only runs for an object of a class for which it is the method found"""
    return lambda c: [Or(*[clsof(c.a["self"]) == c.eng.prog.clsid(k) for k in [name] + c.eng.prog.subclasses(name) if c.eng.prog.method(k, meth) == name + "." + meth])]


def is_cat(c, r):
    return Or(*[clsof(r) == c.eng.prog.clsid(k) for k in ["DistTypeCategorical"] + c.eng.prog.subclasses("DistTypeCategorical")])


def group_req(c):
    return [(l, Imp(is_cat(c, c.a["self"]), f)) for l, f in group_ok(group(c.o, c.a["self"]))]


def edges_dispatch(c):
    s, old = c.a["self"], c.a["tabu_edges"]
    return [("other-types-unchanged", Imp(Not(is_cat(c, s)), c.res == old)), ("list", Imp(is_cat(c, s), Not(none(c.res))))] + \
        [(l, Imp(is_cat(c, s), f)) for l, f in edges_ens(c, group(c.o, s), old, the(c.res), z3.BoolVal(True))]


def nodes_dispatch(c):
    s, old = c.a["self"], c.a["tabu_nodes"]
    return [("other-types-unchanged", Imp(Not(is_cat(c, s)), c.res == old))] + [(l, Imp(is_cat(c, s), f)) for l, f in nodes_ens(group(c.o, s), old, c.res)]


def matrix_like(c):
    s, t = c.o[SHAPE][c.a["X"]], c.n[SHAPE][c.res]
    return s, t


def pre_x_req(c):
    s = c.o[SHAPE][c.a["X"]]
    return [("matrix", And(c.a["X"] != null, Len(s) == 2, At(s, 0) >= 0, At(s, 1) >= 0)), ("column", And(0 <= c.o[IDX][c.a["self"]], c.o[IDX][c.a["self"]] < At(s, 1)))]


def pre_x_ens(c):
    s, t, r, g = c.o[SHAPE][c.a["X"]], c.n[SHAPE][c.res], c.a["self"], group(c.n, c.a["self"])
    i = z3.Int("i!px")
    col, d, d2 = c.o[IDX][r], At(s, 1), At(t, 1)
    fit = And(is_cat(c, r), c.a["fit_transform"])
    return [("matrix", And(c.res != null, Len(t) == 2, At(t, 0) == At(s, 0), d2 >= d)), ("other-types-unchanged", Imp(Not(is_cat(c, r)), d2 == d)),
            ("group-size", Imp(fit, Len(g) == 1 + d2 - d)), ("group-starts-at-column", Imp(fit, At(g, 0) == col)),
            ("group-continues-with-new-columns", Imp(fit, FA(i, Imp(And(0 < i, i < Len(g)), At(g, i) == d + i - 1), At(g, i)))),
            ("group-members", Imp(fit, FA(i, Mem(g, i) == Or(i == col, And(d <= i, i < d2)), Mem(g, i))))]


def method(cls, name, **k):
    p = dict({"self": REF(cls)}, **k.pop("params"))
    contract(cls + "." + name, params=p, lemmas=own_class(cls, name), **k)


for cls in ("DistTypeBase", "DistTypeCategorical"):
    method(cls, "preprocess_tabu_edges", params={"tabu_edges": OPT(SEQ(IE))}, ret=OPT(SEQ(IE)), requires=group_req, ensures=edges_dispatch)
    method(cls, "preprocess_tabu_nodes", params={"tabu_nodes": OPT(IS)}, ret=OPT(IS), requires=group_req, ensures=nodes_dispatch)


# ------------------------------------------------------------------ arrays: shapes of two-dimensional selections
def axis(eng, st, n, ix):
    """-> (length left on this axis or None, is it a view); ix: one part of the subscript"""
    if isinstance(ix, PyObj) and ix.kind == "slice":
        lo, hi, step = ix.a
        if step is not None:
            raise Unsupported("stepped slice of an array")
        cut = lambda x: If(x < 0, If(n + x < 0, 0, n + x), If(x > n, n, x))
        h = n if hi is None else cut(eng.term(st, hi, INT))
        l = z3.IntVal(0) if lo is None else cut(eng.term(st, lo, INT))
        return If(l > h, 0, h - l), True
    if prune(eng.tyof(ix)).kind == "Int":
        k = eng.term(st, ix, INT)
        eng.obl(st, "safe:index", And(-n <= k, k < n))
        return None, True
    ety, q = eng.iter_seq(st, ix)
    i = z3.Int("i!ax")
    if prune(ety).kind != "Int":
        raise Unsupported("array subscript")
    eng.obl(st, "safe:index", FA(i, Imp(InR(i, q), And(-n <= At(q, i), At(q, i) < n)), At(q, i)))
    return Len(q), False


def parts(idx):
    return list(idx.items) if isinstance(idx, PyTuple) else [idx]


def select(eng, st, base, idx):
    sh = shape(eng, st, base)
    ps = parts(idx)
    eng.obl(st, "safe:dimensions", Len(sh) == len(ps))
    ax = [axis(eng, st, At(sh, k), p) for k, p in enumerate(ps)]
    left = [n for n, _ in ax if n is not None]
    return left, all(v for _, v in ax)


def arr_getitem(eng, st, base, idx):
    left, shared = select(eng, st, base, idx)
    if not left:
        return V(REAL, fresh("entry", REAL))
    if shared:
        view(eng, st, base)
    r = new_array(eng, st, fresh("size", INT), None, seq_of(INT, *left))
    return view(eng, st, r) if shared else r


def arr_setitem(eng, st, base, idx, v):
    r = eng.term(st, base)
    eng.obl(st, "safe:no-view-of-it", Not(eng.hget(st, "ndarray.viewed")[r]))
    left, _ = select(eng, st, base, idx)
    if eng.tyof(v).kind == "Ref":
        eng.obl(st, "safe:same shape", SeqEq(shape(eng, st, v), seq_of(INT, *left)))
    q = fresh("flat", RS)
    st.pc.append(Len(q) == Len(flat(eng, st, base)))
    setf(eng, st, r, FLAT, q)


HOOKS[("ndarray", "[]")], HOOKS[("ndarray", "[]=")] = arr_getitem, arr_setitem


def b_hstack(eng, st, args, kws, node, mod):
    xs = eng.fixed(st, args[0])
    if xs is None or kws or len(xs) != 2:
        raise Unsupported("hstack options")
    a, b = [shape(eng, st, x) for x in xs]
    eng.obl(st, "safe:same rows", And(Len(a) == 2, Len(b) == 2, At(a, 0) == At(b, 0)))
    return new_array(eng, st, fresh("size", INT), None, seq_of(INT, At(a, 0), At(a, 1) + At(b, 1)))


BUILTINS["numpy.hstack"] = b_hstack
CATS = z3.Function("Encoder.columns", Ref, z3.IntSort(), z3.IntSort())  # columns of an encoder fitted the n-th time


def b_encoder(eng, st, args, kws, node, mod):
    return V(REF("Encoder"), new_obj(eng, st, "Encoder"))


def enc_transform(eng, st, b, args, kws):
    s = shape(eng, st, args[0])
    eng.obl(st, "safe:one column", And(Len(s) == 2, At(s, 1) == 1))
    n = fresh("categories", INT)
    st.pc.append(n >= 1)
    return new_array(eng, st, fresh("size", INT), None, seq_of(INT, At(s, 0), n))


BUILTINS["OneHotEncoder"] = b_encoder
HOOKS[("Encoder", "fit")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: NONEV)
HOOKS[("Encoder", "transform")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: enc_transform(g, s, b, a, k))
contract("deepcopy:ndarray", params={"x": ARR}, ret=ARR, trusted=True, allocates=True,
         ensures=lambda c: [("copy", And(c.fresh_ref(c.res), c.res != null, c.n[SHAPE][c.res] == c.o[SHAPE][c.a["x"]], c.n[FLAT][c.res] == c.o[FLAT][c.a["x"]], Not(c.n["ndarray.viewed"][c.res])))])
contract("ExpandColumnsMixin._expand_columns", params={"X": ARR, "new_columns": ARR}, ret=ARR, allocates=True,
         requires=lambda c: [("same-rows", (lambda a, b: And(Len(a) == 2, Len(b) == 2, At(a, 0) == At(b, 0), At(a, 1) >= 0, At(b, 1) >= 0))(c.o[SHAPE][c.a["X"]], c.o[SHAPE][c.a["new_columns"]]))],
         ensures=lambda c: [("fresh", And(c.fresh_ref(c.res), c.res != null)), ("columns-side-by-side", (lambda a, b, t: And(Len(t) == 2, At(t, 0) == At(a, 0), At(t, 1) == At(a, 1) + At(b, 1)))(c.o[SHAPE][c.a["X"]], c.o[SHAPE][c.a["new_columns"]], c.n[SHAPE][c.res]))])
PX = dict(params={"X": ARR, "fit_transform": BOOL}, ret=ARR, allocates=True, requires=pre_x_req, ensures=pre_x_ens,
          modifies=[(GRP, lambda c, x: And(x == c.a["self"], is_cat(c, c.a["self"]))), ("DistTypeCategorical.encoder", lambda c, x: And(x == c.a["self"], is_cat(c, c.a["self"])))])
for cls in ("DistTypeBase", "DistTypeCategorical"):
    method(cls, "preprocess_X", **{k: (dict(v) if k == "params" else v) for k, v in PX.items()})
for cls in ("DistTypeOrdinal", "DistTypePoisson"):
    method(cls, "preprocess_X", trusted=True, **{k: (dict(v) if k == "params" else v) for k, v in PX.items()})


# ------------------------------------------------------------------ the model (torch: assumed)
TYPES, BNDS, DIM, UNITS = "NotearsMLP.types", "NotearsMLP.bounds", "NotearsMLP.d", "NotearsMLP.units"
W, NI = "IntGraph.W", "IntGraph.N"


class Aliases(Model):
    what = "dist_type_aliases"

    def getitem(self, eng, st, idx):
        src = eng.prog.globals["disttypes"]["dist_type_aliases"]
        import ast
        if src[0] != "const" or not isinstance(src[1], ast.Dict):
            raise Unsupported("dist_type_aliases")
        names = {k.value: v.id for k, v in zip(src[1].keys, src[1].values)}
        k = eng.term(st, idx, STR)
        eng.obl(st, "safe:known alias", Or(*[k == StrC(n) for n in names]))
        for cls in names.values():
            if eng.prog.method(cls, "__init__") != "DistTypeBase.__init__":
                raise Unsupported("constructor of " + cls)

        def build(g, s, args, kws):
            r = fresh("new_type", DT)
            nn = fresh("now", INT)
            s.pc += [birth(r) == s.now, r != null, nn == s.now + 1] + [Imp(k == StrC(n), clsof(r) == g.prog.clsid(cls)) for n, cls in names.items()]
            s.now = nn
            g.log(("field", None, "@alloc"))
            v = V(DT, r)
            g.call_func(s, "DistTypeBase.__init__", [v] + args, kws, None, None)
            return v
        return PyObj("pyfn", build)


VALUES["dist_type_aliases"] = lambda eng, st: model(Aliases())
MODULES["disttypes"] = P_ + "dist_type/__init__.py"
contract("DistTypeBase.__init__", params={"self": DT, "idx": INT}, modifies=[(IDX, lambda c, x: x == c.a["self"])], ensures=lambda c: [("index", c.n[IDX][c.a["self"]] == c.a["idx"])])
contract("check_array", params={"X": ARR}, trusted=True, raises=[("ValueError", lambda c: Not(c.o[FIN][c.a["X"]]))])
BUILTINS["check_array"] = lambda eng, st, args, kws, node, mod: eng.call_contract(st, C["check_array"], args, kws, node, mod)
BUILTINS["numpy.arange"] = lambda eng, st, args, kws, node, mod: eng.b_range(st, args, kws, node, mod)


def b_mlp(eng, st, args, kws, node, mod):
    kws = dict(kws)
    if args:
        raise Unsupported("NotearsMLP positional arguments")
    d = eng.term(st, kws["n_features"], INT)
    ety, ts = eng.iter_seq(st, kws["dist_types"])
    ety2, hl = eng.iter_seq(st, kws["hidden_layer_units"])
    ety3, bs = eng.iter_seq(st, kws["bounds"])
    h = If(At(hl, 0) != 0, At(hl, 0), 1)
    eng.obl(st, "safe:layers", And(Len(hl) > 0, At(hl, 0) >= 0))
    eng.obl(st, "safe:one-bound-per-weight", Len(bs) == IMUL(IMUL(d, h), d))
    r = new_obj(eng, st, "NotearsMLP")
    for k, t in ((TYPES, ts), (BNDS, bs), (DIM, d), (UNITS, h)):
        setf(eng, st, r, k, t)
    return V(REF("NotearsMLP"), r)


def fit(eng, st, m, args, kws):
    """the weights of the first layer stay within their bounds; a weight all of whose parts are pinned at zero gives no edge"""
    s = shape(eng, st, args[0])
    d, h, b = eng.hget(st, DIM)[m], eng.hget(st, UNITS)[m], eng.hget(st, BNDS)[m]
    eng.obl(st, "safe:columns", And(Len(s) == 2, At(s, 1) == d))
    for f in ("adj", "adj_mean_effect"):
        r = new_array(eng, st, IMUL(d, d), None, seq_of(INT, d, d))
        if f == "adj":
            i, j = z3.Ints("i!ft j!ft")
            free = fresh_fun("free_unit", INT, INT, INT)
            q = flat(eng, st, r)
            part = free(i, j)
            st.pc.append(FA([i, j], Imp(And(0 <= i, i < d, 0 <= j, j < d, Imp(And(0 <= part, part < h), pinned(At(b, IX(IX(j, part, h), i, d))))), At(q, IX(i, j, d)) == 0), IX(i, j, d)))
        setf(eng, st, m, "NotearsMLP." + f, r.t)
    return NONEV


BUILTINS["NotearsMLP"] = b_mlp
HOOKS[("NotearsMLP", "fit")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: fit(g, s, g.term(s, b), a, k))


def bias(eng, st, b):
    r = fresh("bias", ARR)
    s = eng.hget(st, SHAPE)[r]
    st.pc += [birth(r) < st.now, Imp(r != null, And(Len(s) == 1, At(s, 0) == eng.hget(st, DIM)[eng.term(st, b)]))]
    return V(ARR, r)


HOOKS[("NotearsMLP", "bias")] = bias


# ------------------------------------------------------------------ graphs
EDATA = PAIR(INT, INT, DICT(STR, REAL))
sort(EDATA), sort(SEQ(EDATA))


class Edges(Model):
    what = "graph.edges"

    def __init__(self, r):
        self.r = r

    def attr(self, eng, st, name):
        if name == "data":
            return PyObj("pyfn", self.data)

    def data(self, eng, st, args, kws):
        if len(args) != 1 or kws or not z3.is_true(z3.simplify(eng.term(st, args[0]))):
            raise Unsupported("edges.data")
        t = eng.hget(st, W)[self.r]
        ks = eng.dkeys(st, learn.WT, t)
        i = z3.Int("i!ed")
        q = fresh("edgedata", SEQ(EDATA))
        w = StrC("weight")
        st.pc += [Len(q) == Len(ks), FA(i, Imp(InR(i, ks), And(P(At(q, i), 0) == P(At(ks, i), 0), P(At(q, i), 1) == P(At(ks, i), 1), Has(P(At(q, i), 2), w), Get(P(At(q, i), 2), w) == Get(t, At(ks, i)))), At(q, i), At(ks, i))]
        return PyObj("iter", ety=EDATA, seq=q)


class Nodes(Model):
    what = "graph.nodes"

    def __init__(self, r):
        self.r = r

    def call(self, eng, st, args, kws):
        if args or kws:
            raise Unsupported("nodes options")
        q = fresh("nodes", IS)
        x = z3.Int("x!nd")
        st.pc += [Distinct(q), FA(x, Mem(q, x) == eng.hget(st, NI)[self.r][x], Mem(q, x))]
        return PyObj("iter", ety=INT, seq=q)

    def getitem(self, eng, st, idx):
        eng.obl(st, "safe:node exists", eng.hget(st, NI)[self.r][eng.term(st, idx, INT)])
        return model(Attributes())


class Attributes(Model):
    what = "node attributes"

    def setitem(self, eng, st, idx, v):
        return None


class GraphAttributes(Model):
    what = "graph.graph"

    def __init__(self, r):
        self.r = r

    def setitem(self, eng, st, idx, v):
        k = eng.term(st, idx, STR)
        if z3.eq(k, StrC("structure_learner")):
            setf(eng, st, self.r, "IntGraph.learner", eng.term(st, v))
        elif z3.eq(k, StrC("graph_collapsed")):
            setf(eng, st, self.r, "IntGraph.collapsed", eng.term(st, v))
        else:
            raise Unsupported("graph attribute")


def add_edge(eng, st, g, args, kws):
    u, v = [eng.term(st, x, INT) for x in args]
    if set(kws) - {"origin", "weight", "mean_effect"} or "weight" not in kws:
        raise Unsupported("add_edge options")
    setf(eng, st, g, W, DStore(eng.hget(st, W)[g], MkPair(IE, u, v), eng.term(st, kws["weight"], REAL)))
    ns = eng.hget(st, NI)[g]
    setf(eng, st, g, NI, z3.Store(z3.Store(ns, u, True), v, True))
    return NONEV


def below(eng, st, g, args, kws):
    old, new = eng.hget(st, W)[g], fresh("kept", learn.WT)
    e = z3.Const("e!bt", sort(IE))
    st.pc += [FA(e, Imp(Has(new, e), And(Has(old, e), Get(new, e) == Get(old, e))), Has(new, e))]
    setf(eng, st, g, W, new)
    return NONEV


HOOKS[("IntGraph", "edges")] = lambda eng, st, b: model(Edges(eng.term(st, b)))
HOOKS[("IntGraph", "nodes")] = lambda eng, st, b: model(Nodes(eng.term(st, b)))
HOOKS[("IntGraph", "graph")] = lambda eng, st, b: model(GraphAttributes(eng.term(st, b)))
HOOKS[("IntGraph", "add_edge")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: add_edge(g, s, g.term(s, b), a, k))
HOOKS[("IntGraph", "remove_edges_below_threshold")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: below(g, s, g.term(s, b), a, k))
for cls in ("DistTypeBase", "DistTypeCategorical"):
    method(cls, "add_to_node", params={"sm": REF("IntGraph")}, ret=REF("IntGraph"), trusted=True, ensures=lambda c: [("same", c.res == c.a["sm"])])
    method(cls, "collapse_adj", params={"adj": ARR}, ret=ARR, trusted=True, modifies=[(FLAT, lambda c, x: x == c.a["adj"])],
           ensures=lambda c: [("same", c.res == c.a["adj"]), ("size", Len(c.n[FLAT][c.res]) == Len(c.o[FLAT][c.res]))])


# ------------------------------------------------------------------ the whole
def in_group(c, h, r, x):
    return If(is_cat(c, r), Mem(h[GRP][r], x), x == h[IDX][r])


def types_loop(lp):
    S, n, X = lp.v("dist_types"), lp.n, lp.v("X")
    s, d0 = n[SHAPE][X], At(lp.o[SHAPE][lp.a["X"]], 1)
    te, tp, tc = lp.v("tabu_edges"), lp.v("tabu_parent_nodes"), lp.v("tabu_child_nodes")
    ue, up, uc = lp.a["tabu_edges"], lp.a["tabu_parent_nodes"], lp.a["tabu_child_nodes"]
    k, l, x, y = z3.Ints("k!tl l!tl x!tl y!tl")
    sc = lp.a["dist_type_schema"]
    R = lambda k: At(S, k)
    G = lambda k: n[GRP][R(k)]
    done = lambda k: And(0 <= k, k < lp.i)
    here = lambda k, x: Or(x == n[IDX][R(k)], And(k < lp.i, is_cat(lp, R(k)), Mem(G(k), x)))
    inS = lambda k: InR(k, S)
    grp = lambda k: And(done(k), is_cat(lp, R(k)))
    z = z3.Const("z!tl", Ref)
    out = [("types-new", FA(k, Imp(inS(k), And(lp.fresh_ref(R(k)), R(k) != null)), R(k))),
           ("types-of-columns", FA(k, Imp(inS(k), And(0 <= n[IDX][R(k)], n[IDX][R(k)] < d0)), R(k))),
           ("one-type-per-column", FA([k, l], Imp(And(inS(k), inS(l), k != l), n[IDX][R(k)] != n[IDX][R(l)]), (R(k), R(l)))),
           ("a-type-for-each-column", FA(x, Imp(And(0 <= x, x < d0, Or(none(sc), Has(the(sc), x))), EX(k, And(inS(k), n[IDX][R(k)] == x))))),
           ("matrix", And(X != null, Len(s) == 2, At(s, 0) >= 0, At(s, 1) >= d0)),
           ("groups-start", FA(k, Imp(grp(k), And(Len(G(k)) >= 1, At(G(k), 0) == n[IDX][R(k)], Distinct(G(k)))), R(k))),
           ("groups-range", FA([k, x], Imp(And(grp(k), Mem(G(k), x)), And(x < At(s, 1), Or(x == n[IDX][R(k)], d0 <= x))), (R(k), Mem(G(k), x)))),
           ("edges-given", Imp(And(lp.i > 0, Not(none(ue))), Not(none(te)))), ("edges-start", Imp(lp.i == 0, te == ue)),
           ("edges", FA([k, l, x, y], Imp(And(inS(k), inS(l), here(k, x), here(l, y), x != y, old_edge(ue, n[IDX][R(k)], n[IDX][R(l)])), old_edge(te, x, y)), (R(k), R(l), Mem(the(te), MkPair(IE, x, y))))),
           ("within-groups", FA([k, x, y], Imp(And(grp(k), Mem(G(k), x), Mem(G(k), y), x != y), old_edge(te, x, y)), (R(k), Mem(the(te), MkPair(IE, x, y)))))]
    for nm, t, u in (("parents", tp, up), ("children", tc, uc)):
        out += [(nm + "-given", none(t) == none(u)), (nm, FA([k, x], Imp(And(Not(none(u)), inS(k), here(k, x), Mem(the(u), n[IDX][R(k)])), Mem(the(t), x)), (R(k), Mem(the(t), x))))]
    for f in (FLAT, SHAPE, "ndarray.viewed", GRP, "DistTypeCategorical.encoder", IDX):
        out.append(("old-" + f.split(".")[1], FA(z, Imp(lp.old_ref(z), n[f][z] == lp.o[f][z]), n[f][z])))
    return out


def schema_ok(c):
    s, sc = c.o[SHAPE][c.a["X"]], c.a["dist_type_schema"]
    k = z3.Int("k!sc")
    hu = c.a["hidden_layer_units"]
    return [("matrix", And(c.a["X"] != null, Len(s) == 2, At(s, 0) >= 0, At(s, 1) >= 0)),
            ("units", Imp(Not(none(hu)), And(Len(the(hu)) >= 1, At(the(hu), 0) >= 0))),
            ("known-types", Imp(Not(none(sc)), FA(k, Imp(Has(the(sc), k), Or(*[Get(the(sc), k) == StrC(n) for n in ("bin", "cat", "cont", "ord", "poiss")])), Get(the(sc), k))))]


def unchanged(lp, *fields):
    z = z3.Const("z!un", Ref)
    return [("old-" + f.split(".")[1], FA(z, Imp(lp.old_ref(z), lp.n[f][z] == lp.o[f][z]), lp.n[f][z])) for f in fields]


def graph_loop(*fields):
    """a loop over a graph that leaves its edges alone"""
    def inv(lp):
        sm, was = lp.v("sm"), lp.entry.heap
        e, x = z3.Const("e!gl", sort(IE)), z3.Int("x!gl")
        out = [("same-graph", sm == lp.e("sm"))]
        if W in fields:
            out += [("same-edges", FA(e, Has(lp.n[W][sm], e) == Has(was[W][sm], e), Has(lp.n[W][sm], e))), ("same-nodes", FA(x, lp.n[NI][sm][x] == was[NI][sm][x], lp.n[NI][sm][x]))]
        return out + unchanged(lp, *fields)
    return LoopSpec(inv)


def bad_schema(c):
    k, sc = z3.Int("k!bs"), c.a["dist_type_schema"]
    return And(Not(none(sc)), Not(FA(k, Has(the(sc), k) == And(0 <= k, k < At(c.o[SHAPE][c.a["X"]], 1)), Has(the(sc), k))))


def tabu_ens(c):
    g = c.res
    S, d0 = c.n[TYPES][c.n["IntGraph.learner"][g]], At(c.o[SHAPE][c.a["X"]], 1)
    ue, up, uc, sc = c.a["tabu_edges"], c.a["tabu_parent_nodes"], c.a["tabu_child_nodes"], c.a["dist_type_schema"]
    k, l, x, y = z3.Ints("k!te l!te x!te y!te")
    R = lambda k: At(S, k)
    ix = lambda k: c.n[IDX][R(k)]
    edge = Has(c.n[W][g], MkPair(IE, x, y))
    two = (R(k), R(l), edge)
    own = lambda k, x: And(InR(k, S), in_group(c, c.n, R(k), x))
    return [("fresh", And(c.fresh_ref(g), g != null)), ("types-of-columns", FA(k, Imp(InR(k, S), And(0 <= ix(k), ix(k) < d0)), R(k))), ("one-type-per-column", FA([k, l], Imp(And(InR(k, S), InR(l, S), k != l), ix(k) != ix(l)), (R(k), R(l)))),
            ("a-type-for-each-column", FA(x, Imp(And(0 <= x, x < d0, Or(none(sc), Has(the(sc), x))), EX(k, And(InR(k, S), ix(k) == x))))),
            ("no-self-loop", FA([x, y], Imp(edge, x != y), edge)),
            ("no-tabu-edge", FA([k, l, x, y], Imp(And(own(k, x), own(l, y), old_edge(ue, ix(k), ix(l))), Not(edge)), two)),
            ("no-edge-from-tabu-parent", FA([k, x, y], Imp(And(own(k, x), Not(none(up)), Mem(the(up), ix(k))), Not(edge)), (R(k), edge))),
            ("no-edge-to-tabu-child", FA([k, x, y], Imp(And(own(k, y), Not(none(uc)), Mem(the(uc), ix(k))), Not(edge)), (R(k), edge))),
            ("no-edge-within-a-variable", FA([k, x, y], Imp(And(is_cat(c, R(k)), own(k, x), own(k, y)), Not(edge)), (R(k), edge)))]


contract("from_numpy",
         params={"X": ARR, "dist_type_schema": OPT(DICT(INT, STR)), "lasso_beta": REAL, "ridge_beta": REAL, "use_bias": BOOL, "hidden_layer_units": OPT(IS), "w_threshold": OPT(REAL), "max_iter": INT,
                 "tabu_edges": OPT(SEQ(IE)), "tabu_parent_nodes": OPT(IS), "tabu_child_nodes": OPT(IS), "**kwargs": DICT(STR, VAL)},
         ret=REF("IntGraph"), requires=schema_ok, allocates=True, raises=[("ValueError", lambda c: Or(SIZE(c.o[SHAPE][c.a["X"]]) == 0, Not(c.o[FIN][c.a["X"]]), bad_schema(c)))],
         loops=[LoopSpec(types_loop), graph_loop(W, NI, FLAT, SHAPE, "ndarray.viewed"), graph_loop(), graph_loop(), LoopSpec(lambda lp: [("own-matrix", And(lp.v("adj") == lp.e("adj"), lp.fresh_ref(lp.v("adj"))))] + unchanged(lp, FLAT))], ensures=tabu_ens)
