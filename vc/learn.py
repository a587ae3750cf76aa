"""Contracts for structure learning (C18): causalnex/structure/notears.py. An array is its shape and its entries, row by
row; numpy, scipy.optimize.minimize, pandas and the storage of a graph are assumed contracts."""
import ast
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported, occurs, mul_term

MODULES = {"notears": "causalnex/structure/notears.py"}
RS, IS, BS = SEQ(REAL), SEQ(INT), SEQ(BOOL)
IE, NE, NEW = PAIR(INT, INT), PAIR(VAL, VAL), PAIR(VAL, VAL, REAL)
IEW = PAIR(INT, INT, REAL)
FREE = PAIR(OPT(INT), OPT(INT))      # (lower, upper) as from_numpy gives them
HALF = PAIR(INT, OPT(INT))           # as from_numpy_lasso gives them
WT = DICT(IE, REAL)
NW = PAIR(VAL, REAL)                 # origin, weight
NT = DICT(NE, NW)
for t in (RS, IS, BS, SEQ(IE), SEQ(NE), SEQ(NEW), SEQ(IEW), SEQ(FREE), SEQ(HALF), WT, NT, SEQ(VAL), SET(VAL), SET(INT), OPT(SEQ(IE)), OPT(SEQ(NE)), OPT(IS), OPT(SEQ(VAL)), OPT(INT), DICT(VAL, INT), DICT(INT, VAL)):
    sort(t)
FIELDS = {"ndarray": {"flat": RS, "shape": IS, "finite": BOOL, "dtype": STR, "viewed": BOOL}, "OptimizeResult": {"x": REF("ndarray")}, "function": {},
          "IntGraph": {"W": WT, "N": SET(INT)}, "NamedGraph": {"E": NT, "N": SET(VAL)}, "DataFrame": {"columns_": SEQ(VAL), "text_columns": SEQ(VAL), "values": REF("ndarray")}}
BASES = {}
FROZEN = {"ndarray.shape", "ndarray.finite", "DataFrame.columns_", "DataFrame.text_columns"}
C, HOOKS, BUILTINS, VALUES = {}, {}, {}, {}
FLAT, SHAPE, FIN = "ndarray.flat", "ndarray.shape", "ndarray.finite"
ARR = REF("ndarray")


def contract(name, props=("C18",), **k):
    C[name] = Contract(name, props=list(props), **k)
    return C[name]


def none(o):
    return o.sort().recognizer(0)(o)


def the(o):
    return o.sort().accessor(1, 0)(o)


# ------------------------------------------------------------------ numpy (assumed)
INF = z3.Real("np.inf")  # only ever compared; nothing is assumed about it
VALUES["numpy.inf"] = lambda eng, st: V(REAL, INF)
SIZE = z3.Function("np.size", sort(IS), z3.IntSort())


def seq_of(ety, *xs):
    q = th(SEQ(ety)).empty
    for x in xs:
        q = App(q, x)
    return q


def new_obj(eng, st, cls):
    r = fresh("new_" + cls, REF(cls))
    nn = fresh("now", INT)
    st.pc += [birth(r) == st.now, r != null, nn == st.now + 1, clsof(r) == eng.prog.clsid(cls)]
    st.now = nn
    return r


def setf(eng, st, r, key, val):
    st.heap[key] = eng.named(st, z3.Store(eng.hget(st, key), r, val), "H." + key)
    eng.log(("field", r, key))


def new_array(eng, st, n, at, shape):
    """a fresh array with the given entries; at: index -> term"""
    r = new_obj(eng, st, "ndarray")
    q = fresh("flat", RS)
    i = z3.Int("i!na")
    st.pc += [Len(q) == n, n >= 0]
    if at is not None:
        st.pc.append(FA(i, Imp(And(0 <= i, i < n), at(i)(q)), At(q, i)))
    setf(eng, st, r, FLAT, q)
    setf(eng, st, r, SHAPE, shape)
    setf(eng, st, r, "ndarray.viewed", z3.BoolVal(False))
    return V(ARR, r)


def flat(eng, st, v):
    return eng.hget(st, FLAT)[eng.term(st, v)]


def shape(eng, st, v):
    return eng.hget(st, SHAPE)[eng.term(st, v)]


def view(eng, st, v):
    """the result shares memory with the array: neither may be changed from here on (checked at item stores)"""
    setf(eng, st, eng.term(st, v), "ndarray.viewed", z3.BoolVal(True))
    return v


def b_zeros(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws:
        raise Unsupported("zeros options")
    n = eng.term(st, args[0], INT)
    eng.obl(st, "safe:size", n >= 0)
    return new_array(eng, st, n, lambda i: lambda q: At(q, i) == 0, seq_of(INT, n))


BUILTINS["numpy.zeros"] = b_zeros


def b_abs(eng, st, args, kws, node, mod):
    a = flat(eng, st, args[0])
    return new_array(eng, st, Len(a), lambda i: lambda q: At(q, i) == If(At(a, i) < 0, -At(a, i), At(a, i)), shape(eng, st, args[0]))


BUILTINS["numpy.abs"] = BUILTINS["numpy.absolute"] = b_abs


class Mask(Model):
    what = "boolean array"

    def __init__(self, n, at):
        self.n, self.at = n, at


def arr_compare(eng, st, op, a, b):
    f = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}.get(op)
    if f is None:
        raise Unsupported("comparison of arrays")
    x, y = operand(eng, st, a), operand(eng, st, b)
    q = x[1] if x[1] is not None else y[1]
    if x[1] is not None and y[1] is not None:
        eng.obl(st, "safe:same size", Len(x[1]) == Len(y[1]))
    return model(Mask(Len(q), lambda i: f(x[0](i), y[0](i))))


def operand(eng, st, v):
    """-> (entry at a position, entries or None for a number, shape)"""
    if eng.tyof(v).kind == "Ref":
        q = flat(eng, st, v)
        return (lambda i: At(q, i)), q, shape(eng, st, v)
    t = eng.term(st, v, REAL)
    return (lambda i: t), None, None


def arr_binop(eng, st, op, a, b):
    f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y}.get(op)
    if f is None:
        raise Unsupported("arithmetic on arrays")
    x, y = operand(eng, st, a), operand(eng, st, b)
    if x[1] is not None and y[1] is not None:
        eng.obl(st, "safe:same shape", SeqEq(x[2], y[2]))
        eng.obl(st, "safe:same size", Len(x[1]) == Len(y[1]))
    q = x[1] if x[1] is not None else y[1]
    return new_array(eng, st, Len(q), lambda i: lambda r: At(r, i) == f(x[0](i), y[0](i)), x[2] if x[2] is not None else y[2])


HOOKS[("ndarray", "compare")], HOOKS[("ndarray", "binop")] = arr_compare, arr_binop


def arr_getitem(eng, st, base, idx):
    q, sh = flat(eng, st, base), shape(eng, st, base)
    if isinstance(idx, PyObj) and idx.kind == "slice":
        lo, hi, step = idx.a
        if step is not None:
            raise Unsupported("stepped slice of an array")
        eng.obl(st, "safe:one dimension", Len(sh) == 1)
        n = Len(q)
        t = q
        cut = lambda x: If(x < 0, If(n + x < 0, 0, n + x), If(x > n, n, x))
        if hi is not None:
            t = th(RS).take(t, cut(eng.term(st, hi, INT)))
        if lo is not None:
            l = cut(eng.term(st, lo, INT))
            t = th(RS).drop(t, If(l > Len(t), Len(t), l))
        view(eng, st, base)
        r = new_obj(eng, st, "ndarray")
        t = eng.named(st, t, "slice")
        setf(eng, st, r, FLAT, t)
        setf(eng, st, r, SHAPE, seq_of(INT, Len(t)))
        return view(eng, st, V(ARR, r))
    raise Unsupported("array subscript")


def arr_setitem(eng, st, base, idx, v):
    r = eng.term(st, base)
    eng.obl(st, "safe:no-view-of-it", Not(eng.hget(st, "ndarray.viewed")[r]))
    if not (isinstance(idx, PyObj) and idx.kind == "model" and isinstance(idx.a[0], Mask)):
        raise Unsupported("item store on an array")
    m, old = idx.a[0], flat(eng, st, base)
    eng.obl(st, "safe:same size", m.n == Len(old))
    x = eng.term(st, v, REAL)
    q = fresh("flat", RS)
    i = z3.Int("i!st")
    st.pc += [Len(q) == Len(old), FA(i, Imp(InR(i, old), At(q, i) == If(m.at(i), x, At(old, i))), At(q, i), At(old, i))]
    setf(eng, st, r, FLAT, q)


HOOKS[("ndarray", "[]")], HOOKS[("ndarray", "[]=")] = arr_getitem, arr_setitem
HOOKS[("ndarray", "size")] = lambda eng, st, b: V(INT, SIZE(shape(eng, st, b)))


def arr_reshape(eng, st, base, args, kws):
    if kws:
        raise Unsupported("reshape options")
    q = flat(eng, st, base)
    if len(args) == 1 and eng.fixed(st, args[0]) is not None:
        args = eng.fixed(st, args[0])
    dims = [eng.term(st, x, INT) for x in args]
    if len(dims) != 2:
        raise Unsupported("reshape to %d dimensions" % len(dims))
    eng.obl(st, "safe:reshape", And(dims[0] >= 0, dims[1] >= 0, Len(q) == mul_term(dims[0], dims[1])))
    view(eng, st, base)
    r = new_obj(eng, st, "ndarray")
    setf(eng, st, r, FLAT, q)
    setf(eng, st, r, SHAPE, seq_of(INT, *dims))
    return view(eng, st, V(ARR, r))


HOOKS[("ndarray", "reshape")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: arr_reshape(g, s, b, a, k))


class Finite(Model):
    what = "isfinite"

    def __init__(self, r):
        self.r = r

    def attr(self, eng, st, name):
        if name == "all":
            return PyObj("pyfn", lambda g, s, a, k: V(BOOL, g.hget(s, FIN)[self.r]))


BUILTINS["numpy.isfinite"] = lambda eng, st, args, kws, node, mod: model(Finite(eng.term(st, args[0])))

PURE = {"numpy." + n for n in "trace square eye ones zeros append hstack exp sum dot linalg.norm".split()} | {"scipy.linalg.expm"}
METHODS = {"reshape", "dot", "sum", "flatten", "copy", "trace", "T"}


def pure_closure(eng, st, f):
    """an objective function may only build new values: it stores nothing outside its own new arrays"""
    fd, mod = f.a
    own = {a.arg for a in fd.args.args}
    made = set()
    al = {k: v[1] for k, v in eng.prog.globals.get(mod, {}).items() if v[0] in ("module", "from")}
    for n in ast.walk(fd):
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Delete, ast.AugAssign)):
            raise Unsupported("objective function with side effects")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("np.zeros", "np.ones"):
            made.add(n.targets[0].id)
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in made):
            raise Unsupported("objective function with side effects")
        if isinstance(n, ast.Call):
            t = ast.unparse(n.func)
            head = t.split(".")[0]
            full = al[head] + t[len(head):] if head in al else t
            if any(k.arg == "out" for k in n.keywords):
                raise Unsupported("objective function with side effects")
            if full in PURE or isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
                continue
            v = st.env.get(t)
            if isinstance(v, PyObj) and v.kind == "closure":
                if v.a[0] is not fd:
                    pure_closure(eng, st, v)
                continue
            if isinstance(n.func, ast.Name) and t in eng.contracts and all(m[0] == "ndarray.viewed" for m in eng.contracts[t].modifies):
                continue
            raise Unsupported("objective function calls " + t)


def number_of(eng, st, f, args, kws):
    pure_closure(eng, st, f)
    return V(REAL, fresh("value_of_" + f.a[0].name.strip("_"), REAL))


BUILTINS["closure:_h"] = number_of


def bound(b, k, i):
    """lower/upper limit i of a pair of bounds -> (is there one, value)"""
    t = P(b, i)
    if t.sort() == z3.IntSort():
        return z3.BoolVal(True), z3.ToReal(t)
    return Not(none(t)), z3.ToReal(the(t))


def b_minimize(eng, st, args, kws, node, mod):
    """scipy.optimize.minimize with L-BFGS-B: the result is a new vector within the bounds"""
    if len(args) != 2 or set(kws) - {"method", "jac", "bounds"}:
        raise Unsupported("minimize options")
    for f in [args[0]] + ([kws["jac"]] if "jac" in kws else []):
        if not (isinstance(f, PyObj) and f.kind == "closure"):
            raise Unsupported("objective function")
        pure_closure(eng, st, f)
    x0 = flat(eng, st, args[1])
    n = Len(x0)
    i = z3.Int("i!mn")
    at = None
    if "bounds" in kws and not (isinstance(kws["bounds"], type(NONEV))):
        m = eng.term(st, kws.get("method", V(STR, StrC("BFGS"))))
        eng.obl(st, "safe:method-respects-bounds", Or(*[m == StrC(x) for x in ("L-BFGS-B", "TNC", "SLSQP", "trust-constr", "Powell", "Nelder-Mead")]))
        ety, b = eng.iter_seq(st, kws["bounds"])
        eng.obl(st, "safe:one-bound-per-entry", Len(b) == n)
        (hl, lo), (hu, up) = bound(At(b, i), b, 0), bound(At(b, i), b, 1)
        ok = lambda q: And(Imp(hl, lo <= At(q, i)), Imp(hu, At(q, i) <= up))
        at = lambda j: (lambda q: z3.substitute(ok(q), (i, j)))
    x = new_array(eng, st, n, at, seq_of(INT, n))
    r = new_obj(eng, st, "OptimizeResult")
    setf(eng, st, r, "OptimizeResult.x", x.t)
    return V(REF("OptimizeResult"), r)


BUILTINS["scipy.optimize.minimize"] = b_minimize


# ------------------------------------------------------------------ graphs
W, NI, NEE, NN = "IntGraph.W", "IntGraph.N", "NamedGraph.E", "NamedGraph.N"


def entries(wt, ns, q, d):
    """the graph of a d x d matrix: its edges are the non-zero entries"""
    e = z3.Const("e!gm", sort(IE))
    i = z3.Int("i!gm")
    a, b = P(e, 0), P(e, 1)
    return [("edges-are-entries", FA(e, Has(wt, e) == And(0 <= a, a < d, 0 <= b, b < d, At(q, IX(a, b, d)) != 0), Has(wt, e))),
            ("weights-are-entries", FA(e, Imp(Has(wt, e), Get(wt, e) == At(q, IX(a, b, d))), Get(wt, e))),
            ("nodes", FA(i, ns[i] == And(0 <= i, i < d), ns[i]))]


def b_structure_model(eng, st, args, kws, node, mod):
    if kws or len(args) > 1:
        raise Unsupported("StructureModel options")
    if not args:
        r = new_obj(eng, st, "NamedGraph")
        setf(eng, st, r, NEE, MkDict(NT, EmptySet(sort(NE)), fresh("none", NT) if False else Vals(fresh("none", NT))))
        setf(eng, st, r, NN, EmptySet(Val))
        return V(REF("NamedGraph"), r)
    q, sh = flat(eng, st, args[0]), shape(eng, st, args[0])
    eng.obl(st, "safe:square", And(Len(sh) == 2, At(sh, 0) == At(sh, 1)))
    r = new_obj(eng, st, "IntGraph")
    wt, ns = fresh("weights", WT), fresh("nodes", SET(INT))
    st.pc += [f for _, f in entries(wt, ns, q, At(sh, 0))]
    setf(eng, st, r, W, wt)
    setf(eng, st, r, NI, ns)
    return V(REF("IntGraph"), r)


BUILTINS["StructureModel"] = b_structure_model


class IntEdges(Model):
    what = "graph.edges"

    def __init__(self, r):
        self.r = r

    def attr(self, eng, st, name):
        if name == "data":
            return PyObj("pyfn", self.data)

    def data(self, eng, st, args, kws):
        k = args[0] if args else kws.get("data")
        if len(args) + len(kws) != 1 or not (isinstance(k, V) and k.ty.kind == "Str" and z3.eq(k.t, StrC("weight"))):
            raise Unsupported("edges.data")
        t = eng.hget(st, W)[self.r]
        ks = eng.dkeys(st, WT, t)
        i = z3.Int("i!ie")
        q = fresh("edgedata", SEQ(IEW))
        st.pc += [Len(q) == Len(ks), FA(i, Imp(InR(i, ks), At(q, i) == MkPair(IEW, P(At(ks, i), 0), P(At(ks, i), 1), Get(t, At(ks, i)))), At(q, i), At(ks, i))]
        return PyObj("iter", ety=IEW, seq=q)


HOOKS[("IntGraph", "edges")] = lambda eng, st, b: model(IntEdges(eng.term(st, b)))


def add_nodes(eng, st, r, args, kws):
    if len(args) != 1 or kws:
        raise Unsupported("add_nodes_from")
    ety, q = eng.iter_seq(st, args[0])
    if ety.kind != "Val":
        raise Unsupported("nodes of another type")
    setf(eng, st, r, NN, Union(eng.hget(st, NN)[r], ToSet(q)))
    return NONEV


LAST = z3.Function("LAST", sort(SEQ(NEW)), sort(NE), z3.IntSort())   # the last mention of an edge
_l, _e, _i = z3.Const("l!lw", sort(SEQ(NEW))), z3.Const("e!lw", sort(NE)), z3.Int("i!lw")
axiom("LAST", FA([_l, _i], Imp(InR(_i, _l), And(_i <= LAST(_l, MkPair(NE, P(At(_l, _i), 0), P(At(_l, _i), 1))), LAST(_l, MkPair(NE, P(At(_l, _i), 0), P(At(_l, _i), 1))) < Len(_l))), At(_l, _i)))
axiom("LAST.is", FA([_l, _e], Imp(And(0 <= LAST(_l, _e), LAST(_l, _e) < Len(_l)), And(P(At(_l, LAST(_l, _e)), 0) == P(_e, 0), P(At(_l, LAST(_l, _e)), 1) == P(_e, 1))), LAST(_l, _e)))


def add_weighted(eng, st, r, args, kws):
    """add_weighted_edges_from (C14): each edge of the list, with its last weight and the origin given"""
    if len(args) != 1 or set(kws) != {"origin"}:
        raise Unsupported("add_weighted_edges_from options")
    ety, q = eng.iter_seq(st, args[0])
    q2 = eng.term(st, PyObj("iter", ety=ety, seq=q), SEQ(NEW)) if False else q
    if skey(ety) != skey(NEW):
        raise Unsupported("edges of another type")
    o = eng.term(st, kws["origin"], VAL)
    old, new = eng.hget(st, NEE)[r], fresh("edges", NT)
    on = eng.hget(st, NN)[r]
    e, i, x = z3.Const("e!aw", sort(NE)), z3.Int("i!aw"), z3.Const("x!aw", Val)
    l = LAST(q, e)
    inl = And(0 <= l, l < Len(q))
    st.pc += [FA(e, Has(new, e) == Or(Has(old, e), inl), Has(new, e)), FA(e, Imp(Has(new, e), Get(new, e) == If(inl, MkPair(NW, o, P(At(q, l), 2)), Get(old, e))), Get(new, e))]
    nn = fresh("nodes", SET(VAL))
    st.pc += [FA(x, Imp(on[x], nn[x]), nn[x], on[x]), FA(i, Imp(InR(i, q), And(nn[P(At(q, i), 0)], nn[P(At(q, i), 1)])), At(q, i)),
              FA(x, Imp(And(nn[x], Not(on[x])), EX(i, And(InR(i, q), Or(P(At(q, i), 0) == x, P(At(q, i), 1) == x)))), nn[x])]
    setf(eng, st, r, NEE, new)
    setf(eng, st, r, NN, nn)
    return NONEV


HOOKS[("NamedGraph", "add_nodes_from")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: add_nodes(g, s, g.term(s, b), a, k))
HOOKS[("NamedGraph", "add_weighted_edges_from")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: add_weighted(g, s, g.term(s, b), a, k))


# ------------------------------------------------------------------ data frames (assumed)
class Index(Model):
    what = "Index"

    def __init__(self, q):
        self.q = q

    def iterate(self, eng, st):
        return VAL, self.q

    def length(self, eng, st):
        return V(INT, Len(self.q))

    def attr(self, eng, st, name):
        if name == "empty":
            return V(BOOL, Len(self.q) == 0)
        if name == "size":
            return V(INT, Len(self.q))


class Selected(Model):
    what = "DataFrame.select_dtypes"

    def __init__(self, r):
        self.r = r

    def attr(self, eng, st, name):
        if name == "columns":
            return model(Index(eng.hget(st, "DataFrame.text_columns")[self.r]))


def select(eng, st, r, args, kws):
    if args or set(kws) != {"exclude"} or not z3.eq(eng.term(st, kws["exclude"]), StrC("number")):
        raise Unsupported("select_dtypes options")
    return model(Selected(r))


HOOKS[("DataFrame", "columns")] = lambda eng, st, b: model(Index(eng.hget(st, "DataFrame.columns_")[eng.term(st, b)]))
HOOKS[("DataFrame", "select_dtypes")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: select(g, s, g.term(s, b), a, k))

contract("deepcopy:DataFrame", params={"x": REF("DataFrame")}, ret=REF("DataFrame"), trusted=True, allocates=True,
         ensures=lambda c: [("same", And(c.fresh_ref(c.res), *[c.n["DataFrame." + f][c.res] == c.o["DataFrame." + f][c.a["x"]] for f in ("columns_", "text_columns", "values")]))])


# ------------------------------------------------------------------ contracts
BANNED = z3.Function("BANNED", sort(OPT(SEQ(IE))), sort(OPT(IS)), sort(OPT(IS)), z3.ArraySort(sort(IE), z3.BoolSort()))


def tabu(c):
    return c.a["tabu_edges"], c.a["tabu_parent_nodes"], c.a["tabu_child_nodes"]


def banned(e, p, k, i, j):
    """the restrictions the user gave (positions)"""
    return Or(i == j, And(Not(none(e)), Mem(the(e), MkPair(IE, i, j))), And(Not(none(p)), Mem(the(p), i)), And(Not(none(k)), Mem(the(k), j)))


_x = z3.Const("x!bn", sort(IE))
_te, _tp, _tc = z3.Const("e!bn", sort(OPT(SEQ(IE)))), z3.Const("p!bn", sort(OPT(IS))), z3.Const("c!bn", sort(OPT(IS)))
axiom("BANNED", FA([_te, _tp, _tc, _x], BANNED(_te, _tp, _tc)[_x] == banned(_te, _tp, _tc, P(_x, 0), P(_x, 1)), BANNED(_te, _tp, _tc)[_x]))


def dim(c):
    return At(c.o[SHAPE][c.a["X"]], 1)


def data_ok(c):
    s = c.o[SHAPE][c.a["X"]]
    return [("two-dimensions", And(Len(s) == 2, At(s, 0) >= 0, At(s, 1) >= 0))]


def zero(t):
    return t == 0 if t.sort() == z3.IntSort() else And(Not(none(t)), the(t) == 0)


def pinned(b):
    return And(zero(P(b, 0)), zero(P(b, 1)))


def open_(b):
    lo, up = P(b, 0), P(b, 1)
    return And(zero(lo) if lo.sort() == z3.IntSort() else none(lo), none(up))


BAN = z3.ArraySort(sort(IE), z3.BoolSort())
_ij = z3.Ints("i!ln j!ln")


def bounds_req(c, half):
    """the bounds forbid exactly what is banned and leave everything else open"""
    i, j = _ij
    d, b, ban = dim(c), c.a["bnds"], c.a["$ban"]
    n = IMUL(d, d)
    inr = And(0 <= i, i < d, 0 <= j, j < d)
    k = IX(i, j, d)
    out = data_ok(c) + [("one-bound-per-weight", Len(b) == (n + n if half else n)),
                        ("banned-weights-pinned", FA([i, j], Imp(And(inr, ban[MkPair(IE, i, j)]), pinned(At(b, k))), k)),
                        ("other-weights-free", FA([i, j], Imp(And(inr, Not(ban[MkPair(IE, i, j)])), open_(At(b, k))), k))]
    if half:
        out += [("banned-weights-pinned-negative-part", FA([i, j], Imp(And(inr, ban[MkPair(IE, i, j)]), pinned(At(b, n + k))), k)),
                ("other-weights-free-negative-part", FA([i, j], Imp(And(inr, Not(ban[MkPair(IE, i, j)])), open_(At(b, n + k))), k))]
    return out


def graph_ens(c, ban, d):
    i, j = _ij
    e = z3.Const("e!ge", sort(IE))
    x = z3.Int("x!ge")
    wt, ns = c.n[W][c.res], c.n[NI][c.res]
    return [("no-banned-edge", FA(e, Imp(Has(wt, e), Not(ban(P(e, 0), P(e, 1)))), Has(wt, e))),
            ("edges-between-columns", FA(e, Imp(Has(wt, e), And(0 <= P(e, 0), P(e, 0) < d, 0 <= P(e, 1), P(e, 1) < d)), Has(wt, e))),
            ("nodes-are-columns", FA(x, ns[x] == And(0 <= x, x < d), ns[x]))]


def vec(lp, name, n, half):
    """a vector of weights within the bounds"""
    i, j = _ij
    d = dim(lp)
    q = lp.n[FLAT][lp.v(name)]
    k = IX(i, j, d)
    ban, inr = lp.a["$ban"], And(0 <= i, i < d, 0 <= j, j < d)
    zeros = [("zero-%s" % name, FA([i, j], Imp(And(inr, ban[MkPair(IE, i, j)]), At(q, k) == 0), k))]
    if half:
        zeros += [("zero-neg-%s" % name, FA([i, j], Imp(And(inr, ban[MkPair(IE, i, j)]), At(q, IMUL(d, d) + k) == 0), k))]
    s = lp.n[SHAPE][lp.v(name)]
    r = lp.v(name)
    own = [("unshared-%s" % name, Not(lp.n["ndarray.viewed"][r]))] if not half else []
    return [("size-%s" % name, And(Len(q) == n, Len(s) == 1, r != null, lp.fresh_ref(r)))] + zeros + own


def untouched(lp):
    x = z3.Const("x!ut", Ref)
    return [("old-%s" % f.split(".")[1], FA(x, Imp(lp.old_ref(x), lp.n[f][x] == lp.o[f][x]), lp.n[f][x])) for f in (FLAT, SHAPE, "ndarray.viewed", "OptimizeResult.x")]


def learn_loop(half):
    def inv(lp):
        d = dim(lp)
        n = IMUL(d, d) * (2 if half else 1)
        return vec(lp, "w_est", n, half) + vec(lp, "w_new", n, half) + untouched(lp)
    return LoopSpec(inv)


contract("_assert_all_finite", params={"X": ARR}, ret=NONE, raises=[("ValueError", lambda c: Not(c.o[FIN][c.a["X"]]))])
for half in (False, True):
    sfx = "_lasso" if half else ""
    P0 = {"X": ARR, "beta": REAL} if half else {"X": ARR}
    OPTS = {"max_iter": INT, "h_tol": REAL, "w_threshold": REAL}
    contract("_learn_structure" + sfx, params=dict(P0, bnds=SEQ(HALF if half else FREE), **OPTS), ret=REF("IntGraph"), allocates=True, ghosts={"ban": BAN},
             requires=lambda c, half=half: bounds_req(c, half), raises=[("ValueError", lambda c: SIZE(c.o[SHAPE][c.a["X"]]) == 0)],
             ensures=lambda c: [("fresh", c.fresh_ref(c.res))] + graph_ens(c, lambda i, j: c.a["$ban"][MkPair(IE, i, j)], dim(c)), loops=[learn_loop(half), learn_loop(half)])
    TABU = {"tabu_edges": OPT(SEQ(IE)), "tabu_parent_nodes": OPT(IS), "tabu_child_nodes": OPT(IS)}
    contract("from_numpy" + sfx, params=dict(P0, **OPTS, **TABU), ret=REF("IntGraph"), allocates=True, requires=data_ok,
             raises=[("ValueError", lambda c: Or(Not(c.o[FIN][c.a["X"]]), SIZE(c.o[SHAPE][c.a["X"]]) == 0))],
             ghost_calls={"_learn_structure" + sfx: lambda c: {"ban": BANNED(*tabu(c))}},
             ensures=lambda c: [("fresh", c.fresh_ref(c.res))] + graph_ens(c, lambda i, j: banned(*tabu(c), i, j), dim(c)))


# ------------------------------------------------------------------ data frames
def cols(c):
    return c.o["DataFrame.columns_"][c.a["X"]]


def frame_ok(c):
    q, v = cols(c), c.o["DataFrame.values"][c.a["X"]]
    s = c.o[SHAPE][v]
    e, p, k = tabu(c)
    i = z3.Int("i!fo")
    names = lambda o: FA(i, Imp(And(Not(none(o)), InR(i, the(o))), Mem(q, At(the(o), i))), At(the(o), i))
    return [("distinct-columns", Distinct(q)), ("values", And(v != null, Len(s) == 2, At(s, 0) >= 0, At(s, 1) == Len(q))),
            ("edges-name-columns", FA(i, Imp(And(Not(none(e)), InR(i, the(e))), And(Mem(q, P(At(the(e), i), 0)), Mem(q, P(At(the(e), i), 1)))), At(the(e), i))),
            ("parents-name-columns", names(p)), ("children-name-columns", names(k))]


def named_ban(c, u, v):
    e, p, k = tabu(c)
    return Or(u == v, And(Not(none(e)), Mem(the(e), MkPair(NE, u, v))), And(Not(none(p)), Mem(the(p), u)), And(Not(none(k)), Mem(the(k), v)))


def named_ens(c):
    e, x = z3.Const("e!nm", sort(NE)), z3.Const("x!nm", Val)
    t, ns, q = c.n[NEE][c.res], c.n[NN][c.res], cols(c)
    return [("fresh", c.fresh_ref(c.res)), ("no-banned-edge", FA(e, Imp(Has(t, e), Not(named_ban(c, P(e, 0), P(e, 1)))), Has(t, e))),
            ("edges-between-columns", FA(e, Imp(Has(t, e), And(Mem(q, P(e, 0)), Mem(q, P(e, 1)))), Has(t, e))),
            ("nodes-are-columns", FA(x, ns[x] == Mem(q, x), ns[x], Mem(q, x))),
            ("learned", FA(e, Imp(Has(t, e), P(Get(t, e), 0) == boxS(StrC("learned"))), Get(t, e)))]


def named_cut(lp):
    """the two tables between names and positions agree"""
    i = z3.Int("i!nc")
    there, back, q = lp.v("col_idx"), lp.v("idx_col"), cols(lp)
    return [("position-of-name", FA(i, Imp(InR(i, q), And(Has(there, At(q, i)), Get(there, At(q, i)) == i)), At(q, i))),
            ("name-of-position", FA(i, Imp(And(Mem(q, At(q, i)), InR(i, q)), And(Has(back, i), Get(back, i) == At(q, i))), Has(back, i)))]


boxS = z3.Function("box.Str", Str, Val)
for half in (False, True):
    sfx = "_lasso" if half else ""
    P0 = {"X": REF("DataFrame"), "beta": REAL} if half else {"X": REF("DataFrame")}
    contract("from_pandas" + sfx, params=dict(P0, max_iter=INT, h_tol=REAL, w_threshold=REAL, tabu_edges=OPT(SEQ(NE)), tabu_parent_nodes=OPT(SEQ(VAL)), tabu_child_nodes=OPT(SEQ(VAL))),
             ret=REF("NamedGraph"), allocates=True, requires=frame_ok,
             raises=[("ValueError", lambda c: Or(Len(c.o["DataFrame.text_columns"][c.a["X"]]) > 0, Not(c.o[FIN][c.o["DataFrame.values"][c.a["X"]]]), SIZE(c.o[SHAPE][c.o["DataFrame.values"][c.a["X"]]]) == 0))],
             cuts={"from_numpy" + sfx: named_cut}, ensures=named_ens)
