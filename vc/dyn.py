"""Contracts for dynamic structure learning (C19): causalnex/structure/dynotears.py. Arrays, the optimiser and the storage
of a graph are the assumed contracts of learn.py; text built from a variable and a lag is a pair of them."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported, mul_term, poly
import learn
from learn import RS, IS, ARR, FLAT, SHAPE, FIN, SIZE, HALF, none, the, seq_of, new_obj, flat, shape, setf, new_array, view, pinned, open_

MODULES = {"dynotears": "causalnex/structure/dynotears.py"}
T3, SE = PAIR(INT, INT, INT), PAIR(STR, STR)
SW = PAIR(STR, REAL)                        # origin, weight
ST = DICT(SE, SW)
SED, SEW = PAIR(STR, STR, DICT(STR, REAL)), PAIR(STR, STR, REAL)
TWO = PAIR(ARR, ARR)
for t in (SEQ(T3), OPT(SEQ(T3)), SEQ(SE), ST, SEQ(SED), SEQ(SEW), SEQ(STR), SET(STR), SEQ(HALF), SET(T3), DICT(STR, INT), DICT(INT, STR), OPT(SEQ(STR)), PAIR(INT, STR, STR), OPT(SEQ(PAIR(INT, STR, STR))), TWO):
    sort(t)
FIELDS = {k: dict(v) for k, v in learn.FIELDS.items() if k in ("ndarray", "OptimizeResult", "function")}
FIELDS["StrGraph"] = {"E": ST, "N": SET(STR)}
FIELDS["DataFrame"] = {"columns_": SEQ(STR)}
BASES = {}
FROZEN = {"ndarray.shape", "ndarray.finite", "DataFrame.columns_"}
C, HOOKS, BUILTINS, VALUES = {}, {k: v for k, v in learn.HOOKS.items() if k[0] == "ndarray"}, dict(learn.BUILTINS), dict(learn.VALUES)
E, N = "StrGraph.E", "StrGraph.N"


def contract(name, props=("C19",), **k):
    C[name] = Contract(name, props=list(props), **k)
    return C[name]


# ------------------------------------------------------------------ arithmetic
Z = z3.IntSort()
_a, _b, _c, _d, _k = z3.Ints("a!dy b!dy c!dy d!dy k!dy")
DIV, MOD = z3.Function("pyfloordiv", Z, Z, Z), z3.Function("pymod", Z, Z, Z)
_dm = lambda: Imp(_b > 0, And(_a == IMUL(DIV(_a, _b), _b) + MOD(_a, _b), 0 <= MOD(_a, _b), MOD(_a, _b) < _b))
axiom("div", FA([_a, _b], _dm(), DIV(_a, _b)))
axiom("mod", FA([_a, _b], _dm(), MOD(_a, _b)))
axiom("div.pos", FA([_a, _b], Imp(And(_b > 0, _a >= 0), DIV(_a, _b) >= 0), DIV(_a, _b)))
axiom("imul.comm", FA([_a, _b], IMUL(_a, _b) == IMUL(_b, _a), IMUL(_a, _b)))
axiom("imul.mono", FA([_a, _b, _c], Imp(And(0 <= _a, _b < _c), IMUL(_a, _b) + _a <= IMUL(_a, _c)), (IMUL(_a, _b), IMUL(_a, _c))))
axiom("ix.assoc", FA([_k, _a, _b, _d], IX(IX(_k, _a, _d), _b, _d) == IX(_k, IX(_a, _b, _d), IMUL(_d, _d)), IX(IX(_k, _a, _d), _b, _d)))
axiom("ix.is", FA([_a, _b, _d], IX(_a, _b, _d) == IMUL(_a, _d) + _b, IX(_a, _b, _d)))


# ------------------------------------------------------------------ names
DEC, UNDEC = z3.Function("decimal", Z, Str), z3.Function("undecimal", Str, Z)
NAME, NVAR, NLAG = z3.Function("NAME", Str, Str, Str), z3.Function("NAME.var", Str, Str), z3.Function("NAME.lag", Str, Z)
_s = z3.Const("s!dy", Str)
axiom("decimal", FA(_a, UNDEC(DEC(_a)) == _a, DEC(_a)))
axiom("NAME", FA([_s, _a], And(NVAR(NAME(_s, DEC(_a))) == _s, NLAG(NAME(_s, DEC(_a))) == _a), NAME(_s, DEC(_a))))


def text(eng, st, v):
    t = eng.term(st, v)
    return DEC(t) if t.sort() == Z else t if t.sort() == Str else None


def pieces(eng, st, ps, parts):
    """variable + "_lag" + lag"""
    if len(parts) == 2 and ps == [None, "_lag", None]:
        a, b = text(eng, st, parts[0]), text(eng, st, parts[1])
        if a is not None and b is not None:
            return V(STR, NAME(a, b))
    return None


def split(eng, st, base, args, kws):
    """of a name whose variable is a number: the number and the lag"""
    if len(args) != 1 or kws or not z3.eq(eng.term(st, args[0]), StrC("_lag")):
        raise Unsupported("split")
    x = eng.term(st, base)
    v, l = UNDEC(NVAR(x)), NLAG(x)
    eng.obl(st, "safe:two parts", x == NAME(DEC(v), DEC(l)))
    return PyTuple([V(STR, DEC(v)), V(STR, DEC(l))])


HOOKS[("Str", "pieces")], HOOKS[("Str", "split")] = pieces, split


def b_int(eng, st, args, kws, node, mod):
    (x,) = args
    t = eng.term(st, x)
    if t.sort() == Z:
        return x
    if t.sort() != Str:
        raise Unsupported("int()")
    eng.obl(st, "safe:a number", t == DEC(UNDEC(t)))
    return V(INT, UNDEC(t))


BUILTINS["int"] = b_int


# ------------------------------------------------------------------ arrays
def part(t, m):
    """t divided by a number, where the unknown parts are multiples of it"""
    p = poly(t)
    if any(v % m for k, v in p.items() if k):
        raise Unsupported("stepped slice of an odd number of rows")
    from engine import poly_term
    return poly_term({k: v // m for k, v in p.items() if v // m})


def getitem(eng, st, base, idx):
    r, q, sh = eng.term(st, base), flat(eng, st, base), shape(eng, st, base)
    ps = list(idx.items) if isinstance(idx, PyTuple) else [idx]
    sl = [isinstance(p, PyObj) and p.kind == "slice" for p in ps]
    if not any(sl) and len(ps) == 2:
        eng.obl(st, "safe:dimensions", Len(sh) == 2)
        i, j = [eng.term(st, p, INT) for p in ps]
        eng.obl(st, "safe:index", And(0 <= i, i < At(sh, 0), 0 <= j, j < At(sh, 1)))
        return V(REAL, At(q, IX(i, j, known(eng, r, 1, At(sh, 1)))))
    if not sl[0] or not all(s and all(x is None for x in p.a) for s, p in zip(sl[1:], ps[1:])) or len(ps) > 2:
        raise Unsupported("array subscript")
    eng.obl(st, "safe:dimensions", Len(sh) == 2)
    R, c = known(eng, r, 0, At(sh, 0)), known(eng, r, 1, At(sh, 1))
    lo, hi, step = ps[0].a
    l = z3.IntVal(0) if lo is None else eng.term(st, lo, INT)
    h = R if hi is None else eng.term(st, hi, INT)
    m = 1 if step is None else z3.simplify(eng.term(st, step, INT))
    m = m if isinstance(m, int) else m.as_long() if z3.is_int_value(m) else 0
    if m < 1:
        raise Unsupported("stepped slice")
    eng.obl(st, "safe:slice within the array", And(0 <= l, l <= h, h <= R))
    view(eng, st, base)
    rows = h - l if m == 1 else part(h - l + m - 1, m)
    rows, n = z3.simplify(rows), mul_term(rows, c)
    a = new_obj(eng, st, "ndarray")
    q2 = fresh("rows", RS)
    i, j = z3.Ints("i!sl j!sl")
    st.pc.append(Len(q2) == n)
    off = mul_term(l, c)
    if m == 1:
        st.pc.append(FA(i, Imp(And(0 <= i, i < n), At(q2, i) == At(q, off + i)), At(q2, i)))
    else:
        st.pc.append(FA([i, j], Imp(And(0 <= i, i < rows, 0 <= j, j < c), At(q2, IX(i, j, c)) == At(q, off + m * IMUL(c, i) + j)), IX(i, j, c)))
    setf(eng, st, a, FLAT, q2)
    setf(eng, st, a, SHAPE, seq_of(INT, rows, c))
    remember(eng, a, rows, c)
    return view(eng, st, V(ARR, a))


def known(eng, r, k, t):
    """an entry of the shape of an array that was built here (shapes never change)"""
    return getattr(eng, "dims", {}).get(str(r), {}).get(k, t)


def remember(eng, r, *dims):
    eng.dims = getattr(eng, "dims", {})
    eng.dims[str(r)] = dict(enumerate(dims))


def reshape(eng, st, base, args, kws):
    v = learn.arr_reshape(eng, st, base, args, kws)
    if len(args) == 1 and eng.fixed(st, args[0]) is not None:
        args = eng.fixed(st, args[0])
    remember(eng, v.t, *[eng.term(st, x, INT) for x in args])
    return v


HOOKS[("ndarray", "reshape")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: reshape(g, s, b, a, k))
HOOKS[("ndarray", "[]")] = getitem


# ------------------------------------------------------------------ graphs (assumed)
def last_of(lt, nm):
    """the last mention of an edge in a list"""
    L = z3.Function("LAST." + nm, sort(lt), sort(SE), Z)
    l, e, i = z3.Const("l!%s" % nm, sort(lt)), z3.Const("e!%s" % nm, sort(SE)), z3.Int("i!%s" % nm)
    me = lambda i: MkPair(SE, P(At(l, i), 0), P(At(l, i), 1))
    axiom("LAST." + nm, FA([l, i], Imp(InR(i, l), And(i <= L(l, me(i)), L(l, me(i)) < Len(l))), At(l, i)))
    axiom("LAST.is." + nm, FA([l, e], Imp(And(0 <= L(l, e), L(l, e) < Len(l)), And(P(At(l, L(l, e)), 0) == P(e, 0), P(At(l, L(l, e)), 1) == P(e, 1))), L(l, e)))
    return L


LASTD, LASTW = last_of(SEQ(SED), "sed"), last_of(SEQ(SEW), "sew")


def b_graph(eng, st, args, kws, node, mod):
    if args or kws:
        raise Unsupported("StructureModel options")
    r = new_obj(eng, st, "StrGraph")
    setf(eng, st, r, E, MkDict(ST, EmptySet(sort(SE)), Vals(fresh("none", ST))))
    setf(eng, st, r, N, EmptySet(Str))
    return V(REF("StrGraph"), r)


BUILTINS["StructureModel"] = b_graph


def steps(eng, st, what, q):
    """intermediate facts of a contract about a list given to a graph, proved there"""
    for lab, f in eng.con.cuts.get(what, lambda *a: [])(eng, st, q) if not eng.dry else []:
        eng.obl(st, "before:%s:%s" % (what, lab), f)


def add_nodes(eng, st, r, args, kws):
    if len(args) != 1 or kws:
        raise Unsupported("add_nodes_from")
    ety, q = eng.iter_seq(st, args[0])
    if ety.kind != "Str":
        raise Unsupported("nodes of another type")
    steps(eng, st, "add_nodes_from", q)
    setf(eng, st, r, N, Union(eng.hget(st, N)[r], ToSet(q)))
    return NONEV


def add_edges(weighted):
    """C14: each edge of the list with its last data and the origin given"""
    def f(eng, st, r, args, kws):
        if len(args) != 1 or set(kws) - {"origin"}:
            raise Unsupported("add_edges_from options")
        ety, q = eng.iter_seq(st, args[0])
        if skey(ety) != skey(SEW if weighted else SED):
            raise Unsupported("edges of another type")
        steps(eng, st, "add_edges_from", q)
        o = eng.term(st, kws["origin"], STR) if "origin" in kws else StrC("unknown")
        i, e, x = z3.Int("i!ae"), z3.Const("e!ae", sort(SE)), z3.Const("x!ae", Str)
        w = StrC("weight")
        if not weighted:
            eng.obl(st, "safe:weight given", FA(i, Imp(InR(i, q), Has(P(At(q, i), 2), w)), At(q, i)))
        val = lambda i: P(At(q, i), 2) if weighted else Get(P(At(q, i), 2), w)
        old, new, on = eng.hget(st, E)[r], fresh("edges", ST), eng.hget(st, N)[r]
        l = (LASTW if weighted else LASTD)(q, e)
        inl = And(0 <= l, l < Len(q))
        st.pc += [FA(e, Has(new, e) == Or(Has(old, e), inl), Has(new, e)), FA(e, Imp(Has(new, e), Get(new, e) == If(inl, MkPair(SW, o, val(l)), Get(old, e))), Get(new, e))]
        nn = fresh("nodes", SET(STR))
        st.pc += [FA(x, Imp(on[x], nn[x]), nn[x], on[x]), FA(i, Imp(InR(i, q), And(nn[P(At(q, i), 0)], nn[P(At(q, i), 1)])), At(q, i)),
                  FA(x, Imp(And(nn[x], Not(on[x])), EX(i, And(InR(i, q), Or(P(At(q, i), 0) == x, P(At(q, i), 1) == x)))), nn[x])]
        setf(eng, st, r, E, new)
        setf(eng, st, r, N, nn)
        return NONEV
    return f


for nm, f in (("add_nodes_from", add_nodes), ("add_edges_from", add_edges(False)), ("add_weighted_edges_from", add_edges(True))):
    HOOKS[("StrGraph", nm)] = lambda eng, st, b, f=f: PyObj("pyfn", lambda g, s, a, k: f(g, s, g.term(s, b), a, k))


class StrEdges(Model):
    what = "graph.edges"

    def __init__(self, r):
        self.r = r

    def attr(self, eng, st, name):
        if name == "data":
            return PyObj("pyfn", self.data)

    def data(self, eng, st, args, kws):
        k = args[0] if args else kws.get("data")
        if len(args) + len(kws) != 1 or not (isinstance(k, V) and k.ty.kind == "Str" and z3.eq(k.t, StrC("weight"))):
            raise Unsupported("edges.data")
        t = eng.hget(st, E)[self.r]
        ks = eng.dkeys(st, ST, t)
        i = z3.Int("i!se")
        q = fresh("edgedata", SEQ(SEW))
        st.pc += [Len(q) == Len(ks), FA(i, Imp(InR(i, ks), At(q, i) == MkPair(SEW, P(At(ks, i), 0), P(At(ks, i), 1), P(Get(t, At(ks, i)), 1))), At(q, i), At(ks, i))]
        return PyObj("iter", ety=SEW, seq=q)


HOOKS[("StrGraph", "edges")] = lambda eng, st, b: model(StrEdges(eng.term(st, b)))

# ------------------------------------------------------------------ the vector of weights
_ij = z3.Ints("i!dn j!dn")
_kk = z3.Int("k!dn")


def sq(d):
    return IMUL(d, d)


def inr(d, *xs):
    return And(*[And(0 <= x, x < d) for x in xs])


def block(d, k, i, j):
    """where the positive part of the weight at lag k + 1 from i to j is; the negative part is one square further"""
    return 2 * sq(d) + 2 * IMUL(sq(d), k) + IX(i, j, d)


def lagged(k, i, j, d):
    """where that weight is in the stacked matrix of lags"""
    return IX(IX(k, i, d), j, d)


def reshape_ens(c):
    i, j = _ij
    k, d, p = _kk, c.a["d_vars"], c.a["p_orders"]
    q, w, a = c.o[FLAT][c.a["wa_vec"]], P(c.res, 0), P(c.res, 1)
    sw, sa, fw, fa = c.n[SHAPE][w], c.n[SHAPE][a], c.n[FLAT][w], c.n[FLAT][a]
    b = block(d, k, i, j)
    new = lambda r: And(r != null, c.fresh_ref(r), Not(c.n["ndarray.viewed"][r]))
    return [("new-arrays", And(new(w), new(a), w != a)), ("shape-of-w", And(Len(sw) == 2, At(sw, 0) == d, At(sw, 1) == d, Len(fw) == sq(d))),
            ("shape-of-a", And(Len(sa) == 2, At(sa, 0) == IMUL(d, p), At(sa, 1) == d, Len(fa) == IMUL(sq(d), p))),
            ("w-is-a-difference", FA([i, j], Imp(inr(d, i, j), At(fw, IX(i, j, d)) == At(q, IX(i, j, d)) - At(q, sq(d) + IX(i, j, d))), At(fw, IX(i, j, d)))),
            ("a-is-a-difference", FA([k, i, j], Imp(And(inr(p, k), inr(d, i, j)), At(fa, lagged(k, i, j, d)) == At(q, b) - At(q, b + sq(d))), At(fa, lagged(k, i, j, d))))]


contract("_reshape_wa", params={"wa_vec": ARR, "d_vars": INT, "p_orders": INT}, ret=TWO, allocates=True, modifies=[("ndarray.viewed", lambda c, x: x == c.a["wa_vec"])],
         requires=lambda c: [("sizes", And(c.a["wa_vec"] != null, c.a["d_vars"] >= 1, c.a["p_orders"] >= 1)), ("length", Len(c.o[FLAT][c.a["wa_vec"]]) == 2 * sq(c.a["d_vars"]) + 2 * IMUL(sq(c.a["d_vars"]), c.a["p_orders"]))],
         ensures=reshape_ens)
_q = z3.Const("s!dy", sort(learn.IS))
axiom("size", FA(_q, Imp(Len(_q) == 2, SIZE(_q) == IMUL(At(_q, 0), At(_q, 1))), SIZE(_q)))


# ------------------------------------------------------------------ learning
BAN = z3.ArraySort(sort(T3), z3.BoolSort())


def dims(c):
    """-> variables, lags"""
    d = At(c.o[SHAPE][c.a["X"]], 1)
    return d, DIV(At(c.o[SHAPE][c.a["Xlags"]], 1), d)


def data_ok(c):
    s, t = c.o[SHAPE][c.a["X"]], c.o[SHAPE][c.a["Xlags"]]
    return [("two-dimensions", And(c.a["X"] != null, c.a["Xlags"] != null, Len(s) == 2, Len(t) == 2, At(s, 0) >= 0, At(t, 0) >= 0, At(s, 1) >= 1, At(t, 1) >= 0))]


def bad_data(c):
    s, t = c.o[SHAPE][c.a["X"]], c.o[SHAPE][c.a["Xlags"]]
    return Or(SIZE(s) == 0, SIZE(t) == 0, At(s, 0) != At(t, 0), MOD(At(t, 1), At(s, 1)) != 0)


def total(d, p):
    return 2 * sq(d) + 2 * IMUL(sq(d), p)


def bounds_req(c):
    """the bounds forbid exactly what is banned and leave everything else open"""
    i, j = _ij
    k, (d, p), b, ban = _kk, dims(c), c.a["bnds"], c.a["$ban"]
    one = lambda lag, at: And(Imp(ban[MkPair(T3, lag, i, j)], pinned(At(b, at))), Imp(Not(ban[MkPair(T3, lag, i, j)]), open_(At(b, at))))
    w, a = IX(i, j, d), block(d, k, i, j)
    tw, ta = w, (IMUL(sq(d), k), w)
    return [("one-bound-per-weight", Imp(Not(bad_data(c)), Len(b) == total(d, p)))] + \
        [(nm, FA([i, j], Imp(inr(d, i, j), one(z3.IntVal(0), at)), tw)) for nm, at in (("same-time", w), ("same-time-negative-part", sq(d) + w))] + \
        [(nm, FA([k, i, j], Imp(And(inr(p, k), inr(d, i, j)), one(k + 1, at)), ta)) for nm, at in (("lagged", a), ("lagged-negative-part", a + sq(d)))]


def zeros(c, q):
    """a vector of weights within the bounds"""
    i, j = _ij
    k, (d, p), ban = _kk, dims(c), c.a["$ban"]
    w, a = IX(i, j, d), block(d, k, i, j)
    z = lambda lag, at: Imp(ban[MkPair(T3, lag, i, j)], At(q, at) == 0)
    return [("zero-same-time", FA([i, j], Imp(inr(d, i, j), And(z(z3.IntVal(0), w), z(z3.IntVal(0), sq(d) + w))), w)),
            ("zero-lagged", FA([k, i, j], Imp(And(inr(p, k), inr(d, i, j)), And(z(k + 1, a), z(k + 1, a + sq(d)))), (IMUL(sq(d), k), w)))]


def vec(lp, name):
    r = lp.v(name)
    q, s = lp.n[FLAT][r], lp.n[SHAPE][r]
    return [("%s-%s" % (l, name), f) for l, f in [("size", And(Len(q) == total(*dims(lp)), Len(s) == 1, r != null, lp.fresh_ref(r)))] + zeros(lp, q)]


def untouched(lp):
    x = z3.Const("x!ut", Ref)
    return [("old-%s" % f.split(".")[1], FA(x, Imp(lp.old_ref(x), lp.n[f][x] == lp.o[f][x]), lp.n[f][x])) for f in (FLAT, SHAPE, "ndarray.viewed", "OptimizeResult.x")]


def matrices_ens(c):
    i, j = _ij
    k, (d, p), ban = _kk, dims(c), c.a["$ban"]
    w, a = P(c.res, 0), P(c.res, 1)
    sw, sa, fw, fa = c.n[SHAPE][w], c.n[SHAPE][a], c.n[FLAT][w], c.n[FLAT][a]
    new = lambda r: And(r != null, c.fresh_ref(r), Not(c.n["ndarray.viewed"][r]))
    return [("new-arrays", And(new(w), new(a), w != a)), ("shape-of-w", And(Len(sw) == 2, At(sw, 0) == d, At(sw, 1) == d, Len(fw) == sq(d))),
            ("shape-of-a", And(p >= 1, Len(sa) == 2, At(sa, 0) == IMUL(d, p), At(sa, 1) == d, Len(fa) == IMUL(sq(d), p))),
            ("banned-same-time", FA([i, j], Imp(And(inr(d, i, j), ban[MkPair(T3, 0, i, j)]), At(fw, IX(i, j, d)) == 0), At(fw, IX(i, j, d)))),
            ("banned-lagged", FA([k, i, j], Imp(And(inr(p, k), inr(d, i, j), ban[MkPair(T3, k + 1, i, j)]), At(fa, lagged(k, i, j, d)) == 0), At(fa, lagged(k, i, j, d))))]


LEARN = LoopSpec(lambda lp: vec(lp, "wa_est") + vec(lp, "wa_new") + untouched(lp))
OPTS = {"lambda_w": REAL, "lambda_a": REAL, "max_iter": INT, "h_tol": REAL}
contract("_learn_dynamic_structure", params=dict({"X": ARR, "Xlags": ARR, "bnds": SEQ(HALF)}, **OPTS), ret=TWO, allocates=True, ghosts={"ban": BAN},
         requires=lambda c: data_ok(c) + bounds_req(c), raises=[("ValueError", bad_data)], ensures=matrices_ens, loops=[LEARN, LEARN])


# ------------------------------------------------------------------ from matrices to a graph
def nm(v, l):
    return NAME(DEC(v), DEC(l))


def var(x):
    return UNDEC(NVAR(x))


def edge(u, l, v):
    return MkPair(SE, nm(u, l), nm(v, z3.IntVal(0)))


def names_ens(ns, d, p):
    v, l = z3.Ints("v!nm l!nm")
    x = z3.Const("x!nm", Str)
    return [("a-node-for-every-variable-and-lag", FA([v, l], Imp(And(inr(d, v), 0 <= l, l <= p), ns[nm(v, l)]), ns[nm(v, l)])),
            ("no-other-node", FA(x, Imp(ns[x], And(x == nm(var(x), NLAG(x)), inr(d, var(x)), 0 <= NLAG(x), NLAG(x) <= p)), ns[x]))]


def graph_ens(es, fw, fa, d, p):
    u, v, k = z3.Ints("u!gr v!gr k!gr")
    e = z3.Const("e!gr", sort(SE))
    e0, e1 = edge(u, z3.IntVal(0), v), edge(u, k + 1, v)
    w0, w1 = At(fw, IX(u, v, d)), At(fa, lagged(k, u, v, d))
    a, b, l = var(P(e, 0)), var(P(e, 1)), NLAG(P(e, 0))
    of0, of1 = At(fw, IX(a, b, d)), At(fa, lagged(l - 1, a, b, d))
    return [("only-edges-to-the-present", FA(e, Imp(Has(es, e), And(P(e, 0) == nm(a, l), P(e, 1) == nm(b, z3.IntVal(0)), inr(d, a, b), 0 <= l, l <= p)), Has(es, e))),
            ("same-time-edges", FA(e, Imp(And(Has(es, e), l == 0), And(of0 != 0, P(Get(es, e), 1) == of0)), Has(es, e))),
            ("same-time-weights", FA([u, v], Imp(And(inr(d, u, v), w0 != 0), Has(es, e0)), w0)),
            ("lagged-edges", FA(e, Imp(And(Has(es, e), l >= 1), And(of1 != 0, P(Get(es, e), 1) == of1)), Has(es, e))),
            ("lagged-weights", FA([k, u, v], Imp(And(inr(p, k), inr(d, u, v), w1 != 0), Has(es, e1)), w1))]


def mat_dims(c):
    s = c.o[SHAPE][c.a["a_est"]]
    return At(s, 1), DIV(At(s, 0), At(s, 1))


def mats_req(c):
    w, a = c.a["w_est"], c.a["a_est"]
    sw, sa, (d, p) = c.o[SHAPE][w], c.o[SHAPE][a], mat_dims(c)
    return [("matrices", And(w != null, a != null, Len(sw) == 2, Len(sa) == 2, d >= 1, At(sw, 0) == d, At(sw, 1) == d, At(sa, 0) >= 0, MOD(At(sa, 0), d) == 0))]


def rows_split(c):
    """a row of the stacked matrix is a lag and a variable"""
    d, p = mat_dims(c)
    i = z3.Int("i!rs")
    rg = lambda n: z3.Function("range", Z, Z, sort(learn.IS))(z3.IntVal(0), n)
    r, v = IXR(i, d), IXC(i, d)
    return [FA(i, Imp(And(0 <= i, i < At(c.o[SHAPE][c.a["a_est"]], 0)), And(0 <= r, r < p, 0 <= v, v < d, i == IX(r, v, d), i + d == IX(r + 1, v, d))), Mem(rg(At(c.o[SHAPE][c.a["a_est"]], 0)), i)),
            FA(i, Imp(And(0 <= i, i < d), i == IX(z3.IntVal(0), i, d)), Mem(rg(At(c.o[SHAPE][c.a["w_est"]], 0)), i))]


RG = z3.Function("range", Z, Z, sort(learn.IS))
WD = DICT(STR, REAL)


def cols_cut(eng, st, q):
    """the list of the variables with their lags"""
    c = eng.ctx0
    d, p = mat_dims(c)
    v, l = z3.Ints("v!cc l!cc")
    x = z3.Const("x!cc", Str)
    rg = And(0 <= v, v < d, 0 <= l, l <= p)
    rows = At(c.o[SHAPE][c.a["a_est"]], 0)
    return [("rows-of-lags", rows == IMUL(p, d)), ("columns", FA(v, Imp(inr(d, v), Mem(RG(z3.IntVal(0), d), v)), DEC(v))), ("as-many", Len(q) == IMUL(1 + p, d)), ("at", FA([v, l], Imp(rg, At(q, IX(l, v, d)) == nm(v, l)), IX(l, v, d))),
            ("now", FA(v, Imp(inr(d, v), At(q, v) == nm(v, z3.IntVal(0))), At(q, v))),
            ("before", FA(v, Imp(And(0 <= v, v < rows), At(q, v + d) == nm(IXC(v, d), IXR(v, d) + 1)), Mem(RG(z3.IntVal(0), rows), v))),
            ("all", FA([v, l], Imp(And(rg, Mem(RG(z3.IntVal(0), d), v), Mem(RG(z3.IntVal(0), 1 + p), l)), Mem(q, nm(v, l))), nm(v, l))),
            ("only", FA(x, Imp(Mem(q, x), And(x == nm(var(x), NLAG(x)), inr(d, var(x)), 0 <= NLAG(x), NLAG(x) <= p)), Mem(q, x)))]


def edges_cut(eng, st, q):
    """the lists of edges: those of the same time, then those from the past"""
    c = eng.ctx0
    d, p = mat_dims(c)
    fw, fa, sa = c.o[FLAT][c.a["w_est"]], c.o[FLAT][c.a["a_est"]], c.o[SHAPE][c.a["a_est"]]
    k, u, v = z3.Ints("k!ec u!ec v!ec")
    y = z3.Const("y!ec", sort(SED))
    n = st.ghost["adds"] = st.ghost.get("adds", 0) + 1
    wt, zero = StrC("weight"), z3.IntVal(0)
    at = lambda e: And(0 <= LASTD(q, e), LASTD(q, e) < Len(q))
    ends = lambda l: MkPair(SE, nm(var(P(y, 0)), l), nm(var(P(y, 1)), zero))
    a, b = var(P(y, 0)), var(P(y, 1))
    weight = lambda w: And(w != 0, Has(P(y, 2), wt), Get(P(y, 2), wt) == w)
    if n == 1:
        w = lambda u, v: At(fw, IX(u, v, d))
        return [("all", FA([u, v], Imp(And(inr(d, u, v), Mem(RG(zero, At(c.o[SHAPE][c.a["w_est"]], 0)), u), Mem(RG(zero, d), v), w(u, v) != 0), at(edge(u, zero, v))), w(u, v))),
                ("only", FA(y, Imp(Mem(q, y), And(P(y, 0) == nm(a, zero), P(y, 1) == nm(b, zero), inr(d, a, b), weight(w(a, b)))), Mem(q, y)))]
    w = lambda k, u, v: At(fa, lagged(k, u, v, d))
    l = NLAG(P(y, 0))
    return [("only-from", FA(y, Imp(Mem(q, y), And(P(y, 0) == nm(a, l), inr(d, a), 1 <= l, l <= p)), Mem(q, y))),
            ("only-to", FA(y, Imp(Mem(q, y), And(P(y, 1) == nm(b, zero), inr(d, b))), Mem(q, y))),
            ("only-weight", FA(y, Imp(Mem(q, y), weight(w(l - 1, a, b))), Mem(q, y))),
            ("all", FA([k, u, v], Imp(And(inr(p, k), inr(d, u, v), Mem(RG(zero, At(sa, 0)), IX(k, u, d)), Mem(RG(zero, d), v), w(k, u, v) != 0), at(edge(u, k + 1, v))), w(k, u, v))),
            ("rows", FA([k, u, v], Imp(And(inr(p, k), inr(d, u)), Mem(RG(zero, At(sa, 0)), IX(k, u, d))), w(k, u, v)))]


contract("_matrices_to_structure_model", without=("ix.is", "ix.assoc", "imul.comm", "imul.mono", "div.of", "div.of.left"), cuts={"add_nodes_from": cols_cut, "add_edges_from": edges_cut}, params={"w_est": ARR, "a_est": ARR}, ret=REF("StrGraph"), allocates=True, requires=mats_req, lemmas=rows_split,
         ensures=lambda c: [("fresh", c.fresh_ref(c.res))] + names_ens(c.n[N][c.res], *mat_dims(c)) + graph_ens(c.n[E][c.res], c.o[FLAT][c.a["w_est"]], c.o[FLAT][c.a["a_est"]], *mat_dims(c)))


# ------------------------------------------------------------------ learning from arrays
axiom("div.of", FA([_a, _b], Imp(_b > 0, And(DIV(IMUL(_a, _b), _b) == _a, MOD(IMUL(_a, _b), _b) == 0)), DIV(IMUL(_a, _b), _b)))
axiom("div.of.left", FA([_a, _b], Imp(_b > 0, And(DIV(IMUL(_b, _a), _b) == _a, MOD(IMUL(_b, _a), _b) == 0)), DIV(IMUL(_b, _a), _b)))
TE, TV = OPT(SEQ(T3)), OPT(SEQ(INT))
BANNED3 = z3.Function("BANNED3", sort(TE), sort(TV), sort(TV), BAN)


def banned(e, p, k, lag, i, j):
    """the restrictions the user gave: lag, position, position"""
    return Or(And(lag == 0, i == j), And(Not(none(e)), Mem(the(e), MkPair(T3, lag, i, j))), And(Not(none(p)), Mem(the(p), i)), And(Not(none(k)), Mem(the(k), j)))


_x3 = z3.Const("x!b3", sort(T3))
_te, _tp, _tc = z3.Const("e!b3", sort(TE)), z3.Const("p!b3", sort(TV)), z3.Const("c!b3", sort(TV))
axiom("BANNED3", FA([_te, _tp, _tc, _x3], BANNED3(_te, _tp, _tc)[_x3] == banned(_te, _tp, _tc, P(_x3, 0), P(_x3, 1), P(_x3, 2)), BANNED3(_te, _tp, _tc)[_x3]))


def tabu(c):
    return c.a["tabu_edges"], c.a["tabu_parent_nodes"], c.a["tabu_child_nodes"]


def lag_bounds(lp):
    """the bounds of the lags done so far"""
    i, j = _ij
    k, (d, p), b = _kk, dims(lp), lp.v("bnds_a")
    ban = BANNED3(*tabu(lp))
    one = lambda at: And(Imp(ban[MkPair(T3, k + 1, i, j)], pinned(At(b, at))), Imp(Not(ban[MkPair(T3, k + 1, i, j)]), open_(At(b, at))))
    w = IX(i, j, d)
    a = 2 * IMUL(sq(d), k) + w
    return [("lags-done", Len(b) == 2 * mul_term(sq(d), lp.i))] + [(nm, FA([k, i, j], Imp(And(0 <= k, k < lp.i, inr(d, i, j)), one(at)), (IMUL(sq(d), k), w))) for nm, at in (("positive", a), ("negative", a + sq(d)))]


def dynamic_ens(c):
    d, p = dims(c)
    e = z3.Const("e!de", sort(SE))
    es, a, b, l = c.n[E][c.res], var(P(e, 0)), var(P(e, 1)), NLAG(P(e, 0))
    return [("fresh", c.fresh_ref(c.res))] + names_ens(c.n[N][c.res], d, p) + \
        [("only-edges-to-the-present", FA(e, Imp(Has(es, e), And(P(e, 0) == nm(a, l), P(e, 1) == nm(b, z3.IntVal(0)), inr(d, a, b), 0 <= l, l <= p)), Has(es, e))),
         ("no-forbidden-edge", FA(e, Imp(Has(es, e), Not(banned(*tabu(c), l, a, b))), Has(es, e)))]


contract("from_numpy_dynamic", params=dict({"X": ARR, "Xlags": ARR}, **OPTS, w_threshold=REAL, tabu_edges=TE, tabu_parent_nodes=TV, tabu_child_nodes=TV), ret=REF("StrGraph"), allocates=True,
         requires=data_ok, raises=[("ValueError", bad_data)], ghost_calls={"_learn_dynamic_structure": lambda c: {"ban": BANNED3(*tabu(c))}}, ensures=dynamic_ens, loops=[LoopSpec(lag_bounds)])


# ------------------------------------------------------------------ learning from data frames
class Transformer(Model):
    """DynamicDataTransformer (C20): one column for each variable, and one for each variable and lag; or it refuses the data"""
    what = "DynamicDataTransformer"

    def __init__(self, p):
        self.p = p

    def attr(self, eng, st, name):
        if name == "fit_transform":
            return PyObj("pyfn", self.fit_transform)

    def fit_transform(self, eng, st, args, kws):
        if len(args) != 1 or set(kws) != {"return_df"} or not z3.is_false(z3.simplify(eng.term(st, kws["return_df"]))):
            raise Unsupported("options of fit_transform")
        q = eng.term(st, args[0])
        for exc, bad in reversed(REFUSED.items()):
            s2 = st.fork()
            s2.pc.append(bad(q, self.p))
            eng.raise_exits.append((s2, exc))
            st.pc.append(Not(bad(q, self.p)))
        eng.obl(st, "safe:a frame", Len(q) > 0)
        d, out = Len(eng.hget(st, "DataFrame.columns_")[At(q, 0)]), []
        rows = ROWS(q, self.p)
        st.pc.append(rows >= 0)
        for cols in (d, mul_term(self.p, d)):
            a = new_obj(eng, st, "ndarray")
            setf(eng, st, a, SHAPE, seq_of(INT, rows, cols))
            out.append(V(ARR, a))
        return PyTuple(out)


FRAMES = SEQ(REF("DataFrame"))
REFUSED = {x: z3.Function("refused.%s" % x, sort(FRAMES), Z, z3.BoolSort()) for x in ("ValueError", "TypeError")}


ROWS = z3.Function("ROWS", sort(FRAMES), Z, Z)  # the moments with a full history
axiom("imul.nz", FA([_a, _b], Imp(And(_a > 0, _b > 0), IMUL(_a, _b) > 0), IMUL(_a, _b)))


def b_transformer(eng, st, args, kws, node, mod):
    if args or set(kws) != {"p"}:
        raise Unsupported("options of the transformer")
    return model(Transformer(eng.term(st, kws["p"], INT)))


class Columns(learn.Index):
    def iterate(self, eng, st):
        return STR, self.q


BUILTINS["DynamicDataTransformer"] = b_transformer
HOOKS[("DataFrame", "columns")] = lambda eng, st, b: model(Columns(eng.hget(st, "DataFrame.columns_")[eng.term(st, b)]))
NE3 = PAIR(INT, STR, STR)
NTE, NTV = OPT(SEQ(NE3)), OPT(SEQ(STR))


def is_name(x, d):
    return And(x == nm(var(x), NLAG(x)), inr(d, var(x)))


contract("_format_name_from_pandas", params={"idx_col": DICT(INT, STR), "from_numpy_node": STR}, ret=STR,
         requires=lambda c: [("a-name", (lambda x: And(x == nm(var(x), NLAG(x)), Has(c.a["idx_col"], var(x))))(c.a["from_numpy_node"]))],
         ensures=lambda c: [("renamed", c.res == NAME(Get(c.a["idx_col"], var(c.a["from_numpy_node"])), DEC(NLAG(c.a["from_numpy_node"]))))])


def one_frame(eng, st):
    r = z3.Const("arg_time_series", Ref)
    return {"time_series": V(REF("DataFrame"), r), "$spec": {"time_series": seq_of(REF("DataFrame"), r)}}


def frames(eng, st):
    t = z3.Const("arg_time_series", sort(FRAMES))
    return {"time_series": eng.newcell(st, FRAMES, t, True), "$spec": {"time_series": t}}


def series_cols(c):
    return c.o["DataFrame.columns_"][At(c.a["time_series"], 0)]


def series_req(c):
    q, (e, p, k) = series_cols(c), tabu(c)
    i = z3.Int("i!sr")
    names = lambda o: FA(i, Imp(And(Not(none(o)), InR(i, the(o))), Mem(q, At(the(o), i))), At(the(o), i))
    return [("frames", And(Len(c.a["time_series"]) > 0, At(c.a["time_series"], 0) != null)), ("columns", And(Len(q) >= 1, Distinct(q))), ("lags", c.a["p"] >= 1),
            ("edges-name-columns", FA(i, Imp(And(Not(none(e)), InR(i, the(e))), And(Mem(q, P(At(the(e), i), 1)), Mem(q, P(At(the(e), i), 2)))), At(the(e), i))),
            ("parents-name-columns", names(p)), ("children-name-columns", names(k))]


def named_ens(c):
    q, p = series_cols(c), c.a["p"]
    e, x, y = z3.Const("e!ns", sort(SE)), z3.Const("x!ns", Str), z3.Const("y!ns", Str)
    l = z3.Int("l!ns")
    es, ns = c.n[E][c.res], c.n[N][c.res]
    a, b, k = NVAR(P(e, 0)), NVAR(P(e, 1)), NLAG(P(e, 0))
    return [("fresh", c.fresh_ref(c.res)), ("a-node-for-every-variable-and-lag", FA([x, l], Imp(And(Mem(q, x), 0 <= l, l <= p), ns[NAME(x, DEC(l))]), ns[NAME(x, DEC(l))])),
            ("no-other-node", FA(x, Imp(ns[x], And(x == NAME(NVAR(x), DEC(NLAG(x))), Mem(q, NVAR(x)), 0 <= NLAG(x), NLAG(x) <= p)), ns[x])),
            ("only-edges-to-the-present", FA(e, Imp(Has(es, e), And(P(e, 0) == NAME(a, DEC(k)), P(e, 1) == NAME(b, DEC(z3.IntVal(0))), Mem(q, a), Mem(q, b), 0 <= k, k <= p)), Has(es, e))),
            ("no-forbidden-edge", FA(e, Imp(Has(es, e), Not(named_banned(c, k, a, b))), Has(es, e))),
            ("learned", FA(e, Imp(Has(es, e), P(Get(es, e), 0) == StrC("learned")), Get(es, e)))]


def named_banned(c, lag, u, v):
    e, p, k = tabu(c)
    return Or(And(lag == 0, u == v), And(Not(none(e)), Mem(the(e), MkPair(NE3, lag, u, v))), And(Not(none(p)), Mem(the(p), u)), And(Not(none(k)), Mem(the(k), v)))


def names_cut(lp):
    """the two tables between names and positions agree"""
    i = z3.Int("i!nc")
    there, back, q = lp.v("col_idx"), lp.v("idx_col"), series_cols(lp)
    return [("position-of-name", FA(i, Imp(InR(i, q), And(Has(there, At(q, i)), Get(there, At(q, i)) == i)), At(q, i))),
            ("name-of-position", FA(i, Imp(And(Mem(q, At(q, i)), InR(i, q)), And(Has(back, i), Get(back, i) == At(q, i))), Has(back, i)))]


def nodes_cut(eng, st, q):
    c = eng.ctx0
    p, cs = c.a["p"], series_cols(c)
    x, l = z3.Const("x!nd", Str), z3.Int("l!nd")
    ks = eng.dkeys(st, DICT(STR, INT), eng.local_term(st, "col_idx"))
    return [("variables", FA(x, Imp(Mem(cs, x), Mem(ks, x)), Mem(cs, x))), ("one", And(Mem(cs, At(cs, 0)), Mem(ks, At(cs, 0)))), ("some", Len(ks) > 0), ("lags", FA(l, Imp(And(0 <= l, l <= p), Mem(RG(z3.IntVal(0), p + 1), l)), DEC(l))),
            ("all", FA([x, l], Imp(And(Mem(cs, x), 0 <= l, l <= p), Mem(q, NAME(x, DEC(l)))), NAME(x, DEC(l))))]


contract("from_pandas_dynamic", params=dict({"time_series": FRAMES, "p": INT}, **OPTS, w_threshold=REAL, tabu_edges=NTE, tabu_parent_nodes=NTV, tabu_child_nodes=NTV), ret=REF("StrGraph"), allocates=True,
         variants=[one_frame, frames], requires=series_req, cuts={"from_numpy_dynamic": names_cut, "add_nodes_from": nodes_cut}, ensures=named_ens,
         raises=[("ValueError", lambda c: And(Not(REFUSED["TypeError"](c.a["time_series"], c.a["p"])), Or(REFUSED["ValueError"](c.a["time_series"], c.a["p"]), ROWS(c.a["time_series"], c.a["p"]) == 0))), ("TypeError", lambda c: REFUSED["TypeError"](c.a["time_series"], c.a["p"]))])
