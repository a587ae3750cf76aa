"""Contracts for the time series transformation (C20): causalnex/structure/transformers.py. A two-dimensional array is the
sequence of its rows; pandas selection and numpy diff, where and concatenate are assumed contracts."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported
from learn import RS, IS, none, the

MODULES = {"transformers": "causalnex/structure/transformers.py"}
MX = SEQ(RS)
FR = REF("DataFrame")
FS, MS, VS = SEQ(FR), SEQ(MX), SEQ(VAL)
TWO = PAIR(MX, MX)
for t in (MX, FS, MS, VS, TWO, OPT(VS), OPT(BOOL)):
    sort(t)
FIELDS = {"DataFrame": {"columns_": VS, "index_": IS, "cells": MX}, "DynamicDataTransformer": {"p": INT, "columns": OPT(VS), "return_df": OPT(BOOL)}}
BASES = {}
FROZEN = {"DataFrame.columns_", "DataFrame.index_", "DataFrame.cells"}
C, HOOKS, BUILTINS, VALUES = {}, {}, {}, {}
COLS, IDX, CEL = "DataFrame.columns_", "DataFrame.index_", "DataFrame.cells"
Z = z3.IntSort()
_s, _m, _r, _k, _l, _c, _w = z3.Ints("s!ts m!ts r!ts k!ts l!ts c!ts w!ts")

# ------------------------------------------------------------------ gaps, and positions in a concatenation
GAPSET = z3.Function("gap_set", sort(IS), z3.ArraySort(Z, z3.BoolSort()))
GAPS = z3.Function("gaps", sort(IS), sort(IS))
BND = z3.Function("bound", sort(IS), Z, Z)        # where piece number m of a series begins (and piece m-1 ends)
OFFS = z3.Function("offset", sort(IS), Z, Z)      # sum of the first k lengths
NO = z3.Function("number", sort(IS), Z, Z, Z)     # position of item m of part s in the whole
WHICH = z3.Function("which", sort(IS), Z, Z)      # the part that holds a position
_ix, _q = z3.Consts("ix!ts q!ts", sort(IS))
axiom("gap_set", FA([_ix, _k], GAPSET(_ix)[_k] == And(0 <= _k, _k < Len(_ix) - 1, At(_ix, _k + 1) - At(_ix, _k) > 1), GAPSET(_ix)[_k]))
axiom("gaps", FA(_ix, GAPS(_ix) == SrtSet(GAPSET(_ix)), GAPS(_ix)))
axiom("bound", FA([_ix, _m], BND(_ix, _m) == If(_m <= 0, 0, If(_m > Len(GAPS(_ix)), Len(_ix), At(GAPS(_ix), _m - 1) + 1)), BND(_ix, _m)))
axiom("offset.0", FA(_q, OFFS(_q, 0) == 0, OFFS(_q, 0)))
axiom("offset.1", FA([_q, _k], Imp(And(0 <= _k, _k < Len(_q)), OFFS(_q, _k + 1) == OFFS(_q, _k) + At(_q, _k)), OFFS(_q, _k + 1)))
axiom("number", FA([_q, _s, _m], NO(_q, _s, _m) == OFFS(_q, _s) + _m, NO(_q, _s, _m)))


def sum_of(q):
    return OFFS(q, Len(q))


LENS = z3.Function("lengths", sort(MS), sort(IS))
CAT0 = z3.Function("stacked", sort(MS), sort(MX))
_L = z3.Const("L!ts", sort(MS))
axiom("lengths", And(FA(_L, Len(LENS(_L)) == Len(_L), LENS(_L)), FA([_L, _k], Imp(InR(_k, _L), At(LENS(_L), _k) == Len(At(_L, _k))), At(LENS(_L), _k))))
axiom("stacked.len", FA(_L, Len(CAT0(_L)) == sum_of(LENS(_L)), CAT0(_L)))
axiom("stacked.at", FA([_L, _k, _r], Imp(And(InR(_k, _L), InR(_r, At(_L, _k))), And(At(CAT0(_L), NO(LENS(_L), _k, _r)) == At(At(_L, _k), _r), 0 <= NO(LENS(_L), _k, _r), NO(LENS(_L), _k, _r) < Len(CAT0(_L)))), (CAT0(_L), NO(LENS(_L), _k, _r)), (CAT0(_L), At(At(_L, _k), _r))))


def b_concatenate(eng, st, args, kws, node, mod):
    if len(args) != 1 or set(kws) != {"axis"}:
        raise Unsupported("concatenate options")
    ax = z3.simplify(eng.term(st, kws["axis"], INT))
    ety, L = eng.iter_seq(st, args[0])
    if L.sort() != sort(MS) or not z3.is_int_value(ax):
        raise Unsupported("concatenate")
    eng.obl(st, "safe:not-empty", Len(L) > 0)
    if ax.as_long() == 0:
        return V(MX, CAT0(L))
    if ax.as_long() != 1:
        raise Unsupported("concatenate axis")
    n = Len(At(L, 0))
    eng.obl(st, "safe:same rows", FA(_k, Imp(InR(_k, L), Len(At(L, _k)) == n), At(L, _k)))
    w = fresh("width", INT)
    # all parts with rows of one width: column c of part k comes to k * width + c
    st.pc.append(Imp(And(n > 0), w == Len(At(At(L, 0), 0))))
    eng.obl(st, "safe:same width", FA([_k, _r], Imp(And(InR(_k, L), 0 <= _r, _r < n), Len(At(At(L, _k), _r)) == w), At(At(L, _k), _r)))
    q = fresh("beside", MX)
    st.pc += [Len(q) == n, FA(_r, Imp(And(0 <= _r, _r < n), Len(At(q, _r)) == IMUL(Len(L), w)), At(q, _r)),
              FA([_r, _k, _c], Imp(And(0 <= _r, _r < n, InR(_k, L), 0 <= _c, _c < w), At(At(q, _r), IX(_k, _c, w)) == At(At(At(L, _k), _r), _c)), At(At(q, _r), IX(_k, _c, w)))]
    return V(MX, q)


BUILTINS["numpy.concatenate"] = b_concatenate


# ------------------------------------------------------------------ data frames (assumed)
def fld(eng, st, k, v):
    return eng.hget(st, k)[eng.term(st, v)]


HOOKS[("DataFrame", "columns")] = lambda eng, st, b: V(VS, fld(eng, st, COLS, b))
HOOKS[("DataFrame", "index")] = lambda eng, st, b: V(IS, fld(eng, st, IDX, b))
HOOKS[("DataFrame", "len")] = lambda eng, st, b: V(INT, Len(fld(eng, st, CEL, b)))
HOOKS[("DataFrame", "values")] = lambda eng, st, b: V(MX, fld(eng, st, CEL, b))


class Rows(Model):
    what = "DataFrame.iloc"

    def __init__(self, q):
        self.q = q

    def getitem(self, eng, st, idx):
        ps = list(idx.items) if isinstance(idx, PyTuple) else [idx]
        if len(ps) > 2 or not all(isinstance(p, PyObj) and p.kind == "slice" and p.a[2] is None for p in ps) or any(x is not None for p in ps[1:] for x in p.a):
            raise Unsupported("iloc")
        lo, hi, _ = ps[0].a
        n = Len(self.q)
        cut = lambda x: If(x < 0, If(n + x < 0, 0, n + x), If(x > n, n, x))
        l = z3.IntVal(0) if lo is None else cut(eng.term(st, lo, INT))
        h = n if hi is None else cut(eng.term(st, hi, INT))
        l = If(l > h, h, l)
        r = fresh("rows", MX)
        st.pc += [Len(r) == h - l, FA(_r, Imp(InR(_r, r), At(r, _r) == At(self.q, l + _r)), At(r, _r))]
        return model(Block(r))


class Block(Model):
    what = "rows of a DataFrame"

    def __init__(self, q):
        self.q = q

    def attr(self, eng, st, name):
        if name == "values":
            return V(MX, self.q)
        if name == "to_numpy":
            return PyObj("pyfn", lambda g, s, a, k: V(MX, self.q))


HOOKS[("DataFrame", "iloc")] = lambda eng, st, b: model(Rows(fld(eng, st, CEL, b)))
SEL = z3.Function("columns_of", Ref, sort(VS), Ref)


def selected(eng, st, base, idx):
    """the columns with the given names, in their order"""
    t = eng.term(st, base)
    if eng.tyof(idx).kind == "Opt":
        idx = eng.some(st, idx)
    cs = eng.term(st, idx, VS)
    old = eng.hget(st, COLS)[t]
    eng.obl(st, "safe:columns", FA(_c, Imp(InR(_c, cs), Mem(old, At(cs, _c))), At(cs, _c)))
    r = SEL(t, cs)
    q, p = eng.hget(st, CEL)[r], eng.hget(st, CEL)[t]
    st.pc += [r != null, eng.hget(st, COLS)[r] == cs, eng.hget(st, IDX)[r] == eng.hget(st, IDX)[t], Len(q) == Len(p),
              FA(_r, Imp(InR(_r, p), Len(At(q, _r)) == Len(cs)), At(q, _r)),
              FA([_r, _c], Imp(And(InR(_r, p), InR(_c, cs)), At(At(q, _r), _c) == At(At(p, _r), Idx(old, At(cs, _c)))), At(At(q, _r), _c))]
    return V(FR, r)


HOOKS[("DataFrame", "[]")] = selected


class Diff(Model):
    what = "differences"

    def __init__(self, ix):
        self.ix = ix

    def compare(self, eng, st, op, a, b):
        f = {"Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y, "NotEq": lambda x, y: x != y, "Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y}.get(op)
        if f is None or not (isinstance(a, PyObj) and a.a[0] is self):
            raise Unsupported("comparison of differences")
        t = eng.term(st, b, INT)
        return model(Flags(self.ix, lambda k: f(At(self.ix, k + 1) - At(self.ix, k), t)))


class Flags(Model):
    """per neighbouring pair of positions"""
    what = "boolean array"

    def __init__(self, ix, f):
        self.ix, self.f = ix, f


class Ints(Model):
    what = "integer array"

    def __init__(self, q):
        self.q = q

    def iterate(self, eng, st):
        return INT, self.q

    def length(self, eng, st):
        return V(INT, Len(self.q))

    def binop(self, eng, st, op, a, b):
        if op not in ("Add", "Sub") or isinstance(b, PyObj):
            raise Unsupported("arithmetic on positions")
        t = eng.term(st, b, INT)
        r = fresh("moved", IS)
        st.pc += [Len(r) == Len(self.q), FA(_k, Imp(InR(_k, r), At(r, _k) == (At(self.q, _k) + t if op == "Add" else At(self.q, _k) - t)), At(r, _k))]
        return model(Ints(r))


class First(Model):
    what = "numpy.where"

    def __init__(self, q):
        self.q = q

    def getitem(self, eng, st, idx):
        t = z3.simplify(eng.term(st, idx, INT))
        if not (z3.is_int_value(t) and t.as_long() == 0):
            raise Unsupported("numpy.where subscript")
        return model(Ints(self.q))


def b_diff(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws:
        raise Unsupported("diff options")
    return model(Diff(eng.term(st, args[0], IS)))


def b_where(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws or not (isinstance(args[0], PyObj) and args[0].kind == "model" and isinstance(args[0].a[0], Flags)):
        raise Unsupported("where")
    m = args[0].a[0]
    S = fresh("positions", SET(INT))
    st.pc += [FA(_k, S[_k] == And(0 <= _k, _k < Len(m.ix) - 1, m.f(_k)), S[_k]),
              Imp(FA(_k, S[_k] == GAPSET(m.ix)[_k], S[_k]), S == GAPSET(m.ix))]
    return model(First(SrtSet(S)))


BUILTINS["numpy.diff"], BUILTINS["numpy.where"], BUILTINS["numpy.flatnonzero"] = b_diff, b_where, lambda *a: model(Ints(b_where(*a).a[0].q))


# ------------------------------------------------------------------ cutting
CNTS = z3.Function("pieces", z3.ArraySort(Ref, sort(IS)), sort(FS), sort(IS))  # number of pieces of each series
_H, _T = z3.Const("H!ts", z3.ArraySort(Ref, sort(IS))), z3.Const("T!ts", sort(FS))
axiom("pieces", And(FA([_H, _T], Len(CNTS(_H, _T)) == Len(_T), CNTS(_H, _T)), FA([_H, _T, _k], Imp(InR(_k, _T), At(CNTS(_H, _T), _k) == Len(GAPS(_H[At(_T, _k)])) + 1), At(CNTS(_H, _T), _k), (CNTS(_H, _T), At(_T, _k)))))


def frames_ok(c, T):
    h = lambda k: c.o[k][At(T, _k)]
    return [("series", FA(_k, Imp(InR(_k, T), And(At(T, _k) != null, Len(h(IDX)) == Len(h(CEL)))), At(T, _k)))]


def piece(seg, rows, lo, hi):
    return And(Len(seg) == hi - lo, FA(_r, Imp(InR(_r, seg), At(seg, _r) == At(rows, lo + _r)), At(seg, _r)))


def pieces(c, q, T, n, upto=None):
    """q holds the pieces of the first n series, in order"""
    cn, f = CNTS(c.o[IDX], T), At(T, _s)
    ix, rows = c.o[IDX][f], c.o[CEL][f]
    seg = At(q, NO(cn, _s, _m))
    ok = And(0 <= _s, _s < n, 0 <= _m, _m <= Len(GAPS(ix)))
    return [("pieces-in-range", FA([_s, _m], Imp(ok, And(0 <= NO(cn, _s, _m), NO(cn, _s, _m) < OFFS(cn, n))), NO(cn, _s, _m))),
            ("pieces-lengths", FA([_s, _m], Imp(ok, Len(seg) == BND(ix, _m + 1) - BND(ix, _m)), seg)),
            ("pieces-rows", FA([_s, _m, _r], Imp(And(ok, InR(_r, seg)), At(seg, _r) == At(rows, BND(ix, _m) + _r)), At(seg, _r)))]


def cut_outer(lp):
    q, T = lp.v("time_series_realisations"), lp.S
    cn = CNTS(lp.o[IDX], T)
    return [("count", And(OFFS(cn, lp.i) == Len(q), OFFS(cn, 0) == 0))] + pieces(lp, q, T, lp.i)


def cut_inner(lp):
    q, old, f = lp.v("time_series_realisations"), lp.e("time_series_realisations"), lp.v("t")
    ix, rows = lp.o[IDX][f], lp.o[CEL][f]
    at = At(q, Len(old) + _m)
    return [("count", And(Len(q) == Len(old) + lp.i, Len(lp.S) == Len(GAPS(ix)) + 1)),
            ("bounds", FA(_m, Imp(InR(_m, lp.S), And(P(At(lp.S, _m), 0) == BND(ix, _m), P(At(lp.S, _m), 1) == BND(ix, _m + 1))), At(lp.S, _m))),
            ("kept", FA(_k, Imp(InR(_k, old), At(q, _k) == At(old, _k)), At(q, _k))),
            ("lengths", FA(_k, Imp(And(Len(old) <= _k, _k < Len(q)), Len(At(q, _k)) == BND(ix, _k - Len(old) + 1) - BND(ix, _k - Len(old))), At(q, _k))),
            ("rows", FA([_k, _r], Imp(And(Len(old) <= _k, _k < Len(q), InR(_r, At(q, _k))), At(At(q, _k), _r) == At(rows, BND(ix, _k - Len(old)) + _r)), At(At(q, _k), _r)))]


CUT = "DynamicDataTransformer._cut_dataframes_on_discontinuity_points"
C[CUT] = Contract(CUT, props=["C20"], params={"time_series": FS}, ret=MS, locals={"time_series_realisations": MS}, requires=lambda c: frames_ok(c, c.a["time_series"]),
                  loops=[LoopSpec(cut_outer), LoopSpec(cut_inner)],
                  ensures=lambda c: [("count", Len(c.res) == sum_of(CNTS(c.o[IDX], c.a["time_series"])))] + pieces(c, c.res, c.a["time_series"], Len(c.a["time_series"])))


# ------------------------------------------------------------------ lags
KEPT = z3.Function("kept", sort(MS), Z, sort(IS))  # rows of each piece with enough predecessors
_p = z3.Int("p!ts")
axiom("kept", And(FA([_L, _p], Len(KEPT(_L, _p)) == Len(_L), KEPT(_L, _p)), FA([_L, _p, _k], Imp(InR(_k, _L), At(KEPT(_L, _p), _k) == If(Len(At(_L, _k)) > _p, Len(At(_L, _k)) - _p, 0)), At(KEPT(_L, _p), _k))))
DIFFAT = z3.Function("differ_at", sort(IS), sort(IS), Z)
_x, _y = LENS(_L), KEPT(z3.Const("R!ts", sort(MS)), _p)
axiom("kept.ext", FA([_L, z3.Const("R!ts", sort(MS)), _p], Imp(And(Len(_x) == Len(_y), Or(Not(And(0 <= DIFFAT(_x, _y), DIFFAT(_x, _y) < Len(_x))), At(_x, DIFFAT(_x, _y)) == At(_y, DIFFAT(_x, _y)))), _x == _y), (_x, _y)))


def lag_req(c):
    R, p, d = c.a["realisations"], c.a["p"], c.a["$d"]
    return [("pieces", Len(R) > 0), ("lags", p >= 1), ("width", FA([_k, _r], Imp(And(InR(_k, R), InR(_r, At(R, _k))), Len(At(At(R, _k), _r)) == d), At(At(R, _k), _r)))]


def lag_rows(X, Y, R, p, d, kept):
    """the row of point j + p of piece k"""
    n, j = NO(kept, _k, _r), _r
    ok = And(InR(_k, R), 0 <= j, j + p < Len(At(R, _k)))
    return [("rows-of-x", Len(X) == sum_of(kept)), ("rows-of-lags", Len(Y) == sum_of(kept)),
            ("current", FA([_k, _r], Imp(ok, And(InR(n, X), At(X, n) == At(At(R, _k), j + p))), n)),
            ("lags-width", FA([_k, _r], Imp(ok, Len(At(Y, n)) == IMUL(p, d)), n)),
            ("lags", FA([_k, _r, _l, _c], Imp(And(ok, 0 <= _l, _l < p, 0 <= _c, _c < d), At(At(Y, n), IX(_l, _c, d)) == At(At(At(R, _k), j + p - _l - 1), _c)), (n, IX(_l, _c, d))))]


LAGS = "DynamicDataTransformer._convert_realisations_into_dynotears_format"
C[LAGS] = Contract(LAGS, props=["C20"], params={"realisations": MS, "p": INT}, ret=TWO, ghosts={"d": Z}, requires=lag_req,
                   ensures=lambda c: lag_rows(P(c.res, 0), P(c.res, 1), c.a["realisations"], c.a["p"], c.a["$d"], KEPT(c.a["realisations"], c.a["p"])))


# ------------------------------------------------------------------ what is refused
FIELDS["DataFrame"].update({"text_columns": VS, "dtypes_": VS, "integer_index": BOOL})
FROZEN |= {"DataFrame.text_columns", "DataFrame.dtypes_", "DataFrame.integer_index"}
TXT, DTY, INTIX, PC, PP, PR = "DataFrame.text_columns", "DataFrame.dtypes_", "DataFrame.integer_index", "DynamicDataTransformer.columns", "DynamicDataTransformer.p", "DynamicDataTransformer.return_df"


class Index(Model):
    what = "index of a DataFrame"

    def __init__(self, f, q):
        self.f, self.q = f, q

    def iterate(self, eng, st):
        return INT, self.q

    def length(self, eng, st):
        return V(INT, Len(self.q))

    def attr(self, eng, st, name):
        if name == "dtype":
            return model(Dtype(eng.hget(st, INTIX)[self.f]))
        if name == "values":
            return V(IS, self.q)
        if name == "is_monotonic_increasing":
            return V(BOOL, ordered(self.q))
        if name == "sort_values":
            return PyObj("pyfn", lambda g, s, a, k: V(IS, th(IS).srt(self.q)))

    def compare(self, eng, st, op, a, b):
        if op != "Eq" or not (isinstance(a, PyObj) and a.a[0] is self) or isinstance(b, PyObj):
            raise Unsupported("comparison of an index")
        return SeqEq(self.q, eng.term(st, b, IS))


def ordered(q):
    return SeqEq(q, th(IS).srt(q))


class Dtype(Model):
    what = "dtype"

    def __init__(self, t):
        self.t = t

    def compare(self, eng, st, op, a, b):
        o = b if isinstance(a, PyObj) and a.kind == "model" and a.a[0] is self else a
        if op not in ("Eq", "NotEq") or not (isinstance(o, PyObj) and o.kind == "builtin" and o.a[0] == "int"):
            raise Unsupported("comparison of a dtype")
        return self.t if op == "Eq" else Not(self.t)


class Names(Model):
    what = "column names"

    def __init__(self, q):
        self.q = q

    def iterate(self, eng, st):
        return VAL, self.q

    def length(self, eng, st):
        return V(INT, Len(self.q))

    def contains(self, eng, st, x):
        return Mem(self.q, eng.term(st, x, VAL))

    def attr(self, eng, st, name):
        if name == "empty":
            return V(BOOL, Len(self.q) == 0)

    def compare(self, eng, st, op, a, b):
        if op != "Eq" or not all(isinstance(x, PyObj) and x.kind == "model" and isinstance(x.a[0], Names) for x in (a, b)):
            raise Unsupported("comparison of column names")
        return SeqEq(a.a[0].q, b.a[0].q)  # names of another number are refused by pandas, with a ValueError


class Selected(Model):
    what = "selected columns"

    def __init__(self, q):
        self.q = q

    def attr(self, eng, st, name):
        if name == "columns":
            return model(Names(self.q))


def select_dtypes(eng, st, base, args, kws):
    if args or set(kws) != {"exclude"} or not z3.eq(eng.term(st, kws["exclude"]), StrC("number")):
        raise Unsupported("select_dtypes options")
    return model(Selected(fld(eng, st, TXT, base)))


HOOKS[("DataFrame", "columns")] = lambda eng, st, b: model(Names(fld(eng, st, COLS, b)))
HOOKS[("DataFrame", "dtypes")] = lambda eng, st, b: model(Names(fld(eng, st, DTY, b)))
HOOKS[("DataFrame", "index")] = lambda eng, st, b: model(Index(eng.term(st, b), fld(eng, st, IDX, b)))
HOOKS[("DataFrame", "select_dtypes")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: select_dtypes(g, s, b, a, k))


def b_diff(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws:
        raise Unsupported("diff options")
    ety, q = eng.iter_seq(st, args[0])
    if ety.kind != "Int":
        raise Unsupported("diff")
    return model(Diff(q))


def b_all(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws or isinstance(args[0], PyObj) or eng.tyof(args[0]).kind != "Bool":
        raise Unsupported("all")
    return args[0]


BUILTINS["numpy.diff"], BUILTINS["numpy.all"] = b_diff, b_all
# data frames are never written here: a deep copy is as good as the original
BUILTINS["copy.deepcopy"] = BUILTINS["deepcopy"] = lambda eng, st, args, kws, node, mod: args[0]


def wrong(c, f, first, cols):
    """a series that is refused with a ValueError"""
    h = lambda k: c.o[k][f]
    return Or(Len(h(TXT)) > 0, Not(SeqEq(c.o[COLS][first], h(COLS))), Not(SeqEq(c.o[DTY][first], h(DTY))), Not(ordered(h(IDX))),
              And(Not(none(cols)), Not(FA(_c, Imp(InR(_c, the(cols)), Mem(h(COLS), At(the(cols), _c))), At(the(cols), _c)))))


IS_FRAME = z3.Function("is_frame", Ref, z3.BoolSort())
HOOKS[("isinstance", "pandas.DataFrame")] = lambda eng, st, x: V(BOOL, IS_FRAME(eng.term(st, x)))


def SELF(c):
    return c.a["self"]


def refused_value(c):
    T, cols = c.a["time_series"], c.o[PC][SELF(c)]
    return Or(Len(T) == 0, Not(FA(_k, Imp(InR(_k, T), Not(wrong(c, At(T, _k), At(T, 0), cols))), At(T, _k))))


def refused_type(c):
    T = c.a["time_series"]
    return Not(FA(_k, Imp(InR(_k, T), And(IS_FRAME(At(T, _k)), c.o[INTIX][At(T, _k)])), At(T, _k)))


def check_inv(lp):
    T, cols = lp.S, lp.o[PC][SELF(lp)]
    return [("first", And(lp.v("df") == At(T, 0), Len(T) > 0)),
            ("fine", FA(_k, Imp(And(0 <= _k, _k < lp.i), And(Not(wrong(lp, At(T, _k), At(T, 0), cols)), IS_FRAME(At(T, _k)), lp.o[INTIX][At(T, _k)])), At(T, _k)))]


D_ = "DynamicDataTransformer."
ME_T = REF("DynamicDataTransformer")
CHECK = D_ + "_check_input_from_pandas"
objects = lambda c: [("series", FA(_k, Imp(InR(_k, c.a["time_series"]), At(c.a["time_series"], _k) != null), At(c.a["time_series"], _k)))]
REFUSALS = [("ValueError", refused_value), ("TypeError", refused_type)]
C[CHECK] = Contract(CHECK, props=["C20"], params={"self": ME_T, "time_series": FS}, requires=objects, loops=[LoopSpec(check_inv)], raises=REFUSALS)


def one_series(eng, st):
    r = z3.Const("arg_time_series", Ref)
    q = th(FS).empty
    q = App(q, r)
    return {"time_series": V(FR, r), "$spec": {"time_series": q}}


def list_of_series(eng, st):
    t = z3.Const("arg_time_series", sort(FS))
    return {"time_series": eng.newcell(st, FS, t, True), "$spec": {"time_series": t}}


C[D_ + "fit"] = Contract(
    D_ + "fit", props=["C20"], params={"self": ME_T, "time_series": FS, "return_df": BOOL}, ret=ME_T, variants=[one_series, list_of_series], requires=objects, raises=REFUSALS,
    modifies=[(PC, lambda c, x: x == SELF(c)), (PR, lambda c, x: x == SELF(c))],
    ensures=lambda c: [("itself", c.res == SELF(c)), ("columns", And(Not(none(c.n[PC][SELF(c)])), SeqEq(the(c.n[PC][SELF(c)]), c.o[COLS][At(c.a["time_series"], 0)]))),
                       ("result-kind", And(Not(none(c.n[PR][SELF(c)])), the(c.n[PR][SELF(c)]) == c.a["return_df"]))])


# ------------------------------------------------------------------ the whole transformation
ROWS = z3.Function("rows_of_pieces", z3.ArraySort(Ref, sort(IS)), sort(FS), Z, sort(IS))
_cn = CNTS(_H, _T)
_ws = WHICH(_cn, _k)
_wx, _wm = _H[At(_T, _ws)], _k - OFFS(_cn, _ws)
_wl = BND(_wx, _wm + 1) - BND(_wx, _wm) - _p
axiom("rows_of_pieces", And(FA([_H, _T, _p], Len(ROWS(_H, _T, _p)) == sum_of(_cn), ROWS(_H, _T, _p)),
                            FA([_H, _T, _p, _k], Imp(And(0 <= _k, _k < sum_of(_cn)), At(ROWS(_H, _T, _p), _k) == If(_wl > 0, _wl, 0)), At(ROWS(_H, _T, _p), _k))))
# every position lies in one part (parts are not empty here)
axiom("which", FA([_H, _T, _k], Imp(And(0 <= _k, _k < sum_of(_cn)), And(0 <= _ws, _ws < Len(_T), 0 <= _wm, _wm < At(_cn, _ws), _k == NO(_cn, _ws, _wm))), _ws))
_R2, _T2 = z3.Const("R!ts", sort(MS)), z3.Const("T2!ts", sort(FS))


def extensional(name, vs, x, y):
    d = DIFFAT(x, y)
    axiom(name, FA(vs, Imp(And(Len(x) == Len(y), Or(Not(And(0 <= d, d < Len(x))), At(x, d) == At(y, d))), x == y), (x, y)))


extensional("rows.ext", [_R2, _p, _H, _T], KEPT(_R2, _p), ROWS(_H, _T, _p))
extensional("pieces.ext", [_H, _T, _T2], CNTS(_H, _T), CNTS(_H, _T2))


def transform_req(c):
    T = c.a["time_series"]
    h = lambda k: c.o[k][At(T, _k)]
    cs = the(c.o[PC][SELF(c)])
    return objects(c) + [("lengths", FA(_k, Imp(InR(_k, T), Len(h(IDX)) == Len(h(CEL))), At(T, _k))), ("lags", c.o[PP][SELF(c)] >= 1),
                         ("arrays-asked-for", And(Not(none(c.o[PR][SELF(c)])), Not(the(c.o[PR][SELF(c)]))))]


def transform_ens(c):
    T, cs, p = c.a["time_series"], the(c.o[PC][SELF(c)]), c.o[PP][SELF(c)]
    X, Y = P(c.res, 0), P(c.res, 1)
    d, cn, f = Len(cs), CNTS(c.o[IDX], T), At(T, _s)
    kept, ix, rows, old = ROWS(c.o[IDX], T, p), c.o[IDX][f], c.o[CEL][f], c.o[COLS][f]
    n = NO(kept, NO(cn, _s, _m), _r)
    ok = And(0 <= _s, _s < Len(T), 0 <= _m, _m <= Len(GAPS(ix)), 0 <= _r, BND(ix, _m) + _r + p < BND(ix, _m + 1))
    cell = lambda lag: At(At(rows, BND(ix, _m) + _r + p - lag), Idx(old, At(cs, _c)))
    return [("number-of-rows", And(Len(X) == sum_of(kept), Len(Y) == sum_of(kept))),
            ("row-of-a-point", FA([_s, _m, _r], Imp(ok, InR(n, X)), n)),
            ("current-values", FA([_s, _m, _r, _c], Imp(And(ok, InR(_c, cs)), At(At(X, n), _c) == cell(0)), (n, At(cs, _c)))),
            ("lagged-values", FA([_s, _m, _r, _l, _c], Imp(And(ok, 0 <= _l, _l < p, InR(_c, cs)), At(At(Y, n), IX(_l, _c, d)) == cell(_l + 1)), (n, IX(_l, _c, d))))]


def stage(c):
    """facts on the way: the pieces of the selected series are those of the series given"""
    T, T1, R, p = c.a["time_series"], c.v("time_series"), c.v("ts_realisations"), c.o[PP][SELF(c)]
    H, d = c.o[IDX], Len(the(c.o[PC][SELF(c)]))
    cn = CNTS(H, T)
    w = WHICH(cn, _k)
    m, ix = _k - OFFS(cn, w), H[At(T, w)]
    sx = H[At(T, _s)]
    return [("same-series", FA(_k, Imp(InR(_k, T), And(InR(_k, T1), H[At(T1, _k)] == H[At(T, _k)])), At(T1, _k), At(T, _k))),
            ("same-pieces", CNTS(H, T1) == cn),
            ("gaps-inside", FA([_s, _m], Imp(And(InR(_s, T), 0 <= _m, _m < Len(GAPS(sx))), And(0 <= At(GAPS(sx), _m), At(GAPS(sx), _m) < Len(sx) - 1)), At(GAPS(sx), _m))),
            ("bounds", FA([_s, _m], Imp(InR(_s, T), And(0 <= BND(sx, _m), BND(sx, _m) <= Len(sx))), BND(sx, _m))),
            ("of-a-series", FA(_k, Imp(InR(_k, R), And(InR(w, T), 0 <= m, m <= Len(GAPS(ix)), _k == NO(cn, w, m))), At(R, _k), w)),
            ("length-of-piece", FA(_k, Imp(InR(_k, R), Len(At(R, _k)) == BND(ix, m + 1) - BND(ix, m)), At(R, _k), w)),
            ("kept-rows", KEPT(R, p) == ROWS(H, T, p)),
            ("row-of-piece", FA([_k, _r], Imp(And(InR(_k, R), InR(_r, At(R, _k))), At(At(R, _k), _r) == At(c.o[CEL][At(T1, w)], BND(ix, m) + _r)), At(At(R, _k), _r)))]


unfitted = lambda c: none(c.o[PC][SELF(c)])
C[D_ + "_concat_lags"] = Contract(D_ + "_concat_lags", props=["C20"], params={"self": ME_T, "X": MX, "Xlags": MX}, ret=TWO, trusted=True, requires=lambda c: [("arrays-asked-for", z3.BoolVal(False))])
C[D_ + "transform"] = Contract(
    D_ + "transform", props=["C20"], params={"self": ME_T, "time_series": FS}, ret=TWO, variants=[one_series, list_of_series], requires=transform_req,
    raises=[("NotFittedError", unfitted)] + [(k, lambda c, f=f: And(Not(unfitted(c)), f(c))) for k, f in REFUSALS],
    cuts={LAGS: stage}, ghost_calls={LAGS: lambda c: {"d": Len(the(c.o[PC][SELF(c)]))}}, ensures=transform_ens)
