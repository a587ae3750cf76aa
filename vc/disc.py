"""Contracts for causalnex/discretiser/discretiser.py. Arrays are sequences of reals (no NaN); numpy's quantile,
percentile, max, min and digitize are assumed contracts."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, NONEV, Unsupported

MODULES = {"discretiser": "causalnex/discretiser/discretiser.py"}
RS = SEQ(REAL)
for t in (RS, OPT(RS), OPT(INT), OPT(REAL), SEQ(STR), SET(STR), SEQ(INT)):
    sort(t)
FIELDS = {"Discretiser": {"method": STR, "num_buckets": OPT(INT), "outlier_percentile": OPT(REAL), "numeric_split_points": OPT(RS), "percentile_split_points": OPT(RS)},
          "ndarray": {"flat": RS}}
BASES = {}
FROZEN = {"Discretiser.numeric_split_points", "Discretiser.percentile_split_points", "ndarray.flat"}
C, HOOKS, BUILTINS = {}, {}, {}
D = "Discretiser."
NSP, PSP = D + "numeric_split_points", D + "percentile_split_points"
SELF = REF("Discretiser")
ME = lambda c: c.a["self"]


def contract(name, **k):
    C[name] = Contract(name, props=["C21"], **k)
    return C[name]


def none(o):
    return o.sort().recognizer(0)(o)


def the(o):
    return o.sort().accessor(1, 0)(o)


_i, _j = z3.Ints("i!di j!di")
MONO = z3.Function("MONO", sort(RS), z3.BoolSort())
_a = z3.Const("a!di", sort(RS))
_m1, _m2 = z3.Function("MONO.i", sort(RS), z3.IntSort()), z3.Function("MONO.j", sort(RS), z3.IntSort())
axiom("MONO.def", FA([_a, _i, _j], Imp(And(MONO(_a), 0 <= _i, _i <= _j, _j < Len(_a)), At(_a, _i) <= At(_a, _j)), (MONO(_a), At(_a, _i), At(_a, _j))))
axiom("MONO.intro", FA(_a, Or(MONO(_a), And(0 <= _m1(_a), _m1(_a) <= _m2(_a), _m2(_a) < Len(_a), At(_a, _m1(_a)) > At(_a, _m2(_a)))), MONO(_a)))
axiom("MONO.srt", FA(_a, MONO(_a) == (th(RS).srt(_a) == _a), th(RS).srt(_a)))
axiom("MONO.srt2", FA(_a, MONO(th(RS).srt(_a)), th(RS).srt(_a)))


def mono(q):
    return MONO(q)


# ------------------------------------------------------------------ numpy
MAX, MIN = z3.Function("np.max", sort(RS), z3.RealSort()), z3.Function("np.min", sort(RS), z3.RealSort())
axiom("np.max", FA([_a, _i], Imp(InR(_i, _a), And(At(_a, _i) <= MAX(_a), MIN(_a) <= At(_a, _i))), (MAX(_a), At(_a, _i)), (MIN(_a), At(_a, _i))))
axiom("np.max.in", FA(_a, Imp(Len(_a) > 0, And(Mem(_a, MAX(_a)), Mem(_a, MIN(_a)))), MAX(_a), MIN(_a)))
QUANT = z3.Function("np.quantile", sort(RS), z3.RealSort(), z3.RealSort())  # linear interpolation between order statistics
_p, _q2 = z3.Reals("p!di q!di")
axiom("np.quantile.range", FA([_a, _p], Imp(And(Len(_a) > 0, 0 <= _p, _p <= 1), And(MIN(_a) <= QUANT(_a, _p), QUANT(_a, _p) <= MAX(_a))), QUANT(_a, _p)))
axiom("np.quantile.mono", FA([_a, _p, _q2], Imp(And(Len(_a) > 0, 0 <= _p, _p <= _q2, _q2 <= 1), QUANT(_a, _p) <= QUANT(_a, _q2)), (QUANT(_a, _p), QUANT(_a, _q2))))
axiom("np.same-data", FA(_a, And(MAX(th(RS).srt(_a)) == MAX(_a), MIN(th(RS).srt(_a)) == MIN(_a)), th(RS).srt(_a)))
axiom("np.quantile.same-data", FA([_a, _p], QUANT(th(RS).srt(_a), _p) == QUANT(_a, _p), QUANT(th(RS).srt(_a), _p)))


def b_ext(f):
    def g(eng, st, args, kws, node, mod):
        a = eng.term(st, args[0], RS)
        eng.obl(st, "safe:empty array", Len(a) > 0)
        return V(REAL, f(a))
    return g


BUILTINS["numpy.max"], BUILTINS["numpy.min"] = b_ext(MAX), b_ext(MIN)


def quantiles(scale):
    def g(eng, st, args, kws, node, mod):
        if kws or len(args) != 2:
            raise Unsupported("quantile options")
        a, q = eng.term(st, args[0], RS), eng.term(st, args[1], RS)
        i = z3.Int("i!qt")
        eng.obl(st, "safe:quantiles in range", FA(i, Imp(InR(i, q), And(0 <= At(q, i), At(q, i) <= scale)), At(q, i)))
        r = fresh("quantiles", RS)
        st.pc.append(Len(r) == Len(q))
        st.pc.append(FA(i, Imp(InR(i, q), At(r, i) == QUANT(a, At(q, i) / scale)), At(r, i), At(q, i)))
        return eng.newcell(st, RS, r)
    return g


BUILTINS["numpy.quantile"], BUILTINS["numpy.percentile"] = quantiles(z3.RealVal(1)), quantiles(z3.RealVal(100))
CNT = z3.Function("CNT", sort(RS), z3.RealSort(), z3.IntSort())  # how many elements of a non-decreasing sequence are <= x
axiom("CNT.range", FA([_a, _p], And(0 <= CNT(_a, _p), CNT(_a, _p) <= Len(_a)), CNT(_a, _p)))
axiom("CNT.def", FA([_a, _p, _i], Imp(And(MONO(_a), InR(_i, _a)), (_i < CNT(_a, _p)) == (At(_a, _i) <= _p)), (CNT(_a, _p), At(_a, _i))))

axiom("CNT.next", FA([_a, _p], Imp(And(MONO(_a), CNT(_a, _p) < Len(_a)), At(_a, CNT(_a, _p)) > _p), CNT(_a, _p)))


def b_digitize(eng, st, args, kws, node, mod):
    """numpy.digitize(x, bins, right=False) for non-decreasing bins: the number of bins <= x"""
    names = ["x", "bins", "right"]
    g = dict(zip(names, args))
    g.update(kws)
    if not set(g) <= set(names):
        raise Unsupported("digitize options")
    r = eng.truth(st, g["right"]) if "right" in g else False
    if not (r is False or z3.is_expr(r) and z3.is_false(r)):
        raise Unsupported("digitize on the right")
    x = g["x"]
    a = eng.hget(st, "ndarray.flat")[eng.term(st, x)]
    b = eng.term(st, g["bins"], RS)
    eng.obl(st, "safe:split points in order", MONO(b))
    q = fresh("codes", SEQ(INT))
    i = z3.Int("i!dg")
    st.pc.append(Len(q) == Len(a))
    st.pc.append(FA(i, Imp(InR(i, a), At(q, i) == CNT(b, At(a, i))), At(q, i), At(a, i)))
    return eng.newcell(st, SEQ(INT), q)


BUILTINS["numpy.digitize"] = b_digitize
HOOKS[("ndarray", "flatten")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: g.newcell(s, RS, g.hget(s, "ndarray.flat")[g.term(s, b)]))


# ------------------------------------------------------------------ contracts
METHODS = ["uniform", "quantile", "outlier", "fixed", "percentiles"]


def is_m(m, *names):
    return Or(*[m == StrC(n) for n in names])


def bad_args(c):
    m, nb, op, ns, ps = [c.a[n] for n in ("method", "num_buckets", "outlier_percentile", "numeric_split_points", "percentile_split_points")]
    i = z3.Int("i!ba")
    return Or(Not(is_m(m, *METHODS)), And(is_m(m, "uniform", "quantile"), none(nb)), And(is_m(m, "outlier"), none(op)),
              And(Not(none(op)), Or(the(op) < 0, the(op) >= z3.RealVal("1/2"))), And(is_m(m, "fixed"), none(ns)), And(Not(none(ns)), Not(mono(the(ns)))),
              And(is_m(m, "percentiles"), none(ps)), And(Not(none(ps)), EX(i, And(InR(i, the(ps)), Or(At(the(ps), i) < 0, At(the(ps), i) > 1)))), And(Not(none(ps)), Not(mono(the(ps)))))


def ok(h, me):
    """a configured discretiser"""
    m, nb, op, ns, ps = [h[D + n][me] for n in ("method", "num_buckets", "outlier_percentile", "numeric_split_points", "percentile_split_points")]
    i = z3.Int("i!ok")
    return [("known-method", is_m(m, *METHODS)), ("buckets", Imp(is_m(m, "uniform", "quantile"), Not(none(nb)))),
            ("outliers", Imp(is_m(m, "outlier"), And(Not(none(op)), 0 <= the(op), the(op) < z3.RealVal("1/2")))),
            ("fixed", Imp(is_m(m, "fixed"), Not(none(ns)))), ("splits-in-order", Imp(Not(none(ns)), mono(the(ns)))),
            ("percentiles-in-order", Imp(is_m(m, "percentiles"), And(Not(none(ps)), mono(the(ps)), FA(i, Imp(InR(i, the(ps)), And(0 <= At(the(ps), i), At(the(ps), i) <= 1)), At(the(ps), i)))))]


contract("Discretiser.__init__", params={"self": SELF, "method": STR, "num_buckets": OPT(INT), "outlier_percentile": OPT(REAL), "numeric_split_points": OPT(RS), "percentile_split_points": OPT(RS)},
         raises=[("ValueError", bad_args)],
         modifies=[(D + f, lambda c, x: x == ME(c)) for f in FIELDS["Discretiser"]],
         ensures=lambda c: ok(c.n, ME(c)) + [(f, c.n[D + f][ME(c)] == c.a[f]) for f in FIELDS["Discretiser"]])


def data(c):
    return c.o["ndarray.flat"][c.a["data"]]


def fit_ens(c):
    h, me, x = c.o, ME(c), data(c)
    m, nb, op, ps = [the(h[D + n][me]) if n != "method" else h[D + n][me] for n in ("method", "num_buckets", "outlier_percentile", "percentile_split_points")]
    r = c.n[NSP][me]
    s = the(r)
    i = z3.Int("i!fe")
    n = z3.ToReal(nb)
    return ok(c.n, me) + [
        ("fitted", Not(none(r))), ("within-the-data", FA(i, Imp(InR(i, s), And(MIN(x) <= At(s, i), At(s, i) <= MAX(x))), At(s, i))),
        ("uniform", Imp(is_m(m, "uniform"), And(Len(s) == If(nb > 1, nb - 1, z3.IntVal(0)), FA(i, Imp(InR(i, s), At(s, i) == MIN(x) + (MAX(x) - MIN(x)) / n * (z3.ToReal(i) + 1)), At(s, i))))),
        ("quantile", Imp(is_m(m, "quantile"), And(Len(s) == If(nb > 1, nb - 1, z3.IntVal(0)), FA(i, Imp(InR(i, s), At(s, i) == QUANT(x, z3.RealVal(1) / n * (z3.ToReal(i) + 1))), At(s, i))))),
        ("outlier", Imp(is_m(m, "outlier"), And(Len(s) == 2, At(s, 0) == QUANT(x, op), At(s, 1) == QUANT(x, 1 - op)))),
        ("percentiles", Imp(is_m(m, "percentiles"), And(Len(s) == Len(ps), FA(i, Imp(InR(i, s), At(s, i) == QUANT(x, At(ps, i))), At(s, i))))),
        ("returns-itself", c.res == me)]


contract("Discretiser.fit", params={"self": SELF, "data": REF("ndarray")}, ret=SELF, modifies=[(NSP, lambda c, x: x == ME(c))],
         requires=lambda c: ok(c.o, ME(c)) + [("some-data", Len(data(c)) > 0), ("some-buckets", Imp(is_m(c.o[D + "method"][ME(c)], "uniform", "quantile"), the(c.o[D + "num_buckets"][ME(c)]) >= 1))],
         raises=[("RuntimeError", lambda c: is_m(c.o[D + "method"][ME(c)], "fixed"))], ensures=fit_ens)


def tr_ens(c):
    x, s, r = data(c), the(c.o[NSP][ME(c)]), c.res
    i, j = z3.Ints("i!te j!te")
    return [("one-code-each", Len(r) == Len(x)), ("number-of-split-points-below", FA(i, Imp(InR(i, x), At(r, i) == CNT(s, At(x, i))), At(r, i))),
            ("codes-in-range", FA(i, Imp(InR(i, x), And(0 <= At(r, i), At(r, i) <= Len(s))), At(r, i))),
            ("monotone", FA([i, j], Imp(And(InR(i, x), InR(j, x), At(x, i) <= At(x, j)), At(r, i) <= At(r, j)), (At(r, i), At(r, j))))]


contract("Discretiser.transform", params={"self": SELF, "data": REF("ndarray")}, ret=SEQ(INT),
         requires=lambda c: ok(c.o, ME(c)) + [("fitted", Not(none(c.o[NSP][ME(c)])))], ensures=tr_ens)
