"""Contracts for the variable-to-feature mapping (C17): causalnex/structure/categorical_variable_mapper.py. Types of data are
texts: occurrence in a text, prefix and pattern match are uninterpreted, with their values on the literals that occur."""
import re
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, PyNone, Model, model, Unsupported

MODULES = {"mapper": "causalnex/structure/categorical_variable_mapper.py"}
VS, IS = SEQ(VAL), SEQ(INT)
TYPES = DICT(STR, VS)
SCHEMA = DICT(VAL, STR)
MAP = REF("VariableFeatureMapper")
for t in (VS, IS, SEQ(IS), TYPES, SCHEMA, OPT(SCHEMA), SET(STR), SET(VAL), OPT(VAL), DICT(VAL, INT), DICT(VAL, IS), DICT(VAL, VAL), SEQ(PAIR(VAL, STR)), SEQ(STR), SEQ(BOOL)):
    sort(t)
M = "VariableFeatureMapper."
FIELDS = {"VariableFeatureMapper": {"variable_type_dict": TYPES, "feature_list": VS, "_fte_index_dict": DICT(VAL, INT), "var_indices_dict": DICT(VAL, IS), "_cat_fte_var_dict": DICT(VAL, VAL)}}
BASES, FROZEN = {}, set()
C, HOOKS, BUILTINS, VALUES = {}, {}, {}, {}
KINDS = ("binary", "categorical", "continuous", "count")
PATTERN = "categorical:[1-9][0-9]*"
IN = z3.Function("str_in", Str, Str, z3.BoolSort())  # the first occurs in the second
STARTS = z3.Function("str_starts", Str, Str, z3.BoolSort())
MATCH = z3.Function("re_fullmatch", Str, Str, sort(OPT(VAL)))
_s = z3.Const("s!mp", Str)


def none(o):
    return o.sort().recognizer(0)(o)


def cat(t):
    return Not(none(MATCH(StrC(PATTERN), t)))


LITERALS, PRE = KINDS + ("categorical:",), "categorical:"
for _b in LITERALS:
    for _a in ("categorical", PRE):
        axiom("in-%s-%s" % (_a, _b), IN(StrC(_a), StrC(_b)) == (_a in _b))
        axiom("starts-%s-%s" % (_b, _a), STARTS(StrC(_b), StrC(_a)) == _b.startswith(_a))
    axiom("match-" + _b, cat(StrC(_b)) == (re.fullmatch(PATTERN, _b) is not None))
axiom("prefix-occurs", FA(_s, Imp(STARTS(_s, StrC(PRE)), And(IN(StrC("categorical"), _s), IN(StrC(PRE), _s), STARTS(_s, StrC("categorical")))), STARTS(_s, StrC(PRE))))
axiom("prefix-occurs-2", FA(_s, Imp(STARTS(_s, StrC("categorical")), IN(StrC("categorical"), _s)), STARTS(_s, StrC("categorical"))))
axiom("match-starts", FA(_s, Imp(cat(_s), STARTS(_s, StrC(PRE))), MATCH(StrC(PATTERN), _s)))


def lit(eng, st, v):
    ps = text_atoms(eng.term(st, v, STR))
    return "".join(ps) if all(isinstance(x, str) for x in ps) else None


def str_contains(eng, st, s, x):
    if lit(eng, st, x) not in ("categorical", "categorical:"):
        raise Unsupported("occurrence of this text")
    return IN(StrC(lit(eng, st, x)), eng.term(st, s, STR))


def str_startswith(eng, st, s, args, kws):
    if len(args) != 1 or kws or lit(eng, st, args[0]) not in ("categorical", "categorical:"):
        raise Unsupported("startswith of this text")
    return V(BOOL, STARTS(eng.term(st, s, STR), StrC(lit(eng, st, args[0]))))


def b_fullmatch(eng, st, args, kws, node, mod):
    if len(args) != 2 or kws or lit(eng, st, args[0]) != PATTERN:
        raise Unsupported("another pattern")
    return V(OPT(VAL), MATCH(StrC(PATTERN), eng.term(st, args[1], STR)))


HOOKS[("Str", "contains")], HOOKS[("Str", "startswith")], BUILTINS["re.fullmatch"] = str_contains, str_startswith, b_fullmatch


def known(t):
    return Or(*[t == StrC(k) for k in KINDS], STARTS(t, StrC("categorical:")))


def legal(t):
    return Or(*[t == StrC(k) for k in KINDS if k != "categorical"], cat(t))


C["_is_known_type"] = Contract("_is_known_type", props=["C17"], params={"data_type": STR}, ret=BOOL, ensures=lambda c: [("known", c.res == known(c.a["data_type"]))])


def given(c):
    """type of a node"""
    o, d = c.a["schema"], c.a["default_type"]
    q = o.sort().accessor(1, 0)(o)
    return lambda k: If(none(o), d, If(Has(q, k), Get(q, k), d))


def bad(c):
    k = z3.Const("k!mp", Val)
    return Or(Not(known(c.a["default_type"])), EX(k, And(Mem(c.a["nodes"], k), Not(legal(given(c)(k))))))


def v_ens(c):
    k = z3.Const("k!mp", Val)
    return [("nodes", FA(k, Has(c.res, k) == Mem(c.a["nodes"], k), Has(c.res, k))),
            ("types", FA(k, Imp(Has(c.res, k), And(Get(c.res, k) == given(c)(k), legal(Get(c.res, k)))), Get(c.res, k)))]


C["validate_schema"] = Contract("validate_schema", props=["C17"], params={"nodes": VS, "default_type": STR, "schema": OPT(SCHEMA)}, ret=SCHEMA,
                                raises=[("ValueError", bad)], ensures=v_ens)


# ------------------------------------------------------------------ the mapper's lookups
def b_chain(eng, st, args, kws, node, mod):
    """the elements of the parts, in order; stated: which they are"""
    ety, q = eng.iter_seq(st, args[0])
    if prune(ety).kind != "Seq" or len(args) != 1:
        raise Unsupported("chain of these")
    so = prune(ety)
    r, v, j = fresh("chain", so), z3.Const("v!ch", sort(so.args[0])), z3.Int("j!ch")
    st.pc += [FA(v, Imp(Mem(r, v), EX(j, And(InR(j, q), Mem(At(q, j), v)))), Mem(r, v)), FA([j, v], Imp(And(InR(j, q), Mem(At(q, j), v)), Mem(r, v)), Mem(At(q, j), v))]
    return PyObj("iter", ety=so.args[0], seq=r)


BUILTINS["chain.from_iterable"] = BUILTINS["itertools.chain.from_iterable"] = b_chain
VT, FL, FI, VI, CF = M + "variable_type_dict", M + "feature_list", M + "_fte_index_dict", M + "var_indices_dict", M + "_cat_fte_var_dict"
ME = lambda c: c.a["self"]
_v, _w = z3.Consts("v!mp w!mp", Val)
_i, _j = z3.Ints("i!mp j!mp")


def of(c, k):
    return Get(c.o[VT][ME(c)], StrC(k))


def variable(c, v):
    return Or(*[Mem(of(c, k), v) for k in KINDS])


def wf(c):
    """what the constructor builds: the four types in this order of insertion or another, and columns for every variable"""
    t, x = c.o[VT][ME(c)], z3.Const("k!mq", Str)
    return [("types", FA(x, Has(t, x) == Or(*[x == StrC(k) for k in KINDS]), Has(t, x))),
            ("columns-of-variables", FA(_v, Imp(variable(c, _v), Has(c.o[VI][ME(c)], _v)), *[Mem(of(c, k), _v) for k in KINDS])),
            ("one-column", FA(_v, Imp(And(variable(c, _v), Not(Mem(of(c, "categorical"), _v))), Len(Get(c.o[VI][ME(c)], _v)) == 1), Get(c.o[VI][ME(c)], _v)))]


def a_type(c):
    return Or(*[c.a["data_type"] == StrC(k) for k in KINDS])


def contract(name, **k):
    C[M + name] = Contract(M + name, props=["C17"], **k)


unknown = [("ValueError", lambda c: Not(a_type(c)))]
contract("variable_list", params={"self": MAP}, ret=VS, requires=wf, ensures=lambda c: [("all-variables", FA(_v, Mem(c.res, _v) == variable(c, _v), Mem(c.res, _v)))])
contract("get_var_of_type", params={"self": MAP, "data_type": STR}, ret=VS, ret_borrowed=True, requires=wf, raises=unknown, ensures=lambda c: [("that-type", c.res == Get(c.o[VT][ME(c)], c.a["data_type"]))])
contract("is_var_of_type", params={"self": MAP, "var": VAL, "data_type": STR}, ret=BOOL, requires=wf, raises=unknown, ensures=lambda c: [("that-type", c.res == Mem(Get(c.o[VT][ME(c)], c.a["data_type"]), c.a["var"]))])
contract("get_categorical_indices", params={"self": MAP}, ret=SEQ(IS), requires=wf,
         ensures=lambda c: [("one-per-variable", Len(c.res) == Len(of(c, "categorical"))), ("its-columns", FA(_i, Imp(InR(_i, c.res), At(c.res, _i) == Get(c.o[VI][ME(c)], At(of(c, "categorical"), _i))), At(c.res, _i)))])
contract("get_feature_index", params={"self": MAP, "feature": VAL}, ret=INT, requires=lambda c: wf(c) + [("features", FA(_v, Has(c.o[FI][ME(c)], _v) == Mem(c.o[FL][ME(c)], _v), Has(c.o[FI][ME(c)], _v))), ("feature-or-variable", Or(Mem(c.o[FL][ME(c)], c.a["feature"]), variable(c, c.a["feature"])))],
         raises=[("ValueError", lambda c: Not(Mem(c.o[FL][ME(c)], c.a["feature"])))], ensures=lambda c: [("its-column", c.res == Get(c.o[FI][ME(c)], c.a["feature"]))])
contract("n_features", params={"self": MAP}, ret=INT, ensures=lambda c: [("number", c.res == Len(c.o[FL][ME(c)]))])

contract("n_variables", params={"self": MAP}, ret=INT, requires=wf, ensures=lambda c: [("positive-with-variables", Imp(EX(_v, variable(c, _v)), c.res > 0))])


def b_hasattr(eng, st, args, kws, node, mod):
    if eng.tyof(args[0]).kind != "Val":
        raise Unsupported("hasattr")
    return V(BOOL, z3.BoolVal(False))  # a single name is no iterator


BUILTINS["hasattr"] = b_hasattr
contract("get_indices", params={"self": MAP, "var": VAL}, ret=IS, ret_borrowed=True, requires=wf, raises=[("ValueError", lambda c: Not(variable(c, c.a["var"])))],
         ensures=lambda c: [("its-columns", c.res == Get(c.o[VI][ME(c)], c.a["var"]))])
