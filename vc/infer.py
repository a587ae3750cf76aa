"""Contracts for causalnex/inference/inference.py. The tables of a network are nested dictionaries
variable -> state -> conditions -> probability; a query of the rebuilt network is an assumed contract here."""
import z3
from theory import *
from engine import Contract, keeps, LoopSpec, V, H, PyTuple, PyObj, NONEV, Model, model, Unsupported, sum_fun

MODULES = {"inference": "causalnex/inference/inference.py"}
ENT = PAIR(STR, VAL)
KEY = SEQ(ENT)
TAB = DICT(KEY, REAL)
STATES = DICT(VAL, TAB)
CPDS = DICT(STR, STATES)
DIST = DICT(VAL, REAL)
RES = DICT(ENT, REAL)
FIELDS = {"InferenceEngine": {"_cpds": CPDS, "_cpds_original": CPDS, "_domains": DICT(STR, SEQ(VAL)), "_node_functions": DICT(STR, REF("function")), "_bbn": REF("BBN")},
          "function": {"argspec": SEQ(STR), "__name__": STR}, "BBN": {}}
BASES = {}
FROZEN = {"InferenceEngine._cpds[]", "InferenceEngine._cpds_original[]"}  # the tables of a variable are replaced, never changed in place
for t in (ENT, KEY, TAB, STATES, CPDS, DIST, RES, SEQ(REAL), SEQ(VAL), SET(VAL), SEQ(STR), SEQ(SEQ(VAL)), SEQ(REF("function")), SEQ(PAIR(STR, STATES))):
    sort(t)
EMPTY_TUPLE = KEY
C, HOOKS, BUILTINS = {}, {}, {}
IE = "InferenceEngine."
CP, OR = IE + "_cpds", IE + "_cpds_original"


def contract(name, **k):
    C[name] = Contract(name, **k)
    return C[name]


# the total of a distribution, whatever the order in which its states are listed
DTOT = z3.Function("DTOT", sort(DIST), z3.RealSort())
_d, _ks, _vs, _n, _s, _i = z3.Const("d!dt", sort(DIST)), z3.Const("ks!dt", sort(SEQ(VAL))), z3.Const("vs!dt", sort(SEQ(REAL))), z3.Int("n!dt"), z3.Const("s!dt", Val), z3.Int("i!dt")
_SUM = sum_fun(sort(SEQ(REAL)))
axiom("DTOT", FA([_d, _ks, _vs], Imp(And(enumerates(_ks, Dom(_d)), Len(_vs) == Len(_ks), FA(_i, Imp(InR(_i, _ks), At(_vs, _i) == Get(_d, At(_ks, _i))), At(_vs, _i))),
                                     _SUM(_vs, Len(_vs)) == DTOT(_d)), (enumerates(_ks, Dom(_d)), _SUM(_vs, Len(_vs)))))
axiom("DTOT.one", FA([_d, _s], Imp(FA(z3.Const("x!d1", Val), Imp(Has(_d, z3.Const("x!d1", Val)), Get(_d, z3.Const("x!d1", Val)) == If(z3.Const("x!d1", Val) == _s, z3.RealVal(1), z3.RealVal(0))), Get(_d, z3.Const("x!d1", Val))),
                                   DTOT(_d) == If(Has(_d, _s), z3.RealVal(1), z3.RealVal(0))), (DTOT(_d), Has(_d, _s))))

_e2, _w2 = z3.Const("e!dt", sort(DIST)), z3.Function("DTOT.w", sort(DIST), sort(DIST), Val)
axiom("DTOT.ext", FA([_d, _e2], Or(DTOT(_d) == DTOT(_e2), Has(_d, _w2(_d, _e2)) != Has(_e2, _w2(_d, _e2)), And(Has(_d, _w2(_d, _e2)), Get(_d, _w2(_d, _e2)) != Get(_e2, _w2(_d, _e2)))), (DTOT(_d), DTOT(_e2))))


def b_isclose(eng, st, args, kws, node, mod):
    """math.isclose with its default tolerances: |a - b| <= 1e-9 * max(|a|, |b|)"""
    if kws:
        raise Unsupported("isclose options")
    a, b = eng.term(st, args[0], REAL), eng.term(st, args[1], REAL)
    return V(BOOL, isclose(a, b))


def isclose(a, b):
    ab = lambda x: If(x < 0, -x, x)
    return ab(a - b) <= z3.RealVal("1/1000000000") * If(ab(a) > ab(b), ab(a), ab(b))


BUILTINS["math.isclose"] = b_isclose


def invalid(d, orig):
    """not a distribution over the states of orig"""
    s = z3.Const("s!iv", Val)
    return Or(Not(isclose(DTOT(d), z3.RealVal(1))), EX(s, And(Has(d, s), Or(Get(d, s) > 1, Get(d, s) < 0))), Dom(d) != Dom(orig))


def replaced(c, me, node, d):
    """only the tables of node changed: state s has probability d[s] whatever the conditions"""
    a, b = c.o[CP][me], c.n[CP][me]
    k, s, q = z3.Const("k!rp", Str), z3.Const("s!rp", Val), z3.Const("q!rp", sort(KEY))
    t = Get(b, node)
    return [("same-states", FA(s, Has(t, s) == Has(d, s), Has(t, s))),
            ("given-probability", FA([s, q], Imp(Has(t, s), And(Has(Get(t, s), q) == (q == th(KEY).empty), Imp(q == th(KEY).empty, Get(Get(t, s), q) == Get(d, s)))), Has(Get(t, s), q))),
            ("one-row-each", FA(s, Imp(Has(t, s), Has(Get(t, s), th(KEY).empty)), Has(t, s))),
            ("other-variables-kept", FA(k, Imp(k != node, And(Has(b, k) == Has(a, k), Imp(Has(a, k), Get(b, k) == Get(a, k)))), Has(b, k), Get(b, k))),
            ("variable-kept", Has(b, node))]


_k = z3.Const("k!rd", Str)
ME = lambda c: c.a["self"]
SELF = REF("InferenceEngine")
contract("InferenceEngine._do", params={"self": SELF, "observation": STR, "state": DIST}, props=["C23"],
         requires=lambda c: [("known-variable", Has(c.o[OR][ME(c)], c.a["observation"])), ("has-states", EX(_s, Has(Get(c.o[OR][ME(c)], c.a["observation"]), _s)))],
         raises=[("ValueError", lambda c: invalid(c.a["state"], Get(c.o[OR][ME(c)], c.a["observation"])))],
         modifies=[(CP, lambda c, x: x == ME(c))],
         ensures=lambda c: replaced(c, ME(c), c.a["observation"], c.a["state"]))

# ------------------------------------------------------------------ what the functions of the rebuilt network take
NMS = z3.Function("NMS", sort(KEY), sort(SEQ(STR)))  # the variables a conditions tuple names, in order
ARGS = z3.Function("ARGS", sort(STATES), sort(SEQ(STR)))  # the conditions of a variable's tables, read off a chosen row
CS, CK = z3.Function("ARGS.state", sort(STATES), Val), z3.Function("ARGS.row", sort(STATES), sort(KEY))
_q, _t = z3.Const("q!nm", sort(KEY)), z3.Const("t!nm", sort(STATES))
axiom("NMS.len", FA(_q, Len(NMS(_q)) == Len(_q), NMS(_q)))
axiom("NMS.at", FA([_q, _i], Imp(InR(_i, _q), At(NMS(_q), _i) == P(At(_q, _i), 0)), At(NMS(_q), _i), (NMS(_q), At(_q, _i))))
axiom("ARGS.row", FA([_t, _s, _q], Imp(And(Has(_t, _s), Has(Get(_t, _s), _q)), And(Has(_t, CS(_t)), Has(Get(_t, CS(_t)), CK(_t)))), (ARGS(_t), Has(Get(_t, _s), _q))))
axiom("ARGS.def", FA(_t, ARGS(_t) == NMS(CK(_t)), ARGS(_t)))


def tables_ok(cp):
    """every variable has states, every state has rows, and all rows of a variable name the same known variables"""
    k, s, q, p = z3.Const("k!tk", Str), z3.Const("s!tk", Val), z3.Const("q!tk", sort(KEY)), z3.Const("p!tk", Str)
    t = Get(cp, k)
    return [("has-states", FA(k, Imp(Has(cp, k), EX(s, Has(t, s))), Has(cp, k))),
            ("has-rows", FA([k, s], Imp(And(Has(cp, k), Has(t, s)), EX(q, Has(Get(t, s), q))), Has(t, s))),
            ("same-conditions", FA([k, s, q], Imp(And(Has(cp, k), Has(t, s), Has(Get(t, s), q)), NMS(q) == ARGS(t)), Has(Get(t, s), q))),
            ("conditions-are-variables", FA([k, p], Imp(And(Has(cp, k), Mem(ARGS(t), p)), Has(cp, p)), Mem(ARGS(t), p)))]


def pre(l, fs):
    return [(l + x, f) for x, f in fs]


def funcs_match(h, nf, cp):
    k = z3.Const("k!fm", Str)
    f = Get(nf, k)
    return [("one-function-per-variable", FA(k, Has(nf, k) == Has(cp, k), Has(nf, k), Has(cp, k))),
            ("takes-variable-then-conditions", FA(k, Imp(Has(cp, k), And(f != null, SeqEq(h["function.argspec"][f], Cat(App(th(SEQ(STR)).empty, k), ARGS(Get(cp, k)))), SeqEq(th(SEQ(STR)).drop(h["function.argspec"][f], 1), ARGS(Get(cp, k))))), Has(nf, k), Get(nf, k)))]


def engine_ok(h, me):
    """an inference engine: its tables cover the fitted ones, state by state"""
    a, b = h[CP][me], h[OR][me]
    k = z3.Const("k!ek", Str)
    return pre("tables:", tables_ok(a)) + pre("fitted:", tables_ok(b)) + [
        ("same-variables", FA(k, Has(a, k) == Has(b, k), Has(a, k), Has(b, k))),
        ("same-states", FA(k, Imp(Has(b, k), Dom(Get(a, k)) == Dom(Get(b, k))), Has(b, k), Get(a, k)))]


def engine_inv(h, me):
    return engine_ok(h, me) + pre("functions:", funcs_match(h, h[IE + "_node_functions"][me], h[CP][me]))


contract("InferenceEngine._create_node_function", params={"self": SELF, "name": STR, "args": SEQ(STR)}, ret=REF("function"), trusted="builds a code object with the given argument names", allocates=True,
         ensures=lambda c: [("fresh", And(c.res != null, c.fresh_ref(c.res))), ("arguments", c.n["function.argspec"][c.res] == c.a["args"]), ("name", c.n["function.__name__"][c.res] == c.a["name"])])


def cnf_inv(lp):
    nf, cp, h = lp.v("node_functions"), lp.o[CP][lp.a["self"]], lp.n
    k, j = z3.Const("k!cn", Str), z3.Int("j!cn")
    f = Get(nf, k)
    return [("functions", FA(k, Imp(Has(nf, k), And(Has(cp, k), f != null, SeqEq(h["function.argspec"][f], Cat(App(th(SEQ(STR)).empty, k), ARGS(Get(cp, k)))), SeqEq(th(SEQ(STR)).drop(h["function.argspec"][f], 1), ARGS(Get(cp, k))), birth(f) >= lp.now0, birth(f) < lp.now)), Has(nf, k), Get(nf, k))),
            ("so-far", FA(j, Imp(And(0 <= j, j < lp.i), Has(nf, P(At(lp.S, j), 0))), At(lp.S, j)))]


contract("InferenceEngine._create_node_functions", params={"self": SELF}, ret=DICT(STR, REF("function")), props=["C23"], allocates=True,
         requires=lambda c: tables_ok(c.o[CP][ME(c)]),
         ensures=lambda c: funcs_match(c.n, c.res, c.o[CP][ME(c)]), locals={"node_functions": DICT(STR, REF("function"))},
         loops=[LoopSpec(cnf_inv)])


def b_build(eng, st, args, kws, node, mod):
    """build_bbn is under contract in the area of the exact-inference engine; here only its type matters"""
    r = fresh("bbn", REF("BBN"))
    st.pc.append(r != null)
    return V(REF("BBN"), r)


BUILTINS["build_bbn"] = b_build
REBUILT = [(IE + "_node_functions", lambda c, x: x == ME(c)), (IE + "_bbn", lambda c, x: x == ME(c))]
contract("InferenceEngine._generate_bbn", params={"self": SELF}, props=["C23"], allocates=True, modifies=REBUILT,
         requires=lambda c: tables_ok(c.o[CP][ME(c)]),
         ensures=lambda c: funcs_match(c.n, c.n[IE + "_node_functions"][ME(c)], c.o[CP][ME(c)]))

contract("InferenceEngine.reset_do", params={"self": SELF, "observation": STR}, props=["C23"], allocates=True,
         modifies=REBUILT + [(CP, lambda c, x: x == ME(c))],
         requires=lambda c: engine_inv(c.o, ME(c)) + [("known-variable", Has(c.o[OR][ME(c)], c.a["observation"]))],
         ensures=lambda c: engine_inv(c.n, ME(c)) + [
             ("fitted-tables-restored", Get(c.n[CP][ME(c)], c.a["observation"]) == Get(c.o[OR][ME(c)], c.a["observation"])),
             ("other-variables-kept", FA(_k, Imp(_k != c.a["observation"], Get(c.n[CP][ME(c)], _k) == Get(c.o[CP][ME(c)], _k)), Get(c.n[CP][ME(c)], _k)))])


HOOKS[("function", "__code__")] = lambda eng, st, b: PyObj("record", of=b)


def b_getargs(eng, st, args, kws, node, mod):
    """inspect.getargs(f.__code__): the argument names come first"""
    f = eng.term(st, args[0].k["of"])
    return PyTuple([V(SEQ(STR), eng.hget(st, "function.argspec")[f]), NONEV, NONEV])


BUILTINS["inspect.getargs"] = b_getargs


def given(kind):
    def mk(eng, st):
        v = z3.Const("arg_state", sort(DIST) if kind == "dict" else Val)
        if kind == "dict":
            h = eng.newcell(st, DIST, v, True)
            return {"state": h, "$spec": {"state": v}}
        return {"state": V(VAL, v), "$spec": {"state": v}}
    return mk


def asked(c):
    """the distribution meant: the one given, or all the mass on the state given"""
    d, v, t = c.a["$asked"], c.a["state"], Get(c.o[CP][ME(c)], c.a["node"])
    if v.sort() == sort(DIST):
        return [("asked", d == v)]
    s = z3.Const("s!as", Val)
    return [("asked-states", FA(s, Has(d, s) == Has(t, s), Has(d, s))), ("asked-mass", FA(s, Get(d, s) == If(s == v, z3.RealVal(1), z3.RealVal(0)), Get(d, s))), ("asked-domain", Dom(d) == Dom(t))]


def isolates(c):
    k = z3.Const("k!is", Str)
    cp = c.o[CP][ME(c)]
    return Not(EX(k, And(Has(cp, k), Mem(ARGS(Get(cp, k)), c.a["node"]))))


contract("InferenceEngine.do_intervention", params={"self": SELF, "node": STR, "state": DIST}, props=["C23"], allocates=True,
         ghosts={"asked": sort(DIST)}, variants=[given("dict"), given("value")],
         modifies=REBUILT + [(CP, lambda c, x: x == ME(c))],
         requires=lambda c: engine_inv(c.o, ME(c)) + asked(c) + [("known-variable", Has(c.o[OR][ME(c)], c.a["node"]))],
         raises=[("ValueError", lambda c: Or(isolates(c), invalid(c.a["$asked"], Get(c.o[OR][ME(c)], c.a["node"]))))],
         ensures=lambda c: engine_inv(c.n, ME(c)) + replaced(c, ME(c), c.a["node"], c.a["$asked"]))


# ------------------------------------------------------------------ queries
POST = z3.Function("POST", Ref, sort(DICT(STR, VAL)), sort(RES))  # what the rebuilt network answers (BBN.query, C01/C02)

POST0 = z3.Function("POST0", Ref, sort(RES))  # its answer without evidence
_b, _o = z3.Const("b!po", Ref), z3.Const("o!po", sort(DICT(STR, VAL)))
axiom("POST.none", FA([_b, _o], Or(Dom(_o) != EmptySet(Str), POST(_b, _o) == POST0(_b)), POST(_b, _o)))


def bbn_query(eng, st, base):
    def call(g, s, args, kws):
        d = kws.pop("**", None)
        if args or kws:
            raise Unsupported("arguments of query")
        t = g.term(s, d, DICT(STR, VAL)) if d is not None else g.empty_of(DICT(STR, VAL))
        b = g.term(s, base)
        return g.newcell(s, RES, POST(b, t))
    return PyObj("pyfn", call)


HOOKS[("BBN", "query")] = bbn_query
OBS = DICT(STR, VAL)


def q_evidence(eng, st):
    t = z3.Const("arg_observations", sort(OBS))
    return {"observations": eng.newcell(st, OBS, t, True), "$spec": {"observations": t}}


def q_none(eng, st):
    return {"observations": NONEV, "$spec": {"observations": eng.empty_of(OBS)}}


def q_answer(c):
    return POST(c.o[IE + "_bbn"][ME(c)], c.a["observations"])


def nested(res, ans, keys, only=None):
    """res[node][state] = ans[(node, state)], one inner table per key"""
    k, s = z3.Const("k!ne", Str), z3.Const("s!ne", Val)
    e = MkPair(ENT, k, s)
    inside = Has(ans, e) if only is None else And(Has(ans, e), only(e))
    return [("one-table-per-variable", FA(k, Has(res, k) == Has(keys, k), Has(res, k))),
            ("entries", FA([k, s], Imp(Has(keys, k), Has(Get(res, k), s) == inside), Has(Get(res, k), s))),
            ("probabilities", FA([k, s], Imp(And(Has(keys, k), Has(Get(res, k), s)), Get(Get(res, k), s) == Get(ans, e)), Get(Get(res, k), s)))]


def q_inv(lp):
    done = lambda e: And(Mem(lp.ks, e), Idx(lp.ks, e) < lp.i)
    return nested(lp.v("results"), q_answer(lp), lp.o[CP][lp.a["self"]], done)


_e = z3.Const("e!qa", sort(ENT))
contract("InferenceEngine.query", params={"self": SELF, "observations": OBS}, ret=DICT(STR, DIST), props=["C23"], variants=[q_evidence, q_none],
         requires=lambda c: [("answers-name-variables", FA(_e, Imp(Has(q_answer(c), _e), Has(c.o[CP][ME(c)], P(_e, 0))), Has(q_answer(c), _e), P(_e, 0)))],
         ensures=lambda c: nested(c.res, q_answer(c), c.o[CP][ME(c)]), loops=[LoopSpec(q_inv)])
