"""Contracts for random structures (C22): causalnex/structure/data_generators/core.py, generate_structure. numpy's random
source may return anything its documentation allows; products with permutation matrices by their definition."""
import z3
from theory import *
from engine import Contract, LoopSpec, V, H, PyTuple, PyObj, Model, model, Unsupported
from learn import IE, IS, new_obj, setf

MODULES = {"generators": "causalnex/structure/data_generators/core.py"}
CELLS = DICT(IE, REAL)
MAT, GRAPH = REF("Matrix"), REF("IntGraph")
for t in (CELLS, IS, SET(INT)):
    sort(t)
FIELDS = {"Matrix": {"rows": INT, "cols": INT, "cells": CELLS}, "IntGraph": {"W": CELLS, "N": SET(INT)}}
BASES = {}
FROZEN = {"Matrix.rows", "Matrix.cols"}
C, HOOKS, BUILTINS, VALUES = {}, {}, {}, {}
ROWS, COLS, CEL, W, N = "Matrix.rows", "Matrix.cols", "Matrix.cells", "IntGraph.W", "IntGraph.N"
_i, _j = z3.Ints("i!ge j!ge")


def at(q, i, j):
    return Get(q, MkPair(IE, i, j))


def within(i, j, n, m):
    return And(0 <= i, i < n, 0 <= j, j < m)


# ------------------------------------------------------------------ matrices (assumed)
def matrix(eng, st, n, m, fact):
    """a fresh matrix; fact: (cells, i, j) -> formula"""
    r, q = new_obj(eng, st, "Matrix"), fresh("cells", CELLS)
    st.pc.append(FA([_i, _j], Imp(within(_i, _j, n, m), fact(q, _i, _j)), at(q, _i, _j)))
    for k, t in ((ROWS, n), (COLS, m), (CEL, q)):
        setf(eng, st, r, k, t)
    return V(MAT, r)


def parts(eng, st, v):
    r = eng.term(st, v)
    return eng.hget(st, ROWS)[r], eng.hget(st, COLS)[r], eng.hget(st, CEL)[r]


class Flags(Model):
    """a matrix of truth values"""
    what = "boolean matrix"

    def __init__(self, n, m, f):
        self.n, self.m, self.f = n, m, f

    def attr(self, eng, st, name):
        if name == "astype":
            return PyObj("pyfn", lambda g, s, a, k: matrix(g, s, self.n, self.m, lambda q, i, j: at(q, i, j) == If(self.f(i, j), z3.RealVal(1), z3.RealVal(0))))
        raise Unsupported("." + name + " of a boolean matrix")

    def binop(self, eng, st, op, a, b):
        raise Unsupported("arithmetic on truth values")


class Chosen(Model):
    """the entries of a matrix where the flags are set"""
    what = "selected entries"

    def __init__(self, flags, f):
        self.flags, self.f = flags, f

    def binop(self, eng, st, op, a, b):
        if not (isinstance(a, PyObj) and a.a[0] is self) or isinstance(b, PyObj):
            raise Unsupported("arithmetic on selected entries")
        t = eng.term(st, b, REAL)
        g = ARITH.get(op)
        if g is None:
            raise Unsupported("arithmetic on selected entries")
        return model(Chosen(self.flags, lambda i, j: g(self.f(i, j), t)))


ARITH = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y}
ORDER = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y, "Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y}


def operand(eng, st, v):
    if isinstance(v, PyObj):
        raise Unsupported("arithmetic with %s" % v.kind)
    if eng.tyof(v).kind == "Ref":
        n, m, q = parts(eng, st, v)
        return n, m, lambda i, j: at(q, i, j)
    t = eng.term(st, v, REAL)
    return None, None, lambda i, j: t


def both(eng, st, a, b):
    x, y = operand(eng, st, a), operand(eng, st, b)
    if x[0] is not None and y[0] is not None:
        eng.obl(st, "safe:same shape", And(x[0] == y[0], x[1] == y[1]))
    s = x if x[0] is not None else y
    return s[0], s[1], x[2], y[2]


def m_compare(eng, st, op, a, b):
    n, m, f, g = both(eng, st, a, b)
    if op not in ORDER:
        raise Unsupported("comparison of matrices")
    return model(Flags(n, m, lambda i, j: ORDER[op](f(i, j), g(i, j))))


def m_binop(eng, st, op, a, b):
    n, m, f, g = both(eng, st, a, b)
    if op not in ARITH:
        raise Unsupported("arithmetic on matrices")
    return matrix(eng, st, n, m, lambda q, i, j: at(q, i, j) == ARITH[op](f(i, j), g(i, j)))


HOOKS[("Matrix", "compare")] = HOOKS[("Matrix", "==")] = m_compare
HOOKS[("Matrix", "binop")] = m_binop


def m_getitem(eng, st, base, idx):
    n, m, q = parts(eng, st, base)
    if isinstance(idx, PyObj) and idx.kind == "model" and isinstance(idx.a[0], Flags):
        eng.obl(st, "safe:same shape", And(idx.a[0].n == n, idx.a[0].m == m))
        return model(Chosen(idx.a[0], lambda i, j: at(q, i, j)))
    i, j = [eng.term(st, x, INT) for x in eng.fixed(st, idx)]
    eng.obl(st, "safe:index", within(i, j, n, m))
    return V(REAL, at(q, i, j))


def m_setitem(eng, st, base, idx, v):
    n, m, q = parts(eng, st, base)
    new = fresh("cells", CELLS)
    if isinstance(idx, PyObj) and idx.kind == "model" and isinstance(idx.a[0], Flags):
        fl = idx.a[0]
        eng.obl(st, "safe:same shape", And(fl.n == n, fl.m == m))
        if isinstance(v, PyObj):
            if not (v.kind == "model" and isinstance(v.a[0], Chosen) and v.a[0].flags is fl):
                raise Unsupported("item store on a matrix")
            val = v.a[0].f
        else:
            t = eng.term(st, v, REAL)
            val = lambda i, j: t
        st.pc.append(FA([_i, _j], Imp(within(_i, _j, n, m), at(new, _i, _j) == If(fl.f(_i, _j), val(_i, _j), at(q, _i, _j))), at(new, _i, _j)))
    else:
        i, j = [eng.term(st, x, INT) for x in eng.fixed(st, idx)]
        eng.obl(st, "safe:index", within(i, j, n, m))
        new = DStore(q, MkPair(IE, i, j), eng.term(st, v, REAL))
    setf(eng, st, eng.term(st, base), CEL, new)


HOOKS[("Matrix", "[]")], HOOKS[("Matrix", "[]=")] = m_getitem, m_setitem


def size(eng, st, args):
    xs = eng.fixed(st, args[0]) if len(args) == 1 else args
    if xs is None or len(xs) != 2:
        raise Unsupported("shape of a matrix")
    n, m = [eng.term(st, x, INT) for x in xs]
    eng.obl(st, "safe:size", And(n >= 0, m >= 0))
    return n, m


def made(fact):
    def b(eng, st, args, kws, node, mod):
        if kws:
            raise Unsupported("options of a matrix")
        n, m = size(eng, st, args)
        return matrix(eng, st, n, m, fact)
    return b


BUILTINS["numpy.zeros"] = made(lambda q, i, j: at(q, i, j) == 0)
BUILTINS["numpy.ones"] = made(lambda q, i, j: at(q, i, j) == 1)
BUILTINS["numpy.random.rand"] = made(lambda q, i, j: And(0 <= at(q, i, j), at(q, i, j) < 1))


def b_uniform(eng, st, args, kws, node, mod):
    if set(kws) - {"low", "high", "size"} or len(args) > 3:
        raise Unsupported("uniform options")
    a = dict(zip(("low", "high", "size"), args), **kws)
    if set(a) != {"low", "high", "size"}:
        raise Unsupported("uniform options")
    lo, hi = eng.term(st, a["low"], REAL), eng.term(st, a["high"], REAL)
    eng.obl(st, "safe:range", lo <= hi)
    n, m = size(eng, st, [a["size"]])
    return matrix(eng, st, n, m, lambda q, i, j: And(lo <= at(q, i, j), at(q, i, j) <= hi))


BUILTINS["numpy.random.uniform"] = b_uniform


def triangle(keep):
    def b(eng, st, args, kws, node, mod):
        a = dict(zip(("m", "k"), args), **kws)
        if set(a) - {"m", "k"}:
            raise Unsupported("triangle options")
        n, m, q = parts(eng, st, a["m"])
        k = eng.term(st, a["k"], INT) if "k" in a else z3.IntVal(0)
        return matrix(eng, st, n, m, lambda r, i, j: at(r, i, j) == If(keep(i, j, k), at(q, i, j), z3.RealVal(0)))
    return b


BUILTINS["numpy.tril"] = triangle(lambda i, j, k: j - i <= k)
BUILTINS["numpy.triu"] = triangle(lambda i, j, k: j - i >= k)


def b_choice(eng, st, args, kws, node, mod):
    """values drawn from a list, with repetition"""
    if len(args) not in (1, 2) or set(kws) - {"size"} or len(args) + len(kws) != 2:
        raise Unsupported("choice options")
    ety, s = eng.iter_seq(st, args[0])
    n = eng.term(st, args[1] if len(args) == 2 else kws["size"], INT)
    eng.obl(st, "safe:choice", And(n >= 0, Len(s) > 0))
    q = fresh("drawn", SEQ(ety))
    k = z3.Int("k!ch")
    st.pc += [Len(q) == n, FA(k, Imp(InR(k, q), Mem(s, At(q, k))), At(q, k))]
    return V(SEQ(ety), q)


BUILTINS["numpy.random.choice"] = b_choice


def b_round(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws:
        raise Unsupported("round options")
    x, r = eng.term(st, args[0], REAL), fresh("rounded", INT)
    st.pc += [2 * z3.ToReal(r) - 2 * x <= 1, 2 * x - 2 * z3.ToReal(r) <= 1]
    return V(INT, r)


def b_int(eng, st, args, kws, node, mod):
    if len(args) != 1 or kws or eng.tyof(args[0]).kind != "Int":
        raise Unsupported("int()")
    return args[0]


BUILTINS["round"], BUILTINS["int"] = b_round, b_int


# ------------------------------------------------------------------ permutation matrices
class Perm(Model):
    """row a has its 1 in column to(a) (inverse: back); transposed: the other way round"""
    what = "permutation matrix"

    def __init__(self, n, to, back):
        self.n, self.to, self.back = n, to, back

    def attr(self, eng, st, name):
        if name == "T":
            return model(Perm(self.n, self.back, self.to))
        if name == "dot":
            return PyObj("pyfn", lambda g, s, a, k: self.times(g, s, a[0]))
        raise Unsupported("." + name + " of a permutation matrix")

    def times(self, eng, st, v):
        if isinstance(v, PyObj):
            raise Unsupported("product")
        n, m, q = parts(eng, st, v)
        eng.obl(st, "safe:same shape", n == self.n)
        return matrix(eng, st, n, m, lambda r, i, j: at(r, i, j) == at(q, At(self.to, i), j))

    def binop(self, eng, st, op, a, b):
        if op != "MatMult":
            raise Unsupported("arithmetic on a permutation matrix")
        if isinstance(a, PyObj) and a.a[0] is self:
            return self.times(eng, st, b)
        return m_dot(eng, st, a, b)


def m_dot(eng, st, a, b):
    if not (isinstance(b, PyObj) and b.kind == "model" and isinstance(b.a[0], Perm)):
        raise Unsupported("product")
    p = b.a[0]
    n, m, q = parts(eng, st, a)
    eng.obl(st, "safe:same shape", m == p.n)
    return matrix(eng, st, n, m, lambda r, i, j: at(r, i, j) == at(q, i, At(p.back, j)))


HOOKS[("Matrix", "dot")] = lambda eng, st, b: PyObj("pyfn", lambda g, s, a, k: m_dot(g, s, b, a[0]))


class Eye(Perm):
    pass


def b_eye(eng, st, args, kws, node, mod):
    n, m = size(eng, st, args if len(args) == 2 else args * 2)
    eng.obl(st, "safe:square", n == m)
    q = fresh("id", IS)
    st.pc += [Len(q) == n, FA(_i, Imp(InR(_i, q), At(q, _i) == _i), At(q, _i))]
    return model(Eye(n, q, q))


def b_permutation(eng, st, args, kws, node, mod):
    """the rows in any order"""
    if len(args) != 1 or kws or not (isinstance(args[0], PyObj) and args[0].kind == "model" and isinstance(args[0].a[0], Eye)):
        raise Unsupported("permutation")
    n = args[0].a[0].n
    p, q = fresh("to", IS), fresh("back", IS)
    ok = And(0 <= _i, _i < n)
    st.pc += [Len(p) == n, Len(q) == n] + [FA(_i, Imp(ok, And(0 <= At(x, _i), At(x, _i) < n, At(y, At(x, _i)) == _i)), At(x, _i)) for x, y in ((p, q), (q, p))]
    return model(Perm(n, p, q))


BUILTINS["numpy.eye"], BUILTINS["numpy.identity"], BUILTINS["numpy.random.permutation"] = b_eye, b_eye, b_permutation


def b_structure_model(eng, st, args, kws, node, mod):
    """edges are the entries that are not zero"""
    if kws or len(args) != 1:
        raise Unsupported("StructureModel options")
    n, m, q = parts(eng, st, args[0])
    eng.obl(st, "safe:square", n == m)
    r, wt, ns = new_obj(eng, st, "IntGraph"), fresh("weights", CELLS), fresh("nodes", SET(INT))
    e = MkPair(IE, _i, _j)
    st.pc += [FA([_i, _j], And(Has(wt, e) == And(within(_i, _j, n, n), at(q, _i, _j) != 0), Imp(Has(wt, e), Get(wt, e) == at(q, _i, _j))), Has(wt, e), Get(wt, e)),
              FA(_i, ns[_i] == And(0 <= _i, _i < n), ns[_i])]
    setf(eng, st, r, W, wt)
    setf(eng, st, r, N, ns)
    return V(GRAPH, r)


BUILTINS["StructureModel"] = b_structure_model


# ------------------------------------------------------------------ the contract
KINDS = ("erdos-renyi", "barabasi-albert", "full")


def absv(x):
    return If(x < 0, -x, x)


def refused(c):
    return Or(c.a["num_nodes"] < 2, absv(c.a["w_min"]) > absv(c.a["w_max"]), And(*[c.a["graph_type"] != StrC(k) for k in KINDS]))


def ens(c):
    n, w, ns, lo, hi = c.a["num_nodes"], c.n[W][c.res], c.n[N][c.res], absv(c.a["w_min"]), absv(c.a["w_max"])
    e, b = MkPair(IE, _i, _j), MkPair(IE, _j, _i)
    rank = z3.Const("rank!ge", sort(IS))
    x = Get(w, e)
    return [("new-graph", And(c.res != null, c.fresh_ref(c.res))),
            ("nodes", FA(_i, ns[_i] == And(0 <= _i, _i < n), ns[_i])),
            ("edges-between-nodes", FA([_i, _j], Imp(Has(w, e), within(_i, _j, n, n)), Has(w, e))),
            ("acyclic", EX(rank, And(Len(rank) == n, FA([_i, _j], Imp(Has(w, e), At(rank, _j) < At(rank, _i)), Has(w, e))))),
            ("weights", FA([_i, _j], Imp(Has(w, e), And(x != 0, lo <= absv(x), absv(x) <= hi)), Has(w, e))),
            ("full", FA([_i, _j], Imp(And(c.a["graph_type"] == StrC("full"), lo > 0, within(_i, _j, n, n), _i != _j), Or(Has(w, e), Has(w, b))), Has(w, e)))]


def flags_loop(inner):
    def inv(lp):
        r, bag = lp.v("edge_flags"), lp.v("bag")
        q, n, x = lp.n[CEL][r], lp.a["num_nodes"], z3.Const("x!ge", Ref)
        i = lp.v("i") if inner else lp.i + 1
        return [("flags", And(r == lp.e("edge_flags"), r != null, lp.fresh_ref(r))),
                ("below-diagonal", FA([_i, _j], Imp(And(within(_i, _j, n, n), at(q, _i, _j) != 0), _j < _i), at(q, _i, _j)))] + \
               ([] if inner else [("bag-not-empty", Len(bag) > 0), ("bag-of-earlier-nodes", FA(_i, Imp(Mem(bag, _i), And(0 <= _i, _i < i)), Mem(bag, _i)))]) + \
               [("old-matrices", FA(x, Imp(lp.old_ref(x), lp.n[CEL][x] == lp.o[CEL][x]), lp.n[CEL][x]))]
    return LoopSpec(inv)


C["generate_structure"] = Contract(
    "generate_structure", props=["C22"], params={"num_nodes": INT, "degree": REAL, "graph_type": STR, "w_min": REAL, "w_max": REAL}, ret=GRAPH, allocates=True,
    requires=lambda c: [("degree", c.a["degree"] >= 0)], raises=[("ValueError", refused)], ensures=ens, loops=[flags_loop(False), flags_loop(True)])
