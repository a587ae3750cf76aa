"""Types, z3 sorts and axiomatised theories used by the verification-condition generator.

Python values are modelled as: int -> Int, bool -> Bool, float -> Real (mathematical reals: an
assumption listed in the evidence), str -> an uninterpreted, totally ordered sort Str, domain values
-> an uninterpreted sort Val, objects -> Ref, list/tuple of homogeneous type -> Seq (axiomatised),
set -> array to Bool, dict -> (domain array, value array), fixed tuples -> datatypes.
"""
import z3

# ---------------------------------------------------------------- types


class T:
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        if not self.args:
            return self.kind
        return "%s[%s]" % (self.kind, ",".join(map(repr, self.args)))


class TVar:
    n = 0

    def __init__(self):
        self.ref = None
        TVar.n += 1
        self.id = TVar.n

    def __repr__(self):
        return "?%d" % self.id if self.ref is None else repr(self.ref)


INT, BOOL, REAL, STR, VAL, NONE, TEXT = (T(k) for k in ("Int", "Bool", "Real", "Str", "Val", "None", "Text"))


def REF(cls):
    return T("Ref", cls)


def SEQ(t):
    return T("Seq", t)


def SET(t):
    return T("Set", t)


def DICT(k, v, default=None):
    t = T("Dict", k, v)
    t.default = default
    return t


def PAIR(*ts):
    return T("Pair", *ts)


def OPT(t):
    return T("Opt", t)


def prune(t):
    while isinstance(t, TVar) and t.ref is not None:
        t = t.ref
    return t


class TypeClash(Exception):
    pass


def is_ground(t):
    t = prune(t)
    if isinstance(t, TVar):
        return False
    return all(is_ground(a) for a in t.args if isinstance(a, (T, TVar)))


def unify(a, b):
    """a is the expected/declared type; b is the type of the value. Numeric widening Int->Real on b."""
    if isinstance(a, TVar):
        last = a
        while isinstance(last.ref, TVar):
            last = last.ref
        if last.ref is INT and prune(b) is REAL:
            last.ref = REAL  # numeric widening of an inferred element type
            return
    if isinstance(b, TVar):
        last = b
        while isinstance(last.ref, TVar):
            last = last.ref
        if last.ref is INT and prune(a) is REAL:
            last.ref = REAL
            return
    a, b = prune(a), prune(b)
    if a is b:
        return
    if isinstance(a, TVar):
        a.ref = b
        return
    if isinstance(b, TVar):
        b.ref = a
        return
    if a.kind == b.kind:
        if a.kind == "Ref":
            return
        if len(a.args) != len(b.args):
            raise TypeClash("%r vs %r" % (a, b))
        for x, y in zip(a.args, b.args):
            unify(x, y)
        return
    if {a.kind, b.kind} <= {"Int", "Bool"} or (a.kind == "Real" and b.kind in ("Int", "Bool")):
        return
    if a.kind == "Opt":
        return unify(a.args[0], b)
    if a.kind == "Val" or b.kind == "Val":
        return
    raise TypeClash("%r vs %r" % (a, b))


# ---------------------------------------------------------------- sorts

Ref = z3.DeclareSort("Ref")
Str = z3.DeclareSort("Str")
Val = z3.DeclareSort("Val")
null = z3.Const("null", Ref)

_sorts = {}
_pairs = {}
_dicts = {}
_opts = {}
_seqs = {}  # sort name -> SeqTh


def skey(t):
    t = prune(t)
    if isinstance(t, TVar):
        raise TypeClash("unresolved type")
    if t.kind == "Ref":
        return "Ref"
    if t.kind == "Pair" and len(t.args) == 0:
        return "Unit"
    if not t.args:
        return t.kind
    return t.kind + "".join("_" + skey(a) for a in t.args) + "_"


def sort(t):
    t = prune(t)
    k = skey(t)
    if k in _sorts:
        return _sorts[k]
    if t.kind == "Int":
        s = z3.IntSort()
    elif t.kind == "Bool":
        s = z3.BoolSort()
    elif t.kind == "Real":
        s = z3.RealSort()
    elif t.kind in ("Str", "Text"):
        s = Str
    elif t.kind in ("Val",):
        s = Val
    elif t.kind == "Ref":
        s = Ref
    elif t.kind == "Seq":
        es = sort(t.args[0])
        s = z3.DeclareSort(k)
        _seqs[k] = SeqTh(k, s, es, t.args[0])
    elif t.kind == "Set":
        s = z3.ArraySort(sort(t.args[0]), z3.BoolSort())
    elif t.kind == "Dict":
        ks, vs = sort(t.args[0]), sort(t.args[1])
        d = z3.Datatype(k)
        d.declare("mk" + k, ("dom" + k, z3.ArraySort(ks, z3.BoolSort())), ("val" + k, z3.ArraySort(ks, vs)))
        s = d.create()
        _dicts[k] = s
    elif t.kind == "Pair":
        d = z3.Datatype(k)
        d.declare("mk" + k, *[("p%d%s" % (i, k), sort(a)) for i, a in enumerate(t.args)])
        s = d.create()
        _pairs[k] = s
    elif t.kind == "Opt":
        d = z3.Datatype(k)
        d.declare("none" + k)
        d.declare("some" + k, ("the" + k, sort(t.args[0])))
        s = d.create()
        _opts[k] = s
    else:
        raise TypeClash("no sort for %r" % (t,))
    _sorts[k] = s
    return s


AXIOMS = []  # (trigger-decl-names frozenset, formula, name)


def _decls(e, acc, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            for i in range(x.num_patterns()):
                todo.append(x.pattern(i))
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() != "pattern":
                acc.add(x.decl().name())
            todo.extend(x.children())
    return acc


def decls(*es):
    acc, seen = set(), set()
    for e in es:
        _decls(e, acc, seen)
    return acc


_axids = set()


def axiom(name, formula, triggers=None):
    """Register an axiom; it is added to a query when, for one of its patterns, all the uninterpreted
    symbols of that pattern occur in the query."""
    if name in _axids:
        return
    _axids.add(name)
    trigs = []
    if triggers is not None:
        trigs = [frozenset(triggers)]
    elif z3.is_quantifier(formula):
        for i in range(formula.num_patterns()):
            trigs.append(frozenset(decls(formula.pattern(i))))
    if not trigs:
        trigs = [frozenset(decls(formula))]
    AXIOMS.append((trigs, formula, name))


def first_ite(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return t
    for x in t.children():
        r = first_ite(x)
        if r is not None:
            return r
    return None


def noite(p, depth=0):
    """a pattern that mentions a conditional term becomes the patterns of its branches"""
    for t in p:
        c = first_ite(t) if z3.is_app(t) else None
        if c is not None:
            if depth == 3:
                return []
            a, b = c.children()[1:]
            return noite(tuple(z3.substitute(x, (c, a)) for x in p), depth + 1) + noite(tuple(z3.substitute(x, (c, b)) for x in p), depth + 1)
    return [p]


def FA(vs, body, *pats):
    """forall with explicit patterns; a pattern is a term or a tuple of terms"""
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    alts = []
    for p in pats:
        alts += [q for q in noite(p if isinstance(p, tuple) else (p,)) if not any(len(q) == len(r) and all(x.eq(y) for x, y in zip(q, r)) for r in alts)]
    ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in alts]
    if ps:
        try:
            return z3.ForAll(list(vs), body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), body)


def EX(vs, body):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.Exists(list(vs), body)


def And(*a):
    a = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
    if not a:
        return z3.BoolVal(False)
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    if isinstance(a, bool):
        return z3.BoolVal(not a)
    return z3.Not(a)


def Imp(a, b):
    if a is True:
        return b
    return z3.Implies(a, b)


Iff = lambda a, b: a == b
If = z3.If


class SeqTh:
    def __init__(self, name, s, es, ety):
        self.name, self.s, self.es, self.ety = name, s, es, ety
        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda n, *a: z3.Function(n + "." + name, *a)
        self.len = F("len", s, I)
        self.at = F("at", s, I, es)
        self.mem = F("mem", s, es, B)
        self.idx = F("idx", s, es, I)
        self.empty = z3.Const("empty." + name, s)
        self.app = F("app", s, es, s)
        self.cat = F("cat", s, s, s)
        self.rem = F("rem", s, es, s)
        self.take = F("take", s, I, s)
        self.drop = F("drop", s, I, s)
        self.distinct = F("distinct", s, B)
        self.seqeq = F("seqeq", s, s, B)
        self.di = F("dsk1", s, I)
        self.dj = F("dsk2", s, I)
        self.eqsk = F("eqsk", s, s, I)
        self.toset = F("toset", s, z3.ArraySort(es, B))
        self.srt = F("srt", s, s)
        self.srtset = F("srtset", z3.ArraySort(es, B), s)
        a, b, c = z3.Consts("a!s b!s c!s", s)
        x, y = z3.Consts("x!e y!e", es)
        i, j = z3.Ints("i! j!")
        N = name
        AX = lambda n, f, t=None: axiom(N + "." + n, f, t)
        AX("len_nonneg", FA(a, self.len(a) >= 0, self.len(a)))
        AX("at_mem", FA([a, i], Imp(And(0 <= i, i < self.len(a)), self.mem(a, self.at(a, i))), self.at(a, i)))
        AX("mem_idx", FA([a, x], Imp(self.mem(a, x), And(0 <= self.idx(a, x), self.idx(a, x) < self.len(a), self.at(a, self.idx(a, x)) == x)), self.mem(a, x)))
        AX("idx_first", FA([a, x, j], Imp(And(0 <= j, j < self.idx(a, x), self.mem(a, x)), self.at(a, j) != x), (self.idx(a, x), self.at(a, j))))
        AX("empty_len", self.len(self.empty) == 0, ["empty." + N])
        AX("empty_mem", FA(x, Not(self.mem(self.empty, x)), self.mem(self.empty, x)))
        AX("empty_distinct", self.distinct(self.empty), ["empty." + N, "distinct." + N])
        AX("len0_empty", FA(a, Imp(self.len(a) == 0, a == self.empty), self.len(a)), ["empty." + N])
        AX("app_len", FA([a, x], And(self.len(self.app(a, x)) == self.len(a) + 1, self.at(self.app(a, x), self.len(a)) == x), self.app(a, x)))
        AX("app_at", FA([a, x, i], self.at(self.app(a, x), i) == If(i == self.len(a), x, self.at(a, i)), self.at(self.app(a, x), i)))
        AX("app_at2", FA([a, x, i], Imp(And(0 <= i, i < self.len(a)), self.at(self.app(a, x), i) == self.at(a, i)), (self.app(a, x), self.at(a, i))))
        AX("app_mem", FA([a, x, y], self.mem(self.app(a, x), y) == Or(self.mem(a, y), y == x), self.mem(self.app(a, x), y)))
        AX("app_mem2", FA([a, x], self.mem(self.app(a, x), x), self.app(a, x)))
        AX("app_mem3", FA([a, x, y], Imp(self.mem(a, y), self.mem(self.app(a, x), y)), (self.app(a, x), self.mem(a, y))))
        AX("app_distinct", FA([a, x], self.distinct(self.app(a, x)) == And(self.distinct(a), Not(self.mem(a, x))), self.distinct(self.app(a, x))))
        AX("cat_len", FA([a, b], self.len(self.cat(a, b)) == self.len(a) + self.len(b), self.cat(a, b)))
        AX("cat_at", FA([a, b, i], self.at(self.cat(a, b), i) == If(i < self.len(a), self.at(a, i), self.at(b, i - self.len(a))), self.at(self.cat(a, b), i)))
        AX("cat_at2", FA([a, b, i], Imp(And(0 <= i, i < self.len(a)), self.at(self.cat(a, b), i) == self.at(a, i)), (self.cat(a, b), self.at(a, i))))
        AX("cat_at3", FA([a, b, i], Imp(And(0 <= i, i < self.len(b)), self.at(self.cat(a, b), i + self.len(a)) == self.at(b, i)), (self.cat(a, b), self.at(b, i))))
        AX("cat_mem", FA([a, b, y], self.mem(self.cat(a, b), y) == Or(self.mem(a, y), self.mem(b, y)), self.mem(self.cat(a, b), y)))
        AX("rem_len", FA([a, x], Imp(self.mem(a, x), self.len(self.rem(a, x)) == self.len(a) - 1), self.rem(a, x)))
        AX("rem_mem", FA([a, x, y], And(Imp(self.mem(self.rem(a, x), y), self.mem(a, y)), Imp(y != x, self.mem(self.rem(a, x), y) == self.mem(a, y))), self.mem(self.rem(a, x), y)))
        AX("rem_mem2", FA([a, x, y], Imp(And(y != x, self.mem(a, y)), self.mem(self.rem(a, x), y)), (self.rem(a, x), self.mem(a, y))))
        AX("rem_at", FA([a, x, i], Imp(self.mem(a, x), self.at(self.rem(a, x), i) == If(i < self.idx(a, x), self.at(a, i), self.at(a, i + 1))), self.at(self.rem(a, x), i)))
        AX("rem_distinct", FA([a, x], Imp(self.distinct(a), And(self.distinct(self.rem(a, x)), Not(self.mem(self.rem(a, x), x)))), (self.rem(a, x), self.distinct(a))))
        AX("take_len", FA([a, i], Imp(And(0 <= i, i <= self.len(a)), self.len(self.take(a, i)) == i), self.take(a, i)))
        AX("take_at", FA([a, i, j], Imp(And(0 <= j, j < i, i <= self.len(a)), self.at(self.take(a, i), j) == self.at(a, j)), self.at(self.take(a, i), j)))
        AX("take_at2", FA([a, i, j], Imp(And(0 <= j, j < i, i <= self.len(a)), self.at(self.take(a, i), j) == self.at(a, j)), (self.take(a, i), self.at(a, j))))
        AX("drop_len", FA([a, i], Imp(And(0 <= i, i <= self.len(a)), self.len(self.drop(a, i)) == self.len(a) - i), self.drop(a, i)))
        AX("drop_at", FA([a, i, j], Imp(And(0 <= j, 0 <= i, i + j < self.len(a)), self.at(self.drop(a, i), j) == self.at(a, i + j)), self.at(self.drop(a, i), j)))
        AX("drop_at2", FA([a, i, j], Imp(And(0 <= i, i <= j, j < self.len(a)), self.at(self.drop(a, i), j - i) == self.at(a, j)), (self.drop(a, i), self.at(a, j))))
        AX("distinct_idx", FA([a, i], Imp(And(self.distinct(a), 0 <= i, i < self.len(a)), self.idx(a, self.at(a, i)) == i), (self.distinct(a), self.at(a, i))))
        AX("distinct_def", FA(a, Or(self.distinct(a), And(0 <= self.di(a), self.di(a) < self.dj(a), self.dj(a) < self.len(a), self.at(a, self.di(a)) == self.at(a, self.dj(a)))), self.distinct(a)))
        k = self.eqsk(a, b)
        AX("seqeq", FA([a, b], And(Imp(self.seqeq(a, b), a == b), Or(self.seqeq(a, b), self.len(a) != self.len(b), And(0 <= k, k < self.len(a), self.at(a, k) != self.at(b, k)))), self.seqeq(a, b)))
        AX("toset", FA([a, x], self.toset(a)[x] == self.mem(a, x), self.toset(a)[x]))
        AX("toset2", FA([a, x], self.toset(a)[x] == self.mem(a, x), (self.toset(a), self.mem(a, x))))
        S = z3.Const("S!s", z3.ArraySort(es, B))
        AX("srtset_mem", FA([S, x], self.mem(self.srtset(S), x) == S[x], self.mem(self.srtset(S), x)))
        AX("srtset_distinct", FA(S, self.distinct(self.srtset(S)), self.srtset(S)), ["srtset." + N, "distinct." + N])
        AX("srtset_len", FA(S, self.len(self.srtset(S)) == card(es)(S), self.len(self.srtset(S))), ["srtset." + N, "card.%s" % es])
        AX("srt_distinct", FA(a, Imp(self.distinct(a), self.srt(a) == self.srtset(self.toset(a))), self.srt(a)))
        AX("srt_len", FA(a, self.len(self.srt(a)) == self.len(a), self.srt(a)))
        AX("srt_mem", FA([a, x], self.mem(self.srt(a), x) == self.mem(a, x), self.mem(self.srt(a), x)))
        AX("srt_mem2", FA([a, x], self.mem(self.srt(a), x) == self.mem(a, x), (self.srt(a), self.mem(a, x))))
        AX("srt_toset", FA(a, self.toset(self.srt(a)) == self.toset(a), self.srt(a)), ["srt." + N, "toset." + N])
        AX("srtset_toset", FA(S, self.toset(self.srtset(S)) == S, self.srtset(S)), ["srtset." + N, "toset." + N])
        AX("srt_idem", FA(S, self.srt(self.srtset(S)) == self.srtset(S), self.srt(self.srtset(S))))
        lt = strict_lt(es)
        if lt is not None:
            AX("srtset_order", FA([S, i, j], Imp(And(0 <= i, i < j, j < self.len(self.srtset(S))), lt(self.at(self.srtset(S), i), self.at(self.srtset(S), j))), (self.at(self.srtset(S), i), self.at(self.srtset(S), j))))
            AX("srt_order", FA([a, i, j], Imp(And(0 <= i, i < j, j < self.len(self.srt(a))), Not(lt(self.at(self.srt(a), j), self.at(self.srt(a), i)))), (self.at(self.srt(a), i), self.at(self.srt(a), j))))


_str_le = z3.Function("str_lt", Str, Str, z3.BoolSort())


def strict_lt(es):
    if es == Str or es == Val:  # values that are sorted are taken to be mutually comparable
        p = "str" if es == Str else "val"
        le = _str_le if es == Str else z3.Function("val_lt", Val, Val, z3.BoolSort())
        a, b, c = z3.Consts("a!st b!st c!st", es)
        axiom(p + "_lt_irr", FA(a, Not(le(a, a)), le(a, a)))
        axiom(p + "_lt_trans", FA([a, b, c], Imp(And(le(a, b), le(b, c)), le(a, c)), (le(a, b), le(b, c))))
        axiom(p + "_lt_total", FA([a, b], Or(le(a, b), le(b, a), a == b), le(a, b)))
        return le
    if es == z3.IntSort() or es == z3.RealSort():
        return lambda a, b: a < b
    return None


_cards = {}


def card(es):
    k = str(es)
    if k not in _cards:
        A = z3.ArraySort(es, z3.BoolSort())
        f = z3.Function("card." + k, A, z3.IntSort())
        _cards[k] = f
        S = z3.Const("S!c", A)
        x = z3.Const("x!c", es)
        n = "card." + k
        axiom(n + "nonneg", FA(S, f(S) >= 0, f(S)))
        axiom(n + "empty", f(z3.K(es, z3.BoolVal(False))) == 0)
        axiom(n + "zero", FA([S, x], Imp(S[x], f(S) > 0), (f(S), S[x])))
        axiom(n + "store", FA([S, x], f(z3.Store(S, x, True)) == f(S) + If(S[x], 0, 1), f(z3.Store(S, x, True))))
        axiom(n + "del", FA([S, x], f(z3.Store(S, x, False)) == f(S) - If(S[x], 1, 0), f(z3.Store(S, x, False))))
    return _cards[k]


def th(x):
    """Sequence theory of a term, sort or type."""
    if isinstance(x, (T, TVar)):
        sort(x)
        return _seqs[skey(x)]
    if isinstance(x, z3.SortRef):
        return _seqs[x.name()]
    return _seqs[x.sort().name()]


# ---- convenience over terms
def Len(s):
    return th(s).len(s)


def At(s, i):
    return th(s).at(s, i)


def Mem(s, x):
    if isinstance(s.sort(), z3.ArraySortRef):
        return s[x]
    return th(s).mem(s, x)


def Idx(s, x):
    return th(s).idx(s, x)


def App(s, x):
    return th(s).app(s, x)


def Cat(s, t):
    return th(s).cat(s, t)


def Distinct(s):
    return th(s).distinct(s)


def SeqEq(a, b):
    return th(a).seqeq(a, b)


def ToSet(s):
    return th(s).toset(s)


def SrtSet(S):
    es = S.sort().domain()
    for q in _seqs.values():
        if q.es == es:
            return q.srtset(S)
    raise TypeClash("srtset")


def InR(i, s):
    return And(0 <= i, i < Len(s))


def Dom(d):
    k = d.sort().name()
    return _dicts[k].accessor(0, 0)(d)


def Vals(d):
    k = d.sort().name()
    return _dicts[k].accessor(0, 1)(d)


def Has(d, k):
    return z3.Select(Dom(d), k)


def Get(d, k):
    return z3.Select(Vals(d), k)


def MkDict(t, dom, val):
    return sort(t).constructor(0)(dom, val)


def DStore(d, k, v):
    s = d.sort()
    return _dicts[s.name()].constructor(0)(z3.Store(Dom(d), k, True), z3.Store(Vals(d), k, v))


def DDel(d, k):
    s = d.sort()
    return _dicts[s.name()].constructor(0)(z3.Store(Dom(d), k, False), Vals(d))


def P(pair, i):
    return pair.sort().accessor(0, i)(pair)


def MkPair(t, *xs):
    return sort(t).constructor(0)(*xs)


def EmptySet(es):
    return z3.K(es, z3.BoolVal(False))


def enumerates(q, S):
    """q lists every element of the set S exactly once"""
    return z3.Function("enumerates." + q.sort().name(), q.sort(), S.sort(), z3.BoolSort())(q, S)


_setops = {}


def setop(name, es):
    key = name + "." + str(es)
    if key not in _setops:
        A = z3.ArraySort(es, z3.BoolSort())
        f = z3.Function(key, A, A, A)
        a, b = z3.Consts("a!u b!u", A)
        x = z3.Const("x!u", es)
        body = {"union": Or(a[x], b[x]), "inter": And(a[x], b[x]), "diff": And(a[x], Not(b[x]))}[name]
        axiom(key, FA([a, b, x], f(a, b)[x] == body, f(a, b)[x]))
        if name == "union":
            axiom(key + "2", FA([a, b, x], Imp(Or(a[x], b[x]), f(a, b)[x]), (f(a, b), a[x]), (f(a, b), b[x])))
        if name == "inter":
            axiom(key + "2", FA([a, b, x], f(a, b)[x] == body, (f(a, b), a[x]), (f(a, b), b[x])))
        if name == "diff":
            axiom(key + "2", FA([a, b, x], f(a, b)[x] == body, (f(a, b), a[x])))
        _setops[key] = f
    return _setops[key]


def Inter(a, b):
    return setop("inter", a.sort().domain())(a, b)


def Union(a, b):
    return setop("union", a.sort().domain())(a, b)


def Diff(a, b):
    return setop("diff", a.sort().domain())(a, b)


# ---- strings
_strs = {}


def text_atoms(t):
    """the pieces of a concatenation; literals are cut after each line"""
    if z3.is_app(t) and t.decl().name() == "str_cat":
        return text_atoms(t.arg(0)) + text_atoms(t.arg(1))
    for text, c in _strs.items():
        if z3.eq(c, t):
            return [l for l in text.splitlines(True)]
    return [t]


def TextAdd(t, *pieces):
    """text t followed by the pieces; a line's literals that meet are joined, so it does not matter how a text is cut into writes"""
    atoms = []
    for p in pieces:
        atoms += text_atoms(StrC(p) if isinstance(p, str) else p)
    i = 0
    while i < len(atoms):
        a = atoms[i]
        while isinstance(a, str) and not a.endswith("\n") and i + 1 < len(atoms) and isinstance(atoms[i + 1], str):
            i += 1
            a += atoms[i]
        t = str_cat(t, StrC(a) if isinstance(a, str) else a)
        i += 1
    return t


def StrC(text):
    if text not in _strs:
        name = "".join(ch if ch.isascii() and (ch.isalnum() or ch == "_") else "%%%x." % ord(ch) for ch in text)
        _strs[text] = z3.Const("str!" + name, Str)
    return _strs[text]


str_cat = z3.Function("str_cat", Str, Str, Str)
_s = z3.Consts("s!1 s!2 s!3", Str)
axiom("str_cat_injr", FA(_s, Imp(str_cat(_s[0], _s[1]) == str_cat(_s[0], _s[2]), _s[1] == _s[2]), (str_cat(_s[0], _s[1]), str_cat(_s[0], _s[2]))))
val_true, val_false = z3.Consts("val!True val!False", Val)
axiom("val_tf", val_true != val_false)
_valc = {"True": val_true, "False": val_false}


def ValC(o):
    k = repr(o)
    if k not in _valc:
        _valc[k] = z3.Const("val!" + k, Val)
    return _valc[k]


birth = z3.Function("birth", Ref, z3.IntSort())
clsof = z3.Function("clsof", Ref, z3.IntSort())


_ctr = [0]


def fresh(name, t):
    _ctr[0] += 1
    s = t if isinstance(t, z3.SortRef) else sort(t)
    return z3.Const("%s!%d" % (name, _ctr[0]), s)


def fresh_fun(name, *sorts):
    _ctr[0] += 1
    return z3.Function("%s!%d" % (name, _ctr[0]), *[s if isinstance(s, z3.SortRef) else sort(s) for s in sorts])


def relevant_axioms(formulas, without=()):
    """Axioms one of whose patterns only mentions symbols occurring in the query (fixpoint)."""
    have = set()
    seen = set()
    for f in formulas:
        _decls(f, have, seen)
    out, used = [], set()
    changed = True
    while changed:
        changed = False
        for n, (trigs, f, name) in enumerate(AXIOMS):
            if n in used or name in without:
                continue
            if any(t <= have for t in trigs):
                used.add(n)
                out.append(f)
                _decls(f, have, seen)
                changed = True
    strs = [c for t, c in _strs.items() if c.decl().name() in have]
    if len(strs) > 1:
        out.append(z3.Distinct(*strs))
    vals = [c for t, c in _valc.items() if c.decl().name() in have]
    if len(vals) > 1:
        out.append(z3.Distinct(*vals))
    return out


# ---- subsets and cardinalities
_subs = {}


def Subset(a, b):
    """a is included in b (a predicate with a Skolem witness, so that it can be proved and used)"""
    es = a.sort().domain()
    k = str(es)
    if k not in _subs:
        A = a.sort()
        f = z3.Function("subset." + k, A, A, z3.BoolSort())
        w = z3.Function("subset.w." + k, A, A, es)
        p, q = z3.Consts("p!ss q!ss", A)
        x = z3.Const("x!ss", es)
        c = card(es)
        axiom("subset.use." + k, FA([p, q, x], Imp(And(f(p, q), p[x]), q[x]), (f(p, q), p[x]), (f(p, q), q[x])))
        axiom("subset.def." + k, FA([p, q], Or(f(p, q), And(p[w(p, q)], Not(q[w(p, q)]))), f(p, q)))
        pw = z3.Function("subset.pw." + k, A, A, es)
        axiom("subset.proper." + k, FA([p, q], Imp(f(p, q), Or(p == q, And(q[pw(p, q)], Not(p[pw(p, q)])))), f(p, q)))
        axiom("subset.card." + k, FA([p, q], Imp(f(p, q), And(c(p) <= c(q), Imp(c(p) >= c(q), p == q))), f(p, q)), ["subset." + k, "card." + k])
        _subs[k] = f
    return _subs[k](a, b)


def Card(a):
    return card(a.sort().domain())(a)


# ---- sequences of pairs sorted by their first component
_sp = {}


class sorted_pairs:
    """functions on sequences of pairs: sp (sorted), firsts (set of first components), distf (first components distinct)"""

    def __init__(self, pt, seqt):
        n = skey(seqt)
        S = sort(seqt)
        ft = sort(pt.args[0])
        A = z3.ArraySort(ft, z3.BoolSort())
        self.sp = z3.Function("sortpairs." + n, S, S)
        self.firsts = z3.Function("firsts." + n, S, A)
        self.distf = z3.Function("distinctfirsts." + n, S, z3.BoolSort())
        w = z3.Function("firsts.w." + n, S, ft, z3.IntSort())
        d1, d2 = z3.Function("distf.i." + n, S, z3.IntSort()), z3.Function("distf.j." + n, S, z3.IntSort())
        q, y, i, j, x = z3.Const("q!sp", S), z3.Const("y!sp", ft), z3.Int("i!sp"), z3.Int("j!sp"), z3.Const("x!sp", sort(pt))
        r = self.sp(q)
        F = lambda t: P(t, 0)
        names = ["sortpairs." + n]
        axiom("sp.len." + n, FA(q, Len(r) == Len(q), r))
        axiom("sp.mem." + n, FA([q, x], Mem(r, x) == Mem(q, x), Mem(r, x), (r, Mem(q, x))))
        axiom("firsts.in." + n, FA([q, i], Imp(InR(i, q), self.firsts(q)[F(At(q, i))]), (self.firsts(q), At(q, i))))
        axiom("firsts.out." + n, FA([q, y], Imp(self.firsts(q)[y], And(InR(w(q, y), q), F(At(q, w(q, y))) == y)), self.firsts(q)[y]))
        axiom("distf.use." + n, FA([q, i, j], Imp(And(self.distf(q), InR(i, q), InR(j, q), F(At(q, i)) == F(At(q, j))), i == j), (self.distf(q), At(q, i), At(q, j))))
        axiom("distf.def." + n, FA(q, Or(self.distf(q), And(InR(d1(q), q), InR(d2(q), q), d1(q) != d2(q), F(At(q, d1(q))) == F(At(q, d2(q))))), self.distf(q)))
        if strict_lt(ft) is not None:
            # distinct first components: sorting the pairs sorts the first components
            s = SrtSet(self.firsts(q))
            axiom("sp.order." + n, FA([q, i], Imp(And(self.distf(q), InR(i, q)), F(At(r, i)) == At(s, i)), At(r, i)))
            axiom("sp.order2." + n, FA([q], Imp(self.distf(q), Len(s) == Len(q)), (r, self.distf(q))))


def sortpairs(pt, seqt):
    k = skey(seqt)
    if k not in _sp:
        _sp[k] = sorted_pairs(pt, seqt)
    return _sp[k]


# ------------------------------------------------------------------ products of unknown integers, positions in a table
IMUL = z3.Function("imul", z3.IntSort(), z3.IntSort(), z3.IntSort())
IX = z3.Function("ix", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # row, column, width -> position
_a, _b, _c, _d = z3.Ints("a!im b!im c!im d!im")
axiom("imul.pos", FA([_a, _b], Imp(And(0 <= _a, 0 <= _b), 0 <= IMUL(_a, _b)), IMUL(_a, _b)))
axiom("imul.zero", FA([_a, _b], Imp(Or(_a == 0, _b == 0), IMUL(_a, _b) == 0), IMUL(_a, _b)))
IXR, IXC = z3.Function("ix.row", z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function("ix.col", z3.IntSort(), z3.IntSort(), z3.IntSort())
axiom("ix.inj", FA([_a, _b, _c], Imp(And(0 <= _a, 0 <= _b, _b < _c), And(IXR(IX(_a, _b, _c), _c) == _a, IXC(IX(_a, _b, _c), _c) == _b)), IX(_a, _b, _c)))
axiom("ix.range", FA([_a, _b, _c, _d], Imp(And(0 <= _a, _a < _d, 0 <= _b, _b < _c), And(0 <= IX(_a, _b, _c), IX(_a, _b, _c) < IMUL(_d, _c))), (IX(_a, _b, _c), IMUL(_d, _c))))
