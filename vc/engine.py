"""Verification-condition generator for a subset of Python.

The functions are read from the real source on every run (ast of /repo's files); contracts are sidecar
objects (see contracts_*.py). A function is executed symbolically path by path; loops are cut by their
invariants; calls to functions under contract use the contract only; calls to functions without contract
are inlined; everything else must be in the table of built-ins below or the function is reported as
outside the subset (Unsupported), never silently approved.
"""
import ast
import fnmatch
import os
import re
import z3
from theory import *
import theory as TH


class Unsupported(Exception):
    pass


class Unbound(Exception):
    """A loop invariant mentions a local that the current source does not have."""

    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


# ------------------------------------------------------------------ program

class Program:
    frozen = frozenset()

    def __init__(self, root, modules, fields, bases=None, frozen=()):
        """modules: {short name: path relative to root}"""
        self.root = root
        self.frozen = frozenset(frozen)
        self.fields = fields
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.missing = []
        self.extra_bases = bases or {}
        self.modsrc = {}
        self.modof = {}
        for m, p in modules.items():
            src = open(os.path.join(root, p), encoding="utf-8").read()
            self.modsrc[m] = src
            tree = ast.parse(src)
            g = self.globals.setdefault(m, {})
            for st in tree.body:
                self._top(m, g, st)
        self.clsids = {}

    def _top(self, m, g, st):
        if isinstance(st, ast.FunctionDef):
            self.funcs[st.name] = (st, m, None)
            g[st.name] = ("func", st.name)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = (st, m, [ast.unparse(b) for b in st.bases])
            g[st.name] = ("class", st.name)
            for b in st.body:
                if isinstance(b, ast.FunctionDef):
                    nm = st.name + "." + b.name
                    if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in b.decorator_list):
                        nm += "@setter"
                    self.funcs[nm] = (b, m, st.name)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                g[a.asname or a.name] = ("from", st.module, a.name)
        elif isinstance(st, ast.Import):
            for a in st.names:
                g[a.asname or a.name.split(".")[0]] = ("module", a.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            g[st.targets[0].id] = ("const", st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._top(m, g, s)

    def bases(self, c):
        out = []
        if c in self.classes:
            out += self.classes[c][2]
        out += self.extra_bases.get(c, [])
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def classconst(self, c, name):
        """the literal that a class attribute is bound to, where no code of the module rebinds or edits it"""
        for k in self.mro(c):
            if k not in self.classes:
                continue
            for b in self.classes[k][0].body:
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == name:
                    if not all(isinstance(n, (ast.Constant, ast.Set, ast.Tuple, ast.Load)) for n in ast.walk(b.value)):
                        return None
                    for n in ast.walk(ast.parse(self.modsrc[self.classes[k][1]])):
                        if isinstance(n, ast.Attribute) and (n.attr == name and not isinstance(n.ctx, ast.Load) or isinstance(n.value, ast.Attribute) and n.value.attr == name):
                            return None
                    return b.value
        return None

    def subclasses(self, c):
        return [k for k in list(self.classes) + list(self.extra_bases) if k != c and c in self.mro(k)]

    def clsid(self, c):
        return self.clsids.setdefault(c, len(self.clsids) + 1)

    def field(self, c, f):
        for k in self.mro(c):
            d = self.fields.get(k, {})
            if f in d:
                t = d[f]
                if isinstance(t, str) and t.startswith("@"):
                    kk, ff = t[1:].split(".")
                    return t[1:], self.fields[kk][ff]
                return k + "." + f, t
        return None

    def ftype(self, key):
        k, f = key.split(".", 1)
        t = self.fields[k][f]
        if isinstance(t, str) and t.startswith("@"):
            return self.ftype(t[1:])
        return t

    def method(self, c, name):
        for k in self.mro(c):
            if k + "." + name in self.funcs:
                return k + "." + name
        return None


# ------------------------------------------------------------------ values

class V:
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class H:
    """handle on a mutable container. loc: ('cell', id) | ('field', ref, key) | ('elem', H, keyterm)"""
    __slots__ = ("ty", "loc", "borrowed", "lit")

    def __init__(self, ty, loc, borrowed=False):
        self.ty, self.loc, self.borrowed = ty, loc, borrowed
        self.lit = None  # (elements, term) of a list display


class PyTuple:
    def __init__(self, items):
        self.items = items


class PyNone:
    pass


class PyObj:
    """python-level object known statically: function, class, module, closure, bound method, builtin"""

    def __init__(self, kind, *a, **k):
        self.kind, self.a, self.k = kind, a, k


NONEV = PyNone()


class Model:
    """behaviour of a library object, given by assumed contracts. Methods (all optional): attr(eng, st, name),
    call(eng, st, args, kws), getitem(eng, st, idx), setitem(eng, st, idx, v), iterate(eng, st) -> (type, seq),
    contains(eng, st, x), length(eng, st), truth(eng, st)"""
    what = "library object"


def model(m):
    return PyObj("model", m)


def is_model(v, meth):
    return isinstance(v, PyObj) and v.kind == "model" and hasattr(v.a[0], meth)


class Cell:
    __slots__ = ("ty", "t", "fwd")

    def __init__(self, ty, t, fwd=None):
        self.ty, self.t, self.fwd = ty, t, fwd


class State:
    def __init__(self):
        self.env = {}
        self.cells = {}
        self.heap = {}
        self.now = None
        self.pc = []
        self.maybe = {}  # local name -> Bool term: is it defined
        self.ghost = {}

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.cells = {k: Cell(c.ty, c.t, c.fwd) for k, c in self.cells.items()}
        s.heap = dict(self.heap)
        s.now = self.now
        s.pc = list(self.pc)
        s.maybe = dict(self.maybe)
        s.ghost = dict(self.ghost)
        return s

    def become(self, o):
        self.env, self.cells, self.heap, self.now, self.pc, self.maybe, self.ghost = o.env, o.cells, o.heap, o.now, o.pc, o.maybe, o.ghost


class Obl:
    def __init__(self, func, label, pc, goal):
        self.func, self.label, self.pc, self.goal = func, label, pc, goal

    def name(self):
        return "%s:%s" % (self.func, self.label)


# ------------------------------------------------------------------ contracts

def has(l, *pats):
    return any(fnmatch.fnmatchcase(l, p) for p in pats)


def keeps(*pats, bare=False):
    """keeps the hypotheses with these labels (a final * matches any ending); bare: and those without label"""
    return lambda l: (bare and l == "") or has(l, *pats)


class LoopSpec:
    """inv: the invariant; body: hypothesis labels (predicate) the body may use; exit: stages (facts proved when
    the loop ends, hypothesis labels (predicate) kept from then on). Dropping hypotheses is always sound."""

    def __init__(self, inv=None, decreases=None, note=None, body=None, exit=None):
        self.inv = inv or (lambda lp: [])
        self.decreases = decreases
        self.body, self.exit = body, exit


class Contract:
    """requires/ensures: functions of a Ctx returning [(label, formula)].
    modifies: list of (field key, fn(ctx, ref)->Bool) ; mutates: params whose container content changes;
    moves: {param: fn(ctx)->(ref term, field key)}; raises: [(exception, fn(ctx)->Bool)]"""

    def __init__(self, name, params=None, ret=None, requires=None, ensures=None, modifies=(), mutates=(),
                 moves=None, raises=(), loops=(), locals=None, allocates=False, trusted=False, variants=None,
                 ghost=None, lemmas=None, ret_borrowed=False, retcls=None, decreases=None, props=(), ghosts=None, ghost_calls=None, kwparams=(), defaults=None, note="", focus=(), result_call=None, cuts=None, without=(), changed_by_refusal=()):
        self.changed_by_refusal = set(changed_by_refusal)  # fields that may already have changed when it raises (no caller under contract)
        self.result_call = result_call  # {args: type, ret: type, pre, val: fn(c, args[, res]) -> labelled, ev: fn(ref, args)}: what calling the returned function gives
        self.focus = list(focus)  # [(pattern of obligation labels, predicate on hypothesis labels)]: the others are dropped
        self.defaults = defaults or {}
        self.note = note
        self.kwparams = kwparams  # specification parameters passed through **kwargs
        self.name = name
        self.params = params or {}
        self.ret = ret
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = list(modifies)
        self.mutates = set(mutates)
        self.moves = moves or {}
        self.raises = list(raises)
        self.loops = list(loops)
        self.locals = locals or {}
        self.allocates = allocates
        self.trusted = trusted
        self.variants = variants
        self.ghost = ghost
        self.lemmas = lemmas or (lambda c: [])
        self.ret_borrowed = ret_borrowed
        self.decreases = decreases
        self.props = set(props)
        self.ghosts = ghosts or {}          # name -> sort: universally quantified specification parameters
        self.without = without  # axioms its obligations do without
        self.cuts = cuts or {}  # callee -> fn(Ctx at the call) -> [(label, intermediate fact)], proved before the call
        self.ghost_calls = ghost_calls or {}  # callee -> fn(Ctx at the call) -> {ghost: term}


class HeapView:
    def __init__(self, eng, heap):
        self.eng, self.heap = eng, heap

    def __getitem__(self, key):
        if key not in self.heap:
            self.heap[key] = self.eng.field0(key)
        return self.heap[key]


def define_array(st, ksort, vsort, fn, hint="arr"):
    """a fresh array equal to the function fn (definition by comprehension)"""
    a = fresh(hint, z3.ArraySort(ksort, vsort))
    x = z3.Const("x!def", ksort)
    st.pc.append(FA(x, a[x] == fn(x), a[x]))
    return a


class Ctx:
    def __init__(self, eng, a, o, n, now0, now, res=None, st=None):
        self.eng, self.a, self.res, self.now0, self.now = eng, a, res, now0, now
        self.o, self.n, self.st = HeapView(eng, o), HeapView(eng, n), st
        self.closure = None
        self.af = {}
        cc = getattr(eng, "callctx", None)
        if cc is not None:
            self.call_args, self.call_ghost = cc.call_args, cc.call_ghost

    def after(self, name):
        return self.af[name]

    def fresh_ref(self, r):
        return And(birth(r) >= self.now0, birth(r) < self.now)

    def old_ref(self, r):
        return birth(r) < self.now0


class LoopCtx(Ctx):
    def v(self, name):
        return self.eng.local_term(self.st, name)

    def e(self, name):
        return self.eng.local_term(self.entry, name)

    def has(self, name):
        return self.eng.rename.get(name, name) in self.st.env

    def defd(self, name):
        nm = self.eng.rename.get(name, name)
        if nm in self.st.env:
            m = self.st.maybe.get(nm)
            return m if m is not None else z3.BoolVal(True)
        return z3.BoolVal(False)


# ------------------------------------------------------------------ engine

class Raised(Exception):
    """Definite raise inside an expression."""

    def __init__(self, exc):
        self.exc = exc


class Retype(Exception):
    pass


class NotYet(Exception):
    def __init__(self, ty):
        self.ty = ty


def lift_functions(t, fs, i):
    """functions made for one element of a comprehension become functions of its index too"""
    done = {}

    def go(x):
        if x.get_id() in done:
            return done[x.get_id()][1]
        if z3.is_quantifier(x):
            vs = [fresh("v", x.var_sort(k)) for k in range(x.num_vars())]
            inst = lambda b: z3.substitute_vars(b, *reversed(vs))
            ps = [z3.MultiPattern(*[go(inst(a)) for a in x.pattern(k).children()]) for k in range(x.num_patterns())]
            if not x.is_forall() and not x.is_exists():
                raise Unsupported("lambda in a comprehension")
            r = (z3.ForAll if x.is_forall() else z3.Exists)(vs, go(inst(x.body())), patterns=ps)
        elif z3.is_app(x) and x.num_args():
            a = [go(y) for y in x.children()]
            f = fs.get(x.decl().name())
            r = f(i, *a) if f is not None else x.decl()(*a)
        else:
            r = x
        done[x.get_id()] = (x, r)
        return r
    return go(t)


class Engine:
    MAXPATHS = 400

    def __init__(self, prog, contracts, builtins=None, ghosts=None, int_real_div=True):
        self.prog, self.contracts = prog, contracts
        self.obls = []
        self.dry = 0
        self.site_types = {}
        self.builtins = builtins or {}
        self.h0 = {}
        self.cellctr = 0
        self.shared_elems = set()
        self.itercache = {}
        self.seqinfo = {}
        self.rename = {}
        self.dropped = set()
        self.inlined = set()
        self.called = set()
        self.trusted_used = set()

    # ---------- heap
    def field0(self, key):
        if key not in self.h0:
            t = self.prog.ftype(key)
            self.h0[key] = z3.Const("H0." + key, z3.ArraySort(Ref, sort(t)))
        return self.h0[key]

    def hget(self, st, key):
        if key not in st.heap:
            st.heap[key] = self.field0(key)
        return st.heap[key]

    def wf_field(self, key, arr, now):
        """Python references only refer to allocated objects."""
        t = prune(self.prog.ftype(key))
        x = z3.Const("x!wf", Ref)
        i = z3.Int("i!wf")
        body = None
        if t.kind == "Ref":
            f = FA(x, Imp(birth(x) < now, birth(arr[x]) < now), arr[x])
            return [f]
        if t.kind in ("Seq", "Set") and prune(t.args[0]).kind == "Ref":
            y = z3.Const("y!wf", Ref)
            m = Mem(arr[x], y)
            return [FA([x, y], Imp(And(birth(x) < now, m), birth(y) < now), m)]
        if t.kind == "Dict" and prune(t.args[1]).kind == "Ref":
            k = z3.Const("k!wf", sort(t.args[0]))
            g = Get(arr[x], k)
            return [FA([x, k], Imp(And(birth(x) < now, Has(arr[x], k)), birth(g) < now), g)]
        return []

    def newcell(self, st, ty, term, borrowed=False):
        self.cellctr += 1
        st.cells[self.cellctr] = Cell(ty, term)
        return H(ty, ("cell", self.cellctr), borrowed)

    def resolve(self, st, h):
        loc = h.loc
        while loc[0] == "cell" and st.cells[loc[1]].fwd is not None:
            loc = st.cells[loc[1]].fwd
        return loc

    def read(self, st, h):
        loc = self.resolve(st, h)
        if loc[0] == "cell":
            c = st.cells[loc[1]]
            if c.t is None:
                if not is_ground(c.ty):
                    raise Unsupported("container of unknown element type")
                c.t = self.empty_of(c.ty) if not self.dry else fresh("dry", c.ty)
            return c.t
        if loc[0] == "field":
            return self.hget(st, loc[2])[loc[1]]
        if loc[0] == "elem":
            pt = prune(loc[1].ty)
            par = self.read(st, loc[1])
            return Get(par, loc[2]) if pt.kind == "Dict" else At(par, loc[2])
        raise Unsupported("loc")

    def write(self, st, h, term):
        if h.borrowed:
            raise Unsupported("mutation of a borrowed container")
        loc = self.resolve(st, h)
        if loc[0] == "field" and loc[2] in self.prog.frozen:
            self.obl(st, "ownership:mutation of %s, which may be shared" % loc[2], z3.BoolVal(False))
        if self.frozen_elem(st, loc) or (loc[0] == "elem" and skey(h.ty) in self.shared_elems):
            self.obl(st, "ownership:mutation of an element, which may be shared", z3.BoolVal(False))
        self.log(loc)
        if loc[0] != "elem":
            term = self.named(st, term)
        if loc[0] == "cell":
            st.cells[loc[1]].t = term
        elif loc[0] == "field":
            st.heap[loc[2]] = self.named(st, z3.Store(self.hget(st, loc[2]), loc[1], term), "H." + loc[2])
        elif loc[0] == "elem":
            par = self.read(st, loc[1])
            if prune(loc[1].ty).kind != "Dict":
                raise Unsupported("nested list element mutation")
            self.write(st, loc[1], DStore(par, loc[2], term))
        else:
            raise Unsupported("loc")

    def no_shared(self, st, ty, what):
        ty = prune(ty)
        if self.shared_elems and ty.kind in ("Dict", "Seq") and any(skey(a) in self.shared_elems for a in ty.args):
            self.obl(st, "ownership:shared elements reach %s" % what, z3.BoolVal(False))

    def frozen_elem(self, st, loc):
        """is this inside an element of a field declared "Class.field[]" frozen (its elements are never mutated, so may be shared)"""
        while loc is not None and loc[0] == "elem":
            loc = self.resolve(st, loc[1])
            if loc[0] == "field" and loc[2] + "[]" in self.prog.frozen:
                return True
        return False

    def named(self, st, t, hint="n"):
        """a constant equal to t (keeps quantifier patterns free of interpreted structure)"""
        if z3.is_app(t) and t.num_args() == 0:
            return t
        c = fresh(hint, t.sort())
        st.pc.append(c == t)
        return c

    def log(self, loc):
        for w in self.wlogs:
            if loc[0] == "cell":
                w["cells"].add(loc[1])
            elif loc[0] == "field":
                w["fields"].add(loc[2])
            elif loc[0] == "elem":
                pass  # parent write logs

    wlogs = ()

    def empty_of(self, ty):
        ty = prune(ty)
        if ty.kind == "Seq":
            return th(ty).empty
        if ty.kind == "Set":
            return EmptySet(sort(ty.args[0]))
        if ty.kind == "Dict":
            ks, vs = sort(ty.args[0]), sort(ty.args[1])
            return MkDict(ty, EmptySet(ks), fresh("junk", z3.ArraySort(ks, vs)))
        raise Unsupported("empty of %r" % ty)

    # ---------- values
    def tyof(self, v):
        if isinstance(v, (V, H)):
            return prune(v.ty)
        if isinstance(v, PyTuple) and not v.items:
            return getattr(self, "empty_tuple", None) or SEQ(TVar())
        if isinstance(v, PyTuple):
            return PAIR(*[self.tyof(x) for x in v.items])
        if isinstance(v, PyNone):
            return NONE
        if isinstance(v, PyObj) and v.kind == "closure":
            return REF("function")
        raise Unsupported("type of %s" % getattr(v, "kind", v))

    def term(self, st, v, ty=None):
        """z3 term of a value, coerced to type ty if given."""
        if ty is not None:
            ty = prune(ty)
            if isinstance(ty, TVar):
                unify(ty, self.tyof(v))
                ty = prune(ty)
        if isinstance(v, PyNone):
            if ty is not None and ty.kind == "Ref":
                return null
            if ty is not None and ty.kind == "Opt":
                return sort(ty).constructor(0)()
            raise Unsupported("None as %r" % ty)
        if ty is not None and ty.kind == "Opt":
            if self.tyof(v).kind == "Opt":
                a, b = prune(self.tyof(v).args[0]), prune(ty.args[0])
                if is_ground(a) and is_ground(b) and skey(a) != skey(b) and a.kind == b.kind == "Seq":
                    # an empty list has every element type
                    x, so = self.term(st, v), sort(self.tyof(v))
                    self.obl(st, "safe:empty list of another type", Or(so.recognizer(0)(x), Len(so.accessor(1, 0)(x)) == 0))
                    return If(so.recognizer(0)(x), sort(ty).constructor(0)(), sort(ty).constructor(1)(th(b).empty))
                return self.term(st, v)
            return sort(ty).constructor(1)(self.term(st, v, ty.args[0]))
        if isinstance(v, PyTuple):
            if ty is None:
                ty = self.tyof(v)
            if ty.kind == "Pair":
                if len(ty.args) != len(v.items):
                    raise Unsupported("tuple arity")
                return MkPair(ty, *[self.term(st, x, t) for x, t in zip(v.items, ty.args)])
            if ty.kind == "Seq":
                s = th(ty).empty
                for x in v.items:
                    s = App(s, self.term(st, x, ty.args[0]))
                return s
            if ty.kind == "Val":
                return self.box(self.term(st, v))
            raise Unsupported("tuple as %r" % ty)
        if isinstance(v, PyObj) and v.kind == "closure":
            return v.k["ref"]
        if isinstance(v, H):
            if ty is not None:
                if ty.kind == "Pair" and self.fixed(st, v) is not None:
                    return self.term(st, PyTuple(self.fixed(st, v)), ty)
                if ty.kind == "Val":
                    raise Unsupported("container as value")
                unify(ty, v.ty)
                if prune(v.ty).kind != ty.kind:
                    raise Unsupported("container coercion")
            return self.read(st, v)
        if isinstance(v, V):
            vt = prune(v.ty)
            if ty is not None and vt.kind == "Opt" and ty.kind != "Opt":
                return self.term(st, self.some(st, v), ty)
            if ty is None or ty.kind == vt.kind and ty.kind not in ("Pair",):
                return v.t
            if ty.kind == "Real" and vt.kind == "Int":
                return z3.ToReal(v.t)
            if ty.kind == "Real" and vt.kind == "Bool":
                return If(v.t, z3.RealVal(1), z3.RealVal(0))
            if ty.kind == "Int" and vt.kind == "Bool":
                return If(v.t, z3.IntVal(1), z3.IntVal(0))
            if ty.kind == "Pair" and vt.kind == "Pair":
                if skey(ty) == skey(vt):
                    return v.t
                return MkPair(ty, *[self.term(st, V(a, P(v.t, i)), b) for i, (a, b) in enumerate(zip(vt.args, ty.args))])
            if ty.kind == "Val":
                return self.box(v.t)
            if ty.kind == "Str" and vt.kind == "Ref":
                return z3.Function("str_of_ref", Ref, Str)(v.t)
            raise Unsupported("coerce %r to %r" % (vt, ty))
        raise Unsupported("value %r" % getattr(v, "kind", v))

    def box(self, t):
        if t.sort() == Val:
            return t
        if z3.is_true(t):
            return val_true
        if z3.is_false(t):
            return val_false
        s = t.sort()
        f = z3.Function("box." + s.name(), s, Val)
        u = z3.Function("unbox." + s.name(), Val, s)
        x = z3.Const("x!box", s)
        axiom("box." + s.name(), FA(x, u(f(x)) == x, f(x)))
        return f(t)

    def unbox(self, v, ty):
        """-> (content of v read as ty, v is of type ty)"""
        so = sort(ty)
        u = z3.Function("unbox." + so.name(), Val, so)
        self.box(u(v))
        return u(v), self.box(u(v)) == v

    def wrap(self, st, ty, t, parent=None, borrowed=False):
        """value of type ty from term t; containers become borrowed handles unless parent loc is given"""
        ty = prune(ty)
        if ty.kind in ("Seq", "Set", "Dict"):
            if parent is not None:
                return H(ty, parent, borrowed)
            h = self.newcell(st, ty, t)
            h.borrowed = True
            return h
        if ty.kind == "Ref":
            self.assume(st, birth(t) < st.now)
        return V(ty, t)

    def assume(self, st, f):
        if f is True or self.dry and False:
            return
        st.pc.append(f)

    def obl(self, st, label, goal, node=None):
        if self.dry:
            return
        if goal is True or z3.is_true(goal):
            # still counted: trivially discharged by the simplifier is avoided, keep for the record
            goal = z3.BoolVal(True)
        pc = list({f.get_id(): f for f in st.pc}.values())
        for pat, keep in self.con.focus:
            if re.fullmatch(pat, label):
                pc = [f for f in pc if self.labelled(f, keep)]
        same = [f for f in st.pc if f.eq(goal)]
        self.obls.append(Obl(self.cur, label, same[:1] or pc, goal))
        self.obls[-1].without = self.con.without
        self.tag("proved:" + label, same[0] if same else goal)
        if not same:
            st.pc.append(goal)

    tags = {}

    def assume_tag(self, st, label, f):
        self.assume(st, self.tag(label, f))

    def tag(self, label, f):
        self.tags.setdefault(f.get_id(), (set(), f))[0].add(label)
        return f

    def labelled(self, f, keep):
        return any(keep(l) for l in self.tags.get(f.get_id(), (("",),))[0])

    def restrict(self, st, keep):
        """drop the hypotheses whose label the predicate refuses"""
        st.pc[:] = [f for f in st.pc if self.labelled(f, keep)]

    def local_term(self, st, name):
        nm = self.rename.get(name, name)
        if nm not in st.env:
            raise Unbound(name)
        v = st.env[nm]
        if isinstance(v, (PyObj, PyNone)) and not (isinstance(v, PyObj) and v.kind == "closure"):
            if isinstance(v, PyNone):
                return null
            raise Unbound(name)
        ty = self.con.locals.get(name)
        if ty is not None:
            try:
                if isinstance(v, (V, H)) and skey(v.ty) != skey(ty):
                    if not (prune(v.ty).kind == "Int" and ty.kind == "Real"):
                        raise Unbound(name)
                return self.term(st, v, ty)
            except (TypeClash, Unsupported):
                raise Unbound(name)
        return self.term(st, v)

    # ---------- truthiness
    def truth(self, st, v):
        if isinstance(v, PyNone):
            return False
        if isinstance(v, PyTuple):
            return bool(v.items)
        if is_model(v, "truth"):
            return v.a[0].truth(self, st)
        if isinstance(v, PyObj):
            if v.kind == "model":
                raise Unsupported("truth of %s" % v.a[0].what)
            return True
        ty = self.tyof(v)
        if isinstance(ty, TVar):
            raise Unsupported("truth of unknown")
        if isinstance(v, H) and not is_ground(ty):
            return z3.Bool("dry!b") if self.dry else False
        t = self.term(st, v)
        if ty.kind == "Bool":
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            return t
        if ty.kind == "Int" or ty.kind == "Real":
            return t != 0
        if ty.kind == "Seq":
            return Len(t) > 0
        if ty.kind == "Set":
            return t != EmptySet(t.sort().domain())
        if ty.kind == "Dict":
            return Dom(t) != EmptySet(Dom(t).sort().domain())
        if ty.kind == "Ref":
            return t != null
        if ty.kind == "Str":
            return t != StrC("")
        if ty.kind == "Opt":
            so = sort(ty)
            r = self.truth(st, V(ty.args[0], so.accessor(1, 0)(t)))
            return And(so.recognizer(1)(t), z3.BoolVal(r) if isinstance(r, bool) else r)
        raise Unsupported("truth of %r" % ty)

    def elem_facts(self, st, ty, t):
        pass

    def some(self, st, v):
        """the value of an optional that must not be None here"""
        if isinstance(v, V) and prune(v.ty).kind == "Opt":
            so = sort(prune(v.ty))
            self.obl(st, "safe:not None", so.recognizer(1)(v.t))
            return V(prune(v.ty).args[0], so.accessor(1, 0)(v.t))
        return v

    # ---------- sequences from iterables
    def iter_seq(self, st, v):
        v = self.some(st, v)
        """-> (element type, Seq term) ; dict/set enumerations are fresh sequences"""
        if isinstance(v, PyObj) and v.kind == "iter":
            return v.k["ety"], v.k["seq"]
        if is_model(v, "iterate"):
            return v.a[0].iterate(self, st)
        if isinstance(v, PyTuple):
            tys = [self.tyof(x) for x in v.items]
            tv = TVar()
            for t in tys:
                unify(tv, t)
            ty = SEQ(tv if tys else VAL)
            return ty.args[0], self.term(st, v, ty)
        ty = self.tyof(v)
        if isinstance(ty, TVar) or not is_ground(ty):
            if self.dry:
                raise Unsupported("iteration over unknown type")
            raise Unsupported("iteration over unknown type")
        t = self.term(st, v)
        if ty.kind == "Seq":
            return ty.args[0], t
        if ty.kind == "Set":
            q = fresh("enum", SEQ(ty.args[0]))
            x = z3.Const("x!en", sort(ty.args[0]))
            self.assume(st, Distinct(q))
            self.assume(st, FA(x, Mem(q, x) == t[x], Mem(q, x), t[x]))
            self.assume(st, Len(q) == card(t.sort().domain())(t))
            self.assume(st, enumerates(q, t))
            return ty.args[0], q
        if ty.kind == "Dict":
            return ty.args[0], self.dkeys(st, ty, t)
        raise Unsupported("iteration over %r" % ty)

    def dkeys(self, st, ty, t):
        key = ("keys", t.get_id())
        if key not in self.itercache:
            q = fresh("keys", SEQ(ty.args[0]))
            x = z3.Const("x!en", sort(ty.args[0]))
            facts = [Distinct(q), FA(x, Mem(q, x) == Has(t, x), Mem(q, x), Has(t, x)), Len(q) == card(Dom(t).sort().domain())(Dom(t)), enumerates(q, Dom(t))]
            self.itercache[key] = (q, facts, t)
            self.seqinfo[q.get_id()] = (q, t, q)
        q, facts, _ = self.itercache[key]
        for f in facts:
            self.assume(st, f)
        return q

    def ditems(self, st, ty, t, which="items"):
        ks = self.dkeys(st, ty, t)
        if which == "keys":
            return ty.args[0], ks
        key = (which, t.get_id())
        ety = PAIR(ty.args[0], ty.args[1]) if which == "items" else ty.args[1]
        if key not in self.itercache:
            q = fresh(which, SEQ(ety))
            i = z3.Int("i!it")
            k = At(ks, i)
            e = MkPair(ety, k, Get(t, k)) if which == "items" else Get(t, k)
            facts = [Len(q) == Len(ks), FA(i, Imp(And(0 <= i, i < Len(ks)), At(q, i) == e), At(q, i), At(ks, i))]
            if which == "items":
                x = z3.Const("x!it", sort(ty.args[0]))
                facts.append(FA(x, Imp(Has(t, x), And(Mem(q, MkPair(ety, x, Get(t, x))), At(q, Idx(ks, x)) == MkPair(ety, x, Get(t, x)))), Has(t, x)))
            self.itercache[key] = (q, facts, t)
            self.seqinfo[q.get_id()] = (ks, t, q)
        q, facts, _ = self.itercache[key]
        for f in facts:
            self.assume(st, f)
        return ety, q

    def seq_value(self, st, ety, q, owned=True):
        return self.newcell(st, SEQ(ety), q)

    # ---------- names
    def lookup(self, st, name, mod):
        if name in st.env:
            m = st.maybe.get(name)
            if m is not None:
                self.obl(st, "defined:" + name, m)
            return st.env[name]
        g = self.prog.globals.get(mod, {}).get(name)
        if g is not None and name in self.values:
            return self.values[name](self, st)
        if g is not None:
            if g[0] == "func":
                return PyObj("func", g[1])
            if g[0] == "class":
                return PyObj("class", g[1])
            if g[0] == "from":
                if g[2] in self.prog.funcs:
                    return PyObj("func", g[2])
                if g[2] in self.prog.classes:
                    return PyObj("class", g[2])
                return PyObj("builtin", g[2])
            if g[0] == "module":
                return PyObj("module", g[1])
            if g[0] == "const":
                return self.ev(g[1], st, mod)
        if name in self.prog.classes:
            return PyObj("class", name)
        return PyObj("builtin", name)

    # ---------- expressions
    values = {}  # module-level names whose value is given by the area

    def ev(self, e, st, mod):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, mod)

    def ev_Constant(self, e, st, mod):
        v = e.value
        if v is None:
            return NONEV
        if v is True or v is False:
            return V(BOOL, z3.BoolVal(v))
        if isinstance(v, int):
            return V(INT, z3.IntVal(v))
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite constant")
            from fractions import Fraction
            f = Fraction(repr(v))
            return V(REAL, z3.RealVal(f))
        if isinstance(v, str):
            return V(STR, StrC(v))
        if v is Ellipsis:
            return NONEV
        raise Unsupported("constant %r" % (v,))

    def ev_Name(self, e, st, mod):
        return self.lookup(st, e.id, mod)

    def ev_Tuple(self, e, st, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred tuple")
        return PyTuple([self.ev(x, st, mod) for x in e.elts])

    def site(self, e, mk, tag=""):
        k = (id(e), tag, self.instance)
        if k not in self.site_types:
            self.site_types[k] = mk()
        return self.site_types[k]

    instance = ()

    def ev_List(self, e, st, mod):
        ty = self.site(e, lambda: SEQ(TVar()))
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items.append(("*", self.ev(x.value, st, mod)))
            else:
                items.append(("1", self.ev(x, st, mod)))
        kinds = {getattr(self.tyof(x), "kind", None) for k, x in items if k == "1" and not isinstance(x, PyNone)}
        if "Opt" in kinds and len(kinds) > 1:
            items = [(k, self.some(st, x) if k == "1" else x) for k, x in items]
        for k, x in items:
            t = self.tyof(x)
            if k == "1":
                try:
                    unify(ty.args[0], t)
                except TypeClash:
                    if all(k == "1" for k, _ in items):
                        return PyTuple([x for _, x in items])  # a list of fixed length with elements of different types: a record
                    raise
        if not items:
            return self.newcell(st, ty, None)
        s = th(ty).empty
        for k, x in items:
            if k == "1":
                s = App(s, self.term(st, x, ty.args[0]))
            else:
                ety, q = self.iter_seq(st, x)
                s = Cat(s, q)
        h = self.newcell(st, ty, s)
        if all(k == "1" for k, _ in items):
            h.lit = ([x for _, x in items], s)
        return h

    def fixed(self, st, v):
        """the elements of a value of known length, or None"""
        if isinstance(v, PyTuple):
            return v.items
        if isinstance(v, H) and v.lit is not None and is_ground(v.ty) and self.read(st, v).eq(v.lit[1]):
            return v.lit[0]
        if isinstance(v, V) and prune(v.ty).kind == "Pair":
            return [self.wrap(st, t, P(v.t, i)) for i, t in enumerate(prune(v.ty).args)]
        return None

    def ev_Set(self, e, st, mod):
        ty = self.site(e, lambda: SET(TVar()))
        items = [self.ev(x, st, mod) for x in e.elts]
        for x in items:
            unify(ty.args[0], self.tyof(x))
        s = EmptySet(sort(ty.args[0]))
        for x in items:
            s = z3.Store(s, self.term(st, x, ty.args[0]), True)
        return self.newcell(st, ty, s)

    def ev_Dict(self, e, st, mod):
        ty = self.site(e, lambda: DICT(TVar(), TVar()))
        h = self.newcell(st, ty, None)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st, mod)
                self.dict_update(st, h, src)
                continue
            kv, vv = self.ev(k, st, mod), self.ev(v, st, mod)
            unify(ty.args[0], self.tyof(kv))
            unify(ty.args[1], self.tyof(vv))
            cur = self.read(st, h)
            self.write(st, h, DStore(cur, self.term(st, kv, ty.args[0]), self.store_term(st, vv, ty.args[1], "dict literal")))
        return h

    def dict_update(self, st, h, src):
        src = self.some(st, src)
        sty = self.tyof(src)
        ty = prune(h.ty)
        if sty.kind != "Dict":
            raise Unsupported("dict update from %r" % sty)
        unify(ty, sty)
        a, b = self.read(st, h), self.term(st, src)
        r = fresh("upd", ty)
        k = z3.Const("k!u", sort(ty.args[0]))
        gb = Get(b, k)
        if gb.sort() != sort(ty.args[1]):
            if prune(ty.args[1]).kind != "Val":
                raise Unsupported("dict update of other value type")
            gb = self.box(gb)
        self.assume(st, FA(k, And(Has(r, k) == Or(Has(a, k), Has(b, k)), Get(r, k) == If(Has(b, k), gb, Get(a, k))), Has(r, k), Get(r, k), Has(b, k)))
        self.write(st, h, r)

    def ev_JoinedStr(self, e, st, mod):
        parts = []
        fmt = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                fmt += str(v.value)
            else:
                fmt += "{}"
                parts.append(self.ev(v.value, st, mod))
        plain = all(isinstance(v, ast.Constant) or (v.conversion in (-1, 115) and v.format_spec is None) for v in e.values)
        return self.format(st, "f" + fmt, parts, [v.value if isinstance(v, ast.Constant) else None for v in e.values] if plain else None)

    def format(self, st, fmt, parts, pieces=None):
        """pieces: the literal parts, None for each argument: with strings as arguments it is a concatenation"""
        if pieces is not None and ("Str", "pieces") in self.hooks:
            r = self.hooks[("Str", "pieces")](self, st, [c for c in pieces if c != ""], parts)
            if r is not None:
                return r
        if pieces is not None and parts and all(not isinstance(p, (PyObj, PyNone, PyTuple)) and prune(self.tyof(p)).kind == "Str" for p in parts):
            it = iter(parts)
            out = [self.term(st, next(it)) if c is None else StrC(c) for c in pieces if c != ""]
            t = out[0]
            for x in out[1:]:
                t = str_cat(t, x)
            return V(STR, t)
        ts = []
        for p in parts:
            try:
                ts.append(self.term(st, p))
            except (Unsupported, TypeClash):
                return V(STR, fresh("fmt", STR))
        f = z3.Function("fmt!%s!%s" % (fmt, "!".join(t.sort().name() for t in ts)), *[t.sort() for t in ts], Str)
        if not ts:
            return V(STR, StrC(fmt))
        return V(STR, f(*ts))

    def guarded(self, st, cond, fn):
        """evaluate fn under extra hypothesis; new facts are guarded by it"""
        n = len(st.pc)
        st.pc.append(cond)
        h0 = dict(st.heap)
        c0 = {k: c.t for k, c in st.cells.items()}
        r = fn()
        new = st.pc[n + 1:]
        st.pc[n:] = [Imp(cond, f) for f in new]
        for k, t in c0.items():
            c = st.cells[k]
            if c.fwd is None and t is not None and c.t is not None and not z3.eq(c.t, t):
                raise Unsupported("side effect in a conditional expression")
        for k, v in st.heap.items():
            if not z3.eq(h0.get(k, self.field0(k)), v):
                raise Unsupported("side effect in a conditional expression")
        return r

    def ev_BoolOp(self, e, st, mod):
        vals = []
        conj = isinstance(e.op, ast.And)

        def go(k):
            b = self.truth(st, self.ev(e.values[k], st, mod))
            if b is (not conj):
                return b  # short-circuit decided statically
            if k + 1 == len(e.values):
                return b
            if b is conj:
                return go(k + 1)
            rest = self.guarded(st, b if conj else Not(b), lambda: go(k + 1))
            if isinstance(rest, bool):
                rest = z3.BoolVal(rest)
            return And(b, rest) if conj else Or(b, rest)

        if not self.in_cond and len(e.values) == 2:
            # value of `a or b` (used as a default): only for booleans or Option-like
            a = self.ev(e.values[0], st, mod)
            if isinstance(a, PyNone):
                return NONEV if conj else self.ev(e.values[1], st, mod)
            ta = self.truth(st, a)
            if isinstance(ta, bool):
                if ta == conj:
                    return self.ev(e.values[1], st, mod)
                return a
            if self.tyof(a).kind == "Bool":
                b = self.guarded(st, ta if conj else Not(ta), lambda: self.ev(e.values[1], st, mod))
                if self.tyof(b).kind == "Bool":
                    tb = self.truth(st, b)
                    tb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
                    return V(BOOL, And(ta, tb) if conj else Or(ta, tb))
            b = self.guarded(st, ta if conj else Not(ta), lambda: self.ev(e.values[1], st, mod))
            return self.ite(st, ta, b, a) if conj else self.ite(st, ta, a, b)
        r = go(0)
        return V(BOOL, z3.BoolVal(r) if isinstance(r, bool) else r)

    in_cond = False

    def cond(self, e, st, mod):
        sv, self.in_cond = self.in_cond, True
        try:
            return self.truth(st, self.ev(e, st, mod))
        finally:
            self.in_cond = sv

    def ite(self, st, c, a, b):
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.items) == len(b.items):
            return PyTuple([self.ite(st, c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PyNone) and isinstance(b, PyNone):
            return a
        if isinstance(a, PyNone) or isinstance(b, PyNone):
            o = b if isinstance(a, PyNone) else a
            ty = self.tyof(o)
            ty = ty if ty.kind in ("Ref", "Opt") else OPT(ty)
            return V(ty, If(c, self.term(st, a, ty), self.term(st, b, ty)))
        ta, tb = self.tyof(a), self.tyof(b)
        if isinstance(ta, T) and isinstance(tb, T):
            if {ta.kind, tb.kind} == {"Int", "Real"}:
                ta = tb = REAL
            elif {ta.kind, tb.kind} == {"Int", "Bool"}:
                ta = tb = INT
            elif "Val" in (ta.kind, tb.kind):
                ta = tb = VAL
            elif ta.kind == "Opt" and tb.kind != "Opt":
                tb = ta
            elif tb.kind == "Opt" and ta.kind != "Opt":
                ta = tb
        unify(ta, tb)
        x, y = self.term(st, a, ta), self.term(st, b, ta)
        if isinstance(a, H) or isinstance(b, H):
            h = self.newcell(st, ta, If(c, x, y))
            h.borrowed = not (isinstance(a, H) and isinstance(b, H) and a.loc[0] == "cell" and b.loc[0] == "cell" and not a.borrowed and not b.borrowed)
            return h
        return V(ta, If(c, x, y))

    def ev_Slice(self, e, st, mod):
        return PyObj("slice", *[self.ev(x, st, mod) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def ev_IfExp(self, e, st, mod):
        c = self.cond(e.test, st, mod)
        if c is True:
            return self.ev(e.body, st, mod)
        if c is False:
            return self.ev(e.orelse, st, mod)
        a = self.guarded(st, c, lambda: self.ev(e.body, st, mod))
        b = self.guarded(st, Not(c), lambda: self.ev(e.orelse, st, mod))
        if isinstance(e.test, ast.Compare) and len(e.test.ops) == 1 and ast.unparse(e.test.comparators[0]) == "None":
            # the side that is taken where the value is not None
            if isinstance(e.test.ops[0], ast.Is) and ast.unparse(e.test.left) == ast.unparse(e.orelse) and isinstance(b, V):
                b = self.guarded(st, Not(c), lambda: self.some(st, b))
            if isinstance(e.test.ops[0], ast.IsNot) and ast.unparse(e.test.left) == ast.unparse(e.body) and isinstance(a, V):
                a = self.guarded(st, c, lambda: self.some(st, a))
        return self.ite(st, c, a, b)

    def ev_UnaryOp(self, e, st, mod):
        if isinstance(e.op, ast.Not):
            b = self.cond(e.operand, st, mod)
            return V(BOOL, z3.BoolVal(not b) if isinstance(b, bool) else z3.Not(b))
        v = self.ev(e.operand, st, mod)
        if isinstance(e.op, ast.USub):
            if self.tyof(v).kind not in ("Int", "Real"):
                raise Unsupported("negation")
            return V(self.tyof(v), -self.term(st, v))
        raise Unsupported("unary")

    def ev_Compare(self, e, st, mod):
        left = self.ev(e.left, st, mod)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, mod)
            c = self.compare(st, op, left, right)
            if isinstance(c, PyObj):
                if len(e.ops) > 1:
                    raise Unsupported("chained comparison of arrays")
                return c
            out.append(c)
            left = right
        if any(c is False for c in out):
            return V(BOOL, z3.BoolVal(False))
        out = [c for c in out if c is not True]
        return V(BOOL, And(*out) if out else z3.BoolVal(True))

    def eqterm(self, st, a, b):
        if isinstance(a, PyNone) or isinstance(b, PyNone):
            o = b if isinstance(a, PyNone) else a
            if isinstance(o, PyNone):
                return True
            if isinstance(o, (PyTuple, PyObj)):
                return False
            t = self.tyof(o)
            if t.kind == "Ref":
                return self.term(st, o) == null
            if t.kind == "Opt":
                return sort(t).recognizer(0)(self.term(st, o))
            return False
        if isinstance(a, PyObj) and isinstance(b, PyObj) and a.kind == b.kind and a.kind in ("func", "class"):
            return a.a == b.a
        if isinstance(a, PyTuple) and isinstance(b, PyTuple):
            if len(a.items) != len(b.items):
                return False
            cs = [self.eqterm(st, x, y) for x, y in zip(a.items, b.items)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return And(*cs) if cs else True
        ta, tb = self.tyof(a), self.tyof(b)
        if isinstance(ta, TVar) or isinstance(tb, TVar):
            unify(ta, tb)
            ta, tb = prune(ta), prune(tb)
        if ta.kind != "Opt" and tb.kind == "Opt":
            a, b, ta, tb = b, a, tb, ta
        if ta.kind == "Opt" and tb.kind == "Seq":
            so, x = sort(ta), self.term(st, a)
            return And(so.recognizer(1)(x), SeqEq(so.accessor(1, 0)(x), self.term(st, b, ta.args[0])))
        if ta.kind == "Opt" and tb.kind != "Opt":
            return self.term(st, a) == self.term(st, b, ta)
        if tb.kind == "Opt" and ta.kind != "Opt":
            return self.term(st, b) == self.term(st, a, tb)
        if {ta.kind, tb.kind} == {"Int", "Real"} or {ta.kind, tb.kind} == {"Bool", "Real"}:
            return self.term(st, a, REAL) == self.term(st, b, REAL)
        if {ta.kind, tb.kind} == {"Int", "Bool"}:
            return self.term(st, a, INT) == self.term(st, b, INT)
        if "Val" in (ta.kind, tb.kind):
            return self.term(st, a, VAL) == self.term(st, b, VAL)
        if ta.kind == "Seq" and tb.kind == "Seq":
            return SeqEq(self.term(st, a), self.term(st, b, ta))
        if ta.kind != tb.kind:
            raise Unsupported("comparison of %r and %r" % (ta, tb))
        if ta.kind == "Dict":
            x, y = self.term(st, a), self.term(st, b)
            k = z3.Const("k!eq", sort(ta.args[0]))
            return And(Dom(x) == Dom(y), FA(k, Imp(Has(x, k), Get(x, k) == Get(y, k)), Get(x, k)))
        return self.term(st, a) == self.term(st, b, ta)

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            h = self.ref_hook("==", *[self.tyof(x) for x in (a, b) if isinstance(x, V)])
            if h:
                return h(self, st, type(op).__name__, a, b)
        if not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            for x in (a, b):
                if is_model(x, "compare"):
                    return x.a[0].compare(self, st, type(op).__name__, a, b)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eqterm(st, a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            r = self.eqterm(st, a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        a, b = self.some(st, a), self.some(st, b)
        ta, tb = self.tyof(a), self.tyof(b)
        h = self.ref_hook("compare", ta, tb)
        if h:
            return h(self, st, type(op).__name__, a, b)
        if ta.kind in ("Int", "Real", "Bool") and tb.kind in ("Int", "Real", "Bool"):
            k = REAL if "Real" in (ta.kind, tb.kind) else INT
            x, y = self.term(st, a, k), self.term(st, b, k)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        if ta.kind == "Str" and tb.kind == "Str":
            lt = strict_lt(Str)
            x, y = self.term(st, a), self.term(st, b)
            return {ast.Lt: lambda: lt(x, y), ast.LtE: lambda: Not(lt(y, x)), ast.Gt: lambda: lt(y, x), ast.GtE: lambda: Not(lt(x, y))}[type(op)]()
        if ta.kind == "Set" and tb.kind == "Set":
            x, y = self.term(st, a), self.term(st, b)
            if isinstance(op, ast.LtE):
                return self.subset(x, y)
            if isinstance(op, ast.GtE):
                return self.subset(y, x)
        raise Unsupported("comparison %s of %r,%r" % (type(op).__name__, ta, tb))

    def ref_hook(self, what, *tys):
        for t in tys:
            if isinstance(t, T) and t.kind == "Ref":
                for k in self.prog.mro(t.args[0]):
                    if (k, what) in self.hooks:
                        return self.hooks[(k, what)]

    def subset(self, a, b):
        x = z3.Const("x!sub", a.sort().domain())
        return FA(x, Imp(a[x], b[x]), a[x], b[x])

    def contains(self, st, cont, x):
        cont = self.some(st, cont)
        if isinstance(cont, PyTuple):
            cs = [self.eqterm(st, x, y) for y in cont.items]
            if any(c is True for c in cs):
                return True
            cs = [c for c in cs if c is not False]
            return Or(*cs) if cs else False
        if is_model(cont, "contains"):
            return cont.a[0].contains(self, st, x)
        if isinstance(cont, PyObj) and cont.kind == "iter":
            return Mem(cont.k["seq"], self.term(st, x, cont.k["ety"]))
        ty = self.tyof(cont)
        if isinstance(ty, TVar):
            raise Unsupported("in unknown")
        if ty.kind == "Str" and ("Str", "contains") in self.hooks:
            return self.hooks[("Str", "contains")](self, st, cont, x)
        if ty.kind in ("Seq", "Set", "Dict"):
            if not is_ground(ty):
                unify(ty.args[0], self.tyof(x))
                if isinstance(cont, H) and self.dry:
                    return z3.Bool("dry!b")
                if not is_ground(ty):
                    if ty.kind == "Dict" and not self.dry:
                        return False
                    raise Unsupported("in unknown")
            t = self.term(st, cont)
            et = prune(ty.args[0])
            if et.kind != "Val" and not isinstance(x, (PyTuple, PyNone, PyObj)) and self.tyof(x).kind == "Val":
                # a value of unknown type in a container of a known type
                v = self.term(st, x)
                k, is_it = self.unbox(v, et)
                return And(Has(t, k) if ty.kind == "Dict" else Mem(t, k), is_it)
            if isinstance(x, PyNone) and et.kind not in ("Ref", "Opt"):
                return False
            if isinstance(x, V) and prune(x.ty).kind == "Opt" and et.kind not in ("Opt", "Val", "Ref"):
                so = x.t.sort()
                return And(Not(so.recognizer(0)(x.t)), self.contains(st, cont, V(prune(x.ty).args[0], so.accessor(1, 0)(x.t))))
            k = self.term(st, x, ty.args[0])
            if ty.kind == "Dict":
                return Has(t, k)
            return Mem(t, k)
        raise Unsupported("in %r" % ty)

    def ev_BinOp(self, e, st, mod):
        return self.binop(st, e.op, self.ev(e.left, st, mod), self.ev(e.right, st, mod), e)

    def binop(self, st, op, a, b, node=None):
        for x in (a, b):
            if is_model(x, "binop"):
                return x.a[0].binop(self, st, type(op).__name__, a, b)
        a, b = self.some(st, a), self.some(st, b)
        if isinstance(op, ast.Mod) and not isinstance(a, (PyTuple, PyObj, PyNone)) and self.tyof(a).kind == "Str":
            parts = b.items if isinstance(b, PyTuple) else [b]
            lit = next((s for s, c in TH._strs.items() if z3.eq(c, self.term(st, a))), None)
            if lit is not None and "%" not in lit.replace("%s", "") and lit.count("%s") == len(parts):
                cut = lit.split("%s")
                return self.format(st, "%" + str(self.term(st, a)), parts, [x for i, c in enumerate(cut) for x in ([c] if i + 1 == len(cut) else [c, None])])
            return self.format(st, "%" + str(self.term(st, a)), parts)
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and isinstance(op, ast.Add):
            return PyTuple(a.items + b.items)
        if isinstance(a, PyTuple) and isinstance(op, ast.Mult) and isinstance(b, V) and z3.is_int_value(b.t):
            return PyTuple(a.items * b.t.as_long())
        if isinstance(op, ast.Add) and (isinstance(a, PyTuple) or isinstance(a, V) and prune(a.ty).kind == "Pair"):
            fa, fb = self.fixed(st, a), self.fixed(st, b)
            if fa is not None and fb is not None:
                return PyTuple(fa + fb)
        ta, tb = self.tyof(a), self.tyof(b)
        if isinstance(ta, TVar) or isinstance(tb, TVar):
            raise Unsupported("arithmetic on unknown type")
        h = self.ref_hook("binop", ta, tb)
        if h:
            return h(self, st, type(op).__name__, a, b)
        if isinstance(a, PyTuple) and tb.kind == "Seq":
            a = V(tb, self.term(st, a, tb)); ta = tb
        if isinstance(b, PyTuple) and ta.kind == "Seq":
            b = V(ta, self.term(st, b, ta)); tb = ta
        num = ("Int", "Real", "Bool")
        if ta.kind in num and tb.kind in num:
            k = REAL if "Real" in (ta.kind, tb.kind) or isinstance(op, ast.Div) else INT
            x, y = self.term(st, a, k), self.term(st, b, k)
            if isinstance(op, ast.Add):
                return V(k, x + y)
            if isinstance(op, ast.Sub):
                return V(k, x - y)
            if isinstance(op, ast.Mult):
                if k is INT and not any(z3.is_int_value(z3.simplify(t)) for t in (x, y)):
                    return V(k, mul_term(x, y))
                return V(k, x * y)
            if isinstance(op, ast.Div):
                self.obl(st, "safe:division", y != 0)
                return V(REAL, x / y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and k is INT:
                self.obl(st, "safe:division", y != 0)
                if z3.is_int_value(y) and y.as_long() > 0:
                    return V(INT, x / y if isinstance(op, ast.FloorDiv) else x % y)
                r = z3.Function("pyfloordiv" if isinstance(op, ast.FloorDiv) else "pymod", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
                return V(INT, r)
            if isinstance(op, ast.Pow) and k is INT and z3.is_int_value(y) and y.as_long() == 2:
                return V(INT, mul_term(x, x))
            if isinstance(op, ast.Pow) and k is INT:
                return V(INT, z3.Function("ipow", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y))
            raise Unsupported("arithmetic")
        if ta.kind == "Str" and tb.kind == "Str" and isinstance(op, ast.Add):
            return V(STR, str_cat(self.term(st, a), self.term(st, b)))
        if isinstance(op, ast.Mult) and {ta.kind, tb.kind} == {"Seq", "Int"}:
            q, n = (a, b) if ta.kind == "Seq" else (b, a)
            n = z3.simplify(self.term(st, n))
            qt = self.tyof(q)
            if not is_ground(qt):
                return self.newcell(st, qt, None)
            if z3.is_int_value(n) and 0 <= n.as_long() <= 8:
                t = self.term(st, q)
                r = th(qt).empty if n.as_long() == 0 else t
                for _ in range(n.as_long() - 1):
                    r = Cat(r, t)
                return self.newcell(st, qt, r)
            raise Unsupported("repetition")
        if ta.kind == "Seq" and tb.kind == "Seq" and isinstance(op, ast.Add):
            unify(ta, tb)
            if not is_ground(ta):
                return self.newcell(st, ta, None)
            return self.newcell(st, ta, Cat(self.term(st, a), self.term(st, b)))
        if ta.kind == "Set" and tb.kind == "Set":
            unify(ta, tb)
            x, y = self.term(st, a), self.term(st, b)
            f = {ast.BitOr: Union, ast.BitAnd: Inter, ast.Sub: Diff}.get(type(op))
            if f:
                return self.newcell(st, ta, f(x, y))
        raise Unsupported("binop %s on %r,%r" % (type(op).__name__, ta, tb))

    # ---------- attribute
    def ev_Attribute(self, e, st, mod):
        base = self.ev(e.value, st, mod)
        return self.attr(st, base, e.attr, mod, e)

    hooks = {}

    def attr(self, st, base, name, mod, node):
        if isinstance(base, PyObj):
            if is_model(base, "attr"):
                r = base.a[0].attr(self, st, name)
                if r is None:
                    raise Unsupported("attribute %s of %s" % (name, base.a[0].what))
                return r
            if base.kind == "module":
                if base.a[0] + "." + name in self.values:
                    return self.values[base.a[0] + "." + name](self, st)
                return PyObj("builtin", base.a[0] + "." + name)
            if base.kind == "class":
                q = self.prog.method(base.a[0], name)
                if q:
                    return PyObj("func", q)
                k = self.prog.classconst(base.a[0], name)
                if k is not None:
                    return self.ev(k, st, mod)
                return PyObj("builtin", base.a[0] + "." + name)
            if base.kind == "builtin":
                return PyObj("builtin", base.a[0] + "." + name)
            if base.kind == "record" and name in base.k:
                return base.k[name]
            if base.kind == "kwdict" and name == "get":
                return PyObj("kwget", base)
            if base.kind == "super":
                q = self.prog.method(base.a[0], name)
                if q is None:
                    for k in self.prog.mro(base.a[0]):
                        if k + "." + name in self.contracts:
                            q = k + "." + name
                            break
                if q is None and name != "__init__":
                    raise Unsupported("super().%s" % name)
                return PyObj("bound", q or "object." + name, base.a[1])
            if base.kind == "closure":
                key, ty = self.prog.field("function", name)
                return self.field_value(st, base.k["ref"], key, ty)
            raise Unsupported("attribute %s of %s" % (name, base.kind))
        ty = self.tyof(base)
        if isinstance(ty, TVar):
            raise Unsupported("attribute of unknown type")
        if ty.kind == "Ref":
            r = self.term(st, base)
            c = ty.args[0]
            q = self.prog.method(c, name)
            if q is None:
                for k in self.prog.mro(c):
                    if (k, name) in self.hooks:
                        return self.hooks[(k, name)](self, st, base)
                    if k + "." + name in self.contracts:
                        if self.contracts[k + "." + name].trusted == "virtual":
                            return self.call_contract(st, self.contracts[k + "." + name], [base], {}, node, mod)
                        return PyObj("bound", k + "." + name, base)
            if q is None and self.prog.field(c, name) is None and self.prog.classconst(c, name) is not None:
                return self.ev(self.prog.classconst(c, name), st, mod)
            if q is None and self.prog.field(c, name) is None:
                for s in self.prog.subclasses(c):
                    if self.prog.method(s, name) or self.prog.field(s, name):
                        subs = [x for x in self.prog.subclasses(c) if self.prog.method(x, name) or self.prog.field(x, name)]
                        if len(subs) > 1:
                            # dispatch over several subclasses: needs a contract on the base
                            qq = c + "." + name
                            if qq in self.contracts:
                                return self.call_contract(st, self.contracts[qq], [base], {}, node, mod)
                            subs = [x for x in subs if x not in [y for z in subs for y in self.prog.subclasses(z)]]
                        self.obl(st, "safe:isinstance:%s.%s" % (subs[0], name), Or(*[clsof(r) == self.prog.clsid(x) for x in [subs[0]] + self.prog.subclasses(subs[0])]))
                        return self.attr(st, V(REF(subs[0]), r), name, mod, node)
                raise Unsupported("no attribute %s on %s" % (name, c))
            if q is not None and not (isinstance(base, PyObj) or r.get_id() in self.exact):
                for k in self.prog.subclasses(c):
                    o = self.prog.method(k, name)
                    if o != q and o not in self.contracts:
                        raise Unsupported("%s overrides %s and has no contract" % (o, q))
            if q is not None:
                fd = self.prog.funcs[q][0]
                decos = [ast.unparse(d) for d in fd.decorator_list]
                bound = PyObj("bound", q, base)
                if "property" in decos:
                    return self.call(st, bound, [], {}, node, mod)
                if "staticmethod" in decos:
                    return PyObj("func", q)
                if "classmethod" in decos:
                    return PyObj("bound", q, PyObj("class", c))
                return bound
            key, fty = self.prog.field(c, name)
            self.obl(st, "safe:not-none:%s" % name, r != null) if not self.known_nonnull(st, r) else None
            return self.field_value(st, r, key, fty)
        if ty.kind in ("Seq", "Set", "Dict", "Str", "Val", "Int", "Real", "Text"):
            return PyObj("bmeth", name, base)
        if ty.kind == "Opt" and isinstance(base, V):
            return self.attr(st, self.some(st, base), name, mod, node)
        raise Unsupported("attribute %s of %r" % (name, ty))

    def known_nonnull(self, st, r):
        return r.get_id() in self.nonnull or not self.null_checks

    null_checks = False
    exact = frozenset()
    nonnull = frozenset()

    def field_value(self, st, r, key, fty):
        fty = prune(fty)
        if fty.kind in ("Seq", "Set", "Dict"):
            return H(fty, ("field", r, key))
        t = self.hget(st, key)[r]
        return self.wrap(st, fty, t)

    # ---------- subscripts
    def ev_Subscript(self, e, st, mod):
        base = self.ev(e.value, st, mod)
        if isinstance(e.slice, ast.Slice):
            return self.slice(st, base, e.slice, mod)
        idx = self.ev(e.slice, st, mod)
        return self.getitem(st, base, idx)

    def slice(self, st, base, sl, mod):
        if not isinstance(base, (PyTuple, PyObj, PyNone)) and self.ref_hook("[]", self.tyof(base)):
            return self.getitem(st, base, self.ev(sl, st, mod))
        lo = self.ev(sl.lower, st, mod) if sl.lower else None
        hi = self.ev(sl.upper, st, mod) if sl.upper else None
        if sl.step is not None:
            raise Unsupported("slice step")

        def const(v):
            if v is None:
                return None
            t = z3.simplify(self.term(st, v))
            if z3.is_int_value(t):
                return t.as_long()
            return t

        lo, hi = const(lo), const(hi)
        if isinstance(base, V) and prune(base.ty).kind == "Pair":
            base = PyTuple([self.wrap(st, a, P(base.t, i)) for i, a in enumerate(prune(base.ty).args)])
        if isinstance(base, PyTuple):
            if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                return PyTuple(base.items[lo:hi])
            raise Unsupported("symbolic tuple slice")
        ty = self.tyof(base)
        if ty.kind == "Str":
            f = z3.Function("str_slice", Str, z3.IntSort(), z3.IntSort(), Str)
            if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                return V(STR, f(self.term(st, base), z3.IntVal(lo or 0), z3.IntVal(10**6 if hi is None else hi)))
            return V(STR, fresh("slice", STR))
        if ty.kind != "Seq":
            raise Unsupported("slice of %r" % ty)
        if isinstance(base, H) and not is_ground(ty):
            return self.newcell(st, ty, None)
        t = self.term(st, base)
        q = th(t)
        n = Len(t)

        def norm(x):
            if isinstance(x, int):
                x = z3.IntVal(x) if x >= 0 else n + x
            return If(x < 0, If(n + x < 0, 0, n + x), If(x > n, n, x))

        if hi is not None:
            if isinstance(hi, int) and hi < 0:
                h = If(n + hi < 0, 0, n + hi)
            else:
                h = norm(hi)
            t = q.take(t, h)
            n2 = h
        if lo is not None:
            if isinstance(lo, int):
                l = If(z3.IntVal(lo) > n, n, z3.IntVal(lo)) if lo >= 0 else If(n + lo < 0, 0, n + lo)
            else:
                l = norm(lo)
            t = q.drop(t, If(l > Len(t), Len(t), l))
        return self.newcell(st, ty, t)

    def getitem(self, st, base, idx):
        if isinstance(base, PyTuple):
            t = z3.simplify(self.term(st, idx))
            if z3.is_int_value(t):
                k = t.as_long()
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
                self.obl(st, "safe:index", z3.BoolVal(False))
                raise Unsupported("tuple index out of range")
            ety, q = self.iter_seq(st, base)
            base = V(SEQ(ety), q)
        if is_model(base, "getitem"):
            return base.a[0].getitem(self, st, idx)
        if isinstance(base, PyObj):
            raise Unsupported("subscript of %s" % base.kind)
        ty = self.tyof(base)
        if ty.kind == "Ref":
            for k in self.prog.mro(ty.args[0]):
                if (k, "[]") in self.hooks:
                    return self.hooks[(k, "[]")](self, st, base, idx)
        if isinstance(ty, TVar):
            raise Unsupported("subscript of unknown")
        if ty.kind == "Opt":
            return self.getitem(st, self.some(st, base), idx)
        if ty.kind == "Pair":
            t = z3.simplify(self.term(st, idx))
            if z3.is_int_value(t):
                k = t.as_long()
                n = len(ty.args)
                if -n <= k < n:
                    return self.wrap(st, ty.args[k % n], P(self.term(st, base), k % n))
                self.obl(st, "safe:index", z3.BoolVal(False))
            raise Unsupported("tuple index")
        if ty.kind == "Seq":
            s = self.term(st, base)
            i = z3.simplify(self.term(st, idx, INT))
            if z3.is_int_value(i) and i.as_long() < 0:
                i = Len(s) + i
            elif not z3.is_int_value(i):
                self.obl(st, "safe:index", And(-Len(s) <= i, i < Len(s)))
                i = self.named(st, self.simp_index(i, s), 'ix')
            self.obl(st, "safe:index", And(0 <= i, i < Len(s)))
            return self.wrap(st, ty.args[0], At(s, i), ("elem", base, i) if isinstance(base, H) else None)
        if ty.kind == "Dict":
            unify(ty.args[0], self.tyof(idx))
            k = self.term(st, idx, ty.args[0])
            default = getattr(ty, "default", None)
            if self.dry and not is_ground(ty) and isinstance(base, H) and (default in ("list", "set") or (default is None and not isinstance(prune(ty.args[1]), TVar))):
                return H(ty.args[1], ("elem", base, k), base.borrowed)  # the element type is inferred from its use
            d = self.read(st, base) if isinstance(base, H) else base.t
            if default is None:
                self.obl(st, "safe:key", Has(d, k))
            else:
                dv = self.default_term(st, ty)
                nd = DStore(d, k, If(Has(d, k), Get(d, k), dv))
                if isinstance(base, H) and not base.borrowed:
                    self.write(st, base, nd)
                    d = nd
                else:
                    self.obl(st, "safe:key", Has(d, k))
            if prune(ty.args[1]).kind in ("Seq", "Set", "Dict"):
                return H(ty.args[1], ("elem", base, k), base.borrowed) if isinstance(base, H) else self.wrap(st, ty.args[1], Get(d, k))
            return self.wrap(st, ty.args[1], Get(d, k))
        raise Unsupported("subscript of %r" % ty)

    def simp_index(self, i, s):
        return If(i < 0, i + Len(s), i)

    def default_term(self, st, ty):
        vt = prune(ty.args[1])
        d = ty.default
        if isinstance(vt, TVar):
            if d == "float":
                unify(vt, REAL)
            elif d == "int":
                unify(vt, INT)
            elif d == "list":
                unify(vt, SEQ(TVar()))
            elif d == "set":
                unify(vt, SET(TVar()))
            elif d == "dict":
                unify(vt, DICT(TVar(), TVar()))
            vt = prune(vt)
        if d in ("float", "int"):
            return z3.RealVal(0) if vt.kind == "Real" else z3.IntVal(0)
        if d in ("list", "set", "dict"):
            return self.empty_of(vt)
        raise Unsupported("default factory %s" % d)

    # ---------- comprehensions
    def ev_ListComp(self, e, st, mod):
        try:
            ety, q = self.comp(e, e.elt, e.generators, st, mod)
        except NotYet as y:
            return self.newcell(st, SEQ(y.ty), None)
        return self.newcell(st, SEQ(ety), q)

    def ev_GeneratorExp(self, e, st, mod):
        ety, q = self.comp(e, e.elt, e.generators, st, mod)
        return PyObj("iter", ety=ety, seq=q)

    def ev_SetComp(self, e, st, mod):
        ety, q = self.comp(e, e.elt, e.generators, st, mod)
        return self.newcell(st, SET(ety), ToSet(q))

    def ev_DictComp(self, e, st, mod):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        try:
            ety, q = self.comp(e, pair, e.generators, st, mod)
        except NotYet as y:
            return self.newcell(st, DICT(*prune(y.ty).args), None)
        return self.dict_from_pairs(st, e, ety, q)

    def dict_from_pairs(self, st, e, ety, q):
        kt, vt = prune(ety).args
        ty = DICT(kt, vt)
        d = fresh("dict", ty)
        k = z3.Const("k!dp", sort(kt))
        i = z3.Int("i!dp")
        last = fresh_fun("last", kt, INT)
        self.assume_tag(st, "dictdef", FA(i, Imp(And(0 <= i, i < Len(q)), And(Has(d, P(At(q, i), 0)), last(P(At(q, i), 0)) >= i)), At(q, i)))
        self.assume_tag(st, "dictdef", FA(k, Imp(Has(d, k), And(0 <= last(k), last(k) < Len(q), P(At(q, last(k)), 0) == k, P(At(q, last(k)), 1) == Get(d, k))), Has(d, k), Get(d, k)))
        return self.newcell(st, ty, d)

    def abstract(self, st, n0, consts, i, guard):
        """Facts pc[n0:] were produced while evaluating a body for index i; fresh constants created meanwhile
        become functions of i and the facts are closed under forall i. Returns the substitution."""
        facts = st.pc[n0:]
        del st.pc[n0:]
        sub = []
        for c in consts:
            f = fresh_fun("sk", z3.IntSort(), c.sort())
            sub.append((c, f(i)))
        return facts, sub

    def comp(self, e, elt, gens, st, mod):
        """-> (element type, Seq term)"""
        g = gens[0]
        if len(gens) > 1:
            return self.comp_nested(e, elt, gens, st, mod)
        src = self.ev(g.iter, st, mod)
        sty, S = self.iter_seq(st, src)
        i = fresh("ci", INT)
        saved = dict(st.env)
        svmaybe = dict(st.maybe)
        start = TH._ctr[0]
        n0 = len(st.pc)
        heap0 = dict(st.heap)
        now0 = st.now
        inr = And(0 <= i, i < Len(S))
        st.pc.append(inr)
        x = self.wrap(st, sty, At(S, i))
        self.bind(g.target, x, st, mod)
        conds = []
        for c in g.ifs:
            b = self.cond(c, st, mod)
            b = z3.BoolVal(b) if isinstance(b, bool) else b
            conds.append(b)
            st.pc.append(b)
        val = self.ev(elt, st, mod)
        ety = self.tyof(val)
        if self.dry and not is_ground(ety):
            # a typing pass: the element type becomes known from later uses
            st.env, st.maybe = saved, svmaybe
            del st.pc[n0:]
            raise NotYet(ety)
        if isinstance(ety, TVar):
            raise Unsupported("unknown element type in comprehension")
        vt = self.term(st, val)
        st.env = saved
        st.maybe = svmaybe
        changed = [k for k, v in st.heap.items() if not z3.eq(heap0.setdefault(k, self.field0(k)), v)]
        if changed and (conds or ety.kind != "Ref" or z3.eq(now0, st.now)):
            raise Unsupported("side effect in a comprehension")
        built = {}
        for k in changed:
            # each element initialises its own new object only
            x = z3.Const("x!cb", Ref)
            self.obl(st, "comprehension:old-objects-untouched:%s" % k, FA(x, Imp(birth(x) < now0, st.heap[k][x] == heap0[k][x]), st.heap[k][x]))
            built[k] = st.heap[k]
            del st.heap[k]
            st.heap[k] = heap0[k]
        now1 = st.now
        if not z3.eq(now0, now1):
            # every element allocates: the clock ends after all of them
            st.now = fresh("clock", INT)
            st.pc.append(now1 <= st.now)
        facts = st.pc[n0:]
        del st.pc[n0:]
        if not z3.eq(now0, now1):
            start = [start, st.now]
            st.pc.append(now0 <= st.now)
        # skolemise fresh constants made in the body
        sub = {}
        for f in facts + conds + [vt]:
            self.collect_fresh(f, start, sub, i)
        subs = [v for v in sub.values() if len(v) == 2]
        lifted = {v[0].name(): v[1] for v in sub.values() if len(v) == 3}
        conds2 = conds
        if lifted:
            facts, conds2, vt = [lift_functions(f, lifted, i) for f in facts], [lift_functions(c, lifted, i) for c in conds2], lift_functions(vt, lifted, i)
        if subs:
            facts = [z3.substitute(f, *subs) for f in facts]
            conds2 = [z3.substitute(c, *subs) for c in conds2]
            vt = z3.substitute(vt, *subs)
        # facts other than the range and the conditions are consequences available for each i in range
        hyps, rest = [facts[0]], []
        cid = [c.get_id() for c in conds2]
        for f in facts[1:]:
            if f.get_id() in cid:
                hyps.append(f)
            else:
                rest.append((list(hyps), f))
        at = At(S, i)
        r = fresh("comp", SEQ(ety))
        for k, arr in built.items():
            # the result holds the new objects as their constructor left them (objects reached only through them are unknown)
            end = fresh("H." + k, arr.sort())
            x = z3.Const("x!cb", Ref)
            st.pc.append(FA(x, Imp(birth(x) < now0, end[x] == heap0[k][x]), end[x]))
            st.pc.append(FA(i, Imp(inr, end[At(r, i)] == z3.substitute(arr, *subs)[vt]), At(r, i)))
            st.pc += [self.tag("wf", f) for f in self.wf_field(k, end, st.now)]
            st.heap[k] = end
            self.log(("field", None, k))
        # one fact per hypothesis prefix
        for hs, f in rest:
            st.pc.append(FA(i, Imp(And(*hs), f), *([at] if conds else [at, At(r, i)])))
        if not conds:
            st.pc.append(Len(r) == Len(S))
            st.pc.append(FA(i, Imp(inr, At(r, i) == vt), At(r, i), at))
        else:
            src_f = fresh_fun("csrc", INT, INT)
            dst_f = fresh_fun("cdst", INT, INT)
            j, j2 = z3.Ints("cj! cj2!")
            C = And(*conds2)
            s_at = src_f(j)
            st.pc.append(Len(r) <= Len(S))
            st.pc.append(FA(j, Imp(And(0 <= j, j < Len(r)), And(0 <= s_at, s_at < Len(S), dst_f(s_at) == j,
                            z3.substitute(And(C, At(r, j) == vt), (i, s_at)))), At(r, j)))
            st.pc.append(FA([j, j2], Imp(And(0 <= j, j < j2, j2 < Len(r)), src_f(j) < src_f(j2)), (src_f(j), src_f(j2))))
            z0, z1 = src_f(z3.IntVal(0)), src_f(z3.IntVal(1))
            st.pc.append(Imp(Len(r) >= 2, And(0 <= z0, z0 < z1, z1 < Len(S), z3.substitute(And(C, vt == At(r, 0)), (i, z0)), z3.substitute(And(C, vt == At(r, 1)), (i, z1)))))
            st.pc.append(FA(i, Imp(And(inr, C), And(0 <= dst_f(i), dst_f(i) < Len(r), src_f(dst_f(i)) == i, At(r, dst_f(i)) == vt)), at))
        # injective element functions keep distinctness: identity case
        if z3.eq(vt, at):
            st.pc.append(Imp(Distinct(S), Distinct(r)))
            if not conds:
                st.pc.append(r == S)
        return ety, r

    def collect_fresh(self, f, start, sub, i):
        seen = set()
        if isinstance(start, list):
            start, keep = start
            seen.add(keep.get_id())
        todo = [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if "!" in nm:
                        tail = nm.rsplit("!", 1)[1]
                        if tail.isdigit() and int(tail) > start and not z3.eq(x, i) and x.get_id() not in sub:
                            sk = fresh_fun("sk", z3.IntSort(), x.sort())
                            sub[x.get_id()] = (x, sk(i))
                elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                    nm = x.decl().name()
                    tail = nm.rsplit("!", 1)[-1]
                    if "!" in nm and tail.isdigit() and int(tail) > start and not nm.startswith("box") and nm not in sub:
                        d = x.decl()
                        sub[nm] = (d, fresh_fun("sk", z3.IntSort(), *([d.domain(k) for k in range(d.arity())] + [d.range()])), "function")
                todo.extend(x.children())

    def comp_nested(self, e, elt, gens, st, mod):
        """[elt for a in A for b in B(a) ...]: membership-level semantics only."""
        n0 = len(st.pc)
        saved, svmaybe, heap0 = dict(st.env), dict(st.maybe), dict(st.heap)
        start = TH._ctr[0]
        vars_, rng, srcs, keep, free = [], [], [], [], []
        for gi, g in enumerate(gens):
            n1 = len(st.pc)
            src = self.ev(g.iter, st, mod)
            sty, S = self.iter_seq(st, src)
            if all(s is not None for s in free) and not any(g2.ifs for g2 in gens[:gi]) and not any(occurs(v, f) for v in vars_ for f in [S] + st.pc[n1:]):
                keep += [Imp(And(*[Len(s) > 0 for s in free]), f) for f in st.pc[n1:]]
            x = fresh("cx", sty)
            vars_.append(x)
            free.append(S if not any(occurs(v, S) for v in vars_) else None)
            srcs.append(S if not any(g2.ifs for g2 in gens) and not any(occurs(v, S) for v in vars_) else None)
            m = Mem(S, x)
            rng.append(m)
            st.pc.append(m)
            self.bind(g.target, self.wrap(st, sty, x), st, mod)
            for c in g.ifs:
                b = self.cond(c, st, mod)
                b = z3.BoolVal(b) if isinstance(b, bool) else b
                rng.append(b)
                st.pc.append(b)
        val = self.ev(elt, st, mod)
        ety = self.tyof(val)
        vt = self.term(st, val)
        st.env, st.maybe = saved, svmaybe
        facts = st.pc[n0:]
        ids = {r.get_id() for r in rng}
        del st.pc[n0:]
        for k, v in st.heap.items():
            if not z3.eq(heap0.get(k, self.field0(k)), v):
                raise Unsupported("side effect in a comprehension")
        # any fresh constant other than the range variables cannot be abstracted here, unless it only names a term
        vid = {v.get_id() for v in vars_}
        k = 0
        while k < len(facts):
            f = facts[k]
            c = f.arg(0) if z3.is_eq(f) else None
            if c is not None and z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in c.decl().name() and c.get_id() not in vid and f.get_id() not in ids \
                    and c.decl().name().rsplit("!", 1)[1].isdigit() and int(c.decl().name().rsplit("!", 1)[1]) > start and not occurs(c, f.arg(1)):
                d = (c, f.arg(1))
                facts = [z3.substitute(g, d) for n, g in enumerate(facts) if n != k]
                rng, vt, keep = [z3.substitute(g, d) for g in rng], z3.substitute(vt, d), [z3.substitute(g, d) for g in keep]
                ids = {r.get_id() for r in rng}
                continue
            k += 1
        for f in facts + [vt]:
            sub = {}
            self.collect_fresh(f, start, sub, z3.IntVal(0))
            for k in sub:
                if k not in vid:
                    raise Unsupported("nested comprehension with calls")
        extra = [f for f in facts if f.get_id() not in ids]
        r = fresh("ncomp", SEQ(ety))
        y = z3.Const("y!nc", sort(ety))
        sks = [fresh_fun("nsk", ety, v.sort()) for v in vars_]
        sub = [(v, f(y)) for v, f in zip(vars_, sks)]
        body = z3.substitute(And(*(rng + [y == vt])), *sub)
        st.pc.append(FA(y, Imp(Mem(r, y), body), Mem(r, y)))
        st.pc.append(FA(vars_, Imp(And(*rng), Mem(r, vt)), tuple(x for x in rng if x.num_args() > 1 and x.decl().name().startswith("mem"))))
        st.pc += keep
        if all(S is not None for S in srcs):
            # every iterator is independent of the others: the elements are listed row by row
            js = [z3.Int("j%d!nc" % n) for n in range(len(srcs))]
            pos, tot = js[0], Len(srcs[0])
            for j, S in zip(js[1:], srcs[1:]):
                pos, tot = IX(pos, j, Len(S)), IMUL(tot, Len(S))
            st.pc.append(Len(r) == tot)
            st.pc.append(FA(js, Imp(And(*[InR(j, S) for j, S in zip(js, srcs)]), At(r, pos) == z3.substitute(vt, *[(v, At(S, j)) for v, S, j in zip(vars_, srcs, js)])), pos))
        return ety, r

    def ev_Lambda(self, e, st, mod):
        if e.args.kwonlyargs or e.args.vararg or e.args.kwarg:
            raise Unsupported("lambda parameters")
        return PyObj("lambda", e, mod, dict(st.env), defaults=[self.ev(d, st, mod) for d in e.args.defaults])

    def ev_Starred(self, e, st, mod):
        raise Unsupported("starred")

    # ---------- calls
    def ev_Call(self, e, st, mod):
        # logging and warnings are dropped (arguments still evaluated for safety)
        f = self.ev(e.func, st, mod)
        if isinstance(f, PyObj) and f.kind == "builtin" and f.a[0].split(".")[0] in ("logging", "warnings"):
            self.dropped.add(f.a[0])
            for a in e.args:
                try:
                    self.ev(a, st, mod)
                except Unsupported:
                    pass
            return NONEV
        args, kws = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, st, mod)
                if isinstance(sv, PyTuple):
                    args.extend(sv.items)
                else:
                    if star is not None:
                        raise Unsupported("two starred arguments")
                    star = sv
                    args.append(PyObj("star", sv))
            else:
                args.append(self.ev(a, st, mod))
        for k in e.keywords:
            if k.arg is None:
                kws["**"] = self.ev(k.value, st, mod)
            else:
                kws[k.arg] = self.ev(k.value, st, mod)
        return self.call(st, f, args, kws, e, mod)

    def call(self, st, f, args, kws, node, mod):
        if isinstance(f, PyObj):
            if f.kind == "func":
                return self.call_func(st, f.a[0], args, kws, node, mod)
            if f.kind == "bound":
                q, self_ = f.a
                if q == "object.__init__":
                    return NONEV
                # dynamic dispatch: overriding methods in subclasses
                return self.call_func(st, q, [self_] + args, kws, node, mod)
            if f.kind == "class":
                return self.construct(st, f.a[0], args, kws, node, mod)
            if f.kind == "lambda":
                return self.call_lambda(st, f, args)
            if f.kind == "closure":
                return self.call_closure_value(st, f, args, kws, node, mod)
            if f.kind == "kwget":
                key = node.args[0].value if isinstance(node.args[0], ast.Constant) else None
                d = f.a[0].a[0]
                if key in d:
                    return d[key]
                return args[1] if len(args) > 1 else NONEV
            if is_model(f, "call"):
                return f.a[0].call(self, st, args, kws)
            if f.kind == "pyfn":
                return f.a[0](self, st, args, kws)
            if f.kind == "bmeth":
                return self.bmeth(st, f.a[0], f.a[1], args, kws, node, mod)
            if f.kind == "builtin":
                return self.builtin(st, f.a[0], args, kws, node, mod)
            raise Unsupported("call of %s" % f.kind)
        if isinstance(f, V) and prune(f.ty).kind == "Ref" and "call" in self.builtins:
            return self.builtins["call"](self, st, f, args, kws)
        raise Unsupported("call of a value")

    def call_lambda(self, st, f, args):
        e, mod, env = f.a
        saved, sm = st.env, st.maybe
        st.env = dict(env)
        names = [a.arg for a in e.args.args]
        defaults = f.k.get("defaults", [])
        if not len(names) - len(defaults) <= len(args) <= len(names):
            raise Unsupported("lambda arity")
        args = list(args) + defaults[len(defaults) - (len(names) - len(args)):] if len(args) < len(names) else args
        st.env.update(zip(names, args))
        try:
            return self.ev(e.body, st, mod)
        finally:
            st.env, st.maybe = saved, sm

    def bindargs(self, fd, args, kws, st, mod, defaults_env=None):
        """python argument binding -> dict name -> value"""
        a = fd.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        if any(isinstance(x, PyObj) and x.kind == "star" for x in pos):
            if a.vararg and len(pos) == 1 and not names:
                out[a.vararg.arg] = pos[0].a[0]
                pos = []
            else:
                raise Unsupported("starred call")
        for n, v in zip(names, pos):
            out[n] = v
        extra = pos[len(names):]
        if a.vararg:
            if a.vararg.arg not in out:
                out[a.vararg.arg] = PyTuple(extra)
        elif extra:
            raise Unsupported("too many arguments")
        kws = dict(kws)
        dd = kws.pop("**", None)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kws:
                if n in out:
                    raise Unsupported("duplicate argument")
                out[n] = kws.pop(n)
        if a.kwarg:
            if dd is not None and not kws:
                out[a.kwarg.arg] = dd
            else:
                out[a.kwarg.arg] = PyObj("kwdict", kws)
        elif kws or dd is not None:
            raise Unsupported("unexpected keyword argument")
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n, d in defs.items():
            if n not in out:
                out[n] = self.default_value(d, st, mod)
        for n in names:
            if n not in out:
                raise Unsupported("missing argument %s" % n)
        return out

    def default_value(self, d, st, mod):
        v = self.ev(d, st, mod)
        if isinstance(v, H):
            v = H(v.ty, v.loc, True)  # shared mutable default: borrowed
            return PyObj("default", v)
        return v

    def undefault(self, v):
        return v.a[0] if isinstance(v, PyObj) and v.kind == "default" else v

    def call_func(self, st, q, args, kws, node, mod):
        if q in self.contracts and not (self.contracts[q].trusted == "inline"):
            return self.call_contract(st, self.contracts[q], args, kws, node, mod)
        if q not in self.prog.funcs:
            raise Unsupported("call of unknown function %s" % q)
        return self.inline(st, q, args, kws, node)

    def inline(self, st, q, args, kws, node):
        if len(self.stack) > 6 or q in self.stack:
            raise Unsupported("recursive inlining of %s" % q)
        fd, m, cls = self.prog.funcs[q]
        for d in fd.decorator_list:
            if ast.unparse(d) not in ("property", "staticmethod", "classmethod"):
                raise Unsupported("decorator %s" % ast.unparse(d))
        env = {k: self.undefault(v) for k, v in self.bindargs(fd, args, kws, st, m).items()}
        self.inlined.add(q)
        saved, sm, si, sc = st.env, st.maybe, self.instance, self.curcls
        st.env, st.maybe = env, {}
        self.instance = self.instance + (id(node),)
        self.stack.append(q)
        self.curcls = cls
        try:
            outs = self.block(fd.body, st, m)
        finally:
            self.stack.pop()
            self.instance = si
            self.curcls = sc
        res = []
        for kind, s, v in outs:
            s.env, s.maybe = saved if s is st else dict(saved), dict(sm)
            if kind == "next":
                res.append((s, NONEV))
            elif kind == "return":
                res.append((s, v))
            elif kind == "raise":
                self.raise_out(s, v)
            else:
                raise Unsupported("loop control out of function")
        if not res:
            raise Raised("all paths of %s raise" % q)
        if len(res) == 1:
            s, v = res[0]
            if s is not st:
                st.become(s)
            return v
        return self.merge_paths(st, res)

    def merge_paths(self, st, res):
        """several return paths of an inlined call: recorded so that the statement forks"""
        if self.forks is None:
            raise Unsupported("branching helper inside an expression")
        b0 = res[0]
        st.become(b0[0])
        # the remaining paths are replayed by the statement executor
        raise ForkNeeded(res)

    def raise_out(self, s, exc):
        if self.dry:
            return
        self.raise_exits.append((s, exc))

    def construct(self, st, c, args, kws, node, mod):
        if c not in self.prog.classes:
            raise Unsupported("class %s" % c)
        q = self.prog.method(c, "__init__")
        r = fresh("new_" + c, REF(c))
        st.pc.append(birth(r) == st.now)
        st.pc.append(r != null)
        st.pc.append(clsof(r) == self.prog.clsid(c))
        nn = fresh("now", INT)
        st.pc.append(nn == st.now + 1)
        st.now = nn
        self.log(("field", None, "@alloc"))
        v = V(REF(c), r)
        if q:
            self.call_func(st, q, [v] + args, kws, node, mod)
        return v

    curcls = None

    # container stored into a field / container element
    def store_term(self, st, v, ty, what, newloc=None):
        ty = prune(ty)
        if isinstance(v, PyObj) and v.kind == "default":
            v = v.a[0]
        if isinstance(v, H):
            loc = self.resolve(st, v)
            fz = newloc is not None and newloc[0] == "field" and newloc[2] in self.prog.frozen
            fz = fz or (newloc is not None and self.frozen_elem(st, newloc) and self.frozen_elem(st, loc))
            if not fz and not v.borrowed and newloc is not None and newloc[0] == "elem" and loc[0] == "field" and loc[2] in self.prog.frozen:
                # an element shared with a field that is never changed in place: from here on no element of this type may be mutated in this function
                self.shared_elems.add(skey(ty))
                fz = True
            elif newloc is not None and newloc[0] == "field" and newloc[2] not in self.prog.frozen and newloc[2] + "[]" not in self.prog.frozen:
                self.no_shared(st, ty, "field " + newloc[2])
            if (v.borrowed or loc[0] != "cell") and not fz:
                self.obl(st, "ownership:%s" % what, z3.BoolVal(False))
            t = self.term(st, v, ty)
            if newloc is not None and loc[0] == "cell":
                st.cells[loc[1]].fwd = newloc
            return t
        return self.term(st, v, ty)

    def arg_term(self, st, v, ty, pname, con):
        v = self.undefault(v)
        if isinstance(v, PyObj) and v.kind == "kwdict" and prune(ty).kind == "Dict":
            h = self.newcell(st, ty, self.empty_of(ty))
            for k, x in v.a[0].items():
                self.write(st, h, DStore(self.read(st, h), self.term(st, V(STR, StrC(k)), prune(ty).args[0]), self.term(st, self.undefault(x), prune(ty).args[1])))
            return self.read(st, h)
        if is_model(v, "term"):
            return v.a[0].term(self, st, ty)
        return self.term(st, v, ty)

    def call_contract(self, st, con, args, kws, node, mod):
        if con.changed_by_refusal:
            raise Unsupported("a call of %s, which may fail halfway" % con.name)
        self.called.add(con.name)
        if con.trusted and con.trusted != "virtual":
            self.trusted_used.add(con.name)
        if con.name in self.prog.funcs:
            fd, m, cls = self.prog.funcs[con.name]
            vals = self.bindargs(fd, args, kws, st, m)
        else:
            ps = [n.lstrip("*") for n in con.params]
            if len(args) > len(ps) or any(isinstance(x, PyObj) and x.kind == "star" for x in args):
                raise Unsupported("arguments of %s" % con.name)
            vals = dict(zip(ps, args))
            kws = dict(kws)
            dd = kws.pop("**", None)
            if any(k in vals for k in kws):
                raise Unsupported("duplicate argument")
            vals.update(kws)
            kw = [n[2:] for n in con.params if n.startswith("**")]
            if dd is not None:
                if not kw or kw[0] in vals:
                    raise Unsupported("keyword arguments of %s" % con.name)
                vals[kw[0]] = dd
            for n, mk in con.defaults.items():
                if n not in vals:
                    vals[n] = mk(self, st)
        a = {}
        for n, ty in con.params.items():
            key = n.lstrip("*")
            if key not in vals:
                for w in list(vals.values()):
                    if isinstance(w, PyObj) and w.kind == "kwdict" and key in w.a[0]:
                        vals[key] = w.a[0][key]
            if key not in vals:
                raise Unsupported("argument %s of %s" % (n, con.name))
            a[key] = self.arg_term(st, vals[key], ty, key, con)
        extra = set(vals) - {n.lstrip("*") for n in con.params}
        for n in extra:
            v = self.undefault(vals[n])
            if not isinstance(v, (PyNone, PyObj)) and not getattr(con, "ignore_extra", False):
                raise Unsupported("argument %s of %s not covered by its contract" % (n, con.name))
            if isinstance(v, PyObj) and v.kind == "func":
                d = {x.arg: y for x, y in zip(reversed(fd.args.args), reversed(fd.args.defaults))} if con.name in self.prog.funcs else {}
                w = self.default_value(d[n], st, m) if n in d else None
                if not (isinstance(w, PyObj) and w.kind == "func" and w.a == v.a):
                    raise Unsupported("function argument %s of %s" % (n, con.name))
        label = "call:%s" % con.name
        o = dict(st.heap)
        c0 = Ctx(self, a, o, o, st.now, st.now, st=st)
        if con.ghosts:
            if con.name not in self.con.ghost_calls:
                raise Unsupported("no ghost arguments for the call of %s" % con.name)
            cc = LoopCtx(self, self.ctx0.a, self.ctx0.o.heap, st.heap, self.ctx0.now0, st.now, st=st)
            cc.entry, cc.call = st, a
            cc.outer = self.loopstack[-1] if self.loopstack else None
            gs = self.con.ghost_calls[con.name](cc) if not self.dry else {g: z3.Const("dry$" + g, so) for g, so in con.ghosts.items()}
            for g in con.ghosts:
                a["$" + g] = gs[g]
        if con.name in self.con.cuts and not self.dry:
            cc = LoopCtx(self, self.ctx0.a, self.ctx0.o.heap, st.heap, self.ctx0.now0, st.now, st=st)
            cc.entry, cc.call = st, a
            for lab, f in self.con.cuts[con.name](cc):
                self.obl(st, "before:%s:%s" % (con.name, lab), f)
        for lab, f in con.requires(c0):
            self.obl(st, "%s:pre:%s" % (label, lab), f)
        for exc, cond in con.raises:
            c = cond(c0)
            if z3.is_false(c):
                continue
            if not self.dry:
                s2 = st.fork()
                s2.pc.append(c)
                self.raise_exits.append((s2, exc))
            st.pc.append(Not(c))
        if con.decreases is not None and self.con is con and not self.dry:
            d0 = con.decreases(self.ctx0)
            d1 = con.decreases(c0)
            self.obl(st, "decreases", And(d1 >= 0, d1 < d0))
        now0 = st.now
        if con.allocates:
            nn = fresh("now", INT)
            st.pc.append(nn >= st.now)
            st.now = nn
            self.log(("field", None, "@alloc"))
        n_heap = {}
        mods = {}
        for key, pred in con.modifies:
            mods.setdefault(key, []).append(pred)
        for key in mods:
            old = self.hget(st, key)
            new = fresh("H." + key, old.sort())
            st.heap[key] = new
            self.log(("field", None, key))
        cn = Ctx(self, a, o, st.heap, now0, st.now, st=st)
        for key, preds in mods.items():
            x = z3.Const("x!fr", Ref)
            p = Or(*[pr(cn, x) for pr in preds])
            old, new = cn.o[key], st.heap[key]
            st.pc.append(FA(x, Imp(And(birth(x) < now0, Not(p)) if con.allocates else Not(p), new[x] == old[x]), new[x]))
            for f in self.wf_field(key, new, st.now):
                st.pc.append(self.tag("wf", f))
        for pn in con.mutates:
            h = self.undefault(vals[pn])
            t = fresh("mut_" + pn, con.params[pn])
            cn.af[pn] = t
            self.write(st, h, t)
        for pn, fn in con.moves.items():
            h = self.undefault(vals[pn]) if not (isinstance(vals[pn], PyObj) and vals[pn].kind == "default") else vals[pn]
            ref, key = fn(c0)
            self.store_term(st, h, con.params[pn], "%s passed to %s" % (pn, con.name), ("field", ref, key))
        if con.ret is None or prune(con.ret).kind == "None":
            res, val = None, NONEV
        else:
            res = fresh("r_" + con.name.split(".")[-1], con.ret)
            rt = prune(con.ret)
            if rt.kind in ("Seq", "Set", "Dict"):
                val = self.newcell(st, rt, res, False)
                val.borrowed = con.ret_borrowed
            else:
                val = V(rt, res)
                if rt.kind == "Ref":
                    st.pc.append(Or(res == null, birth(res) < st.now))
        cn.res = res
        for lab, f in con.ensures(cn):
            st.pc.append(self.tag("call:%s:%s" % (con.name, lab), f))
        if con.result_call is not None:
            rc = con.result_call
            q = z3.Const("callargs!q", sort(rc["args"]))
            e = rc["ev"](res, q)
            cn.call_args, cn.call_ghost = q, z3.Int("callrow!q")
            for lab, f in rc["val"](cn, e):
                st.pc.append(self.tag("call:%s:%s" % (con.name, lab), FA([q, cn.call_ghost], Imp(And(*[g for _, g in rc["pre"](cn)]), f), (e, rc["trig"](cn)))))
        return val

    # ---------- builtin methods on containers / strings
    def bmeth(self, st, name, base, args, kws, node, mod):
        ty = self.tyof(base)
        if ty.kind == "Str" and ("Str", name) in self.hooks:
            return self.hooks[("Str", name)](self, st, base, args, kws)
        m = getattr(self, "m_%s_%s" % (ty.kind, name), None)
        if m is None:
            raise Unsupported("method %s of %r" % (name, ty))
        return m(st, base, ty, args, kws, node)

    def m_Seq_append(self, st, base, ty, args, kws, node):
        (x,) = args
        unify(ty.args[0], self.tyof(x))
        t = self.store_term(st, x, ty.args[0], "append")
        self.write(st, base, App(self.read(st, base), t))
        return NONEV

    def m_Seq_extend(self, st, base, ty, args, kws, node):
        ety, q = self.iter_seq(st, args[0])
        unify(ty.args[0], ety)
        self.write(st, base, Cat(self.read(st, base), q))
        return NONEV

    def m_Seq_remove(self, st, base, ty, args, kws, node):
        s = self.read(st, base)
        x = self.term(st, args[0], ty.args[0])
        self.obl(st, "safe:remove", Mem(s, x))
        self.write(st, base, th(s).rem(s, x))
        return NONEV

    def m_Seq_copy(self, st, base, ty, args, kws, node):
        if not is_ground(ty):
            return self.newcell(st, ty, None)
        return self.newcell(st, ty, self.term(st, base))

    def m_Seq_index(self, st, base, ty, args, kws, node):
        s = self.term(st, base)
        x = self.term(st, args[0], ty.args[0])
        self.obl(st, "safe:index-of", Mem(s, x))
        return V(INT, Idx(s, x))

    def m_Seq_sort(self, st, base, ty, args, kws, node):
        key = kws.get("key")
        if set(kws) - {"key"}:
            raise Unsupported("sort options")
        self.write(st, base, self.sorted_term(st, ty.args[0], self.read(st, base), key))
        return NONEV

    def lex_lt(self, ty, a, b):
        """strict order on terms of type ty, or None"""
        ty = prune(ty)
        if ty.kind == "Pair":
            f = z3.BoolVal(False)
            for i in reversed(range(len(ty.args))):
                l = self.lex_lt(ty.args[i], P(a, i), P(b, i))
                if l is None:
                    # no order known for this component: only the earlier ones decide
                    f = z3.BoolVal(False)
                    continue
                f = Or(l, And(P(a, i) == P(b, i), f))
            return f
        lt = strict_lt(sort(ty))
        return None if lt is None else lt(a, b)

    def sorted_term(self, st, ety, s, key=None):
        q = th(s)
        if key is None and strict_lt(q.es) is not None:
            return q.srt(s)
        r = fresh("sorted", s.sort())
        pe = prune(ety)
        if key is None and pe.kind == "Pair" and strict_lt(sort(pe.args[0])) is not None:
            r = TH.sortpairs(pe, SEQ(pe)).sp(s)
        pi, ip = fresh_fun("perm", INT, INT), fresh_fun("iperm", INT, INT)
        i, j = z3.Ints("i!so j!so")
        x = z3.Const("x!so", q.es)
        st.pc.append(Len(r) == Len(s))
        st.pc.append(FA(i, Imp(InR(i, r), And(0 <= pi(i), pi(i) < Len(s), At(r, i) == At(s, pi(i)), ip(pi(i)) == i)), At(r, i)))
        st.pc.append(FA(i, Imp(InR(i, s), And(0 <= ip(i), ip(i) < Len(s), At(s, i) == At(r, ip(i)), pi(ip(i)) == i)), At(s, i)))
        st.pc.append(FA(x, Mem(r, x) == Mem(s, x), Mem(r, x), Mem(s, x)))
        st.pc.append(Imp(Distinct(s), Distinct(r)))
        if key is None:
            lt = self.lex_lt(ety, At(r, j), At(r, i))
        else:
            n = len(st.pc)
            kx = self.call(st, key, [self.wrap(st, ety, At(r, i))], {}, None, None)
            ky = self.call(st, key, [self.wrap(st, ety, At(r, j))], {}, None, None)
            kt = self.tyof(kx)
            tx, ty_ = self.term(st, kx), self.term(st, ky)
            del st.pc[n:]
            lt = self.lex_lt(kt, ty_, tx)
        if lt is not None:
            st.pc.append(FA([i, j], Imp(And(0 <= i, i < j, j < Len(r)), Not(lt)), (At(r, i), At(r, j))))
        return r

    def m_Set_add(self, st, base, ty, args, kws, node):
        unify(ty.args[0], self.tyof(args[0]))
        x = self.term(st, args[0], ty.args[0])
        self.write(st, base, z3.Store(self.read(st, base), x, True))
        return NONEV

    def m_Set_remove(self, st, base, ty, args, kws, node):
        s = self.read(st, base)
        x = self.term(st, args[0], ty.args[0])
        self.obl(st, "safe:remove", s[x])
        self.write(st, base, z3.Store(s, x, False))
        return NONEV

    def m_Set_discard(self, st, base, ty, args, kws, node):
        s = self.read(st, base)
        x = self.term(st, args[0], ty.args[0])
        self.write(st, base, z3.Store(s, x, False))
        return NONEV

    def as_set(self, st, v, ety=None):
        if isinstance(v, PyObj) and v.kind == "iter":
            return ToSet(v.k["seq"])
        ty = self.tyof(v)
        if not is_ground(ty):
            if ety is not None:
                unify(ty.args[0], ety)
            if not is_ground(ty):
                raise Unsupported("set of unknown")
        t = self.term(st, v)
        if ty.kind == "Set":
            return t
        if ty.kind == "Seq":
            return ToSet(t)
        if ty.kind == "Dict":
            return Dom(t)
        raise Unsupported("set of %r" % ty)

    def m_Set_update(self, st, base, ty, args, kws, node):
        for a in args:
            at = self.tyof(a) if not (isinstance(a, PyObj) and a.kind == "iter") else SEQ(a.k["ety"])
            unify(ty.args[0], at.args[0])
            self.write(st, base, Union(self.read(st, base), self.as_set(st, a)))
        return NONEV

    def m_Set_intersection(self, st, base, ty, args, kws, node):
        (a,) = args
        return self.newcell(st, ty, Inter(self.term(st, base), self.as_set(st, a, ty.args[0])))

    def m_Set_union(self, st, base, ty, args, kws, node):
        (a,) = args
        return self.newcell(st, ty, Union(self.term(st, base), self.as_set(st, a, ty.args[0])))

    def m_Set_difference(self, st, base, ty, args, kws, node):
        (a,) = args
        return self.newcell(st, ty, Diff(self.term(st, base), self.as_set(st, a, ty.args[0])))

    def m_Set_symmetric_difference(self, st, base, ty, args, kws, node):
        (a,) = args
        x, y = self.term(st, base), self.as_set(st, a, ty.args[0])
        return self.newcell(st, ty, Union(Diff(x, y), Diff(y, x)))

    def m_Set_copy(self, st, base, ty, args, kws, node):
        return self.newcell(st, ty, self.term(st, base))

    def m_Set_issubset(self, st, base, ty, args, kws, node):
        return V(BOOL, self.subset(self.term(st, base), self.as_set(st, args[0], ty.args[0])))

    def m_Set_issuperset(self, st, base, ty, args, kws, node):
        return V(BOOL, self.subset(self.as_set(st, args[0], ty.args[0]), self.term(st, base)))

    def m_Set_isdisjoint(self, st, base, ty, args, kws, node):
        a, b = self.term(st, base), self.as_set(st, args[0], ty.args[0])
        x = z3.Const("x!dj", a.sort().domain())
        return V(BOOL, FA(x, Not(And(a[x], b[x])), a[x], b[x]))

    def m_Dict_items(self, st, base, ty, args, kws, node):
        if not is_ground(ty):
            raise Unsupported("items of unknown")
        ety, q = self.ditems(st, ty, self.term(st, base), "items")
        return PyObj("iter", ety=ety, seq=q, live=base)

    def m_Dict_keys(self, st, base, ty, args, kws, node):
        ety, q = self.ditems(st, ty, self.term(st, base), "keys")
        return PyObj("iter", ety=ety, seq=q, live=base)

    def m_Dict_values(self, st, base, ty, args, kws, node):
        ety, q = self.ditems(st, ty, self.term(st, base), "values")
        return PyObj("iter", ety=ety, seq=q, live=base)

    def m_Dict_get(self, st, base, ty, args, kws, node):
        unify(ty.args[0], self.tyof(args[0]))
        k = self.term(st, args[0], ty.args[0])
        d = self.term(st, base)
        if len(args) == 1:
            vt = prune(ty.args[1])
            if vt.kind == "Ref":
                return V(vt, If(Has(d, k), Get(d, k), null))
            o = OPT(vt)
            so = sort(o)
            return V(o, If(Has(d, k), so.constructor(1)(Get(d, k)), so.constructor(0)()))
        dv = self.undefault(args[1])
        vt = prune(ty.args[1])
        if isinstance(dv, PyTuple) or isinstance(dv, H):
            if vt.kind == "Set" and isinstance(dv, (PyTuple, H)):
                # a tuple/list default for a set-typed domain: only membership and enumeration matter
                dt = self.set_of_literal(st, dv, vt)
            else:
                dt = self.term(st, dv, vt)
        else:
            dt = self.term(st, dv, vt)
        r = If(Has(d, k), Get(d, k), dt)
        return self.wrap(st, vt, r)

    def set_of_literal(self, st, dv, vt):
        if isinstance(dv, PyTuple):
            s = EmptySet(sort(vt.args[0]))
            for x in dv.items:
                s = z3.Store(s, self.term(st, x, vt.args[0]), True)
            return s
        t = self.read(st, dv)
        ty = prune(dv.ty)
        if ty.kind == "Set":
            return t
        s = EmptySet(sort(vt.args[0]))
        # unfold the literal list
        items = []
        while t.decl().name().startswith("app."):
            items.append(t.arg(1))
            t = t.arg(0)
        if not t.decl().name().startswith("empty."):
            raise Unsupported("default container")
        for x in reversed(items):
            s = z3.Store(s, self.term(st, V(ty.args[0], x), vt.args[0]), True)
        return s

    def m_Dict_copy(self, st, base, ty, args, kws, node):
        return self.newcell(st, ty, self.term(st, base))

    def m_Dict_update(self, st, base, ty, args, kws, node):
        self.dict_update(st, base, args[0])
        return NONEV

    def m_Dict_pop(self, st, base, ty, args, kws, node):
        d = self.read(st, base)
        k = self.term(st, args[0], ty.args[0])
        if len(args) == 1:
            self.obl(st, "safe:key", Has(d, k))
            self.write(st, base, DDel(d, k))
            return self.wrap(st, ty.args[1], Get(d, k))
        raise Unsupported("pop default")

    def m_Dict_setdefault(self, st, base, ty, args, kws, node):
        k = self.term(st, args[0], ty.args[0])
        d = self.read(st, base)
        dv = self.term(st, self.undefault(args[1]), ty.args[1])
        self.write(st, base, DStore(d, k, If(Has(d, k), Get(d, k), dv)))
        return self.getitem(st, base, args[0])

    def m_Str_format(self, st, base, ty, args, kws, node):
        lit = next((s for s, c in TH._strs.items() if z3.eq(c, self.term(st, base))), None)
        if lit is not None and "**" not in kws:
            import string
            parts, pieces, n = [], [], 0
            try:
                for text, field, spec, conv in string.Formatter().parse(lit):
                    if text:
                        pieces.append(text)
                    if field is not None:
                        if spec or conv not in (None, "s") or not (field == "" or field.isdigit() or field in kws):
                            raise ValueError(field)
                        parts.append(kws[field] if field in kws else args[int(field) if field else n])
                        pieces.append(None)
                        n += 1
            except (ValueError, IndexError):
                pieces = None
            if pieces is not None and ("Str", "pieces") in self.hooks:
                return self.format(st, lit, parts, pieces)
        if kws:
            return self.format(st, "{}" + str(self.term(st, base)) + ",".join(sorted(kws)), list(args) + [kws[k] for k in sorted(kws)])
        return self.format(st, "{}" + str(self.term(st, base)), args)

    def m_Str_upper(self, st, base, ty, args, kws, node):
        return V(STR, z3.Function("str_upper", Str, Str)(self.term(st, base)))

    def m_Str_lower(self, st, base, ty, args, kws, node):
        return V(STR, z3.Function("str_lower", Str, Str)(self.term(st, base)))

    def m_Str_strip(self, st, base, ty, args, kws, node):
        return V(STR, z3.Function("str_strip", Str, Str)(self.term(st, base)))

    def m_Str_join(self, st, base, ty, args, kws, node):
        ety, q = self.iter_seq(st, args[0])
        return V(STR, z3.Function("str_join", Str, q.sort(), Str)(self.term(st, base), q))

    # ---------- builtin functions
    def builtin(self, st, name, args, kws, node, mod):
        short = name
        if name in self.builtins:
            return self.builtins[name](self, st, args, kws, node, mod)
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is None and "." in name:
            m = getattr(self, "b_" + name.split(".")[-1], None) if name.split(".")[0] in ("itertools", "heapq", "copy", "collections") else None
        if m is None:
            raise Unsupported("builtin %s" % name)
        return m(st, args, kws, node, mod)

    def b_len(self, st, args, kws, node, mod):
        (x,) = args
        if isinstance(x, PyTuple):
            return V(INT, z3.IntVal(len(x.items)))
        if is_model(x, "length"):
            return x.a[0].length(self, st)
        if isinstance(x, PyObj) and x.kind == "iter":
            return V(INT, Len(x.k["seq"]))
        ty = self.tyof(x)
        if ty.kind == "Ref":
            for k in self.prog.mro(ty.args[0]):
                if (k, "len") in self.hooks:
                    return self.hooks[(k, "len")](self, st, x)
        if not is_ground(ty):
            if self.dry:
                return V(INT, z3.Int("dry!len"))
            return V(INT, z3.IntVal(0))
        t = self.term(st, x)
        if ty.kind == "Seq":
            return V(INT, Len(t))
        if ty.kind == "Set":
            return V(INT, card(t.sort().domain())(t))
        if ty.kind == "Dict":
            return V(INT, card(Dom(t).sort().domain())(Dom(t)))
        if ty.kind == "Str":
            return V(INT, z3.Function("str_len", Str, z3.IntSort())(t))
        raise Unsupported("len of %r" % ty)

    def b_list(self, st, args, kws, node, mod):
        if not args:
            return self.newcell(st, self.site(node, lambda: SEQ(TVar())), None)
        if isinstance(args[0], H) and prune(args[0].ty).kind == "Seq" and not is_ground(args[0].ty):
            return self.newcell(st, args[0].ty, None)
        ety, q = self.iter_seq(st, args[0])
        return self.newcell(st, SEQ(ety), q)

    def b_tuple(self, st, args, kws, node, mod):
        if args and isinstance(args[0], PyTuple):
            return args[0]
        if not args:
            return PyTuple([])
        if isinstance(args[0], H) and not is_ground(args[0].ty):
            raise Unsupported("tuple of unknown")
        ety, q = self.iter_seq(st, args[0])
        return V(T("Seq", ety), q)

    def b_set(self, st, args, kws, node, mod):
        if not args:
            return self.newcell(st, self.site(node, lambda: SET(TVar())), None)
        a = args[0]
        if isinstance(a, PyTuple):
            ety, q = self.iter_seq(st, a)
            return self.newcell(st, SET(ety), ToSet(q))
        ety = a.k["ety"] if isinstance(a, PyObj) and a.kind == "iter" else self.tyof(a).args[0]
        return self.newcell(st, SET(ety), self.as_set(st, a))

    b_frozenset = b_set

    def b_dict(self, st, args, kws, node, mod):
        if not args and not kws:
            return self.newcell(st, self.site(node, lambda: DICT(TVar(), TVar())), None)
        if kws:
            tys = [prune(self.tyof(v)) for v in kws.values()]
            if args or "**" in kws or any(skey(t) != skey(tys[0]) for t in tys):
                raise Unsupported("dict keywords")
            ty = DICT(STR, tys[0])
            sort(ty)
            h = self.newcell(st, ty, MkDict(ty, EmptySet(Str), z3.Const("nothing_yet", z3.ArraySort(Str, sort(tys[0])))))
            for k, v in kws.items():
                self.write(st, h, DStore(self.read(st, h), StrC(k), self.store_term(st, v, tys[0], "dict")))
            return h
        a = args[0]
        if isinstance(a, PyObj) and a.kind == "iter":
            return self.dict_from_pairs(st, node, a.k["ety"], a.k["seq"])
        if isinstance(a, PyObj) and a.kind == "kwdict":
            raise Unsupported("dict of kwargs")
        ty = self.tyof(a)
        if ty.kind == "Dict":
            return self.newcell(st, DICT(*ty.args), self.term(st, a))
        if ty.kind == "Seq" and prune(ty.args[0]).kind == "Pair":
            return self.dict_from_pairs(st, node, ty.args[0], self.term(st, a))
        raise Unsupported("dict of %r" % ty)

    def b_OrderedDict(self, st, args, kws, node, mod):
        return self.b_dict(st, args, kws, node, mod)

    def b_defaultdict(self, st, args, kws, node, mod):
        f = args[0]
        if not (isinstance(f, PyObj) and f.kind == "builtin" and f.a[0] in ("float", "int", "list", "set", "dict")):
            raise Unsupported("defaultdict factory")

        def mk():
            v = {"float": REAL, "int": INT, "list": SEQ(TVar()), "set": SET(TVar()), "dict": TVar()}[f.a[0]]
            return DICT(TVar(), v, default=f.a[0])

        return self.newcell(st, self.site(node, mk), None)

    def b_sorted(self, st, args, kws, node, mod):
        if set(kws) - {"key"}:
            raise Unsupported("sorted options")
        a = args[0]
        if isinstance(a, H) and prune(a.ty).kind == "Set" and not kws:
            t = self.term(st, a)
            if strict_lt(t.sort().domain()) is not None:
                sort(SEQ(prune(a.ty).args[0]))
                return self.newcell(st, SEQ(prune(a.ty).args[0]), SrtSet(t))
        ety, q = self.iter_seq(st, a)
        return self.newcell(st, SEQ(ety), self.sorted_term(st, ety, q, kws.get("key")))

    def b_range(self, st, args, kws, node, mod):
        ts = [self.term(st, x, INT) for x in args]
        lo, hi = (z3.IntVal(0), ts[0]) if len(ts) == 1 else (ts[0], ts[1])
        if len(ts) == 3:
            raise Unsupported("range step")
        f = z3.Function("range", z3.IntSort(), z3.IntSort(), sort(SEQ(INT)))
        q = f(lo, hi)
        i = z3.Int("i!rg")
        st.pc.append(Len(q) == If(hi > lo, hi - lo, 0))
        if z3.is_int_value(lo) and lo.as_long() == 0:
            st.pc.append(Imp(hi >= 0, Len(q) == hi))
        st.pc.append(FA(i, Imp(And(0 <= i, i < hi - lo), At(q, i) == lo + i), At(q, i)))
        st.pc.append(Distinct(q))
        x = z3.Int("x!rg")
        st.pc.append(FA(x, Mem(q, x) == And(lo <= x, x < hi), Mem(q, x)))
        return PyObj("iter", ety=INT, seq=q)

    def b_enumerate(self, st, args, kws, node, mod):
        ety, s = self.iter_seq(st, args[0])
        start = self.term(st, args[1] if len(args) > 1 else kws["start"], INT) if len(args) > 1 or "start" in kws else z3.IntVal(0)
        pt = PAIR(INT, ety)
        q = fresh("enumerate", SEQ(pt))
        i = z3.Int("i!en")
        st.pc.append(Len(q) == Len(s))
        st.pc.append(FA(i, Imp(InR(i, s), At(q, i) == MkPair(pt, start + i, At(s, i))), At(q, i), At(s, i)))
        return PyObj("iter", ety=pt, seq=q)

    def b_zip(self, st, args, kws, node, mod):
        if len(args) != 2:
            raise Unsupported("zip arity")
        (e1, a), (e2, b) = self.iter_seq(st, args[0]), self.iter_seq(st, args[1])
        pt = PAIR(e1, e2)
        f = z3.Function("zip." + skey(SEQ(pt)), a.sort(), b.sort(), sort(SEQ(pt)))
        q = f(a, b)
        i = z3.Int("i!zp")
        st.pc.append(Len(q) == If(Len(a) < Len(b), Len(a), Len(b)))
        st.pc.append(FA(i, Imp(InR(i, q), At(q, i) == MkPair(pt, At(a, i), At(b, i))), At(q, i), (At(a, i), q), (At(b, i), q)) if False else FA(i, Imp(And(0 <= i, i < Len(q)), At(q, i) == MkPair(pt, At(a, i), At(b, i))), At(q, i), At(a, i)))
        return PyObj("iter", ety=pt, seq=q)

    def b_reversed(self, st, args, kws, node, mod):
        ety, s = self.iter_seq(st, args[0])
        q = fresh("rev", s.sort())
        i = z3.Int("i!rv")
        x = z3.Const("x!rv", th(s).es)
        st.pc.append(Len(q) == Len(s))
        st.pc.append(FA(i, Imp(InR(i, s), At(q, i) == At(s, Len(s) - 1 - i)), At(q, i)))
        st.pc.append(FA(x, Mem(q, x) == Mem(s, x), Mem(q, x), Mem(s, x)))
        return PyObj("iter", ety=ety, seq=q)

    def b_any(self, st, args, kws, node, mod, neg=False):
        ety, q = self.iter_seq(st, args[0])
        i = fresh("qi", INT)
        b = self.truth(st, V(ety, At(q, i)))
        j = z3.Int("j!any")
        w = fresh("anyw", INT)
        r = fresh("any", BOOL)
        if not neg:
            st.pc.append(Imp(r, And(0 <= w, w < Len(q), z3.substitute(b, (i, w)))))
            st.pc.append(FA(i, Imp(And(InR(i, q), b), r), At(q, i)))
        else:
            st.pc.append(Imp(Not(r), And(0 <= w, w < Len(q), Not(z3.substitute(b, (i, w))))))
            st.pc.append(FA(i, Imp(And(InR(i, q), Not(b)), Not(r)), At(q, i)))
        return V(BOOL, r)

    def b_all(self, st, args, kws, node, mod):
        return self.b_any(st, args, kws, node, mod, neg=True)

    def b_isinstance(self, st, args, kws, node, mod):
        x, c = args
        if isinstance(c, PyTuple):
            rs = [self.b_isinstance(st, [x, k], {}, node, mod).t for k in c.items]
            return V(BOOL, z3.simplify(Or(*rs)))
        nm = c.a[0]
        if isinstance(x, PyNone):
            return V(BOOL, z3.BoolVal(False))
        ty = self.tyof(x)
        if c.kind == "builtin":
            kinds = {"list": "Seq", "set": "Set", "dict": "Dict", "str": "Str", "int": "Int", "float": "Real", "bool": "Bool", "tuple": "Pair"}
            if nm in kinds:
                if not isinstance(ty, TVar) and ty.kind == "Val" and nm in ("list", "set", "dict"):
                    return V(BOOL, z3.BoolVal(False))  # a Val is hashable
                if isinstance(ty, TVar) or ty.kind == "Val":
                    raise Unsupported("isinstance on unknown")
                if ty.kind == "Opt":
                    inner = prune(ty.args[0]).kind
                    here = fresh("seqkind", BOOL) if inner == "Seq" and nm in ("list", "tuple") else z3.BoolVal(kinds[nm] == inner)
                    return V(BOOL, And(sort(ty).recognizer(1)(self.term(st, x)), here))
                if ty.kind == "Bool" and nm == "int":
                    return V(BOOL, z3.BoolVal(True))
                if nm == "list" and ty.kind == "Seq":
                    return V(BOOL, z3.BoolVal(isinstance(x, H)))
                return V(BOOL, z3.BoolVal(kinds[nm] == ty.kind))
            if ("isinstance", nm) in self.hooks:
                return self.hooks[("isinstance", nm)](self, st, x)
            raise Unsupported("isinstance %s" % nm)
        if ty.kind != "Ref":
            return V(BOOL, z3.BoolVal(False))
        r = self.term(st, x)
        names = [nm] + self.prog.subclasses(nm)
        return V(BOOL, Or(*[clsof(r) == self.prog.clsid(k) for k in names]))

    def extreme(self, st, args, kws, name, flip):
        if set(kws) - {"key"}:
            raise Unsupported(name)
        ety, q = self.iter_seq(st, args[0])
        self.obl(st, "safe:%s-of-nonempty" % name, Len(q) > 0)
        m = fresh("arg" + name, INT)
        i = fresh("mi", INT)
        n = len(st.pc)
        if "key" in kws:
            kx = self.call(st, kws["key"], [self.wrap(st, ety, At(q, m))], {}, None, None)
            ky = self.call(st, kws["key"], [self.wrap(st, ety, At(q, i))], {}, None, None)
        else:
            kx, ky = self.wrap(st, ety, At(q, m)), self.wrap(st, ety, At(q, i))
        kt = self.tyof(kx)
        a, b = self.term(st, kx), self.term(st, ky)
        del st.pc[n:]
        lt = self.lex_lt(kt, b, a) if not flip else self.lex_lt(kt, a, b)
        le = self.lex_lt(kt, a, b) if not flip else self.lex_lt(kt, b, a)
        if lt is None:
            raise Unsupported("%s of unordered values" % name)
        st.pc.append(And(0 <= m, m < Len(q)))
        st.pc.append(FA(i, Imp(InR(i, q), And(Not(lt), Imp(i < m, le))), At(q, i)))
        return self.wrap(st, ety, At(q, m))

    def b_min(self, st, args, kws, node, mod):
        if len(args) == 2 and not kws:
            k = REAL if "Real" in (self.tyof(args[0]).kind, self.tyof(args[1]).kind) else INT
            a, b = self.term(st, args[0], k), self.term(st, args[1], k)
            return V(k, If(b < a, b, a))
        return self.extreme(st, args, kws, "min", False)

    def b_str(self, st, args, kws, node, mod):
        if self.tyof(args[0]).kind == "Str":
            return args[0]
        return self.format(st, "str", args)

    b_repr = b_str

    def b_float(self, st, args, kws, node, mod):
        return V(REAL, self.term(st, args[0], REAL))

    def b_combinations(self, st, args, kws, node, mod):
        n = z3.simplify(self.term(st, args[1]))
        if not (z3.is_int_value(n) and n.as_long() == 2):
            raise Unsupported("combinations arity")
        ety, s = self.iter_seq(st, args[0])
        pt = PAIR(ety, ety)
        f = comb2_fun(ety)
        I = z3.IntSort()
        l = z3.Function("comb2l." + skey(SEQ(pt)), s.sort(), I, I)
        r = z3.Function("comb2r." + skey(SEQ(pt)), s.sort(), I, I)
        pos = z3.Function("comb2p." + skey(SEQ(pt)), s.sort(), I, I, I)
        q = f(s)
        k, i, j = z3.Ints("k!cb i!cb j!cb")
        st.pc.append(self.tag("comb2", FA(k, Imp(InR(k, q), And(0 <= l(s, k), l(s, k) < r(s, k), r(s, k) < Len(s), At(q, k) == MkPair(pt, At(s, l(s, k)), At(s, r(s, k))), pos(s, l(s, k), r(s, k)) == k)), At(q, k))))
        st.pc.append(self.tag("comb2", FA([i, j], Imp(And(0 <= i, i < j, j < Len(s)), And(0 <= pos(s, i, j), pos(s, i, j) < Len(q), l(s, pos(s, i, j)) == i, r(s, pos(s, i, j)) == j, At(q, pos(s, i, j)) == MkPair(pt, At(s, i), At(s, j)))), (At(s, i), At(s, j)))))
        return PyObj("iter", ety=pt, seq=q)

    def b_product(self, st, args, kws, node, mod):
        if len(args) == 1 and isinstance(args[0], PyObj) and args[0].kind == "star":
            ety, s = self.iter_seq(st, args[0].a[0])
            et = prune(ety)
            if et.kind != "Seq":
                raise Unsupported("product of %r" % et)
            q = product_term(s)
            return PyObj("iter", ety=et, seq=q)
        if len(args) == 2:
            (e1, a), (e2, b) = self.iter_seq(st, args[0]), self.iter_seq(st, args[1])
            pt = PAIR(e1, e2)
            q = fresh("prod2", SEQ(pt))
            x = z3.Const("x!p2", sort(pt))
            st.pc.append(FA(x, Mem(q, x) == And(Mem(a, P(x, 0)), Mem(b, P(x, 1))), Mem(q, x)))
            u, w = z3.Const("u!p2", sort(e1)), z3.Const("w!p2", sort(e2))
            st.pc.append(FA([u, w], Imp(And(Mem(a, u), Mem(b, w)), Mem(q, MkPair(pt, u, w))), (Mem(a, u), Mem(b, w))))
            st.pc.append(Imp(And(Distinct(a), Distinct(b)), Distinct(q)))
            return PyObj("iter", ety=pt, seq=q)
        raise Unsupported("product")

    def b_heappush(self, st, args, kws, node, mod):
        """heappush on a list whose first element is its least: keeps that, and adds one element"""
        base, x = args
        ty = self.tyof(base)
        unify(ty.args[0], self.tyof(x))
        t = self.store_term(st, x, ty.args[0], "heappush")
        s = self.read(st, base)
        q = fresh("heap", ty)
        j, y = z3.Int("j!hp"), z3.Const("y!hp", sort(ty.args[0]))
        lt = self.lex_lt(ty.args[0], At(q, j), At(q, 0))
        if lt is None:
            raise Unsupported("heap of unordered values")
        self.obl(st, "safe:heap", FA(j, Imp(InR(j, s), Not(self.lex_lt(ty.args[0], At(s, j), At(s, 0)))), At(s, j)))
        st.pc.append(Len(q) == Len(s) + 1)
        st.pc.append(FA(y, Mem(q, y) == Or(Mem(s, y), y == t), Mem(q, y), Mem(s, y)))
        st.pc.append(Mem(q, t))
        st.pc.append(FA(j, Imp(InR(j, q), Not(lt)), At(q, j)))
        self.write(st, base, q)
        return NONEV

    def b_deepcopy(self, st, args, kws, node, mod):
        (x,) = args
        if isinstance(x, H):
            ty = self.tyof(x)
            if "Ref" in repr(ty):
                raise Unsupported("deepcopy of references")
            return self.newcell(st, ty, self.term(st, x))
        ty = self.tyof(x)
        if ty.kind == "Opt" and prune(ty.args[0]).kind in ("Seq", "Set", "Dict"):
            return self.b_deepcopy(st, [self.some(st, x)], kws, node, mod)
        if ty.kind in ("Seq", "Set", "Dict") and "Ref" not in repr(ty):
            return self.newcell(st, ty, self.term(st, x))
        if ty.kind == "Ref":
            q = "deepcopy:" + ty.args[0]
            if q in self.contracts:
                return self.call_contract(st, self.contracts[q], [x], {}, node, mod)
        raise Unsupported("deepcopy")

    b_copy_deepcopy = b_deepcopy

    def b_hasattr(self, st, args, kws, node, mod):
        x, n = args
        nm = node.args[1].value
        ty = self.tyof(x)
        if ty.kind == "Ref":
            f = self.prog.field(ty.args[0], "?" + nm)
            if f:
                return V(BOOL, self.hget(st, f[0])[self.term(st, x)])
        raise Unsupported("hasattr")

    def b_super(self, st, args, kws, node, mod):
        cls = self.curcls if not args else args[0].a[0]
        base = self.prog.bases(cls)[0]
        selfv = args[1] if len(args) > 1 else st.env["self"]
        if base == "object":
            return PyObj("super", "object", selfv)
        return PyObj("super", base, selfv)

    def b_print(self, st, args, kws, node, mod):
        return NONEV

    def b_StringIO(self, st, args, kws, node, mod):
        if args or kws:
            raise Unsupported("StringIO with a start text")
        return self.newcell(st, TEXT, StrC(""))

    def m_Text_write(self, st, base, ty, args, kws, node):
        self.write(st, base, TextAdd(self.read(st, base), self.term(st, args[0], STR)))
        return V(INT, fresh("written", INT))

    def m_Text_getvalue(self, st, base, ty, args, kws, node):
        return V(STR, self.read(st, base))

    def b_next(self, st, args, kws, node, mod):
        raise Unsupported("next")

    def b_iter(self, st, args, kws, node, mod):
        ety, q = self.iter_seq(st, args[0])
        return PyObj("iter", ety=ety, seq=q)

    def b_sum(self, st, args, kws, node, mod):
        ety, q = self.iter_seq(st, args[0])
        if len(args) > 1:
            raise Unsupported("sum start")
        f = sum_fun(q.sort())
        return V(prune(ety), f(q, Len(q)))

    def b_abs(self, st, args, kws, node, mod):
        t = self.term(st, args[0])
        return V(self.tyof(args[0]), If(t < 0, -t, t))

    def b_max(self, st, args, kws, node, mod):
        if len(args) == 2:
            k = REAL if "Real" in (self.tyof(args[0]).kind, self.tyof(args[1]).kind) else INT
            a, b = self.term(st, args[0], k), self.term(st, args[1], k)
            return V(k, If(b > a, b, a))
        return self.extreme(st, args, kws, "max", True)

    # ---------- binding of targets
    def bind(self, target, v, st, mod):
        if isinstance(target, ast.Name):
            v = self.undefault(v)
            st.env[target.id] = v
            st.maybe.pop(target.id, None)
            for w in self.wlogs:
                w["names"].add(target.id)
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(target.elts))
            for t, x in zip(target.elts, items):
                self.bind(t, x, st, mod)
            return
        if isinstance(target, ast.Attribute):
            base = self.ev(target.value, st, mod)
            self.setattr(st, base, target.attr, v, mod)
            return
        if isinstance(target, ast.Subscript):
            base = self.ev(target.value, st, mod)
            if isinstance(target.slice, ast.Slice):
                raise Unsupported("slice assignment")
            idx = self.ev(target.slice, st, mod)
            self.setitem(st, base, idx, v)
            return
        raise Unsupported("target %s" % type(target).__name__)

    def unpack(self, st, v, n):
        if isinstance(v, PyTuple):
            if len(v.items) != n:
                raise Unsupported("unpacking arity")
            return v.items
        ty = self.tyof(v)
        if ty.kind == "Pair":
            if len(ty.args) != n:
                raise Unsupported("unpacking arity")
            t = self.term(st, v)
            return [self.wrap(st, a, P(t, i)) for i, a in enumerate(ty.args)]
        if ty.kind == "Seq":
            t = self.term(st, v)
            self.obl(st, "safe:unpack", Len(t) == n)
            return [self.wrap(st, ty.args[0], At(t, z3.IntVal(i))) for i in range(n)]
        raise Unsupported("unpacking %r" % ty)

    def setattr(self, st, base, name, v, mod):
        if isinstance(base, PyObj) and base.kind == "closure":
            f = self.prog.field("function", name)
            r = base.k["ref"]
        else:
            ty = self.tyof(base)
            if ty.kind != "Ref":
                raise Unsupported("attribute store on %r" % ty)
            r = self.term(st, base)
            q = self.prog.method(ty.args[0], name + "@setter")
            if q is not None:
                return self.call(st, PyObj("bound", q, base), [v], {}, None, mod)
            if (ty.args[0], name + "=") in self.hooks:
                self.hooks[(ty.args[0], name + "=")](self, st, base, v)
                return
            f = self.prog.field(ty.args[0], name)
            if f is None:
                subs = [s for s in self.prog.subclasses(ty.args[0]) if self.prog.field(s, name)]
                if subs:
                    f = self.prog.field(subs[0], name)
        if f is None:
            if isinstance(v, PyNone) or (isinstance(v, V)):
                # a field no contract mentions: dropped, recorded
                self.dropped.add("field:" + name)
                return
            raise Unsupported("unknown field %s" % name)
        key, fty = f
        hk = key.split(".")[0] + ".?" + name
        if ("?" + name) in self.prog.fields.get(key.split(".")[0], {}):
            st.heap[hk] = self.named(st, z3.Store(self.hget(st, hk), r, True), 'H.' + hk)
            self.log(("field", r, hk))
        t = self.named(st, self.store_term(st, v, fty, "field %s" % key, ("field", r, key)), "fv")
        arr = self.hget(st, key)
        st.heap[key] = self.named(st, z3.Store(arr, r, t), "H." + key)
        self.log(("field", r, key))

    def setitem(self, st, base, idx, v):
        if is_model(base, "setitem"):
            return base.a[0].setitem(self, st, idx, v)
        if isinstance(base, PyObj):
            raise Unsupported("item store")
        ty = self.tyof(base)
        h = self.ref_hook("[]=", ty)
        if h:
            return h(self, st, base, idx, v)
        if ty.kind == "Dict":
            unify(ty.args[0], self.tyof(idx))
            if not isinstance(v, PyNone):
                unify(ty.args[1], self.tyof(v))
            k = self.term(st, idx, ty.args[0])
            t = self.store_term(st, v, ty.args[1], "dict element", ("elem", base, k))
            if not is_ground(ty):
                raise Unsupported("dict of unknown types")
            self.write(st, base, DStore(self.read(st, base), k, t))
            return
        if ty.kind == "Seq":
            s = self.read(st, base)
            i = self.term(st, idx, INT)
            self.obl(st, "safe:index", And(-Len(s) <= i, i < Len(s)))
            i = self.named(st, self.simp_index(i, s), 'ix')
            t = self.store_term(st, v, ty.args[0], "list element")
            r = fresh("upd", s.sort())
            j = z3.Int("j!up")
            st.pc.append(Len(r) == Len(s))
            st.pc.append(FA(j, Imp(InR(j, s), At(r, j) == If(j == i, t, At(s, j))), At(r, j), At(s, j)))
            self.write(st, base, r)
            return
        raise Unsupported("item store on %r" % ty)

    # ---------- statements: return list of (kind, state, value)
    forks = None

    def block(self, stmts, st, mod):
        outs = []
        work = [(st, 0)]
        n = 0
        while work:
            s, i = work.pop()
            if i == len(stmts):
                outs.append(("next", s, None))
                continue
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported("too many paths")
            for kind, s2, v in self.stmt(stmts[i], s, mod):
                if kind == "next":
                    work.append((s2, i + 1))
                else:
                    outs.append((kind, s2, v))
        return outs

    def stmt(self, x, st, mod):
        m = getattr(self, "st_" + type(x).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(x).__name__)
        if self.dry:
            snap = None
            try:
                return m(x, st, mod)
            except (Unsupported, TypeClash, z3.Z3Exception) as e:
                if isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    return [("raise", st, "dry")]
                return [("next", st, None)]
        try:
            return m(x, st, mod)
        except ForkNeeded as f:
            raise Unsupported("branching helper in an expression")

    def st_Pass(self, x, st, mod):
        return [("next", st, None)]

    st_Import = st_ImportFrom = st_Global = st_Pass

    def st_Expr(self, x, st, mod):
        if isinstance(x.value, ast.Constant):
            return [("next", st, None)]
        return self.with_forks(x.value, st, mod, lambda s, v: [("next", s, None)])

    def with_forks(self, e, st, mod, k):
        """evaluate e; if it is a direct call of an inlined branching helper, continue on every path"""
        sv = self.forks
        self.forks = True
        try:
            if isinstance(e, ast.Call):
                try:
                    v = self.ev(e, st, mod)
                    return k(st, v)
                except ForkNeeded as f:
                    if self.dry:
                        s, v = f.res[0]
                        out = []
                        for s, v in f.res:
                            out += k(s, v)
                        return out
                    out = []
                    for s, v in f.res:
                        out += k(s, v)
                    return out
            v = self.ev(e, st, mod)
            return k(st, v)
        except Raised as r:
            return []
        finally:
            self.forks = sv

    def st_Assign(self, x, st, mod):
        def k(s, v):
            for t in x.targets:
                self.bind(t, v, s, mod)
            return [("next", s, None)]
        if not isinstance(x.value, ast.IfExp):
            return self.with_forks(x.value, st, mod, k)
        before, nobl, nexit = st.fork(), len(self.obls), len(self.raise_exits)
        try:
            return self.with_forks(x.value, st, mod, k)
        except Unsupported as u:
            if "side effect" not in str(u):
                raise
            # x = a if c else b, as the statement it abbreviates
            st.become(before)
            del self.obls[nobl:], self.raise_exits[nexit:]
            if not hasattr(x, "as_if"):
                arms = [[ast.copy_location(ast.Assign(x.targets, v), x)] for v in (x.value.body, x.value.orelse)]
                x.as_if = ast.copy_location(ast.If(x.value.test, *arms), x)
            return self.st_If(x.as_if, st, mod)

    def st_AnnAssign(self, x, st, mod):
        if x.value is None:
            return [("next", st, None)]
        def k(s, v):
            self.bind(x.target, v, s, mod)
            return [("next", s, None)]
        return self.with_forks(x.value, st, mod, k)

    def st_AugAssign(self, x, st, mod):
        if isinstance(x.target, ast.Name):
            cur = self.lookup(st, x.target.id, mod)
            v = self.ev(x.value, st, mod)
            if isinstance(cur, H):
                ty = prune(cur.ty)
                if ty.kind == "Seq" and isinstance(x.op, ast.Add):
                    self.m_Seq_extend(st, cur, ty, [v], {}, x)
                    return [("next", st, None)]
                if ty.kind == "Set" and isinstance(x.op, ast.BitOr):
                    self.m_Set_update(st, cur, ty, [v], {}, x)
                    return [("next", st, None)]
                raise Unsupported("augmented assignment")
            r = self.binop(st, x.op, cur, v)
            self.bind(x.target, r, st, mod)
            return [("next", st, None)]
        if isinstance(x.target, ast.Subscript):
            base = self.ev(x.target.value, st, mod)
            idx = self.ev(x.target.slice, st, mod)
            cur = self.getitem(st, base, idx)
            v = self.ev(x.value, st, mod)
            if isinstance(cur, H):
                ty = prune(cur.ty)
                if ty.kind == "Seq" and isinstance(x.op, ast.Add):
                    self.m_Seq_extend(st, cur, ty, [v], {}, x)
                    return [("next", st, None)]
                raise Unsupported("augmented assignment")
            self.setitem(st, base, idx, self.binop(st, x.op, cur, v))
            return [("next", st, None)]
        if isinstance(x.target, ast.Attribute):
            base = self.ev(x.target.value, st, mod)
            cur = self.attr(st, base, x.target.attr, mod, x)
            v = self.ev(x.value, st, mod)
            if isinstance(cur, H):
                ty = prune(cur.ty)
                if ty.kind == "Seq" and isinstance(x.op, ast.Add):
                    self.m_Seq_extend(st, cur, ty, [v], {}, x)
                    return [("next", st, None)]
                raise Unsupported("augmented assignment")
            self.setattr(st, base, x.target.attr, self.binop(st, x.op, cur, v), mod)
            return [("next", st, None)]
        raise Unsupported("augmented assignment")

    def st_Return(self, x, st, mod):
        if x.value is None:
            return [("return", st, NONEV)]
        return self.with_forks(x.value, st, mod, lambda s, v: [("return", s, v)])

    def st_Break(self, x, st, mod):
        return [("break", st, None)]

    def st_Continue(self, x, st, mod):
        return [("continue", st, None)]

    def st_Delete(self, x, st, mod):
        for t in x.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, mod)
                ty = self.tyof(base)
                if ty.kind != "Dict":
                    raise Unsupported("del")
                d = self.read(st, base)
                k = self.term(st, self.ev(t.slice, st, mod), ty.args[0])
                self.obl(st, "safe:key", Has(d, k))
                self.write(st, base, DDel(d, k))
            else:
                raise Unsupported("del")
        return [("next", st, None)]

    def st_Assert(self, x, st, mod):
        c = self.cond(x.test, st, mod)
        self.obl(st, "assert", z3.BoolVal(c) if isinstance(c, bool) else c)
        return [("next", st, None)]

    def st_Raise(self, x, st, mod):
        e = x.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                try:
                    self.ev(a, st, mod)
                except (Unsupported, TypeClash):
                    pass
            e = e.func
        nm = ast.unparse(e) if e is not None else "reraise"
        return [("raise", st, nm)]

    def st_If(self, x, st, mod):
        c = self.cond(x.test, st, mod)
        if self.dry and not isinstance(c, bool):
            s2 = st.fork()
            a = self.block(x.body, st, mod)
            b = self.block(x.orelse, s2, mod)
            na = [o for o in a if o[0] == "next"]
            nb = [o for o in b if o[0] == "next"]
            rest = [o for o in a + b if o[0] != "next"]
            if na and nb:
                sa, sb = na[0][1], nb[0][1]
                for k, v in sb.env.items():
                    if k not in sa.env:
                        sa.env[k] = v
                    else:
                        o = sa.env[k]
                        if isinstance(o, V) and isinstance(v, V):
                            if prune(o.ty) is not prune(v.ty) and {getattr(prune(o.ty), "kind", 0), getattr(prune(v.ty), "kind", 0)} == {"Int", "Real"}:
                                sa.env[k] = V(REAL, fresh("dry", REAL))
                        elif isinstance(o, PyNone) and not isinstance(v, PyNone):
                            sa.env[k] = v
                for cid, cell in sb.cells.items():
                    sa.cells.setdefault(cid, cell)
                for key, arr in sb.heap.items():
                    sa.heap.setdefault(key, arr)
                return [("next", sa, None)] + rest
            return na[:1] + nb[:1] + rest
        if c is True:
            return self.block(x.body, st, mod)
        if c is False:
            return self.block(x.orelse, st, mod)
        s2 = st.fork()
        st.pc.append(c)
        s2.pc.append(Not(c))
        return self.block(x.body, st, mod) + self.block(x.orelse, s2, mod)

    def st_With(self, x, st, mod):
        raise Unsupported("with")

    def st_Try(self, x, st, mod):
        """exceptions raised in the body (by raise statements and by calls under contract) reach the handlers;
        failures of built-in operations are still obligations and never reach a handler"""
        if x.finalbody:
            raise Unsupported("finally")
        n0 = len(self.raise_exits)
        outs = self.block(x.body, st, mod)
        raised = self.raise_exits[n0:]
        del self.raise_exits[n0:]
        res = []
        for kind, s, v in outs:
            if kind == "raise":
                raised.append((s, v))
            elif kind == "next" and x.orelse:
                res += self.block(x.orelse, s, mod)
            else:
                res.append((kind, s, v))
        for s, exc in raised:
            for h in x.handlers:
                names = [] if h.type is None else [ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is None or exc in names or "Exception" in names:
                    if h.name:
                        s.env[h.name] = PyObj("exception", exc)
                    res += self.block(h.body, s, mod)
                    break
            else:
                res.append(("raise", s, exc))
        return res

    def st_FunctionDef(self, x, st, mod):
        r = fresh("fn_" + x.name, REF("function"))
        st.pc.append(birth(r) == st.now)
        st.pc.append(r != null)
        nn = fresh("now", INT)
        st.pc.append(nn == st.now + 1)
        st.now = nn
        c = PyObj("closure", x, mod, ref=r, env=dict(st.env))
        if "function.?argspec" in [k for k in []]:
            pass
        f = self.prog.field("function", "?argspec") if "function" in self.prog.fields or self.prog.extra_bases.get("function") else None
        if f:
            st.heap[f[0]] = self.named(st, z3.Store(self.hget(st, f[0]), r, False), 'H.' + f[0])
            self.log(("field", r, f[0]))
        st.env[x.name] = c
        for w in self.wlogs:
            w["names"].add(x.name)
        return [("next", st, None)]

    def call_closure_value(self, st, f, args, kws, node, mod):
        name = f.a[0].name
        if "closure:" + name in self.builtins:
            return self.builtins["closure:" + name](self, st, f, args, kws)
        e = self.as_expression(f.a[0].body)
        if e is None or f.a[0].decorator_list:
            raise Unsupported("call of a local function")
        # evaluated in place; the variables it captures must be those of its definition
        env, bound = f.k["env"], self.bindargs(f.a[0], args, kws, st, mod)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id not in bound and env.get(n.id) is not None and st.env.get(n.id) is not env.get(n.id):
                raise Unsupported("captured variable %s changes" % n.id)
        saved, sm = st.env, st.maybe
        st.env = dict(st.env)
        st.env.update({k: self.undefault(v) for k, v in bound.items()})
        try:
            return self.ev(e, st, f.a[1])
        finally:
            st.env, st.maybe = saved, sm

    def as_expression(self, body):
        """if c: return a; return b  ->  a if c else b"""
        body = [x for x in body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass)]
        if not body:
            return None
        x = body[0]
        if isinstance(x, ast.Return):
            return x.value
        if isinstance(x, ast.If):
            a, b = self.as_expression(x.body), self.as_expression(x.orelse + body[1:])
            if a is not None and b is not None:
                return ast.copy_location(ast.IfExp(test=x.test, body=a, orelse=b), x)
        return None

    def run_closure(self, st, clo, argvals):
        """symbolically run the body of closure `clo` in state st (env = captured env). -> [(state, value)]"""
        x, mod = clo.a
        s = st.fork()
        env = dict(s.env)
        fd = x
        bound = self.bindargs(fd, argvals, {}, s, mod)
        s.env = env
        s.env.update(bound)
        outs = self.block(fd.body, s, mod)
        return [(o[1], o[2]) for o in outs if o[0] == "return"]

    # ---------- loops
    def dry_body(self, body, st, mod, prebind):
        """run the body once without obligations to find what it writes and its types"""
        w = {"cells": set(), "fields": set(), "names": set()}
        s = st.fork()
        old = self.wlogs
        self.wlogs = tuple(old) + (w,)
        self.dry += 1
        try:
            prebind(s)
            outs = self.block(body, s, mod)
        finally:
            self.dry -= 1
            self.wlogs = old
        ends = [o[1] for o in outs if o[0] in ("next", "continue", "break")]
        return w, ends

    def loop_targets(self, t, acc):
        if isinstance(t, ast.Name):
            acc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.loop_targets(x, acc)
        return acc

    def havoc(self, st, w, ends, entry):
        """replace everything the loop body may write by unconstrained values"""
        for cid in w["cells"]:
            if cid in st.cells:
                c = st.cells[cid]
                if c.fwd is not None:
                    continue
                if not is_ground(c.ty):
                    c.t = None
                    raise Unsupported("loop writes a container of unknown type")
                c.t = fresh("hv", c.ty)
        if "@alloc" in w["fields"]:
            nn = fresh("now", INT)
            st.pc.append(nn >= st.now)
            st.now = nn
        for key in sorted(w["fields"]):
            if key == "@alloc":
                continue
            old = self.hget(st, key)
            st.heap[key] = fresh("H." + key, old.sort())
            for f in self.wf_field(key, st.heap[key], st.now):
                st.pc.append(self.tag("wf", f))
        for nm in sorted(w["names"]):
            cands = [e.env[nm] for e in ends if nm in e.env]
            old = entry.env.get(nm)
            if old is None:
                if not cands:
                    continue
                v = self.fresh_like(st, cands[0], nm)
                if v is None:
                    st.env.pop(nm, None)
                    continue
                st.env[nm] = v
                st.maybe[nm] = fresh("def_" + nm, BOOL)
                continue
            vals = [v for v in [old] + cands]
            # numeric widening
            tys = []
            for v in vals:
                try:
                    tys.append(self.tyof(v))
                except Unsupported:
                    tys.append(None)
            if all(isinstance(v, V) for v in vals):
                kinds = {prune(v.ty).kind for v in vals if isinstance(prune(v.ty), T)}
                ty = REAL if kinds == {"Int", "Real"} else prune(old.ty)
                t = fresh(nm, ty)
                st.env[nm] = V(ty, t)
                if ty.kind == "Ref":
                    st.pc.append(birth(t) < st.now)
            elif isinstance(old, PyNone) and cands and all(isinstance(c, (V, PyNone)) for c in cands):
                c = [c for c in cands if isinstance(c, V)]
                if c:
                    ty = prune(c[0].ty)
                    ty = ty if ty.kind in ("Ref", "Opt") else OPT(ty)
                    st.env[nm] = V(ty, fresh(nm, ty))
            else:
                v = self.fresh_like(st, cands[0] if cands else old, nm)
                if v is None:
                    raise Unsupported("loop rebinds %s" % nm)
                st.env[nm] = v
            if nm in entry.maybe:
                st.maybe[nm] = fresh("def_" + nm, BOOL)
                st.pc.append(Imp(entry.maybe[nm], st.maybe[nm]))

    def fresh_like(self, st, v, nm):
        if isinstance(v, V):
            if not is_ground(v.ty):
                return None
            t = fresh(nm, v.ty)
            if prune(v.ty).kind == "Ref":
                st.pc.append(birth(t) < st.now)
            return V(prune(v.ty), t)
        if isinstance(v, PyTuple):
            items = [self.fresh_like(st, x, nm) for x in v.items]
            return None if any(i is None for i in items) else PyTuple(items)
        if isinstance(v, H):
            if not is_ground(v.ty):
                return None
            h = self.newcell(st, v.ty, fresh(nm, v.ty))
            h.borrowed = True
            return h
        if isinstance(v, PyNone):
            return v
        return None

    def loop_spec(self, node):
        k = (id(node), self.instance)
        if k not in self.loop_ord:
            self.loop_ord[k] = len(self.loop_ord)
        n = self.loop_ord[k]
        loops = self.con.loops
        n = self.loopmap.get(n, n)
        return n, (loops[n] if n is not None and n < len(loops) else LoopSpec())

    loopmap = {}

    def lctx(self, st, entry, i, S, node):
        lp = LoopCtx(self, self.ctx0.a, self.ctx0.o.heap, st.heap, self.ctx0.now0, st.now, st=st)
        lp.entry, lp.i, lp.S = entry, i, S
        lp.h0 = HeapView(self, entry.heap)
        lp.now_entry = entry.now
        lp.outer = self.loopstack[-1] if self.loopstack else None
        info = self.seqinfo.get(S.get_id()) if S is not None else None
        lp.ks = info[0] if info else S
        lp.dict = info[1] if info else None
        return lp

    loopstack = ()

    def st_For(self, x, st, mod):
        src = self.ev(x.iter, st, mod)
        ety, S = self.iter_seq(st, src)
        if is_model(src, "live"):
            live = src.a[0].live(self, st)
        else:
            live = src if isinstance(src, H) else (src.k.get("live") if isinstance(src, PyObj) and src.kind == "iter" else None)
        if self.dry:
            try:
                self.bind(x.target, self.wrap(st, ety, fresh("dryx", ety)), st, mod)
                outs = self.block(x.body, st, mod)
            except (Unsupported, TypeClash, z3.Z3Exception):
                return [("next", st, None)]
            rest = [o for o in outs if o[0] in ("return", "raise")]
            nxt = [o[1] for o in outs if o[0] in ("next", "continue", "break")]
            s = nxt[0] if nxt else st
            return [("next", s, None)] + rest
        return self.run_loop(x, st, mod, ety, S, live)

    def st_While(self, x, st, mod):
        if self.dry:
            try:
                self.cond(x.test, st, mod)
            except (Unsupported, TypeClash, z3.Z3Exception):
                pass
            outs = self.block(x.body, st, mod)
            rest = [o for o in outs if o[0] in ("return", "raise")]
            nxt = [o[1] for o in outs if o[0] in ("next", "continue", "break")]
            return [("next", nxt[0] if nxt else st, None)] + rest
        return self.run_loop(x, st, mod, None, None, None)

    def run_loop(self, x, st, mod, ety, S, live):
        isfor = S is not None
        n, spec = self.loop_spec(x)
        tag = "loop%d" % n if n is not None else "loopx"
        self.loops_seen.add(n)

        def prebind(s):
            if isfor:
                self.bind(x.target, self.wrap(s, ety, fresh("dryx", ety)), s, mod)
            else:
                self.cond(x.test, s, mod)

        # two dry runs: types found by the first are used by the second
        for _ in range(2):
            w, ends = self.dry_body(x.body, st, mod, prebind)
        entry = st.fork()
        if live is not None:
            loc = self.resolve(st, live)
            if (loc[0] == "cell" and loc[1] in w["cells"]) or (loc[0] == "field" and loc[2] in w["fields"]):
                # the iterated container may be written by the body
                self.obl_live = True
                lv = live
            else:
                lv = None
        else:
            lv = None
        for cid in w["cells"]:
            if cid in st.cells and st.cells[cid].t is None and st.cells[cid].fwd is None:
                self.read(st, H(st.cells[cid].ty, ("cell", cid)))
                self.read(entry, H(st.cells[cid].ty, ("cell", cid)))
        i0 = z3.IntVal(0)
        # invariant on entry
        lp = self.lctx(st, entry, i0, S, x)
        for lab, f in spec.inv(lp):
            self.obl(st, "%s:inv:%s:entry" % (tag, lab), f)
        # arbitrary iteration
        hs = st.fork()
        self.havoc(hs, w, ends, entry)
        i = fresh("i", INT)
        lph = self.lctx(hs, entry, i, S, x)
        if isfor:
            hs.pc.append(And(0 <= i, i <= Len(S)))
            # names bound by every iteration are defined once i > 0
            sure = set(w["names"])
            for e in ends:
                sure &= {k for k in e.env if k not in e.maybe}
            for nm in sure:
                if nm in hs.maybe:
                    hs.pc.append(Imp(i > 0, hs.maybe[nm]))
        for lab, f in spec.inv(lph):
            hs.pc.append(self.tag("%s:%s" % (tag, lab), f))
        body = hs.fork()
        after = hs
        if spec.body is not None:
            self.restrict(body, spec.body)
        outs = []
        self.loopstack = tuple(self.loopstack) + (lph,)
        try:
            if isfor:
                body.pc.append(i < Len(S))
                if lv is not None:
                    t0 = self.read(entry, lv)
                    t1 = self.read(body, lv)
                    if prune(lv.ty).kind in ("Dict", "Set"):
                        self.obl(body, "safe:iterated-container-unchanged", (Dom(t0) == Dom(t1)) if prune(lv.ty).kind == "Dict" else t0 == t1)
                    else:
                        self.obl(body, "safe:iterated-container-unchanged", t0 == t1)
                self.bind(x.target, self.wrap(body, ety, At(S, i)), body, mod)
                starts = [body]
            else:
                c = self.cond(x.test, body, mod)
                c2 = self.cond(x.test, after, mod) if c is not True else True
                if not isinstance(c, bool):
                    body.pc.append(c)
                    after.pc.append(Not(c2))
                starts = [body] if c is not False else []
                if c is True:
                    after = None
            for b in starts:
                lp0 = self.lctx(b, entry, i, S, x)
                lp0.outer = lph.outer
                dec0 = spec.decreases(lp0) if spec.decreases else None
                for kind, s, v in self.block(x.body, b, mod):
                    if kind in ("next", "continue"):
                        for cid, c in entry.cells.items():
                            if c.fwd is None and s.cells[cid].fwd is not None:
                                self.obl(s, "ownership:%s moves a container created before the loop" % tag, z3.BoolVal(False))
                        lpe = self.lctx(s, entry, i + 1, S, x)
                        lpe.prev = body
                        lpe.outer = lph.outer
                        for lab, f in spec.inv(lpe):
                            self.obl(s, "%s:inv:%s:preserved" % (tag, lab), f)
                        if dec0 is not None:
                            d1 = spec.decreases(lpe)
                            self.obl(s, "%s:decreases" % tag, And(dec0 >= 0, d1 < dec0))
                        if lv is not None:
                            t1 = self.read(s, lv)
                            t0 = self.read(entry, lv)
                            self.obl(s, "%s:safe:iterated-container-unchanged" % tag, (Dom(t0) == Dom(t1)) if prune(lv.ty).kind == "Dict" else t0 == t1)
                    elif kind == "break":
                        outs.append(("next", s, None))
                    else:
                        outs.append((kind, s, v))
        finally:
            self.loopstack = self.loopstack[:-1]
        if after is not None:
            if isfor:
                after.pc.append(i == Len(S))
            if spec.exit is not None:
                for fn, keep in spec.exit:
                    for lab, f in fn(self.lctx(after, entry, i, S, x)):
                        self.obl(after, "%s:exit:%s" % (tag, lab), f)
                    if keep is not None:
                        self.restrict(after, keep)
            if x.orelse:
                outs += self.block(x.orelse, after, mod)
            else:
                outs.append(("next", after, None))
        return outs

    # ---------- verify one function
    def verify(self, con, variant=None):
        """generate the obligations of one function"""
        if con.name not in self.prog.funcs:
            raise Unsupported("function %s not found in the source" % con.name)
        fd, mod, cls = self.prog.funcs[con.name]
        self.con = con
        self.cur = con.name
        self.obls = []
        self.tags = {}
        self.loop_ord = {}
        self.loops_seen = set()
        self.raise_exits = []
        self.vac = []
        self.stack = [con.name]
        self.instance = ()
        self.curcls = cls
        self.loopstack = ()
        self.wlogs = ()
        self.itercache = {}
        self.forks = None
        self.nret = 0
        self.callctx = None
        self.shared_elems = set()
        for p in range(3):
            st = self.entry_state(con, fd, cls, mod, variant)
            if p < 2:
                # typing passes
                self.dry = 1
                try:
                    for kind, s, v in self.block(fd.body, st, mod):
                        if con.result_call is not None and isinstance(v, PyObj) and v.kind == "closure":
                            q = z3.Const("dry_callargs", sort(con.result_call["args"]))
                            for s3, r in self.run_closure(s, v, [PyObj("star", self.wrap(s, con.result_call["args"], q))]):
                                self.term(s3, r, con.result_call["ret"])
                finally:
                    self.dry = 0
                self.loop_ord = {}
                self.raise_exits = []
                self.obls = []
                self.vac = []
        for k, t in self.site_types.items():
            pass
        outs = self.block(fd.body, st, mod)
        exits = 0
        for kind, s, v in outs:
            if kind in ("next", "return"):
                exits += 1
                self.check_exit(con, s, v if kind == "return" else NONEV, exits)
            elif kind == "raise":
                self.check_raise(con, s, v)
        for s, exc in self.raise_exits:
            self.check_raise(con, s, exc)
        self.nexits = exits
        return self.obls

    def entry_state(self, con, fd, cls, mod, variant):
        st = State()
        st.now = z3.Int("now0")
        self.h0 = {}
        args = {}
        a = fd.args
        pnames = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            pnames.append(a.vararg.arg)
        if a.kwarg:
            pnames.append(a.kwarg.arg)
        cparams = {k: v for k, v in con.params.items() if not (con.kwparams and k in con.kwparams)}
        # positional correspondence so that renamed parameters keep their contract
        names = [n.lstrip("*") for n in cparams]
        mapping = {}
        self.rename = dict(self.rename_user)
        if names != pnames[: len(names)]:
            if set(names) <= set(pnames):
                mapping = {n: n for n in names}
            elif len(names) <= len(pnames):
                mapping = dict(zip(names, pnames))
                for n, p in mapping.items():
                    if n != p:
                        self.rename[n] = p
            else:
                raise Unsupported("parameters of %s changed" % con.name)
        else:
            mapping = {n: n for n in names}
        if variant:
            ve = variant(self, st)
            args.update(ve.pop("$spec", {}))
            for k, v in ve.items():
                st.env[mapping.get(k, k)] = v
        for n, ty in cparams.items():
            own = n.startswith("**")  # a dictionary of keyword arguments is private to the call
            n = n.lstrip("*")
            if n in args:
                continue
            p = mapping[n]
            if p in st.env:
                args[n] = self.term(st, st.env[p], ty) if ty is not None else None
                continue
            ty = prune(ty)
            if n == "self" and ty.kind == "Ref":
                pass
            t = z3.Const("arg_" + n, sort(ty))
            args[n] = t
            if ty.kind in ("Seq", "Set", "Dict"):
                h = self.newcell(st, ty, t)
                h.borrowed = not (n in con.mutates or n in con.moves)
                if n in con.moves or own:
                    h.borrowed = False
                st.env[p] = h
            else:
                st.env[p] = V(ty, t)
                if ty.kind == "Ref":
                    st.pc.append(Or(t == null, birth(t) < st.now))
            if ty.kind in ("Seq", "Set") and prune(ty.args[0]).kind == "Ref":
                y = z3.Const("y!wfp", Ref)
                st.pc.append(FA(y, Imp(Mem(t, y), birth(y) < st.now), Mem(t, y)))
            if ty.kind == "Dict" and prune(ty.args[1]).kind == "Ref":
                k = z3.Const("k!wfp", sort(ty.args[0]))
                st.pc.append(FA(k, Imp(Has(t, k), birth(Get(t, k)) < st.now), Get(t, k)))
        defs = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        for p in pnames:
            if p not in st.env:
                if p in defs:
                    st.env[p] = self.undefault(self.default_value(defs[p], st, mod))
                else:
                    raise Unsupported("parameter %s of %s has no type in the contract" % (p, con.name))
        if con.name.endswith("__init__") and "self" in args:
            st.pc.append(args["self"] != null)
        for key in sorted({self.prog.field(c, f)[0] for c in self.prog.fields for f in self.prog.fields[c]}):
            for f in self.wf_field(key, self.field0(key), st.now):
                st.pc.append(self.tag("wf", f))
        for g, so in con.ghosts.items():
            args["$" + g] = z3.Const("ghost_" + g, so)
        c0 = Ctx(self, args, st.heap, st.heap, st.now, st.now, st=st)
        self.ctx0 = Ctx(self, args, dict(st.heap), dict(st.heap), st.now, st.now, st=st)
        self.entry = st
        for lab, f in con.requires(c0):
            st.pc.append(f)
        for f in con.lemmas(c0):
            st.pc.append(f)
        self.pre_pc = list(st.pc)
        return st

    rename_user = {}

    def check_result_call(self, con, c, s):
        """the returned local function computes val on all arguments that satisfy pre"""
        rc = con.result_call
        s2 = s.fork()
        q = fresh("callargs", rc["args"])
        c.call_args, c.call_ghost = q, fresh("callrow", INT)
        self.callctx = c
        for lab, f in rc["pre"](c):
            s2.pc.append(self.tag("call-of-result:" + lab, f))
        for s3, v in self.run_closure(s2, c.closure, [PyObj("star", self.wrap(s2, rc["args"], q))]):
            for lab, f in rc["val"](c, self.term(s3, v, rc["ret"])):
                self.obl(s3, "call-of-result:" + lab, f)
            for key, arr in s3.heap.items():
                if not z3.eq(arr, s2.heap.get(key, arr)):
                    raise Unsupported("side effect of a local function")

    def check_exit(self, con, s, v, k):
        self.vac.append(Obl(con.name, "reachable:exit%d" % k, list(s.pc), z3.BoolVal(False)))
        c = Ctx(self, self.ctx0.a, self.ctx0.o.heap, s.heap, self.ctx0.now0, s.now, st=s)
        if con.ret is not None and prune(con.ret).kind != "None":
            if isinstance(v, PyNone) and prune(con.ret).kind not in ("Ref", "Opt"):
                self.obl(s, "post:returns-a-value", z3.BoolVal(False))
                return
            if isinstance(v, H):
                self.no_shared(s, v.ty, "the result")
            if isinstance(v, H) and not con.ret_borrowed:
                loc = self.resolve(s, v)
                if v.borrowed or loc[0] != "cell":
                    self.obl(s, "post:result-is-a-fresh-container", z3.BoolVal(False))
            c.closure = v if isinstance(v, PyObj) and v.kind == "closure" else None
            v = self.undefault(v)
            c.res = self.term(s, v, con.ret)
            if con.result_call is not None:
                if c.closure is None:
                    raise Unsupported("the result is not a local function")
                self.check_result_call(con, c, s)
        for p in con.mutates:
            c.af[p] = self.local_param(s, p)
        for exc, cond in con.raises:
            self.obl(s, "post:no-%s-missed" % exc, Not(cond(self.ctx0)))
        for lab, f in con.ensures(c):
            self.obl(s, "post:%s" % lab, f)
        # frame
        mods = {}
        for key, pred in con.modifies:
            mods.setdefault(key, []).append(pred)
        for key, arr in s.heap.items():
            old = self.ctx0.o[key]
            if z3.eq(arr, old):
                continue
            x = z3.Const("x!fr", Ref)
            p = Or(*[pr(c, x) for pr in mods.get(key, [])]) if mods.get(key) else z3.BoolVal(False)
            self.obl(s, "frame:%s" % key, FA(x, Imp(And(birth(x) < self.ctx0.now0, Not(p)) if con.allocates else Not(p), arr[x] == old[x])))

    def local_param(self, s, p):
        # content of the container passed as p at exit (the cell created at entry)
        h = self.entry.env[self.rename.get(p, p)]
        return self.read(s, h)

    def check_raise(self, con, s, exc):
        conds = [cond(self.ctx0) for e, cond in con.raises if e == exc]
        g = Or(*conds) if conds else z3.BoolVal(False)
        self.obl(s, "raises:%s" % exc, g)
        # callers rely on a refused call having changed nothing
        for key, arr in s.heap.items():
            old = self.ctx0.o[key]
            if z3.eq(arr, old) or key in con.changed_by_refusal:
                continue
            x = z3.Const("x!fr", Ref)
            made = con.name.endswith(".__init__") and self.ctx0.a.get("self") is not None
            self.obl(s, "raises-unchanged:%s" % key, FA(x, Imp(And(birth(x) < self.ctx0.now0, x != self.ctx0.a["self"]) if made else birth(x) < self.ctx0.now0, arr[x] == old[x])))


class ForkNeeded(Exception):
    def __init__(self, res):
        self.res = res


def poly(t):
    """an integer term as {sorted tuple of unknown factors: coefficient}; the constant under ()"""
    t = z3.simplify(t, arith_lhs=False)
    if z3.is_int_value(t):
        return {(): t.as_long()} if t.as_long() else {}
    if z3.is_add(t):
        out = {}
        for c in t.children():
            for k, v in poly(c).items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    if z3.is_mul(t) or z3.is_app(t) and t.decl().eq(IMUL):
        out = {(): 1}
        for c in t.children():
            out = poly_mul(out, poly(c))
        return out
    return {(t,): 1}


def poly_mul(a, b):
    out = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=str))
            for n in out:
                if len(n) == len(m) and all(z3.eq(x, y) for x, y in zip(n, m)):
                    m = n
                    break
            out[m] = out.get(m, 0) + v * w
    return {k: v for k, v in out.items() if v}


def monomial(fs):
    """the product of unknown factors, repeated factors first"""
    fs = sorted(fs, key=lambda f: (-sum(z3.eq(f, g) for g in fs), str(f)))
    t = fs[0]
    for f in fs[1:]:
        t = IMUL(t, f)
    return t


def poly_term(p):
    ts = [z3.IntVal(v) if not k else (monomial(k) if v == 1 else z3.IntVal(v) * monomial(k)) for k, v in p.items()]
    return z3.IntVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)


def mul_term(x, y):
    """the product of two unknown integers: a sum of monomials"""
    return poly_term(poly_mul(poly(x), poly(y)))


def occurs(v, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.eq(x, v):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def comb2_fun(ety):
    """itertools.combinations(s, 2) as a function of the sequence s of element type ety"""
    pt = PAIR(ety, ety)
    return z3.Function("comb2." + skey(SEQ(pt)), sort(SEQ(ety)), sort(SEQ(pt)))


def product_term(s):
    """itertools.product(*s) for a sequence of sequences: every choice function exactly once"""
    q = th(s)
    inner = q.es
    iq = th(inner)
    out = sort(SEQ(q.ety))
    f = z3.Function("product." + s.sort().name(), s.sort(), out)
    S = z3.Const("S!pr", s.sort())
    p = z3.Const("p!pr", inner)
    j = z3.Int("j!pr")
    bad = z3.Function("prodsk." + s.sort().name(), s.sort(), inner, z3.IntSort())
    dsk = z3.Function("proddsk." + s.sort().name(), s.sort(), z3.IntSort())
    n = "product." + s.sort().name()
    oq = th(out)
    axiom(n + ".len", FA([S, p], Imp(oq.mem(f(S), p), iq.len(p) == q.len(S)), oq.mem(f(S), p)))
    axiom(n + ".elt", FA([S, p, j], Imp(And(oq.mem(f(S), p), 0 <= j, j < q.len(S)), iq.mem(q.at(S, j), iq.at(p, j))), (oq.mem(f(S), p), iq.at(p, j)), (oq.mem(f(S), p), q.at(S, j))))
    b = bad(S, p)
    axiom(n + ".all", FA([S, p], Or(oq.mem(f(S), p), iq.len(p) != q.len(S), And(0 <= b, b < q.len(S), Not(iq.mem(q.at(S, b), iq.at(p, b))))), oq.mem(f(S), p)))
    d = dsk(S)
    axiom(n + ".distinct", FA(S, Or(oq.distinct(f(S)), And(0 <= d, d < q.len(S), Not(iq.distinct(q.at(S, d))))), f(S)))
    return f(s)


_sums = {}


def sum_fun(s):
    """sum of the first n elements of a numeric sequence"""
    if s.name() not in _sums:
        q = th(s)
        f = z3.Function("sum." + s.name(), s, z3.IntSort(), q.es)
        a = z3.Const("a!sm", s)
        n = z3.Int("n!sm")
        zero = z3.RealVal(0) if q.es == z3.RealSort() else z3.IntVal(0)
        axiom("sum0." + s.name(), FA(a, f(a, 0) == zero, f(a, 0)))
        axiom("sumS." + s.name(), FA([a, n], Imp(n > 0, f(a, n) == f(a, n - 1) + q.at(a, n - 1)), f(a, n)))
        _sums[s.name()] = f
    return _sums[s.name()]
