"""Executable counterparts of the ebaybbn contracts: the real code is run on concrete inputs and its
result is compared with the brute-force meaning of the contract. Used to replay failed obligations on the
real code and, with its stated bound, as a stand-in where a function cannot be brought to the verifier."""
import collections
import itertools
import json
import math
import random as _random
import nets

TOL = 1e-9


def B():
    import causalnex.ebaybbn.bbn as bbn
    return bbn


def tup(conds):
    return {v: [([tuple(g) for g in givens], dict(t)) for givens, t in rows] for v, rows in conds.items()}


def build(net):
    return B().build_bbn_from_conditionals(tup(nets.conds(net)))


def close(a, b):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def kk(x):
    return nets._k(x)


# ------------------------------------------------------------------ network supply
def networks(tier, seed, small=False):
    rng = _random.Random(1000 + seed)
    out = []
    for n in (1, 2, 3):
        for e in nets.dags(n):
            out.append(nets.from_dag(n, e, rng, dom=2))
    for e in nets.dags(4):
        out.append(nets.from_dag(4, e, rng, dom=2 if len(e) % 2 else 3, names=["d", "b", "c", "a"], zeros=0.1))
    for k in (4, 5, 6, 7):
        out.append(nets.chain(k))
    # wheels, grids and long cycles in the moral graph (fill-in needed)
    cyc = lambda k: [(0, 1), (0, 2)] + [(i, i + 2) for i in range(1, k - 3)] + [(k - 3, k - 1), (k - 2, k - 1)]
    for k in (4, 5, 6, 7):
        out.append(nets.from_dag(k, sorted(set(x for x in cyc(k) if x[0] < x[1])), rng, dom=2))
    grid = [(0, 1), (1, 2), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (3, 6), (4, 7), (5, 8), (6, 7), (7, 8)]
    out.append(nets.from_dag(9, grid, rng, dom=2))
    out.append(nets.from_dag(6, [(0, 5), (1, 5), (2, 5), (3, 5), (4, 5)], rng, dom=2))
    out.append(nets.from_dag(6, [(0, 1), (2, 3), (4, 5)], rng, dom=2))
    out.append(nets.from_dag(7, [(0, 2), (1, 2), (3, 4), (4, 5), (3, 5)], rng, dom=2))
    m = 30 if tier == "quick" else 400
    if small:
        m //= 2
    alpha = ["zeta", "Beta", "alpha", "x1", "x10", "x2", "B", "a_b"]
    for i in range(m):
        n = rng.randint(2, 6)
        out.append(nets.mk(rng, n, maxdom=3, maxpar=3, dens=rng.choice([0.25, 0.5, 0.8]), zeros=rng.choice([0, 0.3]),
                           names=rng.sample(alpha, n), kind=rng.choice(["str", "int", "bool"])))
    return out


def tiny_networks(rng, k):
    """networks with very small (but positive) probabilities"""
    out = []
    for i in range(k):
        net = nets.mk(rng, rng.randint(2, 4), maxdom=3, zeros=0)
        for x in net:
            for r in x[3]:
                if len(r[1]) > 1 and rng.random() < 0.6:
                    e = 10.0 ** -rng.choice([6, 9, 12, 20, 40])
                    j = rng.randrange(len(r[1]))
                    r[1] = [e if t == j else (1 - e) / (len(r[1]) - 1) for t in range(len(r[1]))]
        out.append(net)
    return out


def rare_evidence(net, rng):
    """the least likely evidence of a random set of variables"""
    vs = rng.sample([x[0] for x in net], rng.randint(1, len(net)))
    doms = {x[0]: x[1] for x in net}
    best = None
    for xs in itertools.product(*[doms[v] for v in vs]):
        ev = dict(zip(vs, xs))
        t = nets.brute(net, ev)[1]
        if t > 0 and (best is None or t < best[0]):
            best = (t, ev)
    return best[1]


def fac_net(net):
    """plain python factor functions (with signatures) for a network, no domains when boolean"""
    fs = []
    for v, dom, pars, rows in net:
        table = {}
        for vals, probs in rows:
            for d, p in zip(dom, probs):
                table[tuple(vals) + (d,)] = p
        ns = {"T": table}
        args = ", ".join(list(pars) + [v])
        exec("def f_%s(%s):\n    return T[(%s,)]\n" % (v, args, args), ns)
        fs.append(ns["f_" + v])
    return fs


# ------------------------------------------------------------------ C01
def cases_C01(tier, seed):
    rng = _random.Random(seed)
    for net in tiny_networks(rng, 25 if tier == "quick" else 200):
        for _ in range(3):
            yield {"net": net, "ev": rare_evidence(net, rng)}
    for net in networks(tier, seed):
        for ev in nets.evidences(net, rng, 3 if tier == "quick" else 8):
            yield {"net": net, "ev": ev}


def check_C01(c):
    net, ev = c["net"], c["ev"]
    marg, tot = nets.brute(net, ev)
    got = build(net).query(**ev)
    got = {(k[0], kk(k[1])): v for k, v in got.items()}
    if tot == 0:
        return None
    for k, p in marg.items():
        if k not in got:
            return "no entry for %r" % (k,)
        if not close(got[k], p / tot):
            return "P(%s=%r | %r) is %r, exact value %r" % (k[0], k[1], ev, got[k], p / tot)
    return None


# ------------------------------------------------------------------ C02
def cases_C02(tier, seed):
    rng = _random.Random(seed + 1)
    for net in tiny_networks(rng, 25 if tier == "quick" else 200):
        for _ in range(3):
            yield {"net": net, "ev": rare_evidence(net, rng)}
    for net in networks(tier, seed + 1):
        for ev in nets.evidences(net, rng, 2 if tier == "quick" else 6):
            yield {"net": net, "ev": ev}


def check_C02(c):
    net, ev = c["net"], c["ev"]
    got = build(net).query(**ev)
    want = {(v, kk(d)) for v, dom, _, _ in net for d in dom}
    keys = {(k[0], kk(k[1])) for k in got}
    if keys != want or len(got) != len(want):
        return "entries are %r, expected one per variable and state %r" % (sorted(map(str, keys)), sorted(map(str, want)))
    _, tot = nets.brute(net, ev)
    for v, dom, _, _ in net:
        s = 0.0
        for d in dom:
            p = got[(v, d)]
            if not (p >= 0) or p > 1 + TOL:
                return "entry %r=%r is %r" % (v, d, p)
            s += p
            if tot > 0 and v in ev and not close(p, 1.0 if kk(d) == kk(ev[v]) else 0.0):
                return "evidenced %s=%r got %r" % (v, d, p)
            if tot == 0 and p != 0:
                return "impossible evidence %r but entry %s=%r is %r" % (ev, v, d, p)
        if tot > 0 and not close(s, 1.0):
            return "entries of %s sum to %r" % (v, s)
    return None


# ------------------------------------------------------------------ C03
def cases_C03(tier, seed):
    rng = _random.Random(seed + 2)
    for net in networks("quick", seed + 2, True) if tier == "quick" else networks(tier, seed + 2):
        vs = [x[0] for x in net]
        doms = {x[0]: x[1] for x in net}
        good = {v: rng.choice(doms[v]) for v in rng.sample(vs, rng.randint(0, len(vs)))}
        yield {"net": net, "ev": good, "bad": "ok"}
        yield {"net": net, "ev": dict(good, nosuchvar=rng.choice(["s0", True, 0])), "bad": "var"}
        v = rng.choice(vs)
        yield {"net": net, "ev": dict(good, **{v: "no-such-state"}), "bad": "val"}
        # a state of another variable
        o = [d for w in vs for d in doms[w] if d not in doms[v]]
        if o:
            yield {"net": net, "ev": dict(good, **{v: rng.choice(o)}), "bad": "val"}
        yield {"net": net, "ev": {v: None}, "bad": "val"}
        yield {"net": net, "ev": {"f_" + v: doms[v][0]}, "bad": "var"}
    for fac in (True, False):
        net = nets.mk(rng, 3, kind="bool", zeros=0)
        net = [[v, [True, False], p, r] for v, d, p, r in net] if all(len(x[1]) == 2 for x in net) else nets.from_dag(2, [(0, 1)], rng)
        if net[0][1] == [True, False]:
            v = net[0][0]
            yield {"net": net, "ev": {v: True}, "bad": "ok", "nodomains": True}
            yield {"net": net, "ev": {v: "maybe"}, "bad": "val", "nodomains": True}
            yield {"net": net, "ev": {v: 2}, "bad": "val", "nodomains": True}
            yield {"net": net, "ev": {v + "x": True}, "bad": "var", "nodomains": True}


def check_C03(c):
    from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError
    bbn = B().build_bbn(fac_net(c["net"])) if c.get("nodomains") else build(c["net"])
    want = {"ok": None, "var": VariableNotInGraphError, "val": VariableValueNotInDomainError}[c["bad"]]
    try:
        bbn.query(**c["ev"])
        got = None
    except Exception as e:  # noqa
        got = type(e)
    if got is not want:
        return "evidence %r (%s) raised %s" % (c["ev"], c["bad"], got and got.__name__)
    return None


# ------------------------------------------------------------------ C04
def snapshot(bbn):
    out = []
    for n in bbn.nodes:
        out.append((n.name, n.variable_name, tuple(x.name for x in n.parents), tuple(x.name for x in n.children), tuple(B().get_args(n.func)), id(n.func)))
    doms = {k: (frozenset(map(kk, v)), type(v).__name__) for k, v in bbn.domains.items()}
    return out, doms, list(bbn.vars_to_nodes)


def cases_C04(tier, seed):
    rng = _random.Random(seed + 3)
    for net in networks(tier, seed + 3, True):
        evs = nets.evidences(net, rng, 3)
        rng.shuffle(evs)
        yield {"net": net, "evs": evs, "draw": rng.random() < 0.3}
    for _ in range(12 if tier == "quick" else 120):
        net = nets.mk(rng, rng.randint(1, 4), kind="bool", zeros=0.2)
        for x in net:
            if len(x[1]) == 1:
                x[1] = [True, False]
                for y in net:
                    y[3] = None
        if any(x[3] is None for x in net):
            net = nets.from_dag(len(net), [(i, j) for j in range(len(net)) for i in range(j) if rng.random() < 0.6], rng)
            net = [[v, [True, False], p, [[[y == "a" for y in r[0]], r[1]] for r in rows]] for v, d, p, rows in net]
        yield {"net": net, "evs": nets.evidences(net, rng, 3), "draw": True, "given": [x[0] for x in net if rng.random() < 0.4]}


def check_C04(c):
    net = c["net"]
    if c.get("given") is None:
        mkb = lambda: build(net)
        bbn = mkb()
    else:
        # some variables without an explicit domain
        given = {x[0]: list(x[1]) for x in net if x[0] in c["given"]}
        mkb = lambda: B().build_bbn(fac_net(net), domains={k: list(v) for k, v in given.items()})
        bbn = B().build_bbn(fac_net(net), domains=given)
        if given != {x[0]: list(x[1]) for x in net if x[0] in c["given"]}:
            return "building changed the domains that were passed in"
    s0 = snapshot(bbn)
    first = {}
    for rep in range(2):
        for i, ev in enumerate(c["evs"]):
            e0 = dict(ev)
            r = bbn.query(**ev)
            if ev != e0:
                return "evidence changed from %r to %r" % (e0, ev)
            if snapshot(bbn) != s0:
                return "query(%r) changed the network" % (ev,)
            if c.get("given") is not None and given != {x[0]: list(x[1]) for x in net if x[0] in c["given"]}:
                return "query(%r) changed the domains that were passed to build_bbn" % (ev,)
            fresh = mkb().query(**ev)
            if set(r) != set(fresh) or any(not close(r[k], fresh[k]) for k in r):
                return "query(%r) depends on earlier queries: %r against %r" % (ev, r, fresh)
            if i in first and any(not close(first[i][k], r[k]) for k in r):
                return "query(%r) is not repeatable" % (ev,)
            first[i] = dict(r)
            for k in r:
                r[k] = -1.0  # the caller owns the result
        if c["draw"]:
            ok = [ev for ev in c["evs"] if nets.brute(net, ev)[1] > 0]
            q = dict(ok[0])
            q0 = dict(q)
            bbn.draw_samples(q, 2)
            if q != q0 or snapshot(bbn) != s0:
                return "draw_samples changed its arguments or the network"
            if bbn.draw_samples.__defaults__ and bbn.draw_samples.__defaults__[0]:
                return "draw_samples changed its default argument"
    return None


# ------------------------------------------------------------------ C05
def cases_C05(tier, seed):
    rng = _random.Random(seed + 4)
    for net in networks(tier, seed + 4, True):
        net = list(net)
        rng.shuffle(net)
        shuf = [rng.sample(list(p) + [v], len(p) + 1) for v, _, p, _ in net]
        yield {"fac": [[v, a] for (v, _, _, _), a in zip(net, shuf)], "dom": {v: d for v, d, _, _ in net}, "form": rng.choice(["list", "args"])}


def check_C05(c):
    fs, want = [], {}
    for v, args in c["fac"]:
        ns = {}
        exec("def f_%s(%s):\n    return 0.5\n" % (v, ", ".join(args)), ns)
        fs.append(ns["f_" + v])
        want[v] = (ns["f_" + v], set(args) - {v}, list(args))
    doms = {k: list(d) for k, d in c["dom"].items()}
    bbn = B().build_bbn(list(fs), domains=doms) if c["form"] == "list" else B().build_bbn(*fs, domains=doms)
    if bbn.domains != doms:
        return "domains are %r, given %r" % (bbn.domains, doms)
    if len(bbn.nodes) != len(fs):
        return "%d nodes for %d factors" % (len(bbn.nodes), len(fs))
    seen = {}
    for n in bbn.nodes:
        v = n.variable_name
        if v not in want or v in seen:
            return "node introduces %r (unknown or twice)" % v
        seen[v] = n
        f, pars, args = want[v]
        if n.func is not f or n.name != f.__name__ or list(n.argspec) != args:
            return "node of %r carries another factor" % v
    for v, (f, pars, args) in want.items():
        n = seen[v]
        if bbn.vars_to_nodes.get(v) is not n:
            return "variable index of %r" % v
        got = [p.variable_name for p in n.parents]
        if sorted(got) != sorted(pars) or any(p is not seen[p.variable_name] for p in n.parents):
            return "parents of %s are %r, arguments say %r" % (v, got, sorted(pars))
        ch = [p.variable_name for p in n.children]
        wch = sorted(w for w, x in want.items() if v in x[1])
        if sorted(ch) != wch or any(p is not seen[p.variable_name] for p in n.children):
            return "children of %s are %r, arguments say %r" % (v, ch, wch)
    return None


# ------------------------------------------------------------------ C06
def cases_C06(tier, seed):
    rng = _random.Random(seed + 5)
    for net in networks(tier, seed + 5, True):
        cs = nets.conds(net)
        full = {}
        for v, rows in cs.items():
            rows = [[rng.sample(g, len(g)), [[k, p] for k, p in t.items()]] for g, t in rows]
            rng.shuffle(rows)
            for r in rows:
                rng.shuffle(r[1])
            full[v] = rows
        yield {"conds": full, "net": net}


def check_C06(c):
    conds = {v: [([tuple(x) for x in g], {k: p for k, p in t}) for g, t in rows] for v, rows in c["conds"].items()}
    before = json.dumps(c["conds"], sort_keys=True, default=str)
    for v, dom, pars, rows in c["net"]:
        f = B().make_node_func(v, conds[v])
        if list(f.argspec) != sorted(pars) + [v]:
            return "arguments of %s are %r, expected parents in order then the variable: %r" % (v, f.argspec, sorted(pars) + [v])
        if f.__name__ != "f_" + v:
            return "name %r" % f.__name__
        if set(map(kk, f._domain)) != set(map(kk, dom)):
            return "domain of %s is %r" % (v, f._domain)
        for vals, probs in rows:
            for d, p in zip(dom, probs):
                if f(*(list(vals) + [d])) != p:
                    return "f_%s%r is %r, the table says %r" % (v, tuple(vals) + (d,), f(*(list(vals) + [d])), p)
    bbn = B().build_bbn_from_conditionals(conds)
    if {k: set(map(kk, d)) for k, d in bbn.domains.items()} != {x[0]: set(map(kk, x[1])) for x in c["net"]}:
        return "domains %r" % (bbn.domains,)
    nodes = {n.variable_name: n for n in bbn.nodes}
    if set(nodes) != {x[0] for x in c["net"]}:
        return "nodes %r" % sorted(nodes)
    for v, dom, pars, rows in c["net"]:
        if sorted(p.variable_name for p in nodes[v].parents) != sorted(pars):
            return "parents of %s" % v
        for vals, probs in rows:
            for d, p in zip(dom, probs):
                if nodes[v].func(*(list(vals) + [d])) != p:
                    return "factor of %s at %r is %r, the table says %r" % (v, tuple(vals) + (d,), nodes[v].func(*(list(vals) + [d])), p)
    if json.dumps({v: [[[list(x) for x in g], [[k, p] for k, p in t.items()]] for g, t in rows] for v, rows in conds.items()}, sort_keys=True, default=str) != before:
        return "the conditionals passed in were changed"
    return None


# ------------------------------------------------------------------ C07
def cases_net(tier, seed, off, small=True):
    rng = _random.Random(seed + off)
    for net in networks(tier, seed + off, small):
        net = list(net)
        rng.shuffle(net)
        yield {"net": net}


def cases_C07(tier, seed):
    return cases_net(tier, seed, 6)


def adj(g):
    names = {n.name: n for n in g.nodes}
    if len(names) != len(g.nodes):
        return None, "duplicate nodes"
    es = set()
    for n in g.nodes:
        ns = [m.name for m in n.neighbours]
        if len(set(ns)) != len(ns):
            return None, "neighbour of %s listed twice: %r" % (n.name, ns)
        for m in n.neighbours:
            if names.get(m.name) is not m:
                return None, "neighbour %s of %s is not a node of the graph" % (m.name, n.name)
            if n not in m.neighbours:
                return None, "adjacency of %s and %s is not symmetric" % (n.name, m.name)
            es.add(frozenset((n.name, m.name)))
    return es, None


def check_C07(c):
    bb = B()
    bbn = build(c["net"])
    s0 = snapshot(bbn)
    want = {frozenset(("f_" + a, "f_" + b)) for v, _, ps, _ in c["net"] for a, b in [(v, p) for p in ps]}
    wm = {frozenset("f_" + x for x in e) for e in nets.moral(c["net"])}
    gu = bb.make_undirected_copy(bbn)
    es, err = adj(gu)
    if err or es != want:
        return "undirected copy: %s" % (err or "edges %r expected %r" % (sorted(map(sorted, es)), sorted(map(sorted, want))))
    gm = bb.make_moralized_copy(gu, bbn)
    em, err = adj(gm)
    if err or em != wm:
        return "moralised copy: %s" % (err or "edges %r expected %r" % (sorted(map(sorted, em)), sorted(map(sorted, wm))))
    es2, err = adj(gu)
    if err or es2 != want or set(map(id, gu.nodes)) & set(map(id, gm.nodes)):
        return "moralising changed or shared the undirected graph"
    for g in (gu, gm):
        if {n.name for n in g.nodes} != {n.name for n in bbn.nodes}:
            return "node names differ"
        for n in g.nodes:
            d = [m for m in bbn.nodes if m.name == n.name][0]
            if n.variable_name != d.variable_name or list(n.argspec) != list(d.argspec):
                return "node %s does not carry its variable" % n.name
    if snapshot(bbn) != s0:
        return "the network was changed"
    return None


# ------------------------------------------------------------------ C08
def cases_C08(tier, seed):
    for c in cases_net(tier, seed, 7):
        for p in ("default", "reverse", "degree"):
            yield dict(c, prio=p)


def is_chordal(nodes, es):
    ad = {n: set() for n in nodes}
    for e in es:
        a, b = tuple(e)
        ad[a].add(b)
        ad[b].add(a)
    left = set(nodes)
    while left:
        for n in sorted(left):
            nb = ad[n] & left
            if all(b in ad[a] for a, b in itertools.combinations(nb, 2)):
                left.discard(n)
                break
        else:
            return False
    return True


def maximal_cliques(nodes, es):
    ad = {n: set() for n in nodes}
    for e in es:
        a, b = tuple(e)
        ad[a].add(b)
        ad[b].add(a)
    out = set()
    nodes = sorted(nodes)

    def go(r, p, x):
        if not p and not x:
            out.add(frozenset(r))
            return
        for v in sorted(p):
            go(r | {v}, p & ad[v], x & ad[v])
            p = p - {v}
            x = x | {v}
    go(set(), set(nodes), set())
    return out


def prio(kind):
    bb = B()
    if kind == "reverse":
        return lambda n: [-len(n.neighbours), 2]
    if kind == "degree":
        return lambda n: [len(n.neighbours), 2]
    return None


def check_C08(c):
    bb = B()
    bbn = build(c["net"])
    gm = bb.make_moralized_copy(bb.make_undirected_copy(bbn), bbn)
    before, _ = adj(gm)
    pf = prio(c["prio"])
    nodes0 = list(gm.nodes)
    cliques, order = bb.triangulate(gm, pf) if pf else bb.triangulate(gm)
    names = sorted(n.name for n in gm.nodes)
    if gm.nodes != nodes0:
        return "the node list changed"
    if sorted(order) != names:
        return "elimination order %r is not a permutation of %r" % (order, names)
    after, err = adj(gm)
    if err:
        return err
    if not before <= after:
        return "edges lost: %r" % sorted(map(sorted, before - after))
    if not is_chordal(names, after):
        return "the triangulated graph is not chordal: %r" % sorted(map(sorted, after))
    for cl in cliques:
        if not all(n in gm.nodes for n in cl.nodes):
            return "a clique holds a node of another graph"
    got = [frozenset(n.name for n in cl.nodes) for cl in cliques]
    want = maximal_cliques(names, after)
    if len(set(got)) != len(got) or set(got) != want:
        return "cliques %r, maximal cliques of the triangulated graph are %r" % (sorted(map(sorted, got)), sorted(map(sorted, want)))
    # the fill-in is the one of the elimination order
    cur = {n: set() for n in names}
    for e in before:
        a, b = tuple(e)
        cur[a].add(b)
        cur[b].add(a)
    fill = set(before)
    left = set(names)
    for i, v in enumerate(order):
        nb = cur[v] & left
        if c["prio"] == "default":
            cost = lambda u: sum(1 for a, b in itertools.combinations(sorted(cur[u] & left), 2) if b not in cur[a])
            best = min((cost(u), u) for u in left)
            if (cost(v), v) != best:
                return "eliminated %s (cost %d) although %s costs %d" % (v, cost(v), best[1], best[0])
        for a, b in itertools.combinations(nb, 2):
            cur[a].add(b)
            cur[b].add(a)
            fill.add(frozenset((a, b)))
        left.discard(v)
    if fill != after:
        return "fill-in %r is not the one of the elimination order" % sorted(map(sorted, after ^ fill))
    return None


# ------------------------------------------------------------------ C09
def cases_C09(tier, seed):
    return cases_net(tier, seed, 8, False)


def jt_parts(jt):
    cs = list(jt.clique_nodes)
    ss = list(jt.sepset_nodes)
    return cs, ss


def check_C09(c):
    bb = B()
    bbn = build(c["net"])
    s0 = snapshot(bbn)
    jt = bb.build_join_tree(bbn)
    cs, ss = jt_parts(jt)
    if len(set(map(id, jt.nodes))) != len(jt.nodes) or len(cs) + len(ss) != len(jt.nodes):
        return "node listed twice"
    if len(ss) != len(cs) - 1:
        return "%d cliques and %d sepsets" % (len(cs), len(ss))
    cl = [set(n.variable_names) for n in cs]
    for i, j in itertools.permutations(range(len(cl)), 2):
        if cl[i] <= cl[j]:
            return "clique %r within %r" % (sorted(cl[i]), sorted(cl[j]))
    for v, _, pars, _ in c["net"]:
        fam = set(pars) | {v}
        if not any(fam <= x for x in cl):
            return "family %r is in no clique" % sorted(fam)
    for s in ss:
        if len(s.neighbours) != 2 or any(n not in cs for n in s.neighbours) or s.neighbours[0] is s.neighbours[1]:
            return "a sepset does not join two cliques"
        a, b = [set(n.variable_names) for n in s.neighbours]
        if set(s.variable_names) != a & b or len(s.variable_names) != len(a & b):
            return "sepset %r between %r and %r" % (s.variable_names, sorted(a), sorted(b))
        if any(list(n.neighbours).count(s) != 1 for n in s.neighbours):
            return "sepset adjacency not symmetric"
    for n in cs:
        if any(s not in ss or n not in s.neighbours for s in n.neighbours):
            return "clique adjacency"
    # connected: with len(ss) = len(cs)-1 this makes it a tree
    reach, todo = {id(cs[0])}, [cs[0]]
    while todo:
        x = todo.pop()
        for s in x.neighbours:
            for y in s.neighbours:
                if id(y) not in reach:
                    reach.add(id(y))
                    todo.append(y)
    if len(reach) != len(cs):
        return "the join tree is not connected"
    # running intersection
    for v in {x[0] for x in c["net"]}:
        has = [n for n in cs if v in n.variable_names]
        if not has:
            return "variable %s is in no clique" % v
        hs = [s for s in ss if v in s.variable_names]
        if len(hs) != len(has) - 1:
            return "cliques with %s are not connected through sepsets with it (%d cliques, %d sepsets)" % (v, len(has), len(hs))
    if snapshot(bbn) != s0:
        return "the network was changed"
    return None


# ------------------------------------------------------------------ C10
def cases_C10(tier, seed):
    rng = _random.Random(seed + 9)
    for net in networks(tier, seed + 9, True):
        for ev in nets.evidences(net, rng, 2):
            yield {"net": net, "ev": ev}


def joint(net, a):
    p = 1.0
    for v, dom, pars, rows in net:
        for vals, probs in rows:
            if [kk(x) for x in vals] == [kk(a[q]) for q in pars]:
                p *= probs[[kk(d) for d in dom].index(kk(a[v]))]
    return p


def check_C10(c):
    bb = B()
    net, ev = c["net"], c["ev"]
    bbn = build(net)
    jt = bb.build_join_tree(bbn)
    asg = jt.assign_clusters(bbn)
    cs, ss = jt_parts(jt)
    cnt = collections.Counter()
    for cl, ns in asg.items():
        if cl not in cs:
            return "assigned to something that is no clique of the tree"
        for n in ns:
            cnt[n.variable_name] += 1
            if not set(B().get_args(n.func)) <= set(cl.variable_names):
                return "factor of %s assigned to clique %r" % (n.variable_name, cl.variable_names)
    if cnt != {x[0]: 1 for x in net}:
        return "assignment counts %r" % dict(cnt)
    e0 = dict(ev)
    jt.initialize_potentials(asg, bbn, ev)
    if ev != e0:
        return "evidence changed"
    doms = {x[0]: x[1] for x in net}
    for n in cs + ss:
        vs = list(n.variable_names)
        want = {tuple((v, kk(x)) for v, x in zip(vs, xs)) for xs in itertools.product(*[doms[v] for v in vs])}
        got = {tuple((v, kk(x)) for v, x in k) for k in n.potential_tt}
        if got != want or vs != sorted(vs):
            return "table of %r has keys %r" % (vs, sorted(map(str, got)))
    for s in ss:
        if any(x != 1 for x in s.potential_tt.values()):
            return "sepset potential is not one"
    names = [x[0] for x in net]
    tabs = [({tuple((v, kk(x)) for v, x in k): p for k, p in n.potential_tt.items()}, list(n.variable_names)) for n in cs]
    for xs in itertools.product(*[doms[v] for v in names]):
        a = dict(zip(names, xs))
        p = joint(net, a) if all(kk(a[k]) == kk(x) for k, x in ev.items()) else 0.0
        q = 1.0
        for t, vs in tabs:
            q *= t[tuple((v, kk(a[v])) for v in vs)]
        if not close(p, q):
            return "product of potentials at %r is %r, joint with evidence %r is %r" % (a, q, ev, p)
    return None


# ------------------------------------------------------------------ C11
def cases_C11(tier, seed):
    rng = _random.Random(seed + 10)
    for net in networks(tier, seed + 10, True):
        for ev in nets.evidences(net, rng, 2):
            yield {"net": net, "ev": ev, "start": rng.choice([None, 0, 1, 2, 3])}


def check_C11(c):
    bb = B()
    net, ev = c["net"], c["ev"]
    bbn = build(net)
    jt = bb.build_join_tree(bbn)
    jt.initialize_potentials(jt.assign_clusters(bbn), bbn, ev)
    cs, ss = jt_parts(jt)
    if c["start"] is None:
        jt.propagate()
    else:
        jt.propagate(sorted(cs, key=lambda n: n.variable_names)[c["start"] % len(cs)])
    doms = {x[0]: x[1] for x in net}
    names = [x[0] for x in net]
    full = []
    for xs in itertools.product(*[doms[v] for v in names]):
        a = dict(zip(names, xs))
        if all(kk(a[k]) == kk(x) for k, x in ev.items()):
            full.append((a, joint(net, a)))
    for n in cs + ss:
        vs = list(n.variable_names)
        want = collections.defaultdict(float)
        for a, p in full:
            want[tuple((v, kk(a[v])) for v in vs)] += p
        tab = {tuple((v, kk(x)) for v, x in k): p for k, p in n.potential_tt.items()}
        for xs in itertools.product(*[doms[v] for v in vs]):
            k = tuple((v, kk(x)) for v, x in zip(vs, xs))
            if not close(tab.get(k, 0.0), want[k]):
                return "after propagation the potential of %r at %r is %r, the marginal of the joint is %r" % (vs, k, tab.get(k, 0.0), want[k])
    for n in bbn.nodes:
        m = jt.marginal(n)
        for d in doms[n.variable_name]:
            w = sum(p for a, p in full if kk(a[n.variable_name]) == kk(d))
            g = [p for k, p in m.items() if k[0][0] == n.variable_name and kk(k[0][1]) == kk(d)]
            if len(g) != 1 or not close(g[0], w):
                return "marginal of %s=%r is %r, expected %r" % (n.variable_name, d, g, w)
    return None


# ------------------------------------------------------------------ C12
def cases_C12(tier, seed):
    rng = _random.Random(seed + 11)
    for i, net in enumerate(networks(tier, seed + 11, True)):
        evs = [e for e in nets.evidences(net, rng, 4) if nets.brute(net, e)[1] > 0]
        yield {"net": net, "ev": rng.choice(evs), "n": rng.randint(0, 3), "mode": "draw", "seed": i}
        v = rng.choice(net)
        full = [a for a in full_assignments(net) if joint(net, a) > 0]
        a = rng.choice(full)
        yield {"net": net, "ev": {k: x for k, x in a.items() if k != v[0]}, "var": v[0], "mode": "law", "n": 40}
        yield {"net": net, "ev": {k: x for k, x in a.items() if k != v[0]}, "var": v[0], "mode": "edge", "n": 1}
    for i in range(20 if tier == "quick" else 150):
        net = textual(nets.mk(rng, rng.randint(2, 4), kind="str", maxdom=3, zeros=0.5), rng)
        yield {"net": net, "ev": {}, "n": 12, "mode": "draw", "seed": i}


def textual(net, rng):
    """states that are written alike but differ"""
    alike = [[1, "1"], ["1", 1], [True, "True"], [2, "2"], ["None", "x"]]
    ren = {}
    for x in net:
        a = rng.choice(alike)
        ren[x[0]] = {d: (a[i] if i < 2 else d) for i, d in enumerate(x[1])}
    return [[v, [ren[v][d] for d in dom], p, [[[ren[q][y] for q, y in zip(p, r[0])], r[1]] for r in rows]] for v, dom, p, rows in net]


def full_assignments(net):
    names = [x[0] for x in net]
    for xs in itertools.product(*[x[1] for x in net]):
        yield dict(zip(names, xs))


def check_C12(c):
    bb = B()
    net, ev, n = c["net"], c["ev"], c["n"]
    doms = {x[0]: x[1] for x in net}
    bbn = build(net)
    _random.seed(c.get("seed", 0))
    calls = [0]
    modes = {"law": [(k + 0.5) / n for k in range(n)] if n else [], "edge": [0.0], "draw": None}[c["mode"]]
    saved = (_random.random, getattr(bb, "random", None))

    def fake():
        r = modes[calls[0] % len(modes)]
        calls[0] += 1
        return r
    if modes:
        _random.random = fake
        if callable(getattr(bb, "random", None)):
            bb.random = fake
    try:
        e0 = dict(ev)
        out = bbn.draw_samples(ev, n)
    finally:
        _random.random = saved[0]
        if saved[1] is not None:
            bb.random = saved[1]
    if ev != e0:
        return "the evidence was changed"
    if len(out) != n:
        return "%d samples drawn, %d asked for" % (len(out), n)
    if len(set(map(id, out))) != n:
        return "samples share one object"
    for s in out:
        if set(s) != set(doms):
            return "sample %r does not assign every variable" % (s,)
        for v, x in s.items():
            if not any(kk(x) == kk(d) for d in doms[v]):
                return "sample state %s=%r is not in the domain" % (v, x)
        for v, x in ev.items():
            if kk(s[v]) != kk(x):
                return "sample contradicts the evidence at %s" % v
        if joint(net, s) <= 0:
            return "sample %r has probability zero (random() returned %r)" % (s, modes)
    if c["mode"] == "law":
        marg, tot = nets.brute(net, ev)
        cnt = collections.Counter(kk(s[c["var"]]) for s in out)
        slack = len(doms[c["var"]]) + 1 if calls[0] == n else 6 * math.sqrt(n)
        for d in doms[c["var"]]:
            w = n * marg[(c["var"], kk(d))] / tot
            if abs(cnt[kk(d)] - w) > slack:
                return "%s=%r drawn %d times in %d draws spread evenly over [0,1), its probability is %r" % (c["var"], d, cnt[kk(d)], n, w / n)
    return None


# ------------------------------------------------------------------ C13
def cases_C13(tier, seed):
    return cases_net(tier, seed, 12)


def check_C13(c):
    import re
    bbn = build(c["net"])
    s0 = snapshot(bbn)
    src = bbn.get_graphviz_source()
    lines = [x.strip() for x in src.strip().splitlines()]
    if not lines[0].startswith("digraph") or lines[-1] != "}":
        return "no digraph: %r" % src
    edges, nodes = [], []
    for ln in lines[1:-1]:
        m = re.match(r"^(\S+) -> (\S+?);?$", ln)
        if m:
            edges.append((m.group(1), m.group(2)))
            continue
        m = re.match(r"^(\S+) \[", ln)
        if m and m.group(1) not in ("graph", "node", "edge"):
            nodes.append(m.group(1))
    wn = sorted("f_" + x[0] for x in c["net"])
    we = sorted(("f_" + p, "f_" + v) for v, _, ps, _ in c["net"] for p in ps)
    if nodes != wn:
        return "node statements %r, network has %r" % (nodes, wn)
    if edges != we:
        return "edge statements %r, network has %r" % (edges, we)
    rev = list(c["net"])[::-1]
    if build(rev).get_graphviz_source() != src:
        return "the source depends on the order of definition"
    if snapshot(bbn) != s0:
        return "the network was changed"
    return None


PROPS = ["C%02d" % i for i in range(1, 14)]
BOUND = "all DAGs of up to 3 nodes and all 64 ordered DAGs of 4 nodes, chains, cycles, a 3x3 grid, disconnected networks, plus seeded random networks of up to 6 variables with 1-3 states; tables from a fixed generator"
