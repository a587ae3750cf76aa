"""Discrete network descriptions (JSON-able) and brute-force semantics used as the oracle."""
import itertools
import random

# a network is a list of [name, domain list, parent list, {parent values tuple as str: [probabilities]}]


def mk(rng, n, maxdom=3, maxpar=3, dens=0.5, zeros=0.15, names=None, kind="str", order="mixed"):
    names = names or ["v%d" % i for i in range(n)]
    names = list(names)[:n]
    top = list(names)
    rng.shuffle(top)
    net = []
    doms = {}
    for i, v in enumerate(top):
        k = rng.randint(1, maxdom) if maxdom > 1 else 1
        if rng.random() < 0.8 and k == 1 and maxdom > 1:
            k = 2
        if kind == "str":
            doms[v] = ["s%d" % j for j in range(k)]
        elif kind == "int":
            doms[v] = list(range(k))
        else:
            doms[v] = [True, False][:max(1, min(2, k))]
        pars = [p for p in top[:i] if rng.random() < dens]
        rng.shuffle(pars)
        pars = pars[:maxpar]
        rows = []
        for vals in itertools.product(*[doms[p] for p in sorted(pars)]):
            w = [0.0 if rng.random() < zeros else float(rng.randint(1, 9)) for _ in doms[v]]
            if sum(w) == 0:
                w[rng.randrange(len(w))] = 1.0
            s = sum(w)
            rows.append([list(vals), [x / s for x in w]])
        net.append([v, doms[v], sorted(pars), rows])
    if order == "mixed":
        rng.shuffle(net)
    return net


def chain(k, dom=2):
    rng = random.Random(k * 7 + dom)
    net = []
    for i in range(k):
        v, d = "c%d" % i, ["s%d" % j for j in range(dom)]
        p = ["c%d" % (i - 1)] if i else []
        rows = []
        for vals in itertools.product(*[d for _ in p]):
            w = [rng.randint(1, 9) for _ in d]
            rows.append([list(vals), [x / sum(w) for x in w]])
        net.append([v, d, p, rows])
    return net


def dags(n):
    """every DAG over n labelled nodes respecting one order"""
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for bits in itertools.product([0, 1], repeat=len(pairs)):
        yield [p for p, b in zip(pairs, bits) if b]


def from_dag(n, edges, rng, dom=2, names=None, zeros=0.0):
    names = names or ["n%d" % i for i in range(n)]
    d = ["a", "b", "c"][:dom]
    net = []
    for j in range(n):
        pars = sorted(names[i] for i, k in edges if k == j)
        rows = []
        for vals in itertools.product(*[d for _ in pars]):
            w = [0.0 if rng.random() < zeros else float(rng.randint(1, 9)) for _ in d]
            if sum(w) == 0:
                w[rng.randrange(len(w))] = 1.0
            rows.append([list(vals), [x / sum(w) for x in w]])
        net.append([names[j], list(d), pars, rows])
    return net


def conds(net):
    """argument of build_bbn_from_conditionals"""
    out = {}
    for v, dom, pars, rows in net:
        out[v] = [[[[p, x] for p, x in zip(pars, vals)], {d: pr for d, pr in zip(dom, probs)}] for vals, probs in rows]
    return out


def brute(net, ev):
    """exact marginals given evidence; also the probability of the evidence"""
    names = [x[0] for x in net]
    doms = {x[0]: x[1] for x in net}
    cpt = {x[0]: (x[2], {tuple(map(_k, r[0])): {_k(d): p for d, p in zip(x[1], r[1])} for r in x[3]}) for x in net}
    tot = 0.0
    marg = {(v, _k(s)): 0.0 for v in names for s in doms[v]}
    for asg in itertools.product(*[doms[v] for v in names]):
        a = dict(zip(names, asg))
        if any(_k(a[k]) != _k(x) for k, x in ev.items()):
            continue
        p = 1.0
        for v in names:
            pars, t = cpt[v]
            p *= t[tuple(_k(a[q]) for q in pars)][_k(a[v])]
        tot += p
        for v in names:
            marg[(v, _k(a[v]))] += p
    return marg, tot


def _k(x):
    return (type(x).__name__, x) if isinstance(x, bool) else x


def evidences(net, rng, count):
    out = [{}]
    vs = [(x[0], x[1]) for x in net]
    for _ in range(count):
        k = rng.randint(1, len(vs))
        pick = rng.sample(vs, k)
        out.append({v: rng.choice(d) for v, d in pick})
    return out


def moral(net):
    """edges of the moral graph as frozensets"""
    es = set()
    for v, _, pars, _ in net:
        for p in pars:
            es.add(frozenset((v, p)))
        for a, b in itertools.combinations(pars, 2):
            es.add(frozenset((a, b)))
    return es


def samples_of(n):
    pass
