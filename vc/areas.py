"""The contract files, and which contracts each property rests on."""
import os
import importlib

AREA_FILES = ["ebay", "smodel", "infer", "disc", "plots", "learn", "neural", "dyn", "netw", "gen", "tseries", "mapper"]


def load():
    out = {}
    for a in AREA_FILES:
        out[a] = importlib.import_module(a)
    return out


def for_property(prop):
    """[(area module, contract)] whose obligations decide the property"""
    res = []
    for a, m in load().items():
        for n, c in m.C.items():
            if prop in c.props and not c.trusted:
                res.append((m, c))
    return res


# rough seconds, to start the long ones first
COST = {"build_bbn": 30, "JoinTree.initialize_potentials": 25, "get_original_factors": 6, "JoinTree.assign_clusters": 6, "triangulate": 40}
WIDE = {"neural.from_numpy"}  # many obligations: more solver processes at once


def expand(m, n):
    """the contracts to discharge when a body was checked against contract n"""
    c = m.C.get(n)
    if c is None:
        return []
    if c.trusted == "virtual":
        name = n.split(".")[-1]
        return [k for q, k in m.C.items() if q.split(".")[-1] == name and not k.trusted]
    return [] if c.trusted else [c]


_progs = {}


def program(area, root):
    from engine import Program
    k = (area.__name__, root)
    if k not in _progs:
        _progs[k] = Program(root, area.MODULES, area.FIELDS, area.BASES, getattr(area, "FROZEN", ()))
    return _progs[k]


def engine(area, root):
    from engine import Engine
    e = Engine(program(area, root), area.C, getattr(area, "BUILTINS", {}))
    e.empty_tuple = getattr(area, "EMPTY_TUPLE", None)  # type of () where nothing else tells
    e.hooks = getattr(area, "HOOKS", {})
    e.values = getattr(area, "VALUES", {})
    return e
