"""Stand-ins for the third-party packages that are not installed here, so that the real modules of
causalnex can be imported and run. Nothing of causalnex itself is replaced, except package __init__ files
(which would pull in torch and pandas) and, where stated, the numeric optimiser."""
import importlib
import itertools
import os
import sys
import types
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Index(list):
    @property
    def empty(self):
        return not len(self)

    @property
    def names(self):
        return [None]

    def __eq__(self, o):
        return np.array([a == b for a, b in zip(self, o)] if len(self) == len(o) else [False])

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def get_loc(self, c):
        return self.index(c)

    def tolist(self):
        return list(self)

    def to_list(self):
        return list(self)

    @property
    def values(self):
        return np.array(list(self), dtype=object)


class RowIndex(np.ndarray):
    def sort_values(self):
        return np.sort(self)

    @property
    def values(self):
        return np.asarray(self)

    @property
    def is_monotonic_increasing(self):
        return bool(np.all(np.diff(np.asarray(self)) >= 0))


class Series:
    def __init__(self, a, index):
        self.values = np.asarray(a)
        self.index = index

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    @property
    def loc(self):
        return {k: v for k, v in zip(list(self.index), self.values)}

    def idxmax(self):
        return list(self.index)[int(np.argmax(np.array(self.values, dtype=float)))]

    def map(self, d):
        f = d if callable(d) else d.get
        r = Series(np.zeros(len(self)), self.index)
        r.values = np.array([f(x) for x in self.values], dtype=object)
        return r

    def unique(self):
        out = []
        for v in self.values:
            if v not in out:
                out.append(v)
        return np.array(out, dtype=self.values.dtype)

    @property
    def dtype(self):
        return self.values.dtype


class _ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        rows, cols = k if isinstance(k, tuple) else (k, slice(None))
        df = self.df
        if isinstance(rows, (int, np.integer)):
            return Series(df.values[rows, cols], df.columns)
        c = list(range(len(df.columns)))[cols]
        if not isinstance(c, list):
            return Series(df.values[rows, c], df.index[rows])
        return DataFrame(df.values[rows][:, c], columns=[df.columns[i] for i in c], index=np.asarray(df.index)[rows], kinds=[df._kinds[i] for i in c])


class DataFrame:
    """columns with a common numeric array; a column may be declared non-numeric by kinds"""

    def __init__(self, data=None, columns=None, index=None, kinds=None):
        if isinstance(data, dict):
            columns = list(data)
            kinds = ["number" if np.asarray(v).dtype.kind in "ifub" and np.asarray(v).dtype.kind != "b" else "other" for v in data.values()]
            data = np.array([[v[i] for v in data.values()] for i in range(len(next(iter(data.values()))))], dtype=None if all(k == "number" for k in kinds) else object)
        self.values = np.array(data)
        if self.values.ndim == 1:
            self.values = self.values.reshape(-1, 1)
        self.columns = Index(columns if columns is not None else range(self.values.shape[1]))
        ix = np.array(index if index is not None else range(self.values.shape[0]))
        self.index = (ix if ix.dtype.kind == "f" and ix.size else ix.astype(int)).view(RowIndex)
        self._kinds = list(kinds) if kinds is not None else ["number"] * len(self.columns)

    def __len__(self):
        return self.values.shape[0]

    @property
    def shape(self):
        return self.values.shape

    @property
    def empty(self):
        return self.values.size == 0

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def at(self):
        df = self

        class At:
            def __getitem__(self, k):
                r, c = k
                return df.values[list(df.index).index(r), list(df.columns).index(c)]
        return At()

    @property
    def dtypes(self):
        return np.array([str(self.values.dtype) if k == "number" else "object" for k in self._kinds])

    def select_dtypes(self, include=None, exclude=None):
        keep = [i for i, k in enumerate(self._kinds) if (k == "number") == (include == "number" if include else exclude != "number")]
        return DataFrame(self.values[:, keep], columns=[self.columns[i] for i in keep], index=self.index, kinds=[self._kinds[i] for i in keep])

    def __getitem__(self, k):
        if isinstance(k, list):
            ix = [self.columns.index(c) for c in k]
            return DataFrame(self.values[:, ix], columns=list(k), index=self.index, kinds=[self._kinds[i] for i in ix])
        return Series(self.values[:, self.columns.index(k)], self.index)

    def __contains__(self, c):
        return c in list(self.columns)

    def __setitem__(self, c, v):
        if isinstance(v, Series):
            v = list(v)
        v = list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v] * len(self)
        if len(v) != len(self):
            raise ValueError("length of values does not match length of index")
        col = np.empty((len(v), 1), dtype=object)
        for i, x in enumerate(v):
            col[i, 0] = x
        if c in list(self.columns):
            self.values = self.values.astype(object)
            self.values[:, list(self.columns).index(c)] = col[:, 0]
        else:
            self.values = np.hstack([self.values.astype(object), col])
            self.columns = Index(list(self.columns) + [c])
            self._kinds = self._kinds + ["other"]

    def __setattr__(self, n, v):
        if n == "columns" and not isinstance(v, Index):
            v = Index(v)
        object.__setattr__(self, n, v)

    def set_index(self, cols, inplace=False):
        assert inplace and len(cols) == 1
        i = list(self.columns).index(cols[0])
        self.index = Index(self.values[:, i])
        keep = [j for j in range(len(self.columns)) if j != i]
        self.values = self.values[:, keep]
        self.columns = Index([list(self.columns)[j] for j in keep])

    def reindex(self, columns=None):
        return self[list(columns)]

    def __iter__(self):
        return iter(list(self.columns))

    def apply(self, f, axis=0):
        assert axis == 1
        r = Series(np.zeros(len(self)), self.index)
        names = list(self.columns)
        r.values = np.array([f(dict(zip(names, row))) for row in self.values], dtype=object)
        return r

    def rename(self, columns=None, inplace=False):
        f = columns if callable(columns) else lambda c: columns.get(c, c)
        d = self if inplace else self.copy()
        d.columns = Index([f(c) for c in d.columns])
        return None if inplace else d

    def drop(self, columns=None, errors="raise"):
        if errors != "ignore" and any(c not in self.columns for c in columns):
            raise KeyError("%r not found in axis" % (columns,))
        return self[[c for c in self.columns if c not in columns]]

    def copy(self, deep=True):
        return DataFrame(self.values.copy(), columns=list(self.columns), index=self.index, kinds=self._kinds)

    def to_numpy(self):
        return self.values


def concat(dfs, axis=0):
    dfs = list(dfs)
    if axis not in (0, 1):
        raise ValueError("No axis named %r for object type DataFrame" % (axis,))
    if axis == 0:
        cols = list(dfs[0].columns)
        for d in dfs[1:]:
            cols += [c for c in d.columns if c not in cols]
        return DataFrame([[row[list(d.columns).index(c)] if c in list(d.columns) else float("nan") for c in cols] for d in dfs for row in d.values], columns=cols, index=[i for d in dfs for i in d.index])
    return DataFrame(np.hstack([d.values for d in dfs]), columns=sum((list(d.columns) for d in dfs), []), index=dfs[0].index)


def isnull(x):
    def one(v):
        return v is None or (isinstance(v, float) and v != v)
    if isinstance(x, (list, tuple, np.ndarray, set)):
        return np.array([one(v) for v in x], dtype=bool)
    return one(x)


def get_dummies(s):
    cols = sorted(set(s.values.tolist()))
    return DataFrame(np.array([[1 if v == c else 0 for c in cols] for v in s.values]).reshape(len(s), len(cols)), columns=cols, index=s.index)


class ColumnKeys(Index):
    """columns of a conditional table: tuples of parent values"""

    def __init__(self, it, names):
        super().__init__(it)
        self._names = list(names)

    @property
    def names(self):
        return list(self._names)


class MultiIndex:
    def __init__(self, names):
        self.names = names

    @staticmethod
    def from_product(iterables, names=None):
        return ColumnKeys(itertools.product(*iterables), names)

    @staticmethod
    def from_frame(cpd):
        return MultiIndex(list(cpd.column_keys))


class BaseEstimator:
    pass


class TransformerMixin:
    def fit_transform(self, X, y=None, **kw):
        return self.fit(X, **kw).transform(X)


class NotFittedError(ValueError, AttributeError):
    pass


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m._stub = True
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        par, leaf = name.rsplit(".", 1)
        if par in sys.modules:
            setattr(sys.modules[par], leaf, m)
    return m


class _Any:
    """an inert object: any attribute, any call"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _AnyMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return type(n, (_Any,), {})


class OneHotEncoder:
    def __init__(self, sparse=False, categories="auto", drop=None, **k):
        pass

    def fit(self, X):
        self.categories_ = [np.unique(X[:, 0])]
        return self

    def fit_transform(self, X):
        return self.fit(X).transform(X)

    def transform(self, X):
        return (X[:, [0]] == self.categories_[0][None, :]).astype(float)


class OrdinalEncoder(OneHotEncoder):
    def __init__(self, **k):
        pass

    def transform(self, X):
        return np.searchsorted(self.categories_[0], X[:, [0]]).astype(float)


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    _mod("pandas", DataFrame=DataFrame, Series=Series, concat=concat, isnull=isnull, isna=isnull, get_dummies=get_dummies, MultiIndex=MultiIndex, Index=Index)
    sk = _mod("sklearn")
    sk.__path__ = []
    _mod("sklearn.base", BaseEstimator=BaseEstimator, TransformerMixin=TransformerMixin, RegressorMixin=object, ClassifierMixin=object)
    _mod("sklearn.exceptions", NotFittedError=NotFittedError)
    _mod("sklearn.preprocessing", OneHotEncoder=OneHotEncoder, OrdinalEncoder=OrdinalEncoder)
    _mod("sklearn.utils", check_array=lambda X, *a, **k: X)
    gp = _mod("sklearn.gaussian_process")
    gp.__path__ = []
    _mod("sklearn.gaussian_process.kernels", RBF=_Any, Kernel=_Any)
    sk.metrics = _mod("sklearn.metrics")
    t = _AnyMod("torch")
    t.__path__ = []
    sys.modules["torch"] = t
    nn = _AnyMod("torch.nn")
    sys.modules["torch.nn"] = nn
    t.nn = nn
    nn.__path__ = []
    nn.Module = type('Module', (), {})
    pg = _mod("pgmpy")
    pg.__path__ = []
    _mod("pgmpy.estimators", BayesianEstimator=_Any, MaximumLikelihoodEstimator=_Any)
    _mod("pgmpy.models", BayesianModel=_Any)
    # packages of causalnex whose __init__ imports what is not installed
    for name in ("causalnex", "causalnex.structure", "causalnex.structure.data_generators", "causalnex.structure.pytorch", "causalnex.network",
                 "causalnex.inference", "causalnex.plots", "causalnex.evaluation", "causalnex.discretiser"):
        m = types.ModuleType(name)
        m.__path__ = [os.path.join(REPO, *name.split("."))]
        sys.modules[name] = m
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            setattr(sys.modules[par], leaf, m)
    sm = importlib.import_module("causalnex.structure.structuremodel")
    sys.modules["causalnex.structure"].StructureModel = sm.StructureModel


def load(name):
    """the real module causalnex.<name>"""
    install()
    if name.split(".")[0] in ("inference", "evaluation"):
        sys.modules["causalnex.network"].BayesianNetwork = importlib.import_module("causalnex.network.network").BayesianNetwork
    return importlib.import_module("causalnex." + name)
