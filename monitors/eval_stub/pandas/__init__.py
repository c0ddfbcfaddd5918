"""Stand-in for the part of pandas that the evaluation tools use: columns of numbers with row labels."""
import csv

import numpy as np


class StandInLacks(AttributeError):
    """Something of pandas that this stand-in does not have: the monitor then gives no verdict."""


class Series(np.ndarray):
    """An array whose elements are looked up by row label, as those of pandas are."""

    def __new__(cls, values, index):
        s = np.asarray(values).view(cls)
        s._index = np.asarray(index)
        return s

    def __array_finalize__(self, obj):
        self._index = getattr(obj, '_index', None)

    @property
    def index(self):
        return self._index

    @property
    def values(self):
        return np.asarray(self)

    @property
    def iloc(self):
        return np.asarray(self)

    @property
    def empty(self):
        return len(self) == 0

    def __iter__(self):
        return iter(np.asarray(self))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise StandInLacks('Series.' + name)

    def to_list(self):
        return np.asarray(self).tolist()

    def items(self):
        return zip(self._index.tolist(), np.asarray(self).tolist())

    def reset_index(self, drop=False):
        return Series(np.asarray(self), np.arange(len(self)))

    def notna(self):
        return Series(~np.isnan(np.asarray(self, float)), self._index)

    def dropna(self):
        return self[np.asarray(self.notna())]

    def abs(self):
        return Series(np.abs(np.asarray(self)), self._index)

    def unique(self):
        return np.unique(np.asarray(self))

    @property
    def loc(self):
        return self

    def to_numpy(self):
        return np.array(self)

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)):
            hit = np.nonzero(self._index == key)[0]
            if len(hit) == 0:
                raise KeyError(key)
            return np.asarray(self)[hit[0]]
        out = np.asarray(self)[key]
        return Series(out, self._index[key]) if isinstance(out, np.ndarray) and out.ndim == 1 else out


class DataFrame:
    def __init__(self, columns, index=None):
        self._c = {k: np.asarray(v) for k, v in columns.items()}
        n = len(next(iter(self._c.values()))) if self._c else 0
        self.index = np.arange(n) if index is None else np.asarray(index)
        self.attrs = {}

    def __getattr__(self, name):
        if not name.startswith('_') and name in self._c:
            return self[name]
        if name.startswith('_'):
            raise AttributeError(name)
        raise StandInLacks('DataFrame.' + name)

    @property
    def shape(self):
        return (len(self.index), len(self._c))

    def to_numpy(self):
        return np.column_stack(list(self._c.values())) if self._c else np.zeros((0, 0))

    values = property(to_numpy)

    def get(self, key, default=None):
        return self[key] if key in self._c else default

    def copy(self, deep=True):
        d = DataFrame(dict(self._c), self.index)
        d.attrs = dict(self.attrs)
        return d

    def to_dict(self, orient='dict'):
        if orient == 'list':
            return {k: v.tolist() for k, v in self._c.items()}
        raise StandInLacks('DataFrame.to_dict ' + orient)

    def keys(self):
        return list(self._c)

    columns = property(keys)

    def __contains__(self, k):
        return k in self._c

    def __iter__(self):
        return iter(self._c)

    def __len__(self):
        return len(self.index)

    @property
    def empty(self):
        return len(self.index) == 0 or not self._c

    def __getitem__(self, key):
        if isinstance(key, str):
            return Series(self._c[key], self.index)
        if isinstance(key, list):
            return DataFrame({k: self._c[k] for k in key}, self.index)
        m = np.asarray(key)
        return DataFrame({k: v[m] for k, v in self._c.items()}, self.index[m])

    def dropna(self):
        keep = np.ones(len(self.index), bool)
        for v in self._c.values():
            if v.dtype.kind == 'f':
                keep &= ~np.isnan(v)
            elif v.dtype.kind == 'O':
                keep &= np.array([x is not None for x in v], bool)
        d = DataFrame({k: v[keep] for k, v in self._c.items()}, self.index[keep])
        d.attrs = dict(self.attrs)
        return d

    def reset_index(self, drop=False):
        d = DataFrame(self._c)
        d.attrs = dict(self.attrs)
        return d


class errors:
    class EmptyDataError(ValueError):
        pass


NA = {'', 'nan', 'NaN', '-nan', '-NaN', 'NA', 'N/A', 'NULL', 'null', 'n/a', 'None'}


def _column(cells):
    if all(c in NA or _isint(c) for c in cells):
        if not any(c in NA for c in cells) and cells:
            return np.array([int(c) for c in cells])
    try:
        return np.array([np.nan if c in NA else float(c) for c in cells], float)
    except ValueError:
        return np.array([None if c in NA else c for c in cells], object)


def _isint(c):
    try:
        int(c)
        return True
    except ValueError:
        return False


def read_csv(path, **kw):
    if kw:
        raise StandInLacks('read_csv ' + ' '.join(kw))
    with open(path, newline='') as f:
        rows = [r for r in csv.reader(f) if r]
    if not rows:
        raise errors.EmptyDataError('No columns to parse from file')
    head, body = rows[0], rows[1:]
    for r in body:
        if len(r) > len(head):
            raise ValueError('Error tokenizing data')
    body = [r + [''] * (len(head) - len(r)) for r in body]
    return DataFrame({h: _column([r[k].strip() for r in body]) for k, h in enumerate(head)})


def isna(x):
    return np.isnan(np.asarray(x, float))


isnull = isna


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise StandInLacks('pandas.' + name)
