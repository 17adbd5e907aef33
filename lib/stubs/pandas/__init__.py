"""Minimal stand-in for pandas (not installed here): only
read_csv(chunksize=, header=None, dtype=None|str|object, keep_default_na=True|False, na_filter=True|False).

Mirrors pandas' per-chunk, per-column dtype inference: a column is int when every
field is an integer, float when every field is numeric or empty, else object (str,
empty = nan).  `.values` is an object array when dtypes differ, as in pandas.
"""
import csv
import numpy as np


class _Frame:
    def __init__(self, rows, text=False, na=True):
        self._rows = rows
        self._text = text
        self._na = na

    def itertuples(self, index=True, name=None):
        for i, r in enumerate(self.values.tolist()):
            yield tuple(([i] if index else []) + list(r))

    @property
    def shape(self):
        return (len(self._rows), len(self._rows[0]) if self._rows else 0)

    def __len__(self):
        return len(self._rows)

    @property
    def values(self):
        cols = list(zip(*self._rows))
        out, kinds = [], set()
        for c in cols:
            if self._text:
                conv, kind = [float('nan') if x == '' and self._na else x for x in c], 'o'
            else:
                conv, kind = _infer(c)
            out.append(conv)
            kinds.add(kind)
        if kinds == {'i'}:
            return np.array(list(zip(*out)), dtype=np.int64)
        if kinds <= {'i', 'f'}:
            return np.array(list(zip(*out)), dtype=np.float64)
        a = np.empty((len(self._rows), len(cols)), dtype=object)
        for j, c in enumerate(out):
            for i, v in enumerate(c):
                a[i, j] = v
        return a


def _infer(col):
    try:
        return [int(x) for x in col], 'i'
    except ValueError:
        pass
    try:
        return [float(x) if x != '' else float('nan') for x in col], 'f'
    except ValueError:
        pass
    return [x if x != '' else float('nan') for x in col], 'o'


CHUNK = None         # checks may shrink the chunks, so that small files have several


def read_csv(path, chunksize=None, header=None, dtype=None, keep_default_na=True, na_filter=True, **kw):
    assert header is None
    text = dtype in (str, object, 'str', 'object')
    na = keep_default_na and na_filter
    if chunksize is not None and CHUNK is not None:
        chunksize = min(chunksize, CHUNK)
    if chunksize is None:
        with open(path, newline='', encoding='utf-8') as f:
            return _Frame([r for r in csv.reader(f) if r], text, na)

    def gen():
        with open(path, newline='', encoding='utf-8') as f:
            buf = []
            for r in csv.reader(f):
                if not r:
                    continue
                buf.append(r)
                if len(buf) == chunksize:
                    yield _Frame(buf, text, na)
                    buf = []
            if buf:
                yield _Frame(buf, text, na)
    return gen()
