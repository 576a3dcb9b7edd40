"""Canonical, comparable and JSON-able form of the values the code returns."""
import hashlib
import numbers
import os

import numpy as np


def sha(b):
    return hashlib.sha1(b).hexdigest()[:16]


def arr_digest(a):
    a = np.asarray(a)
    if a.dtype.kind in 'fc':
        a = np.array(a, copy=True)
        nan = np.isnan(a)
        if nan.any():
            a[nan] = np.nan
        a = a + 0.0 if a.dtype.kind == 'f' else a   # -0.0 == 0.0
    elif a.dtype.kind == 'O':
        return sha(repr(a.tolist()).encode())
    return sha(np.ascontiguousarray(a).tobytes())


def canon(x, depth=0):
    if depth > 25:
        return 'DEEP'
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return ['f', repr(x)]
    if isinstance(x, bytes):
        return ['b', sha(x)]
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        return ['ma', str(x.dtype), list(x.shape), arr_digest(x.filled(0)), arr_digest(m)]
    if isinstance(x, np.ndarray):
        return ['nd', str(x.dtype), list(map(int, x.shape)), arr_digest(x)]
    if isinstance(x, np.dtype):
        return ['dtype', str(x)]
    if isinstance(x, slice):
        return ['sl', canon(x.start, depth + 1), canon(x.stop, depth + 1), canon(x.step, depth + 1)]
    if isinstance(x, dict):
        return ['d', [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]]
    if isinstance(x, (set, frozenset)) and type(x).__name__ != 'OrderedSet':
        return ['set', sorted((canon(v, depth + 1) for v in x), key=repr)]
    t = type(x).__name__
    if t == 'OrderedSet':
        return ['oset', [canon(v, depth + 1) for v in x]]
    if isinstance(x, (list, tuple)):
        return ['l' if isinstance(x, list) else 't'] + [canon(v, depth + 1) for v in x]
    if isinstance(x, os.PathLike):
        return ['path', os.fspath(x)]
    if t == 'DataArray':
        return ['xr', list(x.dims), canon({str(k): np.asarray(v).tolist() for k, v in x.coords.items()}, depth + 1), canon(np.asarray(x.values), depth + 1)]
    if t in ('Affine', 'Projective', 'Linear'):
        return ['tf', [repr(float(v)) for v in np.asarray(x).ravel()]]
    if hasattr(x, 'spec') and t.endswith('Spec'):
        return ['spec', t, x.spec if isinstance(x.spec, str) else canon(x.spec)]
    if hasattr(x, '_finalize') and hasattr(x, 'children'):
        return ['node', t, canon_node(x, depth + 1)]
    if isinstance(x, type):
        return ['type', x.__name__]
    if isinstance(x, BaseException):
        return ['exc', t]
    if hasattr(x, '__next__'):
        return ['iter', [canon(v, depth + 1) for v in x]]
    if type(x).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
        return ['iter', [canon(v, depth + 1) for v in x]]
    import re
    return ['o', t, re.sub(r'0x[0-9a-fA-F]+', '0x', repr(x))]


def canon_node(n, depth=0):
    """Structure of a whole tree (by value)."""
    out = [canon(n.meta, depth + 1)]
    if type(n).__name__ == 'DelayedIdentity':
        out.append(canon(n.data, depth + 1))
    out.append(canon(getattr(n, 'dsize', None), depth + 1))
    kids = list(n.children())
    out.append([['node', type(k).__name__, canon_node(k, depth + 1)] if hasattr(k, 'children') else canon(k) for k in kids])
    return out


FILL = ('dsize', 'num_channels', 'num_overviews')


def shallow(n):
    """
    Own observable state of one node: parameters, children (by identity) and
    reported metadata.
    """
    kids = [id(k) for k in n.children()]
    def get(name):
        try:
            return canon(getattr(n, name))
        except Exception as ex:
            return ['exc', type(ex).__name__]
    d = {'type': type(n).__name__, 'kids': kids,
         'meta': {str(k): canon(v) for k, v in n.meta.items()}}
    for name in ('shape', 'dsize', 'channels', 'num_channels', 'num_overviews'):
        d[name] = get(name)
    if type(n).__name__ == 'DelayedIdentity':
        d['data'] = canon(n.data)
    return d


def reachable(roots):
    seen = {}
    stack = list(roots)
    while stack:
        n = stack.pop()
        if id(n) in seen or not hasattr(n, 'children'):
            continue
        seen[id(n)] = n
        stack.extend(n.children())
    return list(seen.values())


def dumps(x):
    import json
    return json.dumps(x, sort_keys=True, default=str)


def digest(x):
    return sha(dumps(x).encode())
