"""Projection of Python/numpy values to the value tokens of the specification
and back.  A token identifies a value independent of the numeric type that
carries it (1 and 1.0 are the same token)."""
import datetime
import math

import numpy as np


def num(x):
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    if x == int(x) and abs(x) < 2**53:
        return str(int(x))
    return 'x' + x.hex()


def tok(x):
    if x is None:
        return 'None'
    if isinstance(x, (bool, np.bool_)):
        return 'True' if x else 'False'
    if isinstance(x, str):
        return 's' + str(x)
    if isinstance(x, bytes):
        return 'b' + bytes(x).decode('latin-1')
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return num(x)
    if isinstance(x, (complex, np.complexfloating)):
        re, im = float(x.real), float(x.imag)
        if math.isnan(re) or math.isnan(im):
            return 'nan'
        if im == 0:
            return num(re)
        return 'c' + num(re) + '|' + num(im)
    if isinstance(x, np.datetime64):
        if np.isnat(x):
            return 'NaT'
        return tok(x.astype('datetime64[us]').astype(object))
    if isinstance(x, datetime.datetime):
        return 'd' + x.isoformat()
    if isinstance(x, datetime.date):
        return 'd' + x.isoformat() + 'T00:00:00'
    if isinstance(x, np.timedelta64):
        return tok(x.astype('timedelta64[us]').astype(object))
    if isinstance(x, datetime.timedelta):
        return 'm' + repr(x.total_seconds())
    return 'o' + type(x).__name__ + ':' + repr(x)


def untok(t):
    """Inverse for the tokens the specification's models emit."""
    if t == 'None':
        return None
    if t in ('True', 'False'):
        return t == 'True'
    if t in ('nan', 'inf', '-inf'):
        return float(t)
    if t[0] == 's':
        return t[1:]
    if t[0] == 'x':
        return float.fromhex(t[1:])
    return int(t)


def col(a):
    """Column record of a (numpy array)."""
    if not isinstance(a, np.ndarray):
        return {'k': '!' + type(a).__name__, 'v': []}
    if a.ndim != 1:
        return {'k': '!ndim%d' % a.ndim, 'v': []}
    return {'k': a.dtype.kind, 'v': [tok(x) for x in a]}


DT = {'i': np.int64, 'u': np.uint64, 'f': np.float64, 'c': np.complex128,
      'b': np.bool_, 'O': object}


def arr(c):
    """Array of column record c, (models only)."""
    vals = [untok(t) for t in c['v']]
    if c['k'] in DT:
        return np.array(vals, dtype=DT[c['k']])
    return np.array(vals, dtype='U8' if not vals else None)


def cps(s):
    return [ord(c) for c in s]


def uncps(l):
    return ''.join(map(chr, l))
