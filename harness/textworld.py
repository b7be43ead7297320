"""Run textpack / lazy_textpack on one case from different sources and project
what comes out to the values of the specification."""
import builtins
import io
import os
import re
import tempfile
from contextlib import redirect_stdout
from decimal import Decimal

import numpy as np

from common import limit, Timeout
from tokens import cps

REAL_OPEN = io.open


def numval(x):
    x = float(x)
    if x != x:
        return ['nan']
    if x in (float('inf'), float('-inf')):
        return ['inf', x < 0]
    if x == 0:
        return ['n', False, [], 0]
    sign, digits, e = Decimal(repr(x)).as_tuple()
    ds = list(digits)
    while ds and ds[0] == 0:
        ds.pop(0)
    while ds and ds[-1] == 0:
        ds.pop()
        e += 1
    return ['n', bool(sign), [48 + d for d in ds], e]


def val(x):
    if isinstance(x, str):
        return ['s', cps(x)]
    if isinstance(x, bytes):
        return ['b', list(x)]
    if isinstance(x, (bool, np.bool_)) or x is None:
        return ['o', repr(x)]
    if isinstance(x, (int, float, np.integer, np.floating)):
        return numval(x)
    return ['o', type(x).__name__ + repr(x)]


def colvals(a):
    if not isinstance(a, np.ndarray) or a.ndim != 1:
        return [['o', 'not an array ' + type(a).__name__]]
    return [val(x) for x in a]


CONV = {'len': len, 'rev': lambda s: s[::-1], 'ident': lambda s: s, 'float': float}


def kwargs(prm, given, mode, api):
    """Keyword arguments of the call for parameter record prm."""
    enc = prm['enc']
    kw = {}
    want = (lambda k: True) if api == 'text' else (lambda k: k in given)
    if want('delim'):
        d = prm['delim']
        d = ''.join(map(chr, d[0])) if d else None
        if d is not None and mode != 't':
            d = d.encode('ascii')
        if d is not None or api == 'lazy':
            kw['delimiter'] = d
    if want('skip') and (prm['skip'] or api == 'lazy'):
        kw['skiprows'] = prm['skip']
    if want('usecols') and prm['usecols']:
        u = list(prm['usecols'][0])
        style = prm.get('style', 0)
        if style == 1:
            u = tuple(u)
        elif style == 2 and len(u) == 1:
            u = u[0]
        elif style == 3:
            u = set(u)
        kw['usecols'] = u
    if want('names') and prm['names']:
        items = prm['names'][0]
        if prm.get('style', 0) % 2:
            items = items[::-1]
        kw['names'] = {k: ''.join(map(chr, v)) for k, v in items}
    if want('hasnames') and (prm['hasnames'] or api == 'lazy'):
        kw['hasnames'] = prm['hasnames']
    if want('convs') and (prm['convs'] or api == 'lazy'):
        kw['converters'] = {c: CONV[f] for c, f in prm['convs']}
    if want('strip') and (prm['strip'] or api == 'lazy'):
        kw['stripstrings'] = prm['strip']
    if mode == 'd' or (api == 'lazy' and 'enc' in given):
        kw['encoding'] = enc
    return kw


class Opened(object):
    """Record the files opened from a path during a call."""
    def __init__(self):
        self.files = []

    def __enter__(self):
        def op(*a, **k):
            f = REAL_OPEN(*a, **k)
            if a and isinstance(a[0], (str, bytes)):
                self.files.append(f)
            return f
        io.open = op
        builtins.open = op
        return self

    def __exit__(self, *a):
        io.open = REAL_OPEN
        builtins.open = REAL_OPEN

    def leaked(self):
        n = sum(not f.closed for f in self.files)
        for f in self.files:
            f.close()
        return n


JUNKS = ['junk;1 2\n3 4\nx', '1', '\n', 'ab', '7;8\n', '5 5 5\n6 6 6\n', ' \n\n', 'x' * 300,
         '1 2\n' * 40 + '9']


def observe(case, source, debug=False):
    from channelpack import readtext as rt
    text = case.get('bigtext') or ''.join(map(chr, case['content']))
    data = case.get('bigbytes') or bytes(case['bytes'])
    enc = case['prm']['enc']
    tmp = None
    stream = None
    name, named, src = '', False, 'stream'
    mode = {'t': 't', 'b': 'b', 'd': 'd'}[source[0]]
    kind = source[1:]
    obs = {'mode': mode, 'srcname': source, 'debug': debug}
    kw = kwargs(case['prm'], case['given'], mode, case['api'])
    off = 'off' in kind
    JUNK = JUNKS[(sum(case['content']) + len(source)) % len(JUNKS)]
    try:
        if kind.startswith('path') or kind.startswith('file') or kind.startswith('tmp'):
            fd, tmp = tempfile.mkstemp(prefix='cp', suffix='.txt')
            junk = JUNK.encode() if off else b''
            os.write(fd, junk + data)
            os.close(fd)
        if kind.startswith('path'):
            src, name, arg = 'path', tmp, tmp
            if case['api'] == 'text':
                kw['encoding'] = enc
        elif kind.startswith('file'):
            stream = (REAL_OPEN(tmp, encoding=enc) if mode == 't'
                      else REAL_OPEN(tmp, 'rb'))
            name, named = tmp, True
        elif kind.startswith('tmp'):     # a stream whose name is no string
            fd = os.open(tmp, os.O_RDONLY)
            stream = (REAL_OPEN(fd, encoding=enc) if mode == 't'
                      else REAL_OPEN(fd, 'rb'))
        elif mode == 't':
            stream = io.StringIO((JUNK if off else '') + text)
        else:
            stream = io.BytesIO((JUNK.encode() if off else b'') + data)
        if stream is not None:
            if off:
                stream.read(len(JUNK))
            arg = stream
        if debug:
            kw['debug'] = True
        if case['api'] == 'lazy' and case['parse'] != 25:
            kw['parselines'] = case['parse']
        fun = rt.textpack if case['api'] == 'text' else rt.lazy_textpack
        out = io.StringIO()
        before = {k: repr(v) for k, v in kw.items() if k != 'converters'}
        with Opened() as opened:
            try:
                with limit(10), redirect_stdout(out):
                    p = fun(arg, **kw)
                obs.update(
                    st='ok', exc=[], msg='', fn=cps(p.fn) if isinstance(p.fn, str) else [-1],
                    data=[[k, colvals(p.data[k])] for k in sorted(p.data)],
                    names=[[k, val(p.names[k])] for k in sorted(p.names)])
            except Timeout:
                obs.update(st='timeout', exc=[], msg='', fn=[], data=[], names=[])
            except Exception as e:
                msg = repr([a if isinstance(a, (str, int)) else type(a).__name__
                            for a in e.args])
                obs.update(st='err', exc=[c.__name__ for c in type(e).__mro__],
                           msg=msg if tmp is None else msg.replace(tmp, 'TMP'),
                           fn=[], data=[], names=[])
        obs['mutated'] = before != {k: repr(v) for k, v in kw.items() if k != 'converters'}
        shown = out.getvalue().splitlines()
        obs['nout'] = len(shown)
        obs['linums'] = [int(n) for l in shown for n in re.findall(r'line[^\d\n]*(?:1-based[^\d\n]*)?(\d+)', l)
                         if ' at 0x' not in l] if debug else []
        obs['leaked'] = opened.leaked()
        obs['closed'] = bool(stream.closed) if stream is not None else False
        obs['src'], obs['name'], obs['named'] = src, cps(name), named
    finally:
        if stream is not None and not stream.closed:
            stream.close()
        if tmp:
            os.unlink(tmp)
    if case.get('tile'):
        obs['data'] = [long_(k, v, case['rows']) for k, v in obs['data']]
    return obs


def long_(k, v, n):
    """A long column, see Tile.tla."""
    return [k, v[:n], len(v), all(x == v[i % n] for i, x in enumerate(v))]
