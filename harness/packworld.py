"""Execute specification events on real ChannelPack objects and project the
resulting state.  Only the public API is used."""
import collections
import itertools

import numpy as np

import channelpack
from channelpack.pack import IntKeyDict, NpDict

from tokens import arr, col, cps, tok, uncps

BADKEYS = {'str': 'a', 'float': 1.5, 'float1': 1000.0, 'none': None,
           'tuple': (1, 2), 'npint': np.int64(3000), 'bytes': b'0', 'numstr': '1'}
BADVALS = {'scalar': 5, 'none': None, 'nested': [[1, 2], [3, 4]],
           'arr2d': np.ones((2, 3)), 'arr0d': np.array(3.0), 'string': 'abc',
           'arr3d': np.zeros((1, 1, 4)), 'empty2d': np.ones((0, 2))}
RX = {'word': r'\w+', 'digit': r'\d+', 'alpha': r'[A-Za-z]+',
      'upper': r'[A-Z]+', 'id': channelpack.ChannelPack.id_rx}
NOFARG = {'none': None, 'nan': 'nan', 'filter': 'filter', 'ignore': 'ignore'}
BADATTR = {
    'nof': ['ignore', 'NAN', '', 0, 1, False, 'nan ', 'all', b'nan', ('nan',)],
    'mask': [[True, False], None, (True,), 'x', 1, False],
    'mindur': [1.5, '3', [2], 2.0, (1,), b'1', 'x'],
    'prefix': [None, 3, b'ch', ['ch'], 1.5],
    'fn': [None, 3, b'file', ['file'], 0, False],
    'del': ['FALLBACK_PREFIX', 'data', 'fn', 'filenames', 'names', 'nof',
            'mindur'],
}
ATTR = {'prefix': 'FALLBACK_PREFIX'}


def fingerprint(x):
    if isinstance(x, np.ndarray):
        return 'A%s%s' % (x.dtype, [tok(e) for e in x.ravel()])
    if isinstance(x, dict):
        return 'D%s' % sorted((repr(k), id(v) if not isinstance(v, str) else v)
                              for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return 'L%s' % [tok(e) for e in x]
    return repr(x)


class Mapping(object):
    """Minimal non-dict mapping (keys and getitem)."""
    def __init__(self, pairs):
        self.pairs = list(pairs)

    def keys(self):
        return [k for k, v in self.pairs]

    def __iter__(self):
        return iter(self.keys())

    def __getitem__(self, key):
        for k, v in self.pairs:
            if k is key or k == key:
                return v
        raise KeyError(key)


class World(object):
    def __init__(self):
        self.packs = []
        self.held = []
        self.turn = 0
        self.fp0 = []           # fingerprints when first held

    # -- building arguments

    def hold(self, x):
        self.held.append(x)
        self.fp0.append(fingerprint(x))
        return x

    def value(self, it):
        if it.get('bv'):
            return BADVALS[it['bv']]
        v = it['val']
        if isinstance(v, dict):
            if 'h' in it:
                return self.held[it['h']]
            return self.hold(arr(v))
        return uncps(v)

    def pairs(self, items):
        out = []
        for it in items:
            key = BADKEYS[it['bk']] if it.get('bk') else it['key']
            out.append((key, self.value(it)))
        return out

    def container(self, items, how, isdata):
        pairs = self.pairs(items)
        if how == 'pairs':
            return pairs
        if how == 'lists':
            return [list(p) for p in pairs]
        if how == 'iter':
            return zip([k for k, v in pairs], [v for k, v in pairs])
        if how == 'gen':
            return (p for p in pairs)
        if how == 'mapping':
            return Mapping(pairs)
        if how == 'userdict':
            return collections.UserDict(pairs)
        if how == 'odict':
            return self.hold(collections.OrderedDict(pairs))
        if how == 'own' and not any(it.get('bad') for it in items):
            return self.hold((NpDict if isdata else IntKeyDict)(pairs))
        return self.hold(dict(pairs))

    def mask(self, ev):
        if 'mh' in ev:
            return self.held[ev['mh']]
        return self.hold(np.array(ev['mask'], dtype=bool))

    def inplace(self, p, m):
        """Alter the mask array of p itself and assign it, every second time it is p's alone."""
        x = p.mask
        if (not isinstance(x, np.ndarray) or x.shape != m.shape or x.dtype != m.dtype or any(
                isinstance(y, np.ndarray) and np.shares_memory(x, y)
                for y in self.held + [q.mask for q in self.packs if q is not p])):
            return False
        self.turn += 1
        return self.turn % 2 == 0

    # -- events

    def execute(self, ev):
        """Return the observed result (JSON)."""
        try:
            return self.project_result(self._execute(ev))
        except Exception as e:
            return {'t': 'exc', 'mro': [c.__name__ for c in type(e).__mro__],
                    'msg': str(e)[:200]}

    def project_result(self, r):
        if r is None:
            return {'t': 'ok'}
        kind, x = r
        if kind == 'arr':
            return {'t': 'arr', 'c': col(x)}
        if kind == 'bools':
            if (not isinstance(x, np.ndarray) or x.dtype.kind != 'b'
                    or x.ndim != 1):
                return {'t': 'notbools', 'r': repr(x)[:100]}
            return {'t': 'bools', 'v': [bool(e) for e in x]}
        if kind == 'str':
            if not isinstance(x, str):
                return {'t': 'notstr', 'r': repr(x)[:100]}
            return {'t': 'str', 's': cps(x)}
        if kind == 'recs':
            return x
        if kind == 'dataitem':
            if x is None:
                return {'t': 'none'}
            return {'t': 'item', 'x': col(x)}
        if kind == 'nameitem':
            if x is None:
                return {'t': 'none'}
            return {'t': 'item', 'x': cps(x)}
        raise AssertionError(kind)

    def _execute(self, ev):
        op = ev['op']
        if op == 'hold':
            self.hold(ev['obj'] if 'obj' in ev else arr(ev['val']))
            return
        if op == 'create':
            kw = {}
            if ev['items'] or ev.get('empty', True):
                kw['data'] = self.container(ev['items'], ev.get('how', 'dict'), True)
            if ev['nitems'] or ev.get('empty', True):
                kw['names'] = self.container(ev['nitems'], ev.get('nhow', 'dict'), False)
            self.packs.append(channelpack.ChannelPack(**kw))
            return
        p = self.packs[ev['p'] - 1]
        q = self.packs[ev['q'] - 1] if 'q' in ev else None
        if op == 'setdata':
            p.data = self.container(ev['items'], ev.get('how', 'dict'), True)
        elif op == 'setdatafrom':
            p.data = q.data
        elif op == 'setnames':
            p.names = self.container(ev['nitems'], ev.get('nhow', 'dict'), False)
        elif op == 'setnamesfrom':
            p.names = q.names
        elif op == 'setmask':
            m = self.mask(ev)
            if self.inplace(p, m):
                x = p.mask
                x[...] = m
                m = x
            p.mask = m
        elif op == 'setmaskfrom':
            p.mask = q.mask
        elif op == 'andmask':
            m = self.mask(ev)
            if self.inplace(p, m):
                p.mask &= m
            else:
                p.mask = p.mask & m
        elif op == 'reset':
            p.mask_reset()
        elif op == 'setmindur':
            p.mindur = ev['md'][0] if ev['md'] else None
        elif op == 'duration':
            d, s = ev['d'], ev['s']
            d = d[0] if d[1] == 1 and not ev.get('fl') else d[0] / d[1]
            s = s[0] if s[1] == 1 and not ev.get('fl') else s[0] / s[1]
            if ev.get('default') and s == 1 and ev['min']:
                return 'bools', p.duration(d)
            if ev.get('kw'):
                return 'bools', p.duration(duration=d, samplerate=s, mindur=ev['min'])
            return 'bools', p.duration(d, s, ev['min'])
        elif op == 'startstop':
            conv = ev.get('conv', 'array')
            a, b = self.hold(trig(ev['a'], conv)), self.hold(trig(ev['b'], conv))
            if ev['apply'] and ev.get('default'):
                return 'bools', p.startstop(a, b)
            return 'bools', p.startstop(a, b, apply=ev['apply'])
        elif op == 'append':
            p.append_pack(q)
        elif op in ('mutdata', 'mutnames'):
            return self.mutate(p.data if op == 'mutdata' else p.names, ev,
                               op == 'mutdata')
        elif op == 'setnof':
            p.nof = None if ev['v'] == 'none' else ev['v']
        elif op == 'setprefix':
            p.FALLBACK_PREFIX = uncps(ev['px'])
        elif op == 'setfn':
            p.fn = ev['v']
        elif op == 'setbad':
            if ev['attr'] == 'del':
                delattr(p, BADATTR['del'][ev['which']])
            else:
                setattr(p, ATTR.get(ev['attr'], ev['attr']),
                        BADATTR[ev['attr']][ev['which']])
        elif op == 'call':
            ref = ev['ref']
            ch = ref['n'] if ref['t'] == 'int' else uncps(ref['s'])
            kw = {}
            if ev['part']:
                kw['part'] = ev['part'][0]
            if ev['nof'] != 'none':
                kw['nof'] = ev['nof']
            return 'arr', p(ch, **kw)
        elif op == 'records':
            kw = {}
            if ev['part']:
                kw['part'] = ev['part'][0]
            if ev['nof'] != 'none':
                kw['nof'] = ev['nof']
            if ev['fallback']:
                kw['fallback'] = True
            rows = iter(p.records(**kw))
            if ev.get('open'):
                self.pending = rows, [r for r in itertools.islice(rows, 1)]
                return self.recs(self.pending[1])
            return self.recs(list(rows))
        elif op == 'name':
            return self.namecall(p, ev)
        else:
            raise AssertionError(op)

    def finish(self):
        """The result of the records event that was left open: the rest of its rows are taken now."""
        rows, recs = self.pending
        self.pending = None
        try:
            return self.project_result(self.recs(recs + list(rows)))
        except Exception as e:
            return {'t': 'exc', 'mro': [c.__name__ for c in type(e).__mro__], 'msg': str(e)[:200]}

    def recs(self, recs):
        fields = [cps(f) for f in recs[0]._fields] if recs else []
        same = all([cps(f) for f in r._fields] == fields for r in recs)
        return 'recs', {'t': 'recs' if same else 'badrecs', 'f': fields,
                        'rows': [[tok(x) for x in r] for r in recs]}

    def namecall(self, p, ev):
        ref, fwo = ev['ref'], ev['fwo']
        ch = ref['n'] if ref['t'] == 'int' else uncps(ref['s'])
        kw = {}
        if fwo['t'] == 'yes':
            kw['firstwordonly'] = True
        elif fwo['t'] == 'rx':
            kw['firstwordonly'] = RX[fwo['rx']]
        if ev['fallback']:
            kw['fallback'] = True
        return 'str', p.name(ch, **kw)

    def mutate(self, d, ev, isdata):
        route, how = ev['route'], ev.get('how', 'dict')
        kind = 'dataitem' if isdata else 'nameitem'
        if route == 'setitem':
            (k, v), = self.pairs(ev['items'])
            d[k] = v
        elif route == 'update':
            if how == 'kwargs':
                its = ev['items']
                good = self.pairs([it for it in its if not it.get('bk')])
                d.update(dict(good), **{'a': self.value(it) for it in its
                                        if it.get('bk')})
            else:
                d.update(self.container(ev['items'], how, isdata))
        elif route == 'ior':
            d |= self.container(ev['items'], how, isdata)
        elif route == 'setdefault':
            (k, v), = self.pairs(ev['items'])
            return kind, d.setdefault(k, v)
        elif route == 'pop':
            return kind, d.pop(ev['key'])
        elif route == 'del':
            del d[ev['key']]
        elif route == 'get':
            return kind, d.get(ev['key'])
        elif route == 'clear':
            d.clear()
        elif route == 'popitem':
            return kind, d.popitem()[1]
        elif route == 'popdef':
            return kind, d.pop(ev['key'], None)
        elif route == 'badcall':
            v = (lambda: [1, 2]) if isdata else (lambda: 'v')
            {'two': lambda: d.update({55: v()}, {56: v()}),
             'twopairs': lambda: d.update([(55, v())], [(56, v())]),
             'twoior': lambda: d.update({55: v()}, None),
             'int': lambda: d.update(5), 'none': lambda: d.update(None),
             'triple': lambda: d.update([(55, v(), v())]), 'single': lambda: d.update([(55,)]),
             'ints': lambda: d.update([55, 56]), 'iorint': lambda: d.__ior__(5)}[how]()
        else:
            raise AssertionError(route)

    # -- state

    def project(self):
        return {'packs': [self.project_pack(p) for p in self.packs],
                'held': [fingerprint(x) for x in self.held]}

    def project_pack(self, p):
        data = dict.items(p.data)
        out = {'data': [[key_(k), col(v)] for k, v in data],
               'names': [[key_(k), name_(v)] for k, v in dict.items(p.names)],
               'mindur': [] if p.mindur is None else [p.mindur],
               'nof': 'none' if p.nof is None else str(p.nof),
               'fn': str(p.fn), 'files': [str(f) for f in p.filenames],
               'prefix': name_(p.FALLBACK_PREFIX)}
        m = p.mask
        out['mb'] = bool(isinstance(m, np.ndarray) and m.dtype.kind == 'b'
                         and m.ndim == 1)
        out['mask'] = [bool(e) for e in np.ravel(m)]
        out['parts'] = [int(i) for i in p.parts()]
        out['pv'] = []
        out['oor'] = True
        if data and all(isinstance(k, int) for k in p.data):
            low, high = min(p.data), max(p.data)
            if all(c['k'][0] != '!' for k, c in out['data']) and len(p.data[low]) == len(out['mask']):
                for i in out['parts']:
                    key = (low, high)[i % 2]
                    if len(p.data[key]) != len(out['mask']):
                        key = low
                    out['pv'].append([key, self.partval(p, key, i)])
                r = self.partval(p, low, len(out['parts']))
                out['oor'] = r['k'] == '!IndexError'
        return out

    def partval(self, p, key, i):
        try:
            return col(p(key, part=i))
        except Exception as e:
            return {'k': '!' + type(e).__name__, 'v': []}


def key_(k):
    return int(k) if isinstance(k, int) else -999999


def name_(v):
    return cps(v) if isinstance(v, str) else [-1]


class Truthy(object):
    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b

    def __repr__(self):
        return 'Truthy(%s)' % self.b


def trig(seq, conv):
    if conv == 'list':
        return list(seq)
    if conv == 'ints':
        return [(i % 3 + 1) if b else 0 for i, b in enumerate(seq)]
    if conv == 'intarray':
        return np.array([(i % 2 * 2 - 1) if b else 0 for i, b in enumerate(seq)], dtype=int)
    if conv == 'floats':
        return np.array([0.5 + i if b else 0.0 for i, b in enumerate(seq)], dtype=float)
    if conv == 'objs':
        return tuple(['x', 1, True, [0]][i % 4] if b else [None, '', 0, False, []][i % 5]
                     for i, b in enumerate(seq))
    return np.array(seq, dtype=bool)
