"""Random histories on real ChannelPacks, recorded for the trace judge."""
import datetime
import json
import random

import numpy as np

from packworld import World, BADATTR, BADKEYS, BADVALS
from tokens import cps, tok, uncps

NAMES = ['speed', 'RPM', 'height (m)', 'ch0', 'ch1', 'ch2', 'ch10', 'ch11',
         'ch3', 'a', 'b', 'x1', 'x_2', 'time of day', 'Temp [C]', 'for', 'class',
         'in', '_hid', '9lives', 'ab9 12', 'ch', 'ch01', 'ch 1', 'Åke', 'naïve',
         'X', 'ch1x', 'xch1', 'U 230V', 'abs.p', 'ch-1', 'A', 'ab', 'n10', 'v5',
         ' lead', 'two  words', 'tab\tbed', 'ch1\n', 'ch100', 'None', 'lambda']
PREFIXES = ['ch', 'x', 'col', 'CH', 'c', 'ch_', 'n', 'chan1', 'v', 'ch1', 'Å']
FNS = ['', 'a.txt', 'b.txt', '/tmp/c d.xls', 'long' * 10, 'å.dbf', 'a.txt ']
HOWS = ['dict', 'dict', 'pairs', 'lists', 'iter', 'gen', 'mapping', 'userdict',
        'odict', 'own']

DEFAULT = {'create': 6, 'hold': 2, 'setdata': 2, 'setdatafrom': 1, 'setnames': 1,
           'setnamesfrom': 1, 'setmask': 5, 'setmaskfrom': 2, 'andmask': 2,
           'reset': 2, 'setmindur': 3, 'duration': 4, 'startstop': 4, 'append': 3,
           'mutdata': 1, 'mutnames': 1, 'setnof': 2, 'setprefix': 1, 'setfn': 1,
           'setbad': 1, 'call': 4, 'records': 1, 'name': 1}


def prof(base=0.15, **kw):
    d = {k: v * base for k, v in DEFAULT.items()}
    d.update(kw)
    return d


PROFILES = {
    'C01': prof(setmask=10, andmask=4, duration=6, startstop=6, reset=2, append=2,
                setmindur=2, call=3, setdata=1, setmaskfrom=2),
    'C02': prof(setmask=10, andmask=4, duration=3, startstop=5, reset=3, append=3,
                setmindur=8, setdata=2, setdatafrom=1, setmaskfrom=3, setbad=1),
    'C03': prof(create=12, setdata=8, setdatafrom=3, append=6, reset=6, setmask=5,
                setmindur=2, mutdata=2, hold=5),
    'C04': prof(setmask=8, duration=14, startstop=2, andmask=2, setmindur=1, reset=1),
    'C05': prof(setmask=6, startstop=14, reset=5, setmindur=2, duration=1),
    'C06': prof(setmask=8, setnof=5, call=16, records=1, duration=1, hold=5, create=6,
                setmindur=1),
    'C07': prof(create=8, setnames=5, mutnames=3, mutdata=2, setprefix=4, call=14,
                name=3, setdata=2),
    'C08': prof(create=8, setnames=5, mutnames=2, setprefix=3, records=14, setmask=5,
                setnof=4, mutdata=1),
    'C09': prof(create=6, append=14, setfn=4, setmask=2, mutnames=1, setnames=2,
                mutdata=2, setdata=1, setmindur=1),
    'C10': prof(create=5, mutdata=12, mutnames=9, setdata=4, setnames=4, hold=6,
                setdatafrom=1, setnamesfrom=1, append=1),
    'C11': prof(base=1, setmaskfrom=6, setdatafrom=5, setnamesfrom=4, append=8,
                duration=8, startstop=7, mutdata=4, mutnames=4, setbad=0.3, setmindur=5),
    'C12': prof(setbad=12, setnof=5, setprefix=4, setfn=6, setmindur=4, append=3,
                setmask=3),
    'C13': prof(create=8, setnames=5, mutnames=3, mutdata=1, setprefix=4, name=16),
}


BADCALLS = ['two', 'twopairs', 'twoior', 'int', 'none', 'triple', 'single', 'ints', 'iorint']


class Driver(object):
    def __init__(self, rng, profile, big=False):
        self.rng = rng
        self.w = World()
        self.ops = [k for k in profile if profile[k] > 0]
        self.wts = [profile[k] for k in self.ops]
        self.profile = profile
        self.steps = []
        self.n = rng.choice([400, 150, 1200] if big else
                            [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 25, 40])
        self.keypool = rng.choice([[0, 1, 2], [0, 1, 2, 3, 10, 11], [5, 1, 10, 2, 100],
                                   [-1, 0, 3], [1, 11, 111], [7], [2, 0, 9, 10, 12]])
        self.cols = []          # held column objects: (held index, column, length)
        self.masks = []         # held mask arrays: (held index, mask)
        self.nameset = rng.choice([NAMES, ['ch%d' % k for k in self.keypool] + ['a'],
                                   ['a', 'b', 'c', 'd', 'e1', 'Speed', 'Time'], NAMES])
        self.last = {'packs': [], 'held': []}
        self.dead = False

    # -- values

    def newcol(self, n=None):
        rng = self.rng
        n = self.n if n is None else n
        kind = rng.choice('iiffffUUOubcMSdLTF')
        f = lambda: rng.choice([0.0, 1.0, -1.5, 2.25, 3.0, 1e10, -0.125, float('nan'),
                                float('inf'), 5e-324, 0.1])
        i = lambda: rng.choice([0, 1, -1, 2, 3, 7, 100, -2**31, 2**40])
        u = lambda: rng.choice(['', 'a', 'bb', 'None', 'nan', 'ch1', 'å', ' x '])
        if kind == 'i':
            a = np.array([i() for _ in range(n)], dtype=rng.choice([np.int64, np.int64]))
        elif kind == 'u':
            a = np.array([abs(i()) for _ in range(n)], dtype=np.uint64)
        elif kind == 'f':
            a = np.array([f() for _ in range(n)], dtype=float)
        elif kind == 'F':
            a = np.array([rng.choice([0, 1.5, -2, np.nan]) for _ in range(n)], dtype=np.float32)
        elif kind == 'c':
            a = np.array([complex(rng.choice([0, 1.5, -2]), rng.choice([0, 1, -3]))
                          for _ in range(n)], dtype=complex)
        elif kind == 'b':
            a = np.array([rng.random() < .5 for _ in range(n)], dtype=bool)
        elif kind == 'U':
            a = np.array([u() for _ in range(n)], dtype='U5')
        elif kind == 'S':
            a = np.array([u().encode('latin-1') for _ in range(n)], dtype='S5')
        elif kind == 'O':
            a = np.empty(n, dtype=object)
            for j in range(n):
                a[j] = rng.choice([None, 1, 2.5, 'a', True, float('nan'),
                                   datetime.date(2020, 1, 2), datetime.datetime(2021, 3, 4, 5, 6)])
        elif kind == 'M':
            a = np.array(['2020-01-%02d' % rng.randint(1, 28) for _ in range(n)],
                         dtype='M8[D]')
        elif kind == 'd':
            a = np.array(['2020-01-%02dT12:%02d:00' % (rng.randint(1, 28), rng.randint(0, 59))
                          for _ in range(n)], dtype='M8[s]')
        elif kind == 'L':           # lists of numbers
            g = rng.choice([i, f])
            a = [g() for _ in range(n)]
        else:                       # tuples of str, bool
            g = rng.choice([u, lambda: rng.random() < .5])
            a = tuple(g() for _ in range(n))
        ev = {'op': 'hold', 'obj': a}
        self.do(ev)
        h = len(self.w.held) - 1
        from tokens import col
        self.cols.append((h, col(np.array(a)), n))
        return self.cols[-1]

    def getcol(self, n=None):
        n = self.n if n is None else n
        have = [c for c in self.cols if c[2] == n]
        if have and self.rng.random() < .6:
            return self.rng.choice(have)
        return self.newcol(n)

    def newmask(self, n):
        rng = self.rng
        style = rng.random()
        if style < .1:
            return [True] * n
        if style < .15:
            return [False] * n
        if style < .5:
            p = rng.choice([.2, .5, .8, .95])
            return [rng.random() < p for _ in range(n)]
        m, b = [], rng.random() < .5
        while len(m) < n:
            m += [b] * rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 9])
            b = not b
        return m[:n]

    def dataitems(self, keys, n, badrate=0.0):
        its = []
        for k in keys:
            h, c, _ = self.getcol(n)
            its.append({'key': k, 'val': c, 'h': h, 'bad': []})
        return self.spoil(its, badrate, True)

    def nameitems(self, keys, badrate=0.0):
        its = [{'key': k, 'val': cps(self.rng.choice(self.nameset)), 'bad': []}
               for k in keys]
        return self.spoil(its, badrate, False)

    def spoil(self, its, badrate, isdata):
        if its and self.rng.random() < badrate:
            it = self.rng.choice(its)
            if isdata and self.rng.random() < .5:
                it['bv'] = self.rng.choice(sorted(BADVALS))
                it['bad'] = ['ValueError']
            else:
                it['bk'] = self.rng.choice(sorted(BADKEYS))
                it['bad'] = ['TypeError']
        return its

    def keys(self):
        rng = self.rng
        if rng.random() < .6:
            ks = list(self.keypool)
        else:
            ks = rng.sample(self.keypool, rng.randint(0, len(self.keypool)))
        rng.shuffle(ks)
        return ks

    # -- one event

    def step(self):
        rng = self.rng
        packs = self.last['packs']
        if not packs:
            op = 'create'
        else:
            op = rng.choices(self.ops, self.wts)[0]
        ev = {'op': op}
        if op == 'hold':
            self.newcol(rng.choice([self.n, self.n, rng.randint(0, 12)]))
            return
        badrate = .25 if self.profile is PROFILES['C10'] else .05
        if op == 'create':
            if len(packs) >= 4:
                return
            n = self.n
            if self.profile is not PROFILES['C03'] and rng.random() < .08:
                ks, ns = [], []
            else:
                ks, ns = self.keys(), self.keys() if rng.random() < .8 else []
            ev['items'] = self.dataitems(ks, n, badrate)
            if rng.random() < .7:
                ns = ks
            ev['nitems'] = self.nameitems(ns, badrate / 2)
            ev['how'], ev['nhow'] = rng.choice(HOWS), rng.choice(HOWS)
            ev['empty'] = rng.random() < .5
            return self.do(ev)
        i = rng.randrange(len(packs))
        p = packs[i]
        ev['p'] = i + 1
        n = len(p['mask'])
        dkeys = [k for k, c in p['data']]
        even = all(len(c['v']) == n for k, c in p['data'])
        q = rng.randrange(len(packs))
        if op == 'setdata':
            m = rng.choice([n, self.n, rng.randint(0, 12)])
            ks = self.keys()
            ev['items'] = self.dataitems(ks, m, badrate)
            if ks and self.profile is PROFILES['C03'] and rng.random() < .3:
                # uneven arrays, size of the mask is by lowest key
                for it in ev['items']:
                    if not it['bad']:
                        it['h'], it['val'], _ = self.getcol(rng.randint(0, 6))
            ev['how'] = rng.choice(HOWS)
        elif op in ('setdatafrom', 'setnamesfrom'):
            ev['q'] = q + 1
        elif op == 'setnames':
            ev['nitems'] = self.nameitems(dkeys if rng.random() < .6 else self.keys(), badrate)
            ev['nhow'] = rng.choice(HOWS)
        elif op in ('setmask', 'andmask'):
            have = [x for x in self.masks if len(x[1]) == n]
            if have and rng.random() < .35:
                ev['mh'], ev['mask'] = rng.choice(have)
            else:
                ev['mask'] = self.newmask(n)
                self.do(ev)
                if self.w.held and isinstance(self.w.held[-1], np.ndarray):
                    self.masks.append((len(self.w.held) - 1, ev['mask']))
                return
        elif op == 'setmaskfrom':
            same = [j for j, x in enumerate(packs) if len(x['mask']) == n]
            ev['q'] = rng.choice(same) + 1
        elif op == 'setmindur':
            ev['md'] = rng.choice([[], [0], [1], [2], [2], [3], [3], [4], [5], [n], [n + 1],
                                  [-1], [10]])
        elif op == 'duration':
            lens = runlens(p['mask']) or [1]
            r = rng.choice(lens)
            target = rng.choice([r, r + 1, r - 1, r, rng.randint(0, 9)])
            style = rng.random()
            if style < .4:
                ev['d'], ev['s'] = [target, 1], [1, 1]
                ev['default'] = rng.random() < .4
            elif style < .6:
                ev['d'], ev['s'] = [target * 4 + rng.randint(0, 3), 4], [1, 1]
            elif style < .8:
                ev['d'], ev['s'] = [target * 4 + rng.randint(0, 3), 8], [2, 1]
            elif style < .9:
                ev['d'], ev['s'] = [rng.randint(1, 5), 2], [rng.randint(1, 40), 4]
            else:
                ev['d'], ev['s'] = [target, 1], [1, 1]
                ev['fl'] = True
            ev['min'] = rng.random() < .6
            ev['kw'] = rng.random() < .3
        elif op == 'startstop':
            ev['apply'] = rng.random() < .7
            la = lb = n
            if not ev['apply'] and rng.random() < .5:
                la, lb = rng.randint(0, n + 3), rng.randint(0, n + 3)
            pa, pb = rng.choice([.05, .2, .5, .8]), rng.choice([.05, .2, .5, .8])
            ev['a'] = [rng.random() < pa for _ in range(la)]
            ev['b'] = [rng.random() < pb for _ in range(lb)]
            ev['conv'] = rng.choice(['array', 'list', 'ints', 'intarray', 'floats', 'objs'])
            ev['default'] = rng.random() < .5
        elif op == 'append':
            ev['q'] = q + 1
            if not compatible(p, packs[q]):
                return
            if sum(len(c['v']) for k, c in p['data']) > 6000:
                return
        elif op in ('mutdata', 'mutnames'):
            d = p['data'] if op == 'mutdata' else p['names']
            own = [k for k, v in d]
            ev['route'] = route = rng.choice(['setitem', 'setitem', 'update', 'update',
                                              'ior', 'setdefault', 'pop', 'del', 'get',
                                              'clear', 'update'] +
                                             (['popitem', 'popdef', 'badcall']
                                              if self.profile is PROFILES['C10'] else []))
            if self.profile is not PROFILES['C10'] and route in ('clear', 'del', 'pop') and op == 'mutdata':
                return
            if route == 'clear' and rng.random() < .7:
                return
            ev['items'] = []
            if route in ('popitem', 'badcall'):
                ev['how'] = rng.choice(BADCALLS)
            elif route in ('pop', 'del', 'get', 'popdef'):
                ev['key'] = rng.choice(own) if own and rng.random() < .7 else rng.choice(self.keypool + [77])
            else:
                ks = [rng.choice(self.keypool + own + [4, 6])] if route in ('setitem', 'setdefault') \
                    else self.keys()
                if op == 'mutdata':
                    m = n if self.profile is not PROFILES['C10'] else rng.choice([n, n, 3])
                    ev['items'] = self.dataitems(ks, m, badrate * 1.5)
                else:
                    ev['items'] = self.nameitems(ks, badrate * 1.5)
                ev['how'] = rng.choice(HOWS)
                if route == 'update' and rng.random() < .15 and any(it.get('bk') for it in ev['items']):
                    ev['how'] = 'kwargs'
        elif op == 'setnof':
            ev['v'] = rng.choice(['none', 'nan', 'filter'])
        elif op == 'setprefix':
            ev['px'] = cps(rng.choice(PREFIXES))
        elif op == 'setfn':
            ev['v'] = rng.choice(FNS)
        elif op == 'setbad':
            ev['attr'] = rng.choice(sorted(BADATTR))
            ev['which'] = rng.randrange(len(BADATTR[ev['attr']]))
        elif op in ('call', 'records', 'name'):
            np_ = len(runlens(p['mask']))
            ev['part'] = rng.choice([[], [], [rng.randint(0, np_)], [0], [np_], [np_ + 3],
                                     [max(0, np_ - 1)]])
            ev['nof'] = rng.choice(['none', 'none', 'nan', 'filter', 'ignore'])
            if not even:
                ev['part'], ev['nof'] = [], 'ignore'
            ev['fallback'] = rng.random() < .4
            if op in ('call', 'name'):
                ev['ref'] = self.ref(p)
            if op == 'call' and self.profile is PROFILES['C07']:
                ev['part'], ev['nof'] = [], 'ignore'
            if op == 'name':
                ev['fallback'] = rng.random() < .2
                ev['fwo'] = rng.choice([{'t': 'no'}, {'t': 'no'}, {'t': 'yes'}] +
                                       [{'t': 'rx', 'rx': x} for x in
                                        ('word', 'digit', 'alpha', 'upper', 'id')])
        self.do(ev)

    def ref(self, p):
        rng = self.rng
        dkeys = [k for k, c in p['data']]
        names = [uncps(s) for k, s in p['names']]
        prefix = uncps(p['prefix'])
        r = rng.random()
        stringy = self.profile in (PROFILES['C07'], PROFILES['C13'])
        if r < (.25 if stringy else .85):
            ks = dkeys if dkeys and rng.random() < .9 else self.keypool + [55]
            return {'t': 'int', 'n': rng.choice(ks)}
        k = rng.choice(dkeys + self.keypool + [1, 12, 55])
        cands = [prefix + str(k), prefix + str(k), prefix + str(k), 'ch' + str(k),
                 prefix + str(k) + rng.choice(['x', ' ', '\n', '.0', '_', '-']),
                 prefix + '0' + str(abs(k)), rng.choice('x -') + prefix + str(k), prefix,
                 prefix.upper() + str(k), str(k), '', prefix + ' ' + str(k),
                 prefix + str(k) + '1', rng.choice(NAMES)]
        if names:
            cands += [rng.choice(names)] * 8 + [rng.choice(names) + ' ', rng.choice(names).upper(),
                                                rng.choice(names)[:-1]]
        return {'t': 'str', 's': cps(rng.choice(cands))}

    def do(self, ev):
        if ev['op'] == 'records' and not getattr(self.w, 'pending', None) and self.rng.random() < .35:
            ev['open'] = True       # the rows after the first are taken after another event or two
        res = self.w.execute(ev)
        post = self.w.project()
        ev = {k: v for k, v in ev.items() if k != 'obj'}
        self.steps.append({'ev': ev, 'res': res, 'post': post})
        self.last = post
        self.dead = any(malformed(p) for p in post['packs'])
        if ev.get('open') and getattr(self.w, 'pending', None):
            step = self.steps[-1]
            for i in range(self.rng.choice([1, 1, 2])):
                if not self.dead:
                    self.step()
            step['res'] = self.w.finish()


def malformed(p):
    """No specification event applies to such a pack any more."""
    return (not p['mb'] or any(k == -999999 or c['k'].startswith('!') for k, c in p['data'])
            or any(k == -999999 or s == [-1] for k, s in p['names']))


def runlens(m):
    out, c = [], 0
    for b in list(m) + [False]:
        if b:
            c += 1
        elif c:
            out.append(c)
            c = 0
    return out


PROMO = {('i', 'f'), ('f', 'i'), ('u', 'f'), ('f', 'u')}


def compatible(a, b):
    """The kinds append_pack would mix are ones the specification knows."""
    bd = dict((k, c) for k, c in b['data'])
    for k, c in a['data']:
        if k in bd:
            x, y = c['k'], bd[k]['k']
            if x == y or (x, y) in PROMO:
                continue
            if 'O' in (x, y) and not {x, y} & {'M', 'm'}:
                continue
            if 'c' in (x, y) and {x, y} <= set('iufc'):
                continue
            return False
    return True


def pack_trace(steps):
    """Intern columns and masks of recorded steps, JSON ready."""
    cols, masks, cix, mix = [], [], {}, {}

    def ci(c):
        key = (c['k'], tuple(c['v']))
        if key not in cix:
            cols.append({'k': c['k'], 'v': c['v']})
            cix[key] = len(cols)
        return cix[key]

    def mi(m):
        key = tuple(m)
        if key not in mix:
            masks.append(list(m))
            mix[key] = len(masks)
        return mix[key]

    out = []
    for st in steps:
        ev = dict(st['ev'])
        for k in ('mask', 'a', 'b'):
            if k in ev:
                ev[k] = mi(ev[k])
        if ev['op'] in ('create', 'setdata', 'mutdata'):
            ev['items'] = [{'key': it['key'], 'bad': it['bad'],
                            'val': ci(it['val'])} for it in ev['items']]
        if ev['op'] == 'mutnames':
            ev['items'] = [{'key': it['key'], 'bad': it['bad'], 'val': it['val']}
                           for it in ev['items']]
        if 'nitems' in ev:
            ev['nitems'] = [{'key': it['key'], 'bad': it['bad'], 'val': it['val']}
                            for it in ev['nitems']]
        for k in ('mh', 'how', 'nhow', 'conv', 'default', 'kw', 'fl', 'empty'):
            ev.pop(k, None)
        res = dict(st['res'])
        if res['t'] == 'arr':
            res['c'] = ci(res['c'])
        elif res['t'] == 'bools':
            res['v'] = mi(res['v'])
        elif res['t'] == 'item' and isinstance(res['x'], dict):
            res = {'t': 'itemc', 'x': ci(res['x'])}
        packs = []
        for p in st['post']['packs']:
            p = dict(p)
            p['data'] = [[k, ci(c)] for k, c in p['data']]
            p['pv'] = [[k, ci(c)] for k, c in p['pv']]
            p['mask'] = mi(p['mask'])
            packs.append(p)
        out.append({'ev': ev, 'res': res,
                    'post': {'packs': packs, 'held': fps(st['post']['held'])}})
    return {'cols': cols, 'masks': masks, 'steps': out}


def fps(held):
    import hashlib
    return [hashlib.md5(h.encode('utf-8', 'replace')).hexdigest()[:10] for h in held]
