"""Histories of packs of many rows, recorded as pieces for PackLongCases."""
import json
import random

import numpy as np

import channelpack
import tlc
from common import limit
from tokens import tok

PROPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09')
N = {'quick': 10, 'thorough': 60}
WEIGHTS = {
    'C01': {'setmask': 4, 'call': 2, 'startstop': 2, 'reset': 1},
    'C02': {'setmask': 3, 'andmask': 3, 'setmindur': 4, 'startstop': 2, 'reset': 1},
    'C03': {'setmask': 2, 'reset': 4, 'append': 2, 'setmindur': 2},
    'C04': {'setmask': 4, 'duration': 5, 'setmindur': 1},
    'C05': {'startstop': 6, 'setmask': 1, 'setmindur': 1, 'reset': 1},
    'C06': {'setmask': 2, 'call': 6, 'startstop': 1},
    'C08': {'setmask': 3, 'records': 4, 'startstop': 1},
    'C09': {'append': 5, 'setmask': 1, 'call': 2, 'setmindur': 1},
}
TOTALS = [1000, 1025, 4097, 32769, 65535, 65536, 65537, 70001, 131073, 262145]
VALS = {'i': [0, 1, -5, 7, 100000, 3, 2**40], 'f': [0.0, 1.5, -2.25, 1e300, 0.1, 8.0],
        'U': ['', 'a', 'bc', 'long text', 'é'], 'O': [None, 'x', 1, 2.5]}


def tile(pieces):
    out = []
    for block, times in pieces:
        out += list(block) * times
    return out


def same(a, b):
    """Elementwise, nan equal to nan."""
    r = np.asarray(a == b)
    if a.dtype.kind in 'fc':
        r = r | ((a != a) & (b != b))
    return bool(r.all())


def said(x, sizes):
    """x as recorded pieces, for pieces of the given (block length, times)."""
    if isinstance(x, np.ndarray) and x.ndim != 1:
        return [['ndim']]
    n = sum(b * t for b, t in sizes)
    if len(x) != n:
        return [['length', len(x)]]
    out, at = [], 0
    for b, t in sizes:
        first = x[at:at + b]
        if isinstance(x, np.ndarray):
            reg = b == 0 or same(x[at:at + b * t].reshape(t, b), first.reshape(1, b))
            first = [tok(e) if x.dtype.kind != 'b' else bool(e) for e in first]
        else:
            key = lambda rows: [tuple(map(tok, r)) for r in rows]
            kf = key(first)
            reg = all(key(x[at + i * b:at + (i + 1) * b]) == kf for i in range(t))
            first = [list(r) for r in kf]
        out.append([first, t, reg])
        at += b * t
    return out


class Long(object):
    def __init__(self, rng, prop, total):
        self.rng, self.prop = rng, prop
        self.sizes = []
        self.pieces(total)
        self.steps = []
        self.kinds = [rng.choice('iifUO') for k in range(rng.randint(1, 2))]
        if prop == 'C08':
            self.kinds = self.kinds[:2]
        keys = sorted(rng.sample(range(-2, 9), len(self.kinds)))
        cols = [self.column(k) for k in self.kinds]
        self.pack = channelpack.ChannelPack(
            data={key: self.array(c, k) for key, c, k in zip(keys, cols, self.kinds)},
            names={key: 'n%d' % i for i, key in enumerate(keys)})
        self.keys = keys
        self.data = [[key, k, self.tokens(c)] for key, k, c in zip(keys, self.kinds, cols)]
        self.mode = 'all'       # the mask: all True, separate pieces

    def pieces(self, total):
        rng = self.rng
        if rng.random() < .5:
            self.sizes.append((rng.randint(1, 6), 1))
        b = rng.choice([1, 2, 3, 5, 8, 16, 31])
        self.sizes.append((b, total // b))
        if rng.random() < .5:
            self.sizes.append((rng.randint(1, 7), 1))

    def column(self, kind, sizes=None):
        return [([self.rng.choice(VALS[kind]) for i in range(b)], t) for b, t in (sizes or self.sizes)]

    def array(self, pieces, kind):
        if kind == 'O':
            a = np.empty(sum(len(b) * t for b, t in pieces), dtype=object)
            a[:] = tile(pieces)
            return a
        return np.concatenate([np.tile(np.array(b, dtype={'U': 'U9', 'i': 'i8', 'f': 'f8'}[kind]), t) for b, t in pieces])

    def tokens(self, pieces):
        return [[[tok(e) for e in b], t] for b, t in pieces]

    def bits(self, p, end):
        out = []
        for b, t in self.sizes:
            x = [self.rng.random() < p for i in range(b)]
            if end is not None:
                x[-1] = end
            out.append((x, t))
        return out

    def barr(self, pieces):
        return np.concatenate([np.tile(np.array(b, dtype=bool), t) for b, t in pieces])

    def record(self, ev, res):
        m = self.pack.mask
        parts = self.pack.parts()
        count = len(parts)
        self.steps.append({'ev': ev, 'res': res, 'mask': said(np.asarray(m), self.sizes), 'count': count,
                           'seq': list(parts) == list(range(count))})

    def cuts(self, part, nof):
        """The sizes of the pieces of a view."""
        if part is not None:
            if self.mode == 'all':
                return self.sizes
            return None
        if nof == 'filter':
            m, out, at = self.pack.mask, [], 0
            for b, t in self.sizes:
                out.append((int(m[at:at + b].sum()), t))
                at += b * t
            return out
        return self.sizes

    def step(self):
        rng, p = self.rng, self.pack
        w = dict({'call': 1}, **WEIGHTS[self.prop])
        if self.mode == 'all':
            w.pop('andmask', None)
        op = rng.choices(list(w), list(w.values()))[0]
        small = sum(b * t for b, t in self.sizes) < 80000
        if op == 'records' and not small:
            op = 'call'
        ev = {'op': op}
        try:
            res = self.do(op, ev)
        except Exception as e:
            res = {'t': 'exc', 'mro': [c.__name__ for c in type(e).__mro__], 'msg': str(e)[:100]}
        self.record(ev, res)

    def do(self, op, ev):
        rng, p = self.rng, self.pack
        total = sum(b * t for b, t in self.sizes)
        if op in ('setmask', 'andmask'):
            m = self.bits(rng.choice([.1, .5, .9]), False)
            ev['mask'] = m
            self.mode = 'sep'
            if op == 'setmask':
                p.mask = self.barr(m)
            else:
                p.mask = p.mask & self.barr(m)
        elif op == 'reset':
            self.mode = 'all'
            ev['x'] = 0
            p.mask_reset()
            if p.mindur is not None and p.mindur > total:
                self.mode = 'sep'
        elif op == 'setmindur':
            md = rng.choice([None, 1, 2, 3, 5, 10, total - 1])
            if md == total - 1 and self.mode == 'sep':
                md = 4
            ev['md'] = [] if md is None else [md]
            p.mindur = md
        elif op == 'duration':
            q = rng.choice([1, 2, 3, 4, 7, 30])
            if self.mode == 'all':
                q = rng.choice([1, 2, total, total - 1])
            ev.update(q=q, min=rng.random() < .5 if self.mode == 'sep' else True)
            return self.bools(p.duration(q, mindur=ev['min']))
        elif op == 'startstop':
            a, b = self.bits(rng.choice([.1, .5]), None), self.bits(rng.choice([.05, .3]), True)
            ev.update(a=a, b=b, apply=rng.random() < .7)
            if ev['apply']:
                self.mode = 'sep'
            conv = rng.choice([self.barr, tile])
            return self.bools(p.startstop(conv(a), conv(b), apply=ev['apply']))
        elif op == 'append':
            more = [(rng.randint(1, 9), rng.choice([1, 3, 1000, 40000]))]
            cols = [self.column(k, more) for k in self.kinds]
            ev['cols'] = [self.tokens(c) for c in cols]
            self.sizes = self.sizes + more
            self.mode = 'all'
            q = channelpack.ChannelPack({key: self.array(c, k) for key, c, k in zip(self.keys, cols, self.kinds)})
            p.append_pack(q)
            if p.mindur is not None and p.mindur > sum(b * t for b, t in self.sizes):
                self.mode = 'sep'
        else:
            n = len(p.parts())
            nof = rng.choice(['none', 'nan', 'filter'])
            part = None
            if rng.random() < (.7 if self.prop == 'C01' else .4):
                part = rng.choice([n, max(0, n - 1), n // 2, 0] + [i for i in (255, 256, 65535, 65536) if i < n])
            kw = {} if part is None else {'part': part}
            if nof != 'none':
                kw['nof'] = nof
            ev.update(part=[] if part is None else [part], nof=nof)
            if op == 'call':
                ev['key'] = rng.choice(self.keys)
                x = p(ev['key'], **kw)
                cuts = self.cuts(part, nof) or [(len(x), 1)]
                return {'t': 'arr', 'k': x.dtype.kind, 'v': said(x, cuts)}
            recs = list(p.records(**kw))
            cuts = self.cuts(part, nof) or [(len(recs), 1)]
            return {'t': 'recs', 'v': said(recs, cuts)}
        return {'t': 'ok'}

    def bools(self, x):
        if not isinstance(x, np.ndarray) or x.dtype.kind != 'b':
            return {'t': 'notbools'}
        return {'t': 'bools', 'v': said(x, self.sizes)}


def gen(args):
    prop, seed, j, nsteps = args
    rng = random.Random('%s/%s/%s/long' % (prop, seed, j))
    total = 1000003 + rng.randrange(9999) if j == 0 else rng.choice(TOTALS)
    w = Long(rng, prop, total)
    with limit(120):
        for k in range(3 if j == 0 else nsteps):
            w.step()
    return {'data': w.data, 'steps': w.steps}


def run(ck, pool):
    if ck.pid not in PROPS:
        return
    r = tlc.run('PackLongMC', 'SPECIFICATION Spec\nCONSTANTS MaxBlock=%d MaxTimes=%d\n'
                'INVARIANTS Duration And Trigger Parts Views Full\n' % ((3, 2) if ck.quick else (4, 3)),
                workers=8)
    ck.tlc(r)
    ck.exhaustive.append('PackLongMC: blocks up to %d rows, up to %d times' % ((3, 2) if ck.quick else (4, 3)))
    n = N['quick' if ck.quick else 'thorough']
    cases = pool.map(gen, [(ck.pid, ck.seed, j, 8) for j in range(n)], chunksize=1)
    r = tlc.run('PackLongCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n',
                files={'c.json': json.dumps(cases)}, workers=8)
    ck.tlc(r)
    if r.distinct != 2 * len(cases):
        raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(cases), r.log[-3000:]))
    for v in r.lines:
        c = cases[v['case'] - 1]
        if any(f[0] == ck.pid for f in v['fails']):
            st = c['steps'][v['step'] - 1]
            ck.violation('long pack: %s at %s result %s' % (v['fails'], str(st['ev'])[:200], str(st['res'])[:200]),
                         {'case': c, 'step': v['step']})
    ck.traces += len(cases)
    ck.cases += sum(len(c['steps']) for c in cases)
