"""Checks C20, C21 and the dbf part of C16."""
import datetime
import io
import json
import multiprocessing as mp
import os
import random
import struct
import tempfile

import textworld as tw
import tlc
from common import child_limits, limit, Timeout
from tokens import cps

JUNKS = [b'x', b'12345', b'\x03' * 32, b' ' * 77]


def val(x):
    if x is None:
        return ['none']
    if isinstance(x, datetime.date):
        return ['d', x.year, x.month, x.day]
    return tw.val(x)


def observe(case, kind, names):
    import numpy as np
    from channelpack import dbfpack
    data = case.get('big') or bytes(case['bytes'])
    junk = JUNKS[sum(case['bytes']) % len(JUNKS)] if 'off' in kind else b''
    tmp = stream = None
    src, name, named = 'stream', '', False
    obs = {'srcname': kind, 'names0': [] if names is None else [[cps(n) for n in names]]}
    try:
        if not kind.startswith('bio'):
            fd, tmp = tempfile.mkstemp(prefix='cp', suffix='.dbf')
            os.write(fd, junk + data)
            os.close(fd)
        if kind == 'path':
            src, name, arg = 'path', tmp, tmp
        elif kind.startswith('file'):
            stream = tw.REAL_OPEN(tmp, 'rb')
            name, named = tmp, True
        elif kind.startswith('tmp'):
            stream = tw.REAL_OPEN(os.open(tmp, os.O_RDONLY), 'rb')
        else:
            stream = io.BytesIO(junk + data)
        if stream is not None:
            stream.seek(len(junk))
            arg = stream
        given = names
        if names is not None:
            given = (list, tuple, set)[case.get('style', 0) % 3](names)
        with tw.Opened() as opened:
            try:
                with limit(20):
                    p = dbfpack(arg) if names is None else dbfpack(arg, names=given)
                obs.update(st='ok', exc=[], fn=cps(p.fn) if isinstance(p.fn, str) else [-1],
                           data=[[k, [val(x) for x in p.data[k]]
                                  if isinstance(p.data[k], np.ndarray) else [['o', 'no array']]]
                                 for k in sorted(p.data)],
                           names=[[k, val(p.names[k])] for k in sorted(p.names)])
            except Timeout:
                obs.update(st='timeout', exc=[], fn=[], data=[], names=[])
            except Exception as e:
                obs.update(st='err', exc=[c.__name__ for c in type(e).__mro__] + [str(e)],
                           fn=[], data=[], names=[])
        obs['leaked'] = opened.leaked()
        obs['closed'] = bool(stream.closed) if stream is not None else False
        obs['src'], obs['name'], obs['named'] = src, cps(name), named
    finally:
        if stream is not None and not stream.closed:
            stream.close()
        if tmp:
            os.unlink(tmp)
    if case.get('tile'):
        obs['data'] = [tw.long_(k, v, case['live']) for k, v in obs['data']]
    return obs


def build(fields, records, extra=b'', eof=True, version=3):
    """Bytes of a dbf file: the harness writer, independent of the spec's."""
    b = struct.pack('<BBBBLHH20x', version, 120, 2, 3, len(records),
                    33 + 32 * len(fields) + len(extra), 1 + sum(f[2] for f in fields))
    for name, typ, size, deci in fields:
        b += struct.pack('<11sc4xBB14x', name.encode(), typ.encode(), size, deci)
    b += b'\r' + extra
    for flag, cells in records:
        b += flag + b''.join(cells)
    return b + (b'\x1a' if eof else b'')


def rnd_cell(rng, f):
    name, typ, size, deci = f
    if typ == 'N':
        r = rng.random()
        if r < .15:
            return rng.choice([b' ', b'\0']) * size
        if r < .3:
            s = rng.choice(['0', '-0', '%.*f' % (deci, 0), '1' * (size - deci - 1 if deci else size),
                            '-1', '10'])
        elif deci:
            s = '%.*f' % (deci, rng.uniform(-10, 10 ** max(0, min(6, size - deci - 2))))
        else:
            s = str(rng.randint(-9, 10 ** max(1, min(9, size - 1)) - 1))
        s = s[:size]
        if s in ('-', '-.', '.', ''):
            s = '1'
        pad = rng.random()
        if rng.random() < .1:
            k = rng.randint(0, size - len(s))
            b = s.rjust(len(s) + k).encode()
            nul = b'\0' * (size - len(b))
            return nul + b if rng.random() < .5 else b + nul
        return (s.rjust(size) if pad < .8 else s.ljust(size) if pad < .9
                else s.rjust(size, '0') if s[0] != '-' else s.rjust(size)).encode()
    if typ == 'F':
        if rng.random() < .15:
            return b' ' * size
        s = '%.*f' % (deci, rng.uniform(-5, 100))
        if rng.random() < .3:
            s = rng.choice(['%.*f' % (deci, 0), '0', '0.', '-0', '1.', '.5'])
        if size >= 12 and rng.random() < .3:
            s = '%.3e' % rng.uniform(-1e5, 1e5)
        s = s[:size]
        if s in ('-', '-.', '.', ''):
            s = '1'
        return s.rjust(size).encode()
    if typ == 'D':
        if rng.random() < .2:
            return b' ' * 8
        d = datetime.date(1, 1, 1) + datetime.timedelta(rng.randrange(0, 3652058))
        if rng.random() < .3:
            d = rng.choice([datetime.date(1, 1, 1), datetime.date(9999, 12, 31),
                            datetime.date(2000, 2, 29), datetime.date(1899, 12, 31),
                            datetime.date(1900, 1, 1), datetime.date(1970, 1, 1)])
        return ('%04d%02d%02d' % (d.year, d.month, d.day)).encode()
    if typ == 'L':
        return rng.choice([b'Y', b'y', b'T', b't', b'N', b'n', b'F', b'f', b'?', b' '])
    s = ''.join(rng.choice('abcXYZ019 *-.;,' ) for i in range(size))
    if rng.random() < .2:
        s = ' ' * size
    if rng.random() < .3:
        s = s[:rng.randint(0, size)].ljust(size)
    return s.encode()


def rnd_fields(rng):
    n = rng.choice([1, 1, 2, 3, 3, 4, 5, 8])
    if rng.random() < .02:
        n = rng.choice([15, 40])
    fields = []
    for i in range(n):
        typ = rng.choice('NNNFDLCCCIM')
        size, deci = {'N': (rng.choice([1, 3, 5, 10, 14]), rng.choice([0, 0, 1, 3])),
                      'F': (rng.choice([4, 8, 13]), rng.choice([0, 2, 4])),
                      'D': (8, 0), 'L': (1, 0), 'C': (rng.choice([1, 2, 5, 20, 254]), 0),
                      'I': (4, 0), 'M': (10, 0)}[typ]
        if typ == 'C' and size == 254 and rng.random() < .8:
            size = 7
        if typ in 'NF' and deci and deci > size - 2:
            deci = 0
        ln = rng.choice([1, 2, 4, 10, 11])
        name = ''.join(rng.choice('ABCDEFG_1') for k in range(ln)) + ('' if ln > 9 else str(i))
        if fields and rng.random() < .04:
            name = rng.choice(fields)[0]
        fields.append((name[:11], typ, size, deci))
    return fields


def make(args):
    pid, seed, j = args
    rng = random.Random('%s/%s/%s/dbf' % (pid, seed, j))
    fields = rnd_fields(rng)
    nrec = rng.choice([0, 1, 2, 3, 5, 8, 12])
    if rng.random() < .01:
        nrec = rng.choice([256, 300])
        fields = fields[:4]
    pdel = rng.choice([0, .2, .5, .9, 1])
    recs = [(b'*' if rng.random() < pdel else b' ', [rnd_cell(rng, f) for f in fields])
            for i in range(nrec)]
    b = build(fields, recs, extra=rng.choice([b'', b'', b'\0']), eof=rng.random() < .7,
              version=rng.choice([3, 0x83, 0x8b, 4]))
    if any(f[1] in 'NF' and f[2] > 15 for f in fields):
        raise AssertionError
    case = {'prop': pid, 'bytes': list(b), 'style': rng.randint(0, 2)}
    src = rng.choice(['path', 'bio', 'file'])
    allnames = [f[0] for f in fields]

    def sel():
        k = rng.randint(1, len(allnames))
        n = rng.sample(allnames, k)
        if rng.random() < .15:
            n.append('NOSUCH')
        return n
    if pid == 'C20':
        case['obs'] = [observe(case, src, None)]
    elif pid == 'C21':
        case['obs'] = [observe(case, src, None)] + [observe(case, src, sel()) for i in range(3)]
    else:
        n = sel() if rng.random() < .5 else None
        if rng.random() < .2:
            case['bytes'] = case['bytes'][:rng.randrange(len(b))]
        case['obs'] = [observe(case, s, n) for s in ['path'] + rng.sample(
            ['bio', 'biooff', 'file', 'fileoff', 'tmp', 'tmpoff'], 4)]
    return case


def large(args):
    """Many records: those of a block again and again."""
    pid, seed, j = args
    rng = random.Random('%s/%s/%s/large' % (pid, seed, j))
    fields = rnd_fields(rng)[:3]
    n = rng.choice([1, 2, 3, 7, 10])
    recs = [(b'*' if rng.random() < .2 and i else b' ', [rnd_cell(rng, f) for f in fields]) for i in range(n)]
    total = rng.choice([255, 257, 1000, 1024, 4097, 10001, 32769, 65535, 65536, 65537, 66000, 70001]) if j else 65537 + rng.randrange(999)
    eof = rng.random() < .7
    case = {'prop': pid, 'bytes': list(build(fields, recs, eof=eof)), 'style': j, 'tile': [total // n, total % n],
            'live': sum(r[0] == b' ' for r in recs), 'big': build(fields, recs * (total // n) + recs[:total % n], eof=eof)}
    src = rng.choice(['path', 'bio', 'file'])
    names = [f[0] for f in fields]
    case['obs'] = [observe(case, src, None)]
    if pid == 'C21':
        case['obs'].append(observe(case, src, rng.sample(names, rng.randint(1, len(names)))))
    del case['big']
    return case


def judge(ck, cases, label):
    for c in cases:
        c.setdefault('tile', [])
    for i in range(0, len(cases), 2500):
        part = cases[i:i + 2500]
        r = tlc.run('DbfCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n' +
                    ('INVARIANT Projects\n' if ck.pid == 'C21' else ''),
                    files={'c.json': json.dumps(part)}, workers=8)
        ck.tlc(r)
        if r.distinct != 2 * len(part):
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(part), r.log[-3000:]))
        for v in r.lines:
            c = part[v['case'] - 1]
            k = v['fails'][0][2] - 1
            if any(f[0] == ck.pid for f in v['fails']):
                ck.violation('%s: %s dbf file %r names %s got %s' % (
                    label, v['fails'], bytes(c['bytes'])[:400], c['obs'][k]['names0'],
                    {x: c['obs'][k][x] for x in ('srcname', 'st', 'exc', 'data', 'names')}),
                    {'case': c, 'expected': v['expect']})


def replay(args):
    pid, chunk = args
    bad, n = [], 0
    for v in chunk:
        case = {'prop': pid, 'bytes': v['b'], 'style': n % 3}
        obs = [observe(case, 'bio', None)]
        ok = same(v['full'], obs[0])
        if pid == 'C21':
            for names, e in v['sel']:
                o = observe(case, 'bio', [''.join(map(chr, x)) for x in names])
                obs.append(o)
                ok = ok and same(e, o)
        n += len(obs)
        if not ok:
            bad.append(dict(case, obs=obs))
    return n, bad


def same(e, o):
    return o['st'] == 'ok' and o['data'] == e['data'] and o['names'] == e['names']


def mc(ck, pool):
    lines, asyn = [], []

    def flush():
        if lines:
            asyn.append(pool.apply_async(replay, ((ck.pid, list(lines)),)))
            del lines[:]

    def online(v):
        lines.append(v)
        if len(lines) >= 64:
            flush()
    rec, level = (2, 1) if ck.quick else (3, 2)
    r = tlc.run('DbfMC', 'SPECIFICATION Spec\nCONSTANTS MaxRec=%d Level=%d\n'
                'INVARIANTS RoundTrip Faithful DeletedGone Tiles\n' % (rec, level), workers=8,
                on_line=online, timeout=3000)
    flush()
    ck.tlc(r)
    bad, n = [], 0
    for a in asyn:
        k, b = a.get()
        n += k
        bad += b
    ck.traces += n
    ck.exhaustive.append('DbfMC: all tables of the model with up to %d records (%d files), %d '
                         'readings replayed' % (rec, r.distinct, n))
    if bad:
        judge(ck, bad[:200], 'small file')


def random_part(ck, pool, n):
    cases = pool.map(make, [(ck.pid, ck.seed, j) for j in range(n)], chunksize=16)
    if ck.pid != 'C16':
        cases += pool.map(large, [(ck.pid, ck.seed, j) for j in range(n // 125)], chunksize=1)
    judge(ck, cases, 'dbf reading')
    ck.traces += sum(len(c['obs']) for c in cases)
    ck.cases += len(cases)
    c = cases[len(cases) // 2]
    ck.sample({'dbf_bytes': len(c['bytes']), 'observed': {k: c['obs'][0][k] for k in
                                                          ('srcname', 'st', 'names')}})


def run(ck):
    with mp.Pool(8, initializer=child_limits) as pool:
        mc(ck, pool)
        random_part(ck, pool, 1500 if ck.quick else 20000)
    ck.assumptions += ['files follow the dbf layout: header, field descriptors, terminator, fixed '
                       'length records; ASCII text; numbers of at most 15 characters',
                       'names is a sequence of field names']
