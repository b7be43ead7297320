"""Check C32: files cut short."""
import io
import json
import contextlib
import multiprocessing as mp
import os
import random
import struct
import tempfile

import dbfcheck
import sheetcheck as sc
import sheetgen as sg
import sheetmc
import tlc
import xlwrite as xw
from common import child_limits
from tokens import cps

ALL = sheetmc.ALL


def read_sheet(path, data):
    with open(path, 'wb') as fo:
        fo.write(data)
    o = sc.observe(path, ALL)
    return o if o['st'] != 'err' else {'st': 'err', 'exc': [], 'data': [], 'names': []}


def read_dbf(path, data, names):
    o = dbfcheck.observe({'bytes': list(data)}, 'bio', names)
    return {k: o[k] if k != 'exc' else [] for k in ('st', 'exc', 'data', 'names')}


def cutcase(form, data, cuts, d, names=None):
    """Read data complete and cut at each of cuts."""
    path = os.path.join(d, 'f')
    obs, where, index = [], [], {}
    read = (lambda p, b: read_dbf(p, b, names)) if form == 'dbf' else read_sheet

    def seen(o):
        k = json.dumps(o)
        if k not in index:
            obs.append(o)
            index[k] = len(obs)
        return index[k]
    full = seen(read(path, data))
    for n in cuts:
        where.append([n, seen(read(path, data[:n]))])
    return {'form': form, 'b': list(data) if form == 'dbf' else [], 'obs': obs, 'full': full, 'cuts': where, 'size': len(data)}


def numbers(n):
    """A book of n bytes, most of it records of 18 bytes, so that whole records can go missing."""
    recs = []
    x = {'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [], 'sheets': [[cps('S'), 0, recs]]}
    opts = dict(fonts=0, codepage=False)
    k = n - len(xw.biff(x, sc.tofloat, opts)) - 4
    for r in range(k // 18):
        recs.append(['NUMBER', r, 0, 0, ['n', False, cps(str(r + 1).rstrip('0')), len(str(r + 1)) - len(str(r + 1).rstrip('0'))]])
    recs.append(['OTHER', 0x8c8, [1] * (k % 18)])
    data = xw.biff(x, sc.tofloat, opts)
    assert len(data) == n
    return data


def lost_table(rng):
    """A container whose first allocation sector is the last sector of the file, so that a cut takes it, and with
    another stream that reads as the workbook where the table that is left is taken for the first one."""
    recs = [['NUMBER', r, 0, 0, ['n', False, cps(str(r + 1)), 0]] for r in range(9)]
    other = [['NUMBER', r, 0, 0, ['n', False, cps(str(r + 5)), 0]] for r in range(9)]

    def book(rs):
        x = {'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [], 'sheets': [[cps('S'), 0, [['OTHER', 0x8c8, [7] * 4400]] + rs]]}
        return xw.biff(x, sc.tofloat, {})
    a, b = book(recs), book(other)
    assert len(a) == len(b) and 4608 < len(a) <= 5120, len(a)
    w0 = rng.choice([3, 10])
    b0 = rng.choice([30, 40, 70])
    nsec = 180
    sat = [-1] * 256
    body = [b'\xee' * 512] * nsec
    for k in range(10):
        sat[w0 + k] = w0 + k + 1
        body[w0 + k] = a[512 * k:512 * k + 512].ljust(512, b'\0')
    sat[w0 + 9] = -2
    chain = [128 + w0]
    for k in range(9):
        chain += [b0 + k, 128 + b0 + k]
        body[b0 + k] = b[512 * (k + 1):512 * (k + 2)].ljust(512, b'\0')
    for x, y in zip(chain, chain[1:] + [-2]):
        sat[x] = y
    sat[0] = -2             # directory
    sat[128] = -2           # of a stream of one sector's worth of ... nothing: stays unused
    sat[1] = sat[nsec - 1] = -3
    assert sat[128 + b0 + 8] == -2

    def entry(name, typ, left, right, child, first, size):
        nm = name.encode('utf-16-le')
        return (nm.ljust(64, b'\0') + struct.pack('<HBBiii', len(nm) + 2, typ, 1, left, right, child) + b'\0' * 36
                + struct.pack('<iii', first, size, 0))
    body[0] = (entry('Root Entry', 5, -1, -1, 1, -2, 0) + entry('Workbook', 2, 2, -1, -1, w0, len(a))
               + entry('Ba', 2, -1, -1, -1, chain[0], 512 * len(chain) - 5)
               + b'\0' * 68 + struct.pack('<iii', -1, -1, -1) + b'\0' * 48)
    body[1] = struct.pack('<128i', *sat[128:])
    body[nsec - 1] = struct.pack('<128i', *sat[:128])
    head = (b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1' + b'\0' * 16 + struct.pack('<HHHHH', 0x3e, 3, 0xfffe, 9, 6) + b'\0' * 10
            + struct.pack('<iiiiiiii', 2, 0, 0, 4096, -2, 0, -2, 0) + struct.pack('<109i', nsec - 1, 1, *([-1] * 107)))
    return head + b''.join(body)


CUTS = sorted({0, 1, 64, 128, 256, 384, 511} | {512 - 18 * m for m in range(1, 29)})


def positions(rng, n, k):
    """Cut positions of a file of n bytes."""
    if n <= k:
        return list(range(n))
    s = set(rng.sample(range(n), k // 2)) | set(range(n - k // 8, n)) | {0, 1, 4, 8}
    for i in range(k // 4):
        b = 512 * rng.randint(0, n // 512)
        s |= {x for x in (b - 1, b, b + rng.choice(CUTS), b + rng.choice(CUTS), b + 511) if 0 <= x < n}
    return sorted(s)


def make(args):
    pid, seed, j, count = args
    rng = random.Random('%s/%s/%s/cut' % (pid, seed, j))
    form = rng.choice(['dbf', 'dbf', 'biff', 'ole', 'ole', 'ole', 'old', 'xlsx', 'lost'] if rng.random() < .9 else ['ole'])
    names = None
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        if form == 'dbf':
            fields = dbfcheck.rnd_fields(rng)
            recs = [(b'*' if rng.random() < .2 else b' ', [dbfcheck.rnd_cell(rng, f) for f in fields]) for i in range(rng.choice([0, 1, 2, 4]))]
            data = dbfcheck.build(fields, recs, extra=rng.choice([b'', b'\0']), eof=rng.random() < .7)
            if rng.random() < .5:
                names = rng.sample([f[0] for f in fields], rng.randint(1, len(fields)))
        elif form == 'lost':
            data = lost_table(rng)
        elif form == 'xlsx':
            f, o = sc.encode(rng, sg.workbook(rng, maxcells=30), 'xlsx')
            data = xw.xlsx(f['x'], o)
        elif form == 'old':
            ver, page = rng.choice(sg.VERSIONS), rng.choice(sg.PAGES)
            f, o = sg.to_old(rng, sg.oldworkbook(rng, ver, page), ver, page)
            data = xw.biff(f['x'], sc.tofloat, o)
        else:
            wb = sg.workbook(rng, simple=rng.random() < .5, maxcells=30)
            f = sg.to_biff(rng, wb)
            if form == 'ole' and rng.random() < .6:
                sh = [s for s in f['x']['sheets'] if s[1] == 0]
                more = ([['OTHER', 0x8c8, [rng.randrange(256)] * rng.choice([2000, 4096, 6000])]] if rng.random() < .4 else
                        [['NUMBER', 40 + r, 0, 0, ['n', False, cps('5' * (r % 9 + 1)), 0]] for r in range(rng.choice([200, 300]))])
                rng.choice(sh)[2].extend(more)
            data = xw.biff(f['x'], sc.tofloat, {})
            if form == 'ole':
                L = xw.ole_layout(rng, len(data), place=rng.choice(['shuffled', 'mixed', 'straight']), extra=rng.choice([0, 1, 3]),
                                  nested=rng.random() < .1, free=rng.choice([0, 0, 3]),
                                  bulk=rng.choice([70000, 140000]) if rng.random() < .1 else 0)
                data = xw.ole(data, L, rng.choice([0, 9]))
        return cutcase(form, data, positions(rng, len(data), count), d, names)


def show(c, n):
    o = [c['obs'][k - 1] for m, k in c['cuts'] if m == n]
    return '%s file of %d bytes cut to %d reads as %s, complete as %s' % (
        c['form'], c['size'], n, json.dumps(o)[:200], json.dumps(c['obs'][c['full'] - 1])[:200])


def judge(ck, cases, label, chunk=200):
    for i in range(0, len(cases), chunk):
        part = cases[i:i + chunk]
        r = tlc.run('CutCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n', files={'c.json': json.dumps(part)}, workers=8)
        ck.tlc(r)
        if r.distinct != 2 * len(part):
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(part), r.log[-3000:]))
        for v in r.lines:
            c = part[v['case'] - 1]
            ck.violation('%s: %s' % (label, show(c, v['fails'][0][0])), {'case': c, 'fails': v['fails'], 'label': label})


def replay(args):
    profile, lines = args
    bad, n = [], 0
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        for v in lines:
            if profile == 'dbf':
                c = cutcase('dbf', bytes(v['b']), range(len(v['b'])), d)
            else:
                data = xw.ole(numbers(v['n']), v['L'], n % 3)
                cuts = [512 + 512 * s + k for s in range(len(v['L']['what'])) for k in CUTS]
                c = cutcase('ole', data, cuts, d)
            n += len(c['cuts'])
            full = c['obs'][c['full'] - 1]
            if full['st'] != 'ok' or any(o['st'] != 'err' and o != full for o in c['obs']) or profile == 'dbf':
                bad.append(c)          # the judge decides
    return n, bad


def run(ck):
    with mp.Pool(8, initializer=child_limits) as pool:
        for profile, q, t in (('dbf', 0, 0), ('mini', 500, 700), ('regular', 4500, 6000)):
            asyn, lines = [], []

            def flush():
                if lines:
                    asyn.append(pool.apply_async(replay, ((profile, list(lines)),)))
                    del lines[:]

            def online(v):
                lines.append(v)
                if len(lines) >= 10:
                    flush()
            r = tlc.run('CutMC', 'SPECIFICATION Spec\nCONSTANTS Profile="%s" Bytes=%d\nINVARIANTS NeverOther Done\n'
                        % (profile, q if ck.quick else t), workers=8, on_line=online, timeout=3000)
            flush()
            ck.tlc(r)
            n, bad = 0, []
            for a in asyn:
                k, b = a.get()
                n += k
                bad += b
            ck.traces += n
            ck.exhaustive.append('CutMC %s: %d states, %d readings of cut files replayed' % (profile, r.distinct, n))
            judge(ck, bad[:600], 'small ' + profile)
        n = 320 if ck.quick else 4000
        cases = pool.map(make, [(ck.pid, ck.seed, j, 80 if ck.quick else 400) for j in range(n)], chunksize=4)
        judge(ck, cases, ck.pid)
        for c in cases:
            ck.cases += 1
            ck.traces += len(c['cuts'])
        ck.sample(show(cases[0], cases[0]['cuts'][-1][0]))
        ck.sample(show(cases[-1], cases[-1]['cuts'][0][0]))
    ck.assumptions.append('the files are written by the generators of this harness after the published formats; '
                          'struct, zipfile, ElementTree and numpy are trusted')
