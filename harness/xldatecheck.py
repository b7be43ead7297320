"""Check C26."""
import datetime
import json
import multiprocessing as mp
import random

import tlc
from common import child_limits

UNIT = 864000000
LAST = (2958465, 2958465 - 1462)


def serial(mode, x, neg, n, u):
    from channelpack.xlrd import xldate
    it = {'mode': mode, 'neg': neg, 'n': n, 'u': u}
    try:
        t = xldate.xldate_as_tuple(x, mode)
        it['tup'] = ['t'] + [int(v) for v in t]
    except Exception as e:
        it['tup'] = [type(e).__name__]
    try:
        d = xldate.xldate_as_datetime(x, mode)
        us = ((d.hour * 60 + d.minute) * 60 + d.second) * 10 ** 6 + d.microsecond
        it['dt'] = ['d', d.year, d.month, d.day, us // 1000] + ([us] if us % 1000 else [])
    except Exception as e:
        it['dt'] = ['error']
    return it


def back(mode, y, m, d, h, mi, s):
    from channelpack.xlrd import xldate
    it = {'mode': mode, 'y': y, 'm': m, 'd': d, 'h': h, 'mi': mi, 's': s, 'again': ['none']}
    try:
        x = xldate.xldate_from_datetime_tuple((y, m, d, h, mi, s), mode)
        parts = (xldate.xldate_from_date_tuple((y, m, d), mode), xldate.xldate_from_time_tuple((h, mi, s)))
        n = int(x)
        it['obs'] = ['x', n, int(round((x - n) * UNIT))]
        if parts[0] + parts[1] != x:
            it['obs'] = ['parts differ']
        it['again'] = ['t'] + [int(v) for v in xldate.xldate_as_tuple(x, mode)]
    except Exception as e:
        it['obs'] = [type(e).__name__]
    return it


def runs(args):
    """All days lo..hi of a mode, losslessly as runs within months; days that
    do not fit go as single observations."""
    mode, lo, hi = args
    from channelpack.xlrd import xldate
    out, odd = [], []
    cur = None
    for n in range(lo, hi + 1):
        x = float(n)
        try:
            t = xldate.xldate_as_tuple(x, mode)
            dt = xldate.xldate_as_datetime(x, mode)
            ok = (t[3:] == (0, 0, 0) and dt == datetime.datetime(*t)
                  and xldate.xldate_from_date_tuple(t[:3], mode) == x)
        except Exception:
            ok = False
        if not ok:
            odd.append(serial(mode, x, False, n, 0))
            if odd[-1]['tup'][0] == 't':
                odd.append(back(mode, *odd[-1]['tup'][1:]))
            cur = None
            continue
        if cur and t[0] == cur[2] and t[1] == cur[3] and t[2] == cur[4] + cur[1]:
            cur[1] += 1
        else:
            cur = [n, 1, t[0], t[1], t[2]]
            out.append(cur)
    return {'k': 'runs', 'mode': mode, 'lo': lo, 'hi': hi, 'runs': out or [[0, 0, 0, 0, 0]]}, odd


def items(args):
    seed, j, size = args
    rng = random.Random('%s/%s/xldate' % (seed, j))
    ser, bk = [], []
    for k in range(size):
        mode = rng.choice([0, 1])
        r = rng.random()
        if r < .1:
            n = rng.choice([0, 1, 2, 58, 59, 60, 61, 62, 1461, 1462, 1463, LAST[mode] - 1, LAST[mode],
                            LAST[mode] + 1, LAST[mode] + 2, LAST[mode] + 1462])
        elif r < .5:
            n = rng.randrange(0, 60000)
        else:
            n = rng.randrange(0, LAST[mode] + 1)
        r = rng.random()
        if r < .05:
            u = 0
        elif r < .5:
            u = rng.randrange(0, 86400) * 10000
        elif r < .7:
            u = rng.randrange(0, 86400000) * 10
        elif r < .8:
            u = min(UNIT - 1, max(0, rng.randrange(0, 86400) * 10000 + rng.choice([-1, 1, 2, -3, 4990, 5010, 4000, 6000])))
        elif r < .9:
            u = UNIT - rng.choice([1, 10, 30, 1000, 4000, 6000, 9999, 10000])
        else:
            u = rng.randrange(0, UNIT)
        if rng.random() < .02:
            ser.append(serial(mode, -(n + u / UNIT) - 1e-3, True, n, u))
        elif rng.random() < .01:
            ser.append(serial(rng.choice([2, 3, 1900]), n + u / UNIT, False, n, u))
            ser[-1]['dt'] = ['error']
        else:
            ser.append(serial(mode, n + u / UNIT, False, n, u))
        r = rng.random()
        y = rng.randrange(1900, 10000) if r < .7 else rng.choice([1899, 1900, 1903, 1904, 1905, 2000, 2100, 9999,
                                                                  10000, 0, -1, 4])
        m, d = rng.randrange(1, 13), rng.randrange(1, 29)
        if rng.random() < .3:
            m, d = rng.choice([(2, 29), (2, 28), (3, 1), (12, 31), (1, 1), (0, 1), (13, 1), (2, 30), (4, 31), (6, 30),
                               (4, 30), (11, 31), (7, 31), (8, 31), (10, 0), (5, 32), (1, 2), (2, 0), (9, 31), (6, 31)])
        if rng.random() < .03:
            y = m = d = 0
        h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
        if rng.random() < .15:
            h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (24, 0, 0), (0, 60, 0), (0, 0, 60), (-1, 0, 0), (0, -1, 0),
                                   (0, 0, -1), (12, 0, 0), (23, 59, 60)])
        bk.append(back(mode if rng.random() < .98 else 2, y, m, d, h, mi, s))
    return [{'k': 'serial', 'items': ser}, {'k': 'back', 'items': bk}]


def alltimes(args):
    seed, j = args
    rng = random.Random('%s/%s/times' % (seed, j))
    mode = rng.choice([0, 1])
    n = rng.choice([0, 61, 25569, 43831, rng.randrange(61, 100000), rng.randrange(61, LAST[1])])
    off = rng.choice([0, 0, 3000, -3000, 1234])
    ser = []
    for s in range(86400):
        u = 10000 * s + off
        if u >= 0:
            ser.append(serial(mode, n + u / UNIT, False, n, u))
    return [{'k': 'serial', 'items': ser[i:i + 5400]} for i in range(0, len(ser), 5400)]


def judge(ck, chunks):
    r = tlc.run('XldateCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n',
                files={'c.json': json.dumps(chunks)}, workers=8, heap='10g')
    ck.tlc(r)
    if r.distinct != 2 * len(chunks):
        raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(chunks), r.log[-3000:]))
    for v in r.lines:
        c = chunks[v['case'] - 1]
        for f in v['fails'][:3]:
            what = c['items'][f[1] - 1] if 'items' in c else dict(c, runs=f[1])
            ck.violation('xldate %s' % json.dumps(what), what)


def run(ck):
    r = tlc.run('XldateMC', 'SPECIFICATION Spec\nCONSTANTS From=%d To=%d Span=%d\n'
                'INVARIANTS Closed Valid Inverse Points\n' % ((1896, 2304, 10) if ck.quick else (1890, 10000, 100)),
                workers=8, timeout=3000)
    ck.tlc(r)
    ck.exhaustive.append('XldateMC: every day of the years %s, closed forms against the day by day walk'
                         % ('1896-2304' if ck.quick else '1890-9999'))
    with mp.Pool(8, initializer=child_limits) as pool:
        jobs = []
        for mode in (0, 1):
            lo = 61 if mode == 0 else 1
            step = 36525
            for a in range(lo, LAST[mode] + 1, step):
                jobs.append((mode, a, min(a + step - 1, LAST[mode])))
        res = pool.map(runs, jobs, chunksize=1)
        chunks, odd = [], []
        for c, o in res:
            chunks.append(c)
            odd += o
        days = sum(j[2] - j[1] + 1 for j in jobs)
        ck.traces += days
        ck.exhaustive.append('every serial day of both date systems up to 9999-12-31 (%d), by as_tuple, '
                             'as_datetime and from_date_tuple' % days)
        small = [serial(m, float(n), False, n, 0) for m in (0, 1) for n in range(0, 61)]
        chunks.append({'k': 'serial', 'items': small + [o for o in odd if 'tup' in o][:20000]})
        if [o for o in odd if 'obs' in o]:
            chunks.append({'k': 'back', 'items': [o for o in odd if 'obs' in o][:20000]})
        cal = [back(m, y, mo, d, 0, 0, 0) for m in (0, 1) for y in (1900, 1903, 1904, 1999, 2000, 2023, 2024, 2100, 9999)
               for mo in range(0, 14) for d in range(0, 34)]
        for h in range(-1, 26):
            cal += [back(0, 2024, 2, 29, h, mi, s) for mi in (-1, 0, 1, 59, 60, 61) for s in (-1, 0, 30, 59, 60, 61)]
        cal += [back(m, y, 1, 1, 0, 0, 0) for m in (0, 1, 2) for y in list(range(1895, 1910)) + list(range(9990, 10010))]
        chunks += [{'k': 'back', 'items': cal[i:i + 1000]} for i in range(0, len(cal), 1000)]
        ck.exhaustive.append('every day 0..33 of every month 0..13 of nine years, as a date tuple')
        for part in pool.map(items, [(ck.seed, j, 1500) for j in range(16 if ck.quick else 400)]):
            chunks += part
        for part in pool.map(alltimes, [(ck.seed, j) for j in range(2 if ck.quick else 24)]):
            chunks += part
        n = sum(len(c.get('items', ())) for c in chunks)
        ck.traces += n
        ck.cases += n
        ck.sample(chunks[0]['runs'][0])
        ck.sample(chunks[-1]['items'][7])
        for i in range(0, len(chunks), 400):
            judge(ck, chunks[i:i + 400])
    ck.assumptions += ['serial numbers are floats; a time within 0.1 ms of the middle between two '
                       'representable results may round either way']
