"""Checks C22 to C25 and C28 to C30: spread sheets."""
import datetime
import json
import multiprocessing as mp
import os
import random
import tempfile

import extras as ex
import sheetgen as sg
import textworld as tw
import tlc
import xlwrite as xw
from common import child_limits, limit, Timeout
from tokens import cps


def u(x):
    return ''.join(map(chr, x))


def tofloat(tok):
    return float('%s%se%d' % ('-' if tok[1] else '', ''.join(map(chr, tok[2])) or '0', tok[3]))


def val(x):
    import numpy as np
    if x is None:
        return ['none']
    if isinstance(x, (bool, np.bool_)):
        return ['b', bool(x)]
    if isinstance(x, datetime.datetime):
        us = ((x.hour * 60 + x.minute) * 60 + x.second) * 10 ** 6 + x.microsecond
        return ['d', x.year, x.month, x.day, us // 1000] + ([us] if us % 1000 else [])
    return tw.val(x)


def write(f, opts, d, k):
    """Write file f of a case in directory d."""
    if f['form'] == 'xlsx':
        data = xw.xlsx(f['x'], opts)
    else:
        data = xw.biff(f['x'], tofloat, opts)
        if opts.get('ole'):
            o = dict(opts['ole'])
            L = xw.ole_layout(random.Random(o.pop('seed')), len(data), **{k: v for k, v in o.items() if k != 'fill'})
            if o.get('bulk', 0) < 300000:       # else the layout is only read back
                f['ole'] = [L, len(data)]
            data = xw.ole(data, L, o.get('fill', 0))
    path = os.path.join(d, 'f%d.%s' % (k, f['form']))
    with open(path, 'wb') as fo:
        fo.write(data)
    return path


def kwargs(a, style):
    kw = {}
    s = a['sheet']
    if s != ['i', 0] or style % 2:
        kw['sheet'] = s[1] if s[0] == 'i' else u(s[1])
    h = a['header']
    if h != ['T'] or style % 3 == 0:
        kw['header'] = {'T': True, 'F': False, 's': None}[h[0]] if h[0] != 's' else u(h[1])
    for k, n in (('start', 'startcell'), ('stop', 'stopcell')):
        if a[k]:
            kw[n] = u(a[k][0])
    if a['usecols']:
        k, x = a['usecols'][0]
        kw['usecols'] = u(x) if k == 's' else (list, tuple, set)[style % 3](x)
    return kw


def observe(path, a, style=0):
    import numpy as np
    from channelpack import sheetpack
    try:
        with limit(20):
            p = sheetpack(path, **kwargs(a, style))
        return {'st': 'ok', 'exc': [], 'data': [[k, p.data[k].dtype.kind, [val(x) for x in p.data[k]]]
                                                if isinstance(p.data[k], np.ndarray) else [k, '?', []]
                                                for k in sorted(p.data)],
                'names': [[k, val(p.names[k])] for k in sorted(p.names)]}
    except Timeout:
        return {'st': 'timeout', 'exc': [], 'data': [], 'names': []}
    except Exception as e:
        return {'st': 'err', 'exc': [c.__name__ for c in type(e).__mro__] + [str(e)[:200]], 'data': [], 'names': []}


def observe_case(case):
    """Fill in the observations of a case."""
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        paths = [write(f, o, d, k) for k, (f, o) in enumerate(zip(case['files'], case['opts']))]
        for j, c in enumerate(case['calls']):
            c['obs'] = observe(paths[c['file'] - 1], c['a'], j + case.get('style', 0))
    return case


# --- cases ------------------------------------------------------------------

def case(prop, files, calls, same, style, opts):
    for f in files:
        f['ole'] = []
    return {'k': 'files', 'prop': prop, 'files': files, 'calls': calls, 'same': same, 'style': style, 'opts': opts}


def oleopts(rng):
    return None if rng.random() < .2 else dict(seed=rng.randrange(10 ** 6), place=rng.choice(['straight', 'straight', 'mixed']),
                                               extra=2)


def biffopts(rng, f):
    n = len(f['x']['sheets'])
    order = list(range(n))
    if rng.random() < .3:
        rng.shuffle(order)
    return dict(codepage=rng.random() < .8, sheetorder=order, ole=oleopts(rng))


def encode(rng, wb, form, **kw):
    if form == 'xlsx':
        return sg.to_xlsx(rng, wb, **kw), sg.xlsx_opts(rng)
    f = sg.to_biff(rng, wb, **kw)
    return f, biffopts(rng, f)


def whole(rng, wb):
    """Calls that see every cell of every sheet."""
    return [{'sheet': ['i', k] if rng.random() < .5 else ['n', cps(n)], 'header': ['F'], 'start': [], 'stop': [], 'usecols': []}
            for k, (n, c) in enumerate(wb[1])]


def c22(rng):
    notes = []
    for i in range(300):
        r = rng.random()
        if r < .7:
            s = ''.join(rng.choice('ABCXYZabyz') for k in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5])))
        else:
            s = ''.join(rng.choice('AZam019$: .-_@[`{\n') for k in range(rng.choice([0, 1, 2, 3])))
        notes.append({'k': 'letters', 's': s, 'row': 0})
        s = ''.join(rng.choice('ABCXYZabyz') for k in range(rng.choice([1, 1, 2, 3]))) + rng.choice(
            ['', '1', '2', '10', '0', '00', '007', '65536', '1048576', '99', str(rng.randrange(1, 10 ** 6))])
        if rng.random() < .2:
            k = rng.randint(0, len(s))
            s = s[:k] + rng.choice(['$', ' ', ':', '-', '.', 'A', '1', '\n', ',', ':B2', '+']) + s[k:]
        notes.append({'k': 'cell', 's': s, 'row': rng.choice([0, 0, 5])})
        items = []
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            a = rng.choice([rng.randrange(0, 12), rng.randrange(0, 60), rng.randrange(650, 750)])
            items.append(sg.letters(a) if rng.random() < .5 else '%s:%s' % (sg.letters(a), sg.letters(a + rng.choice([0, 1, 3, 30]))))
        if rng.random() < .1:
            items.insert(rng.randint(0, len(items)), rng.choice(['1', 'A1', 'A:', ':B', 'A:B:C', '$A', '-', '']))
        s = ''.join(rng.choice(['', '', ' ', '  ', '\t']) + x + rng.choice(['', '', ' ']) + ',' for x in items)
        if rng.random() < .9:
            s = s[:-1]
        if rng.random() < .2:
            s = s.lower()
        if s.strip():
            notes.append({'k': 'list', 's': s, 'row': 0})
    for n in notes:
        n['obs'] = note(n)
        n['s'] = cps(n['s'])
    return {'k': 'notes', 'prop': 'C22', 'notes': notes}


def note(n):
    from channelpack import readxl
    s = n['s']
    try:
        if n['k'] == 'letters':
            x = readxl.letter2num(s)
            return ['ok', int(x)] if readxl.letter2num(s, zbase=False) == x + 1 else ['zbase']
        if n['k'] == 'cell':
            if not s:
                return ['err']       # no notation at all is the default cell
            x = readxl.cellreference(row=n['row'], xladdr=s)
            return ['ok', int(x.row), int(x.col)]
        x = readxl.normalize_usecols(s)
        out = []
        for c in x:               # a column given twice is that column
            if not out or out[-1] != c:
                out.append(int(c))
        return ['ok'] + out
    except Exception:
        return ['err']


def farcase(rng, pid, share, forms, rows=65536, cols=256, **kw):
    """In some cases: cells far from the first row and column."""
    if rng.random() >= share:
        return None
    wb, calls = sg.far(rng, sg.workbook(rng, nsheets=rng.choice([1, 1, 2]), maxcells=20), rows, cols)
    fs = [encode(rng, wb, f, **kw) for f in forms]
    for f, o in fs:
        if f['form'] == 'xlsx':
            f['x']['parts'] = [[p, r, []] for p, r, m in f['x']['parts']]
    return case(pid, [f for f, o in fs], [{'file': k + 1, 'a': a} for a in calls for k in range(len(fs))], len(fs) > 1,
                rng.randrange(6), [o for f, o in fs])


def c23(rng):
    forms = rng.choice([['xlsx'], ['xls']])
    c = farcase(rng, 'C23', .05, forms, *((1048576, 16384) if forms == ['xlsx'] else ()))
    if c:
        return c
    wb = sg.workbook(rng, simple=True)
    fs = [encode(rng, wb, f) for f in forms]
    calls = [{'file': 1, 'a': sg.call(rng, wb)} for i in range(8)]
    return case('C23', [f for f, o in fs], calls, False, rng.randrange(6), [o for f, o in fs])


def c24(rng):
    wb = sg.workbook(rng)
    fs = [encode(rng, wb, rng.choice(['xlsx', 'xls']))]
    calls = [{'file': 1, 'a': a} for a in whole(rng, wb)] + [{'file': 1, 'a': sg.call(rng, wb, plain=True)} for i in range(4)]
    return case('C24', [f for f, o in fs], calls, False, rng.randrange(6), [o for f, o in fs])


def c25(rng):
    c = farcase(rng, 'C25', .2, ['xls', 'xls', 'xlsx'])
    if c:
        return c
    wb = sg.workbook(rng)
    fs = [encode(rng, wb, f) for f in ('xls', 'xls', 'xlsx')]
    calls = [{'file': k, 'a': a} for a in whole(rng, wb) for k in (1, 2, 3)]
    a = sg.call(rng, wb)
    calls += [{'file': k, 'a': a} for k in (1, 2, 3)]
    # merged cells only in the xlsx would add positions
    fs[2][0]['x']['parts'] = [[p, r, []] for p, r, m in fs[2][0]['x']['parts']]
    return case('C25', [f for f, o in fs], calls, True, 0, [o for f, o in fs])


CODEPARTS = ['y', 'yy', 'yyyy', 'm', 'mm', 'mmm', 'd', 'dd', 'h', 'hh', 's', 'ss', 'AM/PM', 'A/P', '0', '0.00', '#', '#,##0', '?', '00',
             '"text"', '"d"', '"0"', '""', '\\d', '\\0', '\\ ', '_d', '_)', '_0', '*s', '* ', '*0', '[Red]', '[$-409]', '[$-F800]',
             '[<=9]', '[$kr-41D]', '[yy]', ';', '@', 'General', '.', ',', '%', 'E+0', '-', '/', ':', ' ', '(', ')', 'x', 'Å',
             '日', '$', '€', 'Y', 'M', 'D', 'H', 'S', '1', '"', '[', ']', '\\']


def c28(rng):
    n = rng.choice([3, 20, 60])
    codes = []
    for k in range(n):
        r = rng.random()
        if r < .2:
            codes.append(rng.choice(sg.DATECODES + sg.NUMCODES))
        else:
            codes.append(''.join(rng.choice(CODEPARTS) for i in range(rng.choice([1, 1, 2, 3, 4, 6]))))
    keys = rng.sample(range(164, 1000), n)
    if rng.random() < .2:            # a file may define built-in ids itself
        k = rng.sample([5, 14, 22, 27, 40, 41, 42, 50, 71], min(2, n))
        keys[:len(k)] = k
    fmts = [[k, cps(c)] for k, c in zip(keys, codes)]
    if n > 3 and rng.random() < .2:
        fmts.append([keys[3], cps(rng.choice(codes))])
    ids = keys + rng.sample(range(0, 164), 40)
    rng.shuffle(ids)
    mode = rng.choice([0, 1])
    row = [rng.choice([float(rng.randrange(61, 50000)), rng.randrange(61 * 1440, 72000000) / 1440., 0.5, 61.]) for i in ids]
    form = rng.choice(['xlsx', 'xls'])
    a = {'sheet': ['i', 0], 'header': ['F'], 'start': [], 'stop': [], 'usecols': []}
    if form == 'xlsx':
        cells = [{'r': [], 's': [k] if k or rng.random() < .5 else [], 't': [], 'v': [[False, cps(repr(x))]], 'is': []}
                 for k, x in enumerate(row)]
        p = {'date1904': [cps('1')] if mode else [], 'styles': [{'fmts': fmts, 'xfs': [[i] for i in ids]}], 'sst': [],
             'sheets': [[cps('S'), 'rId1']], 'rels': [['rId1', 'worksheet', cps('worksheets/sheet1.xml')]],
             'parts': [[cps('xl/worksheets/sheet1.xml'), [[[1], cells]], []]]}
        f, o = {'form': 'xlsx', 'x': p}, dict(sg.xlsx_opts(rng), rels=0)
    else:
        recs = []
        for k, x in enumerate(row):
            rks = sg.rkinfo(x)
            recs.append(rng.choice([['NUMBER', 0, k, k, tw.numval(x)], ['FORMULA', 0, k, k, ['n', tw.numval(x)], 0]]
                                   + [['RK', 0, k, k, y] for y in rks]))
        f = {'form': 'xls', 'x': {'mode': mode, 'fmts': fmts, 'xfs': ids, 'sst': [], 'sheets': [[cps('S'), 0, recs]]}}
        o = biffopts(rng, f)
    return case('C28', [f], [{'file': 1, 'a': a}], False, 0, [o])


def c29(rng):
    n = rng.choice([1, 2, 3, 8, 20])
    strings = []
    for i in range(n):
        r = rng.random()
        if r < .3:
            s = sg.text(rng)
        elif r < .6:
            s = ''.join(rng.choice('abcåÿ') for k in range(rng.randint(0, 30)))
        elif r < .9:
            s = ''.join(rng.choice('ab\u0100日\U0001F600\U00010348') for k in range(rng.randint(0, 20)))
        else:
            s = rng.choice('xå日') * rng.choice([100, 255, 256, 500])
        raw = s.encode('utf-16-le')
        wide = any(raw[1::2]) or rng.random() < .3
        rt = [(rng.randint(0, 9), rng.randint(0, 300)) for k in range(rng.choice([0, 1, 2, 5]))] if rng.random() < .3 else None
        pho = bytes(rng.randrange(256) for k in range(rng.choice([0, 4, 14, 40]))) if rng.random() < .3 else None
        strings.append((s, wide, rt, pho))
    rate = rng.choice([.002, .02, .1, .3, 1])
    if rng.random() < .04:          # fill records to the brim
        strings = [(''.join(rng.choice('abå') for k in range(rng.randint(200, 2500))), rng.random() < .5, None, None) for i in range(5)]
        rate = 0
    chunks = xw.sst_chunks(strings, lambda kind: (rng.random() < rate, rng.random() < .5), total=n + rng.randint(0, 5))
    order = list(range(len(strings)))
    recs = [['LABELSST', r, 0, 0, k] for r, k in enumerate(order)]
    f = {'form': 'xls', 'x': {'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [list(c) for c in chunks], 'sheets': [[cps('S'), 0, recs]]}}
    a = {'sheet': ['i', 0], 'header': ['F'], 'start': [], 'stop': [], 'usecols': []}
    return case('C29', [f], [{'file': 1, 'a': a}], False, 0, [biffopts(rng, f)])


def c30(rng):
    c = farcase(rng, 'C30', .06, ['xlsx'], 1048576, 16384, loose=True)
    if c:
        return c
    wb = sg.workbook(rng)
    f, o = encode(rng, wb, 'xlsx', loose=True, raw=rng.random() < .3)
    calls = [{'file': 1, 'a': a} for a in whole(rng, wb)]
    return case('C30', [f], calls, False, 0, [o])


def c27(rng):
    wb = sg.workbook(rng, simple=rng.random() < .5, maxcells=30)
    f = sg.to_biff(rng, wb)
    size = len(xw.biff(f['x'], tofloat, {}))
    target = size
    if rng.random() < .7:
        target = rng.choice([4095, 4096, 4097, 4608, 4607, 64 * (size // 64 + 2), 512 * (size // 512 + 2), 8192, 12288, 66000])
    pad = target - size
    sheet = [s for s in f['x']['sheets'] if s[1] == 0][-1]
    while pad >= 4:
        k = min(pad - 4, 8000)
        if 0 < pad - 4 - k < 4:
            k -= 4
        sheet[2].append(['OTHER', 0x8c8, [rng.randrange(256)] * k])
        pad -= k + 4
    files, opts = [], []
    for k in range(3):
        files.append(json.loads(json.dumps(f)))
        big = rng.random()
        opts.append(dict(ole=dict(seed=rng.randrange(10 ** 6), place=rng.choice(['shuffled', 'shuffled', 'mixed', 'mixed', 'straight']),
                                  extra=rng.choice([0, 0, 1, 3, 6, 10]), bulk=rng.choice([4096, 70000, 131072]) if big < .1 else 0,
                                  nested=rng.random() < .2, free=rng.choice([0, 0, 1, 5, 128]) if big < .3 else 0,
                                  padding=rng.choice([0, 0, 0, 1]), nameless=rng.choice([0, 0, 1, 5]),
                                  fill=rng.choice([0, 0, 255, 9]))))
    if rng.random() < .04:
        opts[0]['ole'].update(extra=rng.choice([130, 255, 300, 500]))
    if rng.random() < .006:
        opts[1]['ole'].update(bulk=7500000, place=rng.choice(['mixed', 'shuffled']))
    calls = [{'file': k, 'a': a} for a in whole(rng, wb) for k in (1, 2, 3)]
    return case('C27', files, calls, True, 0, opts)


def c31(rng):
    ver = rng.choice(sg.VERSIONS)
    page = rng.choice(sg.PAGES)
    wb = sg.oldworkbook(rng, ver, page)
    away = None
    if rng.random() < .1:
        wb, away = sg.far(rng, wb, 16384, 256)
    f, o = sg.to_old(rng, wb, ver, page)
    if ver >= 50 and rng.random() < .7:
        o['ole'] = dict(seed=rng.randrange(10 ** 6), place=rng.choice(['straight', 'mixed']), extra=rng.choice([0, 2]), name='Book')
    if away:
        calls = [{'file': 1, 'a': a} for a in away]
    else:
        calls = [{'file': 1, 'a': a} for a in whole(rng, wb)] + [{'file': 1, 'a': sg.call(rng, wb)} for i in range(2)]
    if ver <= 40:           # the only sheet has no name of its own
        for c in calls:
            c['a']['sheet'] = ['i', 0]
    return case('C31', [f], calls, False, 0, [o])


def c35(rng):
    """Files that differ in what is no cell value only."""
    r = rng.random()
    if r < .5:
        wb = sg.workbook(rng, maxcells=30)
        f, o = encode(rng, wb, 'xls')
        g, p = json.loads(json.dumps(f)), dict(o)
        ex.decorate8(rng, g, p)
    elif r < .75:
        ver = rng.choice(sg.VERSIONS)
        page = sg.PAGES[0] if rng.random() < .7 else rng.choice(sg.PAGES)
        wb = sg.oldworkbook(rng, ver, page)
        f, o = sg.to_old(rng, wb, ver, page)
        g, p = json.loads(json.dumps(f)), dict(o)
        ex.decorate_old(rng, g, p)
    else:
        wb = sg.workbook(rng, maxcells=30)
        f, o = encode(rng, wb, 'xlsx')
        g, p = json.loads(json.dumps(f)), dict(o)
        p.update(ex.xlsx_extras(rng, len(g['x']['parts'])))
    calls = [{'file': k, 'a': a} for a in whole(rng, wb) + [sg.call(rng, wb)] for k in (1, 2)]
    if f['x'].get('ver', 80) <= 40:
        for c in calls:
            c['a']['sheet'] = ['i', 0]
    return case('C35', [f, g], calls, True, 0, [o, p])


GEN = {'C35': c35, 'C31': c31, 'C27': c27, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C28': c28, 'C29': c29, 'C30': c30}


def make(args):
    pid, seed, j = args
    rng = random.Random('%s/%s/%s/sheet' % (pid, seed, j))
    c = GEN[pid](rng)
    return c if c['k'] == 'notes' else observe_case(c)


def show(c, j):
    if c['k'] == 'notes':
        n = c['notes'][j - 1]
        return '%s %r gives %s' % (n['k'], u(n['s']), n['obs'])
    if j == 0:
        return 'the encodings differ in the specification (error of the check)'
    x = c['calls'][j - 1]
    return '%s file, call %s gives %s' % (c['files'][x['file'] - 1]['form'], kwargs(x['a'], 1), json.dumps(x['obs'])[:250])


def slim(c):
    """A case less what the specification does not look at."""
    if c['k'] == 'notes':
        return c
    files = []
    for f in c['files']:
        if any(r[0] == 'X' for s in f['x'].get('sheets', []) if f['form'] == 'xls' for r in s[2]):
            f = dict(f, x=dict(f['x'], sheets=[s[:2] + [[r[:2] + [''] if r[0] == 'X' else r for r in s[2]]] + s[3:]
                                               for s in f['x']['sheets']]))
        files.append(f)
    return dict(c, files=files)


def judge(ck, cases, label, chunk=250):
    jobs = []
    for i in range(0, len(cases), chunk):
        def job(part=cases[i:i + chunk]):
            r = tlc.run('SheetCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n',
                        files={'c.json': json.dumps([{k: v for k, v in slim(c).items() if k != 'opts'} for c in part])}, workers=4)
            return part, r
        jobs.append(job)
    for part, r in tlc.shards(jobs, 2):
        ck.tlc(r)
        if r.distinct != 2 * len(part):
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(part), r.log[-3000:]))
        for v in r.lines:
            c = part[v['case'] - 1]
            f = v['fails'][0]
            ck.violation('%s: %s, expected %s' % (label, show(c, f[0]), json.dumps(f[1])[:250]), {'case': c, 'fails': v['fails']})


COUNT = {'C35': (500, 8000), 'C31': (600, 8000), 'C22': (100, 2000), 'C23': (700, 8000), 'C24': (600, 8000), 'C25': (260, 4000), 'C27': (250, 3000), 'C28': (260, 4000), 'C29': (500, 8000),
         'C30': (900, 10000)}


def run(ck):
    import sheetmc
    with mp.Pool(8, initializer=child_limits) as pool:
        sheetmc.run(ck, pool)
        n = COUNT[ck.pid][not ck.quick]
        cases = pool.map(make, [(ck.pid, ck.seed, j) for j in range(n)], chunksize=8)
        judge(ck, cases, ck.pid)
        for c in cases:
            ck.cases += 1
            ck.traces += len(c['notes']) if c['k'] == 'notes' else len(c['calls'])
        ck.sample(show(cases[len(cases) // 2], 1))
        ck.sample(show(cases[-1], 1))
    ck.assumptions += ['the workbooks are written by harness/xlwrite.py after the published formats '
                       '(MS-XLS, the OpenOffice description of Excel files, ECMA-376)',
                       'struct, zipfile, ElementTree, codecs and numpy are trusted']
