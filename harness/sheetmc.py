"""Replay of what SheetMC, BiffMC and OleMC enumerate in the real code."""
import json
import os
import random
import tempfile

import extras as ex
import sheetcheck as sc
import tlc
import xlwrite as xw
from tokens import cps

INV = {'names': 'Unmoved', 'chain': 'Unmoved', 'places': 'Unmoved', 'note': 'Notes', 'code': 'Codes', 'column': 'SameInBoth', 'range': 'RangeOK', 'place': 'RefsOptional',
       'strings': 'Survives', 'old': 'Meant', 'few': 'Meant', 'records': 'Orderless', 'mini': 'Complete', 'regular': 'Complete'}
# (module, profile, bound quick, bound thorough)
PARTS = {'C35': [('ExtrasMC', 'names', 1, 2), ('ExtrasMC', 'chain', 25, 60), ('ExtrasMC', 'places', 1, 2)],
         'C31': [('BiffOldMC', 'old', 1, 2), ('BiffOldMC', 'few', 2, 3)], 'C22': [('SheetMC', 'note', 4, 5)], 'C23': [('SheetMC', 'range', 0, 0)], 'C24': [('SheetMC', 'column', 3, 4)],
         'C25': [('BiffMC', 'records', 2, 3)], 'C28': [('SheetMC', 'code', 4, 5)], 'C29': [('BiffMC', 'strings', 3, 5)],
         'C30': [('SheetMC', 'place', 4, 5)], 'C27': [('OleMC', 'mini', 180, 240), ('OleMC', 'regular', 4500, 6000)]}
CFG = {'SheetMC': 'CONSTANTS Profile="%s" Bound=%d', 'BiffMC': 'CONSTANTS Profile="%s" MaxSplit=%d',
       'BiffOldMC': 'CONSTANTS Profile="%s" MaxCells=%d', 'ExtrasMC': 'CONSTANTS Profile="%s" Bound=%d', 'OleMC': 'CONSTANTS Profile="%s" Bytes=%d'}


def agrees(e, o):
    if e['st'] == 'unspecified':
        return True
    if e['st'] == 'ok':
        return (o['st'] == 'ok' and o['names'] == e['names'] and len(o['data']) == len(e['data'])
                and all(a[0] == b[0] and a[2] == b[2] and (not a[2] or a[1] == 'mixed' or b[1] in {'num': 'fiu', 'text': 'U'}[a[1]])
                        for a, b in zip(e['data'], o['data'])))
    return o['st'] == 'err' and (e['st'] != 'ValueError' or 'ValueError' in o['exc'])


def oldopts(f):
    """The code page of BiffOldMC is 932."""
    return dict(codepage=932, codec='cp932') if 'ver' in f['x'] else {}


def files(lines, opts=None):
    n, bad = 0, []
    for v in lines:
        more = [opts or oldopts(f) for f in v['files']]
        if 'names' in v['files'][0]['x']:
            more = [ex.realize(random.Random(json.dumps(f['x'])), f['x']) for f in v['files']]
        c = sc.case('', v['files'], v['calls'], False, n, more)
        sc.observe_case(c)
        n += len(c['calls'])
        if not all(agrees(e, k['obs']) for e, k in zip(v['e'], c['calls'])):
            bad.append(c)
    return n, bad


def notes(lines):
    n, bad = 0, []
    for v in lines:
        s = sc.u(v['t'])
        got = {k: sc.note({'k': k, 's': s, 'row': 4}) for k in ('letters', 'cell', 'list')}
        want = {'letters': ['ok'] + v['letters'] if v['letters'] else ['err'],
                'cell': ['ok', 4 if v['cell'][0][0] < 0 else v['cell'][0][0], v['cell'][0][1]] if v['cell'] else ['err'],
                'list': got['list'] if v['list'] == ['skip'] else v['list']}
        n += 3
        wrong = [{'k': k, 's': cps(s), 'row': 4, 'obs': got[k]} for k in got if got[k] != want[k]]
        if wrong:
            bad.append({'k': 'notes', 'notes': wrong})
    return n, bad


def codes(lines):
    n, bad = 0, []
    for i in range(0, len(lines), 200):
        part = lines[i:i + 200]
        fmts = [[164 + k, v['t']] for k, v in enumerate(part)]
        ids = [164 + k for k in range(len(part))]
        for form in ('xlsx', 'xls'):
            if form == 'xlsx':
                cells = [{'r': [], 's': [k], 't': [], 'v': [[False, cps('40000')]], 'is': []} for k in range(len(part))]
                x = {'date1904': [], 'styles': [{'fmts': fmts, 'xfs': [[i] for i in ids]}], 'sst': [],
                     'sheets': [[cps('S'), 'rId1']], 'rels': [['rId1', 'worksheet', cps('worksheets/sheet1.xml')]],
                     'parts': [[cps('xl/worksheets/sheet1.xml'), [[[1], cells]], []]]}
            else:
                x = {'mode': 0, 'fmts': fmts, 'xfs': ids, 'sst': [], 'sheets': [[cps('S'), 0, [
                    ['RK', 0, k, k, ['i', 4 * 40000 + 2]] for k in range(len(part))]]]}
            c = sc.case('', [{'form': form, 'x': x}], [{'file': 1, 'a': ALL}], False, 0, [{}])
            sc.observe_case(c)
            o = c['calls'][0]['obs']
            n += len(part)
            if o['st'] != 'ok' or [d[2][0][0] == 'd' for d in o['data']] != [v['date'] for v in part]:
                bad.append(c)
    return n, bad


ALL = {'sheet': ['i', 0], 'header': ['F'], 'start': [], 'stop': [], 'usecols': []}


def book(n):
    """A small book of exactly n bytes."""
    recs = [['NUMBER', 0, 0, 0, ['n', False, [53], 0]], ['LABEL', 0, 1, 0, list(xw.ustr('yes'))]]
    x = {'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [], 'sheets': [[cps('S'), 0, recs]]}
    opts = dict(fonts=0, codepage=False)
    k = n - 4 - len(xw.biff(x, sc.tofloat, opts))
    assert k >= 0, k
    recs.insert(1, ['OTHER', 0x8c8, list(range(256)) * 30])
    recs[1][2] = recs[1][2][:k]
    return x, opts


def containers(lines):
    n, bad = 0, []
    ref = None
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        path = os.path.join(d, 'f.xls')
        for v in lines:
            x, opts = book(v['n'])
            data = xw.biff(x, sc.tofloat, opts)
            with open(path, 'wb') as fo:
                fo.write(xw.ole(data, v['L'], n % 3))
            o = sc.observe(path, ALL)
            if ref is None:
                with open(path, 'wb') as fo:
                    fo.write(data)
                ref = sc.observe(path, ALL)
            n += 1
            if o != ref or o['st'] != 'ok':
                c = sc.case('', [{'form': 'xls', 'x': x}], [{'file': 1, 'a': ALL, 'obs': o}], False, 0, [opts])
                c['files'][0]['ole'] = [v['L'], v['n']]
                bad.append(c)
    return n, bad


def ranges(lines, head):
    n, bad = 0, []
    for i in range(0, len(lines), 50):
        part = lines[i:i + 50]
        c = sc.case('', head['files'], [{'file': 1, 'a': v['a']} for v in part], False, i, [{}])
        sc.observe_case(c)
        n += len(part)
        if not all(agrees(v['e'], k['obs']) for v, k in zip(part, c['calls'])):
            bad.append(c)
    return n, bad


def replay(args):
    profile, lines, head = args
    if profile == 'note':
        return notes(lines)
    if profile == 'code':
        return codes(lines)
    if profile in ('mini', 'regular'):
        return containers(lines)
    if profile == 'range':
        return ranges(lines, head)
    return files(lines)


def run(ck, pool):
    for module, profile, q, t in PARTS[ck.pid]:
        bound = q if ck.quick else t
        lines, asyn, heads = [], [], []
        size = 400 if profile in ('note', 'code') else 50

        def flush():
            if lines:
                asyn.append(pool.apply_async(replay, ((profile, list(lines), heads[0] if heads else None),)))
                del lines[:]

        def online(v):
            if profile == 'range' and 'files' in v:
                heads.append(v)
                return
            lines.append(v)
            if len(lines) >= size:
                flush()
        r = tlc.run(module, 'SPECIFICATION Spec\n%s\nINVARIANT %s\n' % (CFG[module] % (profile, bound), INV[profile]),
                    workers=8, on_line=online, timeout=3000)
        flush()
        ck.tlc(r)
        n, bad = 0, []
        for a in asyn:
            k, b = a.get()
            n += k
            bad += b
        ck.traces += n
        ck.exhaustive.append('%s %s up to %d: %d states, %d readings replayed' % (module, profile, bound, r.distinct, n))
        if bad:
            before = len(ck.violations)
            sc.judge(ck, bad[:100], 'small ' + profile)
            if len(ck.violations) == before:
                raise tlc.TLCError('replay and judge disagree: %s' % json.dumps(bad[0])[:1500])
