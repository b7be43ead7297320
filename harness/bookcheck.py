"""Check C34: open workbooks - sheets on demand, by number and name, and what
the accessors of a sheet give."""
import io
import json
import mmap
import multiprocessing as mp
import os
import random
import tempfile

import sheetcheck as sc
import sheetgen as sg
import tlc
import xlwrite as xw
from common import child_limits, limit, Timeout
from tokens import cps


def mro(e):
    return [c.__name__ for c in type(e).__mro__] + [str(e)[:100]]


def cell(c):
    return [int(c.ctype), sc.val(c.value)]


def spent(x):
    """The items of a sequence given out, which is then altered: it is the caller's."""
    out = list(x)
    x.reverse()
    if len(x):
        x[0] = x[-1]
        x.pop()
    return out


def accessor(sh, what, a, style):
    def rng(f):
        lo, hi = a[1], a[2]
        if hi == 99999:
            return f(a[0]) if lo == 99999 else f(a[0], lo)
        return f(a[0], 0 if lo == 99999 else lo, hi)
    if what == 'size':
        return [sh.nrows, sh.ncols, sh.number]
    if what == 'rows':
        return [[cell(c) for c in row] for row in (sh.get_rows() if style % 2 else sh)]
    if what == 'cell':
        told, exc = [], None
        for f in (lambda: cell(sh.cell(*a)), lambda: cell(sh[a[0], a[1]]),
                  lambda: [sh.cell_type(*a), sc.val(sh.cell_value(*a))]):
            try:
                told.append(list(f()))
            except IndexError as e:
                told.append('error')
                exc = e
        if any(t != told[0] for t in told):
            return []       # they tell different things
        if exc:
            raise exc
        return told[0]
    if what == 'row':
        return [cell(c) for c in spent(sh.row(a[0]) if style % 2 else sh[a[0]])]
    if what == 'rowlen':
        return sh.row_len(a[0])
    f = {'rowslice': sh.row_slice, 'rowtypes': sh.row_types, 'rowvalues': sh.row_values, 'colslice': sh.col_slice if style % 2 else sh.col,
         'coltypes': sh.col_types, 'colvalues': sh.col_values}[what]
    x = spent(rng(f))
    return [cell(c) for c in x] if 'slice' in what else [int(t) for t in x] if 'types' in what else [sc.val(v) for v in x]


def opened(path, src, kw):
    from channelpack import xlrd
    log = io.StringIO()
    if src == 'name':
        return xlrd.open_workbook(path, logfile=log, **kw)
    if src == 'nommap':
        return xlrd.open_workbook(path, logfile=log, use_mmap=False, **kw)
    with open(path, 'rb') as fo:
        if src == 'bytes':
            return xlrd.open_workbook(file_contents=fo.read(), logfile=log, **kw)
        return xlrd.open_workbook(file_contents=mmap.mmap(fo.fileno(), 0, access=mmap.ACCESS_READ), logfile=log, **kw)


class Session(object):
    def __init__(self, book, style):
        self.book, self.objs, self.style, self.steps = book, [], style, []

    def number(self, sh):
        for i, o in enumerate(self.objs):
            if o is sh:
                return i + 1
        self.objs.append(sh)
        return len(self.objs)

    def do(self, ev):
        b, k = self.book, ev[0]
        self.style += 1
        if k in ('index', 'item'):
            return self.number(b.sheet_by_index(ev[1]) if k == 'index' else b[ev[1]])
        if k in ('name', 'itemname'):
            n = sc.u(ev[1])
            return self.number(b.sheet_by_name(n) if k == 'name' else b[n])
        if k == 'sheets':
            return [self.number(s) for s in spent(b.sheets())]
        if k == 'iter':
            return [self.number(s) for s in list(b)]
        if k == 'names':
            return [cps(n) for n in spent(b.sheet_names())]
        if k == 'nsheets':
            return b.nsheets
        if k in ('loaded', 'loadedname'):
            return b.sheet_loaded(ev[1] if k == 'loaded' else sc.u(ev[1]))
        if k in ('unload', 'unloadname'):
            return b.unload_sheet(ev[1] if k == 'unload' else sc.u(ev[1])) or 0
        if k == 'release':
            if self.style % 2:
                b.release_resources()
            else:
                with b:
                    pass
            return 0
        return accessor(self.objs[ev[1] - 1], ev[2], ev[3], self.style)

    def run(self, ev):
        try:
            with limit(20):
                res = ['ok', self.do(ev)]
        except Timeout:
            res = ['timeout', []]
        except Exception as e:
            res = ['err', mro(e)]
        self.steps.append([ev, res])
        return res


SEES = ['size', 'rows', 'cell', 'cell', 'row', 'rowlen', 'rowslice', 'rowtypes', 'rowvalues', 'colslice', 'coltypes', 'colvalues']


def see(rng, s, ob, sizes):
    nr, nc = sizes[ob]
    what = rng.choice(SEES)
    if what in ('size', 'rows'):
        return ['see', ob, what, []]

    def ix(n):
        return rng.choice([0, n - 1, -1, -n, rng.randrange(n), -rng.randrange(n) - 1, n, -n - 1] if rng.random() < .5 else [rng.randrange(n)])

    def bound(n):
        return rng.choice([99999, 99999, 0, n, n + 1, n + 7, -1, -n, -n - 1, -n - 5, rng.randrange(n), -rng.randrange(n) - 1])
    a = [ix(nc if what.startswith('col') else nr)]
    if what == 'cell':
        a.append(ix(nc))
    elif what.startswith('row') and what not in ('row', 'rowlen') or what.startswith('col'):
        a += [bound(nr if what.startswith('col') else nc) for i in range(2)]
    return ['see', ob, what, a]


def book(rng, kind, small=False):
    """[file, opts, names or None]"""
    if kind == 'old':
        ver = rng.choice([v for v in sg.VERSIONS if v < 50]) if not small else rng.choice([21, 30, 40])
        page = rng.choice(sg.PAGES)
        f, o = sg.to_old(rng, sg.oldworkbook(rng, ver, page), ver, page)
    elif kind == 'five':
        ver = rng.choice([50, 70])
        page = rng.choice(sg.PAGES)
        f, o = sg.to_old(rng, sg.oldworkbook(rng, ver, page), ver, page)
        if rng.random() < .5:
            o['ole'] = dict(seed=rng.randrange(10 ** 6), place='straight', extra=1, name='Book')
    else:
        wb = sg.workbook(rng, nsheets=rng.choice([1, 2, 3, 4]) if not small else small, maxcells=12 if small else 60)
        f, o = sc.encode(rng, wb, kind)
    f['ole'] = []
    return f, o


def mergedrange(rng):
    r, c = rng.randint(0, 9), rng.randint(0, 9)
    return [r, r + rng.randint(0, 5), c, c + rng.randint(0, 5)]


def histcase(args):
    """Histories evs of the model on one book."""
    seed, j, n, evs = args
    rng = random.Random('C34/%s/mc%s' % (seed, j))
    kind = rng.choice(['xls', 'xls', 'five', 'xlsx'])
    out = []
    while True:
        f, o = book(rng, kind, small=n)
        if kind == 'five' and len([s for s in f['x']['sheets'] if s[1] == 0]) != n:
            continue
        break
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        path = sc.write(f, o, d, 0)
        f['ole'] = []
        for h in evs:
            demand = h['demand'] and kind != 'xlsx'
            src = rng.choice(['name', 'nommap', 'bytes', 'map'])
            try:
                s = Session(opened(path, src, dict(on_demand=h['demand'])), rng.randrange(6))
                names = [cps(x) for x in s.book.sheet_names()]
                if len(names) != n:
                    raise IndexError('%d sheets' % len(names))
            except Exception as e:
                out.append({'f': f, 'demand': False, 'ragged': False, 'fmt': False, 'named': True, 'names': [],
                            'steps': [[['nsheets'], ['err', mro(e)]]], 'opts': o, 'on_demand': h['demand']})
                continue
            for ev in h['evs']:
                if ev[0] == 'name':
                    ev = [rng.choice(['name', 'itemname']), names[ev[1] - 1]]
                elif ev[0] == 'index':
                    ev = [rng.choice(['index', 'item']), ev[1] - 1]
                elif ev[0] == 'unload':
                    ev = ['unload', ev[1] - 1] if rng.random() < .5 else ['unloadname', names[ev[1] - 1]]
                s.run(ev)
                s.run(['loaded', rng.randrange(n)])
            for ob in range(1, len(s.objs) + 1):
                s.run(['see', ob, 'rows', []])
            out.append({'f': f, 'demand': demand, 'ragged': False, 'fmt': False, 'named': True, 'names': [], 'steps': s.steps, 'opts': o, 'on_demand': h['demand']})
    return out


def walkcase(args):
    seed, j = args
    rng = random.Random('C34/%s/%s' % (seed, j))
    kind = rng.choice(['xls', 'xls', 'xls', 'five', 'five', 'xlsx', 'xlsx', 'old'])
    f, o = book(rng, kind)
    od, ragged = rng.random() < .6, rng.random() < .25
    src = rng.choice(['name', 'nommap', 'bytes', 'map'])
    fmt = kind != 'xlsx' and rng.random() < .3
    if kind == 'xls':
        for s in f['x']['sheets']:
            if s[1] == 0 and rng.random() < .2:
                s[2].append(['MERGED', [mergedrange(rng) for i in range(rng.randint(1, 3))]])
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        path = sc.write(f, o, d, 0)
        f['ole'] = []
        try:
            b = opened(path, src, dict(on_demand=od, ragged_rows=ragged, formatting_info=fmt))
        except Exception as e:
            return {'f': f, 'demand': False, 'ragged': ragged, 'fmt': fmt, 'named': True, 'names': [], 'steps': [[['nsheets'], ['err', mro(e)]]], 'opts': o,
                    'on_demand': od}
        s = Session(b, rng.randrange(6))
        ver = f['x'].get('ver', 80) if kind != 'xlsx' else 80
        shown = [cps(n) for n in b.sheet_names()]
        ns = max(1, len(shown))
        sizes = {}
        for i in range(rng.choice([6, 12, 25])):
            r = rng.random()
            n = rng.randrange(ns) if rng.random() < .95 else ns + rng.randrange(3)
            t = (shown[rng.randrange(len(shown))] if shown else [65]) if rng.random() < .9 else rng.choice([cps('nope'), [], cps('SHEET1'), cps('0')])
            if r < .3:
                ev = rng.choice([['index', n], ['item', n], ['name', t], ['itemname', t]])
            elif r < .36:
                ev = [rng.choice(['sheets', 'iter'])]
            elif r < .4:
                ev = [rng.choice(['names', 'nsheets'])]
            elif r < .48:
                ev = rng.choice([['loaded', n], ['loadedname', t]])
            elif r < .56:
                ev = rng.choice([['unload', n], ['unloadname', t]])
            elif r < .58:
                ev = ['release']
            elif s.objs:
                ob = rng.randrange(len(s.objs)) + 1
                if ob not in sizes:
                    res = s.run(['see', ob, 'size', []])
                    sizes[ob] = res[1][:2] if res[0] == 'ok' and res[1][0] and res[1][1] else None
                if not sizes[ob] or ragged:
                    ev = ['see', ob, 'rows', []]
                else:
                    ev = see(rng, s, ob, sizes)
            else:
                continue
            s.run(ev)
        for ob in range(1, len(s.objs) + 1):
            s.run(['see', ob, 'rows', []])
        if not s.steps:
            s.run(['nsheets'])
    return {'f': f, 'demand': od and kind != 'xlsx' and ver >= 50, 'ragged': ragged, 'fmt': fmt, 'named': ver > 40, 'names': shown if ver <= 40 else [],
            'steps': s.steps, 'opts': o, 'on_demand': od}


def judge(ck, cases, label, chunk=150):
    jobs = []
    for i in range(0, len(cases), chunk):
        def job(part=cases[i:i + chunk]):
            return part, tlc.run('BookTrace', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n',
                                 files={'c.json': json.dumps([{k: v for k, v in c.items() if k != 'opts'} for c in part])}, workers=2)
        jobs.append(job)
    for part, r in tlc.shards(jobs, 4):
        ck.tlc(r)
        want = sum(len(c['steps']) + 1 for c in part)
        if r.distinct != want:
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, want, r.log[-3000:]))
        first = {}
        for v in r.lines:
            first[v['case']] = min(v['step'], first.get(v['case'], 10 ** 9))
        for c, k in sorted(first.items()):
            c = part[c - 1]
            ck.violation('%s: %s file, on_demand=%s ragged_rows=%s formatting_info=%s, after %s: %s' % (
                label, c['f']['form'], c['on_demand'], c['ragged'], c['fmt'], [s[0] for s in c['steps'][:k - 1] if s[0][0] != 'see'][-8:],
                json.dumps(c['steps'][k - 1])[:300]), {'case': c, 'step': k})
    ck.traces += len(cases)


CFG = ('SPECIFICATION Spec\nCONSTANTS N=%d Depth=%d MaxSheets=9\nINVARIANTS OneEach CurRight\nPROPERTIES ObjsKeptP FrozenP StayP\n')


def run(ck):
    with mp.Pool(8, initializer=child_limits) as pool:
        for n, depth, share in ([(2, 4, 6), (3, 3, 1)] if ck.quick else [(2, 4, 1), (3, 4, 1), (2, 5, 4)]):
            lines = []
            r = tlc.run('BookMC', CFG % (n, depth), workers=8, on_line=lines.append, timeout=3000)
            ck.tlc(r)
            lines.sort(key=json.dumps)
            lines = lines[::share]
            jobs = [(ck.seed, '%d/%d/%d' % (n, depth, i), n, lines[i:i + 10]) for i in range(0, len(lines), 10)]
            cases = [c for cs in pool.imap(histcase, jobs) for c in cs]
            judge(ck, cases, 'model %d/%d' % (n, depth), 400)
            ck.exhaustive.append('BookMC %d sheets depth %d: %d states, %d histories replayed' % (n, depth, r.distinct, len(cases)))
        n = 1200 if ck.quick else 15000
        cases = pool.map(walkcase, [(ck.seed, j) for j in range(n)], chunksize=20)
        judge(ck, cases, 'C34')
        ck.cases += len(cases)
    ck.sample(json.dumps([s[0] for s in cases[0]['steps']])[:400])
    ck.sample(json.dumps([s[0] for s in cases[-1]['steps']])[:400])
    ck.assumptions.append('the files are written by the generators of this harness after the published formats; '
                          'struct, zipfile, ElementTree and numpy are trusted')
