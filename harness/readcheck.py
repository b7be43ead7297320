"""Check C33: readings over time - files, packs made earlier, other readers."""
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import sys
import tempfile
import threading
import zipfile

import dbfcheck
import sheetcheck as sc
import sheetgen as sg
import textdrive as td
import textworld as tw
import tlc
import xlwrite as xw
from common import child_limits


# --- contents and calls ------------------------------------------------------

def zipped(*names):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for n in names:
            z.writestr(zipfile.ZipInfo(n), '<a/>')
    return b.getvalue()


TEXTS = ['a;b;c\n1;2;x\n3;4;y\n', '1 2 3\n4 5 6\n', '1,5;2,5\n3,5;4\n', 'a,b\n1,2\n3,4\n5,6\n', 'x y\n1.5 2,5\n', '1;2\n3;x\n',
         'prose only, no data\n', '', '\n\n', 'h\n\n1\t2\n3\t4\n', '1;2;3\n4;5\n6;7;8;9\n', ' a ; b \n 1 ; zz \n', '1,5 2\n3 4,25\n']


def contents(seed):
    """Contents of files by family."""
    rng = random.Random('C33/%s' % seed)
    text = [t.encode() for t in TEXTS]
    for i in range(8):
        text.append(bytes(td.layout_case(rng, 'C14', 'numeric', failing=i == 1)['bytes']))
    for i in range(4):
        text.append(bytes(td.table_case(rng, 'C18')['bytes']))
    dbf = [b'', b'garbage']
    for i in range(8):
        fields = [('A', 'N', 5, rng.choice([0, 2])), ('B', 'C', 3, 0)] + dbfcheck.rnd_fields(rng)[:2]
        recs = [(b'*' if rng.random() < .2 else b' ', [dbfcheck.rnd_cell(rng, f) for f in fields]) for k in range(rng.choice([1, 2, 3]))]
        dbf.append(dbfcheck.build(fields, recs, extra=b'', eof=True))
    dbf.append(dbf[-1][:-4])
    book = [b'', b'garbage in a file', zipped('xl/workbook.bin'), zipped('content.xml'), zipped('x'), zipped('xl/workbook.xml')]
    for i in range(5):
        wb = sg.workbook(rng, maxcells=20)
        f, o = sc.encode(rng, wb, 'xlsx')
        book.append(xw.xlsx(f['x'], o))
        f = sg.to_biff(rng, wb)
        data = xw.biff(f['x'], sc.tofloat, {})
        book.append(data if i == 0 else xw.ole(data, xw.ole_layout(rng, len(data), place=rng.choice(['straight', 'mixed']), extra=1), 0))
    for ver in (21, 40, 50, 70):
        page = rng.choice(sg.PAGES)
        f, o = sg.to_old(rng, sg.oldworkbook(rng, ver, page), ver, page)
        book.append(xw.biff(f['x'], sc.tofloat, o))
    # the same book but for one byte of one number, and one cut short
    xs = [[['NUMBER', r, c, 0, ['n', False, [49 + r + c + k], 0]] for r in range(3) for c in range(2)] for k in (0, 1)]
    for recs in xs:
        x = {'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [], 'sheets': [[[83], 0, recs]]}
        data = xw.biff(x, sc.tofloat, {})
        book.append(xw.ole(data, xw.ole_layout(random.Random(1), len(data)), 0))
    book.append(book[-1][:1000])
    cont = {'text': text, 'dbf': dbf, 'book': book}
    groups = []
    for fam, files in kin():
        groups.append([(fam, len(cont[fam]) + i) for i in range(len(files))])
        cont[fam].extend(files)
    return cont, groups


def kin():
    """Groups of contents that differ in little: what one leaves behind shows in another."""
    yield 'text', [b'a;b;c\n1;2;x\n3;4;y\n', b'a;b;d\n1;2;x\n3;4;y\n', b'a;b;c\n1;2;x\n3;5;y\n']
    yield 'text', [b'a b\n1 2\n3 4\n', b'a b\n1 2\n3,4\n', b'a;b\n1,5;2\n3;4\n', b'a;b\n1.5;2\n3;4\n', b'a;b;c\n1.5;2;3\n3;4;5\n']
    yield 'text', ['å ö\n1 2\n3 4\n'.encode(c) for c in ('utf-8', 'latin-1', 'utf-16')] + [b'\xff\xfe 1\n2 3\n', b'1 2\n3 4\n' * 3000 + b'\xff 5\n']
    f = [('A', 'N', 5, 0), ('B', 'C', 3, 0)]
    recs = [(b' ', [b'    1', b'abc']), (b' ', [b'    2', b'def'])]
    yield 'dbf', [dbfcheck.build(f, recs, extra=b'', eof=True), dbfcheck.build([('A', 'N', 5, 2), ('B', 'C', 3, 0)], recs, extra=b'', eof=True),
                  dbfcheck.build(f, [(b'*', recs[0][1]), recs[1]], extra=b'', eof=True),
                  dbfcheck.build([('B', 'N', 5, 0), ('A', 'C', 3, 0)], recs, extra=b'', eof=True),
                  dbfcheck.build(f, [(b' ', [b'    1', b'abd']), recs[1]], extra=b'', eof=True)]

    def b8(mode, fmts, xfs, n=40000., old=None, codepage=1252):
        tok = ['n', False, [52], 4]
        rows = [['NUMBER', r, 0, r % len(xfs), tok] for r in range(2)]
        x = {'mode': mode, 'fmts': [[k, list(t.encode())] for k, t in fmts], 'xfs': xfs, 'sst': [], 'sheets': [[[83], 0, rows]]}
        return xw.biff(dict(x, ver=old or 80), lambda t: n, {'codepage': codepage, 'codec': 'latin-1'} if old else {})
    one = [b8(0, [], [14]), b8(0, [(14, '0.00')], [14]), b8(1, [], [14]), b8(0, [(14, 'yyyy')], [14]), b8(0, [], [1])]
    two = [b8(0, [(164, 'yyyy')], [164, 0]), b8(0, [(164, '0000')], [164, 0]), b8(0, [(164, 'yyyy')], [0, 164]), b8(0, [], [164, 0]),
           b8(0, [(164, 'yyyy')], [164, 0], 40001.)]
    yield 'book', one
    yield 'book', two
    yield 'book', [xw.ole(b, xw.ole_layout(random.Random(1), len(b)), 0) for b in two]
    yield 'book', [one[0], one[1], b8(0, [(14, '0.00')], [14], old=50), b8(0, [], [14], old=70), b8(1, [], [14], old=50)]

    def lab(page, codec, text):
        recs = [['LABEL', r, 0, 0, list(xw.bytestr(text, codec, 2))] for r in range(2)]
        return xw.biff({'ver': 50, 'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [], 'sheets': [[[83], 0, recs]]}, None, {'codepage': page, 'codec': codec})
    yield 'book', [lab(1252, 'cp1252', 'åb'), lab(1251, 'cp1251', '\u0436b'), lab(437, 'cp437', 'åb'), lab(0, 'latin-1', 'åb')]

    def xs(cells, styles='', sst='', pr=''):
        ns = 'xmlns="%s" xmlns:r="%s"' % (xw.NS, xw.REL)
        parts = [('xl/workbook.xml', '<workbook %s>%s<sheets><sheet name="S" sheetId="1" r:id="r1"/></sheets></workbook>' % (ns, pr)),
                 ('xl/_rels/workbook.xml.rels', '<Relationships xmlns="%s"><Relationship Id="r1" Type="%s/worksheet" '
                  'Target="worksheets/sheet1.xml"/></Relationships>' % (xw.PKG, xw.REL)),
                 ('xl/worksheets/sheet1.xml', '<worksheet %s><sheetData>%s</sheetData></worksheet>' % (ns, cells))]
        parts += [('xl/styles.xml', '<styleSheet %s>%s</styleSheet>' % (ns, styles))] if styles else []
        parts += [('xl/sharedStrings.xml', '<sst %s>%s</sst>' % (ns, sst))] if sst else []
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            for n, t in parts:
                z.writestr(zipfile.ZipInfo(n), t)
        return b.getvalue()
    row = '<row r="%d"><c r="A%d" s="0"><v>%s</v></c></row>'
    day = '<numFmts><numFmt numFmtId="%d" formatCode="%s"/></numFmts><cellXfs><xf numFmtId="%d"/></cellXfs>'
    cells = row % (1, 1, 40000) + row % (2, 2, 5)
    yield 'book', [xs(cells, day % (170, 'yyyy', 170)), xs(cells, day % (171, 'yyyy', 170)), xs(cells, day % (170, '0000', 170)),
                   xs(cells), xs(row % (1, 1, 40000) + row % (2, 2, 6), day % (170, 'yyyy', 170)),
                   xs(cells, day % (170, 'yyyy', 170), pr='<workbookPr date1904="1"/>'), xs(cells, day % (14, '0000', 14))]
    cells = '<row r="1"><c r="A1" t="s"><v>0</v></c><c r="B1" t="s"><v>1</v></c></row><row r="2"><c r="A2" t="s"><v>1</v></c></row>'
    yield 'book', [xs(cells, sst='<si><t>a</t></si><si><t>b</t></si>'), xs(cells, sst='<si><t>c</t></si><si><t>b</t></si>'),
                   xs(cells, sst='<si><t>a</t></si>'), xs(cells, sst='<si><r><t>a</t></r><rPh><t>x</t></rPh></si><si><t>b</t></si>')]


def stream(mode):
    def open_(path):
        with tw.REAL_OPEN(path, 'rb') as fo:
            b = fo.read()
        return io.BytesIO(b) if mode == 'b' else io.StringIO(b.decode('utf-8', 'replace'))
    return open_


def call(fun, src, kw):
    return fun, src, kw


def calls():
    import channelpack as cp
    T, L, D, S = cp.textpack, cp.lazy_textpack, cp.dbfpack, cp.sheetpack
    return {'text': [(T, None, {'encoding': 'utf-8'}), (T, None, {'delimiter': ';', 'encoding': 'utf-8'}),
                     (T, None, {'delimiter': ';', 'skiprows': 1, 'hasnames': True, 'encoding': 'utf-8'}),
                     (T, None, {'delimiter': ',', 'skiprows': 1, 'usecols': [1, 0], 'encoding': 'utf-8'}),
                     (T, None, {'names': {1: 'one', 0: 'nil'}, 'encoding': 'utf-8'}),
                     (T, None, {'delimiter': ';', 'converters': {0: len}, 'stripstrings': True, 'encoding': 'utf-8'}),
                     (T, 's', {'delimiter': ';', 'usecols': (2,)}), (T, 'b', {'delimiter': b';'}),
                     (T, 'b', {'delimiter': b';', 'encoding': 'utf-8', 'skiprows': 1}), (T, None, {'debug': True, 'encoding': 'utf-8'}),
                     (L, None, {'encoding': 'utf-8'}), (L, 's', {}), (L, 'b', {}), (L, None, {'parselines': 2, 'encoding': 'utf-8'}),
                     (L, None, {'usecols': [1, 0], 'encoding': 'utf-8'}), (L, None, {'encoding': 'latin-1'}), (L, 'b', {'encoding': 'utf-8'}),
                     (L, None, {'converters': {0: float}, 'encoding': 'utf-8'}), (T, None, {'skiprows': 1, 'hasnames': True, 'encoding': 'latin-1'})],
            'dbf': [(D, None, {}), (D, None, {'names': ['B']}), (D, None, {'names': ['B', 'A']}), (D, 'b', {}), (D, 'b', {'names': ('A',)})],
            'book': [(S, None, {}), (S, None, {'header': False}), (S, None, {'sheet': 1}), (S, None, {'sheet': 'nope'}),
                     (S, None, {'header': False, 'usecols': 'A:B'}), (S, None, {'usecols': [1, 0]}), (S, None, {'startcell': 'A2'}),
                     (S, None, {'startcell': 'B1', 'stopcell': 'B2', 'header': False}), (S, None, {'startcell': '1'}),
                     (S, None, {'header': 'A1', 'startcell': 'A2'})]}


# calls that most contents allow
PLAIN = {'text': [0, 1, 2, 10, 11, 12], 'dbf': [0, 1, 2, 3], 'book': [0, 1]}


def digest(p, path=None):
    """What there is to see of a pack."""
    import numpy as np
    out = [[k, p.data[k].dtype.kind if isinstance(p.data[k], np.ndarray) else '?', [sc.val(x) for x in p.data[k]]] for k in p.data]
    out = [out, [[k, sc.val(p.names[k])] for k in p.names], [bool(x) for x in p.mask], p.parts(), p.nof, p.mindur, p.FALLBACK_PREFIX,
           [p.fn if p.fn != path else '<path>'], len(p.filenames)]
    return hashlib.md5(json.dumps(out).encode()).hexdigest()


def do(one, path):
    """Make one call: (pack, observation, arguments unchanged, files open right after)."""
    fun, src, kw = one
    given = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    try:
        p = fun(path if src is None else stream(src)(path), **given)
    except Exception as e:
        # while the error is at hand, and with it what the frames hold
        return None, '-' + type(e).__name__, given == kw, nfds()
    n = nfds()
    return p, digest(p, path), given == kw, n


def reference(args):
    """One reading in a process that has done nothing else."""
    data, fam, k = args
    sys.stdout = io.StringIO()
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        path = os.path.join(d, 'f')
        with tw.REAL_OPEN(path, 'wb') as fo:
            fo.write(data)
        return do(calls()[fam][k], path)[1]


# --- histories ---------------------------------------------------------------

def alter(p, how):
    import numpy as np
    k = min(p.data) if p.data else None
    if how == 0 and k is not None:
        a = p.data[k]
        if a.flags.writeable and a.dtype.kind in 'fiu':
            a[:] = 77
        elif a.flags.writeable and a.dtype.kind == 'U':
            a[:] = 'Q'
    elif how == 1:
        p.names[0] = 'changed'
        p.data[0] = np.arange(len(p.mask)) if len(p.mask) else np.arange(2)
    elif how == 2 and k is not None:
        p.mask = np.zeros(len(p.mask), dtype=bool)
        p.mindur = 2
    elif how == 3:
        p.data.clear()
        p.names.clear()
    else:
        p.nof = 'nan'
        p.fn = 'other'
        p.FALLBACK_PREFIX = 'zz'
        p.filenames.append('more')


def nfds():
    return len(os.listdir('/proc/self/fd'))


class World(object):
    """Slots, packs and readers of one history."""
    def __init__(self, d, pool, kinds, one):
        self.paths = [os.path.join(d, 'slot%d.dat' % s) for s in (1, 2)]
        self.pool, self.kinds, self.one = pool, kinds, one
        self.packs, self.threads, self.steps = [], {}, []
        for s in (0, 1):
            self.write(s, 0)
        self.fds = nfds()

    def write(self, s, c):
        # in place and with the times of before: nothing but the content tells
        with tw.REAL_OPEN(self.paths[s], 'wb') as fo:
            fo.write(self.pool[c])
        os.utime(self.paths[s], (10 ** 9, 10 ** 9))

    def found(self):
        out = []
        for p in self.paths:
            with tw.REAL_OPEN(p, 'rb') as fo:
                b = fo.read()
            ok = b in self.pool and os.stat(p).st_mtime == 10 ** 9
            out.append(self.pool.index(b) + 1 if ok else 0)
        return out

    def run(self, ev, how):
        st = {'ev': ev, 'res': '', 'args': True}
        if ev[0] == 'write':
            self.write(ev[1] - 1, ev[2] - 1)
        elif ev[0] == 'read':
            self.ended(st, do(self.kinds[ev[2] - 1], self.paths[ev[1] - 1]), ev[1])
        elif ev[0] == 'begin':
            res = []
            t = threading.Thread(target=lambda: res.append(do(self.kinds[ev[3] - 1], self.paths[ev[2] - 1])))
            self.threads[ev[1]] = (t, res, ev[2])
            t.start()
        elif ev[0] == 'end':
            t, res, s = self.threads.pop(ev[1])
            t.join(60)
            self.ended(st, res[0] if res else (None, '-hang', True, self.fds), s)
        elif ev[0] == 'alter':
            p, path, seen = self.packs[ev[1] - 1]
            alter(p, how)
        self.state(st)

    def note(self, ev, r=None, s=0):
        st = {'ev': ev, 'res': '', 'args': True}
        if r:
            self.ended(st, r, s)
        self.state(st)

    def state(self, st):
        ev = st['ev']
        st['disk'] = self.found()
        st['packs'] = [digest(p, path) for p, path, seen in self.packs]
        n = nfds()
        if ev[0] == 'read' and not self.threads:
            n = max(n, st.pop('after'), key=lambda m: abs(m - self.fds))
        st.pop('after', None)
        st['open'] = n - self.fds if not self.threads else 0
        self.steps.append(st)

    def ended(self, st, r, s):
        p, st['res'], st['args'], st['after'] = r
        if p is not None:
            self.packs.append((p, self.paths[s - 1], st['res']))

    def close(self):
        for t, res, s in self.threads.values():
            t.join(60)


def distinct(pool):
    return len({bytes(b) for b in pool}) == len(pool)


def setting(rng, cont, groups, group=None):
    """Contents and calls of a history: [(family, content)], [(family, call)]."""
    ks = calls()
    if group is not None and group % 3:
        cs = rng.sample(groups[(group - group // 3) % len(groups)], 3)
        return cs, [(f, rng.choice(PLAIN[f]) if rng.random() < .7 else rng.randrange(len(ks[f]))) for f, j in cs[:2]]
    fam = rng.choice(['text', 'text', 'dbf', 'book', 'book', 'book'])
    while True:
        if rng.random() < .5:
            cs = rng.choice(groups)
            cs = rng.sample(cs, 3)
            break
        cs = [(fam if rng.random() < .9 else rng.choice(['text', 'dbf', 'book'])) for i in range(3)]
        cs = [(f, rng.randrange(len(cont[f]))) for f in cs]
        if distinct([cont[f][j] for f, j in cs]):
            break
    fs = [f for f, j in cs]
    kk = [(f, rng.randrange(len(ks[f]))) for f in [rng.choice(fs), rng.choice(fs)]]
    return cs, kk


def perform(args):
    """Run histories one after the other in this process."""
    seed, group, hists = args
    sys.stdout = io.StringIO()
    sys.setswitchinterval(1e-5)
    (cont, groups), ks = contents(seed), calls()
    rng = random.Random('C33/%s/%s' % (seed, group))
    out = []
    for hist in hists:
        cs, kk = setting(rng, cont, groups)
        with tempfile.TemporaryDirectory(prefix='cp') as d:
            w = World(d, [cont[f][j] for f, j in cs], [ks[f][j] for f, j in kk], None)
            for ev in (hist if hist is not None else walk(rng)):
                if ev[0] == 'alter' and ev[1] > len(w.packs):
                    if not w.packs:
                        continue
                    ev = ['alter', rng.randint(1, len(w.packs))]
                w.run(list(ev), rng.randrange(5))
            w.close()
        out.append({'cs': cs, 'kk': kk, 'slots': [1, 1], 'steps': w.steps})
    sys.stdout = sys.__stdout__
    return out


def walk(rng):
    """A longer history."""
    busy, evs = {}, []
    disk = [1, 1]
    for i in range(rng.choice([12, 25, 40])):
        r = rng.random()
        idle = [t for t in (1, 2, 3) if t not in busy]
        free = [s for s in (1, 2) if s not in busy.values()]
        if r < .2 and free:
            s = rng.choice(free)
            disk[s - 1] = rng.randint(1, 3)
            evs.append(['write', s, disk[s - 1]])
        elif r < .5:
            evs.append(['read', rng.randint(1, 2), rng.randint(1, 2)])
        elif r < .7 and idle:
            busy[idle[0]] = rng.randint(1, 2)
            evs.append(['begin', idle[0], busy[idle[0]], rng.randint(1, 2)])
        elif r < .85 and busy:
            t = rng.choice(sorted(busy))
            del busy[t]
            evs.append(['end', t])
        else:
            evs.append(['alter', rng.randint(1, 6)])
    return evs + [['end', t] for t in sorted(busy)]


# --- schedules ---------------------------------------------------------------

def traced(fun, at):
    """Call fun(); at(key) at every line of channelpack it comes to."""
    import channelpack
    root = os.path.dirname(os.path.abspath(channelpack.__file__))

    def line(frame, event, arg):
        if event == 'line':
            at((frame.f_code.co_filename, frame.f_lineno))
        return line
    sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(root) else None)
    try:
        return fun()
    finally:
        sys.settrace(None)


def schedules(args):
    """One reading stops at a line while another one is made from beginning to end,
    for the first and the last time it comes to each line."""
    seed, group, most = args
    sys.stdout = io.StringIO()
    (cont, groups), ks = contents(seed), calls()
    rng = random.Random('C33/%s/s%s' % (seed, group))
    cs, kk = setting(rng, cont, groups, group)
    pool, kinds = [cont[f][j] for f, j in cs], [ks[f][j] for f, j in kk]
    out, tried, slow = {}, 0, 0
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        w = World(d, pool, kinds, None)
        w.write(1, 1)
        seen = []
        traced(lambda: do(kinds[0], w.paths[0]), seen.append)
        first, last = {}, {}
        for i, key in enumerate(seen):
            first.setdefault(key, i)
            last[key] = i
        points = sorted(set(first.values()) | set(last.values()))
        if len(points) > most:
            points = sorted(rng.sample(points, most))
        for stop in points:
            w.steps, w.packs, w.threads = [], [], {}
            w.write(1, 0)
            w.run(['write', 2, 2], 0)
            w.threads[1] = None
            w.note(['begin', 1, 1, 1])
            count = [0]

            def at(key):
                count[0] += 1
                if count[0] == stop + 1:
                    w.run(['begin', 2, 2, 2], 0)
                    w.threads[2][0].join(.3)
                    if not w.threads[2][0].is_alive():
                        w.run(['end', 2], 0)
            r = traced(lambda: do(kinds[0], w.paths[0]), at)
            del w.threads[1]
            w.note(['end', 1], r, 1)
            if 2 in w.threads:
                slow += 1
                w.run(['end', 2], 0)
            tried += 1
            h = {'cs': cs, 'kk': kk, 'slots': [1, 1], 'steps': w.steps}
            out.setdefault(json.dumps(h), [h, seen[stop]])
            if slow > 5:
                break
    sys.stdout = sys.__stdout__
    return tried, [dict(h, at='%s:%d' % (os.path.basename(key[0]), key[1])) for h, key in out.values()]


# --- check -------------------------------------------------------------------

def judge(ck, hists, table, label, chunk=1500):
    ids, errs = {}, {}

    def num(x):
        if x.startswith('-'):
            return -errs.setdefault(x, len(errs) + 1)
        return ids.setdefault(x, len(ids) + 1)
    ci, ki = {}, {}
    for c, k in table:
        ci.setdefault(c, len(ci) + 1)
        ki.setdefault(k, len(ki) + 1)

    def step(h, s):
        ev = list(s['ev'])
        if ev[0] == 'write':
            ev[2] = ci[h['cs'][ev[2] - 1]]
        elif ev[0] in ('read', 'begin'):
            ev[-1] = ki[h['kk'][ev[-1] - 1]]
        return dict(s, ev=ev, res=num(s['res']), packs=[num(p) for p in s['packs']],
                    disk=[ci[h['cs'][c - 1]] if c else 0 for c in s['disk']])
    for i in range(0, len(hists), chunk):
        part = hists[i:i + chunk]
        js = [{'slots': [ci[h['cs'][c - 1]] for c in h['slots']], 'steps': [step(h, s) for s in h['steps']]} for h in part]
        r = tlc.run('ReadersTrace', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n',
                    files={'c.json': json.dumps({'meaning': [[num(table[c, k]) for k in ki] for c in ci], 'hists': js})}, workers=8)
        ck.tlc(r)
        want = sum(len(h['steps']) + 1 for h in part)
        if r.distinct != want:
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, want, r.log[-3000:]))
        first = {}
        for v in r.lines:
            first[v['h']] = min(v['i'], first.get(v['h'], 10 ** 9))
        for h, k in sorted(first.items()):
            c = part[h - 1]
            ck.violation('%s: step %d %s of contents %s and calls %s: %s' % (
                label, k, c['steps'][k - 1]['ev'], c['cs'], c['kk'],
                {x: c['steps'][k - 1][x] for x in ('res', 'disk', 'open', 'args')}), {'history': c, 'failing': k, 'label': label})
    ck.traces += len(hists)


CFG = ('SPECIFICATION Spec\nCONSTANTS Depth=%d Slots={1,2} Contents=%s Calls={1,2} Threads={1}\nMeaningOf <- M\n'
       'INVARIANT NoneOpen\nPROPERTIES KeptP ReadOnlyP\n')


def run(ck):
    (cont, groups), ks = contents(ck.seed), calls()
    flat = [(f, i) for f in cont for i in range(len(cont[f]))]
    todo = [(c, k) for c in flat for k in [(f, j) for f in ks for j in range(len(ks[f]))]]
    with mp.Pool(8, initializer=child_limits, maxtasksperchild=1) as pool:
        ref = pool.map(reference, [(cont[c[0]][c[1]], k[0], k[1]) for c, k in todo], chunksize=1)
    table = dict(zip(todo, ref))
    ck.cases += len(todo)
    with mp.Pool(8, initializer=child_limits, maxtasksperchild=1) as pool:
        for depth, cs in ([(4, '{1,2,3}'), (5, '{1,2}')] if ck.quick else [(4, '{1,2,3}'), (5, '{1,2,3}'), (6, '{1,2}')]):
            lines = []
            r = tlc.run('ReadersMC', CFG % (depth, cs), workers=8, on_line=lines.append, timeout=3000)
            ck.tlc(r)
            lines.sort()
            if ck.quick and depth == 5:
                lines = lines[::3]
            elif depth == 6:
                lines = lines[::2]
            jobs = [(ck.seed, '%d/%d' % (depth, i), lines[i:i + 100]) for i in range(0, len(lines), 100)]
            hists = [h for hs in pool.imap(perform, jobs) for h in hs]
            judge(ck, hists, table, 'depth %d' % depth)
            ck.exhaustive.append('ReadersMC depth %d: %d states, %d histories replayed' % (depth, r.distinct, len(hists)))
        n = 60 if ck.quick else 800
        hists = [h for hs in pool.imap(perform, [(ck.seed, 'w%d' % i, [None] * 6) for i in range(n)]) for h in hs]
        judge(ck, hists, table, 'C33')
        n, most = (96, 150) if ck.quick else (800, 1200)
        res = pool.map(schedules, [(ck.seed, i, most) for i in range(n)], chunksize=1)
        judge(ck, [h for t, hs in res for h in hs], table, 'schedule')
        ck.traces += sum(t for t, hs in res)
        ck.exhaustive.append('%d schedules: one reading stopped at a line of the code, another one made meanwhile' % sum(t for t, hs in res))
    ck.sample(json.dumps({k: hists[0][k] for k in ('cs', 'kk')}) + ' ' + json.dumps([s['ev'] for s in hists[0]['steps']])[:400])
    ck.assumptions.append('Process state is that of CPython on Linux; open files are counted in /proc/self/fd.')
