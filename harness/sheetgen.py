"""Random workbooks, their encodings as xlsx packages and BIFF8 books, and the
calls made on them."""
import posixpath
import re
import struct

import textworld as tw
import xlwrite as xw
from tokens import cps

DATECODES = ['yyyy-mm-dd', 'd/m/yy', 'hh:mm:ss', 'h:mm AM/PM', '[$-409]mmm d, yyyy', 'yyyy"-W"mm', 'm/d/yy h:mm',
             'mm:ss', 'dd\\.mm\\.yyyy', '[Red]dd-mmm;@', 'DD.MM.YY', '"000"yyyy', 'yyyy\\0\\0']
NUMCODES = ['0', '0.00', '#,##0', '#,##0.00_);[Red](#,##0.00)', '0%', '0.00E+00', '##0.0E+0', '# ?/?', '@', 'General',
            '0.0"days"', '0\\d', '"ymd"0', '0_d', '0*s', '[h]0', '"hours"', '00000', 'general', '#,##0 "SEK"',
            '[$kr-41D] 0.00', '0;"yes";"dmy"']
DATEIDS = list(range(14, 23)) + list(range(27, 37)) + list(range(45, 48)) + list(range(50, 59)) + list(range(71, 82))
ERRS = {0: '#NULL!', 7: '#DIV/0!', 15: '#VALUE!', 23: '#REF!', 29: '#NAME?', 36: '#NUM!', 42: '#N/A'}
TEXTS = ['a', 'b', 'x y', 'speed', 'VBAT', 'Åäö', 'ÿ', 'Āb', '日本', 'a\U0001F600', '\U00010348', ' lead', 'trail ', '\ttab',
         'two\nlines', '', '0', '1.5', 'True', '#N/A', 'None', '_x0041_', '_x41_', 'a_x00e5_b', '<&>"\'', 'nan', '-', '\u0394v', 'é' * 20]


def letters(n):
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def num(rng):
    r = rng.random()
    if r < .3:
        return float(rng.randint(-20, 200))
    if r < .5:
        return rng.randint(-10 ** 6, 10 ** 6) / 100.
    if r < .6:
        return rng.choice([0., 1., -1., 0.5, 1e20, 1e-7, 123456789012., 2.5e-300, 1.7e308, 0.1, 1e15, 536870911., 536870912.,
                           -536870912., -536870913., 5368709.11])
    if r < .8:
        return float('%.*g' % (rng.randint(1, 12), rng.uniform(-1e4, 1e4)))
    return rng.randint(-4000, 4000) / 2. ** rng.randint(0, 6)


def serial(rng, mode):
    n = rng.choice([rng.randrange(61, 60000), rng.randrange(61, 2950000), 0, 1, 59, 61, 62, 366, 36526])
    r = rng.random()
    ms = 0 if r < .4 else rng.randrange(86400) * 1000 if r < .8 else rng.randrange(86400000)
    return n + ms / 86400000.


def text(rng):
    if rng.random() < .7:
        return rng.choice(TEXTS)
    return ''.join(rng.choice('abcXYZ 0189åÿĀ日_.,;') for i in range(rng.randint(0, 12)))


def value(rng, mode, kinds='nnnssbde '):
    """A cell value or None."""
    k = rng.choice(kinds)
    return {'n': lambda: ('num', num(rng)), 's': lambda: ('s', text(rng)), 'b': lambda: ('b', rng.randint(0, 1)),
            'd': lambda: ('date', serial(rng, mode)), 'e': lambda: ('e', rng.choice(sorted(ERRS))),
            ' ': lambda: None}[k]()


def workbook(rng, simple=False, nsheets=None, maxcells=60):
    """[mode, [(name, {(r, c): value})]]"""
    mode = rng.choice([0, 0, 1])
    sheets = []
    names = ['Sheet1', 'data', 'Blad 1', 'åäö', "O'Brien", 'A1', '2', '日本', 'Sheet10', 'sheet_x']
    if not nsheets and rng.random() < .03:
        names, nsheets = names + ['Sheet11', 'Sheet12'], 12
    for name in rng.sample(names, nsheets or rng.choice([1, 1, 2, 3])):
        nr, nc = rng.choice([(1, 1), (2, 3), (3, 2), (5, 4), (8, 3), (4, 6), (12, 2), (6, 9), (3, 12)])
        r0, c0 = rng.choice([(0, 0), (0, 0), (0, 0), (1, 0), (0, 1), (2, 3), (5, 24), (9, 1)])
        cells = {}
        for c in range(nc):
            kinds = rng.choice(['n', 's', 'nnnn e', 'sss e', 'nnnssbde ', 'd', 'ddd ', 'b', 'nd', 'ns', 'nb', 'e ', 'sb', 'se', 'ne',
                                'ddddn', 'bbb e'])
            if simple:
                kinds = rng.choice(['n', 's', 'nnn ', 'sss ', 'ns'])
            for r in range(nr):
                k = kinds
                if r == 0 and rng.random() < .5:
                    k = 's'
                v = value(rng, mode, k)
                if simple and v and v[0] == 'num':
                    v = ('num', float(100 * r + c))
                if v is not None:
                    cells[r + r0, c + c0] = v
        if rng.random() < .1:
            cells[rng.choice([0, 3, 30]), rng.choice([0, 5, 30])] = ('num', 7.)
        if not cells:
            cells[0, 0] = ('num', 1.)
        sheets.append((name, cells))
    return mode, sheets


# --- xlsx -----------------------------------------------------------------

def numtext(rng, x):
    t = repr(x)
    if t.endswith('.0') and rng.random() < .8:
        t = t[:-2]
    elif rng.random() < .1 and 'e' not in t:
        t = rng.choice(['%sE0' % t, '%se+00' % t, '0' * 2 + t if x >= 0 and t[0] != '-' else t])
    return t


def tnode(rng, s, raw=False):
    """A t node that reads as s (any text if raw)."""
    if not raw:
        s = re.sub('_(?=x[0-9A-Fa-f]{4}_)', '_x005F_', s)
        if rng.random() < .1 and s and ord(s[0]) < 0xd800 and '_x005F_' not in s:
            s = '_x%04x_' % ord(s[0]) + s[1:]
    pre = s.strip('\t\n \r') != s if not raw else rng.random() < .5
    return [bool(pre or rng.random() < .2), cps(s)]


def strnodes(rng, s, raw=False):
    parts = [s]
    if rng.random() < .3 and len(s) > 1:
        k = rng.randrange(1, len(s))
        parts = [s[:k], s[k:]]
    rich = len(parts) > 1 or rng.random() < .15
    nodes = []
    for p in parts:
        t = ['t'] + tnode(rng, p, raw)
        nodes.append(['r', [t]] if rich else t)
    if rng.random() < .15:
        nodes.insert(rng.randint(0, len(nodes)), ['p', [['t', False, cps(rng.choice(['ph', 'カナ']))]]])
    return nodes


def styles(rng):
    """(fmts, format ids, dates, numbers): indices of styles."""
    fmts, ids = [], [0]
    for k in range(rng.randint(1, 4)):
        code = rng.choice(DATECODES + NUMCODES)
        fmts.append([164 + k, cps(code)])
        ids.append(164 + k)
    ids += rng.sample(DATEIDS, 2) + rng.sample([1, 2, 3, 4, 9, 10, 11, 12, 37, 44, 48, 49, 59, 62], 2)
    tail = ids[1:]
    rng.shuffle(tail)
    ids[1:] = tail

    def isdate(i):
        if i < 164:
            return i in DATEIDS
        return ''.join(map(chr, dict((k, c) for k, c in fmts)[i])) in DATECODES
    dates = [k for k, i in enumerate(ids) if isdate(i)]
    nums = [k for k, i in enumerate(ids) if not isdate(i)]
    return fmts, ids, dates, nums


def colref(rng, r, c, loose):
    s = letters(c)
    if loose and rng.random() < .1:
        return '$%s$%d' % (s, r + 1)
    if loose and rng.random() < .1:
        s = s.lower()
    return '%s%d' % (s, r + 1)


def xcell(rng, p, sst, st, v, raw=False):
    """Encode value v (None: an empty cell element)."""
    fmts, ids, dates, nums = st
    c = {'r': [], 's': [], 't': [], 'v': [], 'is': []}
    if v is None:
        c['s'] = [rng.randrange(len(ids))]
        if rng.random() < .3:
            c['t'] = [rng.choice(['n', 's', 'inlineStr'])]
            if c['t'] == ['inlineStr'] and rng.random() < .5:
                c['is'] = [[['t', False, []]]]
        return c
    k, x = v
    if k in ('num', 'date'):
        s = rng.choice(dates if k == 'date' else nums)
        c['s'] = [s] if s or rng.random() < .5 else []
        c['t'] = ['n'] if rng.random() < .2 else []
        c['v'] = [[False, cps(numtext(rng, x))]]
    elif k == 's':
        c['s'] = [rng.randrange(len(ids))] if rng.random() < .3 else []
        how = rng.choice(['s', 's', 'str', 'is'])
        if how == 'is' and not x:
            how = 's'
        if how == 's':
            nodes = strnodes(rng, x, raw)
            if x in sst and rng.random() < .5 and not raw:
                i = sst[x]
            else:
                i = len(p['sst'])
                p['sst'].append(nodes)
                sst[x] = i
            c['t'], c['v'] = ['s'], [[False, cps(str(i))]]
        elif how == 'str':
            c['t'] = ['str']
            if x or rng.random() < .5:
                c['v'] = [tnode(rng, x, raw)]
        else:
            c['t'], c['is'] = ['inlineStr'], [strnodes(rng, x, raw)]
    elif k == 'b':
        c['t'] = ['b']
        t = rng.choice(['1', '1', 'true']) if x else rng.choice(['0', '0', 'false'])
        c['v'] = [[False, cps(t)]]
    else:
        c['t'] = ['e']
        if x != 42 or rng.random() < .7:
            c['v'] = [[False, cps(ERRS[x])]]
    if c['v'] and rng.random() < .1:
        c['f'] = 'A1+1'
    return c


def xsheet(rng, p, sst, st, cells, loose, raw):
    rows = {}
    for (r, c), v in cells.items():
        rows.setdefault(r, {})[c] = v
    for r in list(rows):
        if rng.random() < .15:
            for c in range(rng.randint(0, 3)):
                rows[r].setdefault(c, None)
    if rng.random() < .2:
        rows.setdefault(rng.randint(0, 4), {})
    order = sorted(rows)
    if loose and rng.random() < .2:
        rng.shuffle(order)
    out, last = [], -1
    keep = rng.choice([1, 1, .5, 0]) if loose else 1
    for r in order:
        rr = [] if r == last + 1 and rng.random() >= keep else [r + 1]
        last = r
        cs = sorted(rows[r])
        if loose and rng.random() < .15:
            rng.shuffle(cs)
        row, lc = [], -1
        for c in cs:
            x = xcell(rng, p, sst, st, rows[r][c], raw)
            if c != lc + 1 or rng.random() < keep:
                x['r'] = [cps(colref(rng, r, c, loose))]
            lc = c
            row.append(x)
        out.append([rr, row])
    return out


TARGETS = ['worksheets/sheet%d.xml', '/xl/worksheets/sheet%d.xml', 'worksheets/Sheet%d.xml', 'worksheets\\sheet%d.xml',
           'sheets/S%d.xml', '/xl/data/x%d.XML', 'worksheets/data %d.xml', './worksheets/sheet%d.xml',
           '../xl/worksheets/sheet%d.xml', '../sheet%d.xml', '/xl/./worksheets/../s%d.xml', '/data/sheet%d.xml']


def to_xlsx(rng, wb, loose=False, raw=False):
    mode, sheets = wb
    st = styles(rng)
    while not st[2]:
        st = styles(rng)
    p = {'date1904': [cps(rng.choice(['1', 'true', 'on']))] if mode else [] if rng.random() < .6 else
         [cps(rng.choice(['0', 'false', 'off']))],
         'styles': [{'fmts': st[0], 'xfs': [[i] if i or rng.random() < .8 else [] for i in st[1]]}],
         'sst': [], 'sheets': [], 'parts': [], 'rels': []}
    if rng.random() < .2 and not any(v[0] == 'date' for n, c in sheets for v in c.values()):
        p['styles'] = []
        st = ([], [0], [], [0])
    sst = {}
    files = list(range(1, len(sheets) + 1))
    rng.shuffle(files)
    style = rng.choice(TARGETS) if loose else TARGETS[0]
    ids, down = ('rId%d', 0) if not loose else (rng.choice(['rId%d', 'rId%d', 'R%d', 'rid%x', 'x_%d.1']), rng.random() < .5)
    for k, (name, cells) in enumerate(sheets):
        target = style % files[k]
        path = posixpath.normpath(posixpath.join('/xl', target.replace('\\', '/')))[1:]
        if loose and rng.random() < .3:
            path = ''.join(rng.choice([ch.lower(), ch.upper()]) for ch in path)
        rid = ids % (100 - k if down else k + 1)
        p['rels'].append([rid, 'worksheet', cps(target)])
        p['sheets'].append([cps(name), rid])
        merged = []
        for i in range(rng.choice([1, 1, 2, 3]) if rng.random() < .15 else 0):
            r, c = rng.randint(0, 6), rng.randint(0, 6) + (rng.choice([20, 20, 45, 70, 700]) if rng.random() < .3 else 0)
            merged.append([cps(colref(rng, r, c, False)), cps(colref(rng, r + rng.randint(0, 8), c + rng.randint(1, 8), False))])
        p['parts'].append([cps(path), xsheet(rng, p, sst, st, cells, loose, raw), merged])
    if loose and rng.random() < .3:
        k = rng.randint(0, len(sheets))
        p['rels'].append(['rIdC', 'chartsheet', cps('chartsheets/sheet1.xml')])
        p['sheets'].insert(k, [cps('Chart1'), 'rIdC'])
    if loose:
        rng.shuffle(p['rels'])
        rng.shuffle(p['parts'])
    return {'form': 'xlsx', 'x': p}


def xlsx_opts(rng):
    return dict(sstname=rng.choice(['xl/sharedStrings.xml', 'xl/SharedStrings.xml', 'sharedStrings.xml']),
                order=rng.randrange(9), deflate=rng.random() < .7, stylexfs=rng.choice([0, 0, 1, 3]),
                dim=rng.choice(['', '<dimension ref="A1"/>', '<dimension ref="A1:D20"/>', '<dimension ref="B2:C3"/>']),
                rels=rng.choice([0, 0, 1, 2]), xfattr=rng.choice([0, 1, 2, 3, 5]), prefix=rng.random() < .2, props=rng.random() < .2)


# --- BIFF8 ------------------------------------------------------------------

def split_string(rng, s, rate=.15):
    """Data of a STRING record and its continuations."""
    raw = s.encode('utf-16-le')
    units = [raw[i] + 256 * raw[i + 1] for i in range(0, len(raw), 2)]
    w = any(x > 255 for x in units) or rng.random() < .3
    out = [list(struct.pack('<HB', len(units), w))]
    for i, x in enumerate(units):
        if rng.random() < rate:
            w = any(v > 255 for v in units[i:]) or rng.random() < .3
            out.append([int(w)])
        out[-1] += list(struct.pack('<H', x)) if w else [x]
    return out


def rkinfo(x):
    """Ways to store x as an RK value."""
    out = []
    for scaled in (0, 1):
        v = x * 100 if scaled else x
        if abs(v) < 2 ** 40 and v == round(v) and -2 ** 29 <= v < 2 ** 29:
            v = int(round(v))
            if scaled and v / 100. != x:
                continue
            out.append(['i', (v << 2) | 2 | scaled])
        elif scaled and abs(x) < 1e6 and -2 ** 29 <= round(v) < 2 ** 29 and int(round(v)) / 100. == x:
            out.append(['i', (int(round(v)) << 2) | 3])
    b = struct.pack('<d', x)
    if b[:4] == b'\0\0\0\0' and not b[4] & 3:
        out.append(['f', tw.numval(x), False])
    v = x * 100
    b = struct.pack('<d', v)
    if abs(v) < 1e9 and v / 100. == x and b[:4] == b'\0\0\0\0' and not b[4] & 3:
        out.append(['f', tw.numval(v), True])
    return out


def to_biff(rng, wb, orders=True, rate=.02, label=True):
    mode, sheets = wb
    fmts, ids, dates, nums = styles(rng)
    while not dates:
        fmts, ids, dates, nums = styles(rng)
    strings, index = [], {}

    def shared(s):
        if s in index and rng.random() < .6:
            return index[s]
        raw = s.encode('utf-16-le')
        wide = any(raw[1::2]) or rng.random() < .3
        rt = [(rng.randint(0, 9), rng.randint(0, 3)) for i in range(rng.randint(0, 3))] if rng.random() < .15 else None
        pho = bytes(rng.randrange(256) for i in range(rng.randint(0, 20))) if rng.random() < .1 else None
        strings.append((s, wide, rt, pho))
        index[s] = len(strings) - 1
        return index[s]
    out = []
    for name, cells in sheets:
        todo = sorted(cells)
        groups = []              # records that stay together
        used = set()
        for r, c in todo:
            if (r, c) in used:
                continue
            v = cells[r, c]
            k, x = v
            xf = rng.choice(dates if k == 'date' else nums)
            if k in ('num', 'date'):
                rks = rkinfo(x)
                how = rng.choice(['NUMBER', 'FORMULA'] + ['RK', 'RK', 'MULRK'] * bool(rks))
                if how == 'MULRK':
                    run, cc = [], c
                    while (r, cc) in cells and cells[r, cc][0] in ('num', 'date') and rkinfo(cells[r, cc][1]):
                        kk, xx = cells[r, cc]
                        run.append([rng.choice(dates if kk == 'date' else nums), rng.choice(rkinfo(xx))])
                        used.add((r, cc))
                        cc += 1
                        if rng.random() < .2:
                            break
                    groups.append([['MULRK', r, c, run]])
                elif how == 'RK':
                    groups.append([['RK', r, c, xf, rng.choice(rks)]])
                elif how == 'NUMBER':
                    groups.append([['NUMBER', r, c, xf, tw.numval(x)]])
                else:
                    g = [['FORMULA', r, c, xf, ['n', tw.numval(x)], rng.choice([0, 0, 1, 2])]]
                    if rng.random() < .2:
                        g.append([rng.choice(['SHRFMLA', 'ARRAY'])])
                    groups.append(g)
            elif k == 's':
                xf = rng.randrange(len(ids))
                how = rng.choice(['LABELSST', 'LABELSST', 'FORMULA'] + (['LABEL', 'RSTRING'] if label else []))
                if how == 'LABELSST':
                    groups.append([['LABELSST', r, c, xf, shared(x)]])
                elif how == 'FORMULA' and x == '' and rng.random() < .5:
                    groups.append([['FORMULA', r, c, xf, ['empty'], 0]])
                elif how == 'FORMULA':
                    g = [['FORMULA', r, c, xf, ['s'], rng.choice([0, 0, 1, 2])]]
                    if rng.random() < .3:
                        g.append([rng.choice(['SHRFMLA', 'ARRAY'])])
                    groups.append(g + [['STRING', split_string(rng, x)]])
                else:
                    groups.append([[how, r, c, xf, list(xw.ustr(x, 2))]])
            else:
                xf = rng.randrange(len(ids))
                if rng.random() < .7:
                    groups.append([['BOOLERR', r, c, xf, x, int(k == 'e')]])
                else:
                    groups.append([['FORMULA', r, c, xf, [k, x], 0]])
        for i in range(rng.randint(0, 3)):
            r, c = rng.randint(0, 8), rng.randint(0, 8)
            k = rng.random()
            if k < .4:
                if (r, c) not in cells:
                    groups.append([['BLANK', r, c, 0]])
            elif k < .6:
                n = rng.randint(1, 4)
                if not any((r, c + j) in cells for j in range(n)):
                    groups.append([['MULBLANK', r, c, [0] * n]])
            elif k < .8:
                groups.append([['ROW', r]])
            else:
                groups.append([['OTHER', rng.choice([0x2a, 0x82, 0x83, 0x8c8]), [rng.randrange(256) for j in range(rng.randint(0, 12))]]])
        if orders and rng.random() < .3:
            rng.shuffle(groups)
        recs = [['DIM', 0, rng.choice([1, 5, 20]), 0, rng.choice([1, 3, 10]), 0]] if rng.random() < .8 else []
        for g in groups:
            recs += g
        out.append([cps(name), 0, recs])
    chunks = []
    if strings:
        chunks = xw.sst_chunks(strings, lambda kind: (rng.random() < rate, rng.random() < .5),
                               total=len(strings) + rng.randint(0, 3))
    if rng.random() < .15:
        out.insert(rng.randint(0, len(out)), [cps('Chart1'), 2, []])
    return {'form': 'xls', 'x': {'mode': mode, 'fmts': fmts, 'xfs': ids, 'sst': [list(c) for c in chunks], 'sheets': out}}


# --- versions before 8 -----------------------------------------------------

# (code page, codec, characters to use)
PAGES = [(1252, 'cp1252', 'aZ 9åÿ€é'), (1252, 'cp1252', 'aZ 9åÿ€é'), (10000, 'mac_roman', 'abåΩé'), (32768, 'mac_roman', 'abåΩé'),
         (32769, 'cp1252', 'aå€'), (437, 'cp437', 'abéßΩ'), (850, 'cp850', 'abéßÐ'), (1250, 'cp1250', 'abłŁő'),
         (1251, 'cp1251', 'abЖяё'), (1253, 'cp1253', 'abλΔ'), (367, 'ascii', 'abc0 '), (None, 'iso-8859-1', 'abåÿ'),
         (932, 'cp932', 'a日本ｱ語'), (936, 'cp936', 'a日中文'), (949, 'cp949', 'a한글'), (950, 'cp950', 'a中文'),
         (10006, 'mac_greek', 'aλΔ'), (10007, 'mac_cyrillic', 'aЖя'), (10029, 'mac_latin2', 'ałő'), (10079, 'mac_iceland', 'aÐþ'),
         (10081, 'mac_turkish', 'ağŞ'), (1254, 'cp1254', 'ağŞ'), (1255, 'cp1255', 'aאב'), (1256, 'cp1256', 'aبج'),
         (1257, 'cp1257', 'aąš'), (1258, 'cp1258', 'aơư'), (874, 'cp874', 'aกข'), (852, 'cp852', 'ałő'), (855, 'cp855', 'aЖя'),
         (857, 'cp857', 'ağŞ'), (866, 'cp866', 'aЖя'), (737, 'cp737', 'aλΔ'), (775, 'cp775', 'aąš')]
VERSIONS = [20, 21, 30, 40, 45, 50, 70]


def codepage(codec, texts):
    """The code page as the specification takes it, complete for texts."""
    one = []
    for k in range(256):
        try:
            one.append(ord(bytes([k]).decode(codec)))
        except UnicodeDecodeError:
            one.append(-1)
    two = set()
    for t in texts:
        for c in t:
            raw = c.encode(codec)
            if len(raw) == 2:
                two.add((raw[0], raw[1], ord(c)))
    return {'one': one, 'two': [list(x) for x in sorted(two)]}


def oldworkbook(rng, ver, page):
    """A workbook that can be written in an older version."""
    codec, chars = page[1], page[2]
    mode, sheets = workbook(rng, nsheets=1 if ver <= 40 else None, maxcells=40)

    def fits(s):
        try:
            return len(s.encode(codec)) <= (255 if ver < 30 else 2000)
        except UnicodeEncodeError:
            return False
    out = []
    for k, (name, cells) in enumerate(sheets):
        new = {}
        for p, v in cells.items():
            if v[0] == 's' and (not fits(v[1]) or rng.random() < .3):
                s = ''.join(rng.choice(chars) for i in range(rng.choice([1, 2, 3, 5, 10, 100] + [300, 700] * (ver >= 30))))
                v = ('s', s)
            new[p] = v
        out.append((name if fits(name) else 'S' + rng.choice(chars) + str(k), new))
    return mode, out


def to_old(rng, wb, ver, page):
    """A workbook as a book of version ver, and options of the writer."""
    mode, sheets = wb
    codec = page[1]
    texts = [v[1] for n, c in sheets for v in c.values() if v[0] == 's']

    def looks():
        if ver >= 50:
            while True:
                fmts, ids, dates, nums = styles(rng)
                if dates:
                    return fmts, ids, dates, nums
        codes = ['General'] + rng.sample(NUMCODES + DATECODES, rng.randint(2, 20)) + ['yyyy-mm-dd']
        if rng.random() < .3:
            codes.insert(rng.randint(1, len(codes) - 1), '')
        isdate = [c in DATECODES for c in codes]
        fmts = [[k, cps(c)] for k, c in enumerate(codes)]
        ids = [0] + [rng.randrange(len(codes)) for i in range(rng.choice([3, 8, 70]))] + [len(codes) - 1]
        if ver == 20:
            ids = list(range(len(codes)))
        return fmts, ids, [k for k, i in enumerate(ids) if isdate[i]], [k for k, i in enumerate(ids) if not isdate[i]]
    book = looks()
    out = []
    for name, cells in sheets:
        fmts, ids, dates, nums = looks() if ver == 45 else book
        groups, used = [], set()

        def xfor(which):
            x = rng.choice(which)
            if ver == 20:
                return [0, x], []
            if ver == 21:
                junk = rng.randrange(64)
                if x >= 63 or rng.random() < .1:
                    return [63, junk], [['IXFE', x]]
                return [x, junk], []
            return x, []

        def string(s):
            raw = s.encode(codec)
            return list(struct.pack('<B' if ver < 30 else '<H', len(raw)) + raw)

        def pieces(s):
            """The STRING record, maybe continued between characters."""
            chunks = [list(struct.pack('<B' if ver < 30 else '<H', len(s.encode(codec))))]
            for c in s:
                if rng.random() < .03:
                    chunks.append([])
                chunks[-1] += list(c.encode(codec))
            return chunks
        for r, c in sorted(cells):
            if (r, c) in used:
                continue
            k, x = cells[r, c]
            xf, pre = xfor(dates if k == 'date' else nums if k == 'num' else range(len(ids)))
            if k in ('num', 'date'):
                rks = rkinfo(x) if ver >= 30 else []
                whole = ver < 30 and x == int(x) and 0 <= x < 65536
                how = rng.choice(['NUMBER', 'FORMULA'] + ['RK', 'RK'] * bool(rks) + ['MULRK'] * bool(rks and ver >= 50)
                                 + ['INTEGER', 'INTEGER'] * whole)
                if how == 'NUMBER':
                    g = [['NUMBER', r, c, xf, tw.numval(x)]]
                elif how == 'INTEGER':
                    g = [['INTEGER', r, c, xf, int(x)]]
                elif how == 'RK':
                    g = [['RK', r, c, xf, rng.choice(rks)]]
                elif how == 'MULRK':
                    run, cc = [], c
                    while (r, cc) in cells and cells[r, cc][0] in ('num', 'date') and rkinfo(cells[r, cc][1]):
                        kk, xx = cells[r, cc]
                        run.append([rng.choice(dates if kk == 'date' else nums), rng.choice(rkinfo(xx))])
                        used.add((r, cc))
                        cc += 1
                        if rng.random() < .2:
                            break
                    g = [['MULRK', r, c, run]]
                else:
                    g = [['FORMULA', r, c, xf, ['n', tw.numval(x)]]]
                    if rng.random() < .2:
                        g.append(['ARRAY'])
            elif k == 's':
                how = rng.choice(['LABEL', 'LABEL', 'FORMULA'] + ['RSTRING'] * (ver >= 50))
                if how == 'FORMULA':
                    g = [['FORMULA', r, c, xf, ['s']]]
                    if rng.random() < .3:
                        g.append(['ARRAY'] if ver < 50 or rng.random() < .5 else ['SHRFMLA'])
                    g.append(['STRING', pieces(x)])
                else:
                    g = [[how, r, c, xf, string(x)]]
            elif rng.random() < .7:
                g = [['BOOLERR', r, c, xf, x, int(k == 'e')]]
            else:
                g = [['FORMULA', r, c, xf, [k, x]]]
            groups.append(pre + g)
        for i in range(rng.randint(0, 2)):
            r, c = rng.randint(0, 8), rng.randint(0, 8)
            if rng.random() < .5:
                groups.append([['ROW', r]])
            elif (r, c) not in cells:
                xf, pre = xfor(nums)
                groups.append(pre + [['BLANK', r, c, xf]])
        if rng.random() < .3:
            rng.shuffle(groups)
        recs = [['DIM', 0, rng.choice([1, 5, 20]), 0, rng.choice([1, 3, 10]), 0]] if rng.random() < .8 else []
        for g in groups:
            recs += g
        if ver == 21 and any(x[0] == 'IXFE' for x in recs) is False and rng.random() < .2:
            recs.insert(0, ['IXFE', 0])
        out.append([cps(name), 0, recs] + ([fmts, ids] if ver == 45 else []))
    if ver >= 50 and rng.random() < .15:
        out.insert(rng.randint(0, len(out)), [cps('Chart1'), 2, []])
    x = {'ver': ver, 'cp': codepage(codec, texts), 'mode': mode, 'fmts': book[0], 'xfs': [] if ver == 20 else book[1], 'sst': [],
         'sheets': out}
    order = list(range(len(out)))
    if rng.random() < .3:
        rng.shuffle(order)
    opts = dict(codepage=page[0], codec=codec, fonts=rng.choice([0, 4, 5]), sheetorder=order, stdcount=rng.random() < .8)
    return {'form': 'xls', 'x': x}, opts


# --- calls ----------------------------------------------------------------

def extents(cells, merged=()):
    nr = max([r for r, c in cells] + [m[0] for m in merged]) + 1
    nc = max([c for r, c in cells] + [m[1] for m in merged]) + 1
    return nr, nc


def ref(rng, r, c, rowless=False):
    s = letters(c)
    if rng.random() < .3:
        s = s.lower()
    return cps(s if rowless else '%s%d' % (s, r + 1))


def call(rng, wb, plain=False):
    """Arguments of a sheetpack call on workbook wb."""
    mode, sheets = wb
    k = rng.randrange(len(sheets))
    name, cells = sheets[k]
    nr, nc = extents(cells)
    a = {'sheet': ['i', k] if rng.random() < .6 else ['n', cps(name)], 'header': ['T'], 'start': [], 'stop': [], 'usecols': []}
    r = rng.random()
    a['header'] = ['T'] if r < .4 else ['F'] if r < .8 else ['s', ref(rng, rng.randrange(nr), rng.randrange(nc), rng.random() < .1)]
    if plain:
        a['header'] = ['F'] if r < .7 else ['T']
    r0 = c0 = 0
    r1, c1 = nr - 1, nc - 1
    if rng.random() < .5:
        r0, c0 = rng.randrange(nr), rng.randrange(nc)
        rowless = rng.random() < .1
        a['start'] = [ref(rng, r0, c0, rowless)]
        if rowless:
            r0 = 0
    if rng.random() < .4:
        r1, c1 = rng.randrange(r0, nr), rng.randrange(c0, nc)
        a['stop'] = [ref(rng, r1, c1)]
    if rng.random() < .4:
        cols = sorted(rng.sample(range(c0, c1 + 1), rng.randint(1, min(4, c1 - c0 + 1))))
        if rng.random() < .2:
            cols.append(rng.choice([c1 + 1, max(0, c0 - 1)]))
        rng.shuffle(cols)
        if rng.random() < .5:
            a['usecols'] = [['l', cols]]
        else:
            items = [letters(c) for c in cols]
            if rng.random() < .4:
                x = rng.randint(c0, c1)
                items.insert(rng.randint(0, len(items)), '%s:%s' % (letters(x), letters(rng.randint(x, c1))))
            s = rng.choice([',', ', ', ' ,']).join(items)
            if rng.random() < .1:
                s += ','
            a['usecols'] = [['s', cps(s.lower() if rng.random() < .2 else s)]]
    if rng.random() < .02:
        a['sheet'] = rng.choice([['i', len(sheets) + 2], ['n', cps('nosuch')]])
    if rng.random() < .02:
        a[rng.choice(['start', 'stop'])] = [cps(rng.choice(['1', 'A0', 'A1B', '7C', 'A 1', '-', 'A-1', '$A$1', 'A1:B2']))]
    return a


def far(rng, wb, rows, cols, area=1200000):
    """wb with its first sheet moved down and to the right, wholly or in part,
    up to the given numbers of rows and columns, and calls for the parts with cells."""
    mode, sheets = wb
    name, cells = sheets[0]
    nr, nc = extents(cells)
    step = [0, 100, 120, 250, 1000, 4090, 16370, 32760, 65520, 131070, 10 ** 6]
    dr = rng.choice([x for x in step if x + nr <= rows] + [rows - nr] * 2)
    dc = rng.choice([x for x in [0, 0, 20, 120, 250, 255, 510, 700, 16370] if x + nc <= cols] + [cols - nc])
    while (dr + nr) * (dc + nc) > area:
        if rng.random() < .5:
            dr = dr // 2
        else:
            dc = dc // 2
    kr, kc = rng.choice([0, 0, rng.randint(0, nr - 1)]), rng.choice([0, 0, rng.randint(0, nc - 1)])
    new = {(r + dr * (r >= kr), c + dc * (c >= kc)): v for (r, c), v in cells.items()}
    nr, nc = extents(new)
    calls = []
    spots = sorted(new)
    for i in range(4):
        r, c = rng.choice(spots) if i else spots[-1]
        r, c = max(0, r - rng.choice([0, 0, 1, 5])), max(0, c - rng.choice([0, 0, 1, 3]))
        a = {'sheet': ['i', 0], 'header': ['F'], 'start': [ref(rng, r, c)], 'stop': [], 'usecols': []}
        if i == 1:
            a['header'] = ['s', ref(rng, rng.choice(spots)[0], c)]
        if nr - r > 40 or nc - c > 20 or rng.random() < .2:
            a['stop'] = [ref(rng, min(nr - 1, r + 15), min(nc - 1, c + 8))]
        calls.append(a)
    # the size of the sheet, by default
    calls.append({'sheet': ['i', 0], 'header': ['F'], 'start': [ref(rng, max(0, nr - 4), max(0, nc - 4))], 'stop': [], 'usecols': []})
    return (mode, [(name, new)] + list(sheets[1:])), calls
