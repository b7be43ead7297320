"""What a workbook holds besides cells: names, links, comments, drawings,
charts, widths, views ...  Each function gives records (code, data) as the xls
format lays them out, in the order they stand in the file."""
import struct

import xlwrite as xw

P = struct.pack
HLINK = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
URL = bytes.fromhex('E0C9EA79F9BACE118C8200AA004BA90B')
FILE = bytes.fromhex('0303000000000000C000000000000046')
TEXTS = ['a', 'see p. 7', 'Åsa', 'remark\nof two lines', '日本', 'a\U0001F600', 'x' * 200, '', '\U0001F600' * 30, ' ']


HI = [b'\xe5']          # a letter beyond ASCII of the code page at hand


def text(rng):
    return rng.choice(TEXTS)


def word(rng):
    return rng.choice(['a', 'Speed', 'Åsa', '日本', 'x' * 60, 'Me & you', 'a\U0001F600'])


def rnd(rng, n):
    return bytes(rng.randrange(256) for i in range(n))


# --- formulas -----------------------------------------------------------------
# A token of spec/Formula.tla to bytes.

BIN = {'add': 3, 'sub': 4, 'mul': 5, 'div': 6, 'pow': 7, 'cat': 8, 'lt': 9, 'le': 10, 'eq': 11, 'ge': 12, 'gt': 13,
       'ne': 14, 'isect': 15, 'list': 16, 'range': 17}
UN = {'uplus': 0x12, 'uminus': 0x13, 'percent': 0x14, 'paren': 0x15}
# functions with their numbers of arguments: fixed (None) or variable
FUNCS = {'PI': (19, None), 'SIN': (15, None), 'MOD': (39, None), 'NOW': (74, None), 'IF': (1, 1), 'SUM': (4, 1),
         'OFFSET': (78, 1), 'CHOOSE': (100, 1), 'COUNTA': (169, 1), 'INDIRECT': (148, 1), 'CALL': (255, 1),
         'CELL': (125, 1), 'COUNT': (0, 1)}


def addr(ver, row, col, rel):
    if ver >= 80:
        return P('<HH', row & 0xffff, (col & 0xff) | (0xc000 if rel else 0))
    return P('<HB', (row & 0x3fff) | (0xc000 if rel else 0), col & 0xff)


def area(ver, r1, r2, c1, c2, rel):
    if ver >= 80:
        f = 0xc000 if rel else 0
        return P('<HHHH', r1 & 0xffff, r2 & 0xffff, c1 | f, c2 | f)
    f = 0xc000 if rel else 0
    return P('<HHBB', (r1 & 0x3fff) | f, (r2 & 0x3fff) | f, c1, c2)


def ext(ver, ref, sheet):
    """The reference to a sheet: an entry of EXTERNSHEET (8), or number and sheets (5, 7)."""
    if ver >= 80:
        return P('<H', ref)
    return P('<h8xhh', -1 - sheet, sheet, sheet)


def token(t, ver, cls, refs):
    k = t[0]
    c = {'R': 0, 'V': 0x20, 'A': 0x40}[cls]
    if k in BIN:
        return bytes([BIN[k]])
    if k in UN:
        return bytes([UN[k]])
    if k == 'int':
        return P('<BH', 0x1e, t[1])
    if k == 'num':
        return P('<Bd', 0x1f, float(t[1]))
    if k == 'str':
        s = t[1]
        return bytes([0x17]) + (xw.ustr(s, 1) if ver >= 80 else bytes([len(s)]) + s.encode('cp1252'))
    if k == 'bool':
        return bytes([0x1d, t[1]])
    if k == 'err':
        return bytes([0x1c, t[1]])
    if k == 'miss':
        return bytes([0x16])
    if k == 'ref':
        return bytes([0x24 + c]) + addr(ver, t[1], t[2], t[3])
    if k == 'area':
        return bytes([0x25 + c]) + area(ver, t[1], t[1] + 2, t[2], t[2] + 1, t[3])
    if k == 'ref3':
        return bytes([0x3a + c]) + ext(ver, t[1], t[2]) + addr(ver, t[3], t[4], t[5])
    if k == 'area3':
        return bytes([0x3b + c]) + ext(ver, t[1], t[2]) + area(ver, t[3], t[3] + 5, t[4], t[4] + 1, t[5])
    if k == 'referr':
        return bytes([0x2a + c]) + bytes(4 if ver >= 80 else 3)
    if k == 'areaerr':
        return bytes([0x2b + c]) + bytes(8 if ver >= 80 else 6)
    if k == 'ref3err':
        return bytes([0x3c + c]) + ext(ver, t[1], 0) + bytes(4 if ver >= 80 else 3)
    if k == 'name':
        return bytes([0x23 + c]) + P('<H', t[1]) + bytes(2 if ver >= 80 else 12)
    if k == 'namex':
        return bytes([0x39 + c]) + (P('<HHH', t[1], t[2], 0) if ver >= 80 else P('<h8xH12x', 1, t[2]))
    if k == 'array':
        return bytes([0x20 + 0x40]) + bytes(7)
    if k == 'memfunc':
        return P('<BH', 0x29 + c, t[1])
    if k == 'func':
        n, var = FUNCS[t[1]]
        if var:
            return P('<BBH', 0x22 + (c or 0x20), t[2], n)
        return P('<BH', 0x21 + (c or 0x20), n)
    if k == 'space':
        return bytes([0x19, 0x40, t[1], 1])
    if k == 'volatile':
        return bytes([0x19, 1, 0, 0])
    if k == 'sum1':
        return bytes([0x19, 0x10, 0, 0])
    if k == 'goto':
        return bytes([0x19, t[1], 0, 0])
    if k == 'choose':
        return bytes([0x19, 4]) + P('<H', t[1]) + bytes(2 * t[1] + 2)
    raise ValueError(k)


def formula(tokens, ver, cls='R', refs=None):
    return b''.join(token(t, ver, cls, refs) for t in tokens)


def name(ver, s, rgce, sheet=0, builtin=None, flags=0, tail=b''):
    """A NAME record.  sheet 0: of the whole book."""
    if builtin is not None:
        s, flags = chr(builtin), flags | 0x20
    if ver >= 80:
        raw = xw.ustr(s, 1)
        body = P('<HBBHHH4B', flags, 0, raw[0], len(rgce), 0, sheet, 0, 0, 0, 0) + raw[1:]
    else:
        raw = s.encode('cp1252')
        body = P('<HBBHHH4B', flags, 0, len(raw), len(rgce), sheet, sheet, 0, 0, 0, 0) + raw
    data = body + rgce + tail
    out = [(0x18, data[:8224])]
    while len(data) > 8224:
        data = data[8224:]
        out.append((0x3c, data[:8224]))
    return out


# --- workbook globals -----------------------------------------------------------

def split(code, data, at):
    """A record and its continuations, new records starting at the places given."""
    ps = [0] + sorted(set(x for x in at if 0 < x < len(data))) + [len(data)]
    pieces = []
    for a, b in zip(ps, ps[1:]):
        while b - a > 8224:
            pieces.append(data[a:a + 8224])
            a += 8224
        pieces.append(data[a:b])
    return [(code if k == 0 else 0x3c, x) for k, x in enumerate(pieces)]


def links8(rng, nsheets):
    """SUPBOOK, EXTERNNAME and EXTERNSHEET records, and the entries: which are own sheets, which are not."""
    out, refs = [], []
    books = ['own'] + [rng.choice(['ext', 'ext', 'addin', 'dde']) for i in range(rng.choice([0, 0, 1, 2, 3]))]
    if 'addin' in books:             # there is at most one of these
        k = books.index('addin')
        books = [b for i, b in enumerate(books) if b != 'addin' or i == k]
    rng.shuffle(books)
    for k, b in enumerate(books):
        if b == 'own':
            out.append((0x1ae, P('<HBB', nsheets, 1, 4)))
            refs += [(k, s, s) for s in range(nsheets)] + [(k, 0xfffe, 0xfffe), (k, 0xffff, 0xffff)]
            if nsheets > 1:
                refs.append((k, 0, nsheets - 1))
        elif b == 'addin':
            out.append((0x1ae, b'\x01\x00\x01\x3a'))
            out += [(0x23, P('<HI', 0, 0) + xw.ustr(n, 1) + b'\x02\x00\x1c\x17') for n in ('EDATE', 'NETWORKDAYS')]
            refs.append((k, 0xfffe, 0xfffe))
        elif b == 'dde':
            out.append((0x1ae, P('<H', 0) + xw.ustr('Prog\x03Topic')))
            out.append((0x23, P('<HI', 0xffea, 0) + xw.ustr('item', 1)))
            refs.append((k, 0xfffe, 0xfffe))
        else:
            names = [word(rng) + str(i) for i in range(rng.choice([1, 2, 3, 300]))]
            url = '\x01' + rng.choice(['[b.xls]', 'other.xls', '\x05http://x.y/b.xls', 'dir\x03b日.xls'])
            data = P('<H', len(names)) + xw.ustr(url) + b''.join(xw.ustr(n) for n in names)
            at = [rng.randrange(len(data)) for i in range(rng.choice([0, 0, 1, 2]))]
            out += split(0x1ae, data, [x for x in at if x > 2 + len(xw.ustr(url))])
            if rng.random() < .5:
                out.append((0x23, P('<HI', 0, 0) + xw.ustr(word(rng), 1) + P('<H', 7) + b'\x3a\0\0\1\0\2\0'))
            if rng.random() < .5:     # cached values of cells of the other book
                out.append((0x59, P('<hH', 1, 0)))
                out.append((0x5a, P('<BBH', 1, 0, rng.randrange(9)) + b'\x01' + P('<d', 77.) + b'\x02' + xw.ustr('cached')))
            refs += [(k, 0, 0), (k, len(names) - 1, len(names) - 1)]
    if rng.random() < .1:
        refs += [refs[0]] * rng.choice([200, 1500])
    rng.shuffle(refs)
    data = P('<H', len(refs)) + b''.join(P('<HHH', *r) for r in refs)
    out += split(0x17, data, [rng.randrange(2, len(data)) for i in range(rng.choice([0, 0, 1, 3]))])
    own = [i for i, r in enumerate(refs) if books[r[0]] == 'own']
    sheets = {i: refs[i][1] for i in own if refs[i][1] < 0xff00}
    return out, len(refs), [i for i in range(len(refs)) if books[refs[i][0]] == 'addin']


def links5(rng, names):
    """EXTERNCOUNT, EXTERNSHEET, EXTERNNAME records before BIFF8; the own sheets come first, in order."""
    out = [(0x16, P('<H', len(names) + 2))]
    for n in names:
        raw = n.encode('cp1252')
        out.append((0x17, bytes([len(raw), 3]) + raw))
    out.append((0x17, b'\x01\x3a'))
    out.append((0x23, P('<HI', 0, 0) + b'\x05EDATE' + b'\x02\x00\x1c\x17'))
    out.append((0x17, b'\x09\x01[b.xls]S'))
    if rng.random() < .5:
        out.append((0x17, b'\x01\x02'))
    return out


def plain8(rng):
    """Records of the globals that say nothing of cells."""
    return rng.choice([
        lambda: [(0x5c, (xw.ustr(word(rng)) + b' ' * 112)[:112])],
        lambda: [(0x5c, (xw.ustr(word(rng)) + rnd(rng, 112))[:112])],
        lambda: [(0x3d, P('<9H', 0, 0, 9000, 6000, 0x38, 0, 0, 1, 600))],
        lambda: [(0x40, P('<H', 0))], lambda: [(0x8d, P('<H', 0))], lambda: [(0xe, P('<H', 1))],
        lambda: [(0x19, P('<H', rng.randrange(2)))], lambda: [(0x12, P('<H', rng.randrange(2)))],
        lambda: [(0x13, P('<H', rng.randrange(65536)))],
        lambda: [(0x293, P('<HBB', 0x8000 | rng.randrange(16), rng.randrange(8), 255))],
        lambda: [(0x293, P('<H', rng.randrange(16)) + xw.ustr(word(rng)))],
        lambda: [(0x92, P('<H', 56) + b''.join(P('<BBBB', *[rng.randrange(256) for j in range(3)], 0) for i in range(56)))],
        lambda: [(0xff, P('<H', 8) + rnd(rng, 8))], lambda: [(0xeb, rnd(rng, 40)), (0x3c, rnd(rng, 20))],
        lambda: [(0x160, P('<H', 1))], lambda: [(0x13d, P('<H', 1))], lambda: [(0x9c, P('<H', 14))],
        lambda: [(0xda, P('<H', 0))], lambda: [(0x863, rnd(rng, 22))], lambda: [(0x1c1, P('<HHI', 0x1c1, 0, 0x8000))],
        lambda: [(0xc1, b'\0\0')], lambda: [(0xe1, P('<H', 1200))], lambda: [(0xe2, b'')], lambda: [(0x161, b'\0\0')],
        lambda: [(0x892, rnd(rng, 60))], lambda: [(0x896, rnd(rng, 200)), (0x3c, rnd(rng, 9))],
        lambda: [(0x1ba, xw.ustr('ThisWorkbook'))], lambda: [(0xd3, b'')], lambda: [(0x1b7, b'')]])()


def plain5(rng, ver):
    return rng.choice([
        lambda: [(0x5c, (bytes([3]) + b'Bo' + HI[0] + b' ' * 32)[:32])],
        lambda: [(0x3d, P('<9H', 0, 0, 9000, 6000, 0x38, 0, 0, 1, 600))],
        lambda: [(0x40, P('<H', 0))], lambda: [(0x8d, P('<H', 0))], lambda: [(0xe, P('<H', 1))],
        lambda: [(0x19, P('<H', rng.randrange(2)))],
        lambda: [(0x293, P('<HBB', 0x8000 | rng.randrange(16), rng.randrange(8), 255))],
        lambda: [(0x293, P('<H', rng.randrange(16)) + b'\x04Stil')],
        lambda: [(0x92, P('<H', 56) + b''.join(P('<BBBB', *[rng.randrange(256) for j in range(3)], 0) for i in range(56)))],
        lambda: [(0xe1, b'')], lambda: [(0xc1, b'\0\0')], lambda: [(0xe2, b'')], lambda: [(0x9c, P('<H', 14))],
        lambda: [(0xda, P('<H', 0))], lambda: [(0x13, P('<H', rng.randrange(65536)))]])()


# --- sheets -----------------------------------------------------------------------

def ref8(rng):
    r, c = rng.randrange(20), rng.randrange(20)
    return rng.choice([(r, r, c, c), (r, r + 3, c, c + 2), (r, r, 0, 255), (0, 65535, c, c)] + [(r, r, c, c)] * 6)


def hstring(s):
    raw = (s + '\0').encode('utf-16-le')
    return P('<I', len(raw) // 2) + raw


def hlink(rng):
    """HLINK, possibly with its tool tip."""
    ref = ref8(rng)
    kind = rng.choice(['url', 'url', 'urlx', 'file', 'filex', 'unc', 'place', 'place'])
    flags, body = 0, b''
    if rng.random() < .5:
        flags |= 0x14
        body += hstring(word(rng))
    if rng.random() < .2:
        flags |= 0x80
        body += hstring('_top')
    if kind.startswith('url'):
        flags |= 3
        raw = (rng.choice(['http://a.b/c', 'mailto:x@y.z', 'http://å.日/', '']) + '\0').encode('utf-16-le')
        if kind == 'urlx':
            raw += bytes.fromhex('795881F43B1D7F48AF2C825DC4852763') + P('<II', 0, rng.choice([0xaba5 & 0x7fff, 5, rng.randrange(0x8000)]))
        body += URL + P('<I', len(raw)) + raw
    elif kind.startswith('file'):
        flags |= rng.choice([1, 3])
        short = rng.choice([b'B.XLS', b'DIR\\LONGNA~1.XLS', b'']) + b'\0'
        body += FILE + P('<HI', rng.choice([0, 0, 1, 3]), len(short)) + short + b'\xff\xff\xad\xde' + bytes(20)
        if kind == 'file':
            body += P('<I', 0)
        else:
            raw = 'dir\\a long name å.xls'.encode('utf-16-le')
            body += P('<IIH', len(raw) + 6, len(raw), 3) + raw
    elif kind == 'unc':
        flags |= 0x103
        body += hstring('\\\\srv\\share\\b.xls')
    if kind == 'place' or rng.random() < .3:
        flags |= 8
        body += hstring(rng.choice(['Sheet1!A1', "'My sheet'!B2", 'name']))
    out = [(0x1b8, P('<4H', *ref) + HLINK + P('<II', 2, flags) + body)]
    if rng.random() < .4:
        out.append((0x800, P('<5H', 0x800, *ref) + (text(rng) + '\0').encode('utf-16-le')))
    return out


def cmo(kind, oid, flags=0x6011):
    return P('<HHHHH', 0x15, 18, kind, oid, flags) + bytes(12)


END = bytes(4)


def txo(rng, s):
    """TXO and the CONTINUE records with its text and formatting runs."""
    raw = s.encode('utf-16-le')
    units = [raw[i:i + 2] for i in range(0, len(raw), 2)]
    runs = [(0, 0)] + [(rng.randint(0, len(units)), rng.randrange(5)) for i in range(rng.choice([0, 0, 1, 4]))] + [(len(units), 0)]
    runs.sort()
    out = [(0x1b6, P('<HH6xHHH', rng.choice([0x212, 0x222]), 0, len(units), 8 * len(runs) if units else 0, 0)
            + rng.choice([bytes(2), b'', P('<HIBHHB', 7, 0, 0x24, 0, 0, 0)]))]
    if not units:
        return out
    room = rng.choice([8223, 8223, 8223, 30, 9])
    k = 0
    while k < len(units):
        wide = any(x[1] for x in units[k:k + room]) or rng.random() < .3
        n = room // 2 if wide else room
        part = units[k:k + n]
        out.append((0x3c, bytes([wide]) + b''.join(x if wide else x[:1] for x in part)))
        k += n
    rs = [P('<HH4x', *r) for r in runs]
    at = rng.randint(1, len(rs)) if rng.random() < .2 else len(rs)
    for part in (rs[:at], rs[at:]):
        if part:
            out.append((0x3c, b''.join(part)))
    return out


def drawing(rng, n=None):
    return (0xec, rnd(rng, n or rng.choice([24, 90, 200])))


def comments(rng, oid):
    """Comments on cells: drawing objects with texts, and the notes."""
    out, notes = [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        i = oid + k
        s = rng.choice(TEXTS + ['y' * 9000, 'a' + '\U0001F600' * 4200, '日' * 5000])
        out.append(drawing(rng))
        if rng.random() < .1:
            out.append((0x3c, rnd(rng, 30)))
        out.append((0x5d, cmo(0x19, i, 0x4011) + P('<HH', 0xd, 22) + rnd(rng, 16) + bytes(6) + END))
        out.append(drawing(rng, 8))
        out += txo(rng, s)
        author = rng.choice(['Me', 'Åsa', '日本', 'a\U0001F600', 'x' * 54, ''])
        notes.append((0x1c, P('<4H', rng.randrange(30), rng.randrange(12), rng.choice([0, 2]), i) + xw.ustr(author)
                      + rng.choice([b'\0', b'\0', b'', b'x'])))
    rng.shuffle(notes)
    return out + notes


def objects(rng, oid):
    """Objects of other kinds."""
    kind = rng.choice(['line', 'rect', 'picture', 'button', 'check', 'radio', 'scroll', 'list', 'combo', 'filter', 'group', 'edit'])
    body = {
        'line': cmo(1, oid), 'rect': cmo(2, oid), 'button': cmo(7, oid) + P('<HH', 4, 4) + P('<HH', 0, 0),
        'picture': cmo(8, oid) + P('<HHH', 7, 2, 0xffff) + P('<HHH', 8, 2, 1),
        'check': cmo(11, oid) + P('<HH', 10, 12) + rnd(rng, 12) + P('<HH', 0x12, 8) + rnd(rng, 8),
        'radio': cmo(12, oid) + P('<HH', 10, 12) + rnd(rng, 12) + P('<HH', 11, 6) + rnd(rng, 6),
        'scroll': cmo(17, oid) + P('<HH', 12, 20) + rnd(rng, 20),
        'list': cmo(18, oid) + P('<HH', 12, 20) + rnd(rng, 20) + P('<HH', 0x13, 16) + rnd(rng, 16),
        'combo': cmo(20, oid) + P('<HH', 12, 20) + rnd(rng, 20) + P('<HH', 0x13, 0x1fee) + P('<4H', 0, 3, 1, 0) + rnd(rng, 10),
        'filter': cmo(20, oid, 0x2101) + P('<HH', 12, 20) + bytes(14) + P('<3H', 1, 10, 0) + P('<HH', 0x13, 0x1fee)
        + P('<8H', 0, 0, 0x301, 0, 0xa, 0x14, 0, 0),
        'group': cmo(0, oid) + P('<HHH', 6, 2, 0), 'edit': cmo(6, oid)}[kind]
    if kind not in ('list', 'combo', 'filter'):
        body += END
        if rng.random() < .2:
            body += bytes(rng.choice([2, 6]))
    out = [drawing(rng), (0x5d, body)]
    if kind in ('button', 'check', 'radio', 'rect', 'edit'):
        out += [drawing(rng, 8)] + txo(rng, text(rng))
    return out


def chart(rng, ver, oid):
    """An embedded chart with cached values of its own."""
    out = []
    if ver >= 80:
        out += [drawing(rng), (0x5d, cmo(5, oid) + END)]
        bof = P('<HHHHII', 0x600, 0x20, 0x1faa, 1997, 0x41, 6)
    else:
        out.append((0x5d, rnd(rng, 60)))
        bof = P('<HHHH', 0x500, 0x20, 3000, 1993)
    out.append((0x809, bof))
    inner = [(0x1002, bytes(16)), (0x1033, b''), (0x1003, bytes(12)), (0x1034, b''), (0x14, b''), (0x83, b'\0\0'),
             (0x1065, P('<H', 1)), (0x203, P('<HHHd', 0, 0, 0, 99.)), (0x203, P('<HHHd', 5, 1, 0, 98.)),
             (0x204, P('<HHH', 1, 1, 0) + (xw.ustr('cached') if ver >= 80 else b'\x06\0cached')),
             (0x200, P('<IIHHH', 0, 9, 0, 9, 0) if ver >= 80 else P('<5H', 0, 9, 0, 9, 0)), (0x7e, P('<HHHI', 2, 2, 0, 6)),
             (0x231, bytes(16)), (0x3c, rnd(rng, 10)), (0xe5, P('<5H', 1, 0, 3, 0, 3))]
    out += [r for r in inner if rng.random() < .7]
    return out + [(0x0a, b'')]


def ranges(rng, n=None):
    n = rng.choice([0, 1, 2, 5]) if n is None else n
    return P('<H', n) + b''.join(P('<4H', *ref8(rng)) for i in range(n))


def condfmt(rng):
    out = []
    n = rng.choice([1, 2, 3])
    ref = ref8(rng)
    out.append((0x1b0, P('<HH4H', n, 1, *ref) + P('<H4H', 1, *ref)))
    for i in range(n):
        f = b'\x1e' + P('<H', rng.randrange(99))
        out.append((0x1b1, P('<BBHHI', 1, 5, len(f), 0, 0x003fffff) + P('<H', 0) + f))
    return out


SHEET8 = {
    'merged': lambda rng, oid: [(0xe5, ranges(rng))],
    'hlink': lambda rng, oid: hlink(rng),
    'comments': comments,
    'objects': objects,
    'chart': lambda rng, oid: chart(rng, 80, oid),
    'condfmt': lambda rng, oid: condfmt(rng),
    'labels': lambda rng, oid: [(0x15f, ranges(rng) + ranges(rng))],
    'window': lambda rng, oid: [(0x23e, P('<HHHIHHI', rng.randrange(0x1000), rng.randrange(9), rng.randrange(9), 0x40,
                                          rng.choice([0, 60, 5]), rng.choice([0, 100, 999]), 0))],
    'window8': lambda rng, oid: [(0x23e, P('<HHHI', 0x6b6, 0, 0, 0))],
    'scale': lambda rng, oid: [(0xa0, P('<HH', rng.choice([1, 3, 400]), rng.choice([1, 4, 100, 0])))],
    'pane': lambda rng, oid: [(0x41, P('<HHHHH', rng.randrange(9), rng.randrange(9), rng.randrange(99), rng.randrange(9), rng.randrange(4)))],
    'selection': lambda rng, oid: [(0x1d, P('<BHHHH', 3, 2, 2, 0, 1) + P('<HHBB', 2, 2, 2, 2))],
    'colinfo': lambda rng, oid: [(0x7d, P('<HHHHHH', 0, rng.choice([3, 255, 256]), 2560, rng.randrange(16), 0x1000, 0))],
    'defcolwidth': lambda rng, oid: [(0x55, P('<H', 10))],
    'stdwidth': lambda rng, oid: [(0x99, P('<H', 2304))],
    'gcw': lambda rng, oid: [(0xab, P('<H', 32) + rnd(rng, 32))],
    'rowheight': lambda rng, oid: [(0x225, P('<HH', rng.randrange(16), 255))],
    'row': lambda rng, oid: [(0x208, P('<HHHHHHI', rng.randrange(65536), 0, 5, rng.randrange(65536), 0, 0, rng.randrange(1 << 28)))],
    'breaks': lambda rng, oid: [(0x1b, P('<H', 2) + P('<6H', 1, 0, 255, 2, 0, 255)), (0x1a, P('<H', 1) + P('<3H', 1, 0, 65535))],
    'header': lambda rng, oid: [(0x14, xw.ustr('&L' + word(rng))), (0x15, b''), (0x26, P('<d', .75)), (0xa1, bytes(34))],
    'calc': lambda rng, oid: [(0xd, P('<H', 1)), (0xc, P('<H', 100)), (0xf, P('<H', 1)), (0x10, P('<d', .001)), (0x11, P('<H', 0)), (0x5f, P('<H', 1))],
    'index': lambda rng, oid: [(0x20b, bytes(20)), (0xd7, rnd(rng, 8))],
    'print': lambda rng, oid: [(0x2a, b'\0\0'), (0x2b, b'\0\0'), (0x4d, rnd(rng, 700)), (0x3c, rnd(rng, 50)), (0x80, bytes(8)), (0x81, P('<H', 0x4c1))],
    'validation': lambda rng, oid: [(0x1b2, P('<HIIiI', 4, 0, 0, -1, 1)), (0x1be, P('<I', 0x80103) + xw.ustr('t') * 4 + bytes(8) + ranges(rng, 1))],
    'filter': lambda rng, oid: [(0x9b, b''), (0x9d, P('<H', 2)), (0x9e, rnd(rng, 24))],
    'protect': lambda rng, oid: [(0x12, P('<H', 1)), (0x13, rnd(rng, 2)), (0x63, P('<H', 1)), (0xdd, P('<H', 1))],
    'feature': lambda rng, oid: [(0x867, rnd(rng, 23)), (0x868, rnd(rng, 43)), (0x871, rnd(rng, 29)), (0x872, P('<HH8sHBiHiH8s', 0x872, 1, bytes(8), 5, 0, 0, 1, 100, 0, bytes(8)) + rnd(rng, 70))],
    'pivot': lambda rng, oid: [(0xb0, rnd(rng, 60)), (0xb1, rnd(rng, 14)), (0xb2, rnd(rng, 8)), (0xb4, rnd(rng, 4)), (0xc5, rnd(rng, 14))],
    'view': lambda rng, oid: [(0x1aa, rnd(rng, 50)), (0x1d, P('<BHHHH', 3, 2, 2, 0, 1) + P('<HHBB', 2, 2, 2, 2)), (0x1ab, b'\1\0')],
    'bitmap': lambda rng, oid: [(0xe9, rnd(rng, 500)), (0x3c, rnd(rng, 300))],
    'future': lambda rng, oid: [(0x862, rnd(rng, 40)), (0x88b, rnd(rng, 16)), (0x89c, rnd(rng, 30)), (0xef, rnd(rng, 12)), (0x1ba, xw.ustr('Sheet1'))],
}


def note5(rng):
    """A comment: its text goes on in further NOTE records."""
    raw = rng.choice([b'', b'n', HI[0] + b'sa', b'two\nlines', b'x' * 300, b'y' * 2047, b'y' * 2048, b'y' * 2049, b'z' * 5000])
    room = rng.choice([2048, 2048, 2048, 100])
    out = [(0x1c, P('<HHH', rng.randrange(9), rng.randrange(9), len(raw)) + raw[:room])]
    for k in range(room, len(raw), room):
        part = raw[k:k + room]
        out.append((0x1c, P('<HHH', 0xffff, 0, len(part)) + part))
    return out


OLD = {
    'note': (20, lambda rng, ver: note5(rng)),
    'chart': (50, lambda rng, ver: chart(rng, ver, 1)),
    'obj': (30, lambda rng, ver: [(0x5d, rnd(rng, rng.choice([30, 60, 100])))]),
    'imdata': (30, lambda rng, ver: [(0x7f, rnd(rng, 900)), (0x3c, rnd(rng, 90))]),
    'country': (30, lambda rng, ver: [(0x8c, P('<HH', 46, 46))]),
    'writeaccess': (30, lambda rng, ver: [(0x5c, (b'\x03Bo' + HI[0] + b' ' * 32)[:32])]),
    'window': (20, lambda rng, ver: [(0x3e, bytes([0, 1, 1, 0, 1]) + P('<HHB', 0, 0, 1) + P('<BBBB', *rnd(rng, 3), 0))] if ver < 30
               else [(0x23e, P('<HHH', 0x6b6 & rng.randrange(4096), 0, 0) + P('<BBBB', *rnd(rng, 3), 0))]),
    'pane': (20, lambda rng, ver: [(0x41, P('<HHHHH' if ver >= 50 else '<HHHHB', 2, 3, 4, 5, 1))]),
    'selection': (20, lambda rng, ver: [(0x1d, P('<BHHHH', 3, 2, 2, 0, 1) + P('<HHBB', 2, 2, 2, 2))]),
    'colinfo': (30, lambda rng, ver: [(0x7d, P('<HHHHHH', 0, 3, 2560, rng.randrange(16), 0, 0)[:11 if ver < 50 else 12])]),
    'colwidth': (20, lambda rng, ver: [(0x24, P('<BBH', 0, 5, 2560))]),
    'rowheight': (20, lambda rng, ver: [(0x25, P('<H', 255))] if ver < 30 else [(0x225, P('<HH', 0, 255))]),
    'defcolwidth': (20, lambda rng, ver: [(0x55, P('<H', 8))]),
    'gcw': (40, lambda rng, ver: [(0x99, P('<H', 2304)), (0xab, P('<H', 32) + rnd(rng, 32))]),
    'breaks': (20, lambda rng, ver: [(0x1b, P('<HHH', 2, 3, 9)), (0x1a, P('<HH', 1, 3))]),
    'header': (20, lambda rng, ver: [(0x14, b'\x03&L' + HI[0]), (0x15, b''), (0x26, P('<d', .75))]),
    'calc': (20, lambda rng, ver: [(0xd, P('<H', 1)), (0xc, P('<H', 100)), (0xf, P('<H', 1)), (0x10, P('<d', .001)), (0x11, P('<H', 0))]),
    'palette': (30, lambda rng, ver: [(0x92, P('<H', 16) + rnd(rng, 64))] if ver < 50 else []),
    'style': (30, lambda rng, ver: [(0x293, P('<H', 3) + b'\x04Stil')] if ver < 50 else []),
    'protect': (20, lambda rng, ver: [(0x12, P('<H', 1)), (0x13, rnd(rng, 2))]),
    'scale': (40, lambda rng, ver: [(0xa0, P('<HH', 3, 4))]),
    'index': (20, lambda rng, ver: [(0xb, bytes(12))] if ver < 30 else [(0x20b, bytes(12))]),
    'print': (20, lambda rng, ver: [(0x2a, b'\0\0'), (0x2b, b'\0\0'), (0x4d, rnd(rng, 200)), (0x3c, rnd(rng, 50))]),
    'name': (20, lambda rng, ver: [(0x18 if ver < 30 else 0x218, rnd(rng, 30))] if ver < 50 else []),
    'extern': (20, lambda rng, ver: [(0x16, P('<H', 1)), (0x17, b'\x05\x01b.xl')] if ver < 50 else []),
    'efont': (20, lambda rng, ver: [(0x45, P('<H', 8))] if ver < 30 else []),
    'window1': (20, lambda rng, ver: [(0x3d, bytes(10 if ver < 50 else 18))]),
}


# --- whole books --------------------------------------------------------------------

def hexed(recs):
    return [[c, d.hex()] for c, d in recs]


def expr(rng, depth, nnames, links, nsheets, ver):
    """Tokens of a random formula. links: (number of references, those to add-ins)."""
    leaf = ['int', 'int', 'num', 'str', 'bool', 'err', 'ref', 'area', 'ref3', 'ref3', 'area3', 'referr', 'areaerr', 'ref3err',
            'PI', 'array'] + ['name'] * 3 * bool(nnames) + ['namex'] * bool(links[1])
    if depth <= 0 or rng.random() < .2:
        k = rng.choice(leaf)
        ref, sh = rng.randrange(links[0]), rng.randrange(nsheets)
        at = (rng.randrange(100), rng.randrange(200), rng.random() < .5)
        return [{'int': ['int', rng.choice([0, 1, 2, 300, 65535])], 'num': ['num', rng.choice(['0', '-2.5', '1e308', '1e-300', '7'])],
                 'str': ['str', rng.choice(['', 'a', '3', '-1.5', 'x y', 'Åsa', 'q' * 255] + ['日'] * (ver >= 80))],
                 'bool': ['bool', rng.randrange(2)], 'err': ['err', rng.choice([0, 7, 15, 23, 29, 36, 42])],
                 'ref': ['ref', *at], 'area': ['area', *at], 'ref3': ['ref3', ref, sh, *at], 'area3': ['area3', ref, sh, *at],
                 'referr': ['referr'], 'areaerr': ['areaerr'], 'ref3err': ['ref3err', ref], 'PI': ['func', 'PI', 0], 'array': ['array'],
                 'name': ['name', rng.randrange(nnames) + 1 if nnames else 0],
                 'namex': ['namex', rng.choice(links[1] or [0]), 1]}[k]]

    def sub():
        return expr(rng, depth - 1, nnames, links, nsheets, ver)
    r = rng.random()
    out = [['space', rng.randrange(1, 5)]] if rng.random() < .1 else []
    if r < .55:
        return out + sub() + sub() + [[rng.choice(sorted(BIN))]]
    if r < .7:
        return out + sub() + [[rng.choice(sorted(UN))]]
    if r < .75:
        return sub() + [['sum1']]
    f = rng.choice(['SIN', 'MOD', 'NOW', 'IF', 'SUM', 'OFFSET', 'CHOOSE', 'COUNTA', 'INDIRECT', 'CELL', 'COUNT'])
    if f == 'NOW':
        return [['volatile'], ['func', f, 0]]
    if f == 'SIN':
        return sub() + [['func', f, 1]]
    if f == 'MOD':
        return sub() + sub() + [['func', f, 2]]
    n = rng.choice([1, 2, 3])
    toks = []
    for i in range(n):
        toks += sub() if rng.random() < .9 else [['miss']]
        if f == 'IF' and i < n - 1:
            toks.append(['goto', rng.choice([2, 8])])
        if f == 'CHOOSE' and i == 0:
            toks.append(['choose', n - 1])
    return toks + [['func', f, n]]


def namerecs(rng, names, ver):
    out = []
    for nm in names:
        toks = [tuple(t) for t in nm['toks']]
        raw = formula(toks, ver, nm.get('cls', 'R'))
        tail = b''
        for t in toks:               # the contents of array constants follow the formula
            if t[0] == 'array':
                tail += bytes([0]) + P('<H', 0) + b'\x01' + P('<d', 5.) if ver >= 80 else bytes([1]) + P('<H', 1) + b'\x01' + P('<d', 5.)
        s = xw.u(nm['n'])
        if 'builtin' in nm:
            out += name(ver, '', raw, nm['sheet'], nm['builtin'], nm.get('flags', 0), tail)
        else:
            out += name(ver, s, raw, nm['sheet'], None, nm.get('flags', 0), tail)
    return out


def somenames(rng, ver, nsheets, links):
    n = rng.choice([0, 1, 2, 3, 5, 12, 20])
    out = []
    for i in range(n):
        s = rng.choice(['Rate', 'area_', '_x', 'Åsa', 'x.y'] + ['日本'] * (ver >= 80)) + str(i)
        if out and rng.random() < .1:
            s = xw.u(out[0]['n'])
        nm = {'n': [ord(c) for c in s], 'sheet': rng.choice([0, 0, 0, rng.randint(0, nsheets)]),
              'cls': rng.choice('RRVA')}
        r = rng.random()
        if r < .1:
            nm.update(flags=rng.choice([2, 4, 6, 8, 0xe, 0x1000]), toks=[])
        elif r < .2:
            nm.update(builtin=rng.choice([0, 3, 6, 7, 13]), n=[33], toks=[['area3', rng.randrange(links[0]), 0, 0, 0, False]])
        elif r < .5:
            nm['toks'] = [['area3', rng.randrange(links[0]), rng.randrange(nsheets), rng.randrange(9), rng.randrange(9), False]]
        else:
            nm['toks'] = expr(rng, rng.choice([0, 1, 2, 3]), n, links, nsheets, ver)
            if rng.random() < .1:
                nm['flags'] = rng.choice([1, 0x10])
        out.append(nm)
    return out


def gaps(recs):
    """Where in the records of a sheet something may stand."""
    out, waits = [], False
    for k, r in enumerate(recs):
        if not waits and r[0] not in ('SHRFMLA', 'ARRAY', 'STRING'):
            out.append(k)
        if r[0] == 'FORMULA' and r[4][0] == 's':
            waits = True
        elif r[0] == 'STRING':
            waits = False
    return out + [len(recs)]


def put(rng, recs, things):
    for t in things:
        at = gaps(recs)
        recs.insert(rng.choice([at[-1], at[-1], rng.choice(at)]), t)


def decorate8(rng, f, o):
    x = f['x']
    oid = 1
    for s in x['sheets']:
        if s[1] != 0 and rng.random() < .5:
            continue
        kinds = [rng.choice(sorted(SHEET8)) for i in range(rng.choice([0, 1, 3, 8]))]
        kinds += [k for k in ('comments', 'hlink', 'chart', 'objects') if rng.random() < .25]
        if s[1] != 0:
            kinds = [k for k in kinds if k != 'chart']
        things = []
        for k in kinds:
            things.append(['X', k, hexed(SHEET8[k](rng, oid))])
            oid += 5
        put(rng, s[2], things)
    if rng.random() < .2:
        x['sheets'].insert(rng.randint(0, len(x['sheets'])), [[77, 97, 99], rng.choice([1, 2, 6]), [
            ['NUMBER', 0, 0, 0, ['n', False, [55], 0]]]])
    n = len(x['sheets'])
    if rng.random() < .8:
        recs, count, addins = links8(rng, n)
        x['links'] = count
        x['names'] = somenames(rng, 80, n, (count, addins))
        o['post'] = hexed(recs + namerecs(rng, x['names'], 80))
    for where in ('pre', 'mid', 'last'):
        o[where] = hexed(sum((plain8(rng) for i in range(rng.choice([0, 0, 1, 3]))), []))
    sh = list(range(n))
    order = list(sh)
    if rng.random() < .3:
        rng.shuffle(order)
    o['sheetorder'] = order
    o['hidden'] = {str(k): rng.choice([0, 1, 2]) for k in sh} if rng.random() < .3 else {}


def decorate_old(rng, f, o):
    x = f['x']
    ver = x['ver']
    try:
        HI[0] = b'\xe5'
        HI[0].decode(o['codec'])
    except UnicodeDecodeError:
        HI[0] = b'a'
    for s in x['sheets']:
        if s[1] != 0:
            continue
        kinds = [k for k in OLD if OLD[k][0] <= ver]
        things = [['X', k, hexed(OLD[k][1](rng, ver))] for k in (rng.choice(kinds) for i in range(rng.choice([1, 3, 8])))]
        if rng.random() < .4:
            things.append(['X', 'note', hexed(note5(rng))])
        put(rng, s[2], things)
    if ver < 50:
        return
    if rng.random() < .2:
        x['sheets'].insert(rng.randint(0, len(x['sheets'])), [[77, 97, 99], rng.choice([1, 2, 6]), []])
    n = len(x['sheets'])
    plain = [''.join(map(chr, s[0])) for s in x['sheets']]
    try:
        recs = links5(rng, plain)
    except UnicodeEncodeError:
        recs = None
    if recs and o['codec'] == 'cp1252' and rng.random() < .8:
        x['links'] = n + 2
        x['names'] = somenames(rng, ver, n, (n, []))
        o['mid' if rng.random() < .5 else 'post'] = hexed(recs + namerecs(rng, x['names'], ver))
    o['pre'] = hexed(sum((plain5(rng, ver) for i in range(rng.choice([0, 1, 3]))), []))
    o['sheetorder'] = list(range(n))
    o['hidden'] = {str(k): rng.choice([0, 1, 2]) for k in range(n)} if rng.random() < .3 else {}


def realize(rng, x):
    """Fill in the bytes of a book of ExtrasMC; options of the writer."""
    oid = 1
    for s in x['sheets']:
        for r in s[2]:
            if r[0] == 'X' and not r[2]:
                r[2] = hexed(SHEET8[r[1]](rng, oid))
                oid += 5
    own = [(0x1ae, P('<HBB', len(x['sheets']), 1, 4)), (0x17, P('<HHHH', 1, 0, 0, 0))]
    return {'post': hexed(own + namerecs(rng, x['names'], 80))} if x['names'] else {}


# --- xlsx ----------------------------------------------------------------------------

def xl(s):
    return s.replace('&', '&amp;').replace('<', '&lt;')


def xlsx_extras(rng, nsheets):
    """Options of the writer of xlsx packages."""
    def some(*xs):
        return ''.join(x for x in xs if rng.random() < .4)
    dn = []
    for i in range(rng.choice([0, 1, 2, 5])):
        nm = rng.choice(['Rate', '_xlnm.Print_Area', '_xlnm._FilterDatabase', 'Åsa', 'x.y', 'rate']) + rng.choice(['', str(i)])
        at = rng.choice(['', '', ' localSheetId="%d"' % rng.randrange(nsheets), ' hidden="1"', ' function="1" vbProcedure="1"'])
        dn.append('<definedName name="%s"%s>%s</definedName>' % (nm, at, xl(rng.choice(
            ["Sheet1!$A$1", '1/0', '"a"+1', '#REF!', 'Rate', '', '[1]b!A1', '  x ', '_x0041_&1']))))
    book = some('<functionGroups/>', '<externalReferences><externalReference r:id="rIdX"/></externalReferences>') + (
        '<definedNames>%s</definedNames>' % ''.join(dn) if dn else '') + some(
        '<calcPr calcId="191029"/>', '<customWorkbookViews><customWorkbookView name="me" guid="{0}"/></customWorkbookViews>',
        '<pivotCaches><pivotCache cacheId="1" r:id="rIdP"/></pivotCaches>',
        '<extLst><ext uri="{7}" xmlns:x15="u:x15"><x15:workbookPr chartTrackingRefBase="1"/></ext></extLst>')
    pre = some('<fileVersion appName="xl"/>', '<fileSharing readOnlyRecommended="1"/>')
    mid = some('<workbookProtection/>', '<bookViews><workbookView xWindow="1"/></bookViews>')
    spre, spost, srels, files = [], [], [], []
    for k in range(nsheets):
        spre.append(some('<sheetPr><tabColor rgb="FF00FF00"/></sheetPr>', '<sheetViews><sheetView workbookViewId="0"><pane xSplit="1" topLeftCell="B1"'
                    ' state="frozen"/><selection pane="topRight" activeCell="C3" sqref="C3"/></sheetView></sheetViews>',
                    '<sheetFormatPr defaultRowHeight="15"/>', '<cols><col min="1" max="16384" width="9" style="1"/></cols>'))
        spost.append(some('<sheetCalcPr/>', '<sheetProtection sheet="1"/>', '<autoFilter ref="A1:D9"/>',
                     '<sortState ref="A1:B2"/>') + '@M@' + some(
                     '<phoneticPr fontId="1"/>', '<conditionalFormatting sqref="A1:ZZ900"><cfRule type="expression" dxfId="0" priority="1">'
                     '<formula>A1&gt;5</formula></cfRule></conditionalFormatting>',
                     '<dataValidations count="1"><dataValidation sqref="F9" type="list"><formula1>"a,b"</formula1></dataValidation></dataValidations>',
                     '<hyperlinks><hyperlink ref="B2" r:id="rId7" tooltip="x"/><hyperlink ref="ZZ999" location="S!A1" display="d"/></hyperlinks>',
                     '<pageMargins left="0.7"/>', '<headerFooter><oddHeader>&amp;Lv</oddHeader></headerFooter>',
                     '<rowBreaks count="1"><brk id="3"/></rowBreaks>', '<drawing r:id="rId8"/>', '<legacyDrawing r:id="rId9"/>',
                     '<tableParts count="1"><tablePart r:id="rId6"/></tableParts>',
                     '<extLst><ext uri="{7}" xmlns:x14="u:x14"><x14:row r="1"><x14:c r="A1"><x14:v>77</x14:v></x14:c></x14:row></ext></extLst>'))
        rel = []
        if rng.random() < .6:
            comments = []
            for i in range(rng.choice([1, 2, 3])):
                ref = '%s%d' % (rng.choice(['A', 'C', 'ZZ', 'xfd']), rng.choice([1, 2, 9, 5000]))
                t = xl(rng.choice(TEXTS))
                body = rng.choice(['<t>%s</t>' % t, '<r><rPr><b/></rPr><t xml:space="preserve">%s</t></r><r><t>x</t></r>' % t, '',
                                   '<t>%s</t><rPh sb="0" eb="1"><t>p</t></rPh>' % t, '<t/>'])
                comments.append('<comment ref="%s" authorId="%d"%s><text>%s</text></comment>' % (
                    ref, rng.randrange(2), rng.choice(['', ' shapeId="0"']), body))
            nm = rng.choice(['comments%d.xml', 'Comments%d.xml', 'comments/comment%d.xml']) % (k + 1)
            files.append(('xl/' + nm, '<?xml version="1.0"?><comments xmlns="%s"><authors><author>me</author><author/></authors><commentList>'
                          '%s</commentList>%s</comments>' % (xw.NS, ''.join(comments), some('<extLst/>'))))
            rel.append(('comments', rng.choice(['../', '../', '/xl/']) + nm))
        for t, g in (('hyperlink', 'http://a.b/'), ('drawing', '../drawings/drawing1.xml'), ('vmlDrawing', '../drawings/v.vml'),
                     ('table', '../tables/table1.xml'), ('printerSettings', '../p/p1.bin')):
            if rng.random() < .3:
                rel.append((t, g))
        rng.shuffle(rel)
        srels.append(rel)
    for nm, text in (('xl/theme/theme1.xml', '<a/>'), ('xl/calcChain.xml', '<calcChain xmlns="%s"><c r="A1" i="1"/></calcChain>' % xw.NS),
                     ('xl/drawings/drawing1.xml', '<d/>'), ('xl/externalLinks/externalLink1.xml', '<externalLink xmlns="%s"><externalBook><sheetDataSet>'
                      '<sheetData sheetId="0"><row r="1"><cell r="A1"><v>5</v></cell></row></sheetData></sheetDataSet></externalBook></externalLink>' % xw.NS),
                     ('docProps/app.xml', '<Properties/>'), ('customXml/item1.xml', '<x/>'), ('xl/worksheets/sheet99.xml', 'no xml'),
                     ('xl/vbaProject.bin', '\0\1'), ('xl/printerSettings/p1.bin', ''), ('xl/media/', ''), ('xl/charts/chart1.xml', '<c/>'),
                     ('docProps/core.xml', '<cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties"'
                      ' xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/"><dc:creator/><cp:lastModifiedBy>Åsa'
                      '</cp:lastModifiedBy><dcterms:created>2020-01-01T00:00:00Z</dcterms:created><dcterms:modified>x</dcterms:modified>'
                      '</cp:coreProperties>')):
        if rng.random() < .3:
            files.append((nm, text))
    rng.shuffle(files)
    styles = '<cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles><dxfs count="1"><dxf><font/><numFmt numFmtId="%d"' \
        ' formatCode="%s"/></dxf></dxfs><tableStyles count="0"/><colors><indexedColors/></colors>' % (
            rng.choice([0, 14, 164, 165, 170]), rng.choice(['yyyy', '0.00'])) if rng.random() < .5 else ''
    return dict(prefix=False, props=False, rels=0, extra=dict(
        book=book, pre=pre, mid=mid, spre=spre, spost=spost, srels=srels, files=files, styles=styles,
        states=[rng.choice(['', '', ' state="hidden"', ' state="veryHidden"', ' state="visible"']) for k in range(nsheets)],
        rowattr=rng.choice(['', ' spans="1:3" ht="15" customHeight="1" x14ac:dyDescent="0.25"', ' hidden="1" s="1" customFormat="1"']),
        cellattr=rng.choice(['', ' cm="1"', ' vm="1" ph="1"'])))
