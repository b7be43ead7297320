"""Writers of spread sheet files: the xlsx package of spec/Xlsx.tla, the BIFF8
records of spec/Biff.tla and the container of spec/Ole.tla as bytes."""
import io
import re
import struct
import zipfile
from xml.sax.saxutils import escape, quoteattr

NS = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
REL = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PKG = 'http://schemas.openxmlformats.org/package/2006/relationships'

# attributes and children of an <xf> that do not bear on what its cells are
XFS = ['/>', ' applyNumberFormat="1"/>', ' applyNumberFormat="0" xfId="0"/>', ' fillId="14" borderId="22" xfId="14"/>',
       ' applyFont="1" applyAlignment="1"><alignment horizontal="left" wrapText="1"/></xf>',
       ' applyNumberFormat="false" quotePrefix="1"/>', ' applyProtection="1"><protection locked="0"/></xf>']


def u(cps):
    return ''.join(map(chr, cps))


# --- xlsx -----------------------------------------------------------------

def _t(tag, node):
    pre, text = node
    return '<%s%s>%s</%s>' % (tag, ' xml:space="preserve"' if pre else '', escape(u(text)), tag)


def _si(nodes, tag):
    out = []
    for n in nodes:
        if n[0] == 't':
            out.append(_t('t', n[1:]))
        elif n[0] == 'r':
            out.append('<r><rPr><b/></rPr>%s</r>' % ''.join(_t('t', x[1:]) for x in n[1]))
        else:
            out.append('<rPh sb="0" eb="1">%s</rPh>' % ''.join(_t('t', x[1:]) for x in n[1]))
    return '<%s>%s</%s>' % (tag, ''.join(out), tag)


def _cell(c, more=''):
    at = ''
    if c['r']:
        at += ' r="%s"' % u(c['r'][0])
    if c['s']:
        at += ' s="%d"' % c['s'][0]
    if c['t']:
        at += ' t="%s"' % c['t'][0]
    at += more
    kids = ''
    if c.get('f'):
        kids += '<f>%s</f>' % escape(c['f'])
    if c['v']:
        kids += _t('v', c['v'][0])
    if c['is']:
        kids += _si(c['is'][0], 'is')
    return '<c%s>%s</c>' % (at, kids) if kids else '<c%s/>' % at


def _sheet(part, dim, pre='', post='@M@', rowattr='', cellattr=''):
    rows = []
    for r, cells in part[1]:
        rows.append('<row%s%s>%s</row>' % (' r="%d"' % r[0] if r else '', rowattr, ''.join(_cell(c, cellattr) for c in cells)))
    merged = ''
    if part[2]:
        merged = '<mergeCells count="%d">%s</mergeCells>' % (len(part[2]), ''.join(
            '<mergeCell ref="%s:%s"/>' % (u(a), u(b)) for a, b in part[2]))
    ns = ' xmlns:x14ac="u:x14ac"' if 'x14ac' in rowattr else ''
    return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<worksheet xmlns="%s" xmlns:r="%s"%s>%s%s'
            '<sheetData>%s</sheetData>%s</worksheet>' % (NS, REL, ns, dim, pre, ''.join(rows), post.replace('@M@', merged)))


def xlsx(p, opts=None):
    """Bytes of package p. opts: layout choices that carry no meaning."""
    o = dict(sstname='xl/sharedStrings.xml', bookname='xl/workbook.xml', dim='', order=0, deflate=True,
             stylexfs=0, rels=0, prefix=False, props=False, extra={})
    o.update(opts or {})
    x = o['extra']
    files = []
    ct = '<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'
    files.append(('[Content_Types].xml', ct))
    rels = ''.join('<Relationship Id=%s Type=%s Target=%s/>' % (
        quoteattr(i), quoteattr(REL + '/' + t), quoteattr(u(g))) for i, t, g in p['rels'])
    files.append(('xl/_rels/workbook.xml.rels', '<?xml version="1.0"?><Relationships xmlns="%s">%s'
                  '</Relationships>' % (PKG, rels)))
    pr = '<workbookPr%s/>' % (' date1904="%s"' % u(p['date1904'][0]) if p['date1904'] else '')
    states = x.get('states', [])
    sheets = ''.join('<sheet name=%s sheetId="%d"%s r:id=%s/>' % (
        quoteattr(u(n)), 7 - i if i < 7 else i, states[i] if i < len(states) else '', quoteattr(r))
        for i, (n, r) in enumerate(p['sheets']))
    files.append((o['bookname'], '<?xml version="1.0"?><workbook xmlns="%s" xmlns:r="%s">%s%s%s<sheets>%s</sheets>%s'
                  '</workbook>' % (NS, REL, x.get('pre', ''), pr if p['date1904'] or o['order'] % 2 else '', x.get('mid', ''),
                                   sheets, x.get('book', ''))))
    if p['styles']:
        st = p['styles'][0]
        fm = ''.join('<numFmt numFmtId="%d" formatCode=%s/>' % (k, quoteattr(u(c))) for k, c in st['fmts'])
        j = o.get('xfattr', 0)
        xf = ''.join('<xf%s fontId="0"%s' % (' numFmtId="%d"' % v[0] if v else '', XFS[(i * j + j) % len(XFS)] if j else '/>')
                     for i, v in enumerate(st['xfs']))
        sx = ''.join('<xf numFmtId="%d"/>' % (14 if k % 2 else 0) for k in range(o['stylexfs']))
        files.append(('xl/styles.xml', '<?xml version="1.0"?><styleSheet xmlns="%s">%s%s<cellXfs>%s</cellXfs>%s'
                      '</styleSheet>' % (NS, '<numFmts>%s</numFmts>' % fm if fm else '',
                                         '<cellStyleXfs>%s</cellStyleXfs>' % sx if sx else '', xf, x.get('styles', ''))))
    if p['sst']:
        files.append((o['sstname'], '<?xml version="1.0"?><sst xmlns="%s">%s</sst>' % (
            NS, ''.join(_si(s, 'si') for s in p['sst']))))
    for k, part in enumerate(p['parts']):
        if x:
            files.append((u(part[0]), _sheet(part, o['dim'], x['spre'][k], x['spost'][k], x['rowattr'], x['cellattr'])))
        else:
            files.append((u(part[0]), _sheet(part, o['dim'])))
        name = u(part[0]).rsplit('/', 1)[-1]
        if x and x['srels'][k]:
            files.append(('xl/worksheets/_rels/%s.rels' % name, '<?xml version="1.0"?><Relationships xmlns="%s">%s</Relationships>' % (
                PKG, ''.join('<Relationship Id="rId%d" Type="%s/%s" Target="%s"/>' % (i, REL, t, g)
                             for i, (t, g) in enumerate(x['srels'][k])))))
        if o['rels'] and u(part[0]).lower().startswith('xl/worksheets/'):
            files.append(('xl/worksheets/_rels/%s.rels' % name, '<?xml version="1.0"?><Relationships xmlns="%s">'
                          '<Relationship Id="rId1" Type="%s/printerSettings" Target="../p/p1.bin"/>'
                          '<Relationship Id="rId2" Type="%s/comments" Target="../%s"/></Relationships>' % (
                              PKG, REL, REL, 'Comments.xml' if o['rels'] == 1 else 'nosuch.xml')))
    if o['rels'] == 1:
        files.append(('xl/Comments.xml', '<?xml version="1.0"?><comments xmlns="%s"><authors><author>me</author></authors>'
                      '<commentList><comment ref="A1" authorId="0"><text><r><t>note</t></r></text></comment>'
                      '</commentList></comments>' % NS))
    if o['props']:
        files.append(('docProps/core.xml', '<?xml version="1.0"?><cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org'
                      '/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:creator>me'
                      '</dc:creator></cp:coreProperties>'))
    files += [tuple(f) for f in x.get('files', [])]
    if o['prefix']:
        files = [(n, re.sub('<(/?)(?=[a-zA-Z])', '<\\1x:', t).replace(' xmlns="%s"' % NS, ' xmlns:x="%s"' % NS)
                  if ' xmlns="%s"' % NS in t else t) for n, t in files]
    k = o['order'] % len(files)
    files = files[k:] + files[:k]
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED if o['deflate'] else zipfile.ZIP_STORED) as z:
        for n, text in files:
            z.writestr(zipfile.ZipInfo(n), text.encode('utf-8'), z.compression)
    return bio.getvalue()


# --- BIFF8 ------------------------------------------------------------------

def rec(op, data=b''):
    assert len(data) <= 8224, len(data)
    return struct.pack('<HH', op, len(data)) + data


def ustr(s, lenlen=2, wide=None, rt=None, pho=None):
    """A BIFF8 unicode string in one piece."""
    units = len(s.encode('utf-16-le')) // 2
    if wide is None:
        wide = any(ord(c) > 255 for c in s)
    flags = (1 if wide else 0) | (8 if rt is not None else 0) | (4 if pho is not None else 0)
    b = struct.pack('<B' if lenlen == 1 else '<H', units) + bytes([flags])
    if rt is not None:
        b += struct.pack('<H', len(rt))
    if pho is not None:
        b += struct.pack('<i', len(pho))
    b += s.encode('utf-16-le') if wide else s.encode('latin-1')
    for r in rt or ():
        b += struct.pack('<HH', *r)
    return b + (pho or b'')


def sst_chunks(strings, split, total=None):
    """SST data split in records. strings: (text, wide, rt or None, pho or None);
    split(kind) -> bool says whether to start a new record at this place ('head' before a string,
    'char' between characters, 'run' between runs and 'pho' in phonetic data) and, for 'char',
    which width the continued characters have: returns (True, wide)."""
    out = [bytearray(struct.pack('<ii', total if total is not None else len(strings), len(strings)))]

    def room():
        return 8224 - len(out[-1])
    for text, wide, rt, pho in strings:
        raw = text.encode('utf-16-le')
        units = [raw[i] + 256 * raw[i + 1] for i in range(0, len(raw), 2)]
        head = struct.pack('<HB', len(units), (1 if wide else 0) | (8 if rt is not None else 0)
                           | (4 if pho is not None else 0))
        if rt is not None:
            head += struct.pack('<H', len(rt))
        if pho is not None:
            head += struct.pack('<i', len(pho))
        if room() < len(head) or (len(out[-1]) > 8 or len(out) > 1) and len(out[-1]) and split('head')[0]:
            out.append(bytearray())
        out[-1] += head
        w = wide
        for i, x in enumerate(units):
            s, nw = split('char')
            if room() < (2 if w else 1) or s:
                # the rest may be narrow only if it fits
                w = nw or any(v > 255 for v in units[i:])
                out.append(bytearray([1 if w else 0]))
            out[-1] += struct.pack('<H', x) if w else bytes([x])
        for r in rt or ():
            if room() < 4 or split('run')[0]:
                out.append(bytearray())
            out[-1] += struct.pack('<HH', *r)
        for v in pho or b'':
            if room() < 1 or split('pho')[0]:
                out.append(bytearray())
            out[-1].append(v)
    return [bytes(x) for x in out]


def numbytes(x):
    return struct.pack('<d', x)


FORMULA_TOKENS = b'\x03\x00\x1e\x01\x00'      # tInt 1


def raws(recs):
    """Records given as code and hexadecimal data."""
    return b''.join(rec(c, bytes.fromhex(h)) for c, h in recs)


def cellrecord(r, num, k=0):
    """Bytes of one record; num(tok) -> float of a number token."""
    n = r[0]
    if n == 'NUMBER':
        return rec(0x203, struct.pack('<HHH', *r[1:4]) + numbytes(num(r[4])))

    def rk(x):
        if x[0] == 'i':
            return struct.pack('<i', x[1])
        b = numbytes(num(x[1]))[4:]
        return bytes([b[0] & 0xfc | (1 if x[2] else 0)]) + b[1:]
    if n == 'RK':
        return rec(0x27e, struct.pack('<HHH', *r[1:4]) + rk(r[4]))
    if n == 'MULRK':
        return rec(0xbd, struct.pack('<HH', *r[1:3]) + b''.join(struct.pack('<H', xf) + rk(x) for xf, x in r[3])
                   + struct.pack('<H', r[2] + len(r[3]) - 1))
    if n == 'LABELSST':
        return rec(0xfd, struct.pack('<HHHi', *r[1:5]))
    if n == 'LABEL':
        return rec(0x204, struct.pack('<HHH', *r[1:4]) + bytes(r[4]))
    if n == 'RSTRING':
        return rec(0xd6, struct.pack('<HHH', *r[1:4]) + bytes(r[4]) + struct.pack('<HHH', 1, 0, 5))
    if n == 'BOOLERR':
        return rec(0x205, struct.pack('<HHHBB', *r[1:6]))
    if n == 'BLANK':
        return rec(0x201, struct.pack('<HHH', *r[1:4]))
    if n == 'MULBLANK':
        return rec(0xbe, struct.pack('<HH', *r[1:3]) + b''.join(struct.pack('<H', x) for x in r[3])
                   + struct.pack('<H', r[2] + len(r[3]) - 1))
    if n == 'FORMULA':
        x = r[4]
        res = (numbytes(num(x[1])) if x[0] == 'n' else
               bytes([0, 0, 0, 0, 0, 0, 255, 255]) if x[0] == 's' else
               bytes([1, 0, x[1], 0, 0, 0, 255, 255]) if x[0] == 'b' else
               bytes([2, 0, x[1], 0, 0, 0, 255, 255]) if x[0] == 'e' else
               bytes([3, 0, 0, 0, 0, 0, 255, 255]))
        return rec((0x6, 0x206, 0x406)[r[5] if len(r) > 5 else 0],
                   struct.pack('<HHH', *r[1:4]) + res + struct.pack('<HI', 0, 0) + FORMULA_TOKENS)
    if n == 'STRING':
        return rec(0x207, bytes(r[1][0])) + b''.join(rec(0x3c, bytes(c)) for c in r[1][1:])
    if n == 'SHRFMLA':
        return rec(0x4bc, struct.pack('<HHBBBBH', 0, 1, 0, 1, 0, 1, 3) + b'\x1e\x01\x00')
    if n == 'ARRAY':
        return rec(0x221, struct.pack('<HHBBBxxxxxH', 0, 1, 0, 1, 0, 3) + b'\x1e\x01\x00')
    if n == 'MERGED':
        return rec(0xe5, struct.pack('<H', len(r[1])) + b''.join(struct.pack('<HHHH', *m) for m in r[1]))
    if n == 'ROW':
        return rec(0x208, struct.pack('<HHHHHHI', r[1], 0, 1, 255, 0, 0, 0x100))
    if n == 'DIM':
        return rec(0x200, struct.pack('<IIHHH', *r[1:6]))
    if n == 'OTHER':
        return rec(r[1], bytes(r[2]))
    if n == 'X':
        return raws(r[2])
    raise ValueError(n)


def bof(kind):
    return rec(0x809, struct.pack('<HHHHII', 0x600, kind, 0x1faa, 1997, 0x41, 6))


def biff(b, num, opts=None):
    """Bytes of the workbook stream of book b."""
    if b.get('ver', 80) < 80:
        return oldbiff(b, num, opts)
    o = dict(codepage=True, fonts=4, sheetorder=None, pre=[], mid=[], post=[], last=[], hidden={})
    o.update(opts or {})
    g1 = bof(5) + raws(o['pre'])
    if o['codepage']:
        g1 += rec(0x42, struct.pack('<H', 1200))
    g1 += rec(0x22, struct.pack('<H', b['mode']))
    for k in range(o['fonts']):
        g1 += rec(0x31, struct.pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0) + b'\x05\0Arial')
    for key, code in b['fmts']:
        g1 += rec(0x41e, struct.pack('<H', key) + ustr(u(code)))
    for k, key in enumerate(b['xfs']):
        g1 += rec(0xe0, struct.pack('<HHHBBBBIiH', 0, key, 1, 0x20, 0, 0, 0, 0, 0, 0x20c0))
    g1 += raws(o['mid'])
    g3 = raws(o['post'])
    if b['sst']:
        g3 += rec(0xfc, bytes(b['sst'][0])) + b''.join(rec(0x3c, bytes(c)) for c in b['sst'][1:])
    g3 += raws(o['last']) + rec(0x0a)
    bodies = []
    for name, typ, recs in b['sheets']:
        bodies.append(bof({0: 0x10, 1: 0x40, 2: 0x20, 6: 6}[typ]) + b''.join(cellrecord(r, num) for r in recs)
                      + rec(0x23e, struct.pack('<HHHIHHI', 0x6b6, 0, 0, 0x40, 0, 0, 0)) + rec(0x0a))
    order = o['sheetorder'] or list(range(len(bodies)))
    heads = [struct.pack('<BB', o['hidden'].get(str(k), 0), typ) + ustr(u(name), 1) for k, (name, typ, recs) in enumerate(b['sheets'])]
    pos = len(g1) + sum(4 + 4 + len(h) for h in heads) + len(g3)
    offs = {}
    for k in order:
        offs[k] = pos
        pos += len(bodies[k])
    g2 = b''.join(rec(0x85, struct.pack('<i', offs[k]) + h) for k, h in enumerate(heads))
    return g1 + g2 + g3 + b''.join(bodies[k] for k in order)


def bytestr(text, codec, ll=1):
    raw = text.encode(codec)
    return struct.pack('<B' if ll == 1 else '<H', len(raw)) + raw


def oldrecord(r, num, ver):
    """Bytes of one cell record of a version before 8."""
    n = r[0]
    two = ver < 30
    if n == 'IXFE':
        return rec(0x44, struct.pack('<H', r[1]))
    if n == 'STRING':
        return rec(0x7 if two else 0x207, bytes(r[1][0])) + b''.join(rec(0x3c, bytes(c)) for c in r[1][1:])
    if n == 'ROW':
        return (rec(0x8, struct.pack('<HHHHHBH', r[1], 0, 256, 255, 0, 0, 0)) if two else
                rec(0x208, struct.pack('<HHHHHHI', r[1], 0, 1, 255, 0, 0, 0x100)))
    if n == 'DIM':
        return (rec(0x0, struct.pack('<HHHH', *r[1:5])) if two else
                rec(0x200, struct.pack('<HHHHH', *r[1:6])))
    if n in ('X', 'OTHER', 'SHRFMLA', 'MULRK', 'MULBLANK', 'RK'):
        return cellrecord(r, num)
    if n == 'ARRAY':
        if two:
            return rec(0x21, struct.pack('<HHBBBB', 0, 1, 0, 1, 0, 3) + b'\x1e\x01\x00')
        if ver < 50:
            return rec(0x221, struct.pack('<HHBBHH', 0, 1, 0, 1, 0, 3) + b'\x1e\x01\x00')
        return cellrecord(r, num)
    x = r[3]
    head = struct.pack('<HH', *r[1:3]) + (bytes([x[0] | 0x40, x[1], 0]) if two else struct.pack('<H', x))
    if n == 'NUMBER':
        return rec(0x3 if two else 0x203, head + numbytes(num(r[4])))
    if n == 'INTEGER':
        return rec(0x2, head + struct.pack('<H', r[4]))
    if n == 'LABEL':
        return rec(0x4 if two else 0x204, head + bytes(r[4]))
    if n == 'RSTRING':
        return rec(0xd6, head + bytes(r[4]) + bytes([2, 0, 5, 1, 6]))
    if n == 'BOOLERR':
        return rec(0x5 if two else 0x205, head + bytes(r[4:6]))
    if n == 'BLANK':
        return rec(0x1 if two else 0x201, head)
    if n == 'FORMULA':
        x = r[4]
        res = (numbytes(num(x[1])) if x[0] == 'n' else
               bytes([0, 0, 0, 0, 0, 0, 255, 255]) if x[0] == 's' else
               bytes([1, 0, x[1], 0, 0, 0, 255, 255]) if x[0] == 'b' else
               bytes([2, 0, x[1], 0, 0, 0, 255, 255]) if x[0] == 'e' else
               bytes([3, 0, 0, 0, 0, 0, 255, 255]))
        if two:
            return rec(0x6, head + res + b'\0\3\x1e\1\0')
        if ver < 50:
            return rec(0x206 if ver == 30 else 0x406, head + res + struct.pack('<H', 0) + FORMULA_TOKENS)
        return rec(0x6, head + res + struct.pack('<HI', 0, 0) + FORMULA_TOKENS)
    raise ValueError(n)


def oldbof(ver, kind):
    if ver < 30:
        return rec(0x9, struct.pack('<HH', 0x200, kind))
    if ver < 50:
        return rec(0x209 if ver == 30 else 0x409, struct.pack('<HHH', 0x300 if ver == 30 else 0x400, kind, 0))
    return rec(0x809, struct.pack('<HHHH', 0x500, kind, 3000, 1993 if ver == 50 else 1995))


def oldbiff(b, num, opts=None):
    """Bytes of a stream of a version before 8."""
    o = dict(codepage=1252, codec='cp1252', fonts=4, sheetorder=None, stdcount=True, pre=[], mid=[], post=[], hidden={})
    o.update(opts or {})
    ver, codec = b['ver'], o['codec']

    def common():
        out = rec(0x42, struct.pack('<H', o['codepage'])) if o['codepage'] else b''
        return out + rec(0x22, struct.pack('<H', b['mode']))

    def looks(fmts, xfs):
        out = b''
        for k in range(o['fonts']):
            if ver < 30:
                out += rec(0x31, struct.pack('<HH', 200, 0) + b'\x05Arial')
            elif ver < 50:
                out += rec(0x231, struct.pack('<HHH', 200, 0, 0x7fff) + b'\x05Arial')
            else:
                out += rec(0x31, struct.pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0) + b'\x05Arial')
        if 30 <= ver < 50 and o['stdcount']:
            out += rec(0x56, struct.pack('<H', min(21, len(fmts))))
        for key, code in fmts:
            text = bytestr(u(code), codec)
            if ver < 40:
                out += rec(0x1e, text)
            elif ver < 50:
                out += rec(0x41e, struct.pack('<H', 0) + text)
            else:
                out += rec(0x41e, struct.pack('<H', key) + text)
        for key in xfs:
            if ver == 21:
                out += rec(0x43, struct.pack('<BBBB', 0, 0, key | 0x40, 0))
            elif ver == 30:
                out += rec(0x243, struct.pack('<BBBBHHI', 0, key, 1, 0xfc, 0xfff0, 0xce00, 0))
            elif ver in (40, 45):
                out += rec(0x443, struct.pack('<BBHBBHI', 0, key, 0xfff1, 0x20, 0xfc, 0xce00, 0))
            elif ver >= 50:
                out += rec(0xe0, struct.pack('<HHHBBIi', 0, key, 0xfff1, 0x20, 0xfc, 0x20c0, 0))
        return out

    def cells(recs):
        return b''.join(oldrecord(r, num, ver) for r in recs)
    if ver <= 40:
        (name, typ, recs), = b['sheets']
        return oldbof(ver, 0x10) + common() + looks(b['fmts'], b['xfs']) + cells(recs) + rec(0x0a)
    names = [bytestr(u(s[0]), codec) for s in b['sheets']]
    if ver == 45:
        g = oldbof(45, 0x100) + common()
        heads = b''.join(rec(0x85, n) for n in names)
        g += rec(0x8e, struct.pack('<i', len(g) + 8 + len(heads))) + heads
        for n, (name, typ, recs, fmts, xfs) in zip(names, b['sheets']):
            body = oldbof(40, 0x10) + common() + looks(fmts, xfs) + cells(recs) + rec(0x0a)
            g += rec(0x8f, struct.pack('<i', len(body)) + n) + body
        return g + rec(0x0a)
    g1 = oldbof(ver, 5) + common() + raws(o['pre']) + looks(b['fmts'], b['xfs']) + raws(o['mid'])
    g3 = raws(o['post']) + rec(0x0a)
    bodies = [oldbof(ver, {0: 0x10, 1: 0x40, 2: 0x20, 6: 6}[typ]) + cells(recs) + rec(0x0a) for name, typ, recs in b['sheets']]
    order = o['sheetorder'] or list(range(len(bodies)))
    pos = len(g1) + sum(4 + 6 + len(n) for n in names) + len(g3)
    offs = {}
    for k in order:
        offs[k] = pos
        pos += len(bodies[k])
    g2 = b''.join(rec(0x85, struct.pack('<iBB', offs[k], o['hidden'].get(str(k), 0), b['sheets'][k][1]) + n) for k, n in enumerate(names))
    return g1 + g2 + g3 + b''.join(bodies[k] for k in order)


# --- OLE2 container -----------------------------------------------------------

FREE, END, SATSEC, MSATSEC = -1, -2, -3, -4


def _tree(rng, ids, key):
    """A random search tree of directory ids: (root, {id: (left, right)})."""
    links = {}

    def build(xs):
        if not xs:
            return -1
        k = rng.randrange(len(xs)) if len(xs) < 12 else len(xs) // 2
        links[xs[k]] = (build(xs[:k]), build(xs[k + 1:]))
        return xs[k]
    return build(sorted(ids, key=key)), links


def ole_layout(rng, size, place='mixed', extra=2, bulk=0, nested=False, free=0, dirorder=True, padding=0, nameless=0, name='Workbook', more=()):
    """Layout of a container with a Workbook stream of `size` bytes (with `more`, with those streams (name, size,
    depth) in its place; then the ids of their entries come along).

    place: 'straight', 'shuffled' or 'mixed' (a few swaps of sectors)."""
    streams = [(name, size)] if not more else []
    names = ['\x05SummaryInformation', '\x05DocumentSummaryInformation', '\x01CompObj', 'Ctls', 'Zz', 'book1', 'Workbook2',
             'Workboo', 'B', '_VBA_PROJECT_CUR']
    for k in range(extra):
        nm = names[k] if k < len(names) else 'S%d' % k
        streams.append((nm, rng.choice([0, 1, 63, 64, 65, 200, 512, 4095, 4096, 4097, 5000]) if k < 9 else rng.choice([0, 3])))
    if bulk:
        streams.append(('Bulk', bulk))
    entries = [dict(name=n, typ=2, size=s, kids=None) for n, s in streams]
    if nested:
        entries.append(dict(name='MBD0018D4CE', typ=1, size=0, kids=[]))
        st = entries[-1]
        for n, s in [('Workbook', rng.choice([100, 5000])), ('\x01Ole', 20)]:
            e = dict(name=n, typ=2, size=s, kids=None, inside=st)
            entries.append(e)
            st['kids'].append(e)
    if more:
        mine = [dict(name=n, typ=2, size=s, kids=None) for n, s, depth in more]
        box = [e for e, (n, s, depth) in zip(mine, more) if depth]
        if box:
            entries.append(dict(name='MBD0A1', typ=1, size=0, kids=box))
            for e in box:
                e['inside'] = entries[-1]
        entries += mine
    entries += [dict(name='', typ=0, size=0, kids=None) for k in range(nameless)]
    if dirorder:
        rng.shuffle(entries)
    root = dict(name='Root Entry', typ=5, size=0, kids=[e for e in entries if 'inside' not in e and e['typ']])
    entries.insert(0, root)
    for k, e in enumerate(entries):
        e['did'] = k
        e['left'] = e['right'] = e['child'] = -1
    for e in entries:
        if e['kids']:
            def key(i):
                return (len(entries[i]['name']), entries[i]['name'].upper())
            e['child'], links = _tree(rng, [x['did'] for x in e['kids']], key)
            for i, (a, b) in links.items():
                entries[i]['left'], entries[i]['right'] = a, b
    # mini stream
    mini = []
    for e in entries:
        if e['typ'] == 2 and 0 < e['size'] < 4096:
            mini += [[e['did'], k] for k in range(1, (e['size'] + 63) // 64 + 1)]
    mini += [[-5, 0]] * (rng.randint(0, 3) if free and mini else 0)
    shuffle(rng, mini, place)
    root['size'] = 64 * len(mini)
    ssat = chains(mini, entries, lambda e: e['typ'] == 2 and 0 < e['size'] < 4096)
    # sectors
    what = []
    for e in entries:
        if e['typ'] == 2 and e['size'] >= 4096 or e['typ'] == 5 and e['size']:
            what += [[e['did'], k] for k in range(1, (e['size'] + 511) // 512 + 1)]
    ndir = (len(entries) + 3) // 4
    what += [[-2, k] for k in range(1, ndir + 1)]
    nssat = (len(ssat) + 127) // 128
    what += [[-3, k] for k in range(1, nssat + 1)]
    what += [[-5, 0]] * free
    nsat = nx = 0
    while True:
        n = len(what) + nsat + nx
        a = (n + 127) // 128 + padding
        b = max(0, (a - 109 + 126) // 127)
        if (a, b) == (nsat, nx):
            break
        nsat, nx = a, b
    what += [[-1, k] for k in range(1, nsat + 1)] + [[-4, k] for k in range(1, nx + 1)]
    if place == 'straight' and rng.random() < .5:
        what = what[::-1][:nsat + nx] + what[:len(what) - nsat - nx]
    shuffle(rng, what, place)
    sat = chains(what, entries, lambda e: e['typ'] == 2 and e['size'] >= 4096 or e['typ'] == 5)
    pos = {tuple(w): i for i, w in enumerate(what)}
    mpos = {tuple(w): i for i, w in enumerate(mini)}
    for e in entries:
        regular = e['typ'] == 5 or e['size'] >= 4096
        e['first'] = (pos if regular else mpos)[e['did'], 1] if e['size'] and e['typ'] in (2, 5) else END
    ids = {'ids': [e['did'] for e in mine]} if more else {}
    return {**ids, 'what': what, 'sat': sat, 'mini': mini, 'ssat': ssat, 'msat': [pos[-1, k] for k in range(1, nsat + 1)],
            'msatx': [pos[-4, k] for k in range(1, nx + 1)], 'dirfirst': pos[-2, 1],
            'ssatfirst': pos[-3, 1] if nssat else END, 'nssat': nssat,
            'dir': [[[ord(c) for c in e['name']], e['typ'], e['left'], e['right'], e['child'], e['first'], e['size']]
                    for e in entries]}


def shuffle(rng, xs, place):
    if place == 'shuffled':
        rng.shuffle(xs)
    elif place == 'mixed' and len(xs) > 1:
        for k in range(rng.randint(1, 3)):
            r = rng.random()
            i, j = sorted(rng.sample(range(len(xs)), 2))
            if r < .4:
                xs[i], xs[j] = xs[j], xs[i]
            elif r < .7:
                xs[i:j + 1] = xs[i:j + 1][::-1]
            else:
                xs[:] = xs[i:] + xs[:i]


def chains(what, entries, regular):
    """Allocation table of sectors `what`."""
    pos = {tuple(w): i for i, w in enumerate(what)}
    out = []
    for d, k in what:
        if d == -5:
            out.append(FREE)
        elif d in (-1, -4):
            out.append(SATSEC if d == -1 else MSATSEC)
        else:
            out.append(pos.get((d, k + 1), END))
    return out


def ole(data, L, fill=0):
    """Bytes of the container with layout L holding `data` as its Workbook (a list: as its streams L['ids'])."""
    n = len(L['what'])
    streams = {}
    root = L['dir'][0]
    for d, e in enumerate(L['dir']):
        if e[1] == 2:
            junk = bytes((7 * k + d * 31 + 9) % 256 for k in range(min(e[6], 3000)))
            streams[d] = (junk * (e[6] // max(1, len(junk)) + 1))[:e[6]]
    top = []

    def walk(i):
        if i >= 0:
            top.append(i)
            walk(L['dir'][i][2])
            walk(L['dir'][i][3])
    walk(root[4])
    if isinstance(data, list):
        streams.update(zip(L['ids'], data))
        top = []
    for d in top:
        if u(L['dir'][d][0]) in ('Workbook', 'Book'):
            assert len(data) == L['dir'][d][6]
            streams[d] = data
    pad = bytes([fill])
    ms = b''
    for d, k in L['mini']:
        part = streams[d][64 * (k - 1):64 * k] if d > 0 else b''
        ms += part + pad * (64 - len(part))
    streams[0] = ms
    nsat = len(L['msat'])
    sat = L['sat'] + [FREE] * (128 * nsat - n)
    ssat = L['ssat'] + [FREE] * (128 * L['nssat'] - len(L['ssat']))
    direc = b''
    for name, typ, left, right, child, first, size in L['dir']:
        nm = u(name).encode('utf-16-le')
        direc += (nm + b'\0' * (64 - len(nm)) + struct.pack('<HBBiii', len(nm) + 2 if nm else 0, typ, 1, left, right, child)
                  + b'\0' * 36 + struct.pack('<iii', first, size, 0))
    direc += (b'\0' * 68 + struct.pack('<iii', -1, -1, -1) + b'\0' * 48) * (-len(L['dir']) % 4)
    ext = L['msat'][109:]
    body = []
    for d, k in L['what']:
        if d >= 0:
            part = streams[d][512 * (k - 1):512 * k]
        elif d == -1:
            part = struct.pack('<128i', *sat[128 * (k - 1):128 * k])
        elif d == -2:
            part = direc[512 * (k - 1):512 * k]
        elif d == -3:
            part = struct.pack('<128i', *ssat[128 * (k - 1):128 * k])
        elif d == -4:
            ids = ext[127 * (k - 1):127 * k]
            ids += [FREE] * (127 - len(ids))
            part = struct.pack('<128i', *(ids + [L['msatx'][k] if k < len(L['msatx']) else END]))
        else:
            part = b'\xee' * 512
        body.append(part + pad * (512 - len(part)))
    head = (b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1' + b'\0' * 16 + struct.pack('<HHHHH', 0x3e, 3, 0xfffe, 9, 6) + b'\0' * 10
            + struct.pack('<iiiiiiii', nsat, L['dirfirst'], 0, 4096, L['ssatfirst'], L['nssat'],
                          L['msatx'][0] if L['msatx'] else END, len(L['msatx']))
            + struct.pack('<109i', *(L['msat'][:109] + [FREE] * (109 - nsat))))
    assert len(head) == 512
    return head + b''.join(body)
