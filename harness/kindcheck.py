"""Check C36: what kind of workbook a file is."""
import io
import json
import multiprocessing as mp
import os
import random
import struct
import tempfile
import zipfile

import sheetcheck as sc
import tlc
import xlwrite as xw
from common import Timeout, child_limits, limit
from tokens import cps

NAMES = ['a.xls', 'a.xlsx', 'b.csv', 'noext', 'x.XLS', 'a.xlsb', 'a.ods', 'a.zip', '.xls', 'a b.txt', 'å.dbf', 'a.xlsx.xls', 'a.XLSM']
VERSIONS = [21, 30, 40, 45, 50, 70, 80]


# --- files --------------------------------------------------------------------

def book(ver, tag, enc, pad=0):
    """A stream of version ver whose only cell has tag; with a FILEPASS record or without."""
    num = ['n', False, cps(str(tag).rstrip('0')), len(str(tag)) - len(str(tag).rstrip('0'))]
    recs = [['NUMBER', 0, 0, [0, 0] if ver < 30 else 0, num]]
    secret = [0x2f, '000001020304' if tag % 2 else '010001000100' + '07' * 48]
    if ver == 80:
        recs += [['OTHER', 0x8c8, [1] * pad]] if pad else []
        x = {'mode': 0, 'fmts': [], 'xfs': [0], 'sst': [], 'sheets': [[cps('S'), 0, recs]]}
        return xw.biff(x, sc.tofloat, {'pre': [secret] if enc else []})
    recs += [['OTHER', 0x8c8, [1] * pad]] if pad else []
    sheet = [cps('S'), 0, recs] + ([[[0, cps('General')]], [0]] if ver == 45 else [])
    x = {'ver': ver, 'mode': 0, 'fmts': [[0, cps('General')]], 'xfs': [0], 'sst': [], 'sheets': [sheet]}
    data = xw.biff(x, sc.tofloat, {'pre': [secret] if enc and ver >= 50 else []})
    if enc and ver < 50:
        n = 4 + struct.unpack('<H', data[2:4])[0]
        data = data[:n] + xw.rec(secret[0], bytes.fromhex(secret[1])) + data[n:]
    return data


def behead(data, head):
    """data with another first record, offsets put right."""
    if len(head) < 4 or len(head) < 4 + struct.unpack('<H', head[2:4])[0]:
        return head
    n = 4 + struct.unpack('<H', data[2:4])[0]
    delta = len(head) - n
    out, pos = head, n
    while pos < len(data):
        code, k = struct.unpack('<HH', data[pos:pos + 4])
        body = data[pos + 4:pos + 4 + k]
        if code == 0x0a:
            break
        if code == 0x8e or code == 0x85 and delta and k > 4 and data[0:2] == b'\x09\x08':
            body = struct.pack('<i', struct.unpack('<i', body[:4])[0] + delta) + body[4:]
        out += xw.rec(code, body)
        pos += 4 + k
        if code in (9, 0x209, 0x409, 0x809):
            break
    return out + data[pos:]


def stream(s, pad=0):
    return behead(book(s['body'], s['tag'], s['enc'], pad), bytes(s['head']))


def workbook_xml(rid):
    return ('<?xml version="1.0"?><workbook xmlns="%s" xmlns:r="%s"><sheets><sheet name="S" sheetId="1" r:id="%s"/></sheets></workbook>'
            % (xw.NS, xw.REL, rid))


def sheet_xml(tag):
    return '<?xml version="1.0"?><worksheet xmlns="%s"><sheetData><row r="1"><c r="A1"><v>%d</v></c></row></sheetData></worksheet>' % (xw.NS, tag)


def package(rng, f):
    files = []
    for m in f['members']:
        name = ''.join(map(chr, m))
        low = name.lower().replace('\\', '/')
        files.append((name, workbook_xml('rId1' if low == 'xl/workbook.xml' else 'rId2') if low.endswith('workbook.xml') else
                      '<?xml version="1.0"?><a/>' if low.endswith('.xml') else 'junk'))
    rels = ''.join('<Relationship Id="rId%d" Type="%s/worksheet" Target="worksheets/sheet%d.xml"/>' % (k, xw.REL, k) for k in (1, 2))
    more = [('xl/_rels/workbook.xml.rels', '<?xml version="1.0"?><Relationships xmlns="%s">%s</Relationships>' % (xw.PKG, rels)),
            ('xl/worksheets/sheet1.xml', sheet_xml(f['tag'])), ('xl/worksheets/sheet2.xml', sheet_xml(f['tag'] + 900)),
            ('[Content_Types].xml', '<?xml version="1.0"?><Types/>')]
    k = rng.choice([0, 2, 4])
    rng.shuffle(more)
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, 'w') as z:
        for n, t in more[:k] + files + more[k:]:
            i = zipfile.ZipInfo('x')
            i.filename = n
            z.writestr(i, t.encode())
        if rng.random() < .3:
            z.comment = b'some words'
    return bio.getvalue()


def container(rng, f):
    if not f['streams']:
        L = xw.ole_layout(rng, 5000, extra=rng.choice([0, 2]), name='Contents', place='mixed')
        return xw.ole(b'x' * 5000, L)
    datas = [stream(s, rng.choice([0, 0, 4000, 5000])) for s in f['streams']]
    datas = [d or b'\0' for d in datas]
    L = xw.ole_layout(rng, 0, place=rng.choice(['straight', 'mixed', 'shuffled']), extra=rng.choice([0, 1, 2, 5]), free=rng.choice([0, 2]),
                      more=[(''.join(map(chr, s['name'])), len(d), s['depth']) for s, d in zip(f['streams'], datas)])
    return xw.ole(datas, L, rng.choice([0, 9]))


def contents(rng, f):
    return package(rng, f) if f['form'] == 'zip' else container(rng, f) if f['form'] == 'ole' else stream(f['stream'])


# --- observations ---------------------------------------------------------------

def seen(fn):
    from channelpack.xlrd import XLRDError
    try:
        with limit(20):
            return fn()
    except Timeout:
        return ['timeout']
    except XLRDError:
        return ['refused']
    except Exception as e:
        return ['other', '%s: %s' % (type(e).__name__, str(e)[:100])]


def tagof(x):
    return int(x) if float(x) == int(x) else -2


def observe(rng, f):
    from channelpack import sheetpack, xlrd
    data = contents(rng, f)
    sink = io.StringIO()

    def packed():
        p = sheetpack(path, header=False)
        return ['read', -1, tagof(p.data[0][0]) if sorted(p.data) == [0] and len(p.data[0]) == 1 else -2]

    def opened(**kw):
        with xlrd.open_workbook(logfile=sink, **kw) as bk:
            return ['read', bk.biff_version if f['form'] != 'zip' else 0,
                    tagof(bk.sheet_by_index(0).cell_value(0, 0)) if bk.nsheets == 1 else -2]
    with tempfile.TemporaryDirectory(prefix='cp') as d:
        path = os.path.join(d, rng.choice(NAMES))
        with open(path, 'wb') as fo:
            fo.write(data)
        obs = [seen(packed), seen(lambda: opened(filename=path, on_demand=rng.random() < .3, use_mmap=rng.random() < .5))]
        if data:
            obs.append(seen(lambda: opened(file_contents=data, filename=rng.choice([None, 'x.xlsx', 'y.xls']))))
    return obs


# --- the small scope --------------------------------------------------------------

def agrees(want, o):
    return o == want or want[0] == 'read' and len(o) == 3 and o[1] == -1 and o[2] == want[2]


def replay(args):
    seed, start, lines = args
    bad = []
    for k, v in enumerate(lines):
        rng = random.Random('%s/%d' % (seed, start + k))
        o = observe(rng, v['f'])
        if not all(agrees(v['want'], x) for x in o):
            bad.append({'f': v['f'], 'obs': o})
    return len(lines), bad


# --- random files -------------------------------------------------------------------

def recase(rng, s):
    return ''.join(rng.choice([c.lower(), c.upper(), c]) for c in s)


def rhead(rng, ver):
    b2 = lambda n: struct.pack('<H', n)
    if rng.random() < .05:
        return bytes(rng.randrange(256) for k in range(rng.randint(0, 30)))
    if ver >= 50:
        n = rng.choice([4, 6, 8, 8, 10, 16, 16, 20]) if ver in (50, 80) else rng.choice([8, 12, 16, 20])
        year = rng.choice([1980, 1992, 1993]) if ver == 50 else rng.choice([1994, 1995, 1999, 2005])
        d = b2(0x600 if ver == 80 else 0x500) + b2(5) + b2(rng.choice([1, 2600, 3000, 9999])) + b2(year)
        op = 0x809
    else:
        n = rng.randint(4, 20)
        kind = 256 if ver == 45 else 16
        op = {21: 9, 30: 0x209, 40: 0x409, 45: 0x409}[ver] if rng.random() < .7 else 0x809
        d = b2({21: rng.choice([0, 7, 0x200]), 30: 0x300, 40: 0x400, 45: 0x400}[ver] if op == 0x809 or rng.random() < .5 else rng.randrange(65536))
        d += b2(kind) + b2(rng.choice([0, 3000])) + b2(rng.choice([0, 1995]))
    d += bytes(rng.randrange(256) for k in range(12))
    h = bytearray(b2(op) + b2(n) + d[:n])
    if rng.random() < .2 and ver != 45:
        k = rng.randrange(min(len(h), 8))
        h[k] = rng.choice([0, 1, 4, 5, 6, 7, 8, 9, 16, 32, 64, rng.randrange(256)])
        if len(h) != 4 + struct.unpack('<H', h[2:4])[0]:
            want = struct.unpack('<H', h[2:4])[0]
            h = h[:4] + (h[4:] + bytes(64))[:want] if want < 60 and rng.random() < .8 else h[:rng.randint(0, len(h))]
    return bytes(h)


def rstream(rng, name, depth, tag):
    ver = rng.choice(VERSIONS)
    head = rhead(rng, ver)
    if rng.random() < .03:
        head = head[:rng.randrange(len(head) + 1)]
    if len(head) >= 4:
        head = head[:4 + struct.unpack('<H', head[2:4])[0]]
    return {'name': cps(name), 'depth': depth, 'head': list(head), 'enc': rng.random() < .15, 'body': ver, 'tag': tag}


def rfile(rng):
    r = rng.random()
    if r < .3:
        names = [recase(rng, rng.choice(['xl/workbook.xml', 'xl\\workbook.xml'])) if rng.random() < .6 else None]
        names += rng.sample(['xl/workbook.bin', 'content.xml', 'workbook.xml', 'word/document.xml', 'a/xl/workbook.xml', 'xl/workbook.xml.bak',
                             'mimetype', 'META-INF/manifest.xml', 'xlworkbook.xml', 'xl/workbook.xm', 'xl/workbook', 'ppt/presentation.xml',
                             'Workbook', 'Book', 'xl.workbook.xml', 'xl/book/workbook.xml'], rng.randint(0, 6))
        names = [recase(rng, n) if rng.random() < .3 else n for n in names if n]
        rng.shuffle(names)
        return {'form': 'zip', 'members': [cps(n) for n in names], 'tag': rng.randint(1, 99)}
    if r < .7:
        streams, used = [], set()
        for k in range(rng.randint(0, 6)):
            n = rng.choice(['workbook', 'book', 'workbook', 'book', 'Ctls', 'EncryptedPackage', 'Workbook1', 'Books', 'Workboo', 'WordDocument', 'ook'])
            n = recase(rng, n) if rng.random() < .5 else n.capitalize()
            depth = int(rng.random() < .3)
            if (n.lower(), depth) in used:
                continue
            used.add((n.lower(), depth))
            streams.append(rstream(rng, n, depth, 101 + k))
        return {'form': 'ole', 'streams': streams}
    return {'form': 'raw', 'stream': rstream(rng, '', 0, 101)}


def make(args):
    seed, j = args
    rng = random.Random('C36/%s/%s' % (seed, j))
    f = rfile(rng)
    return {'f': f, 'obs': observe(rng, f)}


def show(c, want=None):
    f = c['f']
    if f['form'] == 'zip':
        what = 'zip file with ' + ', '.join(''.join(map(chr, m)) for m in f['members'])
    else:
        what = ('compound document with ' if f['form'] == 'ole' else 'stream ') + ', '.join(
            '%s%s (%s, version %d%s, tag %d)' % ('box/' * s['depth'], ''.join(map(chr, s['name'])), bytes(s['head']).hex(), s['body'],
                                                 ' encrypted' * s['enc'], s['tag']) for s in (f['streams'] if f['form'] == 'ole' else [f['stream']]))
    return '%s opens as %s, expected %s' % (what, json.dumps(c['obs']), json.dumps(want))


def judge(ck, cases, label, chunk=2000):
    for i in range(0, len(cases), chunk):
        part = cases[i:i + chunk]
        r = tlc.run('KindCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n', files={'c.json': json.dumps(part)}, workers=8)
        ck.tlc(r)
        if r.distinct != 2 * len(part):
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(part), r.log[-3000:]))
        for v in r.lines:
            c = part[v['case'] - 1]
            ck.violation('%s: %s' % (label, show(c, v['want'])), {'case': c, 'fails': v['fails'], 'label': label})


def run(ck):
    with mp.Pool(8, initializer=child_limits) as pool:
        for profile, q, t in (('zip', 0, 0), ('ole', 2, 3), ('raw', 0, 0)):
            lines = []
            r = tlc.run('KindMC', 'SPECIFICATION Spec\nCONSTANTS Profile="%s" MaxStreams=%d\n'
                        'INVARIANTS OnlyNamed NoSecret Total EachVersion\nPROPERTY Stays\n' % (profile, q if ck.quick else t),
                        workers=4, on_line=lines.append, timeout=3000)
            ck.tlc(r)
            lines = list({json.dumps(v, sort_keys=True): v for v in lines}.values())
            lines.sort(key=lambda v: json.dumps(v, sort_keys=True))
            out = pool.map(replay, [('%s/%s' % (ck.seed, profile), k, lines[k:k + 50]) for k in range(0, len(lines), 50)], chunksize=1)
            n = sum(a for a, b in out)
            ck.traces += n
            ck.exhaustive.append('KindMC %s: %d states, %d files opened' % (profile, r.distinct, n))
            judge(ck, [c for a, b in out for c in b][:400], 'small ' + profile)
        cases = pool.map(make, [(ck.seed, j) for j in range(4000 if ck.quick else 60000)], chunksize=20)
        judge(ck, cases, 'C36')
        ck.cases += len(cases)
        ck.traces += len(cases)
        ck.sample(show(cases[0]))
        ck.sample(show(cases[-1]))
    ck.assumptions.append('the files are written by the generators of this harness after the published formats; '
                          'struct, zipfile, ElementTree and numpy are trusted')
