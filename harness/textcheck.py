"""Checks C14-C19: reading text."""
import json
import multiprocessing as mp
import random

import textdrive as td
import textworld as tw
import tlc
from common import child_limits

TEXTSRC = ['tpath', 'tsio', 'tfile', 'bbio', 'dbio']
ALLSRC = ['tpath', 'tfile', 'tfileoff', 'tsio', 'tsiooff', 'ttmp', 'bbio', 'bbiooff',
          'bfile', 'bfileoff', 'dbio', 'dbiooff', 'dfile', 'dtmp']


def make(args):
    pid, seed, j = args
    rng = random.Random('%s/%s/%s' % (pid, seed, j))
    if pid == 'C14':
        case = td.layout_case(rng, pid, 'plain', ragged=.12)
        srcs = [rng.choice(TEXTSRC)]
    elif pid == 'C15':
        case = td.layout_case(rng, pid, 'numeric', failing=rng.random() < .3,
                              ragged=.05)
        srcs = [rng.choice(TEXTSRC)]
    elif pid == 'C16':
        r = rng.random()
        if r < .6:
            case = td.layout_case(rng, pid, rng.choice(['plain', 'numeric']),
                                  failing=rng.random() < .3)
            srcs = ['tpath'] + rng.sample(ALLSRC[1:], 5)
            if any(f in ('ident', 'rev') for c, f in case['prm']['convs']):
                case['prm']['convs'] = []
            if case['prm']['enc'] == 'utf-8':  # len counts bytes or characters
                case['prm']['convs'] = [c for c in case['prm']['convs'] if c[1] != 'len']
        else:
            case = td.table_case(rng, pid) if r < .85 else td.wild_case(rng, pid)
            case['table'] = []
            case['given'] = [g for g in case['given'] if g in ('skip', 'usecols', 'enc', 'strip')]
            case['prm'].update(delim=[], names=[], hasnames=False, convs=[])
            srcs = ['tpath'] + rng.sample(
                [s for s in ALLSRC[1:] if s[0] != ('b' if 'enc' in case['given'] else 'd')], 4)
    elif pid == 'C17':
        case = td.layout_case(rng, pid, rng.choice(['plain', 'numeric', 'numeric']),
                              failing=rng.random() < .6, ragged=.25)
        s = rng.choice(TEXTSRC)
        case['obs'] = [tw.observe(case, s), tw.observe(case, s, True)]
        return case
    elif pid == 'C18':
        case = td.table_case(rng, pid)
        srcs = [rng.choice(['tpath', 'tsio', 'tfile', 'bbio'])]
    else:
        case = td.wild_case(rng, pid)
        srcs = [rng.choice(['tpath', 'tsio', 'tfile', 'dbio' if 'enc' in case['given'] else 'bbio'])]
    case['obs'] = [tw.observe(case, s) for s in srcs]
    return case


def large(args):
    """Many lines: those of a case again and again."""
    pid, seed, j = args
    rng = random.Random('%s/%s/%s/large' % (pid, seed, j))
    src = 'tpath' if pid == 'C16' else rng.choice(TEXTSRC if pid == 'C17' else ['tpath', 'tsio', 'tfile', 'bbio'])
    while True:
        if pid == 'C18':
            case = td.table_case(rng, pid)
            lines = ''.join(map(chr, case['content'])).splitlines(True)
            skip = len(lines) - len(case['table'][0]['rows'])
            if any(not l.strip() for l in lines[skip:]):
                continue
        else:
            case = td.layout_case(rng, pid, 'plain' if pid == 'C14' else 'numeric')
            lines = ''.join(map(chr, case['content'])).splitlines(True)
            skip = case['prm']['skip']
            if pid == 'C16':
                case['prm']['convs'] = []
        if len(lines) <= skip or not lines[-1].endswith('\n') or ''.join(lines).count('\n') != len(lines):
            continue
        small = tw.observe(case, src)
        if small['st'] != 'ok' or not small['data']:
            continue
        case['rows'] = len(small['data'][0][1])
        total = rng.choice([60, 257, 1000, 1025, 4097, 10001, 32769, 66000]) if j else 70000
        n = max(2, total // case['rows'])
        case['tile'] = [n]
        head = lines[:skip]
        if pid != 'C18' and len(head) > case['prm']['hasnames'] and rng.random() < .6:   # a long line in the header
            head[0] = 'x ;,\t'[rng.randrange(5)] * rng.choice([1023, 4096, 8192, 9000, 65536, 70001]) + head[0]
        case['bigtext'] = ''.join(head + lines[skip:] * n)
        case['bigbytes'] = case['bigtext'].encode(case['prm']['enc'])
        case['obs'] = [tw.observe(case, src)]
        if pid == 'C17':
            case['obs'].append(tw.observe(case, src, True))
        if pid == 'C16':
            case['obs'] += [tw.observe(case, s) for s in rng.sample(ALLSRC, 4)]
        del case['bigtext'], case['bigbytes']
        return case


N = {'quick': {'C14': 2400, 'C15': 2400, 'C16': 900, 'C17': 2400, 'C18': 1600, 'C19': 2400},
     'thorough': {'C14': 40000, 'C15': 40000, 'C16': 12000, 'C17': 40000, 'C18': 25000,
                  'C19': 40000}}


def judge(ck, cases, label):
    """Let TLC judge the cases; report the failing ones."""
    for c in cases:
        c.setdefault('tile', [])
    for i in range(0, len(cases), 4000):
        part = cases[i:i + 4000]
        r = tlc.run('TextCases', 'SPECIFICATION Spec\nCONSTANT CaseFile="c.json"\n' +
                    ('INVARIANT DesignRecovers\n' if ck.pid == 'C18' else ''),
                    files={'c.json': json.dumps(part)}, workers=8)
        ck.tlc(r)
        if r.distinct != 2 * len(part):
            raise tlc.TLCError('judged %d of %d\n%s' % (r.distinct, len(part), r.log[-3000:]))
        for v in r.lines:
            c = part[v['case'] - 1]
            if any(f[0] == ck.pid for f in v['fails']):
                k = v['fails'][0][2] - 1
                ck.violation('%s: %s text %r parameters %s got %s' % (
                    label, v['fails'], ''.join(map(chr, c['content'])), show(c),
                    short(c['obs'][k])), {'case': c, 'expected': v['expect']})


def show(c):
    d = {k: v for k, v in c['prm'].items() if v not in ([], False, 0)}
    d['given'] = c['given']
    return d


def short(o):
    return {k: o[k] for k in ('srcname', 'st', 'data', 'names', 'exc') if k in o}


def run(ck):
    with mp.Pool(8, initializer=child_limits) as pool:
        import textmc
        textmc.run(ck, pool)
        n = N[ck.tier][ck.pid]
        cases = pool.map(make, [(ck.pid, ck.seed, j) for j in range(n)], chunksize=16)
        if ck.pid in ('C14', 'C15', 'C16', 'C17', 'C18'):
            cases += pool.map(large, [(ck.pid, ck.seed, j) for j in range(n // 150)], chunksize=1)
        if ck.pid == 'C16':
            import dbfcheck
            dbfcheck.random_part(ck, pool, 300 if ck.quick else 5000)
    judge(ck, cases, 'reading')
    ck.traces += sum(len(c['obs']) for c in cases)
    ck.cases += len(cases)
    c = cases[len(cases) // 2]
    ck.sample({'text': ''.join(map(chr, c['content'])), 'parameters': show(c),
               'observed': [short(o) for o in c['obs']][:2]})
    ck.assumptions += [
        'io.open, codecs and float() of the Python library are trusted',
        'text of ASCII and Latin-1 letters; decimal numbers of at most 15 digits',
        'lines end with newline or carriage return + newline']
