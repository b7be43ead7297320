"""Replay of every small text of TextMC in the real code."""
import textworld as tw
import tlc
from tokens import cps

PROFILE = {'C14': ('layout', 5, 6), 'C15': ('value', 4, 5), 'C16': ('layout', 3, 4),
           'C17': ('value', 4, 5), 'C18': ('lazy', 4, 6), 'C19': ('lazy', 5, 6)}
INV = {'lazy': 'LazyRect LazyFails', 'layout': 'Rectangular Projection ModeFree',
       'value': 'Rectangular Projection ModeFree'}
SRC = {'t': 'tsio', 'b': 'bbio', 'd': 'dbio'}
ALT = {'t': ['tpath', 'tsiooff'], 'b': ['bfileoff'], 'd': ['dbiooff']}


def agrees(e, o):
    if e['st'] == 'ok':
        return (o['st'] == 'ok' and o['data'] == e['data'] and o['names'] == e['names'])
    return o['st'] == 'err' and (e['st'] == 'anyerr' or e['st'] in o['exc'])


def replay(args):
    """Cases of a chunk where the real code differs."""
    pid, api, params, chunk = args
    bad = []
    n = 0
    for line in chunk:
        for p, e in zip(params, line['r']):
            case = {'prop': pid, 'api': api, 'given': [], 'parse': 25, 'table': [],
                    'prm': p, 'content': line['t'], 'bytes': line['t']}
            o = tw.observe(case, SRC[p['mode']])
            n += 1
            case['obs'] = [o]
            if pid == 'C16':
                case['obs'] = [o] + [tw.observe(case, s) for s in ALT[p['mode']]]
                n += len(case['obs']) - 1
                if any(x['data'] != o['data'] or x['names'] != o['names'] or x['st'] != o['st']
                       or x['leaked'] or x['closed'] for x in case['obs']):
                    bad.append(case)
            elif pid == 'C17':
                case['obs'] = [o, tw.observe(case, SRC[p['mode']], True)]
                n += 1
                a, b = case['obs']
                if any(a[k] != b[k] for k in ('st', 'data', 'names', 'exc', 'msg')) or a['nout'] \
                        or \
                        'last' in e and e['last'] not in b['linums']:
                    bad.append(case)
            elif not agrees(e, o) and (pid != 'C18' or e['st'] == 'ok'):
                bad.append(case)
    return n, bad


def run(ck, pool):
    import textcheck
    profile, q, t = PROFILE[ck.pid]
    ml = q if ck.quick else t
    params = []
    lines = []
    asyn = []

    def flush():
        if lines:
            asyn.append(pool.apply_async(replay, ((
                ck.pid, 'lazy' if profile == 'lazy' else 'text', params[0], list(lines)),)))
            del lines[:]

    def online(v):
        if 'params' in v:
            params.append(v['params'])
            return
        lines.append(v)
        if len(lines) >= 64:
            flush()
    r = tlc.run('TextMC', 'SPECIFICATION Spec\nCONSTANTS Profile="%s" MaxLen=%d\nINVARIANTS %s\n'
                % (profile, ml, INV[profile]), workers=8, on_line=online)
    flush()
    ck.tlc(r)
    bad, n = [], 0
    for a in asyn:
        k, b = a.get()
        n += k
        bad += b
    ck.traces += n
    ck.exhaustive.append('TextMC %s: all texts up to %d characters (%d), %d readings replayed'
                         % (profile, ml, r.distinct, n))
    if bad:
        textcheck.judge(ck, bad[:200], 'small text')
        if not ck.violations:
            ck.notes.append('%d differing readings were judged fine' % len(bad))
