"""Checks of the ChannelPack properties C01-C13."""
import json
import multiprocessing as mp

import packdrive
import packlong
import tlc
from common import Timeout, child_limits, limit
from packworld import World

# property -> bounded exhaustive profiles (profile, quick depth, thorough depth)
MC = {
    'C01': [('mask', 2, 3), ('dur', 2, 2), ('view', 3, 3)],
    'C02': [('mask', 3, 3), ('fresh', 2, 3)],
    'C03': [('fresh', 2, 3), ('mask', 2, 3), ('append', 2, 3)],
    'C04': [('dur', 2, 2), ('mask', 2, 3)],
    'C05': [('ss', 2, 2), ('ssuneven', 1, 2), ('mask', 2, 3)],
    'C06': [('view', 3, 3)],
    'C07': [('look', 3, 3), ('name', 3, 3)],
    'C08': [('rec', 3, 3), ('reclook', 3, 3)],
    'C09': [('append', 3, 4)],
    'C10': [('cont', 2, 2), ('ncont', 2, 2), ('ctor', 1, 1)],
    'C11': [('append', 3, 4), ('mask', 2, 3)],
    'C12': [('attr', 2, 3)],
    'C13': [('name', 3, 3)],
}
INVS = ('Inv_Parts Inv_Mindur Inv_Fresh Inv_Files Inv_Keys Inv_StartStop')

HIST = {'quick': (320, 25), 'thorough': (4000, 40)}


def norm_state(packs):
    """Comparable form of an expected or observed sequence of packs."""
    out = []
    for p in packs:
        out.append((sorted((k, c['k'], tuple(c['v'])) for k, c in p['data']),
                    sorted((k, tuple(s)) for k, s in p['names']),
                    list(p['mask']), list(p['mindur']), p['nof'], p['fn'],
                    list(p['files']), list(p['prefix'])))
    return out


def res_match(e, o):
    t = e['t']
    if t == 'exc':
        return o['t'] == 'exc' and bool(set(e['e']) & set(o['mro']))
    if t == 'recs':
        return (o['t'] == 'recs' and o['rows'] == e['rows']
                and (not e['rows'] or o['f'] == e['f']))
    if t != o['t']:
        return False
    return all(o[k] == e[k] for k in e)


def parts_ok(p):
    runs, c = [], 0
    m = list(p['mask'])
    for i, b in enumerate(m + [False]):
        if b:
            c += 1
        elif c:
            runs.append((i - c, i))
            c = 0
    if p['parts'] != list(range(len(runs))) or not p['oor'] or not p['mb']:
        return False
    data = dict((k, c) for k, c in p['data'])
    for j, (key, c) in enumerate(p['pv']):
        a, b = runs[j]
        if c['v'] != data[key]['v'][a:b] or c['k'] != data[key]['k']:
            return False
    return True


def replay(job):
    """Replay one emitted behaviour; None, or the recorded steps if the end
    state or the result differs."""
    start, h, r, s = job
    try:
        with limit(60):
            w = World()
            for ev in start:
                w.execute(ev)
            res = None
            for ev in h:
                res = w.execute(ev)
            post = w.project()
            if (post['held'] == w.fp0 and res_match(r, res) and norm_state(s) == norm_state(post['packs'])
                    and all(parts_ok(p) for p in post['packs'])):
                return None
            w = World()
            steps = []
            for ev in start + h:
                res = w.execute(ev)
                steps.append({'ev': ev, 'res': res, 'post': w.project()})
            return steps
    except Timeout:
        return [{'ev': start[0], 'res': {'t': 'exc', 'mro': ['Timeout']},
                 'post': World().project()}]


def replay_chunk(jobs):
    return [x for x in (replay(j) for j in jobs) if x is not None]


def clean(o):
    """Normalise tokens written by hand in the model."""
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items()}
    if isinstance(o, list):
        return [clean(v) for v in o]
    if isinstance(o, str) and o.startswith('x0x') or isinstance(o, str) and o.startswith('x-0x'):
        return 'x' + float.fromhex(o[1:]).hex()
    return o


def mc(ck, profile, depth, pool):
    start = [None]
    jobs = []

    def online(v):
        v = clean(v)
        if 'start' in v:
            start[0] = v['start']
        else:
            jobs.append(v)
    r = tlc.run('PackMC', 'SPECIFICATION Spec\nCONSTANTS Profile="%s" Depth=%d Emit=TRUE\n'
                'INVARIANTS %s\nPROPERTIES Act_Remove Act_Frame\n' % (profile, depth, INVS),
                workers=8, on_line=online)
    ck.tlc(r)
    st = start[0]
    jobs = [(st, j['h'], j['r'], j['s']) for j in jobs]
    n = max(1, min(400, len(jobs) // 16 + 1))
    chunks = [jobs[i:i + n] for i in range(0, len(jobs), n)]
    bad = []
    for b in pool.imap_unordered(replay_chunk, chunks):
        bad += b
    ck.traces += len(jobs)
    ck.cases += len(jobs)
    ck.exhaustive.append('PackMC profile %s depth %d: %d behaviours, all replayed' %
                         (profile, depth, len(jobs)))
    if jobs:
        ck.sample({'profile': profile, 'behaviour': jobs[len(jobs) // 2][1],
                   'expected_result': jobs[len(jobs) // 2][2]})
    return bad


def judge_part(ck, part, budget):
    """Verdict lines for part.  If the judge can not evaluate some step (the
    code under test got into a state no event applies to), split."""
    txt = json.dumps([packdrive.pack_trace(h) for h in part])
    try:
        r = tlc.run('PackTrace', 'SPECIFICATION Spec\nCONSTANT TraceFile="t.json"\n'
                    'INVARIANT StateOk\n', files={'t.json': txt}, workers=8,
                    allow_violation=True)
    except tlc.TLCError as e:
        part_res = getattr(e, 'partial', None)
        if part_res is None or not part_res.generated and not part_res.lines:
            raise
        lines = [(part[v['trace'] - 1], v) for v in part_res.lines]
        if any(f[0] == ck.pid for h, v in lines for f in v['fails']) or budget[0] <= 0:
            return lines
        budget[0] -= 1
        if len(part) > 1:
            m = len(part) // 2
            return judge_part(ck, part[:m], budget) + judge_part(ck, part[m:], budget)
        return lines + (judge_part(ck, [part[0][:len(part[0]) // 2]], budget)
                        if len(part[0]) > 1 else [])
    ck.tlc(r)
    nsteps = sum(len(h) for h in part)
    if not r.violated and r.distinct != nsteps + len(part):
        raise tlc.TLCError('judged %d of %d steps\n%s' % (r.distinct, nsteps, r.log[-2000:]))
    if r.violated and not r.lines:
        raise tlc.TLCError('state property violated without failing step\n' + r.log[-2000:])
    return [(part[v['trace'] - 1], v) for v in r.lines]


def judge(ck, hists, label):
    """Judge recorded histories with TLC; report fails of ck.pid."""
    nfound = 0
    budget = [24]
    for i in range(0, len(hists), 600):
        for h, v in judge_part(ck, hists[i:i + 600], budget):
            mine = [f for f in v['fails'] if f[0] == ck.pid]
            if mine:
                nfound += 1
                st = h[v['step'] - 1]
                if len(ck.violations) < 40:
                    ck.violation('%s: %s at event %s result %s' % (
                        label, mine, {k: x for k, x in st['ev'].items()}, st['res']),
                        {'history': [s['ev'] for s in h[:v['step']]],
                         'result': st['res'], 'post': st['post']})
    return nfound


def gen(args):
    pid, seed, j, nsteps = args
    import random
    rng = random.Random('%s/%s/%s' % (pid, seed, j))
    big = j % 25 == 7
    with limit(120):
        d = packdrive.Driver(rng, packdrive.PROFILES[pid], big=big)
        lim = nsteps // 2 if big else nsteps
        while len(d.steps) < lim and not d.dead:
            d.step()
    return d.steps


def run(ck):
    pid = ck.pid
    with mp.Pool(8, initializer=child_limits) as pool:
        bad = []
        for profile, dq, dt in MC[pid]:
            bad += mc(ck, profile, dq if ck.quick else dt, pool)
        if bad:
            ck.notes.append('%d replayed behaviours differ' % len(bad))
            if not judge(ck, bad[:60] + bad[-20:], 'replay of model behaviour'):
                ck.notes.append('the differing behaviours concern other properties')
        nt, ns = HIST[ck.tier]
        hists = pool.map(gen, [(pid, ck.seed, j, ns) for j in range(nt)], chunksize=8)
        packlong.run(ck, pool)
    judge(ck, hists, 'recorded history')
    ck.traces += len(hists)
    ck.cases += sum(len(h) for h in hists)
    ck.sample({'recorded_history_events': [s['ev']['op'] for s in hists[0]]})
    ck.assumptions += [
        'numpy is trusted to build arrays and to promote dtypes when appending',
        'masks are boolean arrays as long as the data; parts are non-negative',
        'who edits elements of pack.mask in place assigns the mask afterwards']
