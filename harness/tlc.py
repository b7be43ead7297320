"""Run TLC and collect what it printed."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result(object):
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.lines = []         # JSON values printed with the @@ marker
        self.violated = None    # name of violated invariant/property
        self.log = ''


def run(module, cfg, files=None, workers=6, heap='6g', extra=(), timeout=800,
        on_line=None, allow_violation=False, env=None):
    """Run TLC on `module` (name in spec/) with config text `cfg`.

    `files` is a dict of extra files put in the run directory (file name ->
    path or text).  Lines printed by the model as <<"@@", json>> or plain
    strings starting with @@ are collected as JSON.
    """
    d = tempfile.mkdtemp(prefix='tlc.')
    res = Result()
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, 'run.cfg'), 'w') as fo:
            fo.write(cfg)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fo:
                fo.write(text)
        cmd = ['java', '-Xmx' + heap, '-Xss256m', '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-workers',
               str(workers), '-noGenerateSpecTE', '-deadlock', '-metadir',
               os.path.join(d, 'states'), '-config', 'run.cfg']
        cmd += list(extra) + [module + '.tla']
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             encoding='utf-8', errors='replace',
                             env=dict(os.environ, **(env or {})))
        log = []
        for line in p.stdout:
            line = line.rstrip('\n')
            if line.startswith('"@@'):
                # TLC prints a string value with quotes and escapes
                val = json.loads(json.loads(line)[2:])
                if on_line:
                    on_line(val)
                else:
                    res.lines.append(val)
            else:
                log.append(line)
        p.wait()
        res.log = '\n'.join(log[-400:])
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', res.log)
        if m:
            res.generated, res.distinct = map(int, m[-1])
        m = re.search(r'(?:Invariant|property|properties) (\S+) (?:is|were|was) violated', res.log)
        if m:
            res.violated = m.group(1)
        if p.returncode != 0 and not (allow_violation and res.violated):
            err = TLCError('TLC %s rc=%s\n%s' % (module, p.returncode,
                                                 '\n'.join(log[-80:])))
            err.partial = res
            raise err
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shards(jobs, width=4):
    """Run callables in threads, at most `width` at a time, in order."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(width) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
