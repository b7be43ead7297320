"""usage: check.py PROPERTY   (VERIF_TIER, VERIF_SEED from the environment)"""
import os
import re
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    pid = sys.argv[1]
    if os.environ.get('_VERIF_CHILD') != '1':
        env = dict(os.environ, _VERIF_CHILD='1', PYTHONPATH=REPO,
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
                   PYTHONHASHSEED='0', LC_ALL='C.UTF-8', LANG='C.UTF-8', TZ='UTC',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-P', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if '--thorough' in sys.argv or tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import warnings
    warnings.simplefilter('ignore')
    # the messages of the spread sheet reader go to what sys.stdout is at import
    sys.stdout, out = open(os.devnull, 'w'), sys.stdout
    import channelpack
    sys.stdout = out
    assert os.path.realpath(channelpack.__file__).startswith(os.path.realpath(REPO) + '/'), channelpack.__file__
    import registry
    from common import Check
    ck = Check(pid, tier, seed)
    try:
        registry.runner(pid)(ck)
    except Exception as e:
        # an error out of the code under test where none was looked for
        text = str(e.__cause__) if type(e.__cause__).__name__ == 'RemoteTraceback' else traceback.format_exc()
        where = re.findall(r'File "([^"]+)", line', text)
        if (type(e).__name__ in ('Timeout', 'MemoryError') or not where
                or not os.path.realpath(where[-1]).startswith(os.path.realpath(REPO) + '/channelpack/')):
            raise
        ck.violation('%s: %r where there is nothing to fail' % (pid, e), text)
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
