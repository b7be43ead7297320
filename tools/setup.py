"""Nothing to build: check that the tools the checks need are there and that
every specification module parses."""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = '/opt/veriftools/tla'
ok = True
for f in [TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar', '/opt/venv/bin/python']:
    if not os.path.exists(f):
        print('missing', f)
        ok = False
for f in sorted(glob.glob(os.path.join(ROOT, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar',
                        'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(ROOT, 'spec'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or 'rror' in p.stdout:
        print(p.stdout[-3000:])
        ok = False
print('setup', 'ok' if ok else 'failed')
sys.exit(0 if ok else 1)
