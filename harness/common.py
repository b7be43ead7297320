"""Bookkeeping shared by all checks: verdicts, replay files, evidence."""
import json
import os
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise Timeout('time limit')


class limit(object):
    """Context manager: raise Timeout in the code under test after s seconds."""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.notes = []
        self.exhaustive = []

    @property
    def quick(self):
        return self.tier != 'thorough'

    def tlc(self, res):
        self.states += res.distinct
        self.transitions += res.generated

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def violation(self, what, replay):
        """Record a violation with a JSON replay."""
        n = len(self.violations)
        path = ''
        if n < 20:
            d = os.path.join(ROOT, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%02d.json' % (self.pid, n))
            with open(path, 'w') as fo:
                json.dump({'property': self.pid, 'what': what, 'replay': replay},
                          fo, indent=1, default=repr)
        self.violations.append((what, path))

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'cases_compared': self.cases,
               'samples': self.samples or ['none'],
               'bounded_exhaustive_parts': self.exhaustive}
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid,
              'tier': 'thorough' if self.tier == 'thorough' else 'quick',
              'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fo:
            json.dump(ev, fo, indent=1)
            fo.write('\n')
        for what, path in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  ' + str(what)[:600])
        print('%s: %d model states, %d transitions, %d traces/cases validated, '
              '%d violations, %.1f s' % (self.pid, self.states, self.transitions,
                                         self.traces, len(self.violations),
                                         time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def child_limits():
    """Keep runaway code under test from exhausting the machine."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
