"""Obligations, verdicts and evidence files."""
import json
import os
import sys
import time
import traceback
from contextlib import contextmanager
from .program import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')

TRUST = [
    'the Python/Cython/C front end and the models of builtins, struct, numpy, toml and re in /verif/ffsa',
    'type annotations of the analysed package',
    'terms with different normal forms are compared by random interpretation of the extracted terms (no program execution)',
]


def floc(loc):
    if loc is None:
        return '?'
    if isinstance(loc, str):
        return loc
    return '%s:%s (%s)' % (loc[0], loc[1], loc[2])


class Ob:
    __slots__ = ('rule', 'what', 'verdict', 'loc', 'why')

    def __init__(self, rule, what, verdict, loc, why):
        self.rule, self.what, self.verdict, self.loc, self.why = rule, what, verdict, loc, why

    def key(self):
        fn = self.loc[2] if isinstance(self.loc, tuple) else str(self.loc)
        return '%s|%s|%s' % (self.rule, self.what, fn)

    def row(self):
        return {'rule': self.rule, 'instance': self.what, 'verdict': self.verdict, 'at': floc(self.loc), 'detail': self.why}


class OutOfTime(BaseException):
    """raised in the analysing thread when its time is used up; what was decided so far stands"""


GROUP_LIMIT, TOTAL_LIMIT, HARD_LIMIT = 200, 500, 720


class Report:
    def __init__(self, pid, rules):
        self.pid, self.rules = pid, rules
        self.obs = []
        self.functions = set()
        self.notes = []
        self.stats = {}
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'

    # -- recording
    def ok(self, rule, what, loc=None, why=''):
        self.obs.append(Ob(rule, what, 'holds', loc, why))

    def bad(self, rule, what, loc=None, why=''):
        self.obs.append(Ob(rule, what, 'violated', loc, why))

    def und(self, rule, what, loc=None, why=''):
        self.obs.append(Ob(rule, what, 'undecided', loc, why))

    def expect(self, v, rule, what, loc=None, why=''):
        """three-valued: True / False / None"""
        (self.ok if v is True else self.bad if v is False else self.und)(rule, what, loc, '' if v is True else why)
        return v

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def analysed(self, *interps):
        for i in interps:
            i = getattr(i, 'I', i)
            self.functions |= set(i.analysed)
            self.count('inlined_call_sites', i.callsites)

    stop_at = float('inf')      # no group starts after this moment
    group_until = None          # when the current group is interrupted

    @contextmanager
    def group(self, rule, what):
        """an engine limitation inside the group leaves its obligation undecided"""
        now = time.monotonic()
        if now > Report.stop_at:
            raise OutOfTime()
        Report.group_until = now + GROUP_LIMIT
        try:
            yield
            Report.group_until = None
        except AnalysisBroken:
            raise
        except OutOfTime:
            self.und(rule, what, None, 'analysis gave up: time limit')
        except Exception as e:      # noqa
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(rule, what, None, 'analysis gave up: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))

    # -- finishing
    def finish(self):
        bad = [o for o in self.obs if o.verdict == 'violated']
        known, fresh = [], []
        table = load_known()
        for o in bad:
            (known if (self.pid, o.key()) in table else fresh).append(o)
        und = [o for o in self.obs if o.verdict == 'undecided']
        done = [o for o in self.obs if o.verdict == 'holds']
        cov = {
            'explanation': 'Static analysis of the current sources under /repo/src. ' + ' '.join('[%s] %s' % kv for kv in self.rules.items()),
            'obligations': len(self.obs),
            'discharged': len(done),
            'violated': len(bad),
            'undecided': len(und),
            'functions_analysed': sorted(self.functions),
            'functions_analysed_count': len(self.functions),
            'rule_instances': {r: sum(1 for o in self.obs if o.rule == r) for r in self.rules},
            'obligation_list': [o.row() for o in self.obs],
        }
        cov.update(self.stats)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'assumptions': TRUST + self.notes, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(fresh)}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for o in known:
            print('KNOWN-FINDING: property=%s %s [%s] at %s' % (self.pid, o.what, o.rule, floc(o.loc)))
        for o in und:
            print('UNDECIDED property=%s rule=%s %s at %s: %s' % (self.pid, o.rule, o.what, floc(o.loc), o.why))
        print('%s: %d obligations, %d hold, %d violated, %d undecided; %d functions analysed in %.2fs'
              % (self.pid, len(self.obs), len(done), len(bad), len(und), len(self.functions), time.time() - self.t0))
        if fresh:
            rp = os.path.join(d, self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'violations': [dict(o.row(), rule_text=self.rules.get(o.rule, ''), key=o.key()) for o in fresh],
                           'rerun': 'cd /verif && ./check %s' % self.pid}, f, indent=1)
            for o in fresh:
                print('  %s: %s -- %s [rule %s: %s]' % (floc(o.loc), o.what, o.why, o.rule, self.rules.get(o.rule, '')))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not done:
            print('ANALYSIS-BROKEN %s: no obligation could be decided' % self.pid, file=sys.stderr)
            return 2
        return 0


def load_known():
    out = set()
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:'):
                    parts = dict(p.split('=', 1) for p in l[8:].split('\t') if '=' in p)
                    out.add((parts['property'].strip(), parts['key'].strip()))
    return out
