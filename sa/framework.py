"""Check framework: obligations, violations, evidence, known findings."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('SA_REPO', '/repo')

from interp import Project, Interp, Undecided, AbstractRaise  # noqa


class AnchorLost(Exception):
    """A public entry point the property is anchored on no longer exists."""


class Ctx(object):
    def __init__(self, prop, tier, project):
        self.prop = prop
        self.tier = tier
        self.project = project
        self.obl = 0
        self.undec = 0
        self.undec_samples = []
        self.paths = 0
        self.rules = {}
        self.samples = []
        self.viol = {}
        self.functions = set()
        self.sites = set()
        self.notes = []

    # -- obligations
    def ok(self, rule, n=1):
        self.obl += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def undecided(self, rule, why):
        self.undec += 1
        if len(self.undec_samples) < 12:
            self.undec_samples.append('%s: %s' % (rule, why))

    def violation(self, rule, construct, detail, loc=''):
        """key = rule + construct (never a line number)"""
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        key = '%s|%s' % (rule, construct)
        if key not in self.viol:
            self.viol[key] = {'rule': rule, 'construct': construct,
                              'detail': str(detail)[:1500], 'loc': loc,
                              'count': 0}
        self.viol[key]['count'] += 1

    def expect(self, cond, rule, construct, detail, loc=''):
        if cond:
            self.ok(rule)
        else:
            self.violation(rule, construct, detail, loc)
        return cond

    def interp(self, **kw):
        I = Interp(self.project, **kw)
        I._ctx = self
        return I

    def absorb(self, I):
        self.functions |= I.analysed

    def anchor(self, I, dotted):
        try:
            return I.get(dotted)
        except KeyError:
            raise AnchorLost(dotted)


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


class OutOfTime(BaseException):
    pass


def complete(mod, ctx):
    """Runs the check; what a change moves out of the modelled fragment, or
    makes too slow to analyse, is undecided rather than a failure: what was
    found until then stands."""
    def late(*a):
        raise OutOfTime()
    budget = 5400 if ctx.tier == 'thorough' else 780
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(budget)
    except ValueError:          # not in the main thread
        pass
    try:
        mod.run(ctx)
    except AnchorLost:
        raise
    except OutOfTime:
        ctx.undecided('analysis', 'stopped after %d s' % budget)
        print('WARNING property=%s analysis stopped after %d s' % (
            ctx.prop, budget))
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        ctx.undecided('analysis', 'stopped: %s: %s' % (type(e).__name__, e))
        print('WARNING property=%s analysis stopped: %s' % (
            ctx.prop, traceback.format_exc().strip().replace('\n', ' | ')
            [-600:]))
    finally:
        try:
            signal.alarm(0)
        except ValueError:
            pass


def run_check(prop, tier='quick', repo=None, out=None, write=True):
    t0 = time.time()
    project = Project(repo or REPO)
    if project.errors:
        # a file that does not parse: nothing to analyse
        print('analysis-broken: ' + '; '.join(project.errors))
        return 2, None
    mod = importlib.import_module('checks.' + prop.lower())
    ctx = Ctx(prop, tier, project)
    complete(mod, ctx)
    if hasattr(mod, 'selftest'):
        bad = mod.selftest(ctx)
        if bad:
            print('analysis-broken: self-test failed: %s' % bad)
            return 2, ctx
    minimum = getattr(mod, 'MIN_OBLIGATIONS', 1)
    known = [k for k in load_known()
             if k.get('property') == prop and k.get('status') == 'known']
    keys = {k['key']: k for k in known}
    new = []
    lines = []
    for key, v in sorted(ctx.viol.items()):
        if key in keys:
            lines.append('KNOWN-FINDING: property=%s %s' % (
                prop, keys[key]['what']))
        else:
            new.append((key, v))
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or ''),
            'obligations': ctx.obl,
            'decided_by_rule': ctx.rules,
            'undecided': ctx.undec,
            'undecided_samples': ctx.undec_samples,
            'paths_interpreted': ctx.paths,
            'functions_analysed': sorted(ctx.functions),
            'n_functions_analysed': len(ctx.functions),
            'modules_parsed': len(project.modules),
            'samples': ctx.samples,
            'notes': ctx.notes,
            'violating_constructs': [
                {'key': k, 'loc': v['loc'], 'detail': v['detail'],
                 'occurrences': v['count'], 'known': k in keys}
                for k, v in sorted(ctx.viol.items())],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    evd = os.path.join(VERIF, 'evidence')
    if write:
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for l in lines:
        print(l)
    if new:
        replay = os.path.join(evd, prop + '.violation.json')
        if write:
            with open(replay, 'w') as fh:
                json.dump([dict(v, key=k) for k, v in new], fh, indent=1,
                          default=str)
        for k, v in new:
            print('  rule=%s construct=%s at %s\n    %s' % (
                v['rule'], v['construct'], v['loc'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1, ctx
    if ctx.obl < minimum and ctx.undec:
        # the code moved out of the modelled fragment: not a verdict against
        # it, and said so
        print('WARNING property=%s only %d of the expected %d obligations '
              'were decided, %d left undecided: %s' % (
                  prop, ctx.obl, minimum, ctx.undec, ctx.undec_samples[:3]))
    elif ctx.obl < minimum:
        print('analysis-broken: only %d obligations decided (expected at '
              'least %d); undecided: %s' % (ctx.obl, minimum,
                                            ctx.undec_samples))
        return 2, ctx
    print('OK property=%s obligations=%d undecided=%d functions=%d wall=%.2fs'
          % (prop, ctx.obl, ctx.undec, len(ctx.functions),
             time.time() - t0))
    return 0, ctx


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    sys.setrecursionlimit(20000)
    try:
        rc, _ = run_check(prop, tier)
    except AnchorLost as e:
        print('analysis-broken: entry point %s is gone' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    return rc
