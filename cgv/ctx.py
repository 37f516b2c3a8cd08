"""Verdict bookkeeping shared by all checks: obligations, violations, known findings, evidence."""
import json
import os
import time

from .facts import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.obl = 0
        self.rules = {}
        self.viol = []
        self.keys = set()
        self.undec = []
        self.counts = {}
        self.assumptions = []
        self.samples = []
        self.t0 = time.time()

    def ok(self, rule, what=None, n=1):
        """an obligation that was decided and holds"""
        self.obl += n
        self.rules[rule] = self.rules.get(rule, 0) + n
        if what and len(self.samples) < 40:
            self.samples.append('%s: %s' % (rule, what))

    def bad(self, rule, key, where, msg):
        """an obligation that is violated; key identifies the construct independently of line numbers"""
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        k = '%s/%s' % (rule, key)
        if k in self.keys:
            return
        self.keys.add(k)
        self.viol.append({'rule': rule, 'key': k, 'where': where, 'what': msg})

    def unk(self, rule, what):
        """an obligation that this analysis could not decide (recorded, never an alarm)"""
        self.undec.append('%s: %s' % (rule, what))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, rule, n=1, why=''):
        """a rule with fewer than n decided instances means the analysis lost its anchor"""
        if self.rules.get(rule, 0) < n:
            raise AnalysisError('rule %s matched %d instances, at least %d expected %s; undecided: %s' %
                                (rule, self.rules.get(rule, 0), n, why, self.undec[:4]))

    def assume(self, s):
        self.assumptions.append(s)


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == prop]


def finish(ctx, spec):
    """prints verdict lines, writes the evidence file, returns the exit status"""
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    known = {k['key']: k for k in load_known(ctx.prop)}
    new = [v for v in ctx.viol if v['key'] not in known]
    old = [v for v in ctx.viol if v['key'] in known]
    replay = os.path.join(ev, ctx.prop + '.violations.json')
    if new:
        with open(replay, 'w') as f:
            json.dump(new, f, indent=1, default=str)
    elif os.path.exists(replay):
        os.unlink(replay)
    nfun = len(ctx.funcs) if hasattr(ctx, 'funcs') else ctx.counts.get('functions analysed', 0)
    expl = '%s. Decided %d obligations by rule: %s. %s' % (
        spec.get('technique', ''), ctx.obl, ', '.join('%s=%d' % kv for kv in sorted(ctx.rules.items())),
        ('Undecided (left out of the verdict): %d.' % len(ctx.undec)) if ctx.undec else 'No obligation was left undecided.')
    cov = {'explanation': expl, 'obligations': ctx.obl, 'discharged': ctx.obl - len(ctx.viol), 'rules': ctx.rules,
           'counts': ctx.counts, 'samples': ctx.samples or list(ctx.rules), 'undecided': ctx.undec[:60],
           'known_findings': [v['key'] for v in old]}
    rec = {'property': ctx.prop, 'tier': 'thorough' if ctx.thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
           'level': spec.get('level', 'other'), 'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2),
           'violations': len(new), 'assumptions': ctx.assumptions or spec.get('assumptions', [])}
    tmp = os.path.join(ev, ctx.prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(rec, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ev, ctx.prop + '.json'))
    print('%s [%s]: %d obligations decided (%s), %d undecided, %.1f s' %
          (ctx.prop, ctx.tier, ctx.obl, ', '.join('%s %d' % kv for kv in sorted(ctx.rules.items())), len(ctx.undec), time.time() - ctx.t0))
    for k, v in sorted(ctx.counts.items()):
        print('  %s: %s' % (k, v))
    for u in ctx.undec[:10]:
        print('  undecided: ' + u[:300])
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (ctx.prop, v['key'], v['what']))
    for v in new:
        print('  [%s] %s: %s' % (v['key'], v['where'], v['what']))
    if new:
        print('VIOLATION property=%s replay=%s' % (ctx.prop, replay))
        return 1
    return 0
