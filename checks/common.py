"""What every check shares: reporting, evidence, known findings."""
import os, sys, time, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Report:
    def __init__(self, prop, title, tier='quick'):
        self.prop, self.title, self.tier = prop, title, tier
        self.obls = []          # (key, ok, detail)
        self.undecided = []
        self.counts = {}
        self.assume = []
        self.rules = []
        self.samples = []
        self.t0 = time.time()
        self.tables = {}

    # a decided instance of a rule
    def ok(self, key, detail=''):
        self.obls.append((key, True, detail))

    def bad(self, key, detail):
        self.obls.append((key, False, detail))

    def check(self, key, cond, detail=''):
        self.obls.append((key, bool(cond), detail if not cond else ''))
        return bool(cond)

    def und(self, key, detail=''):
        self.undecided.append((key, detail))

    def floor(self, what, n, least):
        """a rule that matches fewer instances than counted by hand would hold vacuously"""
        self.counts[what] = n
        self.check('floor:' + what, n >= least, '%s: %d found, at least %d expected: the rule has lost its subject' % (what, n, least))

    def count(self, what, n):
        self.counts[what] = n

    def rule(self, text):
        self.rules.append(text)

    def known(self):
        r = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.prop):
                    rest = l.split(' ', 2)[2]
                    k, _, why = rest.partition(' :: ')
                    r.append((k.replace('key=', '', 1), why))
        return r

    def finish(self):
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        known = dict(self.known())
        bads = {}
        for k, ok, d in self.obls:
            if not ok:
                bads.setdefault(k, []).append(d)
        viol = {k: d for k, d in bads.items() if k not in known}
        kf = [k for k in bads if k in known]
        keys = {}
        for k, ok, d in self.obls:
            keys[k] = keys.get(k, True) and ok
        cov = {
            'explanation': 'Static analysis of the MIR of the current /repo tree. ' + ' '.join(self.rules),
            'rule_instances': len(self.obls),
            'distinct_instances': len(keys),
            'held': sum(1 for v in keys.values() if v),
            'undecided': len(self.undecided),
            'counts': self.counts,
            'samples': self.samples[:12] or [k for k in list(keys)[:12]],
        }
        cov.update(self.tables)
        if self.undecided:
            cov['undecided_samples'] = ['%s: %s' % (k, str(d)[:200]) for k, d in self.undecided[:10]]
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
                   'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2),
                   'violations': len(viol)},
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        for k in sorted(kf):
            print('KNOWN-FINDING: property=%s %s :: %s' % (self.prop, k, known[k]))
        print('%s: %d rule instances, %d distinct, %d held, %d undecided, %.1fs' % (
            self.prop, len(self.obls), len(keys), cov['held'], len(self.undecided), time.time() - self.t0))
        for k, n in sorted(self.counts.items()):
            print('   %s: %d' % (k, n))
        if not viol:
            return 0
        rp = os.path.join(ev, self.prop + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (self.prop, self.title))
            for r in self.rules:
                f.write('rule: %s\n' % r)
            for k, ds in sorted(viol.items()):
                f.write('\n%s\n' % k)
                for d in ds[:4]:
                    f.write('    %s\n' % d)
        for k, ds in sorted(viol.items())[:20]:
            print('  broken: %s' % k)
            print('      %s' % str(ds[0])[:600])
        print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return 1
