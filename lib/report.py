"""Check driver: findings, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
from build import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Check:
    def __init__(self, pid, rule, level='other', assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.findings = []           # (key, text)
        self.cov = {}
        self.samples = []
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.obl = 0
        self.dis = 0

    def obligation(self, ok, key, text, sample=None):
        """one rule instance; ok -> discharged, otherwise a finding"""
        self.obl += 1
        if ok:
            self.dis += 1
            if sample is not None and len(self.samples) < 25:
                self.samples.append(sample)
        else:
            self.findings.append((key, text))
        return ok

    def need(self, n, minimum, what):
        """vacuity guard: fewer rule instances than confirmed by hand -> analysis broken"""
        if n < minimum:
            raise AnalysisError('%s: only %d instances of %s (expected at least %d): anchor vanished' % (self.pid, n, what, minimum))

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)).get('findings', []) if k['property'] == self.pid]
        kmap = {k['key']: k for k in known}
        new, old, seen = [], [], set()
        for key, text in self.findings:
            if (key, text) in seen:
                continue
            seen.add((key, text))
            (old if key in kmap else new).append((key, text))
        wall = time.time() - self.t0
        cov = {'explanation': self.rule, 'obligations': self.obl, 'discharged': self.dis,
               'samples': self.samples[:25]}
        cov.update(self.cov)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for key, text in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        print('%s: %d obligations, %d discharged, %.1fs' % (self.pid, self.obl, self.dis, wall))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n\n' % (self.pid, self.rule))
                for key, text in new:
                    f.write('- [%s] %s\n' % (key, text))
            for key, text in new[:20]:
                print('  violation: %s' % text)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def main(fn, chk):
    try:
        fn(chk)
        rc = chk.finish()
    except AnalysisError as e:
        print('%s: ANALYSIS-BROKEN: %s' % (chk.pid, e))
        # what was found before the analysis broke down still stands
        rc = 3
        if chk.findings and chk.finish() == 1:
            rc = 1
    except Exception:
        traceback.print_exc()
        print('%s: ANALYSIS-BROKEN: internal error' % chk.pid)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
