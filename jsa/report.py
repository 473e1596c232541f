"""Verdicts, evidence files and known findings."""
import json, os, sys, time
from .facts import VERIF

KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known():
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property='):
                rest = line[len('known: property='):]
                pid, key, text = [x.strip() for x in rest.split('|', 2)]
                res[(pid, key)] = text
    return res


class Enough(BaseException):
    """so many violations were found that the rest of the check adds nothing"""


class Report:
    def __init__(self, pid, technique):
        self.pid = pid
        self.technique = technique
        self.t0 = time.time()
        self.violations = []      # (key, text)
        self.undecided = []       # text
        self.obligations = []     # (what, verdict)
        self.facts = {}           # extra measured numbers
        self.notes = []
        self.rule = ''

    def ok(self, what):
        self.obligations.append((what, 'holds'))

    def violation(self, key, text):
        self.obligations.append((key, 'violated'))
        self.violations.append((key, text if len(text) <= 4000 else text[:4000] + '…'))
        n = len(self.violations)
        if n >= 300 or n >= 8 and time.time() - self.t0 > 100:
            if any((self.pid, k) not in known() for k, _ in self.violations):
                raise Enough

    def unknown(self, what, why=''):
        self.obligations.append((what, 'undecided'))
        self.undecided.append(what + (': ' + why if why else ''))

    def check(self, cond, key, text, what=None):
        if cond:
            self.ok(what or key)
        else:
            self.violation(key, text)
        return cond

    def finish(self):
        kn = known()
        new = []
        seen = set()
        for key, text in self.violations:
            if (self.pid, key) in kn:
                if key not in seen:
                    print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, text))
                seen.add(key)
            else:
                new.append((key, text))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        held = sum(1 for o in self.obligations if o[1] == 'holds')
        cov = dict(
            explanation=self.rule,
            obligations=len(self.obligations),
            discharged=held,
            undecided=self.undecided,
            violated=[k for k, _ in self.violations],
            analysed=self.facts,
            samples=[o[0] for o in self.obligations[:400]],
            notes=self.notes,
        )
        ev = dict(property=self.pid, tier=os.environ.get('VERIF_TIER', 'quick'),
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                  assumptions=['the analysed MIR is that of the nightly compiler in the sandbox',
                               'standard library and dependency functions behave as modelled (DESIGN.md)'],
                  wall_s=round(time.time() - self.t0, 3), violations=len(new))
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        print('%s: %d obligations, %d hold, %d undecided, %d violated (%s)' % (
            self.pid, len(self.obligations), held, len(self.undecided), len(self.violations), self.technique))
        for k, v in self.facts.items():
            print('  analysed %s: %s' % (k, v if not isinstance(v, (list, dict)) else len(v)))
        for u in self.undecided:
            print('  undecided: ' + u[:400])
        if new:
            for key, text in new:
                print('  %s: %s' % (key, text[:2000]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0
