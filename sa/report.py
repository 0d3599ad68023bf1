"""Collects what a check covered and what it found; known findings; evidence files."""
import os, json, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')

def known():
    """{(property, key)} of the committed list; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                body, _, desc = ln[7:].partition(' -- ')
                d = dict(x.split('=', 1) for x in body.split(None, 1) if '=' in x)
                out[(d['property'], d['key'])] = desc
    return out

class Report:
    def __init__(self, pid):
        self.pid = pid; self.viol = []; self.keys = set(); self.cov = {}; self.notes = []; self.assume = []; self.t0 = time.time()
        self.samples = []
    def violation(self, key, where, text):
        key = key.replace(' ', '_')
        if key in self.keys: return
        self.keys.add(key); self.viol.append((key, where, text))
    def count(self, k, n=1, add=False):
        self.cov[k] = (self.cov.get(k, 0) + n) if add else n
    def note(self, s): self.notes.append(s)
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def finish(self, tier, seed, technique):
        kn = known()
        new = [v for v in self.viol if (self.pid, v[0]) not in kn]
        old = [v for v in self.viol if (self.pid, v[0]) in kn]
        os.makedirs(EVID, exist_ok=True)
        for k, w, t in old:
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (self.pid, k, w, kn[(self.pid, k)] or t))
        expl = technique + '. ' + ' '.join(self.notes)
        cov = dict(self.cov); cov['explanation'] = expl[:6000]
        if self.samples: cov['samples'] = self.samples
        ev = {'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new), 'assumptions': self.assume}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        rp = os.path.join(EVID, self.pid + '.violations.txt')
        if new:
            with open(rp, 'w') as f:
                for k, w, t in new: f.write('%s\n  at %s\n  %s\n' % (k, w, t))
            for k, w, t in new: print('%s: %s [%s]' % (w, t, k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if os.path.exists(rp): os.unlink(rp)
        print('%s holds: %s' % (self.pid, ', '.join('%s=%s' % kv for kv in self.cov.items() if isinstance(kv[1], (int, float)))))
        return 0
