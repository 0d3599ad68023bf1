"""Shared driver of the ownership checks."""
from .. import own, mods
from ..prog import AnalysisError

def collect(P, R, kinds, accept=()):
    """run the ownership analysis and report findings whose kind is in kinds; accept: {(analysed function, acquiring call or function)}"""
    M = mods.compute(P)
    O = own.Ownership(P, M)
    O.run()
    acq = set(); n = 0; exits = 0; derefs = 0; rel = 0
    for k, r in sorted(O.results.items()):
        n += 1; exits += r['exits']; derefs += r['derefs']; rel += r['released']; acq |= r['acquired']
        for kind, key, where, text in r['found']:
            if kind not in kinds: continue
            top, sub, nm = (key.split('|') + ['', ''])[:3]
            if (top, nm) in accept: continue
            R.violation('%s|%s' % (kind, key), where, text)
    if O.undecided:
        R.note('Over the state budget, not decided: %s.' % ', '.join(sorted(k.split('@')[0] for k in O.undecided)))
    coarse = sorted(k.split('@')[0] for k, r in O.results.items() if r['states'] == 1 and k not in O.undecided)
    if coarse and any(x.startswith('leak') for x in kinds): R.note('Decided for use after release only, as their paths had to be merged: %s.' % ', '.join(coarse))
    R.count('functions_analysed', n); R.count('functions_undecided', len(O.undecided)); R.count('exit_states', exits)
    R.count('acquisition_sites', len(acq)); R.count('releases_followed', rel); R.count('dereferences_checked', derefs)
    fresh = sorted(k for k, s in O.sums.items() if s and s.fresh); must = sorted(k for k, s in O.sums.items() if s and s.must)
    R.note('%d functions return a new object, %d release an argument.' % (len(fresh), len(must)))
    R.sample('returns new: ' + ', '.join(fresh[:40])); R.sample('releases: ' + ', '.join(must[:40]))
    if len(acq) < 150 or len(fresh) < 40 or len(must) < 15: raise AnalysisError('only %d acquisition sites, %d sources, %d sinks' % (len(acq), len(fresh), len(must)))
    return O
