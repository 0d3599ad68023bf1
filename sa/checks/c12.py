"""Abstract interpretation of every designated-argument front with one argument omitted at a time, and with all optional ones omitted: the value that reaches the implementation is the documented default"""
import json, os, re, sys
from .. import mods, designated as D
from ..prog import AnalysisError
TABLE = os.path.join(os.path.dirname(__file__), '..', 'tables', 'defaults.json')

OPAQUE = {'n', 'v', 'j', 'phi', 'undefined', 'b', 'w'}
def unknown(t):
    return '...' in t or "'" in t or any(w in OPAQUE for w in re.split(r'[^\w]+', re.sub(r'"[^"]*"', '', t)))

def measure(P, M, n):
    """{scenario: {param: sorted values}} for one function"""
    fl = list(P.fields.get('struct.variadic_type_' + n, {}).values())
    out = {}; required = []
    for p in fl:
        calls, rets = D.front(P, M, n, (p,))
        if not calls: required.append(p); out[p] = {'calls': None, 'returns': sorted(rets)}
        else: out[p] = {'calls': sorted({c.get(p, '?') for c in calls}), 'returns': None}
    opt = [p for p in fl if p not in required]
    calls, rets = D.front(P, M, n, opt)
    out['*'] = {p: sorted({c.get(p, '?') for c in calls}) for p in opt} if calls else None
    return out

def names(P):
    return sorted(k[9:] for k in P.fns if k.startswith('variadic_') and k[9:] + '_base' in P.fns)

def same(exp, got):
    """None: equal; else text"""
    if exp is None or got is None: return None if exp == got else 'differs'
    g = {x for x in got if not unknown(x)}; u = any(unknown(x) for x in got)
    e = {x for x in exp if not unknown(x)}
    if g - e: return 'may be %s, documented %s' % (', '.join(sorted(g - e)), ', '.join(exp))
    if e - g and not u: return 'is never %s (it is %s)' % (', '.join(sorted(e - g)), ', '.join(got))
    return None

def run(P, R, tier):
    T = json.load(open(TABLE)); M = mods.compute(P)
    ns = names(P); done = 0
    for n, exp in sorted(T.items()):
        if n not in ns: raise AnalysisError('function %s with designated arguments is gone' % n)
        got = measure(P, M, n)
        f = P.fns['variadic_' + n]
        for p, e in exp.items():
            if p not in got: raise AnalysisError('%s has no argument %s' % (n, p))
            g = got[p]
            if p == '*':
                for q, ev in (e or {}).items():
                    gv = (g or {}).get(q)
                    if gv is None: continue
                    done += 1
                    r = same(ev, gv)
                    if r: R.violation('default|%s|%s' % (n, q), '%s:%s' % (f.file, n), 'with only the required arguments given, argument %s %s' % (q, r))
                continue
            done += 1
            if e['calls'] is None:
                if g['calls'] is not None and e['returns'] is not None:
                    R.violation('default|%s|%s' % (n, p), '%s:%s' % (f.file, n), 'a call without the required argument %s is no longer refused' % p)
                else:
                    r = same(e['returns'], g['returns'])
                    if r: R.violation('default|%s|%s' % (n, p), '%s:%s' % (f.file, n), 'without argument %s the result %s' % (p, r))
            else:
                if g['calls'] is None:
                    R.violation('default|%s|%s' % (n, p), '%s:%s' % (f.file, n), 'a call without argument %s is refused; it has the default %s' % (p, ', '.join(e['calls'])))
                    continue
                r = same(e['calls'], g['calls'])
                if r: R.violation('default|%s|%s' % (n, p), '%s:%s' % (f.file, n), 'when omitted, argument %s %s' % (p, r))
        R.sample('%s: %s' % (n, ', '.join('%s=%s' % (p, '/'.join(v['calls'] or ['required'])) for p, v in got.items() if p != '*')))
    R.count('functions_with_designated_arguments', len(ns)); R.count('defaults_decided', done)
    if done < 400: raise AnalysisError('only %d defaults' % done)
