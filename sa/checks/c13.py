"""Abstract interpretation of every settings-group initialiser: a field that is not given gets its documented default, a field that is given is kept; initialiser, copier and destructor exist for every declared group"""
import json, os
from .. import mods, engine, scen, designated as D
from ..prog import AnalysisError
from .c12 import unknown, same
PAIRS = os.path.join(os.path.dirname(__file__), '..', 'tables', 'settings_pairs.json')
TABLE = os.path.join(os.path.dirname(__file__), '..', 'tables', 'settings.json')

# fields a group cannot be made without
REQUIRED = {'apop_arms': ('model',), 'apop_loess': ('data',), 'apop_fix_params': ('base_model',)}
# fields the group keeps for itself, or that are stored as a yes/no answer
OWN = {('apop_cdf', 'draws_refcount'), ('apop_mixture', 'cmf_refct'), ('apop_pmf', 'cmf_refct'), ('apop_kernel_density', 'own_pmf'), ('apop_kernel_density', 'own_kernel'),
       ('apop_lm', 'want_cov'), ('apop_lm', 'want_expected_value'), ('apop_arms', 'state'), ('apop_arms', 'neval'), ('apop_loess', 'lo_s'), ('apop_fix_params', 'ct'), ('apop_fix_params', 'predict')}

class C(scen.Base):
    max_states = 8
    inline_depth = 6
    budget = 600000
    def __init__(self, P): self.P = P
    def want_inline(self, E, f, args, dep): return not self.P.public(f.key)

def groups(P):
    return sorted(k[:-len('_settings_init')] for k in P.fns if k.endswith('_settings_init'))

def run_init(P, M, g, given):
    f = P.fns[g + '_settings_init']; st = 'struct.' + g + '_settings'
    if st not in P.fields:
        st = next((m for m in [P_struct(P, f)] if m), st)
    fields = P.fields.get(st, {})
    E = engine.Engine(P, C(P), M)
    # sret/byval: the group is passed by value, the new one returned by pointer
    given = tuple(given) + REQUIRED.get(g, ())
    zero = set(fields.values()) - set(given)
    B, fields, setup = D.setup_for(P, f, st, zero, set(given))
    out = {}
    for s, v in E.run(f.key, setup=setup):
        if v is None or E.isnull(s, v): continue
        b = E.base_of(v)
        if b is None: continue
        for o, nm in fields.items():
            v = E.load(s, b[0], b[1] + o, ('q',), 'double' if D.isdouble(P, st, o) else 'ptr')
            t = scen.short(P, E, s, v)
            arg = ('s', ('ld', B, o))
            if nm in given and (v == arg or E.resolve(s, arg) == E.resolve(s, v)): t = 'arg.' + nm    # the given value itself, known exactly on this path
            out.setdefault(nm, set()).add(t)
    return fields, {k: sorted(v) for k, v in out.items()}

def P_struct(P, f):
    for ty, nm, d in f.params:
        if 'byval' in d: return d['byval'][1]
    return None

def measure(P, M, g):
    fields, z = run_init(P, M, g, ())
    return z

def measure_pairs(P, M, T):
    W = {}
    for g in T:
        for nm in T[g]:
            if (g, nm) in OWN: continue
            try: _, got = run_init(P, M, g, (nm,))
            except engine.Budget: continue
            for o, e in T[g].items():
                if o != nm and o in got and same(e, got[o]): W.setdefault(g, {}).setdefault(nm, {})[o] = [x for x in got[o] if not unknown(x)] or got[o]
    return W

def run(P, R, tier):
    T = json.load(open(TABLE)); W = json.load(open(PAIRS)); M = mods.compute(P); gs = groups(P); done = kept = pairs = 0
    for g in sorted(T):
        if g not in gs: raise AnalysisError('settings group %s has no initialiser' % g)
        f = P.fns[g + '_settings_init']
        for k in ('_settings_copy', '_settings_free'):
            if g + k not in P.fns: R.violation('group|%s' % g, '%s:%s' % (f.file, g), 'no %s%s' % (g, k))
        fields, z = run_init(P, M, g, ())
        for nm, e in T[g].items():
            if nm not in z: raise AnalysisError('settings group %s has no field %s' % (g, nm))
            done += 1
            r = same(e, z[nm])
            if r: R.violation('setting|%s|%s' % (g, nm), '%s:%s' % (f.file, f.name), 'field %s of a new %s group, when not given, %s' % (nm, g, r))
        for nm in list(T[g]):
            if (g, nm) in OWN: continue
            try: _, got = run_init(P, M, g, (nm,))
            except engine.Budget:
                R.note('%s.%s given: state budget exceeded, not decided.' % (g, nm)); continue
            kept += 1
            bad = [t for t in got.get(nm, ()) if t != 'arg.' + nm and not unknown(t)]
            for o, e in T[g].items():      # the fields left out keep their defaults (or the recorded value that follows from the given one)
                if o == nm or o in REQUIRED.get(g, ()) or o not in got or (g, o) in OWN or any('(' in x for x in e): continue
                w = W.get(g, {}).get(nm, {}).get(o, e)
                if any('(' in x for x in w): continue
                pairs += 1
                r = same(w, got[o])
                if r: R.violation('setting|%s|%s|%s' % (g, o, nm), '%s:%s' % (f.file, f.name), 'field %s of a new %s group, when only %s is given, %s' % (o, g, nm, r))
            if bad: R.violation('given|%s|%s' % (g, nm), '%s:%s' % (f.file, f.name), 'field %s of a new %s group, when given, becomes %s' % (nm, g, ', '.join(bad)))
        R.sample('%s: %s' % (g, ', '.join('%s=%s' % (k, '/'.join(v)) for k, v in z.items())))
    R.count('settings_groups', len(gs)); R.count('defaults_decided', done); R.count('given_fields_decided', kept); R.count('defaults_beside_a_given_field', pairs)
    if len(gs) < 12 or done < 60: raise AnalysisError('only %d groups' % len(gs))
