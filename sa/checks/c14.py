"""Path-sensitive nullness over the IR: each public call and each method of a model is run abstractly with one argument, or one part of a data set or model it is handed, missing; where that is tolerated, no path may use what is not there"""
import json, os, signal, time, multiprocessing as mp
from .. import engine, mods, scen
from ..engine import ZERO, INF, ABSENT
from ..prog import AnalysisError
from . import c10
TABLE = os.path.join(os.path.dirname(__file__), '..', 'tables', 'absent.json')
BUDGET = 40
SMALL = 120           # instructions, up to which a function is run in place rather than summarised

# what may be missing from an argument of each type: name -> cells that are zero; the other parts that are taken to be there
DATA = {'': None, '.vector': ((0,), (8,)), '.matrix': ((8,), (0,)), '.vector and .matrix': ((0, 8), ()), '.names': ((16,), ()), '.text': ((24, 32, 40), ()), '.weights': ((48,), ()), '.more': ((56,), ()),
        '.everything': ((0, 8, 16, 24, 32, 40, 48, 56), ())}
MODEL = {'': None}
def parts(P, t):
    if t == 'struct.apop_data': return DATA
    if t == 'struct.apop_model':
        fl = {n: o for o, n in P.fields[t].items()}
        r = dict(MODEL)
        for n in ('data', 'parameters', 'info', 'settings', 'more'): r['.' + n] = ((fl[n],) + ((fl['more_size'],) if n == 'more' else ()), ())
        return r
    return {'': None}

QUIET = ('gsl_vector_free', 'gsl_matrix_free', 'gsl_rng_free', 'gsl_permutation_free', 'gsl_error', 'gsl_set_error_handler', 'gsl_rng_alloc')
SHAPES = ((5, 10), (2, 6), (1, 3))          # how deep calls are followed, and how many states are kept apart at a point
class C(scen.Base):
    inline_depth = 5
    max_states = 10
    budget = 60000
    opts = {0: ('i', 100), 4: ('i', 0)}
    summaries = {}; go = False; entry = None
    def __init__(self, P, objs, part): self.part = part; self.P = P; self.bad = {}; self.objs = objs; self.n = 0
    def touched(self, E, st, f, args):
        """arguments that are missing, or from which something is: [(position, part or None)]"""
        out = []
        for k, (a, (ty, nm, d)) in enumerate(zip(args, f.params)):
            if ty != 'ptr': continue
            if 'byval' in d: continue
            b = E.base_of(a)
            if E.isnull(st, a): out.append((k, ''))
            elif b and b[0] in self.objs and b[1] == 0: out.append((k, self.part))
        return out
    def small(self, E, f): return f.internal or f.name.startswith('variadic_') or E.prepare(f)[4] <= SMALL
    def want_inline(self, E, f, args, dep):
        if f.name.startswith('apop_vtable') or f.name in ('apop_query', 'xprintf'): return False
        return self.go
    def hit(self, E, st, ins, what, a):
        b = E.base_of(a); own = a == ABSENT or b is not None and (b[0] == ('S', ABSENT[1]) or b[0] in self.objs)
        if own or (ins.fn, ins.uid) not in self.bad: self.bad[(ins.fn, ins.uid)] = (what, own)
    def on_deref(self, E, st, ins, a, what):
        self.n += 1
        if E.isnull(st, a): self.hit(E, st, ins, what, a); return False
        return True
    def null_call(self, E, st, ins, a): return False
    def on_call(self, E, st, ins, name, args, ctx):
        f = self.P.fns.get(name) if name else None
        if f is not None:
            t = self.touched(E, st, f, args)
            self.go = name == self.entry or self.small(E, f) and (bool(t) or f.name.startswith('variadic_'))
            if t and not self.go or ctx[2] >= self.inline_depth:
                for k, part in t:
                    if part in self.summaries.get((name, k), ()): self.hit(E, st, ins, 'call ' + f.name, args[k]); return []
            return None
        if name and name not in self.P.fns and name.startswith('gsl_') and name not in QUIET and not name.endswith('_free'):
            for a, (ty, d) in zip(args, ins.x[0]):
                if ty == 'ptr' and E.isnull(st, a): self.hit(E, st, ins, 'call ' + name, a); return []
        return None

def entry(P, n):
    """what a call of n enters, and the function whose arguments it takes"""
    k = 'variadic_' + n
    if k in P.fns and n + '_base' in P.fns: return P.fns[k], P.fns[n + '_base']
    return (P.fns[n], P.fns[n]) if n in P.fns else (None, None)

def entries(P):
    out = [(n, n) for n in sorted(c10.ALL) if entry(P, n)[0] is not None]
    for k, role in c10.methods(P):
        if (k, k) not in out: out.append((k, P.fns[k].name))
    return out

def cases(P, n):
    f, b = entry(P, n); out = []
    for i, (ty, nm, d) in enumerate(b.params):
        if ty != 'ptr' or 'byval' in d or 'sret' in d: continue
        for p in parts(P, P.argtype(b.key, i)[0]): out.append((n, i, p))
    return out

def gone(P, t, z): return ZERO if P.fields[t].get(z) in (None, 'textsize', 'more_size') else ABSENT

def decide(P, M, n, i, part, whole=False, shape=0):
    """a call of n with that much missing from its argument i, or, to compare with, with nothing missing -> ({site: what}, exits, uses of pointers looked at)"""
    f, b = entry(P, n); front = f is not b; objs = set()
    st_n = 'struct.variadic_type_' + n
    c = C(P, objs, part)
    c.entry = b.key; c.inline_depth, c.max_states = SHAPES[shape]
    E = engine.Engine(P, c, M)
    nn = (-INF, INF, frozenset((0,)))
    def setup(E, st, args):
        st.facts[ABSENT] = (0, 0, frozenset())
        if front:
            B = ('B', 0, f.key, 0)
            if len(f.params) == 1 and 'byval' in f.params[0][2]: args[0] = ('p', B, 0)
            else:
                for k in range(len(f.params)): args[k] = ('agg', B, 8 * k, 8)
            off = {nm: o for o, nm in P.fields[st_n].items()}
            for o in off.values():
                E.ctype[(B, o)] = (st_n, o); st.mem[(B, o)] = ('s', ('ld', B, o))
            cell = lambda k: (B, off[b.params[k][1]])
        for k, (ty, nm, d) in enumerate(b.params):
            if ty != 'ptr' or 'byval' in d or 'sret' in d: continue
            v = st.mem[cell(k)] if front else args[k]
            if k == i and part == '' and not whole:
                if front: st.mem[cell(k)] = ABSENT
                else: args[k] = ABSENT
                continue
            st.facts[v] = nn
            if k != i and not whole: continue
            t = P.argtype(b.key, k)[0]; pp = parts(P, t); o = E.base_of(v)[0]
            if whole: zero, there = (), sorted({x for y in pp.values() if y for x in y[0] if y})
            else: zero, there = pp[part]; objs.add(o)
            for z in zero: E.ctype[(o, z)] = (t, z); st.mem[(o, z)] = gone(P, t, z)
            for z in there:
                E.ctype[(o, z)] = (t, z); x = ('s', ('ld', o, z)); st.mem[(o, z)] = x; st.facts[x] = nn
    rs = E.run(f.key, setup=setup)
    return c.bad, len(rs), c.n

def summarize(P, M, key, i, part):
    """no way out of the function with this missing?"""
    f = P.fns[key]; objs = set(); c = C(P, objs, part); c.entry = key; c.budget = 4000; E = engine.Engine(P, c, M); nn = (-INF, INF, frozenset((0,)))
    def setup(E, st, args):
        if part == '': args[i] = ZERO; return
        v = args[i]; st.facts[v] = nn; o = E.base_of(v)[0]; objs.add(o); t = P.argtype(key, i)[0]
        for z in parts(P, t)[part][0]: E.ctype[(o, z)] = (t, z); st.mem[(o, z)] = ZERO
    rs = E.run(key, setup=setup)
    return not rs and bool(c.bad)

def sjob(j):
    signal.signal(signal.SIGALRM, _late); signal.alarm(5)
    try: r = summarize(_P, _M, *j); signal.alarm(0); return j, r
    except (Late, engine.Budget): signal.alarm(0); return j, False

def summaries(P, pool_size=8):
    J = []; E = engine.Engine(P, C(P, (), None), _M)
    for k, f in P.fns.items():
        if f.unit.startswith('cmd/') or f.name.startswith('variadic_') or f.internal or E.prepare(f)[4] <= SMALL: continue
        for i, (ty, nm, d) in enumerate(f.params):
            if ty == 'ptr' and 'byval' not in d and 'sret' not in d:
                for p in parts(P, P.argtype(k, i)[0]): J.append((k, i, p))
    S = {}
    for rnd in range(2):
        C.summaries = S; n = 0
        with mp.get_context('fork').Pool(pool_size) as pool:
            for (k, i, p), r in pool.imap_unordered(sjob, [j for j in J if j[2] not in S.get(j[:2], ())], chunksize=4):
                if r: S.setdefault((k, i), set()).add(p); n += 1
        if not n: break
    return S

class Late(Exception): pass
def _late(*a): raise Late()
def job(j):
    n, i, p, sh = j; t = time.process_time()
    signal.signal(signal.SIGALRM, _late); signal.alarm(BUDGET)
    try:
        bad, ex, nd = decide(_P, _M, n, i, p, shape=sh)
        if bad:             # what comes up with nothing missing as well is not about what is missing
            b2, _, n2 = decide(_P, _M, n, i, p, True, sh); nd += n2
            bad = {k: w for k, w in bad.items() if k not in b2}
        signal.alarm(0)
        return j, 'ok', [(P_site(k, u), w) for (k, u), w in bad.items()], ex, nd, time.process_time() - t
    except (Late, engine.Budget): signal.alarm(0); return j, 'none', [], 0, 0, time.process_time() - t

def P_site(k, u):
    for ins in _P.insts(_P.fns[k]):
        if ins.uid == u: return '%s:%s:%s' % (_P.fns[k].file, _P.fns[k].name, ins.line)
    return _P.fns[k].file

def measure(P, M, J, slow=()):
    global _P, _M
    _P = P; _M = M; n = min(8, os.cpu_count() or 4)
    if not C.summaries: C.summaries = summaries(P, n)
    J = sorted(J, key=lambda j: -slow.get(j, 0) if slow else 0)
    with mp.get_context('fork').Pool(n) as pool:
        yield from pool.imap_unordered(job, J, chunksize=1)

def run(P, R, tier):
    M = mods.compute(P); T = json.load(open(TABLE)); E = entries(P); have = set(k for k, _ in E)
    J = []; cost = {}; level = {}; left = []
    for n, cs in T.items():
        if n not in have: left.append(n); continue
        ok = set(cases(P, n))
        for i, p, t, lv, sh in cs:
            if (n, i, p) in ok: j = (n, i, p, sh); J.append(j); cost[j] = t; level[j] = lv
    if len(J) < .9 * sum(map(len, T.values())): raise AnalysisError('only %d of the %d listed cases are there' % (len(J), sum(map(len, T.values()))))
    und = []; uses = 0; exits = 0; seen = set()
    for j, s, bad, ex, nd in ((j, s, bad, ex, nd) for j, s, bad, ex, nd, t in measure(P, M, J, cost)):
        f, b = entry(P, j[0]); what = P.fns[b.key].params[j[1]][1]
        if s != 'ok': und.append('%s(%s%s)' % (b.name, what, j[2])); continue
        uses += nd; exits += ex
        for site, (w, own) in bad:
            if not own and level[j] == 'own': continue
            R.violation('absent|%s|%s%s' % (P.fns[b.key].name, j[1], j[2]), site, '%s with no %s%s comes to %s: %s of a null pointer' % (j[0], what, j[2], 'use it' if own else 'use what is not there', w))
    R.count('entry_points', len({j[0] for j in J})); R.count('cases_listed', len(J)); R.count('of_these_for_direct_uses_only', sum(x == 'own' for x in level.values())); R.count('cases_undecided', len(und)); R.count('uses_of_pointers_checked', uses); R.count('ways_out', exits); R.count('functions_that_cannot_do_without', sum(map(len, C.summaries.values())))
    if und: R.note('No answer within the bounds for: %s.' % ', '.join(sorted(und)[:60]))
    if left: R.note('No longer there: %s.' % ', '.join(left))
    if len(und) > .2 * len(J): raise AnalysisError('no answer for %d of %d' % (len(und), len(J)))
    R.assume.append('allocation succeeds where the code does not look; pointers handed over together are distinct; the rest of what is handed over is whatever it may be')
