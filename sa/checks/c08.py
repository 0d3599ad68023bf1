"""Abstract interpretation over the IR of every function that consumes random numbers: each generator operand is the generator the function was given; another one only where none was given"""
import re, os
from .. import engine, mods, scen
from ..engine import ZERO, INF
from ..prog import AnalysisError
from ..stage import REPO
# where the numeric library draws: position of the generator
SINKPOS = {'gsl_siman_solve': 0, 'gsl_rng_memcpy': 1}
def sinkpos(n):
    if n is None: return None
    if n in SINKPOS: return SINKPOS[n]
    if n.startswith('gsl_ran_') and not re.search(r'pdf|_P$|_Q$|_Pinv|_Qinv|lnpdf|discrete_(preproc|free)|mean|lookup', n): return 0
    if n.startswith('gsl_rng_') and n not in ('gsl_rng_alloc', 'gsl_rng_free', 'gsl_rng_env_setup', 'gsl_rng_set', 'gsl_rng_types_setup', 'gsl_rng_name'): return 0
    return None
# other sources of what is not determined by the caller
CLOCKS = {'rand', 'random', 'srand', 'srandom', 'rand_r', 'drand48', 'erand48', 'lrand48', 'mrand48', 'srand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getrandom', 'arc4random', 'times'}
# documented to use the per-thread generators
THREADS = {'apop_model_draws': 'draws each row with the generator of the thread that makes it', 'rngFn': 'SQL function ran(), which has no argument to give a generator in'}

def given(P):
    """{function: position of its generator parameter}, from the declarations in the source"""
    out = {}
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('tests', 'docs', '.git', 'eg', 'autom4te.cache', 'm4', 'build', '.deps', '.libs')]
        for fn in fs:
            if not fn.endswith(('.c', '.h')): continue
            t = open(os.path.join(root, fn), errors='replace').read()
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'//[^\n]*', ' ', t)
            for m in re.finditer(r'(\w+)\s*\(([^(){};]*\bgsl_rng\b[^(){};]*)\)', t):
                ps = m.group(2).split(',')
                pos = [i for i, p in enumerate(ps) if re.search(r'\bgsl_rng\b\s*(const)?\s*\*', p)]
                if len(pos) == 1: out[m.group(1)] = pos[0]
    return out

class C(scen.Base):
    inline_depth = 3
    max_states = 12
    budget = 400000
    opts = {0: ('i', 100), 4: ('i', 0)}
    def __init__(self, P, pos, need, top): self.P = P; self.pos = pos; self.need = need; self.top = top; self.bad = []; self.uses = set()
    def want_inline(self, E, f, args, dep): return f.key in self.need and f.key not in self.pos and not self.P.public(f.key) and f.name not in THREADS
    def on_call(self, E, st, ins, name, args, ctx):
        p = sinkpos(name)
        if p is None and name is not None: p = self.pos.get(name)
        if p is None and name is None: p = self.method(E, st, ins, args)
        if p is not None and p < len(args): self.look(E, st, ins, name, args[p])
        return None
    def method(self, E, st, ins, args):
        """a call through a pointer: the draw method takes (where, generator, model)"""
        return 1 if drawcall(self.P, ins) else None
    def look(self, E, st, ins, name, v):
        v = E.resolve(st, v)
        p = self.pos.get(self.top)
        self.uses.add((ins.fn, ins.line, name or 'draw'))
        k = self.kind(v)
        if v[0] in ('np', 'u'): return
        if v == ZERO:       # the callee will choose one
            if p is not None and E.isnull(st, ('s', ('par', p, self.P.fns[self.top].params[p][1]))) is not True:
                self.bad.append((ins, name, 'no generator is handed on here, though %s may have been given one' % nm(self.top)))
            return
        if p is not None:
            r = ('s', ('par', p, self.P.fns[self.top].params[p][1]))
            if v == r or E.compare(st, 'eq', v, r) is True: return
            if E.isnull(st, r): 
                if k in ('thread', 'field'): return
            self.bad.append((ins, name, 'the generator used here is %s, not the one %s was given' % (scen.short(self.P, E, st, v), nm(self.top)))); return
        if k in ('par', 'field'): return
        if k == 'thread':
            # a fallback for a generator that may be kept in settings: only where that is missing
            fs = [x for x in st.facts if x[0] == 's' and x[1][0] == 'ld' and self.isrng(E, x[1])]
            if not any(E.isnull(st, x) is False for x in fs): return
        self.bad.append((ins, name, 'the generator used here is %s' % scen.short(self.P, E, st, v)))
    def isrng(self, E, s):
        ct = E.ctype.get((s[1], s[2])) if isinstance(s[2], int) else None
        return bool(ct) and self.P.field(*ct) == 'rng'
    def kind(self, v):
        if v[0] != 's': return 'other'
        s = v[1]
        if s[0] == 'par': return 'par'
        if s[0] in ('ld', 'un'): return 'field'
        if s[0] == 'ret' and s[1] and nm(s[1]) in ('apop_rng_get_thread', 'apop_rng_alloc'): return 'thread'
        return 'other'

def drawcall(P, ins):
    c = ins.a[0]
    if c[0] != 'l': return False
    D = mods.defs(P.fns[ins.fn]); d = D.get(c[1])
    if d is None or d.op != 'load' or d.a[0][0] != 'l': return False
    g = D.get(d.a[0][1])
    return bool(g is not None and g.op == 'getelementptr' and g.x[1] and P.field(g.x[1][2], g.x[1][3]) == 'draw')

def nm(k):
    k = k.split('@')[0]
    if k.startswith('variadic_'): k = k[9:]
    return k[:-5] if k.endswith('_base') else k

def once(P, f, g):
    """a mark that something was done, which is only ever compared with zero and set or counted up"""
    g = g.split('/')[0]
    loads = {i.res for i in P.insts(f) if i.op == 'load' and i.a[0] == ('g', g, 0)}
    adds = {i.res for i in P.insts(f) if i.op == 'add' and i.a[0][0] == 'l' and i.a[0][1] in loads and i.a[1][0] == 'i'}
    if not loads: return False
    for i in P.insts(f):
        for n, a in enumerate(i.a):
            if a[0] == 'g' and a[1] == g and not (i.op == 'load' or i.op == 'store' and n == 1 and (i.a[0][0] == 'i' or i.a[0][0] == 'l' and i.a[0][1] in adds)): return False
            if a[0] == 'l' and a[1] in loads and not (i.op == 'icmp' and i.a[1 - n] == ('i', 0) or i.res in adds): return False
            if a[0] == 'l' and a[1] in adds and i.op != 'store': return False
        if i.op == 'phi' and any(v[0] == 'l' and v[1] in loads | adds for v, l in i.x): return False
    return True

def run(P, R, tier):
    src = given(P)
    lib = {k: f for k, f in P.fns.items() if not f.unit.startswith('cmd/')}
    pos = {}
    for k, f in lib.items():
        if k.startswith('variadic_'): continue
        n = nm(f.name)
        if n in src and src[n] < len(f.params) and f.params[src[n]][0] == 'ptr': pos[k] = src[n]
    draws = set()
    for k, f in lib.items():
        if 'draw' in f.name or 'rng' in f.name: draws.add(k)
    M = mods.compute(P)
    calls = {k: [P.callee(i) for i in P.calls(f)] for k, f in lib.items()}
    need = {k for k in lib if any(sinkpos(c) is not None or c in pos for c in calls[k])} | set(pos)
    for k in lib:
        for i in P.calls(lib[k]):
            if P.callee(i) is None and drawcall(P, i): need.add(k); break
    work = True
    while work:
        work = False
        for k in lib:
            if k not in need and any(c in need and c not in pos and not P.public(c) for c in calls[k]): need.add(k); work = True
    callers = P.callers(); taken = P.taken()
    nuse = set(); n = 0
    for k in sorted(need):
        f = lib[k]
        if nm(f.name) in THREADS or f.name in THREADS or k.startswith('variadic_') or nm(k).startswith('apop_rng_get_thread') or nm(k) == 'apop_rng_alloc': continue
        if k not in pos and not P.public(k) and k not in taken and callers.get(k) and f.internal: continue
        c = C(P, pos, need, k); E = engine.Engine(P, c, M)
        try: E.run(k)
        except engine.Budget: R.note('%s: over the state budget, not decided.' % nm(k)); R.count('functions_undecided', 1, True); continue
        n += 1; nuse |= c.uses
        for ins, name, text in c.bad:
            g = P.fns[ins.fn]
            R.violation('generator|%s|%s|%s' % (nm(k), nm(g.name), nm(name) if name else 'draw'), '%s:%s:%s' % (g.file, g.name, ins.line), text)
        if k in pos and k in taken and f.name not in THREADS:
            R.sample('%s: %d uses of its generator' % (nm(k), len(c.uses)))
    # what is kept between calls would make a draw depend on earlier ones
    for k in sorted(pos):
        f = lib[k]; pend = [k]; seen = {k}
        while pend:
            g = pend.pop()
            for st, o in sorted(x for x in mods.direct(P, lib[g]) if isinstance(x, tuple) and x[0].startswith('G')):
                if once(P, lib[g], st[1:]): continue
                R.violation('kept|%s|%s' % (nm(k), st[1:].split('@')[0]), '%s:%s' % (lib[g].file, lib[g].name), 'the static variable %s, which outlives the call, is written by a function that draws' % st[1:].split('@')[0])
            for c in calls[g]:
                if c in lib and c not in seen and not P.public(c): seen.add(c); pend.append(c)
    nclock = 0
    for k, f in lib.items():
        for i in P.calls(f):
            nclock += 1
            if P.callee(i) in CLOCKS: R.violation('outside|%s|%s' % (f.name, P.callee(i)), P.where(i), 'what %s gives is not determined by the caller\'s generator' % P.callee(i))
    R.count('functions_with_a_generator_argument', len(pos)); R.count('functions_analysed', n); R.count('generator_uses', len(nuse)); R.count('call_sites_scanned', nclock)
    R.note('Given a generator: %s.' % ', '.join(sorted(nm(k) for k in pos)))
    if len(pos) < 30 or len(nuse) < 40: raise AnalysisError('only %d functions with a generator, %d uses' % (len(pos), len(nuse)))
