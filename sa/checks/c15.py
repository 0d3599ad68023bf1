"""Path-sensitive nullness over the IR: every call through a model's optional method is made only where the method is known to be there"""
from .. import engine, mods, scen
from ..engine import ZERO, INF
from ..prog import AnalysisError

# the structures whose function members may be left out
OPTIONAL = ('struct.apop_model', 'struct.apop_settings_type')

def given(P, fld):
    """a global structure written out in the source, by member"""
    def f(g):
        i = g['init']
        if not i or i[0] != 'agg' or g['type'] != ('named', 'struct.apop_model'): return None
        off = sorted(fld); return dict(zip(off, i[1])) if len(off) == len(i[1]) else None
    return {k: f(g) for k, g in P.globals.items() if f(g)}

class C(scen.Base):
    inline_depth = 4
    max_states = 12
    budget = 300000
    opts = {0: ('i', 100), 4: ('i', 0)}
    def __init__(self, P, need, models, top):
        self.P = P; self.need = need; self.bad = []; self.sites = set(); self.models = models; self.top = top; self.owed = set()
        # a model's own method knows which other methods come with it
        self.own = [m for m in models.values() if any(v[1][0] == 'g' and v[1][1] == top for v in m.values())]
    def base(self, E, v):
        """the same method of the model this one is built on: whoever builds on it leaves the method out if the other has none"""
        if not self.own or v[0] != 's' or v[1][0] != 'ld' or not isinstance(v[1][2], int): return False
        b, off = v[1][1], v[1][2]
        if b[0] != 'S' or b[1][0] != 'ld' or b[1][1][0] != 'S' or b[1][1][1][:2] != ('ret', 'apop_settings_get_grp'): return False
        ct = E.ctype.get((b[1][1], b[1][2]))
        if not all(m.get(off, (0, ('i', 0)))[1] == ('g', self.top, 0) for m in self.own): return False
        self.owed.add(off); return True
    def there(self, v):
        if v[0] != 's' or v[1][0] != 'ld' or not isinstance(v[1][2], int): return False
        b, off = v[1][1], v[1][2]
        if b[0] != 'S': return False
        if b[1][0] == 'par': return bool(self.own) and all(m.get(off, (0, ('i', 0)))[1][0] == 'g' for m in self.own)
        if b[1][0] == 'ld' and b[1][1][0] == 'G':      # a model of the library's, by its name
            g = self.P.globals.get(b[1][1][1])
            m = self.models.get(g['init'][1]) if g and g['init'] and g['init'][0] == 'g' else None
            return m is not None and m.get(off, (0, ('i', 0)))[1][0] == 'g'
        return False
    def want_inline(self, E, f, args, dep): return f.key in self.need and (not self.P.public(f.key))
    def on_call(self, E, st, ins, name, args, ctx):
        if name is None:
            m = method(self.P, ins)
            if m:
                self.sites.add((ins.fn, ins.uid))
                c = E.resolve(st, E.val(st, ins.a[0]))
                if E.isnull(st, c) is not False and c[0] != 'p' and not self.there(c) and not self.base(E, c): self.bad.append((ins, m, scen.short(self.P, E, st, c)))
        return None
    def null_call(self, E, st, ins, a):
        m = method(self.P, ins)
        if m: self.sites.add((ins.fn, ins.uid)); self.bad.append((ins, m, 'NULL'))
        return False

class Maker(scen.Base):
    """how a model built on another one is made"""
    inline_depth = 3
    max_states = 600
    budget = 300000
    opts = {0: ('i', 100), 4: ('i', 0)}
    def __init__(self, P, g): self.P = P; self.g = g
    def want_inline(self, E, f, args, dep): return False
    def on_branch(self, E, st, ins, cond, taken):
        for k in st.facts:      # what is known of the methods of the model it is built on
            if k[0] == 's' and k[1][0] == 'ld' and k[1][1][0] == 'S' and k[1][1][1][0] == 'par' and isinstance(k[1][2], int) and E.isnull(st, k) is False:
                st.cl[('has', k[1][2])] = 1
        return True
    def on_call(self, E, st, ins, name, args, ctx):
        if name == 'apop_model_copy' and args and args[0][0] == 's' and args[0][1][0] == 'ld' and args[0][1][1] == ('G', self.g):
            out = E.default_call(st, ins, name, args, *ctx)
            for s, v in out: s.cl['made'] = v
            return out
        if name == 'apop_settings_group_alloc_wm':      # it hands back the model it is given
            return [(s, args[0]) for s, v in E.default_call(st, ins, name, args, *ctx)]
        return None

def method(P, ins):
    c = ins.a[0]
    if c[0] != 'l': return None
    D = mods.defs(P.fns[ins.fn]); d = D.get(c[1])
    if d is None or d.op != 'load' or d.a[0][0] != 'l': return None
    g = D.get(d.a[0][1])
    if g is not None and g.op == 'getelementptr' and g.x[1] and g.x[1][2]:
        n = P.field(g.x[1][2], g.x[1][3])
        if g.x[1][2] in OPTIONAL: return '%s.%s' % (g.x[1][2].replace('struct.', ''), n) if n else None
    return None

def run(P, R, tier):
    M = mods.compute(P)
    lib = {k: f for k, f in P.fns.items() if not f.unit.startswith('cmd/')}
    calls = {k: {P.callee(i) for i in P.calls(f)} for k, f in lib.items()}
    need = {k for k, f in lib.items() if any(P.callee(i) is None and method(P, i) for i in P.calls(f))}
    work = True
    while work:
        work = False
        for k in lib:
            if k not in need and any(c in need and not P.public(c) for c in calls[k]): need.add(k); work = True
    models = given(P, P.fields['struct.apop_model'])
    taken = P.taken(); callers = P.callers(); sites = set(); n = 0; owed = {}
    for k in sorted(need):
        f = lib[k]
        if not P.public(k) and k not in taken and callers.get(k): continue
        c = C(P, need, models, k); E = engine.Engine(P, c, M)
        try: E.run(k)
        except engine.Budget: R.note('%s: over the state budget, not decided.' % k); R.count('functions_undecided', 1, True); continue
        n += 1; sites |= c.sites
        for off in c.owed: owed.setdefault(off, set()).update(x for x, m in models.items() if m in c.own)
        for ins, m, t in c.bad:
            R.violation('unguarded|%s|%s' % (P.fns[ins.fn].name, m), P.where(ins), '%s may be missing where it is called here (in a call of %s): %s' % (m, f.name, t))
    nm = 0
    for off, ms in sorted(owed.items()):
        meth = P.fields['struct.apop_model'][off]
        for g in sorted(k for k, v in P.globals.items() if v['init'] and v['init'][0] == 'g' and v['init'][1] in ms):
            made = 0
            for k, f in sorted(lib.items()):
                if not any(i.op == 'load' and i.a[0] == ('g', g, 0) for i in P.insts(f)): continue
                c = Maker(P, g); E = engine.Engine(P, c, M); c.E = E
                if not f.params: continue
                for st, v in E.run(k):
                    if st.cl.get('made') != v or v is None: continue
                    made += 1
                    if ('has', off) in st.cl or E.isnull(st, E.load(st, E.base_of(v)[0], off, ('end',))): continue
                    R.violation('left in|%s|%s' % (f.name, meth), '%s:%s' % (f.file, f.name), 'the model made here is given a %s method that calls the %s of the model it is built on, which may have none' % (meth, meth))
            if not made: raise AnalysisError('nothing found that makes a %s' % g)
            nm += made
    R.count('exits_that_make_a_model_on_another', nm)
    R.count('functions_analysed', n); R.count('method_calls', len(sites))
    if len(sites) < 18: raise AnalysisError('only %d calls' % len(sites))
