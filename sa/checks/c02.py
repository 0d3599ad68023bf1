"""Single-fault abstract interpretation over the IR: each database operation is made to fail in turn, and every exit reached from there reports a failure in the documented way"""
from .. import engine, mods, scen
from ..engine import ZERO, INF
from ..prog import AnalysisError
OPT = ('G', 'apop_opts')
NONZERO = (-INF, INF, frozenset((0,)))
# engine calls: (value on failure, values on success)
PRIM = {'sqlite3_exec': (NONZERO, ((0, 0, frozenset()),)), 'sqlite3_prepare_v2': (NONZERO, ((0, 0, frozenset()),)), 'sqlite3_prepare': (NONZERO, ((0, 0, frozenset()),)),
        'sqlite3_open': (NONZERO, ((0, 0, frozenset()),)), 'sqlite3_open_v2': (NONZERO, ((0, 0, frozenset()),)), 'sqlite3_get_table': (NONZERO, ((0, 0, frozenset()),)),
        'sqlite3_step': ((-INF, INF, frozenset((0, 100, 101))), ((100, 101, frozenset()),)),
        'sqlite3_bind_text': (NONZERO, ((0, 0, frozenset()),)), 'sqlite3_bind_double': (NONZERO, ((0, 0, frozenset()),)), 'sqlite3_bind_int': (NONZERO, ((0, 0, frozenset()),)),
        'sqlite3_bind_null': (NONZERO, ((0, 0, frozenset()),))}
ERRSLOT = {'sqlite3_exec': 4, 'sqlite3_get_table': 5}
# what the library's own calls return: (on failure, on success); anything else of type int: nonzero, zero
OWN = {'apop_table_exists': ((-1, -1, frozenset()), (0, 1, frozenset())), 'apop_text_to_db': ((-1, -1, frozenset()), (0, INF, frozenset()))}
# functions that report a failure by returning NULL, as documented
NULLS = {'apop_query_to_vector', 'apop_anova', 'apop_anova_one_way'}
# (function, operation): a failure here does not fail the call
ACCEPT = {('apop_rake', 'apop_table_exists'): 'only clears away an old work table before it is made anew, and making it fails if it is still there',
          ('apop_data_to_db', 'apop_table_exists'): 'a second look, after the first has succeeded, on a branch where the table is already known not to be there'}
# housekeeping statements whose outcome changes no result
HOUSE = ('pragma', 'drop table if exists')

def fmt(P, E, st, v):
    b = E.base_of(v)
    return P.string(b[0][1]) if b and b[0][0] == 'G' and b[1] == 0 else None

def plain(n):
    if n.startswith('variadic_'): n = n[9:]
    if n.endswith('_base'): n = n[:-5]
    return n.split('@')[0]

class C(scen.Base):
    inline_depth = 5
    max_states = 60
    budget = 600000
    opts = {0: ('i', 100), 4: ('i', 0)}
    def __init__(self, P, fall, ERR, top): self.P = P; self.fall = fall; self.ERR = ERR; self.ops = set(); self.top = top
    def want_inline(self, E, f, args, dep): return not self.P.public(f.key) and f.key in self.reach
    def join_key(self, st):
        k = tuple(sorted(((k, v) for k, v in st.cl.items()), key=repr))
        v = st.env.get('%ret')
        if v is not None and 'X' in st.cl:
            b = self.E.base_of(v)
            c = st.mem.get((b[0], b[1] + self.ERR)) if b and isinstance(b[1], int) else None
            k += ((v, 0 if c is None else self.E.isnull(st, c)),)
        return k
    def kind(self, name):
        f = self.P.fns.get(name)
        if f is None: return None
        return retkind(self.P, f)
    def on_call(self, E, st, ins, name, args, ctx):
        if name is None: return None
        uid, cstr, dep = ctx
        f = self.P.fns.get(name)
        if f is not None and not ('X' not in st.cl and name in self.fall) and not (dep < self.inline_depth and name not in E.stack and self.want_inline(E, f, args, dep)):
            # a call changes the error mark of nothing but what it is handed
            given = {E.base_of(a)[0] for a in args if a[0] != 'agg' and E.base_of(a)}
            keep = {k: v for k, v in st.mem.items() if k[1] == self.ERR and k[0][0] == 'S' and k[0] not in given and E.isnull(st, v) is False}
            if keep:
                out = E.default_call(st, ins, name, args, uid, cstr, dep)
                for s, v in out: 
                    for c, m in keep.items():
                        if ('S', uid) != c[0] and v != ('s', c[0][1]): s.mem.setdefault(c, m)
                if 'X' in st.cl and name in self.fall:
                    o2 = []
                    for s, v in out: self.good(E, s, name, args, v, uid, o2, None)
                    return o2
                return out
        if name in ('sqlite3_reset', 'sqlite3_finalize'):      # they give the outcome of the last step again
            out = E.default_call(st, ins, name, args, uid, cstr, dep)
            for s, v in out: s.facts[v] = NONZERO if s.cl.get('step') else (0, 0, frozenset()); s.cl.pop('step', None)
            return out
        if name in PRIM: fail, okays = PRIM[name]
        elif name in self.fall:
            f = self.P.fns[name]
            if not self.P.public(name) and dep < self.inline_depth and name not in E.stack: return None
            fail = None
        else: return None
        if plain(name) == 'apop_query' and args and (fmt(self.P, E, st, args[0]) or '').lower().startswith(HOUSE): return None
        if plain(name) == 'apop_db_open' and args and E.isnull(st, args[0]): return None      # a database in memory
        self.ops.add((ins.fn, ins.line, name))
        out = []
        for s, v in E.default_call(st, ins, name, args, uid, cstr, dep):
            if 'X' in s.cl: self.good(E, s, name, args, v, uid, out, fail); continue
            b = s.copy()
            self.good(E, s, name, args, v, uid, out, fail)
            b.cl['X'] = ('i', ins.line, plain(self.P.fns[ins.fn].name), plain(name))
            self.bad(E, b, name, args, v, uid, out, fail)
        return out
    def slot(self, E, st, name, args, val):
        n = ERRSLOT.get(name)
        if n is None or n >= len(args): return
        b = E.base_of(args[n])
        if b and isinstance(b[1], int): E.store(st, b[0], b[1], val)
    def bad(self, E, st, name, args, v, uid, out, fail):
        if fail is not None:
            m = E.fresh(st, ('w', 'err') + uid); st.facts[m] = NONZERO
            self.slot(E, st, name, args, m)
            st.facts[v] = fail
            if name == 'sqlite3_step': st.cl['step'] = 1
            if name.startswith('sqlite3_prepare'):
                b = E.base_of(args[3])
                if b and isinstance(b[1], int): E.store(st, b[0], b[1], ZERO)
            out.append((st, v)); return
        k = self.kind(name)
        if k == 'int': st.facts[v] = OWN.get(plain(name), (NONZERO, None))[0]
        elif k == 'data':
            if plain(name) in NULLS: st.facts[v] = (0, 0, frozenset())
            else:
                st.facts[v] = NONZERO; x = E.fresh(st, ('w', 'code') + uid); st.facts[x] = NONZERO
                E.store(st, ('S', v[1]), self.ERR, x)
        out.append((st, v))
    def good(self, E, st, name, args, v, uid, out, fail):
        if fail is not None:
            self.slot(E, st, name, args, ZERO)
            st.facts[v] = PRIM[name][1][0]
            if name.startswith('sqlite3_prepare'):
                b = E.base_of(args[3])
                if b and isinstance(b[1], int):
                    m = E.fresh(st, ('w', 'stmt') + uid); st.facts[m] = NONZERO; E.store(st, b[0], b[1], m)
            out.append((st, v)); return
        k = self.kind(name)
        if k == 'int': st.facts[v] = OWN.get(plain(name), (None, (0, 0, frozenset())))[1]
        elif k == 'data':
            s = st.copy(); s.facts[v] = (0, 0, frozenset()); out.append((s, v))
            st.facts[v] = NONZERO; E.store(st, ('S', v[1]), self.ERR, ZERO)
        out.append((st, v))

def rettype(P, name, repo_types):
    return repo_types.get(plain(name))

def types():
    """declared return types of the public functions"""
    import re, os
    from ..stage import REPO
    out = {}
    for fn in ['apop.m4.h'] + [x for x in os.listdir(REPO) if x.endswith('.m4.c') or x.endswith('.c')]:
        t = open(os.path.join(REPO, fn), errors='replace').read()
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        for m in re.finditer(r'(?m)^\s*(?:APOP_VAR_DECLARE|APOP_VAR_HEAD|Apop_var_declare\()?\s*(int|double|void|apop_data\s*\*|gsl_vector\s*\*|apop_model\s*\*)\s*(apop_\w+)\s*\(', t):
            out.setdefault(m.group(2), re.sub(r'\s', '', m.group(1)))
    return out
_T = None
def retkind(P, f):
    global _T
    if _T is None: _T = types()
    rt = next((i.ty for i in P.insts(f) if i.op == 'ret' and i.a), None)
    t = _T.get(plain(f.name))
    if rt is None: return None
    if rt == 'i32': return 'int'
    if rt == 'double': return 'double'
    if rt == 'ptr': return {'apop_data*': 'data', 'gsl_vector*': 'vector'}.get(t, 'other')
    return 'other'

def run(P, R, tier):
    ERR = next(o for o, n in P.fields['struct.apop_data'].items() if n == 'error')
    M = mods.compute(P)
    lib = {k: f for k, f in P.fns.items() if not f.unit.startswith('cmd/')}
    calls = {k: {P.callee(i) for i in P.calls(f)} for k, f in lib.items()}
    # which functions come to need the database, and can say that it failed
    reach = {k for k in lib if calls[k] & set(PRIM)}
    fall = set()
    work = True
    while work:
        work = False
        for k in lib:
            if k not in reach and any(c in reach and (not P.public(c) or c in fall) for c in calls[k]): reach.add(k); work = True
            if k in reach and k not in fall and retkind(P, lib[k]) in ('int', 'data'): fall.add(k); work = True
    taken = P.taken()
    entries = [k for k in sorted(reach) if (P.public(k) or k in taken) and retkind(P, lib[k]) in ('int', 'data', 'vector', 'double')]
    nops = set(); nex = 0; nfail = 0
    for k in entries:
        f = lib[k]; kind = retkind(P, f)
        rs = None
        for ms in (60, 16, 6):
            c = C(P, fall, ERR, k); c.reach = reach; c.max_states = ms
            E = c.E = engine.Engine(P, c, M)
            try: rs = E.run(k); break
            except engine.Budget: pass
        if rs is None: R.note('%s: over the state budget, not decided.' % k); R.count('functions_undecided', 1, True); continue
        nops |= c.ops
        for st, v in rs:
            nex += 1
            x = st.cl.get('X')
            if x is None: continue
            nfail += 1
            if (plain(f.name), x[3]) in ACCEPT: continue
            if reported(E, st, v, kind, plain(f.name), ERR): continue
            R.violation('unreported|%s|%s|%s' % (plain(f.name), x[2], x[3]), '%s:%s:%s' % (f.file, x[2], x[1]),
                        'when %s fails here, %s can return as if nothing had happened (%s)' % (x[3], plain(f.name), scen.short(P, E, st, v)))
        R.sample('%s: %d exit states' % (plain(k), len(rs)))
    R.count('functions_analysed', len(entries)); R.count('database_operations', len(nops)); R.count('exit_states', nex); R.count('exit_states_after_a_failure', nfail)
    R.note('Functions: %s.' % ', '.join(plain(k) for k in entries))
    if len(entries) < 12 or len(nops) < 25: raise AnalysisError('only %d functions and %d operations' % (len(entries), len(nops)))

def reported(E, st, v, kind, name, ERR):
    if kind == 'int':
        if name in OWN: lo, hi, ne = E.rng(st, v); return hi < 0
        return E.isnull(st, v) is False
    if kind == 'double': return v[0] == 'f' and v[1].lower().lstrip('+-').startswith(('nan', '0x7ff8', '0xfff8'))
    if kind == 'vector' or name in NULLS:
        if E.isnull(st, v): return True
        if kind == 'vector': return False
    b = E.base_of(v)
    if b is None or E.isnull(st, v): return False
    return E.isnull(st, E.load(st, b[0], b[1] + ERR if isinstance(b[1], int) else None, ('end',))) is False
