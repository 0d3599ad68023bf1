"""Ownership typestate over the abstract interpreter: what is acquired, handed on, released, and used after release.
One bottom-up pass over the call graph gives every function a summary (which arguments it frees or keeps, whether what it returns is
newly made) and the list of findings on its own paths."""
from . import engine, mods, scen, externs
from .engine import ZERO, INF

# acquisition: function -> (kind, argument that receives the handle or None for the return value, may fail)
ACQ = {'fopen': ('file', None, True), 'fdopen': ('file', None, True), 'popen': ('file', None, True), 'tmpfile': ('file', None, True),
       'sqlite3_prepare_v2': ('statement', 3, True), 'sqlite3_prepare': ('statement', 3, True), 'sqlite3_exec': ('message', 4, True),
       'mysql_store_result': ('result', None, True), 'mysql_use_result': ('result', None, True), 'mysql_list_tables': ('result', None, True),
       'asprintf': ('memory', 0, False), 'vasprintf': ('memory', 0, False)}
for _n in externs.ALLOC: ACQ[_n] = ('workspace' if _n.startswith('gsl_') and not _n.startswith(('gsl_vector', 'gsl_matrix', 'gsl_rng')) else 'memory', None, False)
REL = {'fclose': 0, 'pclose': 0, 'sqlite3_finalize': 0, 'mysql_free_result': 0, 'sqlite3_free': 0}
for _n in externs.FREE: REL[_n] = 0
del REL['regfree']
# functions outside the repository that keep a pointer they are given: {name: positions}
KEEPS = {'gsl_multimin_fdfminimizer_set': (1,), 'gsl_multiroot_fsolver_set': (1,), 'gsl_multimin_fminimizer_set': (1,), 'lsearch': (), 'sqlite3_create_function': (), 'signal': ()}

ARRAYS = ('malloc', 'calloc', 'realloc', 'reallocarray')
class Sum:
    __slots__ = ('gives', 'esc', 'may', 'must', 'offs', 'fresh', 'alias', 'done', 'kind', 'outs', 'inner')
    def __init__(self): self.gives = False; self.esc = set(); self.may = set(); self.must = set(); self.offs = {}; self.fresh = False; self.alias = set(); self.done = False; self.kind = 'memory'; self.outs = frozenset(); self.inner = set()
    def trivial(self): return not (self.gives or self.esc or self.may or self.must or self.offs or self.fresh or self.alias or self.inner)
    def key(self): return (frozenset(self.esc), frozenset(self.may), frozenset(self.must), repr(sorted((k, sorted(v)) for k, v in self.offs.items())), self.fresh, frozenset(self.alias), self.gives, self.outs, frozenset(self.inner))

# documented to return something new, which is the caller's to free; made in pieces the analysis of the function itself loses sight of
GIVES = {'apop_query_to_data', 'apop_query_to_text', 'apop_query_to_mixed_data', 'apop_query_to_vector', 'apop_vector_map', 'apop_matrix_map', 'apop_matrix_map_all',
         'apop_mysql_query_core', 'apop_sqlite_query_to_text', 'apop_sqlite_multiquery'}

def root(s):
    """the symbol a chain of loads starts from"""
    while s[0] in ('ld', 'un') and s[1][0] == 'S': s = s[1][1]
    return s

class Own(scen.Base):
    inline_depth = 4
    max_states = 10
    budget = 80000
    opts = {0: ('i', 100), 4: ('i', 0)}
    def __init__(self, O, top):
        self.O = O; self.P = O.P; self.top = top; self.found = []; self.s = Sum(); self.exits = []; self.freedoffs = {}; self.derefs = 0; self.acquired = set(); self.released = 0
        self.retfresh = set(); self.retother = set(); self.outs = set(); self.hold = False; self.numbers = set()
        f = self.P.fns[top]; self.whole = []
        self.dtor = ('S', ('par', 0, f.params[0][1])) if destructor(f.name) and f.params and f.params[0][0] == 'ptr' else None; D = mods.defs(f); rs = set()
        pend = [i.a[0][1] for i in self.P.insts(f) if i.op == 'ret' and i.a and i.ty == 'ptr' and i.a[0][0] == 'l']
        while pend:
            r = pend.pop()
            if r in rs: continue
            rs.add(r); d = D.get(r)
            if d is not None and d.op == 'phi': pend += [v[1] for v, l in d.x if v[0] == 'l']
            if d is not None and d.op == 'select': pend += [v[1] for v in d.a[1:] if v[0] == 'l']
        # what a value merged from several paths can be, if it never is something a call made
        leaf = set(); self.merged = []
        for r in rs:
            d = D.get(r)
            vs = [v for v, l in d.x] if d is not None and d.op == 'phi' else d.a[1:] if d is not None and d.op == 'select' else None
            if vs is None:
                if d is not None: leaf.add('in' if d.op == 'load' else 'other')
                else: leaf.add(('par', next((n for n, p in enumerate(f.params) if p[1] == r), None)))
            else: leaf |= {'null' if v[0] == 'null' or v == ZERO else 'other' for v in vs if v[0] != 'l'}
        if 'other' not in leaf and ('par', None) not in leaf: self.merged = sorted(leaf, key=repr)
        self.rets = tuple(sorted(r for r in rs if r in D and D[r].op == 'phi'))
    def inl(self, name):
        f = self.P.fns.get(name)
        if f is None or f.varargs: return False
        sm = self.O.sums.get(name)
        wrapper = name.startswith('variadic_')
        if sm is not None and sm.done and sm.trivial() and not (wrapper and any(o[0] in ('fresh', 'fresh?') for o in sm.outs)): return False
        if wrapper: return True
        return f.internal and f.key in self.O.helpers
    def want_inline(self, E, f, args, dep): return self.inl(f.key)
    def join_key(self, st):
        k = tuple(sorted(((k, v) for k, v in st.cl.items()), key=repr))
        fr = sorted((k[0][1] for k in st.mem if k[1] == 'F' and k[0][0] == 'S' and k[0][1][0] in ('par', 'ret')), key=repr) if self.max_states > 1 else ()
        if fr: k += (('F',) + tuple(fr),)
        for r in self.rets:
            v = st.env.get(r)
            if v is not None: k += ((r, v if v == ZERO or v[0] == 'np' or v[0] == 's' and v[1][0] == 'par' else 0),)
        return k
    def forget(self, E, st, cell, val):
        if val not in self.numbers and cell[0][0] != 'X' and cell[1] not in ('Z', 'E', 'C', 'M', 'F') and val[0] in ('s', 'p'): self.transfer(E, st, val, local=True)
    def rename(self, st, old, new):
        k = ('O', ('s', old))
        if k in st.cl:
            v = st.cl.pop(k); st.cl.setdefault(('O', ('s', new)), v)
    def on_branch(self, E, st, ins, cond, taken):
        for k in [k for k in st.cl if k[0] == 'O' and E.isnull(st, k[1])]: del st.cl[k]      # there was nothing to own
        if self.dtor:
            for k in st.facts:
                if k[0] == 's' and k[1][0] == 'ld' and k[1][1] == self.dtor and isinstance(k[1][2], int) and E.isnull(st, k): st.cl[('D', k[1][2])] = 1
        return True
    # -------------------------------------------------------------- freed marks
    def freed(self, st, s, d=0):
        """mark of the freed object the symbol s names, or None"""
        m = st.mem.get((('S', s), 'F'))
        if m is not None: return m
        if d < 6 and s[0] in ('ld', 'un') and s[1][0] == 'S':
            b = s[1]; m = st.mem.get((b, 'F'))
            if m is not None:
                return m if m[1] == 'deep' and s[2] in m[3] and s[2] not in m[4] else None
        return None
    def on_deref(self, E, st, ins, a, what):
        if E.isnull(st, a): return False
        b = E.base_of(a)
        self.derefs += 1
        if b is not None and b[0][0] == 'S':
            m = self.freed(st, b[0][1])
            if m is not None:
                self.report('use', ins, 'memory released at line %s is used here (%s)' % (m[2], what), self.name(E, st, b[0][1]))
                return False
            return E.assume(st, ('c', 'ne', ('s', b[0][1]), ZERO), True)      # it was there if it could be read
        return True
    def name(self, E, st, s): return scen.sym(self.P, E, st, s, (), 0)
    def report(self, kind, ins, text, nm):
        f = self.P.fns[ins.fn]
        self.found.append((kind, '%s|%s' % (f.name, nm), '%s:%s:%s' % (f.file, f.name, ins.line), text))
    # -------------------------------------------------------------- release
    def release(self, E, st, ins, v, deep=None):
        """v is freed; deep: field offsets freed along with it (None: only the object itself)"""
        b = E.base_of(v)
        if b is None: return True
        if E.isnull(st, v):
            if b[0][0] == 'S': st.cl.pop(('O', ('s', b[0][1])), None)
            return True
        if b[0][0] != 'S':
            return True
        s = b[0][1]
        self.released += 1
        m = self.freed(st, s)
        if m is not None and b[1] == 0:
            self.report('double', ins, 'released here again, first at line %s' % m[2], self.name(E, st, s))
            return False
        line = ins.line
        if s[0] in ('ld', 'un') and s[1][0] == 'S' and s[1][1][0] == 'par' and isinstance(s[2], int):
            self.freedoffs.setdefault(s[1][1][1], set()).add(s[2])
            if s[1] == self.dtor: st.cl[('D', s[2])] = 1
        st.cl.pop(('O', ('s', s)), None)
        if deep is None:
            st.mem[(b[0], 'F')] = ('mark', 'shallow', line)
        else:
            over = []
            for o in deep:
                c = st.mem.get((b[0], o))
                z = st.mem.get((b[0], 'Z'))
                if c is not None and c[0] == 's' and c[1][:3] == ('ld', b[0], o): continue
                if c is not None or z is not None:
                    over.append(o)
                    if c is not None: self.release_child(E, st, c, line)
            st.mem[(b[0], 'F')] = ('mark', 'deep', line, tuple(sorted(deep)), tuple(over))
        return True
    def release_child(self, E, st, v, line):
        b = E.base_of(v)
        if b is None or b[0][0] != 'S' or E.isnull(st, v): return
        st.cl.pop(('O', ('s', b[0][1])), None)
        self.contents(E, st, v)           # released by the release of the part itself, which is looked at on its own
        if (b[0], 'F') not in st.mem:
            st.mem[(b[0], 'F')] = ('mark', 'shallow', line)
    def transfer(self, E, st, v, through=True, out=False, local=False):
        """v, and everything stored in it, now belongs to someone else"""
        b = E.base_of(v)
        if b is None: return
        pend = [b[0]]; seen = {b[0]}
        while pend:
            x = pend.pop()
            if x[0] == 'S':
                s = x[1]
                if st.cl.pop(('O', ('s', s)), None) is not None and out: self.s.gives = True
                if s[0] == 'par' and not local: self.s.esc.add(s[1])
                if s[0] in ('ld', 'un'):
                    r = root(s)
                    if r[0] == 'par': self.s.inner.add(r[1])
                    elif r[0] in ('ld', 'un') and r[1][0] == 'B': self.s.inner.add('B')
            if not through: continue
            for (bb, o), c in st.mem.items():
                if bb == x and isinstance(o, (int, tuple)) and c not in self.numbers:
                    y = E.base_of(c)
                    if y and y[0] not in seen: seen.add(y[0]); pend.append(y[0])
    def vla(self, base):
        if base[0] != 'A': return False
        f = self.P.fns[base[2]]
        v = f.cache.get('vla')
        if v is None: v = f.cache['vla'] = {i.uid for i in self.P.insts(f) if i.op == 'alloca' and i.a and i.a[0][0] == 'l'}
        return base[3] in v
    def given_up(self, st, base):
        """an object made here that someone else has by now: what is put into it goes with it"""
        return base[0] == 'S' and base[1][0] in ('h', 'ret') and ('O', ('s', base[1])) not in st.cl
    def contents(self, E, st, v):
        b = E.base_of(v)
        if b is None: return
        for (bb, o), c in list(st.mem.items()):
            if bb == b[0] and isinstance(o, (int, tuple)) and c not in self.numbers: self.transfer(E, st, c, local=True)
    def on_store(self, E, st, ins, base, off, val):
        if ins.op == 'store' and ins.ty != 'ptr': self.numbers.add(val); return
        b = E.base_of(val)
        if b is None or b[0][0] not in ('S', 'A'): return
        if base[0] in ('A', 'B') and isinstance(off, int) and not self.vla(base): return
        if engine.local(base) and isinstance(off, int) and E.private(st, base) and not self.vla(base):
            # a struct made here owns what its fields hold; the elements of an array are not told apart
            if not (base[0] == 'S' and base[1][0] == 'h' and base[1][1] in ARRAYS and E.ctype.get((base, off)) is None) and not self.given_up(st, base): return
        self.transfer(E, st, val, out=base[0] not in ('A', 'B'), local=base[0] in ('A', 'B'))
    def on_copy(self, E, st, ins, dst, src, n):
        d, s = E.base_of(dst), E.base_of(src)
        if d is None or s is None: return
        if s[0][0] == 'B': self.s.inner.add('B')
        elif s[0][0] == 'S' and root(s[0][1])[0] == 'par': self.s.inner.add(root(s[0][1])[1])
        if isinstance(d[1], int) and not self.vla(d[0]) and (d[0][0] in ('A', 'B') or (engine.local(d[0]) and E.private(st, d[0]) and not self.given_up(st, d[0]))): return
        lo, hi = (s[1], s[1] + n[1]) if isinstance(s[1], int) and n[0] == 'i' else (-1 << 60, 1 << 60)
        for (b, o), c in list(st.mem.items()):
            if b == s[0] and isinstance(o, int) and lo <= o < hi: self.transfer(E, st, c)
    # -------------------------------------------------------------- calls
    def on_call(self, E, st, ins, name, args, ctx):
        uid, cstr, dep = ctx
        P = self.P
        if name is None:
            keep = self.method(ins)
            for n, a in enumerate(args):
                if keep is None or n in keep: self.transfer(E, st, a)
                else: self.contents(E, st, a)
            return None
        f = P.fns.get(name)
        if f is not None:
            if self.inl(name) and dep < self.inline_depth and name not in E.stack:
                if name.startswith('variadic_') and not self.used(ins, cstr) and not self.given(E, st, ins, f, args, uid): return []
                return None
            sm = self.O.sums.get(name)
            outs = self.outcomes(E, st, sm, args)
            kinds = {o[0] for o in outs}
            for n, a in enumerate(args):
                if a[0] == 'agg': continue
                b = E.base_of(a)
                if b is None: continue
                if b[0][0] == 'A':
                    if sm is None or n in sm.esc or n in sm.inner or n in sm.may or 'B' in sm.inner: self.contents(E, st, a)
                    continue
                if b[0][0] != 'S': continue
                s = b[0][1]
                if sm is None:
                    self.transfer(E, st, a); continue
                if n in sm.must and b[1] == 0:
                    if not self.release(E, st, ins, a, sm.offs.get(n, ())): return []
                    if destructor(f.name) and len(f.params) == 1:      # the object is gone, which is what a zero result says
                        return [(st, ('i', 0) if ins.ty != 'void' else None)]
                    continue
                m = self.freed(st, s)
                if m is not None and not E.isnull(st, a):
                    self.report('use', ins, 'memory released at line %s is handed to %s' % (m[2], f.name), self.name(E, st, s)); return []
                if n in sm.may or n in sm.esc or (n in sm.alias and 'other' in kinds):
                    self.transfer(E, st, a)
                    if n in sm.may and s[0] == 'par': self.s.may.add(s[1])
                elif n in sm.inner:
                    self.contents(E, st, a)
                    if s[0] == 'par': self.s.inner.add(s[1])
            if any(isinstance(k, tuple) for k in kinds) and not self.used(ins, cstr):
                outs = [o for o in outs if isinstance(o[0], tuple)]; kinds = {o[0] for o in outs}      # the caller counts on getting its argument back
            if 'other' in kinds or 'in' in kinds and not any(k[0] == 'par' for k in kinds if isinstance(k, tuple)) or not any(k[0] == 'par' for k in kinds if isinstance(k, tuple)): return None
            return self.split(E, st, ins, name, args, ctx, outs, kinds, sm)
        if name in REL and len(args) > REL[name]:
            v = args[REL[name]]
            if not self.release(E, st, ins, v): return []
            return [(st, ('i', 0) if ins.ty != 'void' else None)]
        if name == 'realloc':
            old = args[0]
            b = E.base_of(old)
            if b is not None and b[0][0] == 'S' and not E.isnull(st, old):
                m = self.freed(st, b[0][1])
                if m is not None:
                    self.report('use', ins, 'memory released at line %s is resized here' % m[2], self.name(E, st, b[0][1])); return []
                saved = dict((k, v) for k, v in st.mem.items() if k[0] == b[0])
                st.cl.pop(('O', ('s', b[0][1])), None)
                v = externs.model(E, st, ins, name, args, uid)
                if E.base_of(v) != b: st.mem[(b[0], 'F')] = ('mark', 'shallow', ins.line)
                self.acquire(E, st, ins, 'memory', v)
                return [(st, v)]
            return None
        for p in KEEPS.get(name, ()):
            if p < len(args): self.transfer(E, st, args[p])
        if name in ('sqlite3_exec', 'sqlite3_prepare_v2', 'sqlite3_prepare') and not self.hold and len(args) > 4 and self.used(ins):
            # the engine leaves a message exactly when it fails, and a statement only when it does not
            pos = ACQ[name][1]; b = E.base_of(args[pos]); self.hold = True
            try: rs = E.default_call(st, ins, name, args, *ctx)
            finally: self.hold = False
            if not rs or b is None or b[0][0] not in ('A', 'B') or not isinstance(b[1], int): return rs
            out = []
            for s1, v in rs:
                got = s1.mem.get((b[0], b[1]))
                for ok in (True, False):
                    s2 = s1.copy()
                    if not E.assume(s2, ('c', 'eq', v, ZERO), ok): continue
                    if ok == (name == 'sqlite3_exec'):
                        if got is not None: s2.cl.pop(('O', got), None)
                        s2.mem[(b[0], b[1])] = ZERO
                    out.append((s2, v))
            return out
        if name in ('strcmp', 'strcasecmp') and len(args) == 2:
            v = externs.model(E, st, ins, name, args, uid)
            if v is externs.NORETURN: return []
            if v[0] == 'i': return [(st, v)]
            if all(a[0] in ('s', 'p') for a in args): return [(st, ('s', ('b', name, args[0], args[1])))]      # the same texts compare the same again
            return [(st, v)]
        for n, a in enumerate(args):
            b = E.base_of(a)
            if b is not None and b[0][0] == 'S':
                m = self.freed(st, b[0][1])
                if m is not None and not E.isnull(st, a):
                    self.report('use', ins, 'memory released at line %s is handed to %s' % (m[2], name), self.name(E, st, b[0][1])); return []
            if b is not None and b[0][0] == 'A' and not name.startswith(externs.QUIET_PREFIX) and name not in externs.WRITES_ARG: self.contents(E, st, a)
        return None
    def outcomes(self, E, st, sm, args):
        """the recorded exits of the callee that the nullness of the arguments allows"""
        if sm is None: return ()
        nul = {n for n, a in enumerate(args) if a[0] in ('s', 'p', 'np', 'i') and E.isnull(st, a)}
        non = {n for n, a in enumerate(args) if a[0] == 'p' or (a[0] == 's' and E.truth(st, ('c', 'ne', a, ZERO)) is True)}
        def fits(C):
            for n, lo, hi, ne in C:
                v = args[n] if n < len(args) else None
                if v is None or v[0] not in ('i', 's'): continue
                a, b, x = E.rng(st, v)
                if b < lo or a > hi or (a == b and a in ne): return False
            return True
        return [o for o in sm.outs if not (o[1] & non) and not (o[2] & nul) and fits(o[3])]
    def split(self, E, st, ins, name, args, ctx, outs, kinds, sm):
        """the callee returns one of its arguments, something new, or nothing: follow each separately"""
        self.hold = True
        try: rs = E.default_call(st, ins, name, args, *ctx)
        finally: self.hold = False
        out = []
        for s1, v in rs:
            groups = {}
            for o in outs: groups.setdefault(o[0] if isinstance(o[0], tuple) else 'new', []).append(o)
            for g, os in sorted(groups.items(), key=repr):
                s2 = s1.copy()
                N = frozenset.intersection(*[o[1] for o in os]); Pn = frozenset.intersection(*[o[2] for o in os])
                if g != 'new': Pn = Pn | {g[1]}
                if not all(E.assume(s2, ('c', 'eq', args[n], ZERO), True) for n in N if n < len(args) and args[n][0] in ('s', 'p', 'i', 'np')): continue
                if not all(E.assume(s2, ('c', 'eq', args[n], ZERO), False) for n in Pn if n < len(args) and args[n][0] in ('s', 'p', 'i', 'np')): continue
                if g == 'new':
                    ks = {o[0] for o in os}
                    if ks == {'null'}: out.append((s2, ZERO)); continue
                    if 'in' not in ks: self.acquire(E, s2, ins, sm.kind, v)
                    if ks == {'fresh'}: E.assume(s2, ('c', 'ne', v, ZERO), True)
                    out.append((s2, v))
                else: out.append((s2, args[g[1]]))
        return out
    def given(self, E, st, ins, f, args, uid):
        """a call of a wrapper whose result is ignored counts on getting its argument back: that argument is there, if the call names one"""
        from . import ir
        sm = self.O.sums.get(f.key[9:] + '_base'); b = E.base_of(args[0]) if args else None
        if sm is None or b is None or not isinstance(b[1], int): return True
        m = self.P.modof[f.unit]; up = self.P.fns[ins.fn]; D = mods.defs(up)
        for n in {o[0][1] for o in sm.outs if isinstance(o[0], tuple)}:
            off = ir.field_offset(m, ('named', 'struct.variadic_type_' + f.key[9:]), n)[0]
            v = E.load(st, b[0], b[1] + off, uid)
            if v == ZERO:
                for i in self.P.insts(up):
                    if i.op == 'store' and i.a[0][0] == 'l' and i.a[1][0] == 'l':
                        g = D.get(i.a[1][1])
                        if g is not None and g.op == 'getelementptr' and g.a[0] == ins.a[1] and g.x[1] and g.x[1][3] == off: return False
            if v[0] == 's' and E.truth(st, ('c', 'ne', v, ZERO)) is None: E.assume(st, ('c', 'ne', v, ZERO), True)
        return True
    def used(self, ins, cstr=()):
        """is the result of this call looked at"""
        if cstr and ins.fn.startswith('variadic_'):       # a wrapper hands the result on
            up = self.P.fns.get(cstr[-1][0])
            for i in (self.P.calls(up) if up else ()):
                if i.uid == cstr[-1][1]: return self.used(i, cstr[:-1])
        f = self.P.fns[ins.fn]
        u = f.cache.get('used')
        if u is None:
            u = f.cache['used'] = set()
            def add(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'l': u.add(v[1])
                    else:
                        for w in v: add(w)
                elif isinstance(v, list):
                    for w in v: add(w)
            for i in self.P.insts(f): add(i.a); add(i.x)
        return ins.res in u
    def method(self, ins):
        """positions an indirect call may keep: a model's methods do not take over the model they belong to, and only estimate and prep may keep the data"""
        f = self.P.fns[ins.fn]
        if ins.a[0][0] != 'l': return None
        d = mods.defs(f).get(ins.a[0][1])
        if d is None: return ()                 # a callback the caller gave works on what it is given and no more
        if d.op != 'load' or d.a[0][0] != 'l': return None
        g = mods.defs(f).get(d.a[0][1])
        if g is None or g.op != 'getelementptr' or not g.x[1]: return None
        if g.x[1][2] != 'struct.apop_model': return () if g.x[1][2] and 'settings' not in g.x[1][2] else None
        m = self.P.field('struct.apop_model', g.x[1][3])
        return {'estimate': (0,), 'prep': (0,), 'p': (), 'log_likelihood': (), 'cdf': (), 'constraint': (), 'draw': ()}.get(m)
    def acquire(self, E, st, ins, kind, v):
        if v is None or v[0] != 's': return
        st.cl[('O', v)] = (kind, ins.fn, ins.line)
        self.acquired.add((ins.fn, ins.uid))
    def after_call(self, E, st, ins, name, args, val):
        if name is None: return
        a = ACQ.get(name)
        if a is not None and name not in self.P.fns:
            kind, pos, fail = a
            v = val
            if pos is not None:
                b = E.base_of(args[pos]) if pos < len(args) else None
                if b is None: return
                v = st.mem.get((b[0], b[1] if isinstance(b[1], int) else 0))
                if v is None:
                    v = E.load(st, b[0], b[1], ('acq', ins.fn, ins.uid))
                if b[0][0] not in ('A', 'B') and not (engine.local(b[0]) and E.private(st, b[0])):
                    self.s.gives = True; return
                if v[0] == 's' and v[1][0] in ('un',):
                    v = E.fresh(st, ('h', name, 'slot', ins.fn, ins.uid)); st.mem[(b[0], b[1])] = v
                    st.facts.pop(v, None)
            if fail and val is not None and val[0] == 's' and pos is None: pass
            self.acquire(E, st, ins, kind, v)
            return
        sm = self.O.sums.get(name)
        if sm is not None and not self.hold and val is not None and val[0] == 's' and val[1][:2] == ('ret', name):
            ks = {o[0] for o in self.outcomes(E, st, sm, args)}
            if name in GIVES: ks = {'fresh?' if k in ('in', 'other', 'fresh?') else k for k in ks}
            if ks & {'fresh', 'fresh?'} and ks <= {'fresh', 'fresh?', 'null'}:
                self.acquire(E, st, ins, sm.kind, val)
                if ks == {'fresh'}: E.assume(st, ('c', 'ne', val, ZERO), True)
    # -------------------------------------------------------------- exits
    def on_return(self, E, st, fn, v, dep):
        if dep: return
        # freed parameters
        pf = {}
        for n, (ty, nm, d) in enumerate(fn.params):
            if ty != 'ptr': continue
            s = ('par', n, nm)
            if E.isnull(st, ('s', s)): continue
            pf[n] = (('S', s), 'F') in st.mem
        self.exits.append(pf)
        if self.dtor and (self.dtor, 'F') in st.mem:
            self.whole.append((frozenset(o for o in self.freedoffs.get(0, ()) if ('D', o) in st.cl or E.isnull(st, ('s', ('ld', self.dtor, o))))))
        if v is not None:
            b = E.base_of(v)
            kind = 'null' if E.isnull(st, v) else 'other'
            if kind == 'other' and b is not None and b[0][0] == 'S' and b[1] == 0:
                if ('O', ('s', b[0][1])) in st.cl: kind = 'fresh' if E.truth(st, ('c', 'ne', v, ZERO)) is True else 'fresh?'
                elif b[0][1][0] == 'par': kind = ('par', b[0][1][1])
                elif b[0][1][0] in ('ld', 'un', 'phi', 'ret', 'h'): kind = 'in'      # none of the arguments themselves
            kinds = [kind]
            if kind == 'other' and v[0] == 's' and v[1][0] == 'j': kinds = self.merged or [kind]
            N = frozenset(n for n, (ty, nm, d) in enumerate(fn.params) if ty == 'ptr' and E.isnull(st, ('s', ('par', n, nm))))
            Pn = frozenset(n for n, (ty, nm, d) in enumerate(fn.params) if ty == 'ptr' and 'byval' not in d and E.truth(st, ('c', 'ne', ('s', ('par', n, nm)), ZERO)) is True)
            C = []
            for n, (ty, nm, d) in enumerate(fn.params):
                if ty == 'ptr' or not ty.startswith('i'): continue
                f = st.facts.get(('s', ('par', n, nm)))
                if f is not None: C.append((n, f[0], f[1], tuple(sorted(f[2]))))
            for k in kinds: self.outs.add((k, N, Pn, tuple(C)))
        # what is reachable by others
        reach = set()
        pend = []
        if v is not None:
            b = E.base_of(v)
            if b is not None:
                pend.append(b[0])
                if b[0][0] == 'S':
                    if ('O', ('s', b[0][1])) in st.cl: self.retfresh.add(st.cl[('O', ('s', b[0][1]))][0])
                    elif not E.isnull(st, v):
                        self.retother.add(b[0])
                        r = b[0][1]
                        if r[0] == 'par': self.s.alias.add(r[1])      # a pointer into the argument leaves the argument where it was
                        if (b[0], 'F') in st.mem:
                            self.found.append(('use', '%s|return' % fn.name, '%s:%s' % (fn.file, fn.name), 'memory released at line %s is returned' % st.mem[(b[0], 'F')][2]))
                else: self.retother.add(b[0])
            elif v[0] not in ('i', 'np'): self.retother.add(v)
            if v[0] == 'agg': pend.append(v[1])
        cells = {}
        for (bb, o), c in st.mem.items():
            if not isinstance(o, (int, tuple)): continue
            if c not in self.numbers: cells.setdefault(bb, []).append(c)
            if bb[0] == 'G': pend.append(bb)
            elif bb[0] == 'S' and root(bb[1])[0] not in ('h',): pend.append(bb)
            elif bb[0] == 'B': pass
        # struct returned through a pointer parameter
        while pend:
            x = pend.pop()
            if x in reach: continue
            reach.add(x)
            for c in cells.get(x, ()):
                y = E.base_of(c)
                if y: pend.append(y[0])
                if y and y[0][0] == 'S' and x[0] == 'S' and x[1][0] in ('h', 'ret') and y[0][1][0] in ('par', 'ld', 'un'):
                    z = y[0][1]; r = root(z)
                    if z[0] == 'par': self.s.esc.add(z[1])
                    elif r[0] == 'par': self.s.inner.add(r[1])
                    elif r[0] in ('ld', 'un') and r[1][0] == 'B': self.s.inner.add('B')
        if not destructor(fn.name) and 'free' not in fn.name and (self.P.public(fn.key) or fn.key in self.P.taken()):
            for (bb, o), c in list(st.mem.items()):
                if o != 'F' or bb[0] != 'S' or bb[1][0] != 'ld': continue
                s = bb[1]; pb, po = s[1], s[2]
                if pb[0] not in ('S', 'G') or not isinstance(po, int) or not E.ctype.get((pb, po)): continue
                if pb[0] == 'S' and (root(pb[1])[0] != 'par' or self.freed(st, pb[1]) is not None): continue
                if E.isnull(st, ('s', s)): continue
                if E.load(st, pb, po, ('end',)) != ('s', s): continue
                self.found.append(('dangling', '%s|%s' % (fn.name, self.name(E, st, s)), '%s:%s:%s' % (fn.file, fn.name, c[2]), 'memory released here is still referred to from outside when the call returns'))
            for (pb, po), v0 in list(st.mem.items()):
                if pb[0] not in ('S', 'G') or not isinstance(po, int) or not E.ctype.get((pb, po)) or v0[0] != 's' or v0[1][0] != 'ld' or v0 in self.numbers: continue
                if pb[0] == 'S' and (root(pb[1])[0] != 'par' or self.freed(st, pb[1]) is not None): continue
                m = self.freed(st, v0[1])
                if m is not None and not E.isnull(st, v0):
                    self.found.append(('dangling', '%s|%s' % (fn.name, self.name(E, st, v0[1])), '%s:%s:%s' % (fn.file, fn.name, m[2]), 'memory released here has been stored where the caller still refers to it when the call returns'))
        for k, o in list(st.cl.items()):
            if k[0] != 'O': continue
            if E.isnull(st, k[1]): continue
            if ('S', k[1][1]) in reach: continue
            f = self.P.fns[o[1]]
            if fn.key in self.O.helpers and any(ty == 'ptr' and E.isnull(st, ('s', ('par', n, nm))) for n, (ty, nm, d) in enumerate(fn.params)):
                continue        # depends on what the callers pass, and it is analysed inside each of them
            self.found.append(('leak:' + o[0], '%s|%s|%s' % (fn.name, f.name if f is not fn else '', self.name(E, st, k[1][1])), '%s:%s:%s' % (f.file, f.name, o[2]),
                               '%s obtained here is neither released nor handed on at some exit of %s' % (o[0], fn.name)))

class Ownership:
    def __init__(self, P, M, keys=None):
        self.P = P; self.M = M; self.sums = {}; self.results = {}; self.undecided = []
        self.keys = keys
        self.helpers = self.find_helpers()
    def find_helpers(self):
        """small internal functions that are analysed inside their callers"""
        P = self.P; out = set(); t = P.taken()
        for k, f in P.fns.items():
            if f.internal and k not in t and sum(len(b.insts) for b in f.blocks.values()) < 250: out.add(k)
        return out
    def sccs(self):
        P = self.P; idx = {}; low = {}; onst = set(); st = []; out = []; n = [0]
        calls = {k: [P.callee(i) for i in P.calls(f) if P.callee(i) in P.fns] for k, f in P.fns.items()}
        for r in P.fns:
            if r in idx: continue
            work = [(r, iter(calls[r]))]; idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); onst.add(r)
            while work:
                v, it = work[-1]; adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); onst.add(w); work.append((w, iter(calls[w]))); adv = True; break
                    elif w in onst: low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); onst.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
        return out
    def plain(self, f):
        """no acquisition, release or pointer store here or below: nothing to decide"""
        P = self.P
        for i in P.insts(f):
            if i.op == 'store' and i.ty == 'ptr': return False
            if i.op == 'ret' and i.a and i.ty == 'ptr': return False
            if i.op == 'call':
                n = P.callee(i)
                if n is None or n in ACQ or n in REL or n in KEEPS or n == 'realloc': return False
                if n in P.fns:
                    s = self.sums.get(n)
                    if s is None or not s.trivial(): return False
        return True
    def one(self, k):
        f = self.P.fns[k]
        if self.plain(f):
            s = Sum(); s.done = True
            return k, s, {'found': [], 'derefs': 0, 'acquired': set(), 'released': 0, 'exits': 0, 'states': 0, 'time': 0}
        und = True; import time; t0 = time.time()
        for ms in (8, 2, 1):
            c = Own(self, k); c.max_states = ms
            if ms == 1: c.budget = 200000
            E = engine.Engine(self.P, c, self.M)
            try:
                E.run(k)
            except engine.Budget:
                c.found = []; continue
            und = False
            if ms == 1: c.found = [x for x in c.found if not x[0].startswith('leak')]      # what belongs together on a path was merged
            if ms == 8 and any(x[0].startswith('leak') for x in c.found):
                # merged paths may have brought about what no path does: look again with the paths kept apart
                c2 = Own(self, k); c2.max_states = 80; c2.budget = 400000
                try:
                    engine.Engine(self.P, c2, self.M).run(k)
                    c2.s.kind = c.s.kind
                    keep = {x[:3] for x in c2.found}
                    c.found = [x for x in c.found if x[:3] in keep]; ms = 80
                except engine.Budget: pass
            break
        s = c.s
        for o in sorted(o for o in c.freedoffs.get(0, ()) if E.ctype.get((c.dtor, o))) if c.dtor else ():
            # what a destructor releases along with the object on one path it releases on every path that releases the object
            n = sum(o not in w for w in c.whole)
            if n: c.found.append(('leak:memory', '%s||part at %d' % (f.name, o), '%s:%s' % (f.file, f.name), 'a part of the object (offset %d) is released on some paths and not on others, though the object itself is' % o))
        r = {'found': c.found, 'derefs': c.derefs, 'acquired': c.acquired, 'released': c.released, 'exits': len(c.exits), 'states': ms, 'time': time.time() - t0}
        if und: return k, None, r
        pars = {n for pf in c.exits for n in pf}
        s.must = {n for n in pars if all(pf.get(n, True) for pf in c.exits)}
        s.may |= {n for pf in c.exits for n, x in pf.items() if x}
        if destructor(f.name) and 0 in s.may: s.must.add(0)      # it may decline (a damaged object); callers give the object up all the same
        s.offs = c.freedoffs
        s.done = True
        s.outs = frozenset(c.outs) if len(c.outs) <= 60 else frozenset(o[:3] + ((),) for o in c.outs)
        s.fresh = bool(c.retfresh) and not c.retother
        if c.retfresh: s.kind = sorted(c.retfresh)[0]
        return k, s, r
    def comp(self, comp):
        """one strongly connected component -> [(key, summary, result)]"""
        rec = len(comp) > 1 or any(self.P.callee(i) == comp[0] for i in self.P.calls(self.P.fns[comp[0]]))
        out = {}
        if rec:
            for k in comp:
                s = self.sums[k] = Sum()
                if destructor(self.P.fns[k].name): s.must = {0}; s.may = {0}
        for rnd in range(3 if rec else 1):
            old = {k: self.sums[k].key() if self.sums.get(k) else None for k in comp}
            for k in sorted(comp):
                _, s, r = self.one(k)
                self.sums[k] = s
                out[k] = (k, s, r)
            if all(self.sums[k] and self.sums[k].key() == old[k] for k in comp): break
        return [out[k] for k in comp]
    def run(self, jobs=8):
        import multiprocessing as mp
        P = self.P
        comps = [[k for k in c if not P.fns[k].unit.startswith("cmd/")] for c in self.sccs()]
        comps = [c for c in comps if c]
        at = {k: i for i, c in enumerate(comps) for k in c}
        need = {i: {at[n] for k in c for n in (P.callee(x) for x in P.calls(P.fns[k])) if n in at and at[n] != i} for i, c in enumerate(comps)}
        users = {}
        for i, ds in need.items():
            for d in ds: users.setdefault(d, set()).add(i)
        # the longest chain of work below a component's users decides its turn
        prio = {}
        for i in reversed(range(len(comps))):     # users come after what they use
            prio[i] = sum(self.weight(k) for k in comps[i]) + max([prio[u] for u in users.get(i, ())] or [0])
        global _O
        _O = self
        ready = [i for i in need if not need[i]]; waiting = {i: set(d) for i, d in need.items() if d}
        mods.fresh_fns(P)
        ctx = mp.get_context('fork')
        inq, outq = ctx.SimpleQueue(), ctx.SimpleQueue()
        procs = [ctx.Process(target=_worker, args=(inq, outq), daemon=True) for _ in range(jobs)]
        for p in procs: p.start()
        running = 0; done = 0
        try:
            while done < len(comps):
                ready.sort(key=lambda i: prio[i])
                while ready and running < jobs:
                    i = ready.pop()
                    inq.put((i, comps[i], self.below(comps[i]))); running += 1
                i, res = outq.get(); running -= 1; done += 1
                if isinstance(res, str): raise RuntimeError(res)
                for k, s, r in res:
                    self.sums[k] = s; self.results[k] = r
                    if s is None: self.undecided.append(k)
                for u in users.get(i, ()):
                    if u in waiting:
                        waiting[u].discard(i)
                        if not waiting[u]: del waiting[u]; ready.append(u)
        finally:
            for p in procs: p.terminate()
            for p in procs: p.join()
    def below(self, comp):
        """summaries of everything reachable through functions that may be analysed in place"""
        P = self.P; out = {}; pend = list(comp); seen = set(comp)
        while pend:
            k = pend.pop()
            for i in P.calls(P.fns[k]):
                n = P.callee(i)
                if n in seen or n not in P.fns: continue
                seen.add(n)
                if n in self.sums: out[n] = self.sums[n]
                if n.startswith('variadic_') or P.fns[n].internal: pend.append(n)
        return out
    def weight(self, k): return sum(len(b.insts) for b in self.P.fns[k].blocks.values())

def destructor(n): return n.endswith(('_free', '_free_base')) or n == 'cleanup'

_O = None
def _worker(inq, outq):
    import traceback
    while True:
        i, comp, sums = inq.get()
        _O.sums = sums
        try: outq.put((i, _O.comp(comp)))
        except BaseException: outq.put((i, traceback.format_exc()))
