"""What each function may change in, keep of and share with what it is handed: field-sensitive points-to sets over SSA form, with
summaries composed bottom-up. Memory reached from a parameter is named by the path of fields to it; blocks that constant arguments
rule out are left out, and what a local struct holds is read off the stores that reach the use."""
from . import mods, externs, ir
from .prog import AnalysisError

T = 'T'
VD, MD = 16, 24          # data members of gsl_vector and gsl_matrix
LIM = 6
# functions outside the repository: (argument, what is written): b bytes, v elements of a vector, m of a matrix
EXTW = {}
for _n in ('strcpy', 'strcat', 'strncpy', 'sprintf', 'snprintf', 'memcpy', 'memmove', 'memset', 'fgets', 'qsort', 'regcomp', 'gsl_permutation_init',
           'omp_init_lock', 'cblas_dscal', 'fread', 'asprintf', 'vasprintf'): EXTW[_n] = ((0, 'b'),)
for _n in ('gsl_vector_set', 'gsl_vector_set_all', 'gsl_vector_set_zero', 'gsl_vector_add', 'gsl_vector_sub', 'gsl_vector_mul', 'gsl_vector_div', 'gsl_vector_scale',
           'gsl_vector_add_constant', 'gsl_vector_memcpy', 'gsl_sort_vector', 'gsl_vector_reverse', 'gsl_vector_swap_elements', 'gsl_matrix_get_row', 'gsl_matrix_get_col'): EXTW[_n] = ((0, 'v'),)
for _n in ('gsl_matrix_set', 'gsl_matrix_set_all', 'gsl_matrix_set_zero', 'gsl_matrix_set_identity', 'gsl_matrix_scale', 'gsl_matrix_add', 'gsl_matrix_sub', 'gsl_matrix_add_constant',
           'gsl_matrix_set_row', 'gsl_matrix_set_col', 'gsl_matrix_memcpy', 'gsl_matrix_transpose', 'gsl_matrix_transpose_memcpy', 'gsl_matrix_mul_elements', 'gsl_matrix_swap_rows',
           'gsl_matrix_swap_columns', 'gsl_linalg_cholesky_decomp'): EXTW[_n] = ((0, 'm'),)
EXTW.update({'gsl_blas_dgemv': ((5, 'v'),), 'gsl_blas_dgemm': ((6, 'm'),), 'gsl_blas_dsymv': ((5, 'v'),), 'gsl_blas_ddot': ((2, 'b'),), 'gsl_linalg_LU_decomp': ((0, 'm'), (2, 'b')),
             'gsl_linalg_LU_invert': ((2, 'm'),), 'gsl_linalg_HH_solve': ((0, 'm'), (2, 'v')), 'gsl_linalg_SV_decomp': ((0, 'm'), (1, 'm'), (2, 'v'), (3, 'v')), 'gsl_eigen_symmv': ((0, 'm'), (1, 'v'), (2, 'm')),
             'gsl_vector_minmax': ((1, 'b'), (2, 'b')), 'gsl_ran_dirichlet': ((3, 'b'),), 'gsl_ran_multinomial': ((4, 'b'),), 'gsl_sort_vector_index': ((0, 'b'),), 'strtod': ((1, 'b'),),
             'modf': ((1, 'b'),), 'regexec': ((3, 'b'),), 'lsearch': ((1, 'b'), (2, 'b')), 'cblas_daxpy': ((4, 'b'),), 'cblas_dcopy': ((3, 'b'),), 'cblas_dswap': ((1, 'b'), (3, 'b')),
             'cblas_drot': ((1, 'b'), (3, 'b')), 'getline': ((0, 'b'), (1, 'b')), 'sqlite3_open': ((1, 'b'),), 'sqlite3_prepare_v2': ((3, 'b'),), 'gsl_ran_shuffle': ((1, 'b'),),
             'gsl_vector_swap': ((0, 'v'), (1, 'v')), 'gsl_multimin_fminimizer_iterate': (), 'strtok_r': ((0, 'b'), (2, 'b')), 'strtok': ((0, 'b'),)})
VIEWS = {'gsl_matrix_row': 'm', 'gsl_matrix_column': 'm', 'gsl_matrix_const_row': 'm', 'gsl_matrix_const_column': 'm', 'gsl_matrix_diagonal': 'm', 'gsl_vector_subvector': 'v',
         'gsl_vector_const_subvector': 'v', 'gsl_matrix_submatrix': 'mm', 'gsl_matrix_const_submatrix': 'mm', 'gsl_vector_view_array': 'b', 'gsl_vector_const_view_array': 'b', 'gsl_matrix_view_array': 'bm', 'gsl_matrix_view_vector': 'vm'}
INTO = {'strchr': 0, 'strrchr': 0, 'strstr': 0, 'strtok': 0, '__xpg_basename': 0, 'strpbrk': 0, 'bsearch': 1, 'lsearch': 1, 'strcpy': 0, 'strcat': 0, 'strncpy': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'fgets': 0}
PTR = {'gsl_vector_ptr': VD, 'gsl_matrix_ptr': MD, 'gsl_vector_const_ptr': VD, 'gsl_matrix_const_ptr': MD}
# what the methods of a model are there to change: argument -> below it
METHODS = {'estimate': (1,), 'draw': (0,), 'prep': (0, 1), 'constraint': (1,), 'p': (), 'log_likelihood': (), 'cdf': ()}

def choice(v, byte=False):
    """a constant that picks one way of doing things: 'y', 'n', 'r'"""
    return v[0] == 'k' and (byte and v[1] == 0 or 64 < v[1] < 123)

class Sum:
    def __init__(self): self.writes = set(); self.rets = set(); self.heap = {}; self.links = {}
    def key(self): return (len(self.writes), len(self.rets), sum(len(v) for v in self.heap.values()), sum(len(v) for v in self.links.values()))

BAD = '!'
# the machinery of models, where it is called: argument -> changed below it, and the argument a new model is made on. Each of these is analysed on its own.
CONTRACT = {'apop_estimate': ((), 1), 'apop_maximum_likelihood': ((1,), None), 'apop_prep': ((0, 1), None), 'apop_draw': ((0,), None), 'apop_arms_draw': ((0,), None), 'apop_cdf': ((), None),
            'apop_update_base': ((), 'new'), 'apop_model_metropolis_base': ((), 'new'), 'apop_model_draws_base': ((2,), 'out'), 'apop_parameter_model': ((), 'new'), 'apop_predict': ((0,), 'in')}

class Fun:
    """one function under one choice of constants"""
    def __init__(self, A, f, consts):
        self.A = A; self.P = A.P; self.f = f; self.consts = consts
        self.V = {}; self.H = {}; self.links = {}; self.reach = {f.order[0]}; self.edges = set(); self.writes = set(); self.rets = set()
        self.D = mods.defs(f); self.walks = {}; self.asides = {}; self.pos = {}
        for l in f.order:
            for n, i in enumerate(f.blocks[l].insts): self.pos[id(i)] = (l, n)
        self.byval = {n for n, (ty, nm, d) in enumerate(f.params) if 'byval' in d}
        self.sret = {n for n, (ty, nm, d) in enumerate(f.params) if 'sret' in d}
        for n, (ty, nm, d) in enumerate(f.params):
            if ty == 'ptr': self.V[nm] = {('k', 0)} if consts.get(('a', n)) == 'null' else {('p', ('P', n, ()), 0)}
            elif ('a', n) in consts: self.V[nm] = {('k', consts[('a', n)])}
            else: self.V[nm] = {T}
        self.given = {nm: consts[('a', n)] for n, (ty, nm, d) in enumerate(f.params) if consts.get(('a', n)) in ('null', 'given')}
        self.changed = True
        self.preds = {}
        for l in f.order:
            for s in f.blocks[l].succs: self.preds.setdefault(s, []).append(l)
    # ---------------------------------------------------------------- values
    def val(self, o):
        k = o[0]
        if k == 'l': return self.V.get(o[1], set())
        if k == 'i': return {('k', o[1])}
        if k == 'z': return {('k', 0)}
        if k == 'g':
            if o[1] in self.P.fns or o[1] not in self.P.globals: return {('f', o[1])}
            return {('p', ('G', o[1], ()), o[2])}
        return {T}
    def put(self, d, k, vs):
        if d is self.H and k[0][0] == 'G': return
        s = d.get(k)
        if s is None: s = d[k] = set()
        if T in s and not any(v[0] in 'pf' for v in vs if v != T): return
        n = len(s); s |= vs
        ks = [v for v in s if v != T and v[0] == 'k']
        if len(ks) > 4: s -= set(ks); s.add(T)
        if len(s) != n: self.changed = True
    def there(self, v):
        """cannot be NULL"""
        n = v[1]
        return n[0] in 'AO' or n[0] == 'P' and not n[2] and v[2] == 0 and self.consts.get(('a', n[1])) == 'given'
    # what a local struct holds at a point: the stores that reach it
    def syn(self, o):
        """(alloca, offset or None) a pointer operand stands for, as written"""
        off = 0
        while o[0] == 'l':
            d = self.D.get(o[1])
            if d is None: return None
            if d.op == 'alloca': return d, off
            if d.op == 'getelementptr':
                gp = d.x[1]
                if gp is None or gp[1]: off = None
                elif off is not None: off += gp[0]
                o = d.a[0]; continue
            return None
        return None
    def sources(self, ins, al, off):
        k = (id(ins), al.uid, off)
        w = self.walks.get(k)
        if w is not None: return w
        out = []; seen = set(); pend = [self.pos[id(ins)]]
        while pend:
            l, n = pend.pop()
            b = self.f.blocks[l]; stop = False
            while n > 0:
                n -= 1; i = b.insts[n]
                if i is al: stop = True; break
                if i.op == 'store':
                    s = self.syn(i.a[1])
                    if s and s[0] is al and (s[1] == off or s[1] is None):
                        out.append(('s', i, l))
                        if s[1] == off: stop = True; break
                elif i.op == 'call':
                    c = self.P.callee(i)
                    if c and c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        s = self.syn(i.a[1])
                        if s and s[0] is al:
                            sz = i.a[3][1] if i.a[3][0] == 'i' else None
                            if s[1] is None or sz is None or s[1] <= off < s[1] + sz:
                                out.append(('c' if 'memset' not in c else 'z', i, l, off - s[1] if s[1] is not None else None))
                                if s[1] is not None and sz is not None: stop = True; break
            if stop: continue
            for p in self.preds.get(l, ()):
                if p not in seen: seen.add(p); pend.append((p, len(self.f.blocks[p].insts)))
        self.walks[k] = out
        return out
    def load(self, node, off, at, ty='ptr', seen=None):
        seen = seen if seen is not None else set()
        if (node, off, at and id(at)) in seen or len(seen) > 40: return set()
        seen.add((node, off, at and id(at)))
        res = set()
        if off is None:
            for (n, o), v in self.H.items():
                if n == node: res |= v
        else: res |= self.H.get((node, off), set()) | self.H.get((node, '*'), set())
        if off is None or not self.H.get((node, off)):      # what was copied wholesale and then replaced is what it was replaced by
          for s, d, w in self.links.get(node, ()):
            res |= self.load(s, off - d if off is not None and d is not None else None, w, ty, seen)
        if node[0] == 'A':
            al = self.A.allocas[node[1]]
            if off is None or at is None:
                for l in self.f.order:
                    if l not in self.reach: continue
                    for i in self.f.blocks[l].insts:
                        if i.op == 'store':
                            s = self.syn(i.a[1])
                            if s and s[0] is al and (off is None or s[1] in (None, off)): res |= self.val(i.a[0])
                        elif i.op == 'call' and (self.P.callee(i) or '').startswith(('llvm.memcpy', 'llvm.memmove')):
                            s = self.syn(i.a[1])
                            if s and s[0] is al:
                                for v in self.val(i.a[2]):
                                    if v[0] == 'p': res |= self.load(v[1], None if off is None or s[1] is None or v[2] is None else off - s[1] + v[2], i, ty, seen)
            else:
                for s in self.sources(at, al, off):
                    if s[2] not in self.reach: continue
                    if s[0] == 's': res |= self.val(s[1].a[0])
                    elif s[0] == 'z': res.add(('k', 0))
                    else:
                        for v in self.val(s[1].a[2]):
                            if v[0] == 'p': res |= self.load(v[1], None if s[3] is None or v[2] is None else v[2] + s[3], s[1], ty, seen)
        if node[0] in 'PG' and ty == 'ptr':
            if node[0] == 'G' and not node[2]:
                v = self.P.globals[node[1]]['init']
                if v and v[0] == 'g' and self.A.model(v[1]): res.add(('p', ('G', v[1], ()), v[2]))
            if node[0] == 'P' and node[1] in self.byval and not node[2] and ('b', node[1], off) in self.consts: res.add(('k', self.consts[('b', node[1], off)]))
            elif node[0] == 'P':
                nx = self.A.step(self.f.key, node, off)
                if nx is not None: res.add(('p', nx, 0))
        elif node[0] == 'P' and node[1] in self.byval and not node[2] and ('b', node[1], off) in self.consts: res.add(('k', self.consts[('b', node[1], off)]))
        elif node[0] != 'A': res.add(T)          # what was there before
        return res
    def elems(self, ptrs, what, at):
        """places (node, offset) written when a call writes through a pointer"""
        out = set()
        for v in ptrs:
            if v[0] != 'p': continue
            if what == 'b': out.add((v[1], v[2]))
            else:
                d = VD if what == 'v' else MD
                for x in self.load(v[1], None if v[2] is None else v[2] + d, at):
                    if x[0] == 'p': out.add((x[1], None))
        return out
    def write(self, node, off, kind, ins):
        if node[0] in 'PG':
            if node[0] == 'P' and not node[2] and node[1] in self.byval: return
            if node[0] == 'G' and not self.A.model(node[1]): return
            k = (node[1] if node[0] == 'P' else node[:2], node[2], '*' if off is None else off, kind)
            if k not in self.writes:
                self.writes.add(k); self.changed = True
                self.A.sites.setdefault((self.f.key, k), '%s:%s:%s' % (self.f.file, self.f.name, ins.line))
    # ---------------------------------------------------------------- instructions
    def run(self):
        n = 0
        while self.changed:
            self.changed = False; n += 1
            if n > 60: break
            for l in self.f.order:
                if l in self.reach:
                    for i in self.f.blocks[l].insts: self.inst(i, l)
    def go(self, l, s):
        if (l, s) not in self.edges: self.edges.add((l, s)); self.changed = True
        if s not in self.reach: self.reach.add(s); self.changed = True
    def inst(self, i, l):
        op = i.op
        if op == 'br':
            if len(i.x) == 1: self.go(l, i.x[0]); return
            v = self.val(i.a[0])
            if not v: return
            if v != {('k', 0)}: self.go(l, i.x[0])
            if v == {('k', 0)} or T in v or ('k', 0) in v or len(v) > 1: self.go(l, i.x[1])
            return
        if op == 'switch':
            v = self.val(i.a[0]); d, cases = i.x
            if not v: return
            if all(x != T and x[0] == 'k' for x in v):
                m = dict(cases)
                for x in v: self.go(l, m.get(x[1], d))
            else:
                self.go(l, d)
                for c, t in cases: self.go(l, t)
            return
        if op == 'store': self.store(i); return
        if op == 'ret':
            if i.a and i.ty == 'ptr':
                v = self.val(i.a[0])
                if not v <= self.rets: self.rets |= v; self.changed = True
            return
        if op == 'call': self.call(i); return
        if not i.res: return
        if op == 'alloca':
            self.A.allocas[(self.f.key, i.uid)] = i
            self.put(self.V, i.res, {('p', ('A', (self.f.key, i.uid), ()), 0)})
        elif op == 'load':
            r = set()
            for v in self.val(i.a[0]):
                if v == T or v[0] != 'p': continue
                r |= self.load(v[1], v[2], i, i.ty)
            if i.ty != 'ptr': r = {v for v in r if v == T or v[0] == 'k'}
            if self.A.given:
                g = self.D.get(i.a[0][1]) if i.a[0][0] == 'l' else None
                if g is not None and g.op == 'getelementptr' and g.x[1] and g.x[1][2] and (g.x[1][2], self.P.field(g.x[1][2], g.x[1][3])) in self.A.given: r = {('k', self.A.given[(g.x[1][2], self.P.field(g.x[1][2], g.x[1][3]))])}
            self.put(self.V, i.res, r or {T})
        elif op == 'getelementptr':
            gp = i.x[1]; r = set()
            for v in self.val(i.a[0]):
                if v == T: r.add(T); continue
                if v[0] != 'p': continue
                off = v[2]
                if gp is None: off = None
                elif off is not None:
                    off += gp[0]
                    for o, sz in gp[1]:
                        if sz > 8 and v[1][0] != 'A': continue
                        ks = self.val(o)
                        if off is not None and len(ks) == 1 and T not in ks: off += next(iter(ks))[1] * sz
                        else: off = None
                        if off is None: break
                if gp and gp[2]: self.A.ctype.setdefault((v[1][0] == 'P' and v[1][2], off), (gp[2], gp[3]))
                r.add(('p', v[1], off))
            self.put(self.V, i.res, r)
        elif op == 'phi':
            r = set()
            for v, p in i.x:
                if (p, l) in self.edges: r |= self.val(v)
            self.put(self.V, i.res, r)
        elif op == 'select':
            c = self.val(i.a[0]); r = set()
            if c != {('k', 0)}: r |= self.val(i.a[1])
            if c != {('k', 1)}: r |= self.val(i.a[2])
            self.put(self.V, i.res, r)
        elif op == 'icmp':
            a, b = self.val(i.a[0]), self.val(i.a[1])
            if not a or not b: return
            r = set()
            for x in a:
                for y in b:
                    if x != T and y != T and x[0] == y[0] == 'k' and i.x in ('eq', 'ne'): r.add(('k', int((x[1] == y[1]) == (i.x == 'eq'))))
                    elif x != T and y != T and {x[0], y[0]} == {'p', 'k'} and ('k', 0) in (x, y) and i.x in ('eq', 'ne') and self.there(x if x[0] == 'p' else y): r.add(('k', int(i.x == 'ne')))
                    else: r.add(T)
            self.put(self.V, i.res, {T} if T in r else r)
        elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            self.put(self.V, i.res, set(self.val(i.a[0])))
        elif op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = self.val(i.a[0]), self.val(i.a[1]); r = set()
            for x in a:
                for y in b:
                    z = {('k', 0)} if op == 'and' and ('k', 0) in (x, y) else {('k', 1)} if op == 'or' and ('k', 1) in (x, y) else None
                    if z is None: z = {('k', {'and': x[1] & y[1], 'or': x[1] | y[1], 'xor': (x[1] ^ y[1]) & 1}[op])} if T not in (x, y) and x[0] == y[0] == 'k' else {T}
                    r |= z
            self.put(self.V, i.res, r)
        elif op in ('atomicrmw', 'cmpxchg'):
            for v in self.val(i.a[0]):
                if v != T and v[0] == 'p': self.write(v[1], v[2], 'w', i)
            self.put(self.V, i.res, {T})
        else: self.put(self.V, i.res, {T})
    def same(self, o):
        """an address as written: what it is counted from, and how far"""
        off = 0
        while o[0] == 'l':
            d = self.D.get(o[1])
            if d is None or d.op != 'getelementptr' or d.x[1] is None or d.x[1][1]: break
            off += d.x[1][0]; o = d.a[0]
        return o[1] if o[0] == 'l' else None, off
    def aside(self, i):
        """a store that is undone, on every way out, by putting back what was read there before; or that puts it back"""
        r = self.asides.get(id(i))
        if r is not None: return r
        here = self.same(i.a[1]); r = False
        if here[0] is not None:
            def back(j):
                if j.op != 'store' or j is i or j.a[0][0] != 'l' or self.same(j.a[1]) != here: return False
                return kept(j.a[0])
            def kept(v, deep=0):
                d = self.D.get(v[1]) if v[0] == 'l' else None
                if d is None: return False
                if d.op == 'load': return d.uid < i.uid and self.same(d.a[0]) == here
                ins = [x for x in d.a if x != ('i', 0)] if d.op == 'phi' else [x for x in d.a[1:] if x != ('i', 0)] if d.op == 'select' else []
                return deep < 3 and bool(ins) and all(kept(x, deep + 1) for x in ins)       # NULL where there was nothing to keep
            def there(b):
                """where it goes on if the object written to exists, as it does"""
                t = self.f.blocks[b].insts[-1]; c = self.D.get(t.a[0][1]) if t.op == 'br' and len(self.f.blocks[b].succs) == 2 and t.a and t.a[0][0] == 'l' else None
                if c is not None and c.op == 'icmp' and c.x in ('eq', 'ne') and c.a[1] == ('i', 0) and c.a[0] == ('l', here[0]):
                    return self.f.blocks[b].succs[:1] if c.x == 'ne' else self.f.blocks[b].succs[1:]
                return self.f.blocks[b].succs
            l, n = self.pos[id(i)]; pend = [(l, n + 1)]; seen = set(); r = True; got = False
            while pend and r:
                l, n = pend.pop(); stop = False
                for j in self.f.blocks[l].insts[n:]:
                    if back(j): stop = got = True; break
                    if j.op == 'ret': r = False; stop = True; break
                if stop: continue
                for q in there(l):
                    if q not in seen: seen.add(q); pend.append((q, 0))
            r = r and got
            if not r and i.a[0][0] == 'l':           # the putting back itself
                r = kept(i.a[0]) and any(j.op == 'store' and j is not i and j.uid < i.uid and self.same(j.a[1]) == here
                                         for b in self.f.order for j in self.f.blocks[b].insts)
        self.asides[id(i)] = r
        return r
    def store(self, i):
        vs = self.val(i.a[0])
        if i.ty != 'ptr' and i.ty not in ('i8', 'i32', 'i64', 'i1', 'i16'): vs = {T}
        s = self.syn(i.a[1])
        for p in self.val(i.a[1]):
            if p == T or p[0] != 'p': continue
            node, off = p[1], p[2]
            if node[0] not in 'PG' or not self.aside(i): self.write(node, off, 'w', i)
            if node[0] == 'A' and s and s[0].uid == node[1][1] and node[1][0] == self.f.key: continue
            if node[0] == 'P' and len(vs) == 1:      # what was there put back
                v = next(iter(vs))
                if v != T and v[0] == 'p' and v[1] == self.A.step(self.f.key, node, off) and v[2] == 0 and off is not None: continue
            self.put(self.H, (node, '*' if off is None else off), vs)
    def link(self, d, s, delta, at):
        if d == s or d[0] == 'G' or s[0] == 'G': return
        e = self.links.setdefault(d, set())
        if (s, delta, at) not in e and len(e) < 40: e.add((s, delta, at)); self.changed = True
    def copy(self, i, dst, src):
        s0 = self.syn(i.a[1])
        for p in dst:
            if p == T or p[0] != 'p': continue
            self.write(p[1], p[2], 'w', i)
            if p[1][0] == 'A' and s0 and s0[0].uid == p[1][1][1]: continue
            for q in src:
                if q == T or q[0] != 'p': continue
                self.link(p[1], q[1], p[2] - q[2] if p[2] is not None and q[2] is not None else None, i if q[1][0] == 'A' else None)
    def call(self, i):
        c = self.P.callee(i)
        args = [self.val(a) for a in i.a[1:]]
        if c and c.startswith('llvm.'):
            if c.startswith(('llvm.memcpy', 'llvm.memmove')): self.copy(i, args[0], args[1])
            elif c.startswith('llvm.memset'):
                for p in args[0]:
                    if p != T and p[0] == 'p': self.write(p[1], p[2], 'w', i)
            elif i.res: self.put(self.V, i.res, set(args[0]) if c.startswith('llvm.threadlocal') else {T})
            return
        fs = [c] if c else sorted(v[1] for v in self.val(i.a[0]) if v != T and v[0] == 'f')
        if not c and not fs: self.method(i, args); return
        for n in fs:
            if n in self.P.fns: self.known(i, n, args)
            else: self.extern(i, n, args)
    def method(self, i, args):
        for v in self.val(i.a[0]): pass
        m = None
        if i.a[0][0] == 'l':
            d = self.D.get(i.a[0][1])
            if d is not None and d.op == 'load' and d.a[0][0] == 'l':
                g = self.D.get(d.a[0][1])
                if g is not None and g.op == 'getelementptr' and g.x[1] and g.x[1][2] == 'struct.apop_model': m = self.P.field('struct.apop_model', g.x[1][3])
        for n in METHODS.get(m, ()):
            for v in args[n] if n < len(args) else ():
                if v != T and v[0] == 'p': self.write(v[1], None, 'm', i)
        if i.res: self.put(self.V, i.res, {T})
    def extern(self, i, n, args):
        for p, what in EXTW.get(n, ()):
            if p < len(args):
                for node, off in self.elems(args[p], what, i): self.write(node, off, 'w', i)
        if n in ('asprintf', 'vasprintf') and args:
            for v in args[0]:
                if v != T and v[0] == 'p': self.put(self.H, (v[1], '*' if v[2] is None else v[2]), {('p', ('O', (self.f.key, i.uid), ()), 0)})
        if n in externs.FREE or n in ('realloc', 'reallocarray', 'regfree'):
            for v in args[0] if args else ():
                if v != T and v[0] == 'p': self.write(v[1], v[2], 'f', i)
        if n in VIEWS and i.ty == 'void':
            k = VIEWS[n]; src = set()
            for v in args[1]:
                if v == T or v[0] != 'p': continue
                if k[0] == 'b': src.add(('p', v[1], None))
                else:
                    for x in self.load(v[1], None if v[2] is None else v[2] + (VD if k[0] == 'v' else MD), i):
                        if x[0] == 'p': src.add(('p', x[1], None))
            for v in args[0]:
                if v != T and v[0] == 'p' and v[2] is not None: self.put(self.H, (v[1], v[2] + (MD if len(k) > 1 else VD)), src)
            return
        if n in ('gsl_deriv_central', 'sqlite3_exec', 'qsort', 'bsearch', 'lsearch'): self.callback(i, n, args)
        if not i.res: return
        if n in externs.ALLOC:
            o = ('O', (self.f.key, i.uid), ()); r = {('p', o, 0)}
            if n in ('realloc', 'reallocarray'):
                for v in args[0]:
                    if v != T and v[0] == 'p': self.link(o, v[1], 0 if v[2] == 0 else None, i if v[1][0] == 'A' else None)
            if n.startswith(('gsl_vector_', 'gsl_matrix_')):
                for off in (VD, VD + 8) if 'vector' in n else (MD, MD + 8): self.put(self.H, (o, off), {('p', ('O', (self.f.key, i.uid), (off,)), 0)})
            self.put(self.V, i.res, r)
        elif n in PTR:
            r = set()
            for v in args[0]:
                if v != T and v[0] == 'p':
                    for x in self.load(v[1], None if v[2] is None else v[2] + PTR[n], i):
                        if x != T and x[0] == 'p': r.add(('p', x[1], None))
            self.put(self.V, i.res, r or {T})
        elif n in INTO and INTO[n] < len(args): self.put(self.V, i.res, {('p', v[1], None) if v != T and v[0] == 'p' else T for v in args[INTO[n]]} or {T})
        else: self.put(self.V, i.res, {T})
    def single(self, node):
        """a pointer to one of its members is a pointer to that one, not to a row of them"""
        if node[0] == 'A':
            x = self.A.allocas[node[1]].x
            return not self.A.allocas[node[1]].a and not (isinstance(x, tuple) and x[0] == 'arr')
        return node[0] == 'P' and str(self.A.type(self.f.key, node[1], node[2])).startswith('struct')
    def callback(self, i, n, args):
        if n == 'sqlite3_exec': fn, a = args[2], [args[3], {T}, {T}, {T}]
        elif n == 'gsl_deriv_central':
            fn, d = set(), set()
            for v in args[0]:
                if v != T and v[0] == 'p' and v[2] is not None: fn |= self.load(v[1], v[2], i); d |= self.load(v[1], v[2] + 8, i)
            a = [{T}, d]
        else: return
        for v in fn:
            if v != T and v[0] == 'f' and v[1] in self.P.fns: self.known(i, v[1], a, True)
    # ---------------------------------------------------------------- callees
    def known(self, i, n, args, cb=False):
        g = self.P.fns[n]; consts = {}
        for k, (ty, nm, d) in enumerate(g.params):
            if k >= len(args): break
            if 'byval' in d:
                for v in args[k]:
                    if v != T and v[0] == 'p' and v[2] is not None:
                        for off in self.A.chars(n):
                            x = self.load(v[1], v[2] + off, i, 'i8')
                            if len(x) == 1 and T not in x and choice(next(iter(x)), True): consts[('b', k, off)] = next(iter(x))[1]
            elif ty in ('i8', 'i32') and len(args[k]) == 1 and T not in args[k] and choice(next(iter(args[k])), ty == 'i8'): consts[('a', k)] = next(iter(args[k]))[1]
            elif ty == 'ptr' and i.a[1 + k][0] == 'l' and self.given.get(i.a[1 + k][1]): consts[('a', k)] = self.given[i.a[1 + k][1]]
        sm = self.A.contract(n) or self.A.summary(n, consts)
        memo = {}
        def place(node):
            """(node, offset) pairs of ours that the callee's node stands for"""
            if node in memo: return memo[node]
            if node[0] == 'G': return {(node, 0)} if self.A.model(node[1]) else set()
            if node[0] == 'R': return {(('O', (self.f.key, i.uid) + ((n,) if cb else ()), (node[1],) + node[2]), 0)}
            memo[node] = set()
            if not node[2]:
                r = {(v[1], v[2]) for v in (args[node[1]] if node[1] < len(args) else ()) if v != T and v[0] == 'p'}
            else:
                r = set()
                for a, o in place((node[0], node[1], node[2][:-1])):
                    s = node[2][-1]
                    for v in self.load(a, o if s == '*' and self.single(a) else None if o is None or s == '*' else o + s, i):
                        if v != T and v[0] == 'p': r.add((v[1], v[2]))
                # a callee's path may stand for a longer chain of the same field
                for a, o in list(r):
                    if a[0] == 'P' or node[2][-1] == '*': continue
                    pend = [(a, o)]; 
                    for _ in range(3):
                        nx = []
                        for b, q in pend:
                            if q is None: continue
                            for v in self.load(b, q + node[2][-1], i):
                                if v != T and v[0] == 'p' and (v[1], v[2]) not in r and self.A.linked(node[2][-1], n): r.add((v[1], v[2])); nx.append((v[1], v[2]))
                        pend = nx
            memo[node] = r
            return r
        def tr(v):
            if v == T or v[0] in 'kf': return {v}
            return {('p', a, None if o is None or v[2] is None else o + v[2]) for a, o in place(v[1])}
        for (pn, path, off, kind) in sorted(sm.writes, key=repr):
            for a, o in place(('P', pn, path)) if not isinstance(pn, tuple) else {(pn + (path,), 0)}: self.write(a, None if o is None or off == '*' else o + off, kind, i)
        for (node, key), vs in list(sm.heap.items()):
            if node[0] == 'P' and node[1] in {k for k, p in enumerate(g.params) if 'byval' in p[2]} and not node[2]: continue
            t = set()
            for v in vs: t |= tr(v)
            if not t: continue
            for a, o in place(node): self.put(self.H, (a, '*' if o is None or key == '*' else o + key), t)
        for node, ls in list(sm.links.items()):
            for a, o in place(node):
                for s, d in ls:
                    for b, q in place(s): self.link(a, b, None if d is None or o is None or q is None else d + o - q, i if b[0] == 'A' else None)
        if i.res and not cb:
            r = set()
            for v in sm.rets: r |= tr(v)
            self.put(self.V, i.res, (r or {T}) if i.ty == 'ptr' else {T})
    # ---------------------------------------------------------------- summary
    def summary(self):
        s = Sum(); s.writes = {w for w in self.writes if not (w[0] in self.sret and not w[1])}
        names = {}; pend = []
        def name(v, tag, path):
            if v == T or v[0] in 'kf': return v
            n = v[1]
            if n[0] in 'PG': return v
            if len(path) > 2: path = path[:2] + ('*',)
            if n not in names:
                names[n] = ('R', tag, path); pend.append(n)
            return ('p', names[n], v[2])
        for v in self.rets: s.rets.add(name(v, 'ret', ()))
        byn = {}
        for (n, o), vs in self.H.items(): byn.setdefault(n, []).append((o, vs))
        pn = [n for n in set(byn) | set(self.links) if n[0] in 'PG']
        todo = [(n, n) for n in pn]
        done = set()
        while todo or pend:
            if todo: n, nm = todo.pop()
            else: n = pend.pop(); nm = names[n]
            if n in done: continue
            done.add(n)
            cells = list(byn.get(n, ()))
            if n[0] == 'A':
                al = self.A.allocas[n[1]]; offs = set()
                for l in self.f.order:
                    if l not in self.reach: continue
                    for i in self.f.blocks[l].insts:
                        if i.op == 'store':
                            q = self.syn(i.a[1])
                            if q and q[0] is al: cells.append(('*' if q[1] is None else q[1], self.val(i.a[0])))
            for o, vs in cells:
                t = nm[1] if nm[0] == 'R' else (nm[0], nm[1]) + nm[2]
                p = (nm[2] if nm[0] == 'R' else ()) + (o,)
                if len(p) > LIM: p = p[:LIM]
                out = {name(v, t, p) for v in vs if v != T and (v[0] in 'pf' or n in self.links and v == ('k', 0))}
                if out: s.heap.setdefault((nm, o), set()).update(out)
            for src, d, w in self.links.get(n, ()):
                x = name(('p', src, 0), nm[1] if nm[0] == 'R' else (nm[0], nm[1]) + nm[2], (nm[2] if nm[0] == 'R' else ()) + ('c',))
                s.links.setdefault(nm, set()).add((x[1], d))
        return s

class Flow:
    def __init__(self, P):
        self.P = P; self.sums = {}; self.allocas = {}; self.sites = {}; self.ctype = {}; self.stack = set(); self.again = False; self._chars = {}; self.depth = 0; self.round = 0; self.fresh = set(); self.big = set(); self.contracts = {}; self.given = {}; self.types = {}; self.sizes = {}
    def linked(self, off, n): return True
    def type(self, key, n, path):
        """what the memory reached is declared as (None: not known; BAD: nothing is reached that way)"""
        k = (key, n, path)
        if k in self.types: return self.types[k]
        if not path: t = self.P.argtype(key, n)[0]
        else: t = self.member(self.type(key, n, path[:-1]), path[-1])
        if t == '?': t = None
        self.types[k] = t
        return t
    def member(self, ty, off):
        if ty is None: return None
        if ty == BAD: return BAD
        if ty[0] == '*': return ty[1:] if ty[1:] != '?' else None
        if ty.startswith('struct.'):
            m = self.P.pointees.get(ty)
            if not m: return None
            if not isinstance(off, int): return BAD
            e = m.get(off)
            return BAD if e is None or e[1] is None or e[0] == 'fn' else e[0]
        return BAD
    def size(self, ty):
        z = self.sizes.get(ty)
        if z is None:
            z = 0
            for m in self.P.mods:
                if ty in m.structs: z = ir.layout(m, ('named', ty))[0]; break
            self.sizes[ty] = z
        return z
    def step(self, key, node, off):
        """the memory that the pointer at this offset of node leads to"""
        path = node[2]; t = self.type(key, node[1], path)
        if t is None or t[0] == '*': s = '*'
        else:
            s = '*' if off is None else off
            if isinstance(s, int) and t.startswith('struct.') and self.size(t) and s >= self.size(t): s %= self.size(t)
        if t is None and path and path[-1] == '*': return node
        if path and path[-1] == s and s != '*': return node
        p = path + (s,); nt = self.type(key, node[1], p)
        if nt == BAD: return None
        if nt and nt.startswith('struct.'):           # the same struct again further along: one and the same
            for j in range(1, len(path) + 1):
                if path[:j] and self.type(key, node[1], path[:j]) == nt and path[j - 1] == s: return (node[0], node[1], path[:j])
        if len(p) > LIM: return node
        return (node[0], node[1], p)
    def sub(self, st, off):
        """(name of the member at off in struct st, what it points to)"""
        fl = self.P.fields.get(st)
        if not fl or not isinstance(off, int): return None, None
        o = max([x for x in fl if x <= off] or [0])
        return fl.get(o), (self.P.pointees.get(st, {}).get(o) or (None, None))[0] if o == off else None
    def describe(self, n, param, path, off=None):
        """in words: parameter, members on the way, member"""
        if param == 'r': ty = self.P.argtype(n, -1)[0]; t = 'result'
        elif isinstance(param, tuple):
            ty = 'struct.apop_model'; t = "the library's own model " + self.named(param[1])
        else: f = self.P.fns[n]; ty = self.P.argtype(n, param)[0]; t = f.params[param][1]
        for s in path:
            nm, nx = self.sub(ty, s)
            t += '' if s == 'c' else '[]' if s == '*' else '.' + str(nm or s)
            ty = ty if s == 'c' else nx if s != '*' else (None if ty == '*' else ty)
        if off is not None:
            nm, nx = self.sub(ty, off)
            t += '[]' if off == '*' else '.' + nm if nm else '[]'
        return t, ty
    def shares(self, n, s):
        """what the result ('r'), or one argument, has a pointer to in another: (place, path to it, other, path to that)"""
        out = set()
        def root(nd):
            if nd[0] in 'PG': return nd[:2][1 if nd[0] == 'P' else 0], nd[2]
            if nd[1] == 'ret': return 'r', nd[2]
            if isinstance(nd[1], tuple) and nd[1][0] == 'P': return nd[1][1], nd[1][2:] + nd[2]
            return None, ()
        def add(nd, off, v):
            if v == T or v[0] != 'p' or v[1][0] not in 'PG' or v[1][0] == 'G' and not self.model(v[1][1]): return
            a, p = root(nd) if nd != 'r' else ('r', ())
            b = v[1][1] if v[1][0] == 'P' else v[1][:2]
            if a == b or a is None or a == 'G': return
            out.add((a, p + ((off,) if nd != 'r' else ()), b, v[1][2] + ((v[2],) if v[2] else ())))
        for v in s.rets: add('r', None, v)
        for (nd, off), vs in s.heap.items():
            for v in vs: add(nd, off, v)
        for nd, ls in s.links.items():
            for src, d in ls:
                if src[0] != 'P': continue
                t = self.type(n, src[1], src[2]); offs = []
                if t is None or t == BAD: continue
                if t[0] == '*': offs = ['*']
                else: offs = [o for o, e in (self.P.pointees.get(t) or {}).items() if e and e[1] is not None and e[0] != 'fn']
                for o in offs:
                    x = '*' if o == '*' or d is None else o + d
                    if not any(k[0] == nd and (k[1] == x or x == '*') for k in s.heap): add(nd, x, ('p', (src[0], src[1], src[2] + (o,)), 0))
        return out
    def named(self, g):
        """the variable that points to a model"""
        for k, v in sorted(self.P.globals.items()):
            if v['init'] and v['init'][:2] == ('g', g): return v['name']
        return self.P.globals[g]['name']
    def chars(self, n):
        """byte-sized members of the argument struct of a front"""
        c = self._chars.get(n)
        if c is None:
            c = set()
            st = 'struct.variadic_type_' + n.replace('variadic_', '', 1)
            m = self.P.modof[self.P.fns[n].unit]
            if st in m.structs:
                for k, t in enumerate(m.structs[st][1]):
                    if t in ('i8', 'i32'): c.add(ir.field_offset(m, ('st',) + m.structs[st], k)[0])
            self._chars[n] = c
        return c
    def model(self, n):
        """is it one of the library's own models"""
        g = self.P.globals.get(n)
        return bool(g) and g.get('type') == ('named', 'struct.apop_model')
    def contract(self, n):
        if n not in CONTRACT: return None
        s = self.contracts.get(n)
        if s is None:
            ws, r = CONTRACT[n]; s = Sum(); new = ('R', 'ret', ())
            for w in ws: s.writes.add((w, (), '*', 'm'))
            if r is not None and r != 'in': s.rets.add(('p', new, 0))
            if r == 1:
                s.links[new] = {(('P', 1, ()), 0)}; s.heap[(new, self.offset('struct.apop_model', 'data'))] = {('p', ('P', 0, ()), 0)}
            if r == 'out': s.rets.add(('p', ('P', 2, ()), 0))
            if r == 'in': s.rets.add(('p', ('P', 0, ()), 0))
            self.contracts[n] = s
        return s
    def offset(self, st, m): return [o for o, x in self.P.fields[st].items() if x == m][0]
    def summary(self, n, consts):
        f = self.P.fns[n]; k = (n, tuple(sorted(consts.items())))
        if k in self.fresh or k in self.stack: 
            if k in self.stack: self.rec.add(k)
            return self.sums.get(k) or Sum()
        if len(self.stack) > 60 or n in self.big: return self.sums.get(k) or Sum()
        self.stack.add(k)
        a = self.analyse(n, consts)
        s = a.summary(); self.stack.discard(k); self.fresh.add(k)
        if k not in self.sums or self.sums[k].key() != s.key(): self.again = True
        self.sums[k] = s
        return s
    def analyse(self, n, consts):
        a = Fun(self, self.P.fns[n], consts); a.run(); return a
    def get(self, n, consts={}):
        """summary at the fixed point of recursion"""
        for r in range(4):
            self.again = False; self.rec = set()
            s = self.summary(n, dict(consts))
            if not self.rec: break
            self.fresh -= {k for k in self.fresh if self.again}
            if not self.again: break
        return s
