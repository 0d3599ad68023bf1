"""A disjunctive (path-sensitive) abstract interpreter over the IR: each block holds a set of abstract states; a state is
an SSA environment, an abstract store (base, offset) -> value, interval/nullness facts on opaque symbols and a client's
typestate.  Branch conditions refine facts; states that agree are merged, loops are widened, and a cap per block joins
states.  No solver and no execution: only a finite lattice and a worklist.

Values:  ('i',n)  ('f',text)  ('s',symbol)  ('p',base,off)  ('np',off) null+offset   ('c',pred,a,b) comparison  ('u',) undef
Bases:   ('A',ctx,fn,uid) alloca  ('B',...) by-value aggregate  ('G',key) global  ('F',key) function  ('S',symbol) what a symbol points to
"""
import collections

INF = float('inf')
ZERO = ('i', 0)
ABSENT = ('s', ('absent',))         # a null pointer that can be told from others
UNDEF = ('u',)

class Budget(Exception):
    pass

_symcache = {}
def symset(t):
    """symbols mentioned in a term"""
    r = _symcache.get(t)
    if r is None:
        acc = set()
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple) and x:
                if x[0] == 's' and len(x) == 2:
                    acc.add(x[1])
                if x[0] == 'S' and len(x) == 2:
                    acc.add(x[1])
                for y in x[1:]:
                    if isinstance(y, tuple): st.append(y)
        r = _symcache[t] = frozenset(acc)
    return r

_refcache = {}
def refs(t):
    """memory bases mentioned in a term: ('S',symbol), ('A',...), ('B',...)"""
    r = _refcache.get(t)
    if r is None:
        acc = set(); st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple) and x:
                if x[0] in ('s', 'S') and len(x) == 2: acc.add(('S', x[1]))
                elif x[0] in ('A', 'B') and len(x) >= 4: acc.add(x); continue
                for y in x[1:]:
                    if isinstance(y, tuple): st.append(y)
        r = _refcache[t] = frozenset(acc)
    return r

_depthcache = {}
def depth(t):
    if not isinstance(t, tuple): return 0
    r = _depthcache.get(t)
    if r is None:
        r = _depthcache[t] = 1 + max([depth(x) for x in t[1:] if isinstance(x, tuple)] or [0])
    return r

def subst(t, old, new):
    if old not in symset(t): return t
    return _subst(t, old, new)
def _subst(t, old, new):
    if not isinstance(t, tuple): return t
    if len(t) == 2 and t[0] in ('s', 'S') and t[1] == old: return (t[0], new)
    return tuple(_subst(x, old, new) if isinstance(x, tuple) else x for x in t)

class State:
    __slots__ = ('env', 'mem', 'facts', 'cl', 'seen', 'iters', 'trace', 'outer')
    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = {}; self.cl = {}; self.seen = set(); self.iters = (); self.trace = ()
        self.outer = ()
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.facts = dict(self.facts); s.cl = dict(self.cl); s.seen = set(self.seen)
        s.iters = self.iters; s.trace = self.trace; s.outer = self.outer
        return s
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.cl.items()),
                self.iters)

ANY = (-INF, INF, frozenset())

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sge': 'sle', 'sle': 'sge', 'ult': 'ugt', 'ugt': 'ult', 'uge': 'ule', 'ule': 'uge'}
FNEG = {'oeq': 'une', 'une': 'oeq', 'one': 'ueq', 'ueq': 'one', 'ogt': 'ule', 'ule': 'ogt', 'oge': 'ult', 'ult': 'oge', 'olt': 'uge',
        'uge': 'olt', 'ole': 'ugt', 'ugt': 'ole', 'ord': 'uno', 'uno': 'ord'}

class Client:
    """override what is needed"""
    inline_depth = 3
    max_states = 24
    budget = 400000
    unroll = 1
    max_inst = 4000
    keep_trace = False
    nullable_alloc = False
    opts = {}             # offsets in apop_opts that are taken to be constant (verbosity, stop-on-warning)
    drop_fact = None
    def want_inline(self, eng, fn, args, depth): return True
    def on_call(self, eng, st, ins, name, args, ctx): return None     # -> list of (state, value) to replace the default
    def after_call(self, eng, st, ins, name, args, val): pass
    def on_deref(self, eng, st, ins, av, what): return True            # False: the path ends here
    def on_store(self, eng, st, ins, base, off, val): pass
    def on_copy(self, eng, st, ins, dst, src, n): pass
    def on_branch(self, eng, st, ins, cond, taken): return True
    def on_return(self, eng, st, fn, val, depth): pass
    def join_key(self, st): return tuple(sorted(st.cl.items(), key=repr))
    def null_call(self, eng, st, ins, av): return False
    def rename(self, st, old, new): pass
    def forget(self, eng, st, cell, val): pass                        # a callee may have overwritten the cell

def _fieldfacts(st):
    """symbol -> {(offset, epochs): fact} for facts on cells loaded through it"""
    r = {}
    for k, f in st.facts.items():
        if k[0] == 's' and isinstance(k[1], tuple) and k[1] and k[1][0] == 'ld' and k[1][1][0] == 'S': r.setdefault(k[1][1][1], {})[k[1][2:]] = f
    return r

class Engine:
    def __init__(self, prog, client, modsets=None):
        self.P = prog; self.cl = client; self.steps = 0; self.stack = []; self.ctxs = {}; self.reports = []
        self.info = {}
        self.mods = modsets
        self.inlined = set(); self.opaque = set()

    # ------------------------------------------------------------------ values
    def resolve(self, st, v):
        """replace a symbol known to be one constant by it"""
        if v[0] == 's':
            f = st.facts.get(v)
            if f is not None and f[0] == f[1] and v != ABSENT:
                return ('i', f[0])
        return v

    def rng(self, st, v):
        k = v[0]
        if k == 'i': return (v[1], v[1], frozenset())
        if k == 's': 
            f = st.facts.get(v)
            if f is not None: return f
            return self.static_range(v)
        if k == 'p':
            b = v[1]
            if b[0] == 'S':
                f = st.facts.get(('s', b[1]))
                if f is not None and f[0] == f[1] == 0: return ANY
            return (-INF, INF, frozenset((0,)))
        if k == 'c': return (0, 1, frozenset())
        return ANY

    def static_range(self, v):
        s = v[1]
        if isinstance(s, tuple) and s and s[0] == 'b' and s[1] == 'and' and s[3][0] == 'i' and s[3][1] >= 0:
            return (0, s[3][1], frozenset())
        return ANY

    def isnull(self, st, v):
        """True / False / None"""
        if v[0] == 'np': return True
        if v[0] == 'c' and len(v) == 4 and v[1] in NEG:
            r = self.compare(st, v[1], v[2], v[3])
            return None if r is None else not r
        if v[0] == 'p' and v[1][0] == 'S':
            f = st.facts.get(('s', v[1][1]))
            if f is not None and f[0] == f[1] == 0: return True
            return False
        lo, hi, ne = self.rng(st, v)
        if lo == hi == 0: return True
        if lo > 0 or hi < 0 or 0 in ne: return False
        return None

    def compare(self, st, pred, a, b):
        """-> True/False/None"""
        a = self.resolve(st, a); b = self.resolve(st, b)
        if a == b and a[0] in ('i', 's', 'p', 'c', 'np'):
            return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if pred[0] == 'u':
                x &= (1 << 64) - 1; y &= (1 << 64) - 1
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y, 'ult': x < y, 'ugt': x > y,
                    'ule': x <= y, 'uge': x >= y}[pred]
        if a[0] == 'c' and b[0] == 'i':
            pass
        if pred in ('eq', 'ne') and a[0] == 'p' and b[0] == 'p':
            if a[1] != b[1] and a[1][0] in 'ABGF' and b[1][0] in 'ABGF': return pred == 'ne'
            if a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int): return (a[2] == b[2]) == (pred == 'eq')
        la, ha, na = self.rng(st, a); lb, hb, nb = self.rng(st, b)
        if pred in ('eq', 'ne'):
            r = None
            if ha < lb or hb < la: r = False
            elif b[0] == 'i' and b[1] in na: r = False
            elif a[0] == 'i' and a[1] in nb: r = False
            elif a[0] == 'p' and b[0] == 's' and self._fresh(b, a): r = False
            elif b[0] == 'p' and a[0] == 's' and self._fresh(a, b): r = False
            elif a[0] == 's' and b[0] == 's' and self._fresh2(st, a, b): r = False
            if r is None:
                t = st.facts.get(self.ckey('eq', a, b))
                r = t
            if r is None: return None
            return r if pred == 'eq' else not r
        p = pred[1:]
        if pred[0] == 'u':
            # unsigned: only when both are known non-negative, plus comparisons with 0
            if b == ZERO:
                if p == 'lt': return False
                if p == 'ge': return True
                z = self.isnull(st, a)
                if z is not None: return {'gt': not z, 'le': z}[p]
            if a == ZERO:
                if p == 'gt': return False
                if p == 'le': return True
                z = self.isnull(st, b)
                if z is not None: return {'lt': not z, 'ge': z}[p]
            if b == ('i', 1) and p in ('lt', 'ge'):
                z = self.isnull(st, a)
                if z is not None: return {'lt': z, 'ge': not z}[p]
            if la < 0 or lb < 0:
                return self._cfact(st, pred, a, b)
        if p == 'lt':
            if ha < lb: return True
            if la >= hb: return False
        elif p == 'le':
            if ha <= lb: return True
            if la > hb: return False
        elif p == 'gt':
            if la > hb: return True
            if ha <= lb: return False
        elif p == 'ge':
            if la >= hb: return True
            if ha < lb: return False
        return self._cfact(st, pred, a, b)

    def _fresh(self, s, p):
        # a fresh heap object differs from any stack/global address
        return isinstance(s[1], tuple) and s[1] and s[1][0] == 'h' and p[1][0] in 'ABGF'
    def _newly(self, st, v, o):
        # the result of a function that only ever returns NULL or something made during the call
        if v[1][0] != 'ret' or not v[1][1]: return False
        from . import mods
        return v[1][1] in mods.fresh_fns(self.P) and (self.isnull(st, v) is False or self.isnull(st, o) is False)
    def _fresh2(self, st, a, b):
        ha = isinstance(a[1], tuple) and a[1] and (a[1][0] == 'h' or self._newly(st, a, b))
        hb = isinstance(b[1], tuple) and b[1] and (b[1][0] == 'h' or self._newly(st, b, a))
        if ha and hb: return a != b
        # a fresh object differs from what was there at entry
        if ha and b[1][0] in ('par', 'ld'): return self._from_entry(b[1])
        if hb and a[1][0] in ('par', 'ld'): return self._from_entry(a[1])
        return False
    def _from_entry(self, s):
        while True:
            if s[0] == 'par': return True
            if s[0] == 'ld' and len(s) == 3:
                b = s[1]
                if b[0] == 'S':
                    s = b[1]; continue
                return b[0] == 'G' or b[0] == 'B'
            return False

    def ckey(self, pred, a, b):
        if repr(a) > repr(b): a, b = b, a
        return ('c', pred, a, b)

    def _cfact(self, st, pred, a, b):
        for p, x, y in ((pred, a, b), (SWAP[pred], b, a)):
            t = st.facts.get(('c', p, x, y))
            if t is not None: return t
            t = st.facts.get(('c', NEG[p], x, y))
            if t is not None: return not t
        if pred[1:] in ('lt', 'gt'):
            e = st.facts.get(self.ckey('eq', a, b))
            if e is True: return False
        if pred[1:] in ('le', 'ge'):
            e = st.facts.get(self.ckey('eq', a, b))
            if e is True: return True
        return None

    def truth(self, st, c):
        """truth of an i1 (or integer) value"""
        c = self.resolve(st, c)
        if c[0] == 'i': return c[1] != 0
        if c[0] == 'c':
            if c[1][0] == 'f':
                return self.fcompare(st, c)
            return self.compare(st, c[1], c[2], c[3])
        if c[0] in ('p', 'np', 's'):
            z = self.isnull(st, c)
            return None if z is None else not z
        return None

    def fcompare(self, st, c):
        t = st.facts.get(c)
        if t is not None: return t
        n = ('c', 'f' + FNEG[c[1][1:]], c[2], c[3]) if c[1][1:] in FNEG else None
        if n is not None:
            t = st.facts.get(n)
            if t is not None: return not t
        a, b = c[2], c[3]
        if a[0] == 'f' and b[0] == 'f':
            try:
                x, y = float(a[1]), float(b[1])
            except ValueError:
                return None
            un = x != x or y != y
            p = c[1][1:]
            if p == 'ord': return not un
            if p == 'uno': return un
            if p in ('true', 'false'): return p == 'true'
            base = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p[1:]]
            if un: return p[0] == 'u'
            return base
        return None

    def assume(self, st, c, val):
        """refine st with (c is val); False when contradictory"""
        c = self.resolve(st, c)
        t = self.truth(st, c)
        if t is not None:
            return t == val
        if c[0] == 'c':
            pred, a, b = c[1], c[2], c[3]
            if pred[0] == 'f' and pred not in NEG:
                st.facts[c] = val
                return True
            if not val: pred = NEG[pred]
            a = self.resolve(st, a); b = self.resolve(st, b)
            return self._assume(st, pred, a, b)
        if c[0] == 's':
            return self._assume(st, 'ne' if val else 'eq', c, ZERO)
        return True

    def _assume(self, st, pred, a, b):
        if a[0] == 'i' and b[0] != 'i':
            a, b = b, a; pred = SWAP[pred]
        if b[0] == 'i' and a[0] in ('s',):
            n = b[1]
            lo, hi, ne = self.rng(st, a)
            if pred == 'eq': lo = hi = n; ne = frozenset()
            elif pred == 'ne': ne = ne | {n} if len(ne) < 12 else ne
            elif pred == 'slt': hi = min(hi, n - 1)
            elif pred == 'sle': hi = min(hi, n)
            elif pred == 'sgt': lo = max(lo, n + 1)
            elif pred == 'sge': lo = max(lo, n)
            elif pred == 'ugt':
                if n == 0: ne = ne | {0}
                elif lo >= 0: lo = max(lo, n + 1)
                else: ne = ne | {0}
            elif pred == 'uge':
                if n == 1: ne = ne | {0}
                elif n > 0:
                    ne = ne | {0}
                    if lo >= 0: lo = max(lo, n)
            elif pred == 'ult':
                if n == 1: lo = hi = 0; ne = frozenset()
                elif n > 0: lo = max(lo, 0); hi = min(hi, n - 1)
            elif pred == 'ule':
                if n == 0: lo = hi = 0; ne = frozenset()
                elif n > 0: lo = max(lo, 0); hi = min(hi, n)
            while lo in ne: lo += 1
            while hi in ne: hi -= 1
            if lo > hi: return False
            st.facts[a] = (lo, hi, frozenset(x for x in ne if lo < x < hi))
            if lo == hi: self._propagate(st, a)
            return True
        if a[0] == 'c' and b[0] == 'i':
            return True
        if pred in ('eq', 'ne'):
            st.facts[self.ckey('eq', a, b)] = (pred == 'eq')
            if pred == 'eq':
                za, zb = self.isnull(st, a), self.isnull(st, b)
                if za is False and zb is None and b[0] == 's': self._assume(st, 'ne', b, ZERO)
                if zb is False and za is None and a[0] == 's': self._assume(st, 'ne', a, ZERO)
        else:
            st.facts[('c', pred, a, b)] = True
            if pred in ('ult',) and b[0] == 's': self._assume(st, 'ne', b, ZERO)
            if pred in ('ugt',) and a[0] == 's': self._assume(st, 'ne', a, ZERO)
            if pred in ('slt', 'sle') and b[0] == 's' and a[0] == 's':
                lo = self.rng(st, a)[0]
                if lo > -INF: self._assume(st, 'sge', b, ('i', lo + (pred == 'slt')))
            if pred in ('sgt', 'sge') and b[0] == 's' and a[0] == 's':
                lo = self.rng(st, b)[0]
                if lo > -INF: self._assume(st, 'sge', a, ('i', lo + (pred == 'sgt')))
        return True

    def _propagate(self, st, a):
        """a became constant: x op c terms built on it stay symbolic; equalities carry over"""
        val = ('i', st.facts[a][0])
        for k, t in list(st.facts.items()):
            if t is True and k[0] == 'c' and k[1] == 'eq':
                if k[2] == a and k[3][0] == 's' and k[3] not in (a,):
                    f = st.facts.get(k[3])
                    if f is None or f[0] != f[1]: st.facts[k[3]] = st.facts[a]
                elif k[3] == a and k[2][0] == 's':
                    f = st.facts.get(k[2])
                    if f is None or f[0] != f[1]: st.facts[k[2]] = st.facts[a]

    # ------------------------------------------------------------------ symbols
    def fresh(self, st, sid):
        """(re)define symbol sid: forget what was known of an earlier instance"""
        if sid in st.seen:
            self.rebind(st, sid)
        st.seen.add(sid)
        return ('s', sid)

    def rebind(self, st, sid):
        old = ('o', sid) if not (sid and sid[0] == 'o') else sid
        used = False
        for d in (st.env,):
            for k, v in d.items():
                if sid in symset(v):
                    d[k] = subst(v, sid, old); used = True
        e = st.mem.get(('X', 'esc'))
        if e and ('S', sid) in e: st.mem[('X', 'esc')] = tuple(sorted(set(('S', old) if x == ('S', sid) else x for x in e), key=repr))
        for (b, o), v in list(st.mem.items()):
            if b[0] == 'X' and o == 'esc': continue
            hit = sid in symset(b) or (isinstance(o, tuple) and sid in symset(o))
            if hit or sid in symset(v):
                del st.mem[(b, o)]
                nb, no, nv = subst(b, sid, old), (subst(o, sid, old) if isinstance(o, tuple) else o), subst(v, sid, old)
                st.mem.setdefault((nb, no), nv); used = True
        for k in [k for k in st.facts if sid in symset(k)]:
            f = st.facts.pop(k)
            nk = subst(k, sid, old)
            if nk in st.facts or old in st.seen:
                st.facts.pop(nk, None)
            else:
                st.facts[nk] = f
        st.outer = tuple(subst(v, sid, old) for v in st.outer)
        st.seen.add(old)
        self.cl.rename(st, sid, old)

    # ------------------------------------------------------------------ memory
    def base_of(self, v):
        """(base, off) of a pointer value or None"""
        if v[0] == 's': return ('S', v[1]), 0
        if v[0] == 'p': return v[1], v[2]
        return None

    def ptr(self, base, off):
        if base[0] == 'S' and off == 0: return ('s', base[1])
        return ('p', base, off)

    def addoff(self, st, v, c, var):
        """pointer + constant c + variable parts [(av,size)]"""
        vs = []
        for av, sz in var:
            av = self.resolve(st, av)
            if av[0] == 'i': c += av[1] * sz
            else: vs.append((av, sz))
        if v[0] == 'i':
            if v[1] == 0:
                if vs: return ('np', None)
                return ('np', c) if c else ZERO
            return UNDEF if vs else ('i', v[1] + c)
        if v[0] == 'np':
            return ('np', None)
        b = self.base_of(v)
        if b is None: return UNDEF
        base, off = b
        if not vs:
            if c == 0: return v
            if off is None: return ('p', base, None)
            if isinstance(off, int): return self.ptr(base, off + c)
            return ('p', base, ('v', off[1], off[2], off[3] + c))
        if len(vs) > 1 or not isinstance(off, int) or depth(vs[0][0]) > 6: return ('p', base, None)
        return ('p', base, ('v', vs[0][0], vs[0][1], off + c))

    def load(self, st, base, off, uid, ty='ptr', hops=0):
        if off is None or hops > 12:
            return self.fresh(st, ('v',) + uid)
        k = (base, off)
        v = st.mem.get(k)
        if v is not None: return v
        z = st.mem.get((base, 'Z'))
        c = st.mem.get((base, 'C'))
        if z is not None or c is not None:
            if not self.private(st, base):
                # a callee that ran after the block was filled may have changed this cell
                before = st.mem.get((base, 'M'), ())
                ct = self.ctype.get((base, off)) if isinstance(off, int) else None
                for ev, names in st.mem.get(('X', 'ev'), ()):
                    if ev not in before and self._writes(names, ct, off, base): z = c = None; break
        if z is not None and (isinstance(off, tuple) or z[0] <= off < z[1]):
            return ZERO if ty not in ('double', 'float', 'x86_fp80') else ('f', '0.0')
        if c is not None and isinstance(off, int) and c[3] <= off < c[4]:
            return self.load(st, c[1], off - c[2] if isinstance(c[2], int) else None, uid, ty, hops + 1)
        if base[0] == 'G':
            g = self.P.globals.get(base[1])
            if g is not None and g['const'] and isinstance(off, int):
                iv = self.ginit(g, off)
                if iv is not None: return iv
        ep = []
        e = st.mem.get((base, 'E'))
        if e is not None: ep.append(e)
        if not self.private(st, base):
            ct = self.ctype.get((base, off)) if isinstance(off, int) else None
            for ev, names in st.mem.get(('X', 'ev'), ()):
                if self._writes(names, ct, off, base): ep.append(ev)
        kind = 'un' if base[0] == 'A' or (base[0] == 'S' and base[1] and base[1][0] == 'h') else 'ld'
        sid = (kind, base, off) + tuple(ep)
        if depth(sid) > 28:
            return self.fresh(st, ('v',) + uid)
        return ('s', sid)

    def _writes(self, name, ct, off, base=()):
        """may the summarised callee write a field of this kind"""
        mods = self.mods.get(name) if self.mods is not None else frozenset()
        if mods is None: return True
        if base and base[0] == 'G' and isinstance(off, int): return ('G' + base[1], off) in mods
        if ct is None: return ('*', 0) in mods or not isinstance(off, int)
        return ct in mods

    def ginit(self, g, off):
        """value of a constant global's initialiser at a byte offset (strings excluded)"""
        from . import ir
        m = self.P.modof[g['unit']]
        def at(ty, v, o):
            if v is None: return None
            if v[0] == 'z': return ZERO
            if v[0] == 'str':
                return ('i', ord(v[1][o])) if o < len(v[1]) else ZERO
            if v[0] == 'agg':
                t = ty
                if t[0] == 'named':
                    s = m.structs.get(t[1])
                    if s is None: return None
                    t = ('st',) + s
                if t[0] == 'arr':
                    sz = ir.layout(m, t[2])[0]
                    i = o // sz
                    return at(v[1][i][0], v[1][i][1], o - i * sz) if i < len(v[1]) else None
                for i in range(len(v[1])):
                    fo, ft = ir.field_offset(m, t, i)
                    sz = ir.layout(m, ft)[0]
                    if fo <= o < fo + sz: return at(v[1][i][0], v[1][i][1], o - fo)
                return None
            if o != 0: return None
            return self.const(v)
        return at(g['type'], g['init'], off)

    def store(self, st, base, off, v):
        if off is None:
            for k in [k for k in st.mem if k[0] == base and (isinstance(k[1], tuple) or base[0] == 'A')]:
                if isinstance(k[1], (int, tuple)): self.cl.forget(self, st, k, st.mem[k])
                del st.mem[k]
            return
        if isinstance(off, tuple):
            for k in [k for k in st.mem if k[0] == base and k[1] != off and isinstance(k[1], tuple)]:
                del st.mem[k]
        if base in st.mem.get(('X', 'cm'), ()): self._keepcopies(st, base, off)
        st.mem[(base, off)] = v

    def havoc(self, st, base, uid, lo=None, hi=None):
        """forget the cells of a base"""
        for k in [k for k in st.mem if k[0] == base]:
            if lo is not None and isinstance(k[1], int) and not (lo <= k[1] < hi): continue
            if isinstance(k[1], (int, tuple)): self.cl.forget(self, st, k, st.mem[k])
            del st.mem[k]
        ep = ('ep',) + uid
        st.mem[(base, 'E')] = ep
        self._dropep(st, ep)

    def _dropep(self, st, ep):
        if ep in st.seen:
            # symbols loaded after an earlier run of the same event are not the ones loaded after this one
            for k in [k for k in st.mem if k[1] == 'F' and _mentions(k[0], ep)]: del st.mem[k]
            for k in [k for k in st.facts if _mentions(k, ep)]:
                del st.facts[k]
        st.seen.add(ep)

    def havoc_fields(self, st, name, uid):
        """forget the cells a summarised callee may write"""
        mods = self.mods.get(name) if self.mods is not None else frozenset()
        if mods is not None and not mods: return
        ep = ('ep',) + uid
        esc = self.escaped(st)
        for k in list(st.mem):
            base, off = k
            if base[0] == 'X' or off in ('Z', 'E', 'C', 'M', 'F'): continue
            if base not in esc and local(base): continue
            if base[0] == 'G' and base[1] in CONSTG: continue
            if self._writes(name, self.ctype.get(k), off, base):
                if base in st.mem.get(('X', 'cm'), ()): self._keepcopies(st, base, off)
                self.cl.forget(self, st, k, st.mem[k])
                del st.mem[k]
        for k in [k for k, v in st.mem.items() if k[1] == 'M' and ep in v]:
            st.mem[k] = tuple(x for x in st.mem[k] if x != ep)
        self._dropep(st, ep)
        ev = dict(st.mem.get(('X', 'ev'), ()))
        ev[ep] = name
        # an event that is repeated or subsumed by a later one of the same callee replaces it
        for k in [k for k, n in ev.items() if n == name and k != ep]: del ev[k]
        st.mem[('X', 'ev')] = tuple(sorted(ev.items(), key=repr))

    def escaped(self, st):
        return st.mem.get(('X', 'esc'), ())

    def private(self, st, base):
        """a stack object, or one allocated here, that no callee has been given"""
        return local(base) and base not in st.mem.get(('X', 'esc'), ())

    def escape_args(self, st, args):
        """what an unseen callee is handed, and what is stored in it, is no longer private"""
        pend = []
        for a in args:
            if a[0] == 'agg': pend.append(a[1]); continue
            b = self.base_of(a)
            if b and local(b[0]): pend.append(b[0])
        if not pend: return
        seen = set(pend); e = set(st.mem.get(('X', 'esc'), ())); n = len(e)
        while pend:
            x = pend.pop()
            if x[0] == 'S': e.add(x)
            for (b, o), v in st.mem.items():
                if b == x and isinstance(o, (int, tuple)):
                    y = self.base_of(v)
                    if y and local(y[0]) and y[0] not in seen: seen.add(y[0]); pend.append(y[0]); e.add(y[0])
        if len(e) != n: st.mem[('X', 'esc')] = tuple(sorted(e, key=repr))

    def escape(self, st, v, into=None):
        b = self.base_of(v)
        if b and local(b[0]):
            if b[0][0] == 'S' and into is not None and self.private(st, into): return
            e = st.mem.get(('X', 'esc'), ())
            if b[0] not in e:
                st.mem[('X', 'esc')] = tuple(sorted(e + (b[0],), key=repr))

    def mark(self, st, base, kind, val):
        st.mem[(base, kind)] = val
        ev = tuple(e for e, n in st.mem.get(('X', 'ev'), ()))
        if ev: st.mem[(base, 'M')] = ev
        else: st.mem.pop((base, 'M'), None)
        if kind == 'C':
            cm = st.mem.get(('X', 'cm'), ())
            if val[1] not in cm: st.mem[('X', 'cm')] = tuple(sorted(cm + (val[1],), key=repr))

    def _keepcopies(self, st, base, off):
        """base[off] is about to change: blocks copied from it keep the old value"""
        for k, c in list(st.mem.items()):
            if k[1] == 'C' and c[1] == base and isinstance(off, int):
                d = off + c[2]
                if c[3] <= d < c[4] and (k[0], d) not in st.mem:
                    st.mem[(k[0], d)] = self.load(st, base, off, ('kc',))

    def memcpy(self, st, dst, src, n, uid):
        d = self.base_of(dst); s = self.base_of(src)
        if d is None: return
        db, do = d
        n = n[1] if n[0] == 'i' else None
        if not isinstance(do, int):
            self.store(st, db, None, UNDEF); return
        if n is None:
            self.havoc(st, db, uid); return
        for k in [k for k in st.mem if k[0] == db and isinstance(k[1], int) and do <= k[1] < do + n]:
            del st.mem[k]
        z = st.mem.get((db, 'Z'))
        if s is None or not isinstance(s[1], int):
            st.mem.pop((db, 'Z'), None); st.mem[(db, 'E')] = ('ep',) + uid; self._dropep(st, ('ep',) + uid); return
        sb, so = s
        for k, v in list(st.mem.items()):
            if k[0] == sb and isinstance(k[1], int) and so <= k[1] < so + n:
                st.mem[(db, k[1] - so + do)] = v
        sz = st.mem.get((sb, 'Z'))
        if sz is not None and sz[0] <= so and sz[1] >= so + n and do == 0:
            self.mark(st, db, 'Z', (0, max(n, z[1] if z else 0)))
        elif sz is not None and sz[0] <= so < sz[1] and do == 0:
            self.mark(st, db, 'Z', (0, sz[1] - so))
        elif sz is None or not (sz[0] <= so < sz[1]):
            st.mem.pop((db, 'Z'), None)
            st.mem.pop((db, 'C'), None)
            c = st.mem.get((sb, 'C'))
            if c is not None and c[1] != db and c[1] != sb:
                self.mark(st, db, 'C', ('C', c[1], c[2] + do - so, max(do, c[3] + do - so), min(do + n, c[4] + do - so)))
            elif sb[0] != 'A' and sb != db and c is None:
                self.mark(st, db, 'C', ('C', sb, do - so, do, do + n))

    # ------------------------------------------------------------------ operands
    def const(self, o):
        k = o[0]
        if k == 'i': return o
        if k == 'f': return o
        if k == 'g':
            return ('p', ('F', o[1]) if o[1] in self.P.fns or o[1] not in self.P.globals else ('G', o[1]), o[2])
        if k == 'z': return ZERO
        return UNDEF

    def val(self, st, o):
        if o[0] == 'l':
            return st.env.get(o[1], UNDEF)
        return self.const(o)

    def binop(self, st, ins, op, a, b, uid):
        a = self.resolve(st, a); b = self.resolve(st, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                     'xor': lambda: x ^ y, 'shl': lambda: x << y if y < 64 else None, 'ashr': lambda: x >> y, 'lshr': lambda: x >> y if x >= 0 else None,
                     'sdiv': lambda: int(x / y) if y else None, 'udiv': lambda: x // y if y and x >= 0 else None,
                     'srem': lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else None, 'urem': lambda: x % y if y and x >= 0 else None}[op]()
            except KeyError:
                r = None
            if r is not None:
                if ins.ty == 'i1': r &= 1
                elif abs(r) >= 1 << 63: r = ((r + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)
                return ('i', r)
        if op == 'xor' and b == ('i', 1) or (op == 'xor' and b == ('i', -1) and ins.ty == 'i1'):
            if a[0] == 'c': return self.negate(a)
            if ins.ty == 'i1': return ('c', 'eq', a, ZERO)
        if op == 'add' or op == 'sub' or op == 'or' or op == 'xor':
            if b == ZERO: return a
        if op == 'add' and a == ZERO: return b
        if op == 'mul':
            if b == ('i', 1): return a
            if a == ('i', 1): return b
            if a == ZERO or b == ZERO: return ZERO
        if op == 'and' and (a == ZERO or b == ZERO): return ZERO
        if op == 'sub' and a == b and a[0] != 'u': return ZERO
        if op == 'and' and ins.ty == 'i1' and a[0] == 'c' and b[0] == 'c':
            ta, tb = self.truth(st, a), self.truth(st, b)
            if ta is False or tb is False: return ZERO
            if ta is True: return b
            if tb is True: return a
        if op == 'or' and ins.ty == 'i1' and a[0] == 'c' and b[0] == 'c':
            ta, tb = self.truth(st, a), self.truth(st, b)
            if ta is True or tb is True: return ('i', 1)
            if ta is False: return b
            if tb is False: return a
        if op in ('fadd', 'fsub', 'fmul', 'fdiv') and a[0] == 'f' and b[0] == 'f':
            try:
                x, y = float(a[1]), float(b[1])
                r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
                return ('f', repr(r))
            except (ValueError, ZeroDivisionError, OverflowError):
                pass
        if op == 'add' and a[0] == 's' and isinstance(a[1], tuple) and a[1][:2] == ('b', 'add') and a[1][3][0] == 'i' and b[0] == 'i':
            return self.binop(st, ins, 'add', a[1][2], ('i', a[1][3][1] + b[1]), uid)
        if op == 'sub' and b[0] == 'i':
            return self.binop(st, ins, 'add', a, ('i', -b[1]), uid)
        if a[0] in ('s', 'i', 'f', 'c', 'p') and b[0] in ('s', 'i', 'f', 'c', 'p'):
            if op in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul') and repr(a) > repr(b) and not b[0] == 'i': a, b = b, a
            t = ('b', op, a, b)
            if depth(t) <= 9: 
                return ('s', t)
        return self.fresh(st, ('n',) + uid)

    def negate(self, c):
        if c[1][0] == 'f' and c[1] not in NEG:
            return ('c', 'f' + FNEG[c[1][1:]], c[2], c[3]) if c[1][1:] in FNEG else ('c', 'eq', c, ZERO)
        return ('c', NEG[c[1]], c[2], c[3])

    # ------------------------------------------------------------------ functions
    def prepare(self, fn):
        c = fn.cache.get('eng')
        if c is not None: return c
        # reverse post order, back edges, liveness
        order = []; seen = set()
        stack = [(fn.order[0], iter(fn.blocks[fn.order[0]].succs))]; seen.add(fn.order[0])
        while stack:
            l, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(fn.blocks[s].succs))); adv = True; break
            if not adv:
                order.append(l); stack.pop()
        order.reverse()
        idx = {l: i for i, l in enumerate(order)}
        use = {}; dfn = {}
        for l in order:
            u = set(); d = set()
            for i in fn.blocks[l].insts:
                if i.op == 'phi':
                    d.add(i.res); continue
                for a in i.a:
                    if a[0] == 'l' and a[1] not in d: u.add(a[1])
                if i.res: d.add(i.res)
            use[l] = u; dfn[l] = d
        live = {l: set() for l in order}
        changed = True
        while changed:
            changed = False
            for l in reversed(order):
                out = set()
                for s in fn.blocks[l].succs:
                    out |= live[s] - {i.res for i in fn.blocks[s].insts if i.op == 'phi'}
                    for i in fn.blocks[s].insts:
                        if i.op == 'phi':
                            for v, pl in i.x:
                                if pl == l and v[0] == 'l': out.add(v[1])
                n = use[l] | (out - dfn[l]) | {i.res for i in fn.blocks[l].insts if i.op == 'phi'}
                if n != live[l]:
                    live[l] = n; changed = True
        heads = set()
        for l in order:
            for s in fn.blocks[l].succs:
                if idx[s] <= idx[l]: heads.add(s)
        sz = sum(len(b.insts) for b in fn.blocks.values())
        c = fn.cache['eng'] = (order, idx, live, heads, sz)
        return c

    def choices(self, fn):
        """integers that are only ever one of the constants written in the code"""
        c = fn.cache.get('choices')
        if c is None:
            d = {i.res: i for b in fn.blocks.values() for i in b.insts if i.op in ('phi', 'select') and i.ty != 'ptr'}
            c = set(d); ch = True
            while ch:
                ch = False
                for r in list(c):
                    i = d[r]
                    for v in ([x for x, l in i.x] if i.op == 'phi' else i.a[1:]):
                        if not (v[0] in ('i', 'u') or v[0] == 'l' and v[1] in c): c.discard(r); ch = True; break
            fn.cache['choices'] = c
        return c

    def gc(self, st, live):
        if live is not None:
            st.env = {k: v for k, v in st.env.items() if k in live}
        roots = set()
        for v in st.env.values(): roots |= refs(v)
        for v in st.outer: roots |= refs(v)
        for k, v in st.cl.items():
            if isinstance(k, tuple): roots |= refs(k)
            if isinstance(v, tuple): roots |= refs(v)
        cells = {}
        for (b, o), v in st.mem.items():
            cells.setdefault(b, []).append((o, v))
        reach = roots
        for b, cs in cells.items():
            if b[0] == 'G' or (b[0] == 'S' and b[1] and b[1][0] in ('par', 'ld')) or b[0] == 'X': reach.add(b)
        pend = list(reach)
        while pend:
            b = pend.pop()
            for o, v in cells.get(b, ()):
                for x in (refs(v) | refs(o)) if isinstance(o, tuple) else refs(v):
                    if x not in reach: reach.add(x); pend.append(x)
        # what was read from a live object without being written there is reached through it
        lazy = {b for b in cells if b[0] == 'S' and b[1] and b[1][0] == 'un'}
        for k in st.facts: lazy |= {('S', x) for x in symset(k) if x and x[0] == 'un'}
        ch = True
        while ch and lazy:
            ch = False
            for b in list(lazy):
                if b in reach: lazy.discard(b); continue
                if b[1][1] not in reach: continue
                lazy.discard(b); reach.add(b); pend = [b]; ch = True
                while pend:
                    y = pend.pop()
                    for o, v in cells.get(y, ()):
                        for x in (refs(v) | refs(o)) if isinstance(o, tuple) else refs(v):
                            if x not in reach: reach.add(x); pend.append(x)
        dead = [k for k in st.mem if k[0] not in reach]
        for k in dead: del st.mem[k]
        for k in DROP: st.facts.pop(k, None)
        if self.cl.drop_fact:
            for k in [k for k in st.facts if self.cl.drop_fact(k)]: del st.facts[k]
        for k in [k for k in st.facts if any(('S', x) not in reach and not self._permanent(x) for x in symset(k))]:
            del st.facts[k]

    def _permanent(self, s):
        return s[0] == 'par' or (s[0] == 'ld' and len(s) == 3) or (s[0] == 'b' and s[1] in ('strcmp', 'strcasecmp'))

    def run(self, fnkey, args=None, st=None, setup=None):
        """analyse a function from its entry; -> list of (state, return value)"""
        fn = self.P.fns[fnkey]
        self.ctype = getattr(self, 'ctype', {})
        lf = ('ld', ('G', 'apop_opts'), 432)
        if st is None:
            st = State()
            st.facts[('s', lf)] = (-INF, INF, frozenset((0,)))    # the log file is set
            for g in ('stdin', 'stdout', 'stderr'): st.facts[('s', ('ld', ('G', g), 0))] = (-INF, INF, frozenset((0,)))
        if args is None:
            args = []
            for n, (ty, nm, d) in enumerate(fn.params):
                if 'byval' in d:
                    args.append(('p', ('B', 0, fnkey, n), 0))
                else:
                    args.append(('s', ('par', n, nm)))
                    st.seen.add(('par', n, nm))
        if setup: setup(self, st, args)
        return self.call_fn(fn, args, st, (), 0)

    def ctx(self, c):
        r = self.ctxs.get(c)
        if r is None: r = self.ctxs[c] = len(self.ctxs)
        return r

    def call_fn(self, fn, args, st, cstr, dep):
        """run fn's body from state st (fresh environment); returns exit states with the caller's environment restored"""
        order, idx, live, heads, sz = self.prepare(fn)
        cid = self.ctx(cstr)
        saved_env, saved_iters, saved_outer = st.env, st.iters, st.outer
        nout = len(saved_outer)
        names = list(saved_env)
        st.outer = saved_outer + tuple(saved_env[n] for n in names)
        st.env = {}
        st.iters = ()
        for (ty, nm, d), v in zip(fn.params, args):
            st.env[nm] = v
        self.stack.append(fn.key)
        self.inlined.add(fn.key)
        pend = {order[0]: [(st, None)]}
        seen = {}
        stored = {}
        exits = []
        import heapq
        heap = [(0, order[0])]
        try:
            while heap:
                _, lab = heapq.heappop(heap)
                items = pend.pop(lab, None)
                if not items: continue
                for s, pred in items:
                    for s2 in self._enter(fn, lab, s, pred, cid, live, heads, seen, stored):
                        for out in self._block(fn, fn.blocks[lab], s2, cid, cstr, dep):
                            kind = out[0]
                            if kind == 'ret':
                                exits.append((out[1], out[2]))
                            else:
                                _, ns, tgt = out
                                if tgt not in pend:
                                    pend[tgt] = []; heapq.heappush(heap, (idx[tgt], tgt))
                                pend[tgt].append((ns, lab))
        finally:
            self.stack.pop()
        # merge exits
        res = {}
        for s, v in exits:
            self.cl.on_return(self, s, fn, v, dep)
            vals = s.outer[nout:]
            s.env = dict(zip(names, vals)) if len(vals) == len(names) else dict(saved_env)
            s.outer = s.outer[:nout]
            s.iters = saved_iters
            s.env['%ret'] = v
            # locals of this frame die
            for k in [k for k in s.mem if k[0][0] in ('A',) and k[0][1] == cid and k[0][2] == fn.key]:
                del s.mem[k]
            self.gc(s, None)
            res.setdefault(s.key(), (s, v))
        out = list(res.values())
        if dep > 0 and len(out) > 6:
            groups = {}
            for s, v in out:
                z = self.isnull(s, v) if v is not None else None
                groups.setdefault((self.cl.join_key(s), z, v if v and v[0] == 'i' else None), []).append((s, v))
            out = []
            for g, l in groups.items():
                cur = l[0][0]
                for s, _ in l[1:]:
                    cur = self.join(cur, s, ('ex', fn.key, cid))
                out.append((cur, cur.env.get('%ret')))
        r = []
        for s, v in out:
            v = s.env.pop('%ret', None)
            r.append((s, v))
        return r

    def _enter(self, fn, lab, st, pred, cid, live, heads, seen, stored):
        blk = fn.blocks[lab]
        order, idx, _, _, _ = self.prepare(fn)
        back = pred is not None and idx[pred] >= idx[lab]
        # phis (parallel assignment)
        new = {}
        it = dict(st.iters).get(lab, 0)
        if lab in heads:
            if back:
                it = min(it + 1, self.cl.unroll + 1)
                d = dict(st.iters); d[lab] = it; st.iters = tuple(sorted(d.items()))
            elif pred is not None:
                d = dict(st.iters)
                if lab in d:
                    del d[lab]; st.iters = tuple(sorted(d.items()))
                it = 0
        widen = []
        for i in blk.insts:
            if i.op != 'phi': break
            o = None
            for v, l in i.x:
                if l == pred: o = v; break
            v = self.val(st, o) if o is not None else UNDEF
            if back and it > self.cl.unroll:
                sid = ('phi', cid, fn.key, i.uid)
                if o[0] == 'i' or v == ('s', sid) or v[0] in ('u',):
                    pass
                else:
                    rv = self.resolve(st, v)
                    if i.res in self.choices(fn): new[i.res] = v; continue      # one of finitely many constants
                    if rv[0] in ('i', 'np', 'f') or sid in symset(v) or depth(v) > 6 or self._loopy(v):
                        if not (i.ty == 'ptr' and rv == ZERO):
                            widen.append((i.res, sid, v)); continue
            new[i.res] = v
        st.env.update(new)
        for res, sid, v in widen:
            nn = self.isnull(st, v) if v[0] != 'i' else None
            pos = self.rng(st, v)[0]
            s = self.fresh(st, sid)
            st.env[res] = s
            if fn.blocks and nn is False and v[0] in ('p', 's'):
                self._assume(st, 'ne', s, ZERO)
        if len(blk.preds) < 2 and lab not in heads:
            return [st]
        self.gc(st, live[lab])
        k = st.key()
        ss = seen.setdefault(lab, set())
        if k in ss: return []
        ss.add(k)
        grp = stored.setdefault(lab, {})
        jk = self.cl.join_key(st)
        lst = grp.setdefault(jk, [])
        if len(lst) < self.cl.max_states and not (lst and lst[0] is None):
            lst.append(st.copy())
            return [st]
        # too many: join into one
        if lst[0] is not None:
            j = lst[0]
            for o in lst[1:]:
                j = self.join(j, o, (lab, fn.key, cid))
        else:
            j = lst[1]
        n = self.join(j, st, (lab, fn.key, cid))
        lst[:] = [None, n]
        k2 = n.key()
        if k2 in ss: return []
        ss.add(k2)
        return [n.copy()]

    def _loopy(self, v):
        """does a value come from re-executable arithmetic"""
        return v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'b'

    def join(self, a, b, where):
        s = State()
        s.iters = tuple(sorted((k, max(dict(a.iters).get(k, 0), dict(b.iters).get(k, 0))) for k in set(dict(a.iters)) | set(dict(b.iters))))
        s.cl = dict(a.cl)
        s.trace = a.trace
        s.seen = a.seen | b.seen
        late = []
        def mix(k, x, y):
            if x == y: return x
            if x[0] in ('i', 's', 'p', 'np', 'f', 'c', 'u') :
                sid = ('j', where, k)
                late.append((sid, x, y))
                s.seen.add(sid)
                return ('s', sid)
            return x
        for k in a.env:
            if k in b.env: s.env[k] = mix(k, a.env[k], b.env[k])
        for k in a.mem.keys() | b.mem.keys():
            if k[0][0] == 'X':
                x, y = a.mem.get(k), b.mem.get(k)
                if x is None or y is None or x == y: s.mem[k] = x if x is not None else y
                elif k[1] in ('esc', 'cm'): s.mem[k] = tuple(sorted(set(x) | set(y), key=repr))
                else:
                    d = dict(x); d.update(dict(y)); s.mem[k] = tuple(sorted(d.items(), key=repr))
                continue
            if k in a.mem and k in b.mem:
                x, y = a.mem[k], b.mem[k]
                if x == y: s.mem[k] = x
                elif k[1] in ('Z', 'C'): continue
                elif k[1] == 'M': s.mem[k] = tuple(e for e in x if e in y)
                elif k[1] == 'E': s.mem[k] = max(x, y, key=repr)
                else: s.mem[k] = mix(k, x, y)
            elif k[1] == 'E': s.mem[k] = a.mem[k] if k in a.mem else b.mem[k]
            elif k[1] in ('Z', 'C') or not isinstance(k[1], int): continue
            else:
                o = b if k in a.mem else a
                if k[0][0] == 'S' and k[0][1] not in o.seen and k[0][1][0] not in ('ld', 'par', 'un'):
                    s.mem[k] = a.mem[k] if k in a.mem else b.mem[k]; continue
                v = self.load(o, k[0], k[1], ('jl',), 'ptr')   # a cell never written on the other side still holds its old value
                s.mem[k] = mix(k, a.mem[k], v) if o is b else mix(k, v, b.mem[k])
        s.outer = tuple(mix(('out', i), x, y) for i, (x, y) in enumerate(zip(a.outer, b.outer)))
        for k, f in a.facts.items():
            g = b.facts.get(k)
            if g is None: continue
            if f == g: s.facts[k] = f
            elif isinstance(f, tuple) and isinstance(g, tuple):
                lo, hi = min(f[0], g[0]), max(f[1], g[1])
                def rem(fact):
                    return fact[2]
                ne = frozenset(x for x in (f[2] | g[2]) if (x in f[2] or x < f[0] or x > f[1]) and (x in g[2] or x < g[0] or x > g[1]))
                if hi < 0 or lo > 0: pass
                else:
                    if (0 in f[2] or f[0] > 0 or f[1] < 0) and (0 in g[2] or g[0] > 0 or g[1] < 0): ne = ne | {0}
                if lo != f[0] and lo != -INF: lo = -INF if lo < 0 else 0   # widen
                if hi != f[1]: hi = INF
                if (lo, hi) != (-INF, INF) or ne: s.facts[k] = (lo, hi, ne)
        lda = ldb = None
        for sid, x, y in late:
            if x[0] == y[0] == 's':
                # what both sides know of the fields of the objects pointed to, they know of the joined pointer's
                if lda is None: lda, ldb = _fieldfacts(a), _fieldfacts(b)
                fa, fb = lda.get(x[1]), ldb.get(y[1])
                if fa and fb:
                    for rest in fa.keys() & fb.keys():
                        f, g = fa[rest], fb[rest]
                        if f == g: s.facts[('s', ('ld', ('S', sid)) + rest)] = f
            if (('S', sid), 'F') in s.mem: del s.mem[(('S', sid), 'F')]
            za, zb = self.isnull(a, x), self.isnull(b, y)
            if za is not None and za == zb:
                s.facts[('s', sid)] = (0, 0, frozenset()) if za else (-INF, INF, frozenset((0,)))
            else:
                s.facts.pop(('s', sid), None)
        return s

    # ------------------------------------------------------------------ one block
    def _block(self, fn, blk, st, cid, cstr, dep):
        work = [(st, 0)]
        outs = []
        while work:
            st, n = work.pop()
            insts = blk.insts
            dead = False
            while n < len(insts):
                ins = insts[n]; n += 1
                op = ins.op
                if op == 'phi': continue
                self.steps += 1
                if self.steps > self.cl.budget: raise Budget(fn.key)
                uid = (cid, fn.key, ins.uid)
                if op == 'br':
                    if not ins.a:
                        outs.append(('br', st, ins.x[0]))
                    else:
                        c = self.val(st, ins.a[0])
                        t = self.truth(st, c)
                        opts = (True, False) if t is None else (t,)
                        if ins.x[0] == ins.x[1]: opts = (True,)
                        for k, o in enumerate(opts):
                            s = st.copy() if k + 1 < len(opts) else st
                            if t is None and not self.assume(s, c, o): continue
                            if not self.cl.on_branch(self, s, ins, c, o): continue
                            if self.cl.keep_trace and t is None: s.trace = s.trace + ((ins.line, o),)
                            outs.append(('br', s, ins.x[0] if o else ins.x[1]))
                    dead = True; break
                if op == 'ret':
                    v = self.val(st, ins.a[0]) if ins.a else None
                    if v is not None: v = self.resolve(st, v)
                    outs.append(('ret', st, v)); dead = True; break
                if op == 'switch':
                    v = self.resolve(st, self.val(st, ins.a[0]))
                    d, cases = ins.x
                    if v[0] == 'i':
                        tgt = d
                        for c, l in cases:
                            if c == v[1]: tgt = l
                        outs.append(('br', st, tgt))
                    else:
                        ok = st.copy()
                        for c, l in cases:
                            s = st.copy()
                            if v[0] == 'u' or self.assume(s, ('c', 'eq', v, ('i', c)), True): outs.append(('br', s, l))
                            if ok is not None and v[0] != 'u' and not self.assume(ok, ('c', 'eq', v, ('i', c)), False): ok = None
                        if ok is not None: outs.append(('br', ok, d))
                    dead = True; break
                if op == 'unreachable':
                    dead = True; break
                if op == 'call':
                    rs = self._call(fn, ins, st, uid, cstr, dep)
                    if not rs:
                        dead = True; break
                    for s, v in rs[1:]:
                        if ins.res: s.env[ins.res] = v if v is not None else UNDEF
                        work.append((s, n))
                    st, v = rs[0]
                    if ins.res: st.env[ins.res] = v if v is not None else UNDEF
                    continue
                if op == 'select':
                    c = self.val(st, ins.a[0]); t = self.truth(st, c)
                    a, b = self.val(st, ins.a[1]), self.val(st, ins.a[2])
                    if t is None and a != b and c[0] != 'u':
                        s = st.copy()
                        if self.assume(s, c, False):
                            s.env[ins.res] = b; work.append((s, n))
                        if not self.assume(st, c, True):
                            dead = True; break
                        st.env[ins.res] = a
                        continue
                if op == 'load':
                    a = self.resolve(st, self.val(st, ins.a[0]))
                    if not self._deref(st, ins, a, 'load'):
                        dead = True; break
                    b = self.base_of(a)
                    if b is None or isinstance(ins.ty, tuple):
                        v = self.fresh(st, ('v',) + uid)
                    else:
                        v = self.load(st, b[0], b[1], uid, ins.ty)
                        if b[0] == ('G', 'apop_opts') and b[1] in self.cl.opts: v = self.cl.opts[b[1]]
                    st.env[ins.res] = v
                    continue
                if op == 'store':
                    a = self.resolve(st, self.val(st, ins.a[1])); v = self.val(st, ins.a[0])
                    if not self._deref(st, ins, a, 'store'):
                        dead = True; break
                    b = self.base_of(a)
                    if b is not None:
                        if v[0] == 'agg':
                            self.cl.on_copy(self, st, ins, a, ('p', v[1], v[2]), ('i', v[3]))
                            self.memcpy(st, a, ('p', v[1], v[2]), ('i', v[3]), uid)
                        elif ins.a[0] == ('z',) or isinstance(ins.ty, tuple):
                            self.havoc(st, b[0], uid)
                        else:
                            self.cl.on_store(self, st, ins, b[0], b[1], v)
                            if b[0][0] not in ('A',): self.escape(st, v, b[0])
                            self.store(st, b[0], b[1], v)
                    continue
                self._simple(st, ins, op, uid, fn, cid)
            if not dead and n >= len(insts):
                pass
        return outs


    def _deref(self, st, ins, a, what):
        return self.cl.on_deref(self, st, ins, a, what)

    def _simple(self, st, ins, op, uid, fn, cid):
        env = st.env
        if op == 'getelementptr':
            base = self.resolve(st, self.val(st, ins.a[0]))
            gp = ins.x[1]
            if gp is None:
                env[ins.res] = ('p', self.base_of(base)[0], None) if self.base_of(base) else UNDEF
                return
            c, var, sn, so = gp
            r = self.addoff(st, base, c, [(self.val(st, o), sz) for o, sz in var])
            if r[0] in ('p', 's') and sn:
                b = self.base_of(r)
                if b: self.ctype[b] = (sn, so)
            env[ins.res] = r
        elif op == 'alloca':
            b = ('A', cid, fn.key, ins.uid)
            for k in [k for k in st.mem if k[0] == b]: del st.mem[k]
            env[ins.res] = ('p', b, 0)
        elif op == 'icmp':
            a = self.resolve(st, self.val(st, ins.a[0])); b = self.resolve(st, self.val(st, ins.a[1]))
            if a[0] == 'u' or b[0] == 'u':
                env[ins.res] = self.fresh(st, ('n',) + uid); return
            if b[0] == 'i' and a[0] == 'c':
                # comparison of a comparison with 0/1
                if ins.x in ('ne', 'eq') and b[1] in (0, 1):
                    same = (ins.x == 'ne') == (b[1] == 0)
                    env[ins.res] = a if same else self.negate(a)
                    return
            if a[0] == 'np' and b == ZERO: a = ZERO
            r = self.compare(st, ins.x, a, b)
            env[ins.res] = ('i', int(r)) if r is not None else ('c', ins.x, a, b)
        elif op == 'fcmp':
            a = self.val(st, ins.a[0]); b = self.val(st, ins.a[1])
            if a[0] == 'u' or b[0] == 'u' or a[0] == 'i' or b[0] == 'i':
                a = ('f', repr(float(a[1]))) if a[0] == 'i' else a
                b = ('f', repr(float(b[1]))) if b[0] == 'i' else b
            if a[0] == 'u' or b[0] == 'u' or depth((a, b)) > 10:
                env[ins.res] = self.fresh(st, ('n',) + uid); return
            c = ('c', 'f' + ins.x, a, b)
            r = self.fcompare(st, c)
            env[ins.res] = ('i', int(r)) if r is not None else c
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'fptrunc', 'fpext'):
            v = self.resolve(st, self.val(st, ins.a[0]))
            if v[0] == 'i' and op == 'trunc':
                w = int(ins.ty[1:]) if isinstance(ins.ty, str) and ins.ty[0] == 'i' else 64
                x = v[1] & ((1 << w) - 1)
                if w > 1 and x >> (w - 1): x -= 1 << w
                v = ('i', x)
            elif v[0] == 'i' and op == 'zext':
                w = int(ins.x[1:]) if isinstance(ins.x, str) and ins.x[0] == 'i' else 64
                v = ('i', v[1] & ((1 << w) - 1))
            elif v[0] == 'i' and op == 'sext' and ins.x == 'i1':
                v = ('i', -v[1])
            env[ins.res] = v
        elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui'):
            v = self.resolve(st, self.val(st, ins.a[0]))
            if v[0] == 'i' and op in ('sitofp', 'uitofp'): env[ins.res] = ('f', repr(float(v[1])))
            elif v[0] == 'f' and op in ('fptosi', 'fptoui'):
                try: env[ins.res] = ('i', int(float(v[1])))
                except (ValueError, OverflowError): env[ins.res] = self.fresh(st, ('n',) + uid)
            elif v[0] in ('s', 'c') and depth(v) < 8: env[ins.res] = ('s', ('b', op, v, ZERO))
            else: env[ins.res] = self.fresh(st, ('n',) + uid)
        elif op == 'select':
            c = self.val(st, ins.a[0]); t = self.truth(st, c)
            a, b = self.val(st, ins.a[1]), self.val(st, ins.a[2])
            if t is None and a != b:
                env[ins.res] = self.fresh(st, ('n',) + uid)
            else:
                env[ins.res] = a if t is not False else b
        elif op == 'fneg':
            v = self.val(st, ins.a[0])
            if v[0] == 'f':
                try: env[ins.res] = ('f', repr(-float(v[1]))); return
                except ValueError: pass
            env[ins.res] = ('s', ('b', 'fneg', v, ZERO)) if v[0] == 's' and depth(v) < 8 else self.fresh(st, ('n',) + uid)
        elif op in ('atomicrmw', 'cmpxchg'):
            a = self.val(st, ins.a[0]); b = self.base_of(a)
            v = self.fresh(st, ('v',) + uid)
            if b is not None: self.store(st, b[0], b[1], ('s', ('b', 'rmw', v, ZERO)))
            env[ins.res] = v
        elif ins.res and op in ('extractvalue', 'insertvalue', 'va_arg'):
            env[ins.res] = self.fresh(st, ('v',) + uid)
        elif ins.res:
            env[ins.res] = self.binop(st, ins, op, self.val(st, ins.a[0]), self.val(st, ins.a[1]), uid)

    # ------------------------------------------------------------------ calls
    def _call(self, fn, ins, st, uid, cstr, dep):
        from . import externs
        callee = self.val(st, ins.a[0]) if ins.a[0][0] != 'x' else UNDEF
        callee = self.resolve(st, callee)
        args = [self.resolve(st, self.val(st, a)) for a in ins.a[1:]]
        name = callee[1][1] if callee[0] == 'p' and callee[1][0] == 'F' and callee[2] == 0 else None
        if name is None and callee[0] in ('i', 'np') or (callee[0] == 's' and self.isnull(st, callee)):
            if not self.cl.null_call(self, st, ins, callee): return []
        if name and name.startswith('llvm.'):
            return self._intrinsic(st, ins, name, args, uid)
        r = self.cl.on_call(self, st, ins, name, args, (uid, cstr, dep))
        if r is not None: return r
        return self.default_call(st, ins, name, args, uid, cstr, dep)

    def default_call(self, st, ins, name, args, uid, cstr, dep):
        from . import externs
        f = self.P.fns.get(name) if name else None
        # by-value aggregates
        if f is not None:
            args = list(args)
            for n, (ty, nm, d) in enumerate(f.params):
                if 'byval' in d and n < len(args):
                    b = ('B', uid[0], f.key, ins.uid, n)
                    for k in [k for k in st.mem if k[0] == b]: del st.mem[k]
                    self.memcpy(st, ('p', b, 0), args[n], ('i', 1 << 16), uid)
                    args[n] = ('p', b, 0)
            if (dep < self.cl.inline_depth and name not in self.stack and self.prepare(f)[4] <= self.cl.max_inst and not f.varargs
                    and self.cl.want_inline(self, f, args, dep)):
                rs = self.call_fn(f, args, st, cstr + ((ins.fn, ins.uid),), dep + 1)
                out = []
                for s, v in rs:
                    self.cl.after_call(self, s, ins, name, args, v)
                    out.append((s, v))
                return out
            self.opaque.add(name)
            self.escape_args(st, args)
            for a in args:
                b = self.base_of(a)
                if b and b[0][0] == 'A': self.havoc(st, b[0], uid)
            self.havoc_fields(st, name, uid)
            v = self.fresh(st, ('ret', name) + uid)
            self.cl.after_call(self, st, ins, name, args, v)
            return [(st, v)]
        if name is None:
            self.escape_args(st, args)
            for a in args:
                b = self.base_of(a)
                if b and b[0][0] == 'A': self.havoc(st, b[0], uid)
            self.havoc_fields(st, '*indirect', uid)
            v = self.fresh(st, ('ret', None) + uid)
            self.cl.after_call(self, st, ins, name, args, v)
            return [(st, v)]
        v = externs.model(self, st, ins, name, args, uid)
        if v is externs.NORETURN: return []
        self.cl.after_call(self, st, ins, name, args, v)
        return [(st, v)]

    def _intrinsic(self, st, ins, name, args, uid):
        n = name.split('.')
        if n[1] == 'memset':
            b = self.base_of(args[0])
            if not self._deref(st, ins, args[0], 'store'): return []
            if b is not None and isinstance(b[1], int):
                sz = args[2][1] if args[2][0] == 'i' else None
                for k in [k for k in st.mem if k[0] == b[0] and (not isinstance(k[1], int) or sz is None or b[1] <= k[1] < b[1] + sz)]:
                    del st.mem[k]
                if args[1] == ZERO:
                    self.mark(st, b[0], 'Z', (b[1], b[1] + (sz if sz is not None else 1 << 40)))
            return [(st, args[0])]
        if n[1] in ('memcpy', 'memmove'):
            if not self._deref(st, ins, args[0], 'store'): return []
            if not self._deref(st, ins, args[1], 'load'): return []
            self.cl.on_copy(self, st, ins, args[0], args[1], args[2])
            self.memcpy(st, args[0], args[1], args[2], uid)
            return [(st, args[0])]
        if n[1] == 'threadlocal':
            return [(st, args[0])]
        if n[1] == 'trap': return []
        if ins.res:
            return [(st, self.fresh(st, ('v',) + uid))]
        return [(st, None)]

def local(b):
    return b[0] in ('A', 'B') or (b[0] == 'S' and isinstance(b[1], tuple) and len(b[1]) > 0 and b[1][0] == 'h')

CONSTG = set()
# facts that only steer diagnostics: verbosity and the stop-on-warning option
DROP = tuple(('s', ('ld', ('G', 'apop_opts'), o)) for o in (0, 4))

def _mentions(t, ep):
    if t == ep: return True
    if isinstance(t, tuple):
        return any(_mentions(x, ep) for x in t if isinstance(x, tuple))
    return False
