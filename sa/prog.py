"""The linked program: all units' functions, globals and struct layouts."""
import os, sys, shutil, concurrent.futures as cf, pickle
from . import ir, stage
from .stage import AnalysisError

def _parse(a):
    return ir.parse_file(*a[::-1])

class Program:
    def __init__(self, mods):
        self.mods = mods
        self.fns = {}        # key -> Fn; external functions by name, internal as name@unit
        self.globals = {}    # key -> dict
        self.structs = {}; self.lay = {}
        self.fields = {}; self.pointees = {}
        for m in mods:
            for n, s in m.structs.items(): self.structs.setdefault(n, s)
            for n, s in m.structfields.items(): self.fields.setdefault(n, s)
            for n, s in m.pointees.items(): self.pointees.setdefault(n, s)
            cmd = m.unit.startswith('cmd/')
            for f in m.fns.values():
                if cmd and not f.internal:
                    f.key = f.name + '@' + m.unit
                if f.key in self.fns: f.key += '@' + m.unit
                self.fns[f.key] = f
                for b in f.blocks.values():
                    for i in b.insts: i.fn = f.key
        for m in mods:
            for n, g in m.globals.items():
                k = n if not (g['internal']) else n + '@' + m.unit
                g['name'] = n; g['unit'] = m.unit
                if k not in self.globals or (self.globals[k]['external'] and not g['external']):
                    self.globals[k] = g
        self.modof = {m.unit: m for m in mods}
        self._resolve()
        self._taken = None; self._callers = None; self.header = set()

    def _resolve(self):
        """turn ('g',name,off) operands into ('g',key,off) with unit-qualified keys"""
        for m in self.mods:
            memo = {}
            def key(n):
                r = memo.get(n)
                if r is None:
                    if n in m.fns: r = m.fns[n].key
                    elif n in m.globals and m.globals[n]['internal']: r = n + '@' + m.unit
                    else: r = n
                    memo[n] = r
                return r
            def fix(v):
                if v[0] == 'g': return ('g', key(v[1]), v[2])
                if v[0] == 'agg': return ('agg', [(t, fix(x)) for t, x in v[1]])
                return v
            for f in m.fns.values():
                for b in f.blocks.values():
                    for i in b.insts:
                        i.a = [fix(v) for v in i.a]
                        if i.op == 'phi': i.x = [(fix(v), l) for v, l in i.x]
            for g in m.globals.values():
                if g['init'] is not None: g['init'] = fix(g['init'])

    def insts(self, f):
        for l in f.order:
            for i in f.blocks[l].insts: yield i

    def calls(self, f):
        for i in self.insts(f):
            if i.op == 'call': yield i

    def callee(self, i):
        c = i.a[0]
        return c[1] if c[0] == 'g' else None

    def where(self, i):
        f = self.fns[i.fn]
        return '%s:%s:%s' % (f.file, f.name, i.line)

    def string(self, key):
        g = self.globals.get(key)
        if g is None or g['init'] is None or not g['const']: return None
        if g['init'][0] == 'str': return g['init'][1].split('\0')[0]
        if g['init'][0] == 'z': return ''
        return None

    def public(self, key):
        """declared in the public header (the variadic front and the _base body of a declared function count)"""
        f = self.fns.get(key)
        if f is None or f.internal: return False
        n = f.name
        if n in self.header: return True
        if n.startswith('variadic_') and n[9:] in self.header: return True
        if n.endswith('_base') and n[:-5] in self.header: return True
        return False

    def taken(self):
        """functions whose address is used other than as a callee"""
        if self._taken is None:
            t = set()
            def see(v):
                if v[0] == 'g' and v[1] in self.fns: t.add(v[1])
                elif v[0] == 'agg':
                    for _, x in v[1]: see(x)
            for f in self.fns.values():
                for i in self.insts(f):
                    for n, a in enumerate(i.a):
                        if i.op == 'call' and n == 0: continue
                        see(a)
            for g in self.globals.values():
                if g['init'] is not None: see(g['init'])
            self._taken = t
        return self._taken

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.fns.values():
                for i in self.calls(f):
                    n = self.callee(i)
                    if n in self.fns: c.setdefault(n, set()).add(f.key)
            self._callers = c
        return self._callers

    def argtype(self, key, n):
        """(name of what parameter n points to, declared const)"""
        f = self.fns[key]
        if f.params and 'sret' in f.params[0][2]: n -= 1
        return self.modof[f.unit].argtypes.get(f.name, {}).get(n + 1, (None, None))
    def field(self, st, off):
        return self.fields.get(st, {}).get(off)

def load(repo=stage.REPO, omp=False, jobs=8):
    d, units = stage.build(repo, omp=omp)
    try:
        with cf.ProcessPoolExecutor(jobs) as ex:
            # big files first
            units = sorted(units, key=lambda u: -os.path.getsize(u[1]))
            mods = list(ex.map(_parse, units))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mods.sort(key=lambda m: m.unit)
    if len(mods) < 40:
        raise AnalysisError('only %d translation units found' % len(mods))
    p = Program(mods)
    p.header = header_words(repo)
    return p

def header_words(repo=stage.REPO):
    import re
    t = open(os.path.join(repo, 'apop.m4.h'), errors='replace').read()
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'//[^\n]*', ' ', t)
    return set(re.findall(r'[A-Za-z_]\w*', t))
