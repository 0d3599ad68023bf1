"""Which struct fields a function may write, transitively: {(struct name, byte offset)}; ('*',0) stands for writes through plain pointers."""
def defs(f):
    c = f.cache.get('defs')
    if c is None:
        c = f.cache['defs'] = {i.res: i for b in f.blocks.values() for i in b.insts if i.res}
    return c

def fresh_fns(P):
    """functions that only ever return NULL or an object made during the call"""
    c = getattr(P, '_fresh', None)
    if c is not None: return c
    from . import externs
    fr = {k for k, f in P.fns.items() if any(i.op == 'ret' and i.a and i.ty == 'ptr' for i in P.insts(f))}
    def tr(f, v, seen):
        if v[0] in ('z',) or v == ('i', 0): return True
        if v[0] != 'l' or v in seen: return v in seen
        d = defs(f).get(v[1])
        if d is None: return False
        if d.op == 'phi': return all(tr(f, x, seen | {v}) for x, _ in d.x)
        if d.op == 'select': return tr(f, d.a[1], seen | {v}) and tr(f, d.a[2], seen | {v})
        if d.op == 'call':
            n = P.callee(d)
            return n in fr or n in externs.ALLOC
        return False
    ch = True
    while ch:
        ch = False
        for k in list(fr):
            f = P.fns[k]
            if not all(tr(f, i.a[0], frozenset()) for i in P.insts(f) if i.op == 'ret'):
                fr.discard(k); ch = True
    P._fresh = fr
    return fr

def local_base(P, f, v, seen=()):
    """does the pointer certainly point into a stack object of f, or at a global"""
    if v[0] == 'g': return 'g'
    if v[0] != 'l' or v in seen: return None
    d = defs(f).get(v[1])
    if d is None:
        for t, nm, a in f.params:
            if nm == v[1] and 'byval' in a: return 'a'
        return None
    if d.op == 'alloca': return 'a'
    if d.op == 'call':
        from . import externs
        n = P.callee(d)
        return 'a' if n != 'realloc' and (n in externs.ALLOC or n in fresh_fns(P)) else None
    if d.op == 'getelementptr': return local_base(P, f, d.a[0], seen + (v,))
    if d.op == 'phi':
        r = {local_base(P, f, x, seen + (v,)) for x, _ in d.x if x not in seen and x != v and x[0] != 'z' and x != ('i', 0)}
        return r.pop() if len(r) == 1 else None
    return None

def direct(P, f):
    out = set()
    for i in P.insts(f):
        if i.op in ('store', 'atomicrmw'):
            p = i.a[1] if i.op == 'store' else i.a[0]
            if local_base(P, f, p) == 'a': continue
            if p[0] == 'g':
                if not (p[1] == 'apop_opts' and p[2] == 432): out.add(('G' + p[1], p[2]))   # log_file's NULL -> stderr default
                continue
            d = defs(f).get(p[1]) if p[0] == 'l' else None
            if d is not None and d.op == 'getelementptr' and d.x[1] and d.x[1][2]: out.add((d.x[1][2], d.x[1][3]))
            else: out.add(('*', 0))
        elif i.op == 'call':
            c = P.callee(i)
            if c and (c.startswith('llvm.memcpy') or c.startswith('llvm.memset') or c.startswith('llvm.memmove')):
                p = i.a[1]
                if local_base(P, f, p) == 'a': continue
                n = i.a[3]
                if n[0] == 'i':
                    from . import ir
                    m = P.modof[f.unit]
                    for s in m.structs:
                        if ir.layout(m, ('named', s))[0] == n[1]:
                            off = 0
                            for k, t in enumerate(m.structs[s][1]):
                                out.add((s, ir.field_offset(m, ('named', s), k)[0]))
                out.add(('*', 0))
            elif c in ('asprintf', 'vasprintf', 'getline'): out.add(('*', 0))
            elif c is None: out.add('indirect')
    return out

def compute(P):
    d = {k: direct(P, f) for k, f in P.fns.items()}
    calls = {}
    for k, f in P.fns.items():
        calls[k] = {P.callee(i) for i in P.calls(f)} & set(P.fns)
        # callbacks handed over as arguments count as called
        for i in P.calls(f):
            for a in i.a[1:]:
                if a[0] == 'g' and a[1] in P.fns: calls[k].add(a[1])
    ind = set()
    for t in P.taken():
        f = P.fns[t]
        if f.unit.startswith('cmd/'): continue
        ind.add(t)
    res = {k: set(v) for k, v in d.items()}
    res['*indirect'] = set(); calls['*indirect'] = ind
    for k in d:
        if 'indirect' in d[k]: calls[k] = calls[k] | {'*indirect'}
    changed = True
    while changed:
        changed = False
        for k in res:
            n = len(res[k])
            for c in calls[k]: res[k] |= res[c]
            if len(res[k]) != n: changed = True
    for k in res: res[k].discard('indirect')
    return {k: frozenset(v) for k, v in res.items()}
