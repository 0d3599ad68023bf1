"""Format strings: every value in a format position is a literal, or the format parameter of a function whose own contract is printf-like."""
from ..prog import AnalysisError

SINK = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1, 'vasprintf': 1, 'vprintf': 0, 'vfprintf': 1,
        'vsprintf': 1, 'vsnprintf': 2, 'vdprintf': 1, 'sqlite3_mprintf': 0, 'sqlite3_vmprintf': 0, 'sqlite3_snprintf': 2, 'sqlite3_vsnprintf': 2,
        'syslog': 1, '__printf_chk': 1, '__fprintf_chk': 2, '__sprintf_chk': 3, '__snprintf_chk': 4, '__asprintf_chk': 2, 'scanf': 0, 'fscanf': 1,
        'sscanf': 1, 'error': 2, 'err': 1, 'warn': 0, 'warnx': 0, 'strftime': 2}

def roots(P, f, v, seen=None):
    """the values an operand may come from: {('lit',text) | ('par',n) | ('null',) | ('dyn',description,line)}"""
    seen = seen if seen is not None else set()
    if v in seen: return set()
    seen.add(v)
    if v[0] == 'g':
        s = P.string(v[1])
        if s is not None: return {('lit', s[v[2]:])}
        g = P.globals.get(v[1])
        if g is not None and g['const']: return {('lit', '?')}
        return {('dyn', 'global ' + v[1], None)}
    if v[0] == 'i': return {('null',)}
    if v[0] != 'l': return {('null',)}
    for n, (t, nm, d) in enumerate(f.params):
        if nm == v[1]: return {('par', n)}
    d = defs(f).get(v[1])
    if d is None: return {('dyn', v[1], None)}
    if d.op in ('phi', 'select'):
        out = set()
        for a in (d.a[1:] if d.op == 'select' else d.a): out |= roots(P, f, a, seen)
        return out
    if d.op == 'load':
        p = d.a[0]
        if p[0] == 'l':
            a = defs(f).get(p[1])
            if a is not None and a.op == 'alloca':
                # a local whose address never leaves: every store into it counts
                out = set(); esc = False
                for i in P.insts(f):
                    for k, o in enumerate(i.a):
                        if o == p:
                            if i.op == 'store' and k == 1: out |= roots(P, f, i.a[0], seen)
                            elif i.op == 'load': pass
                            else: esc = True
                return out | ({('dyn', 'text assembled in a buffer', d.line)} if esc else set())
            if a is not None and a.op == 'getelementptr' and a.a[0][0] == 'l':
                b = defs(f).get(a.a[0][1])
                if b is not None and b.op == 'alloca':
                    # array of literals on the stack
                    pass
        if p[0] == 'g' and P.globals.get(p[1], {}).get('const'): return {('lit', '?')}
        return {('dyn', 'loaded from ' + describe(P, f, p), d.line)}
    if d.op == 'getelementptr':
        b = d.a[0]
        r = roots(P, f, b, seen)
        return {x for x in r}
    if d.op == 'call':
        c = d.a[0][1] if d.a[0][0] == 'g' else '?'
        if c == 'dcgettext' or c == 'gettext': return roots(P, f, d.a[1], seen)
        g = P.fns.get(c)
        if g is not None and g.ret == 'ptr':      # a helper of the library that only ever hands back literals
            out = set()
            for i in P.insts(g):
                if i.op == 'ret':
                    for r in roots(P, g, i.a[0], set()):
                        if r[0] == 'par': out |= roots(P, f, d.a[1 + r[1]], seen)
                        else: out.add(r)
            return {r if r[0] != 'dyn' else ('dyn', 'result of ' + g.name, d.line) for r in out}
        return {('dyn', 'result of ' + c, d.line)}
    return {('dyn', d.op, d.line)}

def describe(P, f, p):
    if p[0] == 'g': return p[1]
    d = defs(f).get(p[1]) if p[0] == 'l' else None
    if d is not None and d.op == 'getelementptr' and d.x[1] and d.x[1][2]:
        return '%s.%s' % (d.x[1][2].replace('struct.', ''), P.field(d.x[1][2], d.x[1][3]) or d.x[1][3])
    return 'memory'

def defs(f):
    c = f.cache.get('defs')
    if c is None:
        c = f.cache['defs'] = {i.res: i for b in f.blocks.values() for i in b.insts if i.res}
    return c

def scope(P, f):
    return f.unit != 'asprintf.c'

def run(P, R, tier):
    sinks = dict((k, v) for k, v in SINK.items())
    # the library's own asprintf is the same function
    contract = {}            # fn key -> format parameter position
    sites = []
    work = True
    done = set()
    nsites = 0
    while work:
        work = False
        for f in P.fns.values():
            if not scope(P, f): continue
            for i in P.calls(f):
                c = P.callee(i)
                pos = SINK.get(c) if c in SINK else contract.get(c)
                if pos is None or len(i.a) <= 1 + pos or (f.key, i.uid) in done: continue
                done.add((f.key, i.uid))
                nsites += 1
                for r in roots(P, f, i.a[1 + pos]):
                    if r[0] in ('lit', 'null'): continue
                    if r[0] == 'par':
                        if f.varargs or f.internal or takes_valist(P, f):
                            if f.key not in contract:
                                contract[f.key] = r[1]; work = True
                            elif contract[f.key] != r[1]:
                                R.violation('format|%s|%s' % (f.name, c.split('@')[0]), P.where(i),
                                            'two different parameters of %s are used as formats' % f.name)
                            continue
                        what = 'parameter %s, text from the caller' % (f.argnames.get(r[1] + 1) or f.params[r[1]][1])
                    else: what = r[1]
                    R.violation('format|%s|%s' % (f.name, c.split('@')[0]), P.where(i),
                                'the format argument of %s is %s, not a literal' % (c.split('@')[0], what))
    R.count('format_call_sites', nsites)
    R.count('printf_like_functions_of_the_library', len(contract))
    R.note('printf-like functions found: ' + ', '.join(sorted(contract)))
    if nsites < 300: raise AnalysisError('only %d formatted-output call sites found' % nsites)
    for need in ('apop_text_set', 'apop_query', 'apop_query_to_text'):
        if need in P.fns and need not in contract: raise AnalysisError('%s no longer recognised as printf-like' % need)

def takes_valist(P, f):
    return any('va_list' in (n or '') for _, n, _ in f.params)
