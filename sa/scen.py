"""Scenario evaluation: run one function abstractly with chosen facts about its inputs, and render abstract values readably
(independent of instruction numbers, local names and the order of statements)."""
from . import engine, mods
from .engine import ZERO

class Base(engine.Client):
    inline_depth = 3
    max_states = 12
    budget = 150000
    def on_deref(self, E, st, ins, a, what): return not E.isnull(st, a)

def short(P, E, st, v, names=(), d=0):
    """a value as text"""
    if v is None: return 'void'
    v = E.resolve(st, v)
    k = v[0]
    if k == 'i': return str(v[1])
    if k == 'f':
        try: return repr(float(v[1]))
        except ValueError: return v[1]
    if k == 'np': return 'NULL+?'
    if k == 'u': return 'undefined'
    if k == 'c': return '(%s %s %s)' % (short(P, E, st, v[2], names, d + 1), v[1], short(P, E, st, v[3], names, d + 1))
    if k == 'p': return '&' + place(P, E, st, v[1], v[2], names, d + 1)
    return sym(P, E, st, v[1], names, d)

def place(P, E, st, b, off, names, d):
    k = b[0]
    if k == 'G':
        s = P.string(b[1])
        if s is not None and isinstance(off, int): return '"%s"' % s[off:]
        fd = None
        if b[1] == 'apop_opts' and isinstance(off, int): fd = P.field('struct.apop_opts_type', off)
        return (b[1] + '.' + fd) if fd else '%s%s' % (b[1].split('@')[0], '+%s' % off if off else '')
    if k == 'F': return b[1].split('@')[0]
    if k == 'B': return 'arg.%s' % fieldname(E, P, b, off)
    if k == 'A': return 'local'
    s = sym(P, E, st, b[1], names, d)
    if off == 0: 
        fd = fieldname(E, P, b, off)
        return '%s->%s' % (s, fd) if fd != '0' else '*' + s
    return '%s->%s' % (s, fieldname(E, P, b, off))

def fieldname(E, P, b, off):
    if not isinstance(off, int): return '?'
    ct = E.ctype.get((b, off))
    if ct:
        fd = P.field(ct[0], ct[1])
        if fd: return fd
    return str(off)

def sym(P, E, st, s, names, d):
    if d > 8: return '...'
    k = s[0]
    if k == 'par': return str(s[2]) if len(s) > 2 else str(s[1])
    if k in ('ld', 'un'): return place(P, E, st, s[1], s[2], names, d + 1).lstrip('&') + ("'" if len(s) > 3 else '')
    if k == 'h': return 'new:%s' % s[1]
    if k == 'ret': return 'ret:%s' % (s[1].split('@')[0] if s[1] else 'indirect')
    if k == 'b' and s[1] == 'fptosi' and s[2][0] == 's' and s[2][1][:2] == ('b', 'sitofp'): return short(P, E, st, s[2][1][2], names, d)
    if k == 'b': return '(%s %s %s)' % (short(P, E, st, s[2], names, d + 1), s[1], short(P, E, st, s[3], names, d + 1))
    if k == 'o': return sym(P, E, st, s[1], names, d + 1)
    return k
