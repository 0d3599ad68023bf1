"""What each designated-argument call hands to its implementation: the front (variadic_X) is run abstractly with one argument
omitted (zero) and the others given, and the arguments that reach X_base are collected over all paths."""
from . import engine, mods, scen, ir
from .engine import ZERO, INF

class C(scen.Base):
    max_states = 40
    def __init__(self, P, target): self.P = P; self.target = target; self.got = []
    def want_inline(self, E, f, args, dep): return f.key != self.target and (f.internal or not self.P.public(f.key))
    def on_call(self, E, st, ins, name, args, ctx):
        if name == self.target:
            self.got.append((st.copy(), list(args)))
            return [(st, ('s', ('ret', name)))]
        return None

def setup_for(P, f, stname, zero, given):
    """argument values and facts: fields in `zero` are 0; fields in `given` are nonzero"""
    B = ('B', 0, f.key, 0)
    fields = P.fields.get(stname, {})
    def setup(E, st, args):
        if len(f.params) == 1 and 'byval' in f.params[0][2]:
            args[0] = ('p', B, 0)
        else:
            off = 0
            for n in range(len(f.params)):
                args[n] = ('agg', B, off, 8); off += 8
        for o, nm in fields.items():
            E.ctype[(B, o)] = (stname, o)
            st.mem[(B, o)] = ('s', ('ld', B, o))
            if nm in zero:
                st.mem[(B, o)] = ZERO if not isdouble(P, stname, o) else ('f', '0.0')
            elif nm in given:
                s = ('s', ('ld', B, o))
                if isdouble(P, stname, o): st.facts[('c', 'fune', s, ('f', '0.0'))] = True
                else: st.facts[s] = (-INF, INF, frozenset((0,)))
    return B, fields, setup

def isdouble(P, stname, off):
    s = P.structs.get(stname)
    for m in P.mods:
        if stname in m.structs:
            t = ('named', stname)
            st = ('st',) + m.structs[stname]
            for i in range(64):
                try: o, ft = ir.field_offset(m, st, i)
                except Exception: break
                if o == off: return ft in ('double', 'float', ('double',), 'x86_fp80')
            break
    return False

def front(P, M, name, zero):
    """run variadic_<name> with the arguments in zero omitted -> (set of {param: text} tuples, set of return texts without a call, B)"""
    f = P.fns['variadic_' + name]; base = P.fns[name + '_base']
    st = 'struct.variadic_type_' + name
    c = C(P, base.key); E = engine.Engine(P, c, M)
    fields = P.fields.get(st, {})
    B, fields, setup = setup_for(P, f, st, set(zero), set(fields.values()) - set(zero))
    rs = E.run(f.key, setup=setup)
    calls = []
    for s, a in c.got:
        calls.append({p[1]: scen.short(P, E, s, v) for p, v in zip(base.params, a)})
    rets = set()
    for s, v in rs:
        t = scen.short(P, E, s, v)
        if not t.startswith('ret:' + base.key): rets.add(t)
    return calls, rets
