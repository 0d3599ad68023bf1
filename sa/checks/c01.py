"""Path-sensitive typestate over the IR: on every exit of every entry point the GSL error handler, the signal handlers and every field of the option block hold the value they had on entry"""
from .. import engine, mods
from ..prog import AnalysisError
OPT = ('G', 'apop_opts')
# functions whose documented purpose is to set one of these: {function: (fields or handlers)}
SETTERS = {}

class C(engine.Client):
    inline_depth = 5
    max_states = 10
    budget = 300000
    def __init__(self, P, touch): self.P = P; self.touch = touch
    def want_inline(self, E, f, args, dep): return f.key in self.touch and not self.P.public(f.key)
    def join_key(self, st):
        return (tuple(sorted(st.cl.items(), key=repr)), tuple(sorted((k[1], v) for k, v in st.mem.items() if k[0] == OPT and isinstance(k[1], int))))
    def on_deref(self, E, st, ins, a, what): return not E.isnull(st, a)
    def null_call(self, E, st, ins, a): return False
    def on_call(self, E, st, ins, name, args, ctx):
        if name == 'gsl_set_error_handler':
            old = st.cl.get('gsl', ('s', ('par', 'gsl-handler')))
            st.cl['gsl'] = args[0]; st.cl['at:gsl'] = ('i', ins.line)
            if st.cl['gsl'] == ('s', ('par', 'gsl-handler')): del st.cl['gsl'], st.cl['at:gsl']
            return [(st, old)]
        if name == 'gsl_set_error_handler_off':
            old = st.cl.get('gsl', ('s', ('par', 'gsl-handler')))
            st.cl['gsl'] = ('i', 0); st.cl['at:gsl'] = ('i', ins.line)
            return [(st, old)]
        if name in ('signal', 'bsd_signal', 'sysv_signal', '__sysv_signal') and len(args) == 2:
            k = 'signal %s' % (args[0][1] if args[0][0] == 'i' else '?')
            init = ('s', ('par', k))
            old = st.cl.get(k, init)
            f = st.facts.get(init, engine.ANY)
            st.facts[init] = (f[0], f[1], f[2] | {-1})     # signal() succeeds: what it returns is not SIG_ERR
            st.cl[k] = args[1]; st.cl['at:' + k] = ('i', ins.line)
            if args[1] == init: del st.cl[k], st.cl['at:' + k]
            return [(st, old)]
        return None
    def drop_fact(self, k): return False

def touches(P, f):
    for i in P.insts(f):
        if i.op == 'store' and i.a[1][0] == 'g' and i.a[1][1] == 'apop_opts' : return True
        if i.op == 'call':
            c = P.callee(i)
            if c in ('gsl_set_error_handler', 'gsl_set_error_handler_off', 'signal', 'bsd_signal', 'setlocale', 'umask', 'chdir', 'sigaction'): return True
            for a in i.a[1:]:
                if a[0] == 'g' and a[1] == 'apop_opts' and c not in P.fns and not (c or '').startswith(('fprintf', 'printf', 'str')): return True
                if a[0] == 'g' and a[1] == 'apop_opts' and c in P.fns: return True
    return False

def run(P, R, tier):
    base = {k for k, f in P.fns.items() if touches(P, f) and not f.unit.startswith('cmd/')}
    # log_file's lazy default (NULL -> stderr) alone does not make a function interesting
    def real(f):
        for i in P.insts(f):
            if i.op == 'store' and i.a[1][0] == 'g' and i.a[1][1] == 'apop_opts':
                if P.field('struct.apop_opts_type', i.a[1][2]) != 'log_file' or not (i.a[0][0] == 'l'): return True
            if i.op == 'call' and P.callee(i) in ('gsl_set_error_handler', 'gsl_set_error_handler_off', 'signal', 'bsd_signal', 'sigaction'): return True
        return False
    touch = {k for k in base if real(P.fns[k])}
    direct = set(touch)
    # close over callers through functions that would be inlined
    work = True
    callers = P.callers()
    while work:
        work = False
        for k in list(touch):
            if P.public(k): continue
            for c in callers.get(k, ()):
                if c not in touch and not P.fns[c].unit.startswith('cmd/'): touch.add(c); work = True
    M = mods.compute(P)
    taken = P.taken()
    entries = [k for k in sorted(touch) if P.public(k) or k in taken or k not in callers]
    npaths = 0; nset = 0
    for k in entries:
        f = P.fns[k]
        c = C(P, touch)
        E = engine.Engine(P, c, M)
        try:
            rs = E.run(k)
        except engine.Budget:
            R.note('%s: state budget exceeded, not decided.' % k); R.count('undecided', 1, True); continue
        npaths += len(rs)
        for st, v in rs:
            for g, val in st.cl.items():
                if g.startswith('at:'): continue
                nm = 'the GSL error handler' if g == 'gsl' else 'the handler of ' + g
                R.violation('restore|%s|%s' % (f.name, g), '%s:%s:%s' % (f.file, f.name, st.cl.get('at:' + g, ('i', 0))[1]),
                            '%s set here is not the one found on entry at some exit of the function' % nm)
            for (b, o), val in st.mem.items():
                if b != OPT or not isinstance(o, int): continue
                if val == ('s', ('ld', OPT, o)): continue
                fd = P.field('struct.apop_opts_type', o) or str(o)
                init = st.facts.get(('s', ('ld', OPT, o)))
                if val[0] == 'i' and init is not None and init[0] == init[1] == val[1]: continue
                if fd == 'db_engine' and init is not None and init[0] == init[1] == 0: continue   # an engine not yet chosen is being chosen
                if fd == 'log_file' and val == ('s', ('ld', ('G', 'stderr'), 0)): continue
                if fd == 'rng_seed': continue
                R.violation('restore|%s|apop_opts.%s' % (f.name, fd), '%s:%s' % (f.file, f.name),
                            'apop_opts.%s is left changed at some exit' % fd)
        R.sample('%s: %d exit states' % (k, len(rs)))
    R.count('functions_that_change_global_state', len(direct)); R.count('entry_points_analysed', len(entries)); R.count('exit_states', npaths)
    R.note('Entry points: ' + ', '.join(entries) + '.')
    if len(entries) < 5: raise AnalysisError('only %d functions touch global state' % len(entries))
