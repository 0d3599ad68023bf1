"""Field-sensitive points-to analysis, composed bottom-up over the call graph: what the result of each public function, and each argument after the call, has a pointer to in the other arguments, against the sharing that is documented"""
import os, signal, multiprocessing as mp
from .. import flow
from ..prog import AnalysisError
from . import c10
Y, N_, V = 121, 110, 118

# Public function -> sharing that it is there for: place <- other argument, each with a path of fields ('r' is the result). What is not listed shares nothing.
MODEL = 'r.data<-%d.data r.settings<-%d.settings'      # a copy of a model points to the same data; settings without a copy method are handed on as they are
SHARE = {
 'apop_data_add_page': '0.more<-1 r<-1', 'apop_data_fill': 'r<-0', 'apop_data_get_factor_names': 'r<-0', 'apop_data_get_page': 'r<-0', 'apop_data_rm_page': 'r<-0.more', 'apop_data_pack': 'r<-1',
 'apop_data_pmf_compress': 'r<-0', 'apop_data_prune_columns': 'r<-0', 'apop_data_ptr': 'r<-0.matrix.data r<-0.vector.data', 'apop_data_rm_rows': 'r<-0',
 'apop_data_to_factors': 'r<-0 r.vector<-0.vector', 'apop_data_to_dummies': 'r<-0 r.matrix<-0.matrix', 'apop_matrix_realloc': 'r<-0', 'apop_vector_realloc': 'r<-0', 'apop_text_alloc': 'r<-0', 'apop_text_fill': 'r<-0', 'apop_vector_fill': 'r<-0',
 'apop_data_sort': [({3: N_}, ''), ({3: Y}, 'r<-0')], 'apop_data_transpose': [({2: N_}, ''), ({2: Y}, 'r<-0 r.names<-0.names')], 'apop_data_listwise_delete': [({1: N_}, ''), ({1: Y}, 'r<-0')],
 'apop_data_stack': [({3: 0}, ''), ({}, 'r<-0 r.vector<-0.vector r.matrix<-0.matrix r.weights<-0.weights')], 'apop_matrix_stack': [({3: N_}, ''), ({3: Y}, 'r<-0')], 'apop_vector_stack': [({2: N_}, ''), ({2: Y}, 'r<-0')],
 'apop_map': [({14: N_}, ''), ({14: V}, ''), ({}, 'r<-0 r.more<-0.more')],
 'apop_vector_normalize': [({1: 'given'}, ''), ({1: 'null'}, '')],
 'apop_estimate': MODEL % (1, 1) + ' r.data<-0', 'apop_model_copy': MODEL % (0, 0), 'apop_model_set_parameters': MODEL % (0, 0), 'apop_model_set_parameters_base': MODEL % (0, 0),
 'apop_model_clear': 'r<-1 1.data<-0', 'apop_prep': '1.data<-0', 'apop_maximum_likelihood': '1.data<-0', 'apop_model_draws': 'r<-2', 'apop_predict': 'r<-0', 'apop_parameter_model': '', 'apop_model_metropolis': MODEL % (2, 2),
 # models made of models keep those they are made of
 'apop_model_fix_params': MODEL % (0, 0) + ' r.settings[]<-0', 'apop_model_fix_params_get_base': 'r<-0.settings', 'apop_model_mixture': 'r.settings[]<-0[]', 'apop_model_cross': 'r.data<-0[] r.settings<-0[]',
 'apop_estimate_restart': MODEL % (0, 0) + ' r<-0 r<-1',        # the better of the two, the second kept in what is given for it
 'apop_ml_impute': 'r.data<-1.parameters r.parameters<-0 r.more<-1',        # the model of the gaps: its parameters are the data set
 'apop_settings_copy_group': '0.settings<-1.settings', 'apop_settings_get_grp': 'r<-0.settings', 'apop_settings_group_alloc': '0.settings<-2 0.settings<-3 0.settings<-4 r<-0.settings r<-4', 'apop_settings_group_alloc_wm': '0.settings<-2 0.settings<-3 0.settings<-4 r<-0',
}
ROLE = {'estimate': '1.data<-0', 'prep': '1.data<-0', 'apop_predict': 'r<-0', 'apop_update': 'r.data<-1.data r.settings<-1.settings'}
ALSO = {
 'apop_loess_est': '1.settings<-0', 'apop_kernel_estimate': '1.settings<-0',        # fit on demand, from the data set
 'i_est': '1.more<-0', 'i_ll': '1.more<-0', 'i_p': '1.more<-0', 'i_constraint': '1.more<-0',     # imputation: the data set is the parameters
}

# members of a settings group that the copy shares and the free function releases when the last one goes: counted, or owned by one of them only
COUNTED = {'apop_pmf': ('cmf', 'cmf_refct'), 'apop_mixture': ('cmf', 'cmf_refct', 'model_list'), 'apop_cdf': ('draws_made', 'draws_refcount')}

def left(f, off):
    """does the copy keep, on a way through the copying function, the pointer at off that came over with the struct? What is decided by members of the original itself (owned or not, there or not) is for the releasing function to follow"""
    D = f.defs() if hasattr(f, 'defs') else {i.res: i for l in f.order for i in f.blocks[l].insts if i.res}
    def place(v):
        if v[0] == 'l':
            d = D.get(v[1])
            if d is not None and d.op == 'getelementptr' and not d.x[1][1]: b, o = place(d.a[0]); return b, o + d.x[1][0]
        return v, 0
    def member(v, deep=0):
        """made from members of the original and constants alone"""
        if v[0] in 'if': return True
        d = D.get(v[1]) if v[0] == 'l' else None
        if d is None or deep > 6: return False
        if d.op == 'load': b, _ = place(d.a[0]); return b in (('l', f.params[0][1]), dst)
        return d.op in ('icmp', 'fcmp', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'phi', 'select', 'ptrtoint') and all(member(x, deep + 1) for x in d.a)
    start = dst = None; st = set()
    for l in f.order:
        for n, i in enumerate(f.blocks[l].insts):
            if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1].startswith('llvm.memcpy') and place(i.a[2]) == (('l', f.params[0][1]), 0) and start is None: start, dst = (l, n + 1), place(i.a[1])[0]
    if start is None: return False
    st = {id(i) for l in f.order for i in f.blocks[l].insts if i.op == 'store' and place(i.a[1]) == (dst, off)}
    if not st: return False                     # no copy here at all: the points-to analysis tells
    def reach(l, n=0, seen=None):
        seen = set() if seen is None else seen; p = [(l, n)]
        while p:
            l, n = p.pop()
            if any(id(i) in st for i in f.blocks[l].insts[n:]): return True
            for q in f.blocks[l].succs:
                if q not in seen: seen.add(q); p.append((q, 0))
        return False
    pend = [start]; seen = set()
    while pend:
        l, n = pend.pop(); b = f.blocks[l]
        if any(id(i) in st for i in b.insts[n:]): continue
        t = b.insts[-1]
        if t.op == 'ret': return True
        nx = list(b.succs)
        if len(nx) > 1:
            go = [q for q in nx if reach(q)]
            if member(t.a[0]):
                if not go: continue             # past the copying, which a member decided on
                nx = go
        for q in nx:
            if q not in seen: seen.add(q); pend.append((q, 0))
    return False

def groups(P, R):
    """what the copy of a settings group shares with the original must not be what releasing either of them releases"""
    n = 0
    for k, f in sorted(P.fns.items()):
        if not k.endswith('_settings_copy'): continue
        g = k[:-len('_settings_copy')]; fr = g + '_settings_free'
        if fr not in P.fns: continue
        n += 1; F = flow.Flow(P); s = F.get(k, {}); gone = [w for w in F.get(fr, {}).writes if w[0] == 0 and w[3] == 'f' and w[1]]
        for a, p, b, q in sorted(F.shares(k, s), key=repr):
            if a != 'r' or b != 0 or not q: continue
            t = F.describe(k, b, q)[0]
            if t.split('.')[1] in COUNTED.get(g, ()): continue
            hit = [w for w in gone if w[1][:len(q)] == q]
            if hit: R.violation('settings|%s|%s' % (g, t), '%s:%s:%s' % (f.file, f.name, f.line), "the copy of %s settings shares %s with the original, and %s releases it for both" % (g, t, fr))
        for off in sorted({w[1][0] for w in gone if isinstance(w[1][0], int)}):
            t = F.describe(k, 0, (off,))[0]; d = t.split('.')[1] if '.' in t else ''
            if d not in COUNTED.get(g, ()) and left(f, off):
                R.violation('settings|%s|%s' % (g, t), '%s:%s:%s' % (f.file, f.name, f.line), "on a way through, the copy of %s settings still has the original's %s, and %s releases it for both" % (g, t, fr))
    if n < 10: raise AnalysisError('only %d settings groups found' % n)
    R.count('settings_groups', n)

def allowed(a, b, allow):
    for x in allow.split():
        d, s = x.split('<-')
        if all(q == p or q.startswith((p + '.', p + '[')) for p, q in ((d, a), (s, b))): return True
    return False

def _job(j):
    n, cs, allow, label, given = j
    signal.signal(signal.SIGALRM, c10._late); signal.alarm(c10.BUDGET)
    try:
        F = flow.Flow(_P)
        if given: F.given = dict(c10.GIVEN)
        s = F.get(n, cs); bad = []; k = 0
        f = _P.fns[n]
        def words(a, p):
            t, _ = F.describe(n, a, p)
            return t, ('r' + t[len('result'):] if a == 'r' else str(a) + t[len(f.params[a][1]):] if isinstance(a, int) else t)
        for a, p, b, q in sorted(F.shares(n, s), key=repr):
            k += 1
            ta, pa = words(a, p); tb, pb = words(b, q)
            if not allowed(pa, pb, allow): bad.append((ta, tb))
        signal.alarm(0)
        return label, n, k, bad, len(F.sums)
    except c10.Late: return label, n, None, [], 0

def run(P, R, tier):
    global _P
    _P = P; jobs = []; seen = 0
    for n in sorted(set(c10.ALL) | set(SHARE)):
        k = n + '_base' if n + '_base' in P.fns else n
        if k not in P.fns: continue
        seen += 1; f = P.fns[k]; cases = SHARE.get(n, '')
        for cs, allow in ([({}, cases)] if isinstance(cases, str) else cases):
            c = {('a', x): v for x, v in cs.items()}
            if any(x[1] >= len(f.params) for x in c): continue
            names = ', '.join('%s %s' % (f.params[x][1], v if isinstance(v, str) else "'%c'" % v if v > 9 else v) for x, v in cs.items())
            jobs.append((k, c, allow, n + (' with ' + names if names else ''), False))
    ms = c10.methods(P)
    for k, role in ms:
        nm = P.fns[k].name
        jobs.append((k, {}, ROLE.get(role, '') + ' ' + ALSO.get(nm, ''), '%s (%s)' % (nm, role), True))
    groups(P, R)
    if seen < 150 or len(ms) < 90: raise AnalysisError('only %d functions and %d methods found' % (seen, len(ms)))
    und = []; tot = 0; sums = 0
    jobs.sort(key=lambda j: not j[0].startswith(c10.SLOW))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as pool:
        for label, n, k, bad, ns in pool.imap_unordered(_job, jobs, chunksize=1):
            if k is None: und.append(label); continue
            tot += k; sums += ns
            who = label.split(' with ')[0].split(' (')[0]; f = P.fns[n]; site = '%s:%s:%s' % (f.file, f.name, f.line)
            by = {}
            for a, b in bad: by.setdefault(b.split('.')[0].split('[')[0], []).append((a, b))
            for b, l in sorted(by.items()):
                R.violation('shared|%s|%s<-%s' % ((who,) + l[0]), site, '%s: %s, which nothing documents' % (label, ', '.join('%s has a pointer to %s' % x for x in l[:3])))
    R.count('public_functions', seen); R.count('methods', len(ms)); R.count('cases_decided', len(jobs) - len(und)); R.count('cases_undecided', len(und)); R.count('shared_places_listed', tot); R.count('summaries', sums)
    if und: R.note('No answer within the time for: %s.' % ', '.join(sorted(und)))
    if len(und) > 20: raise AnalysisError('no answer for %d of %d' % (len(und), len(jobs)))
    R.assume.append('functions given by the caller hand on nothing of what they get; an array is one cell, so elements of one array are not told apart')
