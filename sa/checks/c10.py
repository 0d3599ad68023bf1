"""Field-sensitive points-to and effect analysis, composed bottom-up over the call graph: what each public function and each method of a model may store to or free, as a field path from its arguments, against the arguments it is there to change"""
import os, signal, multiprocessing as mp
from .. import flow
from ..prog import AnalysisError
BUDGET = 100
SLOW = ('apop_rake', 'apop_data_sort', 'apop_estimate_OLS', 'apop_map', 'apop_data_to')       # first

# Public function -> what it may change: argument (by position) and the path of fields from it. '~' is a change by a method of the user's model.
# A function that is listed without arguments changes nothing it is handed. With a list of cases: {argument: value} and what may be changed then.
Y, N_, V = 121, 110, 118
ALL = {
 'apop_data_add_named_elmt': '0', 'apop_data_add_names': '0', 'apop_data_add_page': '0 1', 'apop_data_fill': '0', 'apop_data_free': '0', 'apop_data_memcpy': '0',
 'apop_data_prune_columns': '0', 'apop_data_rm_columns': '0', 'apop_data_rm_page': '0', 'apop_data_rm_rows': '0', 'apop_data_pack': '1', 'apop_data_set': '0', 'apop_data_unpack': '1',
 'apop_data_pmf_compress': '0', 'apop_data_to_factors': '0', 'apop_det_and_inv': '1', 'apop_linear_constraint': '0', 'apop_matrix_mean_and_var': '1 2',
 'apop_matrix_pca': '0', 'apop_matrix_realloc': '0', 'apop_matrix_to_positive_semidefinite': '0', 'apop_model_clear': '1', 'apop_model_free': '0', 'apop_model_draws': '2 ~2',
 'apop_name_add': '0', 'apop_name_free': '0', 'apop_name_stack': '0', 'apop_regex': '2', 'apop_settings_copy_group': '0', 'apop_settings_group_alloc': '0', 'apop_settings_group_alloc_wm': '0',
 'apop_settings_remove_group': '0', 'apop_text_alloc': '0', 'apop_text_fill': '0', 'apop_text_free': '0', 'apop_text_set': '0', 'apop_vector_fill': '0', 'apop_vector_realloc': '0',
 'apop_model_fix_params_get_base': '0', 'apop_estimate_parameter_tests': '0.info 0.settings', 'apop_estimate_restart': '0 1', 'apop_prep': '1 ~0 ~1', 'apop_estimate': '~0',
 'apop_maximum_likelihood': '1 ~0 ~1', 'apop_score': '1 2 ~2', 'apop_numerical_gradient': '1 ~1', 'apop_model_numerical_covariance': '1 ~1', 'apop_model_fix_params': '0',
 'apop_predict': '0 1.more', 'apop_ml_impute': '0 1.more', 'apop_cdf': '1.settings ~0 ~1', 'apop_draw': '0 ~0 2.settings 2.draw 2.error ~2', 'apop_arms_draw': '0 2.settings',
 'apop_model_metropolis': '~0 ~2 2.parameters 2.settings', 'apop_update': '~0 ~1 ~2 1.settings 2.parameters',
 'apop_parameter_model': '1.settings 1.info 1.parameters 1.more', 'apop_jackknife_cov': '1.more',
 'apop_bootstrap_cov': '1.more 6',
 'apop_map': [({14: N_}, ''), ({14: V}, ''), ({}, '0')],
 'apop_data_sort': [({3: N_}, ''), ({}, '0')], 'apop_data_transpose': [({2: N_}, ''), ({}, '0')], 'apop_data_listwise_delete': [({1: N_}, ''), ({}, '0')],
 'apop_data_stack': [({3: 0}, ''), ({}, '0')], 'apop_matrix_stack': [({3: N_}, ''), ({}, '0')], 'apop_vector_stack': [({2: N_}, ''), ({}, '0')],
 'apop_data_to_dummies': '0',
 'apop_vector_normalize': [({1: 'given'}, '1'), ({1: 'null'}, '0')],
 'apop_data_to_bins': [({1: 'given'}, ''), ({1: 'null'}, '')], 'apop_model_to_pmf': '1',      # hands binspec on to apop_data_to_bins
}
for _n in '''apop_anova apop_array_to_vector apop_beta_from_mean_var apop_crosstab_to_db apop_data_alloc apop_data_calloc apop_data_copy apop_data_correlation apop_data_covariance apop_data_get
 apop_data_get_factor_names apop_data_get_page apop_data_print apop_data_ptr apop_data_rank_compress apop_data_rank_expand apop_data_show apop_data_split apop_data_summarize apop_data_to_db apop_db_close
 apop_db_open apop_db_to_crosstab apop_dot apop_estimate_coefficient_of_determination apop_f_test apop_generalized_harmonic apop_histograms_test_goodness_of_fit apop_kl_divergence apop_log_likelihood
 apop_map_sum apop_matrix_apply apop_matrix_apply_all apop_matrix_copy apop_matrix_determinant apop_matrix_inverse apop_matrix_is_positive_semidefinite apop_matrix_map apop_matrix_map_all
 apop_matrix_map_all_sum apop_matrix_map_sum apop_matrix_mean apop_matrix_print apop_matrix_show apop_matrix_sum apop_model_copy apop_model_cross apop_model_entropy apop_model_hessian apop_model_mixture
 apop_model_print apop_model_set_parameters apop_model_show apop_multivariate_gamma apop_multivariate_lngamma apop_name_copy apop_name_find apop_name_print apop_p apop_paired_t_test apop_query
 apop_query_to_data apop_query_to_float apop_query_to_mixed_data apop_query_to_text apop_query_to_vector apop_rake apop_settings_get_grp apop_system apop_t_test apop_table_exists apop_test_anova_independence
 apop_test apop_test_fisher_exact apop_test_kolmogorov apop_text_paste apop_text_to_data apop_text_to_db apop_text_unique_elements apop_vector_apply apop_vector_bounded apop_vector_copy
 apop_vector_correlation apop_vector_cov apop_vector_distance apop_vector_entropy apop_vector_exp apop_vector_kurtosis apop_vector_kurtosis_pop apop_vector_log apop_vector_log10 apop_vector_map
 apop_vector_map_sum apop_vector_mean apop_vector_moving_average apop_vector_percentiles apop_vector_print apop_vector_show apop_vector_skew apop_vector_skew_pop apop_vector_sum apop_vector_to_matrix
 apop_vector_unique_elements apop_vector_var apop_vector_var_m'''.split(): ALL.setdefault(_n, '')
for _n in ('apop_vector_exp', 'apop_vector_log', 'apop_vector_log10', 'apop_vector_apply', 'apop_matrix_apply', 'apop_matrix_apply_all'): ALL.pop(_n)   # change their argument, through a function given

COUNTS = {'apop_pmf_settings_copy': '0.cmf_refct', 'apop_mixture_settings_copy': '0.cmf_refct', 'apop_cdf_settings_copy': '0.draws_refcount'}
# what the methods of a model are there to change
ROLE = {'estimate': '1 ~1', 'p': '1.error', 'log_likelihood': '1.error', 'cdf': '1.error', 'draw': '0 ~0 2.settings 2.error', 'constraint': '1.parameters', 'prep': '1 ~0 ~1', 'apop_score': '1', 'apop_predict': '0 ~0',
        'apop_model_print': '0.error', 'apop_parameter_model': '', 'apop_entropy': '', 'apop_update': ''}
# exceptions: method -> what else it changes, with the reason
ALSO = {
 'apop_loess_est': '0.weights',              # the workspace it hands over starts out as the given weights
 'apop_kernel_estimate': '~0',               # prepares the model underneath
 'multinomial_log_likelihood': '1.parameters.vector', 'multinomial_rng': '2.parameters.vector', 'multinomial_show': '0.parameters.vector',    # n gives way to p_0 and is put back
 'pmf_cmf': '1.settings 1.error',            # cumulates on first use
 'ols_prep': '0', 'probit_prep': '0', 'logit_prep': '0',          # documented: the data set is put into shape for the regression
 'multiprobit_log_likelihood': '0', 'multilogit_log_likelihood': '1.data 0.vector', 'multilogit_expected': '1.data', 'probit_dlog_likelihood': '2 ~2',      # the table of categories is made on first use
 'ols_print': '0.info',
 # models made on other models keep those in their settings or in what they carry along, and set them to the parameters in hand
 'cross_est': '0.more 0[]', 'cross_ll': '0.more 0[]', 'cross_p': '0.more 0[]',           # the second data set is cut off and put back
 'apop_fn_for_infomatrix': '1.more ~1.more', 'product_constraint': '1.more', 'product_ll': '1.more',
 'fix_params_constraint': '1.settings', 'fix_params_ll': '1.settings', 'fix_params_p': '1.settings', 'fixed_param_show': '0.settings',
 'dc_ll': '1.settings', 'mixture_cdf': '1.settings', 'mixture_log_likelihood': '1.settings', 'mixture_constraint': '1.settings',
 'i_ll': '1.more', 'i_p': '1.more', 'i_constraint': '0 1.more',            # for imputation, the parameters are the data set with gaps
 'normnorm': '~0',
}
GIVEN = {('struct.apop_lm_settings', 'destroy_data'): N_}       # the user did not give the data up

def allowed(w, text, allow):
    """is the change w, described from its argument on, within what is listed"""
    path = str(w[0]) + text
    for a in allow.split():
        m = a.startswith('~')
        if m and w[3] != 'm': continue
        a = a.lstrip('~')
        if path == a or path.startswith((a + '.', a + '[')): return True
    return False

def describe(F, n, w):
    t, _ = F.describe(n, w[0], w[1], w[2])
    return t, t[len(F.P.fns[n].params[w[0]][1]):] if not isinstance(w[0], tuple) else t

def methods(P):
    """(function, what it is) for what the library's models are made of"""
    fl = P.fields['struct.apop_model']; names = [fl[o] for o in sorted(fl)]
    out = set()
    for g in P.globals.values():
        i = g['init']
        if g.get('type') == ('named', 'struct.apop_model') and i and i[0] == 'agg':
            for nm, (t, v) in zip(names, i[1]):
                if v[0] == 'g' and v[1] in P.fns and nm in ROLE: out.add((v[1], nm))
    for f in P.fns.values():
        for i in P.calls(f):
            if P.callee(i) == 'apop_vtable_add' and i.a[1][0] == 'g' and i.a[2][0] == 'g' and i.a[2][1] in P.fns:
                r = P.string(i.a[1][1])
                if r in ROLE: out.add((i.a[2][1], r))
    return sorted(out)

class Late(Exception): pass
def _late(*a): raise Late()
def _job(a):
    n, cs, allow, label, given = a
    signal.signal(signal.SIGALRM, _late); signal.alarm(BUDGET)
    try:
        F = flow.Flow(_P)
        if given: F.given = dict(GIVEN)
        s = F.get(n, cs); bad = []
        for w in sorted(s.writes, key=repr):
            t, p = describe(F, n, w)
            if not allowed(w, p, allow): bad.append((t, w[3], F.sites.get((n, w), _P.fns[n].file)))
        signal.alarm(0)
        return label, n, len(s.writes), bad, len(F.sums)
    except Late: return label, n, None, [], 0

def run(P, R, tier):
    global _P
    _P = P; jobs = []; seen = 0
    for n, cases in sorted(ALL.items()):
        k = n + '_base' if n + '_base' in P.fns else n
        if k not in P.fns: continue
        seen += 1
        f = P.fns[k]
        for cs, allow in ([({}, cases)] if isinstance(cases, str) else cases):
            c = {('a', x): v for x, v in cs.items()}
            if any(x[1] >= len(f.params) for x in c): continue
            names = ', '.join('%s %s' % (f.params[x][1], v if isinstance(v, str) else "'%c'" % v if v > 9 else v) for x, v in cs.items())
            jobs.append((k, c, allow, n + (' with ' + names if names else ''), False))
    ms = methods(P)
    for k, role in ms:
        allow = ROLE[role]; nm = P.fns[k].name
        if nm in ALSO: allow += ' ' + ALSO[nm]
        jobs.append((k, {}, allow, '%s (%s)' % (nm, role), True))
    if seen < 150 or len(ms) < 90: raise AnalysisError('only %d functions and %d methods found' % (seen, len(ms)))
    und = []; tot = 0; sums = 0
    for k, f in sorted(P.fns.items()):
        if k.endswith('_settings_copy'): jobs.append((k, {}, COUNTS.get(k, ''), k, False))
    jobs.sort(key=lambda j: not j[0].startswith(SLOW))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as pool:
        for label, n, w, bad, ns in pool.imap_unordered(_job, jobs, chunksize=1):
            if w is None: und.append(label); continue
            tot += w; sums += ns
            short = {}
            for t, kind, site in bad: short.setdefault(site, []).append((t, kind))
            for site, ts in sorted(short.items()):
                words = ', '.join(sorted({('frees ' if k == 'f' else 'lets a method change ' if k == 'm' else 'changes ') + t for t, k in ts})[:4])
                R.violation('input|%s|%s' % (label.split(' with ')[0].split(' (')[0], sorted(t for t, k in ts)[0]), site, '%s %s, which it is to leave as it is' % (label, words))
    R.count('public_functions', seen); R.count('methods', len(ms)); R.count('cases_decided', len(jobs) - len(und)); R.count('cases_undecided', len(und)); R.count('effects_listed', tot); R.count('summaries', sums)
    if und: R.note('No answer within the time for: %s.' % ', '.join(sorted(und)))
    if len(und) > 20: raise AnalysisError('no answer for %d of %d' % (len(und), len(jobs)))
    R.assume.append('functions given by the caller change nothing themselves; estimation, drawing and likelihood called on a model stay within their own contracts, each of which is decided on its own')
