"""Abstract interpretation of every designated-argument front with distinct symbolic arguments: each argument reaches the implementation's parameter of the same name, and no other; declaration, definition and front agree on the order"""
from .. import mods, designated as D
from ..prog import AnalysisError
from .c12 import names, unknown
# (function, parameter): what may reach the implementation instead of the argument itself, with the reason
ALLOW = {
 ('apop_data_get', 'data'): {'ret:variadic_apop_data_get_page'}, ('apop_data_ptr', 'data'): {'ret:variadic_apop_data_get_page'}, ('apop_data_set', 'data'): {'ret:variadic_apop_data_get_page'},
 ('apop_data_get', 'row'): {'ret:apop_name_find'}, ('apop_data_ptr', 'row'): {'ret:apop_name_find'}, ('apop_data_set', 'row'): {'ret:apop_name_find'},
 ('apop_data_get', 'col'): {'ret:apop_name_find'}, ('apop_data_ptr', 'col'): {'ret:apop_name_find'}, ('apop_data_set', 'col'): {'ret:apop_name_find'},
 ('apop_data_get_page', 'match'): {'101', '114', '99'},                       # one of e, r, c
 ('apop_data_pack', 'more_pages'): {'121'}, ('apop_data_pack', 'use_info_pages'): {'121'},   # compared with 'y' first
 ('apop_data_stack', 'posn'): {'114', '99'}, ('apop_data_stack', 'inplace'): {'0', '1'},
 ('apop_data_to_dummies', 'type'): {'116'}, ('apop_data_to_dummies', 'remove'): {'121'},
 ('apop_model_draws', 'count'): {'arg.draws->matrix->size1'},                  # documented: the given matrix decides
 ('apop_text_to_data', 'has_row_names'): {'121'}, ('apop_text_to_data', 'has_col_names'): {'121'},
 ('apop_text_to_db', 'has_row_names'): {'121'}, ('apop_text_to_db', 'has_col_names'): {'121'},
 ('apop_text_to_db', 'tabname'): {'new:strdup'},
 # the output target is settled jointly from the four output arguments
 ('apop_data_print', 'output_pipe'): {'ret:fopen', 'new:fopen', 'stdout', '*stdout'}, ('apop_data_print', 'output_type'): {'100', '112', '102', '115'}, ('apop_data_print', 'output_append'): {'97', '119'},
}
for _n in ('apop_matrix_print', 'apop_vector_print'):
    for _p in ('output_pipe', 'output_type', 'output_append'): ALLOW[(_n, _p)] = ALLOW[('apop_data_print', _p)]

def run(P, R, tier):
    M = mods.compute(P); ns = names(P); obl = 0
    for n in ns:
        f = P.fns['variadic_' + n]; b = P.fns[n + '_base']
        fl = P.fields.get('struct.variadic_type_' + n, {})
        decl = [fl[o] for o in sorted(fl)]
        par = [p[1] for p in b.params]
        if par != decl:
            R.violation('order|%s' % n, '%s:%s' % (b.file, n), 'declared with arguments (%s), defined with (%s)' % (', '.join(decl), ', '.join(par)))
            if sorted(par) != sorted(decl): continue
        for om in [None] + decl:
            calls, rets = D.front(P, M, n, (om,) if om else ())
            for q in decl:
                if q == om: continue
                got = {c.get(q) for c in calls}
                if not got: continue
                obl += 1
                bad = {t for t in got if t != 'arg.' + q and not unknown(t) and t not in ALLOW.get((n, q), ())}
                # a value that is another argument is always wrong; a constant or derived value only when never the argument itself
                for t in sorted(bad):
                    R.violation('arg|%s|%s' % (n, q), '%s:%s' % (f.file, n), 'argument %s reaches the implementation as %s%s' % (q, t, ' (with %s omitted)' % om if om else ''))
                if not om and 'arg.' + q not in got and not any(unknown(t) for t in got) and not (n, q) in ALLOW:
                    R.violation('arg|%s|%s' % (n, q), '%s:%s' % (f.file, n), 'argument %s never reaches the implementation' % q)
    R.count('functions_with_designated_arguments', len(ns)); R.count('argument_obligations', obl)
    if len(ns) < 60 or obl < 800: raise AnalysisError('only %d functions, %d obligations' % (len(ns), obl))
