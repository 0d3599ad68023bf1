"""Models of functions outside the repository."""
NORETURN = object()

NORET = {'exit', 'abort', '_exit', '__assert_fail', 'longjmp', 'siglongjmp', '__builtin_unreachable'}
ALLOC = {'malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', '__strdup', 'strndup', 'aligned_alloc',
         'gsl_vector_alloc', 'gsl_vector_calloc', 'gsl_matrix_alloc', 'gsl_matrix_calloc', 'gsl_rng_alloc', 'gsl_rng_clone',
         'gsl_permutation_alloc', 'gsl_permutation_calloc', 'gsl_vector_int_alloc', 'gsl_ran_discrete_preproc',
         'gsl_multimin_fdfminimizer_alloc', 'gsl_multimin_fminimizer_alloc', 'gsl_multiroot_fsolver_alloc',
         'gsl_eigen_symmv_alloc', 'gsl_eigen_symm_alloc', 'gsl_integration_workspace_alloc', 'gsl_vector_char_alloc',
         'gsl_histogram_alloc', 'gsl_histogram_clone'}
FREE = {'free', 'gsl_vector_free', 'gsl_matrix_free', 'gsl_rng_free', 'gsl_permutation_free', 'gsl_vector_int_free',
        'gsl_ran_discrete_free', 'gsl_multimin_fdfminimizer_free', 'gsl_multimin_fminimizer_free', 'gsl_multiroot_fsolver_free',
        'gsl_eigen_symmv_free', 'gsl_eigen_symm_free', 'gsl_integration_workspace_free', 'regfree', 'sqlite3_free'}
# arguments that are dereferenced unconditionally (position list)
DEREF = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strncmp': (0, 1), 'strncasecmp': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1),
         'strcat': (0, 1), 'strstr': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strdup': (0,), '__strdup': (0,), 'strtod': (0,), 'atoi': (0,),
         'atof': (0,), 'strtol': (0,), 'strcspn': (0, 1), 'strspn': (0, 1), 'strpbrk': (0, 1), 'sprintf': (0, 1), 'fclose': (0,), 'fputs': (0, 1), 'fputc': (1,),
         'fgets': (0, 2), 'fgetc': (0,), 'getc': (0,), 'regcomp': (0, 1), 'regexec': (0, 1), 'fprintf': (0, 1), 'printf': (0,),
         'strtok': (1,), 'strtok_r': (1, 2),
         'gsl_vector_get': (0,), 'gsl_vector_set': (0,), 'gsl_vector_ptr': (0,), 'gsl_matrix_get': (0,), 'gsl_matrix_set': (0,), 'gsl_matrix_ptr': (0,),
         'gsl_vector_memcpy': (0, 1), 'gsl_matrix_memcpy': (0, 1), 'gsl_vector_set_all': (0,), 'gsl_matrix_set_all': (0,),
         'gsl_vector_set_zero': (0,), 'gsl_matrix_set_zero': (0,), 'gsl_vector_add': (0, 1), 'gsl_vector_sub': (0, 1), 'gsl_vector_mul': (0, 1),
         'gsl_vector_div': (0, 1), 'gsl_vector_scale': (0,), 'gsl_vector_add_constant': (0,), 'gsl_matrix_add': (0, 1), 'gsl_matrix_sub': (0, 1),
         'gsl_matrix_scale': (0,), 'gsl_matrix_add_constant': (0,), 'gsl_matrix_row': (0,), 'gsl_matrix_column': (0,),
         'gsl_matrix_const_row': (0,), 'gsl_matrix_const_column': (0,), 'gsl_matrix_submatrix': (0,), 'gsl_vector_subvector': (0,),
         'gsl_matrix_set_row': (0, 2), 'gsl_matrix_set_col': (0, 2), 'gsl_matrix_get_row': (0, 1), 'gsl_matrix_get_col': (0, 1),
         'gsl_vector_max': (0,), 'gsl_vector_min': (0,), 'gsl_vector_isnull': (0,), 'gsl_matrix_isnull': (0,), 'gsl_matrix_diagonal': (0,),
         'gsl_blas_ddot': (0, 1, 2), 'gsl_blas_dnrm2': (0,), 'gsl_rng_uniform': (0,), 'gsl_rng_uniform_int': (0,),
         'gsl_ran_gaussian': (0,), 'gsl_blas_dgemv': (2, 3, 5), 'gsl_blas_dgemm': (3, 4, 6), 'gsl_matrix_transpose_memcpy': (0, 1),
         'gsl_linalg_LU_decomp': (0, 1, 2), 'gsl_vector_sum': (0,), 'gsl_vector_view_array': (0,), 'sqlite3_step': (0,),
         'gsl_sort_vector': (0,), 'gsl_vector_minmax': (0, 1, 2), 'gsl_vector_reverse': (0,)}
SRET_DEREF_SHIFT = {'gsl_matrix_row', 'gsl_matrix_column', 'gsl_matrix_const_row', 'gsl_matrix_const_column', 'gsl_matrix_submatrix',
                    'gsl_vector_subvector', 'gsl_vector_view_array', 'gsl_matrix_diagonal'}
# write nothing the rules track (besides numeric elements)
QUIET_PREFIX = ('gsl_', 'str', 'printf', 'fprintf', 'sqlite3_', 'mysql_', 'omp_', 'is', 'to', 'f', 'sin', 'cos', 'exp', 'log', 'pow', 'sqrt')
WRITES_ARG = {'sqlite3_open': (1,), 'sqlite3_prepare_v2': (3, 4), 'sqlite3_prepare': (3, 4), 'sqlite3_exec': (4,), 'sqlite3_get_table': (2, 3, 4, 5),
              'asprintf': (0,), 'vasprintf': (0,), 'strtod': (1,), 'strtol': (1,), 'regcomp': (0,), 'getline': (0, 1), 'sscanf': (2, 3, 4, 5, 6),
              'strtok_r': (2,), 'gsl_vector_minmax': (1, 2), 'gsl_linalg_LU_decomp': (2,), 'va_start': (0,), 'fscanf': (2, 3, 4, 5), 'fgets': (0,), 'sprintf': (0,),
              'snprintf': (0,), 'strcpy': (0,), 'strcat': (0,), 'regexec': (3,), 'time': (0,), 'gsl_sf_lngamma_sgn_e': (2,), 'gsl_sf_gamma_inc_e': (2,),
              'getopt_long': (), 'scanf': (1, 2, 3, 4)}

# registers a function and does not call it
KEEPS_CALLBACK = {'signal', 'sqlite3_create_function', 'gsl_set_error_handler', 'atexit', 'sqlite3_bind_text', 'gsl_multimin_fdfminimizer_alloc'}
# calls functions it was told of earlier, or finds in a struct it is handed
CALLS_BACK = {'gsl_multimin_fdfminimizer_set', 'gsl_multimin_fminimizer_set', 'gsl_multimin_fdfminimizer_iterate', 'gsl_multimin_fminimizer_iterate',
              'gsl_multiroot_fsolver_set', 'gsl_multiroot_fsolver_iterate', 'gsl_deriv_central', 'gsl_deriv_forward', 'gsl_siman_solve'}

def model(E, st, ins, name, args, uid):
    from .engine import ZERO, INF
    if name in NORET: return NORETURN
    sh = 1 if name in SRET_DEREF_SHIFT and len(args) and ins.ty == 'void' else 0
    for p in DEREF.get(name, ()):
        if p + sh < len(args):
            if not E.cl.on_deref(E, st, ins, args[p + sh], 'call ' + name): return NORETURN
    if sh:
        b = E.base_of(args[0])
        if b: E.havoc(st, b[0], uid)
    wrote = set()
    for p in WRITES_ARG.get(name, ()):
        if p < len(args):
            b = E.base_of(args[p])
            if b: wrote.add(b[0])
            if b and b[0][0] in ('A', 'B', 'G') or (b and b[0][0] == 'S'):
                if isinstance(b[1], int):
                    if b[0][0] == 'A' and b[1] == 0: E.havoc(st, b[0], uid)
                    else: 
                        sid = ('w',) + uid + (p,)
                        st.mem[(b[0], b[1])] = E.fresh(st, sid)
    if name in ALLOC:
        sid = ('h', name) + uid
        v = E.fresh(st, sid)
        base = ('S', sid)
        for k in [k for k in st.mem if k[0] == base]: del st.mem[k]
        if name == 'calloc': E.mark(st, base, 'Z', (0, 1 << 40))
        if name == 'realloc' and E.base_of(args[0]):
            E.memcpy(st, v, args[0], ('i', 1 << 30), uid)
        if not E.cl.nullable_alloc:
            st.facts[v] = (-INF, INF, frozenset((0,)))
        if name.startswith('gsl_vector_') and name.endswith('alloc') and args:
            st.mem[(base, 0)] = args[0]; st.mem[(base, 8)] = ('i', 1)
        if name.startswith('gsl_matrix_') and name.endswith('alloc') and len(args) > 1:
            st.mem[(base, 0)] = args[0]; st.mem[(base, 8)] = args[1]; st.mem[(base, 16)] = args[1]
        return v
    if name in ('strcmp', 'strcasecmp', 'strlen'):
        ss = []
        for a in args[:2]:
            s = None
            if a[0] == 'p' and a[1][0] == 'G' and a[2] == 0: s = E.P.string(a[1][1])
            ss.append(s)
        if name == 'strlen' and ss and ss[0] is not None: return ('i', len(ss[0]))
        if name != 'strlen' and len(ss) == 2 and None not in ss:
            x, y = ss if name == 'strcmp' else (ss[0].lower(), ss[1].lower())
            return ('i', (x > y) - (x < y))
    if name in ('asprintf', 'vasprintf'):
        b = E.base_of(args[0])
        if b and isinstance(b[1], int):
            sid = ('h', name) + uid
            v = E.fresh(st, sid)
            if not E.cl.nullable_alloc: st.facts[v] = (-INF, INF, frozenset((0,)))
            st.mem[b] = v
        r = E.fresh(st, ('ret', name) + uid)
        st.facts[r] = (0, INF, frozenset())
        return r
    if name in ('strcpy', 'strcat', 'strncpy', 'memcpy', 'memmove', 'fgets'):
        return args[0] if name != 'fgets' else E.fresh(st, ('ret', name) + uid)
    # what a callback the function is handed may write
    cbs = [a[1][1] for a in args if a[0] == 'p' and a[1][0] == 'F' and a[1][1] in E.P.fns]
    if name in CALLS_BACK: cbs.append('*indirect')
    if cbs and name not in KEEPS_CALLBACK:
        E.escape_args(st, args)
        for a in args:
            b = E.base_of(a)
            if b and b[0][0] == 'A' and b[0] not in wrote: E.havoc(st, b[0], uid)
        for c in sorted(set(cbs)): E.havoc_fields(st, c, uid)
    # an unknown function may write what a stack object's address it is handed
    if not name.startswith(QUIET_PREFIX) and name not in WRITES_ARG:
        for a in args:
            b = E.base_of(a)
            if b and b[0][0] == 'A': E.havoc(st, b[0], uid)
    if ins.ty == 'void': return None
    return E.fresh(st, ('ret', name) + uid)
