PROPS = []
NA = []
def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))
def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))

P('C01', 'Process-wide settings and handlers are as the caller left them',
  "When a call into the library returns, by whatever path (success, rejected arguments, failed query, aborted optimization), the process-wide error handler of the "
  "numeric library, the process's signal handlers and every field of the library's global options hold the values they had when the call was made. "
  "The only exceptions are the database-engine option, which may go from not-yet-chosen to chosen, and options that a call documents it sets.",
  ['inputs', 'fault_sequences'], 'all calls, all arguments and all exits of the function, including error exits',
  'A test sees one exit per call and does not look at handlers or options afterwards; the damage shows up later, in unrelated code (a swallowed numeric error, Ctrl-C that no longer '
  'stops the program, tables read without row names).',
  ['apop_data.m4.c', 'apop_linear_algebra.m4.c', 'apop_conversions.m4.c', 'apop_mle.m4.c', 'apop_db.m4.c', 'apop_output.m4.c', 'apop_bootstrap.m4.c'],
  [('save and restore of the numeric error handler', 'apop_linear_algebra.m4.c, apop_data.m4.c: Set_gsl_handler/Unset_gsl_handler'),
   ('temporary change of an option', 'apop_conversions.m4.c: apop_db_to_crosstab'), ('SIGINT handler during optimization', 'apop_mle.m4.c')],
  'path-sensitive typestate over LLVM IR (abstract interpretation)',
  'Every function that sets a handler or writes an option is enumerated from the IR; all its abstract paths are followed to every exit. Allocation by the numeric library is taken to succeed.')

P('C05', 'Text from data or the outside is never interpreted as a format',
  "Names, cells, query text, file content and any other text that reaches the library as data is stored, printed and sent to the database verbatim: it is never used as a "
  "printf-style format. Formats are literals of the library, or the format argument of a printf-like entry point passed on together with its arguments, "
  "and each literal format agrees in number and kind with the arguments given to it.",
  ['inputs'], 'all texts in names, cells, pages, queries and files, for every formatting call in the library and its command-line tools',
  'The tests use names and cells without percent signs, for which a format and a verbatim copy coincide; one cell holding %s or %n is a crash or a memory write.',
  ['apop_asprintf.c', 'apop_data.m4.c', 'apop_db.m4.c', 'apop_conversions.m4.c', 'apop_output.m4.c', 'apop_rake.m4.c', 'cmd/'],
  [('formatted string building', 'apop_asprintf.c, apop_internal.h: Asprintf'), ('printf-like entry points', 'apop.m4.h: apop_query and relatives, apop_text_set, apop_name_add')],
  'whole-program dataflow on format operands over LLVM IR',
  'Every call to a printf-family function and to each library function that forwards its own format is enumerated, and the format operand is traced to literals or to the enclosing function\'s own format parameter.')

P('C11', 'Arguments reach the parameter of the same name, under every calling style',
  "A function that takes optional, named arguments receives every argument given in the parameter it is documented to be, whichever calling style is used: by name in any order, by position, "
  "or omitted; and calls inside the library hand each argument to the parameter it is meant for.",
  ['inputs', 'configurations'], 'all functions with designated arguments, all arguments',
  'A test names the arguments it uses; two parameters of like type swapped in a front, or in the order of the argument struct, compile and change only calls made in the other style.',
  ['apop.m4.h', 'install/prep_variadics.m4', 'every file that defines a function with designated arguments'],
  [('argument struct and front for each function', 'install/prep_variadics.m4, APOP_VAR_HEAD in each source file')],
  'abstract interpretation of generated call fronts over LLVM IR; order of struct fields against declared parameters',
  'Every generated front is run abstractly with all arguments given; the values that reach the implementation are compared by name with the fields of the argument struct, whose order is compared with the declaration.')
P('C12', 'Omitted arguments take their documented defaults',
  "Each optional argument that is left out, alone or with others, takes the default its documentation gives, and leaving out a required argument is refused with the documented result. "
  "An argument that is given is used as given.",
  ['inputs', 'configurations'], 'every optional argument of every function with designated arguments',
  'Tests mostly call with one combination of arguments; a default lost or changed shows up only in the calls that leave just that argument out.',
  ['apop.m4.h', 'every file that defines a function with designated arguments'],
  [('default of each argument', 'apop_varad_var in the APOP_VAR_HEAD sections')],
  'abstract interpretation of generated call fronts over LLVM IR against a frozen table of documented defaults',
  'For each argument the front is run with that argument absent and the rest present, and with all optional ones absent; the abstract value reaching the implementation is compared with the table.')
P('C13', 'Settings groups start with documented defaults and keep what is given',
  "A settings group added to a model has the documented default in every field the caller did not give and the caller's value in every field given, and every kind of group can be copied and released.",
  ['inputs', 'configurations'], 'all settings groups and all their fields',
  'Tests set the fields they care about; a default that moved or a given field that is overwritten changes estimates silently.',
  ['apop_mle.m4.c', 'apop_mcmc.m4.c', 'apop_arms.c', 'apop_settings.m4.c', 'model/'],
  [('group initialisers', 'Apop_settings_init in each file that defines a group')],
  'abstract interpretation of settings initialisers over LLVM IR against a frozen table of documented defaults',
  'Each initialiser is run with no field given and with each field given in turn; fields a group keeps for its own bookkeeping are listed in the check.')

P('C03', 'Files, queries, engine messages and work spaces are given back on every path',
  "Every file, prepared statement, query result, database-engine error message and solver work space that a call obtains is closed or released by the time the call returns, "
  "whatever the outcome: success, rejected input, failed query, failed allocation of the answer, or a stop part-way.",
  ['inputs', 'fault_sequences'], 'all calls of the library, all their exits, error exits included',
  'Tests take the successful exit; a descriptor, statement or message that stays behind on one error exit shows up only in a long-running process that meets that error again and again.',
  ['apop_conversions.m4.c', 'apop_output.m4.c', 'apop_db.m4.c', 'apop_db_sqlite.c', 'apop_db_mysql.c', 'apop_mle.m4.c', 'apop_linear_algebra.m4.c', 'model/', 'transform/'],
  [('text files', 'apop_conversions.m4.c, apop_output.m4.c'), ('prepared statements and messages', 'apop_db_sqlite.c, apop_conversions.m4.c'), ('minimizers, eigen and SVD work spaces', 'apop_mle.m4.c, apop_linear_algebra.m4.c')],
  'interprocedural ownership typestate over LLVM IR (abstract interpretation with function summaries)',
  'Every acquisition in every function is followed along all abstract paths to every exit; release, return, storing where the caller reaches it, or handing to a function that takes ownership discharge it. Functions over the state budget are listed in the evidence as undecided.')
P('C04', 'Nothing released is used, released again or left for the caller to use',
  "No call reads, writes, passes on, returns or releases an object after releasing it, on any path, and when it returns nothing the caller can still reach refers to an object it released.",
  ['inputs', 'fault_sequences'], 'all calls of the library, all their paths, error paths included',
  'A read just after a release mostly sees the old bytes and the test passes; the double release on an error path needs the error.',
  ['apop_data.m4.c', 'apop_name.c', 'apop_mle.m4.c', 'apop_db.m4.c', 'apop_settings.c', 'apop_model.m4.c', 'model/', 'transform/'],
  [('release functions', 'apop_data.m4.c: apop_data_free_base; apop_name.c: apop_name_free; apop_model.m4.c: apop_model_free'), ('replacement of parts of a data set', 'apop_data.m4.c, apop_regression.m4.c')],
  'interprocedural ownership typestate over LLVM IR (abstract interpretation with function summaries)',
  'Every dereference, argument, return and release in every function is checked against the releases that precede it on the path, through inferred summaries of what each callee releases.')
P('C18', 'Memory obtained during a call is released, or reachable from its results',
  "Every block of memory, vector, matrix, data set or model that a call makes is, when the call returns by whatever path, either released or reachable from what the caller holds. "
  "Repeating a call any number of times with its results released leaves the memory in use as it was.",
  ['inputs', 'fault_sequences', 'histories'], 'all calls of the library, all their exits, error exits included',
  'Tests never look at memory in use, and the leaks that matter sit on exits they do not take.',
  ['all source files of the library'],
  [('construction and release of data sets, names, models', 'apop_data.m4.c, apop_name.c, apop_model.m4.c'), ('temporaries of estimation, testing and text handling', 'model/, apop_regression.m4.c, apop_tests.m4.c, apop_conversions.m4.c')],
  'interprocedural ownership typestate over LLVM IR (abstract interpretation with function summaries)',
  'As for files and statements; two call sites are accepted by name, with the reason in sa/checks/c18.py. Once-per-process caches held by static variables count as reachable.')

P('C14', 'A call does not crash for want of an optional part or argument',
  "Any part of a data set (vector, matrix, names, text, weights, further pages) can be missing, and so can many arguments of a call and parts of a model: "
  "a call that can do without one never reads or writes through the pointer that is not there, whatever else it is handed and on whichever path. "
  "It either does its work with what there is or reports the error in the documented way (an error code, an empty result), and the process goes on.",
  ['inputs', 'configurations'], 'public calls and methods of the models; each pointer argument and each part of each data set and model they take; all values of everything else',
  'Tests use complete data sets; every combination of a part that is missing and a path through the code that might use it is too many for them, and a missing guard shows up as a crash for the user who has no row names.',
  ['all source files of the library'],
  [('guards for absent parts', 'throughout: if (d->names), Apop_stopif(!d, ...), Get_vmsizes'), ('the parts', 'apop.m4.h: apop_data, apop_model')],
  'path-sensitive nullness analysis over LLVM IR, one run per absent part, with summaries of functions that cannot do without it',
  'The calls and parts decided are listed in sa/tables/absent.json, which is what the analysis proves of the original tree (calls that need the part are not in it). Aliasing between distinct arguments and failing allocation are left out.')

P('C09', 'Results share no memory with what they were made from, except as documented',
  "After a call, its result and each of its arguments can be changed or released without any effect on the others, except for the sharing that is documented "
  "(a model points to its data; a page that was added belongs to its data set; in-place calls return their argument). "
  "Nothing that the copy of a model or of a settings group shares with the original is released by releasing either of them while the other still needs it.",
  ['inputs', 'histories'], 'all public calls, all methods of the models and all settings groups of the library; every pointer in the results and in the arguments; all choices of options',
  'A test rarely changes or releases an input and then looks at the result; a shared row or settings member shows up as a corrupted value or a double release much later.',
  ['all source files of the library'],
  [('copying and combining', 'apop_data.m4.c, apop_name.c, apop_model.m4.c, apop_stats.m4.c, apop_vtables.c'), ('settings groups: copy and release', 'apop_settings.c, apop_arms.c, apop_mcmc.m4.c, model/, transform/'), ('estimation', 'model/, apop_mle.m4.c')],
  'field-sensitive points-to analysis over LLVM IR, composed bottom-up over the call graph, against a table of documented sharing',
  'As for changes to arguments; sharing within one argument is not looked at. Members of settings groups that are released by count are accepted by name.')

P('C10', 'Calls leave what they are handed as it was, but for what they are to change',
  "A call changes or releases, among all the data sets, vectors, matrices, names, text, models and settings reachable from its arguments, only the parts it is documented to change. "
  "In particular where a copy is asked for the original is left alone, a likelihood, draw, CDF or constraint leaves the data set and the model it is evaluated on as they are, "
  "the models the library provides stay as they are, and whatever is set aside for the duration of a call is back in place when it returns.",
  ['inputs', 'histories'], 'all public calls and all methods of the models in the library, everything reachable from their arguments, all choices of options',
  'A test compares the result with what it should be and hardly ever looks at the input afterwards; a shared row, page, name or setting that was changed shows up in a later, unrelated call.',
  ['all source files of the library'],
  [('functions on data sets, vectors, matrices, text', 'apop_data.m4.c, apop_linear_algebra.m4.c, apop_vtables.c, apop_stats.m4.c, apop_sort.m4.c, apop_mapply.m4.c, apop_hist.m4.c'), ('methods of the models', 'model/, transform/'), ('estimation and resampling', 'apop_mle.m4.c, apop_bootstrap.m4.c, apop_regression.m4.c, apop_missing_data.m4.c')],
  'field-sensitive points-to and effect analysis over LLVM IR, composed bottom-up over the call graph, against a table of permitted effects',
  'Array elements are one cell per array. Where an option decides (copy or in place) the effects are computed once per value of the option. Functions given by the caller are taken to change nothing themselves.')

P('C02', 'A failed database operation is always reported by the call',
  "When any single operation on the database fails during a call (opening, looking a table up, preparing, binding, stepping or executing a statement, on whatever row), "
  "the call says so in the way it documents: nonzero or negative status, NULL, a data set whose error mark is set, or NaN. It never returns a partial result as if it were complete.",
  ['fault_sequences', 'inputs'], 'all calls that read or write the database; each operation on each path failing in turn',
  'A test would have to make one particular operation fail part-way (a full disk, a constraint on the thousandth row, a run-time error in one row of a query); an ignored status looks like success.',
  ['apop_db.m4.c', 'apop_db_sqlite.c', 'apop_conversions.m4.c', 'apop_rake.m4.c', 'apop_tests.m4.c'],
  [('queries of all result types', 'apop_db.m4.c, apop_db_sqlite.c'), ('text file and data set to table', 'apop_conversions.m4.c: apop_text_to_db; apop_db.m4.c: apop_data_to_db'), ('crosstabs, raking and ANOVA from a table', 'apop_conversions.m4.c, apop_rake.m4.c, apop_tests.m4.c')],
  'single-fault path-sensitive abstract interpretation over LLVM IR',
  'Each call to the database engine and to the library\'s own fallible calls is failed in turn on every abstract path; every exit reached from there must carry a failure value. Failures of housekeeping statements (pragmas, dropping work tables) are accepted, listed in the check.')
P('C08', 'Random output comes only from the generator the caller gave',
  "A call that is given a random number generator draws from that generator alone, all the way down through wrapped, mixed, transformed and user-given models: equal arguments and an equal generator state give equal draws. "
  "Only where none is given does the library use one of its own, and no draw depends on the clock, the process or what earlier draws left behind in hidden state.",
  ['inputs', 'histories'], 'all functions and model methods that take a generator, all their paths',
  'A test that seeds once and checks a mean passes whichever generator is used; reproducibility breaks only for the model, option or path whose draw goes to another generator.',
  ['apop_asst.m4.c', 'apop_arms.c', 'apop_mcmc.m4.c', 'apop_bootstrap.m4.c', 'apop_update.m4.c', 'apop_mle.m4.c', 'model/', 'transform/'],
  [('drawing functions and model draw methods', 'model/*.c, transform/*.c, apop_asst.m4.c: apop_draw'), ('default generators', 'apop_bootstrap.m4.c: apop_rng_get_thread')],
  'dataflow of generator operands by path-sensitive abstract interpretation over LLVM IR; effect analysis of static state',
  'Every generator operand of every drawing call in every function that takes a generator is compared with the one the function was given; static variables written by such functions, and any use of a clock or of the C library\'s generators, are reported.')
P('C15', 'A model method that is not there is never called',
  "Every method of a model is optional. Wherever the library would use a method of a model it was given, alone or as a component of another model, it first establishes that the method is there, and does something documented where it is not.",
  ['inputs'], 'every call of a model method, all models the method may be missing from',
  'The tests use models that have the methods the calls under test need; the crash needs the combination of a wrapper or search with a component that lacks just that method.',
  ['apop_model.m4.c', 'apop_mle.m4.c', 'apop_mcmc.m4.c', 'apop_update.m4.c', 'apop_settings.c', 'transform/'],
  [('dispatch of model methods', 'apop_model.m4.c'), ('constraint, draw and prep calls of searches and wrappers', 'apop_mle.m4.c, apop_mcmc.m4.c, transform/')],
  'path-sensitive nullness analysis over LLVM IR (abstract interpretation)',
  'Every call through a function member of a model or settings entry is enumerated; on every abstract path to it the member must be known non-null, or be a method of a library model that defines it, or one that the maker of the wrapper leaves out when the wrapped model has none.')

N('C80', 'Distributions, regressions and tests are numerically correct',
  'Log likelihoods, CDFs, estimates, standard errors and test statistics agree with their mathematical definitions to floating-point accuracy.',
  ['inputs'], 'all data sets and parameter values', 'The tests check a few data sets against known values.',
  ['model/', 'apop_stats.m4.c', 'apop_tests.m4.c', 'apop_mle.m4.c', 'apop_mapply.m4.c'], [('model methods', 'model/*.c')],
  'The truth is a relation between real-valued results and formulas; nothing in the shape of the code on every path settles it, and a frozen formula would fire on algebraically equal rewrites.')
N('C81', 'Draws follow the distribution they are drawn from',
  'The long-run frequencies of draws from any model, including MCMC and rejection draws, are those of the model.',
  ['inputs', 'histories'], 'all models, parameters and generator states', 'The tests draw a few thousand values per model.',
  ['apop_arms.c', 'apop_mcmc.m4.c', 'model/'], [('draw methods', 'model/*.c')],
  'A statement on limits of runtime frequencies; no static argument in reach bounds it.')
N('C82', 'Data written to a database, file or vector and read back is equal',
  'Values, names, weights and text written to a table, a text file or a packed vector and read back through the matching call compare equal.',
  ['inputs'], 'all data sets and separators', 'Tests round-trip a handful of sets.',
  ['apop_conversions.m4.c', 'apop_output.m4.c', 'apop_db.m4.c'], [('pack/unpack, print/read, db in/out', 'apop_conversions.m4.c')],
  'Equality of values after serialisation depends on number formatting, quoting and the parser at run time; the structural part (order of fields, bounds, release, error reporting) is claimed under other properties.')
N('C83', 'Iterative procedures terminate with the documented tolerance',
  'Optimization, raking, EM, iterative proportional fitting and root finding stop within the iteration limit, and report convergence exactly when the tolerance was met.',
  ['inputs'], 'all data, starting points and settings', 'The tests run well-behaved problems.',
  ['apop_mle.m4.c', 'apop_rake.m4.c', 'apop_mcmc.m4.c'], [('iteration loops', 'apop_mle.m4.c, apop_rake.m4.c')],
  'Convergence depends on runtime numerical values.')
N('C84', 'Parallel map and draw results do not depend on the number of threads',
  'The value of a map, sum or parallel likelihood evaluation is the same for every number of threads.',
  ['schedules', 'configurations'], 'all schedules and thread counts', 'The tests run with one machine\'s default.',
  ['apop_mapply.m4.c', 'apop_fexact.c'], [('OpenMP loops', 'apop_mapply.m4.c')],
  'Floating-point summation order differs with the split of the loop, so the property as stated is not decidable (or even true) bit for bit; the structural part, that no shared state is written unprotected, is claimed separately.')
N('C85', 'Sorting and pruning give an order consistent with the data',
  'Sorting orders the rows by the requested keys and keeps every row intact; unique-element lists are sorted and complete.',
  ['inputs'], 'all data sets and sort keys', 'Tests sort two data sets.',
  ['apop_sort.m4.c'], [('sort', 'apop_sort.m4.c')],
  'Order of runtime values under a comparison and an in-place cycle permutation; no static argument here bounds it.')
