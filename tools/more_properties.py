p('C29', 'Every combination of the configuration flags gives a coherent system',
  'Under each of the 32 combinations of the configuration flags the system has exactly the documented variations: the smooth kernel takes part in expansions, lines have an offset (and absorb constants), periodic kernels are the full ones, sigmoid slopes are parameters, change windows have independent sides. Canonical forms, expansions, start kernels, covariance values, parameter counts, scores, canonical decompositions and descriptions all remain mutually consistent.',
  ['inputs', 'configurations'], 'all 32 flag combinations and all expressions under each', 'Tests only run the shipped configuration.',
  ['GPy_ABCD/config.py', KN + 'baseKernels.py', KE + 'commutatives.py', KX + 'grammar.py', KX + 'kernelOperations.py', KX + 'kernelInterpretation.py', KN + 'changeWindowShiftedSides.py'],
  [('flags read at import time', 'GPy_ABCD/config.py'), ('base_kerns_for_prod, start_kernels', KX + 'grammar.py'), ('base_k_param_names', KX + 'kernelOperations.py')],
  ['expressions, expansions, kernels, models and texts of the package imported under each combination'])
p('C31', 'Results do not depend on the process or hash seed, and objects survive pickling',
  'Simplification, expansion, compilation, description, single-start fits and searches with distinct scores give the same outcomes in any process, whatever its string-hash seed (hence the iteration order of sets). Expressions, compiled kernels and fitted models pickled by one process behave identically when read by another.',
  ['histories', 'configurations'], 'all processes and hash seeds', 'Tests run in one process with one hash seed.',
  [KX + 'grammar.py', KE + 'base.py', KE + 'commutative_base.py', MD + 'modelSearch.py', KN + 'baseKernels.py'],
  [('iteration over the frozensets of base kernels', KX + 'grammar.py, ' + KN + 'baseKernels.py'), ('pickling of node links and kernels', KE + 'base.py')], ['outcomes recorded per process; unpickled objects'])
p('C32', 'Operations leave the surrounding process as they found it',
  'Simplifying, expanding, compiling, fitting (also when fits fail or are interrupted), describing, predicting, scoring and searching without verbosity print nothing and leave the rest of the process unchanged: random generators (except for the starting points of restarts), warning filters, numerical error handling, directory and files, environment, signal handlers, figures and plotting settings. No child process, thread or file descriptor outlives the call that made it, and no model, kernel or expression is kept alive after its last user let it go.',
  ['histories', 'fault_sequences'], 'all histories of operations, succeeding, failing or interrupted', 'Tests never look at the process around the calls, let alone after failures.',
  [MD + 'modelSearch.py', MD + 'model.py', KX + 'grammar.py', KE + 'base.py', KE + 'commutative_base.py'],
  [('fit, warnings', MD + 'model.py'), ('fit_one_model, fit_mods_parallel_processes', MD + 'modelSearch.py')], ['process state before and after each operation; weak references to finished objects'])
p('C33', 'Concurrent threads do not affect each other\'s results',
  'Independent simplifications, expansions, compilations, descriptions, fits and searches running in several threads of one process give exactly the outcomes they give when run alone, however the threads interleave. Several threads may also read (print, compare, expand, compile, traverse) the same initialised expressions, which stay unchanged.',
  ['schedules', 'histories'], 'all interleavings of threads', 'Tests run in one thread.',
  [KX + 'grammar.py', KE + 'base.py', KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py', MD + 'modelSearch.py', MD + 'model.py'],
  [('module-level state: start_kernels, production_rules, base_k_param_names', KX + 'grammar.py, ' + KX + 'kernelOperations.py'), ('trees shared for reading', KE + 'base.py')], ['outcomes per thread against the same jobs run alone; snapshots of shared expressions'])
p('C34', 'Whole searches end with models that are all they claim to be',
  'In a search with the real fitters (sequential or in processes), possibly continued, every returned model holds the given data, a canonical expression without parameters, the kernel of that expression, and the score that the likelihood of that kernel on that data gives; models are in order, each round fitted exactly the new neighbours of the best models not expanded before. The best models predict with the posterior of their kernels, are described by exactly their components, and asking them changes nothing.',
  ['inputs', 'histories'], 'all data, rules, starting kernels, scores, beams and rounds', 'Tests run no complete search with fits and judge none of its results.',
  [MD + 'modelSearch.py', MD + 'model.py', KX + 'grammar.py', KX + 'kernelOperations.py', KX + 'kernelInterpretation.py', KE + 'commutatives.py'],
  [('explore_model_space, model_search_rounds', MD + 'modelSearch.py'), ('GPModel', MD + 'model.py')], ['complete results of searches with real fits, their models, predictions and texts'])
p('C35', 'Printed reports, plots and single fits show exactly what they were given',
  'A printed report states the expression, parameters, likelihood, score and description of the model at hand; plots of data, functions, models and sample curves draw every given point and every requested curve, and pictures are saved under the names and in the folder asked for; none of them changes the model. fit_kex and fit_GPy_kern fit the given expression or kernel to the given data, in any accepted form, with the given restarts, options and score, and report the resulting score.',
  ['inputs'], 'all models, data, forms of data, options and curves', 'Tests never print, plot or call the single-fit helpers.',
  [MD + 'model.py', MD + 'modelSearch.py', 'GPy_ABCD/Util/modelUtil.py', 'GPy_ABCD/Util/kernelUtil.py', 'GPy_ABCD/Util/dataAndPlottingUtil.py'],
  [('model_printout, fit_kex, fit_GPy_kern', 'GPy_ABCD/Util/modelUtil.py'), ('sampleCurves, saveKernelSamples', 'GPy_ABCD/Util/kernelUtil.py')], ['text parsed back and lines read back from figures against models, draws and data'])
p('C36', 'Benchmark tables report the true timings of every implementation',
  'Benchmarks run every given implementation exactly the asked number of times, each time with the shared (or its own) arguments, pausing between implementations, and the table returned lists each once, from fastest to slowest, with the times, means and ratios of its actual runs. Merging tables keeps every row, reorders them and recomputes the ratios, without changing the merged tables. Comparing numba versions benchmarks exactly the versions asked for.',
  ['inputs', 'histories'], 'all implementations, arguments, costs, pauses and tables', 'Tests never benchmark anything.',
  ['GPy_ABCD/Util/benchmarking.py'], [('timethis, compare_implementations, numba_comparisons, merge_bench_tables', 'GPy_ABCD/Util/benchmarking.py')], ['log of clock readings, pauses and calls on a virtual clock; returned tables'])
p('C37', 'Kernel classes used directly evaluate what their arguments say',
  'Every shipped kernel class constructed directly (linear kernels in any number of dimensions with one variance or one per dimension; offset, periodic and sigmoidal kernels on any input column; change points and windows, also with independent or shifted sides, between any two GPy kernels) has exactly the name, initial values and free parameters asked for. It evaluates its documented formula with them and with whatever they are changed to later, reports the gradients of its sides (for linear kernels also those by the inputs), and shares nothing with the kernels it was given.',
  ['inputs', 'histories'], 'all arguments, sub-kernels, parameter changes and inputs', 'Tests construct kernels with default arguments only.',
  ['GPy_ABCD/Kernels/linearKernel.py', 'GPy_ABCD/Kernels/linearOffsetKernel.py', 'GPy_ABCD/Kernels/sigmoidalKernels.py', 'GPy_ABCD/Kernels/changeOperators.py', 'GPy_ABCD/Kernels/changeWindowThreePart.py', 'GPy_ABCD/Kernels/changeWindowShiftedSides.py'],
  [('Linear, LinearWithOffset, SigmoidalKernel, ChangePointKernel, ChangeWindowKernel, ChangeWindowKernelIndependent, ChangeWindowKernelShiftedSides', 'GPy_ABCD/Kernels/')], ['names, parameters, values and gradients of directly constructed kernels'])
