"""Writes properties.jsonl and MANIFEST.json (the only source of both). Run: python3 tools/make_manifest.py"""
import ast, json, os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KE, KX, KN, MD, UT = ('GPy_ABCD/KernelExpressions/', 'GPy_ABCD/KernelExpansion/', 'GPy_ABCD/Kernels/', 'GPy_ABCD/Models/', 'GPy_ABCD/Util/')
P = []


def p(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'observe_at': obs, 'hook_needed': None}})


p('C01', 'Simplification reaches the one canonical form of any kernel expression',
  'Simplifying any kernel expression yields its canonical form: nested sums and products flattened, one-term composites unwrapped, constants dropped from products, white noise absorbing the rest of a product except linear factors, duplicate smooth factors of products and duplicate constants or noises of sums merged, constants absorbed by lines in sums. The result denotes the same covariance family, does not depend on term order, grouping or construction route, and simplifying again changes nothing.',
  ['inputs', 'histories'], 'all finite expression trees over the base kernels, sums, products and change operators, in every order and grouping of terms and by every construction route',
  'Existing tests simplify about ten hand-written expressions; canonicity is over all trees, orders and nestings, where interactions of several rewriting steps matter.',
  [KE + 'base.py', KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py', KX + 'kernelOperations.py'],
  [('SumOrProductKE.simplify: fixed order of absorption steps', KE + 'commutative_base.py'), ('SumKE/ProductKE.simplify_base_terms', KE + 'commutatives.py'), ('extract_if_singleton', KE + 'commutative_base.py, change.py')],
  ['base_terms/composite_terms/left/right of the tree returned by _initialise(), SumKE/ProductKE/ChangeKE constructors, expand'])
p('C02', 'Kernel expressions are equal exactly when they denote the same expression',
  'Two canonical kernel expressions compare equal if and only if they are the same up to the order of the terms of sums and products (multiplicities, operators and sides of change operators counting). Equality is reflexive, symmetric and transitive, is not affected by where a node sits in a larger expression, by fitted parameters or by previous operations, and never modifies its operands.',
  ['inputs'], 'all pairs and triples of expressions, including near misses differing by one leaf, multiplicity, branch or operator',
  'Tests compare a handful of pairs; deduplication in searches silently drops or repeats candidates if any pair is misjudged.',
  [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py', UT + 'genericUtil.py'],
  [('__eq__ of each node type', KE + 'base.py, commutative_base.py, change.py'), ('eq_elems on composite terms', UT + 'genericUtil.py')], ['==, in, unique on live expressions'])
p('C03', 'Printed forms of expressions denote exactly those expressions',
  'The readable form of an expression (with usual operator precedence and bracketing) and its constructor form both denote exactly that expression: parsing the former or evaluating the latter gives an equal expression with the same covariance. Printing never modifies the expression.',
  ['inputs'], 'all expressions, of any nesting of sums, products and change operators',
  'Tests never print nested expressions; ambiguity appears only for particular nestings.',
  [KE + 'base.py', KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py'],
  [('bracket_if_needed', KE + 'commutative_base.py, commutatives.py'), ('__str__/__repr__', KE + 'commutative_base.py, change.py')], ['str(), repr() of expressions; search reports'])
p('C04', 'Operations keep trees well-linked and never affect other expressions',
  'After any sequence of operations every reachable node has the right parent and root and all structural queries work from it; results of construction, expansion, copying and unpickling share no mutable state with other live expressions. No operation that returns new expressions alters the structure, links or parameters of its arguments, so expressions held by earlier models or result lists stay valid.',
  ['histories'], 'all histories of constructions, expansions, combinations, in-place growth, deep copies, pickling, printing, compilations and queries over shared live expressions',
  'Tests check links of single freshly built trees; aliasing shows only after a later operation on another expression.',
  [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py', KX + 'kernelExpressionOperations.py', KX + 'grammar.py'],
  [('deepcopy before modification', KX + 'kernelExpressionOperations.py'), ('new_tree_with_self_replaced', KE + 'base.py'), ('set_root/_set_all_parents', KE + 'base.py'), ('copy of composite terms already owned', KE + 'commutative_base.py')],
  ['object graph of every live expression before and after each operation'], [('parent, root', 'links from each node to its owner and tree', KE + 'base.py')])
p('C05', 'Structural queries answer for the whole expression',
  'Asking whether an expression contains given base kernels, whether it is stationary, which nodes it has, how many terms it has, or folding over it gives the answer defined by the expression tree alone, at any node, including raw base kernels on sides of change operators.',
  ['inputs'], 'all canonical expressions, at every node', 'Tests query two or three expressions at the root.',
  [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py'], [('contains_base, is_stationary, traverse, reduce, term_count', KE + 'commutative_base.py, change.py')], ['return values of the queries'])
p('C06', 'Combination operators produce exactly their documented results',
  'Adding, multiplying, swapping bases, making change points or windows (with a constant, a line, a base, another expression or itself), replacing by a base and removing terms each produce exactly the set of expressions obtained by that operation on the expression, each in canonical form, and none of the operands is modified.',
  ['inputs'], 'all pairs of operand kinds: base strings, sums, products, change operators, roots or inner nodes, also the same object twice',
  'Tests cover the operators on a few small operands; each operator has a case per pair of operand kinds.',
  [KX + 'kernelExpressionOperations.py'], [('add, multiply, swap_base, one_change, both_changes, replace_node, remove_a_term, higher_curves', KX + 'kernelExpressionOperations.py')], ['lists returned by the operators'])
p('C07', 'Grammar expansion yields exactly the one-step neighbours, each once',
  'Expanding an expression with a set of production rules returns exactly the distinct canonical expressions obtained by applying one of the rules at one of its nodes (including raw sides of change operators): none missing, none extra, no duplicates, each an independent well-formed expression. The expanded expression is unchanged, and the shipped rule groups contain exactly their documented rules.',
  ['inputs', 'programs'], 'all canonical expressions and all subsets of production rules, including the shipped groups',
  'Tests compare the expansion of a few expressions under a few rules; omissions and duplicates depend on expression shape and rule interaction.',
  [KX + 'grammar.py', KX + 'kernelExpressionOperations.py', KE + 'base.py', KE + 'change.py'],
  [('expand/expand_node/deep_apply', KX + 'grammar.py'), ('traverse', KE + 'commutative_base.py, change.py'), ('new_tree_with_self_replaced', KE + 'base.py')], ['expand(expression, rules), production_rules'])
p('C08', 'A compiled covariance is the one its expression denotes',
  'The covariance function compiled from an expression is the one it denotes: sums add, products multiply, change operators blend their sides by a sigmoid (or window) in both inputs, base kernels have their textbook covariances, every occurrence of a base kernel has its own parameters. This holds at all parameter values and inputs, for one set of inputs, two sets, and the diagonal.',
  ['inputs', 'programs'], 'all expressions, all valid parameter values, all one-dimensional inputs',
  'Tests never evaluate compiled composite kernels against an independent definition.',
  [KE + 'commutatives.py', KE + 'change.py', KX + 'kernelOperations.py', KN + 'changeOperators.py', KN + 'baseKernels.py'],
  [('to_kernel', KE + 'commutatives.py, change.py'), ('K/Kdiag of change kernels', KN + 'changeOperators.py'), ('base_str_to_ker', KX + 'kernelOperations.py')], ['K(X), K(X, X2), Kdiag(X) and parameters of to_kernel()'])
p('C09', 'Compiled kernels have exactly the parameters their expression needs',
  'A compiled kernel has one variance per product (or lone base kernel), the shape parameters of every base kernel occurrence, one location per change point, one location and one width per change window, and nothing else free; sides of change operators keep their own variances. The parameter count that model scores penalise is this one plus the noise variance.',
  ['inputs', 'programs'], 'all expressions', 'Tests do not count parameters of nested products or change operators; redundancy or loss appears for particular nestings and biases model selection silently.',
  [KX + 'kernelOperations.py', KE + 'commutatives.py', KE + 'change.py', KN + 'changeOperators.py', MD + 'model.py'],
  [('remove_top_level_variance', KX + 'kernelOperations.py'), ('fixed slopes', KN + 'sigmoidalKernels.py, changeOperators.py')], ['parameter names and free-parameter count of to_kernel(); k passed to scores'])
p('C10', 'Base and sigmoidal kernels evaluate their documented formulas at all scales',
  "Each base kernel (linear with or without offset, purely periodic, noise, constant, smooth) and each sigmoidal kernel evaluates its documented covariance to its numerical accuracy over all parameter scales, including the boundaries between its evaluation regimes, whatever the layout of its input arrays and whether natively compiled or interpreted, and its diagonal agrees with its full covariance.",
  ['inputs'], 'all valid parameter values over many orders of magnitude, all one-dimensional inputs and array layouts',
  'Tests evaluate base kernels at default parameters only; the periodic kernel has three numerical regimes.',
  [KN + 'baseKernels.py', KN + 'linearOffsetKernel.py', KN + 'linearKernel.py', KN + 'periodicKernel.py', KN + 'sigmoidalKernels.py', UT + 'numba_types.py'],
  [('regime selection and Bessel approximations', KN + 'periodicKernel.py'), ('numba kernels', KN + 'linearOffsetKernel.py, sigmoidalKernels.py')], ['K, Kdiag of each kernel'])
p('C11', 'Compiled covariances are valid covariance functions',
  'Whatever the expression, parameters and inputs, the covariance matrix of a compiled kernel is symmetric and positive semidefinite up to rounding, agrees with its diagonal, with its transpose for swapped inputs, and with its own sub-blocks under any selection or permutation of inputs.',
  ['inputs', 'programs'], 'all expressions, parameter values (also extreme) and input sets (repeated, unsorted, far away)',
  'Tests never inspect covariance matrices.', [KN + 'changeOperators.py', KN + 'periodicKernel.py', KN + 'sigmoidalKernels.py', KN + 'linearOffsetKernel.py', KE + 'commutatives.py'],
  [('K/Kdiag', KN + 'changeOperators.py, periodicKernel.py, sigmoidalKernels.py, linearOffsetKernel.py')], ['K and Kdiag of to_kernel()'])
p('C12', 'Parameter gradients match the covariance functions',
  "The gradient every kernel reports for each of its free parameters is the derivative of its covariance contracted with the given sensitivities, for covariances of one set of inputs, of two sets, or along the diagonal, at every depth of a composite; hence the log-likelihood gradients of whole models are right (change-operator locations and widths up to the documented forward-sigmoid-only rule).",
  ['inputs', 'programs'], 'all expressions, parameters, inputs and sensitivity matrices',
  'Only manual regression scripts exercise gradients, at default parameters and for single kernels.',
  [KN + 'changeOperators.py', KN + 'periodicKernel.py', KN + 'sigmoidalKernels.py', KN + 'linearOffsetKernel.py'],
  [('update_gradients_full/diag', KN + 'changeOperators.py, periodicKernel.py, sigmoidalKernels.py, linearOffsetKernel.py')], ['gradients of parameters after update_gradients_*; model objective gradients'])
p('C13', 'Kernels always reflect their current parameters, also after copies and caching',
  'After any sequence of parameter changes by any route (attribute, indexing, whole vector, optimiser vector, randomisation), evaluations, gradient updates, copies and pickling, a compiled kernel evaluates the covariance of the parameters it currently reports, and copies are independent of each other.',
  ['histories'], 'all histories of parameter changes, evaluations and copies', 'Tests evaluate kernels at most once; stale caches and shared sub-kernels need a history.',
  [KN + 'changeOperators.py', KN + 'changeWindowShiftedSides.py', KN + 'changeWindowThreePart.py', KN + 'sigmoidalKernels.py', KN + 'baseKernels.py'],
  [('parameters_changed, cached evaluations', KN + 'changeOperators.py, periodicKernel.py, linearOffsetKernel.py')], ['K, Kdiag, parameter values of live kernels and their copies'])
p('C14', 'Fitted parameters are absorbed completely and to the right places',
  'Reading the fitted parameters of a kernel (alone or inside a model) back into its expression assigns every parameter value to exactly one term, none lost, repeated or swapped, also with many same-named terms, so that the expression with its parameters defines the same covariance as the fitted kernel.',
  ['inputs', 'programs'], 'all expressions and parameter values, bare kernels and models', 'Tests absorb the parameters of a few expressions and do not compare the covariance.',
  [KX + 'kernelOperations.py', KE + 'base.py', KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py'],
  [('get_param_dict, match_up_fit_parameters (name-based matching)', KX + 'kernelOperations.py, ' + KE + 'commutative_base.py, change.py')], ['parameters of the expression after fit_ker_to_kex_with_params'])
p('C15', 'The sum-of-products form preserves the fitted model',
  'The canonical sum-of-products form of a fitted expression consists of pure products of base kernels and sigmoids, its components (overall variances, factors, parameters) are exactly those of distributing the fitted kernel, and it therefore defines the same covariance; computing it does not alter the fitted expression or model.',
  ['inputs', 'programs'], 'all expressions and parameter values', 'Tests compute it for a few expressions and check only that parameters are present.',
  [KE + 'commutatives.py', KE + 'change.py', KE + 'commutative_base.py', KE + 'base.py', MD + 'model.py'],
  [('sum_of_prods_form', KE + 'commutatives.py, change.py'), ('simplify_base_terms_params', KE + 'commutatives.py')], ['terms and parameters of sum_of_prods_form(); covariance of to_kernel_with_params()'])
p('C16', 'Model descriptions state exactly the components of the fitted model',
  'The text description of a fitted model lists exactly the components of its sum-of-products form, one line each: kinds of factors, polynomial order and offsets, periods, lengthscales, overall variance and the region where the component applies are those of the fitted covariance, to the precision printed.',
  ['inputs', 'programs'], 'all expressions and parameter values, through models or expressions', 'Tests compare the text of a few fixed cases; wording depends on the combination of factors.',
  [KX + 'kernelInterpretation.py', KE + 'base.py', MD + 'model.py'],
  [('base_factors_interpretation, first_term/postmodifier_interpretation', KX + 'kernelInterpretation.py')], ['interpret(), get_interpretation()'])
p('C17', 'Described regions are the exact intersection of all change regions',
  'The region a component is described to apply to is exactly the intersection of the regions of all its sigmoidal factors, for any number, kinds, order and overlap of factors, including disjoint ones (nowhere) and several separate intervals.',
  ['inputs'], 'all multisets of sigmoidal factors with arbitrary locations and widths', 'Tests intersect a few pairs of intervals of each kind.',
  [KX + 'kernelInterpretation.py'], [('sigmoids_to_intervals, intersect_interval_lists, simplify_sigmoidal_intervals', KX + 'kernelInterpretation.py')], ['region part of the description lines'])
p('C18', 'Model scores are the documented functions of the exact likelihood and sizes',
  'BIC, AIC, AICc and custom scores of a fitted model are the documented formulas of its exact Gaussian-process log-likelihood, number of data points and number of free parameters; computing a score neither changes the model nor its other scores, and recomputing gives the same value.',
  ['inputs', 'histories'], 'all expressions, data, parameters, scoring functions', 'Tests never recompute a likelihood.',
  [MD + 'model.py', UT + 'modelUtil.py'], [('_ordered_score_ps, compute_utility', MD + 'model.py'), ('BIC/AIC/AICc', UT + 'modelUtil.py')], ['compute_utility, cached_utility_function, arguments received by score functions'])
p('C19', 'Predictions are those of the posterior of the fitted model',
  "Predicted means, variances, full covariances and quantiles at any test points equal the Gaussian-process posterior of the model's fitted covariance, noise and data, with the options given (quantiles, full covariance, with or without observation noise), in the order of the test points.",
  ['inputs', 'programs'], 'all expressions, parameters, data and test points', 'Tests never check predictions.',
  [MD + 'model.py', KN + 'changeOperators.py'], [('predict', MD + 'model.py')], ['dictionary returned by predict'])
p('C20', 'A model always answers for its latest fit, and models do not affect each other',
  'Over any history of fits, refits, descriptions, scores, predictions and copies of several models, also sharing one expression object, each model describes, scores and predicts from its own latest fit only, refuses to describe before any fit, and leaves its data, its expression and every other model unchanged.',
  ['histories'], 'all histories of operations over several models', 'Tests fit models once.',
  [MD + 'model.py', UT + 'modelUtil.py', KX + 'kernelOperations.py'], [('fit, cached sum-of-products form', MD + 'model.py'), ('deepcopy of the expression before absorbing', MD + 'model.py')], ['all public methods of GPModel and fit_kex'],
  [('_sum_of_prods_kex', 'cached canonical form of the latest fit', MD + 'model.py')])
p('C21', 'Search results account for every fitted model exactly once',
  'In the results of a search every model that was fitted appears exactly once in the list of all models sorted from best to worst, exactly once in the list of its round (also sorted), and exactly once in either the expanded or the non-expanded list, with its expression in the list of tested expressions, and the progress report agrees with them.',
  ['inputs', 'histories'], 'all searches: rules, start kernels, scoring functions, beams, rounds, score ties', 'Tests run at most one tiny real search.',
  [MD + 'modelSearch.py', UT + 'genericUtil.py'], [('explore_model_space, model_search_rounds', MD + 'modelSearch.py'), ('diff', UT + 'genericUtil.py')], ['five results of the search; calls of the list fitter; printed report'])
p('C22', 'Each search round expands the best models and fits only new neighbours',
  'Every round of a search expands exactly the given number of best-scoring not yet expanded models found so far (all of them if fewer), and fits exactly their one-step neighbours under the rules that were never fitted before, each once.',
  ['inputs', 'histories'], 'all searches', 'Tests run at most one tiny real search and do not inspect its frontier.',
  [MD + 'modelSearch.py', KX + 'grammar.py', UT + 'genericUtil.py'], [('model_search_rounds', MD + 'modelSearch.py'), ('expand, unique, diff', KX + 'grammar.py, ' + UT + 'genericUtil.py')], ['expressions handed to the list fitter each round'])
p('C23', 'Continuing a search is the same as having run it longer',
  'Continuing a finished search for further rounds gives the same results as a single search of the total rounds, in any number of continuations, and leaves the results of the earlier search usable and unchanged, so that it can be continued again.',
  ['histories'], 'all searches and all ways to split their rounds', 'Tests never continue a search.',
  [MD + 'modelSearch.py'], [('model_search_rounds', MD + 'modelSearch.py')], ['results of explore_model_space and model_search_rounds'])
p('C24', 'Equivalent search arguments give the same search and are never modified',
  'Searches with equivalent arguments (data as 1-D or 2-D arrays, lists or ranges; beam as an integer or list of any length; verbosity; defaults given or omitted) run identically; data, lists and module-level defaults are never modified, and invalid beams and start kernels are rejected rather than misread. The named groups of start kernels hold the documented expressions.',
  ['inputs', 'histories'], 'all equivalent argument forms', 'Tests call the search in one form.',
  [MD + 'modelSearch.py', KX + 'grammar.py'], [('beam_per_round, input reshaping, make_simple_kexs', MD + 'modelSearch.py, ' + KX + 'grammar.py')], ['list-fitter calls, results, argument and default snapshots'])
p('C25', 'List fitters return one model per kernel, in order, however fits are scheduled',
  'The sequential and the multi-process list fitters return exactly one fitted model per given expression, in the given order, each for its own expression and the given data and options, equal to fitting it alone, whatever the number of cores, list length and order in which fits complete; failures of single fits propagate instead of losing or shifting results.',
  ['schedules', 'inputs', 'fault_sequences'], 'all list lengths, core counts, completion orders and failures', 'Tests run the default pool at most once.',
  [MD + 'modelSearch.py'], [('fit_mods_parallel_processes, fit_mods_not_parallel', MD + 'modelSearch.py'), ('pickling of expressions and kernels', KE + 'base.py')], ['returned models, recorded completion order and processes'])
p('C26', 'Failed fits are retried exactly as often as allowed',
  'A fit that raises an error is retried with a fresh model of the same expression, data and options, warning each time, until it succeeds or the allowed retries are used up, in which case the last error is raised; a success stops retrying and interrupts are never swallowed.',
  ['fault_sequences'], 'all fault sequences, at any point of a fit, for all retry limits, through single fits, list fits and searches', 'Tests never inject failures.',
  [MD + 'modelSearch.py'], [('fit_one_model', MD + 'modelSearch.py')], ['attempts, warnings and outcome of fit_one_model, list fitters and searches'])
p('C27', 'Synthetic data generators produce the requested functions',
  'The synthetic data generators return the given inputs as columns and, at each input, the requested function (switching at the change locations, vertically aligned if requested), scaled, plus independent noise of the requested weight, for any mix of integer and real values.',
  ['inputs'], 'all functions, inputs, change locations, weights and alignment options', 'Tests only use fixed generated data sets.',
  [UT + 'dataAndPlottingUtil.py'], [('generate_data, generate_changepoint_data, generate_changewindow_data', UT + 'dataAndPlottingUtil.py')], ['returned arrays'])
p('C28', 'Collection helpers behind the search satisfy their definitions',
  'Uniqueness, difference, element-wise equality, flattening, unzipping, chunking, grouping, partitioning, folding with a queue and topological sorting return exactly what they are defined to, for hashable and unhashable elements with repetitions, without modifying their arguments.',
  ['inputs'], 'all finite collections', 'Tests do not exercise them directly.',
  [UT + 'genericUtil.py'], [('unique, diff, eq_elems, flatten, ...', UT + 'genericUtil.py')], ['return values and arguments'])
p('C30', 'A fitted model is the best of the requested number of restarts',
  'Fitting runs the requested number of optimisation restarts with the requested optimiser and options, and the fitted model has the parameters of the best of them (its objective is no worse than that of any run); refitting without a number reuses the previous one and never having given one is refused.',
  ['inputs', 'histories'], 'all expressions, data, restart numbers, optimisers and entry points', 'Tests fit with one or a few restarts and never look at the single runs.',
  [MD + 'model.py', MD + 'modelSearch.py', UT + 'modelUtil.py'], [('fit', MD + 'model.py'), ('fit_one_model', MD + 'modelSearch.py')], ['optimisation runs recorded below the fit; objective of the model'])

EXTRA = os.path.join(HOME, 'tools', 'more_properties.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())

NOTE = {'base': 'Exploration: every monitored execution of the real code agreed with an independent oracle; assumes the reference model in gpyv/ref.py and the generators\' reach (bounded depth and width of expressions).'}


def attrs(id):
    t = ast.parse(open(f'{HOME}/gpyv/props/{id.lower()}.py').read()); d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECH', 'ASSUMPTIONS', 'NOTE'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


def main():
    P.sort(key=lambda x: x['id'])
    with open(f'{HOME}/properties.jsonl', 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    checks = []
    for x in P:
        a = attrs(x['id']); id = x['id']
        note = a.get('NOTE') or NOTE['base']
        if a.get('ASSUMPTIONS'): note += ' ' + '; '.join(s[0].upper() + s[1:] for s in a['ASSUMPTIONS']) + '.'
        checks.append({'property': id, 'quick_cmd': f'bash run.sh {id} quick', 'thorough_cmd': f'bash run.sh {id} thorough',
                       'evidence_file': f'evidence/{id}.json', 'technique': a['TECH'], 'level': a['LEVEL'], 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'hooks': {'guard': 'GPYV_HOOKS', 'enable': 'no hooks were needed in /repo: all instrumentation is installed from /verif at run time (wrapping, recording fitters, fault-injecting stand-ins); the guard is reserved and unused', 'source_commits': []},
         'checks': checks, 'not_applicable': [], 'notes': 'Every check imports the code from /repo\'s working tree (pure Python: no build step; numba compilation in-process where natively compiled code is under test).'}
    with open(f'{HOME}/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
    print(len(P), 'properties')


main()
