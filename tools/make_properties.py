"""Writes /verif/properties.jsonl (kept as code so the text is easy to edit)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': ['paragami/' + f for f in files],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'state': [{'name': a, 'meaning': b, 'where': c}
                      for a, b, c in state],
            'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'A saved value and its pattern load back exactly as they were saved',
     'After save_folded returns, load_folded on the same target returns the '
     'bit-identical folded value, a pattern equal to the saved one in every '
     'setting (bounds, sizes, validation and free defaults, member order, '
     'nesting) and every extra array bit-identical.  This holds for string '
     'and pathlib paths (numpy adds the npz suffix if a save is given none, '
     'and loads name the file with it) and for open binary files, for repeated and interleaved saves and loads of any number of '
     'targets (the last save to a target wins), and whatever the storage does '
     'short of failing (short or interrupted reads and writes, clock jumps).',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'every sequence of saves and loads over several targets, from several '
     'threads on distinct targets, for every pattern and value, under every '
     'benign storage behaviour',
     'the tests save two fixed patterns once each to one fresh file and load '
     'them back immediately on a healthy disk',
     ['pattern_containers.py', 'base_patterns.py', 'numeric_array_patterns.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py'],
     [('save_folded', 'pattern_containers.py: flatten non-free + to_json + np.savez'),
      ('load_folded', 'pattern_containers.py: np.load + get_pattern_from_json + fold'),
      ('as_dict/from_json', 'every pattern class')],
     [('the saved file', 'flat_val, pattern_json and the extras', 'an .npz archive')],
     ['return values of load_folded', 'the bytes of the target'])

prop('C02', 'A damaged or half-written save never loads as wrong data',
     'Loading a file that was truncated, lost sectors, suffered a flipped bit, '
     'was cut off by a crash during a save, or was written by two savers or '
     'read during a save, either raises or returns exactly the value and '
     'pattern of one single save that was made to that file, never a mixture, '
     'an altered value or a value with another save\'s pattern.  A load that '
     'raises changes nothing: the file, the patterns and values in the '
     'program, and every later save and load behave as if it had not happened.',
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     'every crash point of every save (process kill and power loss), every '
     'interleaving of savers and loaders of one target, every truncation, lost '
     'sector and single-bit damage at rest',
     'the tests never load a damaged, partial or concurrently written file',
     ['pattern_containers.py'],
     [('load_folded', 'pattern_containers.py'),
      ('archive checksums', 'np.load / zipfile CRC, which load_folded must not bypass'),
      ('length and validity checks of fold', 'every pattern class')],
     [], ['return value or exception of load_folded', 'file bytes'])

prop('C03', 'A save is acknowledged only if the storage took all of it',
     'If the target cannot be opened, written or closed, save_folded raises; if '
     'it returns for a path target, a later load returns that save even when '
     'the process is killed right after.  A save whose value or pattern is '
     'rejected (wrong shape, invalid value, not serialisable) raises before it '
     'touches the target, so the previous contents still load; no save ever '
     'changes the value, the pattern or the extras it was given.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every position and kind of storage error, every kill point, every '
     'rejected argument, in every history of saves',
     'the tests only ever save valid values to a healthy disk',
     ['pattern_containers.py'],
     [('save_folded', 'pattern_containers.py: validation by flatten before np.savez, errors propagate')],
     [], ['exception or return of save_folded', 'file bytes', 'later load_folded'])

prop('C04', 'A PatternDict depends only on its current members, not on its history',
     'After any sequence of member additions, replacements, deletions and '
     're-additions, interleaved with any other use, a PatternDict behaves '
     'exactly like one built freshly with the same members in the same order: '
     'lengths, folding, flattening, indices, names, Jacobians, JSON, equality '
     'and keys.  Replacing keeps a member\'s position, re-adding a deleted '
     'member moves it to the end, each member occupies the contiguous slice '
     'of the flat vector that its position implies, and a dictionary that has '
     'been emptied is a valid pattern of length zero.',
     ['histories', 'inputs'],
     'every sequence of set, replace, delete and lock operations and uses in '
     'between, with every kind of member including nested containers',
     'the tests build a few dictionaries once and delete one member of one',
     ['pattern_containers.py'],
     [('__setitem__/__delitem__', 'pattern_containers.py: recompute the cached lengths'),
      ('fold/flatten/flat_indices', 'pattern_containers.py: running offset')],
     [('cached lengths', '_flat_length, _free_flat_length', 'base_patterns.py'),
      ('member table', 'ordered dictionary and lock flag', 'pattern_containers.py')],
     ['every public method of PatternDict'])

prop('C05', 'A rejected change to a PatternDict leaves no trace',
     'Every change to the members of a locked dictionary (locked by lock(), or '
     'by having been added to another dictionary at any depth) raises '
     'ValueError, assigning '
     'something that is not a pattern raises, and deleting a missing member '
     'raises KeyError; in every case the dictionary, its parents and the '
     'rejected object are exactly as before.  In particular a sub-dictionary '
     'whose insertion was rejected is not locked by the attempt, locking is '
     'permanent and never affects reading, and a parent\'s layout can never '
     'change through a member.',
     ['histories', 'fault_sequences'],
     'every history of valid and invalid changes over a set of dictionaries '
     'that contain one another',
     'the tests try one assignment and one deletion on one locked dictionary '
     'and do not look at the state afterwards',
     ['pattern_containers.py'],
     [('_check_lock', 'pattern_containers.py'),
      ('locking on inclusion', 'pattern_containers.py: __setitem__')],
     [('lock flag', 'set by lock() and by inclusion', 'pattern_containers.py')],
     ['exceptions of __setitem__ / __delitem__', 'every public method afterwards'])

prop('C06', 'An explicit free argument always wins; defaults are never mixed',
     'In every operation an explicit free=True or free=False is obeyed '
     'whatever the defaults are now or were before; free=None uses the current '
     'free_default of the pattern it is called on and raises ValueError if '
     'that is None.  A container never uses its members\' defaults, and random '
     'values, Jacobians, JSON and saving do not depend on any free_default '
     '(other than recording it); a thread that passes free explicitly is '
     'unaffected by another thread that changes defaults at any moment.',
     ['histories', 'schedules', 'configurations'],
     'every history of setting defaults on patterns, containers and their '
     'members, with every operation, and every interleaving of explicit '
     'callers with threads toggling defaults',
     'the tests set each default once on a single pattern and compare two calls',
     ['base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py'],
     [('_free_with_default', 'base_patterns.py'),
      ('containers pass free explicitly to members', 'pattern_containers.py')],
     [('free_default', 'attribute of every pattern', 'base_patterns.py')],
     ['fold', 'flatten', 'flat_length', 'flat_indices'])

prop('C07', 'Concurrent use of shared patterns equals use one at a time',
     'Any number of threads may call non-modifying operations (fold, flatten, '
     'validate, indices, lengths, names, empty values, Jacobians, '
     'log-determinants, JSON, equality) on the same pattern, or on patterns '
     'that share members, at the same time.  Every call returns what it '
     'returns when it is the only call in the program, under every '
     'interleaving, and the patterns are unchanged afterwards.',
     ['schedules', 'inputs'],
     'every interleaving of every combination of operations by several '
     'threads, on patterns shared directly or as members',
     'the tests are single-threaded',
     ['base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py'],
     [('operations keep no scratch state on the pattern', 'all pattern classes'),
      ('read-only index caches', 'numeric_array_patterns.py')],
     [('cached indices', 'filled once in __init__', 'numeric_array_patterns.py')],
     ['results of every call'])

prop('C08', 'A failing or interrupted operation leaves patterns as they were',
     'If a non-modifying operation of a pattern ends with an exception at any '
     'point (rejected argument, KeyboardInterrupt, MemoryError, exception from '
     'a member or a wrapped function), the pattern, its members and the '
     'arguments are unchanged.  Every later operation on them gives the result '
     'it would have given had the failed operation never been started.',
     ['fault_sequences', 'histories', 'crash_points'],
     'every operation, every point inside it at which an exception can '
     'arrive, every sequence of such failures',
     'the tests check that some bad arguments raise, not what is left behind, '
     'and cannot stop an operation half way',
     ['base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py', 'function_patterns.py'],
     [('no intermediate state on the pattern', 'all pattern classes'),
      ('validation before use', 'all pattern classes')],
     [], ['results of operations after a failure'])

prop('C09', 'Patterns never share memory with callers in a way that shows',
     'No operation changes an array or dictionary passed to it, and no array, '
     'list or dictionary a caller passed in or got back earlier can be used to '
     'change how a pattern behaves later.  Results of flatten, of fold with '
     'free=True, and of empty, random, indices, names and Jacobians are the '
     'caller\'s own: writing into them never changes an argument, another '
     'result or the pattern, and later calls never change them.',
     ['histories', 'inputs'],
     'every history of operations interleaved with writes by the caller into '
     'arguments and results of earlier operations, including reused buffers',
     'the tests use every array once and never write into results',
     ['numeric_array_patterns.py', 'pattern_containers.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py'],
     [('copies in (un)constrain and flatten', 'numeric_array_patterns.py'),
      ('fresh containers per call', 'pattern_containers.py')],
     [], ['argument and result arrays after later calls and writes'])

prop('C10', 'Pattern instances and their copies are independent',
     'Two patterns built separately, a pattern and its deep copy, and a '
     'pattern and the one read back from its JSON are equal when they are made '
     'and never influence each other afterwards: changing a default, adding, '
     'replacing or deleting members, locking or any use of one has no effect '
     'on the other.  Every operation of a copy (including its Jacobians) uses '
     'the copy\'s own settings.',
     ['histories'],
     'every history of building, copying, re-reading, modifying and using a '
     'set of patterns',
     'the tests never modify a copy and then look at the original, or the '
     'other way round',
     ['base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py'],
     [('no class-level mutable state', 'all pattern classes'),
      ('Jacobians bound to the instance', 'base_patterns.py')],
     [], ['every public method of the original and the copy'])

prop('C11', 'The JSON registry resolves every name to what was registered last',
     'A pattern class can be read back from JSON, alone or inside containers '
     'and saved files, exactly when its name is registered, and is then '
     'rebuilt by the class registered last under that name.  Registering a '
     'name twice without allow_overwrite raises ValueError and changes '
     'nothing, an unregistered or missing name raises KeyError and changes '
     'nothing, and lookups of other names by other threads are unaffected by '
     'registrations in progress.',
     ['histories', 'schedules'],
     'every history of registrations (new, duplicate, overwriting, rejected) '
     'and lookups (single, nested, unregistered, malformed), and every '
     'interleaving of lookups with registrations of other names',
     'the tests register one class twice and look it up once',
     ['pattern_containers.py'],
     [('register_pattern_json', 'pattern_containers.py'),
      ('get_pattern_from_json', 'pattern_containers.py')],
     [('registry', 'name to class', 'pattern_containers.py: module level')],
     ['return or exception of registration and lookup'])

prop('C12', 'Function wrappers are the plain composition on every call',
     'A wrapped function always returns exactly what converting the selected '
     'arguments, calling the original function with all positional and '
     'keyword arguments in place, and converting the selected results gives, '
     'whatever was called before, re-entrantly or by other threads.  The '
     'original function is called exactly once per call (not at all if an '
     'argument is rejected), its exceptions reach the caller unchanged, and '
     'neither a failing call nor the caller\'s later changes to the lists '
     'passed at construction affect later calls.',
     ['histories', 'schedules', 'fault_sequences', 'configurations'],
     'every combination of patterns, argnums, retnums and free flags; every '
     'history of succeeding, failing, re-entrant and concurrent calls',
     'the tests call each wrapper once or twice with a function that succeeds',
     ['function_patterns.py'],
     [('__call__', 'function_patterns.py: TransformFunctionInput / Output'),
      ('argnum sorting', 'function_patterns.py')],
     [], ['arguments seen by the original function', 'results and exceptions'])

prop('C13', 'The latest preconditioner is the one in force, everywhere',
     'After any sequence of setting preconditioners (identity, dense or sparse '
     'matrix with or without inverse, functions, Hessian given or evaluated at '
     'a point with eigenvalue thresholds, sparse Cholesky factors), '
     'precondition, unprecondition, both matrix representations, calls and '
     'derivatives of the function all use exactly the last one set, so that '
     'f_c(x_c) = f(A x_c) and precondition undoes unprecondition.  The Hessian '
     'used is that of the original function in the original space, whatever '
     'preconditioner was in force when it was evaluated, and several '
     'preconditioned functions of one objective do not affect each other.',
     ['histories', 'inputs'],
     'every sequence of preconditioner settings and evaluations on several '
     'objects',
     'the tests set one preconditioner on a fresh object each time',
     ['optimization_lib.py', 'sparse_preconditioners_lib.py',
      'autograd_supplement_lib.py'],
     [('set_preconditioner_functions', 'optimization_lib.py'),
      ('_get_sym_matrix_inv_sqrt_funcs', 'optimization_lib.py'),
      ('get_sym_matrix_inv_sqrt_funcs', 'sparse_preconditioners_lib.py')],
     [('_a_times, _a_inv_times', 'the preconditioner in force', 'optimization_lib.py')],
     ['results of every method of PreconditionedFunction'])

prop('C14', 'A failed preconditioner change leaves the previous one in force',
     'If setting a preconditioner raises (both or neither of x and hessian '
     'given, sparse Hessian, singular matrix without inverse, an objective '
     'that raises while its Hessian is evaluated, an eigenvalue failure, an '
     'interrupt before the change took effect), the object keeps working with '
     'the previous preconditioner and its exact previous inverse, never with '
     'one from the old and one from the new.  A failing evaluation of the '
     'objective likewise changes nothing, and a successful change replaces '
     'the preconditioner and its inverse together.',
     ['fault_sequences', 'histories', 'crash_points'],
     'every kind of failure and every point inside a setting operation at '
     'which an exception can arrive before it has taken effect, in every '
     'history of settings',
     'the tests check that some bad calls raise, not what the object does '
     'afterwards',
     ['optimization_lib.py'],
     [('compute first, assign last', 'optimization_lib.py: set_preconditioner_*')],
     [('_a_times, _a_inv_times', 'the preconditioner in force', 'optimization_lib.py')],
     ['precondition / unprecondition after a failure'])

prop('C15', 'Evaluations are counted, printed and logged exactly as configured',
     'f(x) returns the objective\'s value; num_iterations is the number of '
     'evaluations that completed since the last count reset, derivatives and '
     'evaluations in which the objective, the printing or the logging raised '
     'not counting.  Evaluation number n (counting from 0) is printed exactly '
     'when n is a multiple of the current print_every and logged as (n, x, '
     'f(x)) exactly when it is a multiple of the current log_every, 0 meaning '
     'never; resets affect only what they name, and objects do not affect '
     'each other.',
     ['histories', 'fault_sequences', 'configurations'],
     'every history of evaluations, derivatives, setting changes and resets '
     'with objectives, printing and logging that fail at arbitrary calls, on '
     'several objects',
     'the tests make a handful of successful evaluations with two settings',
     ['optimization_lib.py'],
     [('f', 'optimization_lib.py: evaluate, print, log, count'),
      ('reset, reset_iteration_count, reset_log', 'optimization_lib.py')],
     [('_num_f_evals, optimization_log', 'count and log', 'optimization_lib.py')],
     ['stdout', 'optimization_log', 'num_iterations'])

prop('C16', 'Log entries are an immutable history of the optimisation',
     'An entry of the optimisation log keeps the iteration number, argument '
     'and value of the evaluation it records, whatever is evaluated later and '
     'whatever the caller or the optimiser later does with the array it passed '
     'in or with the gradient and Hessian arrays it received.  Entries stay in '
     'evaluation order, and a log obtained before reset_log stays intact.',
     ['histories'],
     'every history of evaluations by callers that reuse, overwrite and update '
     'their argument arrays in place',
     'the tests pass a fresh array to every evaluation',
     ['optimization_lib.py'],
     [('log_value', 'optimization_lib.py'), ('reset_log', 'optimization_lib.py')],
     [('optimization_log', 'list of (iteration, x, value)', 'optimization_lib.py')],
     ['optimization_log at the end of the run'])

prop('C17', 'Random parameters are valid and driven only by numpy\'s generator',
     'random() is a function of the pattern and of the state of numpy\'s '
     'global generator alone: restoring the state reproduces the value, on the '
     'same pattern, a copy or an equal one, whatever happened in between, and '
     'successive draws differ.  Every value is a valid member of the pattern '
     'with the right shape, and no other operation draws from or reseeds the '
     'global generator.',
     ['histories', 'inputs'],
     'every history of draws, reseeds, other random consumers and other '
     'operations, over several patterns',
     'the tests draw values to use them, without checking what drives them',
     ['base_patterns.py', 'pattern_containers.py'],
     [('random', 'base_patterns.py: np.random.random, then free fold')],
     [('numpy global generator', 'the only source of randomness', 'numpy')],
     ['return values of random()', 'np.random.get_state()'])

prop('C18', 'Differentiable operators stay bound to their own matrix',
     'Each pair of functions made from a sparse matrix, from solver callbacks '
     'or from a sparse Hessian keeps computing products, solves and square '
     'roots with its own matrix, and its forward and reverse derivatives of '
     'any order agree with that matrix, however many other such pairs exist '
     'or are in use and in whatever order they are called, nested or '
     'differentiated.  An exception from a solver or a rejected argument '
     'reaches the caller and affects no later call of this or any other '
     'operator.',
     ['histories', 'fault_sequences', 'inputs', 'schedules'],
     'every history of creating, calling, composing and differentiating many '
     'operators with callbacks that fail at arbitrary calls',
     'the tests make one operator at a time from one matrix',
     ['autograd_supplement_lib.py', 'sparse_preconditioners_lib.py'],
     [('get_sparse_product', 'autograd_supplement_lib.py'),
      ('get_differentiable_solver', 'autograd_supplement_lib.py'),
      ('get_sym_matrix_inv_sqrt_funcs', 'sparse_preconditioners_lib.py')],
     [], ['values and derivatives of the operators'])

prop('C19', 'An optimisation computes the original function and can be taken up again',
     'An optimisation built from FlattenFunctionInput, PreconditionedFunction '
     'and OptimizationObjective evaluates, at every point, exactly the '
     'original function of the folded parameter (value, gradient, Hessian and '
     'Hessian-vector product, and the values logged), whatever happened '
     'before: failing or interrupted evaluations, earlier descents, changed '
     'preconditioners or free defaults, copies of the patterns, or other '
     'optimisations in other threads.  Started again from the last good '
     'point, a log entry, or a checkpoint saved with save_folded, in this '
     'process or after a crash, it continues as an undisturbed optimisation '
     'from that point would; failed later checkpoints do not harm a finished '
     'one.',
     ['histories', 'fault_sequences', 'schedules', 'crash_points', 'inputs'],
     'every history of descents by different optimisers, settings, failures, '
     'checkpoints and restarts, over every pattern',
     'the tests evaluate each piece on its own, once, with nothing failing',
     ['optimization_lib.py', 'function_patterns.py', 'pattern_containers.py',
      'autograd_supplement_lib.py'],
     [('FlattenFunctionInput.__call__', 'function_patterns.py'),
      ('PreconditionedFunction', 'optimization_lib.py'),
      ('OptimizationObjective', 'optimization_lib.py'),
      ('save_folded, load_folded', 'pattern_containers.py')],
     [], ['objective values and derivatives, points reached, logs, checkpoints'])

prop('C20', 'A failed or interrupted import can be repeated and leaves no trace',
     'Importing paragami or one of its modules may fail or be interrupted at '
     'any point (Ctrl-C, exhausted memory, a missing dependency, an '
     'unreadable source file, several threads importing at once) and can then '
     'simply be repeated; the package obtained behaves as after an '
     'undisturbed import.  A git that fails does not make the import fail, and a missing '
     'scikit-sparse concerns sparse_preconditioners_lib only.  Importing '
     'leaves the rest of the process alone: random states, numpy error and '
     'print settings, warning filters, signal handlers, environment, working '
     'directory and the existing derivative rules of autograd are unchanged, '
     'and a successful import prints nothing.',
     ['fault_sequences', 'crash_points', 'schedules', 'configurations'],
     'every sequence of failing, interrupted, concurrent and repeated imports '
     'at every line of every module',
     'the tests import the package once, undisturbed, before they start',
     ['__init__.py', '_version.py', 'pattern_containers.py',
      'autograd_supplement_lib.py', 'sparse_preconditioners_lib.py',
      'numeric_array_patterns.py', 'psdmatrix_patterns.py',
      'simplex_patterns.py'],
     [('module level code', 'every module'),
      ('register_pattern_json', 'pattern_containers.py'),
      ('get_versions', '_version.py'),
      ('defjvp rules', 'autograd_supplement_lib.py')],
     [], ['outcome of imports, behaviour of the package, process state'])

prop('C21', 'Using the package neither changes nor depends on the process settings',
     'No operation of the package, whether it succeeds, fails or is '
     'interrupted, and whether or not others run at the same time, changes '
     'the settings of the process: numpy\'s error handling, print options and '
     'random state (except by random()), Python\'s random state, warning '
     'filters, recursion limit, garbage collector, signal handlers, '
     'environment, working directory, the functions and derivative rules of '
     'numpy, scipy and autograd.  User callbacks run '
     'under the caller\'s settings, no file stays open after a save or a '
     'failed load, and results do not depend on print options, warning '
     'filters, random states, the working directory or similar settings.',
     ['histories', 'fault_sequences', 'schedules', 'configurations'],
     'every history of operations, saves, loads and optimisations with '
     'failures, interrupts and threads, in a process with any settings',
     'the tests run under ordinary settings and look at results only',
     ['base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py',
      'psdmatrix_patterns.py', 'simplex_patterns.py', 'function_patterns.py',
      'optimization_lib.py', 'autograd_supplement_lib.py'],
     [('no process-wide state', 'every module'),
      ('Pattern.random', 'base_patterns.py'),
      ('save_folded, load_folded', 'pattern_containers.py')],
     [], ['process settings before, during callbacks and after; results'])

# ---- properties outside the family (pure functions of one input) -----------

prop('C30', 'Folding and flattening are inverse to each other',
     'For every pattern, every valid folded value and either free setting, '
     'fold(flatten(value)) returns the value, and flatten(fold(vector)) '
     'returns the vector for every vector of the right length.',
     ['inputs', 'configurations'], 'every pattern, value and flat vector',
     'the tests use a few patterns and random values',
     ['numeric_array_patterns.py', 'psdmatrix_patterns.py',
      'simplex_patterns.py', 'pattern_containers.py'],
     [('fold/flatten', 'every pattern class')])
prop('C31', 'Every free vector folds to a valid value',
     'Folding any finite vector of the free length with free=True gives a '
     'value that satisfies the pattern\'s constraints up to rounding.',
     ['inputs', 'configurations'], 'every pattern and finite free vector',
     'the tests use a few random vectors of moderate size',
     ['numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py'],
     [('_constrain_array, _unpack_posdef_matrix, _constrain_simplex_matrix',
       'pattern modules')])
prop('C32', 'Validation accepts exactly the values a pattern describes',
     'validate_folded, fold and flatten accept a value exactly when its shape '
     'matches and, if values are validated, its entries satisfy the bounds, '
     'symmetry or normalisation of the pattern.',
     ['inputs', 'configurations'], 'every pattern and candidate value',
     'the tests use a few invalid values per pattern',
     ['numeric_array_patterns.py', 'psdmatrix_patterns.py',
      'simplex_patterns.py', 'pattern_containers.py'],
     [('validate_folded', 'every pattern class')])
prop('C33', 'Jacobians and log-determinants are those of the transforms',
     'freeing_jacobian and unfreeing_jacobian are the derivatives of the maps '
     'between free and non-free flat vectors, inverse to each other where '
     'square, and the log-determinants are theirs.',
     ['inputs', 'configurations'], 'every pattern and valid interior value',
     'the tests compare with autograd at a few random values',
     ['base_patterns.py', 'numeric_array_patterns.py', 'simplex_patterns.py',
      'pattern_containers.py'],
     [('freeing_jacobian, unfreeing_jacobian, log_abs_det_*', 'pattern modules')])
prop('C34', 'flat_indices returns exactly the positions that matter',
     'flat_indices returns the flat positions that the selected folded '
     'elements occupy (non-free) or may depend on (free).',
     ['inputs', 'configurations'], 'every pattern and boolean selection',
     'the tests select single entries of a few patterns',
     ['numeric_array_patterns.py', 'psdmatrix_patterns.py',
      'simplex_patterns.py', 'pattern_containers.py'],
     [('flat_indices', 'every pattern class')])
prop('C35', 'Grouped sums, replacement and forward derivatives are correct',
     'grouped_sum, replace and the added forward-mode rules return the '
     'mathematical value and its derivatives for every valid input.',
     ['inputs'], 'every array, grouping, index set and direction',
     'the tests use a few fixed shapes',
     ['autograd_supplement_lib.py'],
     [('grouped_sum, replace, defjvp rules', 'autograd_supplement_lib.py')])
prop('C36', 'Eigenvalue truncation and inverse square roots are exact',
     'truncate_eigenvalues clips exactly the eigenvalues outside the '
     'thresholds, and transform_eigenspace is the identity orthogonal to the '
     'given eigenvectors and scales along them as requested.',
     ['inputs'], 'every spectrum, basis and threshold pair',
     'the tests use a few random matrices',
     ['optimization_lib.py'],
     [('truncate_eigenvalues, transform_eigenspace', 'optimization_lib.py')])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
