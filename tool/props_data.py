P('O01', 'Recorded arithmetic denotes the expression that was written',
  'For every operator and mathematical function of the recording type, every combination of constant and recorded operands, the value the result '
  'denotes (its constant, or the recorded operation graph read with ordinary mathematical meaning) equals the written expression of the operands. '
  'This includes compound assignment (also of an object with itself), negation, conditional expressions, and the shortcuts taken when an operand '
  'is the constant zero or one.',
  ['inputs', 'programs'], 'every operator/function, every constant/recorded combination of operands, every finite operand value, aliased operands',
  'the tests record a handful of models and compare numbers at a few points; operand-kind combinations with special constants are not enumerated',
  ['arithmetic.hpp', 'arithmetic_assign.hpp', 'math.hpp', 'math_other.hpp', 'unary.hpp', 'cond_exp_op.hpp', 'cg.hpp'],
  [('operator overloads', 'arithmetic.hpp'), ('compound assignment', 'arithmetic_assign.hpp'), ('math functions', 'math.hpp')])

P('O02', 'Operands of two recording sessions are never mixed',
  'Combining two recorded operands that belong to different recording sessions in any operator, function, comparison-driven selection or atomic '
  'call raises an error before anything is recorded, in debug and release builds alike.',
  ['programs', 'inputs'], 'every binary/ternary entry point of the recording type, any two operands with different owners',
  'existing tests use one session per test; nothing tries mixed operands, and release builds are never tested',
  ['arithmetic.hpp', 'arithmetic_assign.hpp', 'math_other.hpp', 'cond_exp_op.hpp', 'abstract_atomic_fun.hpp'],
  [('owner lookup', 'arithmetic.hpp'), ('compound assignment', 'arithmetic_assign.hpp')])

P('O03', 'Comparing recorded values is exact or refused',
  'Every comparison and classification query on recorded values (ordering, equality, sign tests, identical-zero/one/constant, integer conversion) '
  'returns exactly the answer for the values when both values are known, and raises an error or gives the conservative answer when a value is not '
  'known; no comparison records or changes anything.',
  ['inputs', 'programs'], 'every comparison entry point, every known/unknown combination of operands, all ordered value pairs',
  'a test compares particular numbers; a wrong answer for one known/unknown combination silently freezes a branch in generated code',
  ['compare.hpp', 'ordered.hpp', 'identical.hpp'],
  [('comparison operators', 'compare.hpp'), ('ordered queries', 'ordered.hpp')])

P('L01', 'Generated C expressions denote the recorded operation',
  'For every operation that can be recorded and every nesting of operations inside others, the C expression or statement that is generated, read '
  'with the precedence and semantics of C, has the value of the recorded operation applied to its operands in their recorded order. Constants keep '
  'their value and sign, and conditional assignments assign the branch selected by the recorded comparison.',
  ['programs', 'inputs'], 'every operation, every nesting of two/three operations at every operand position, constants of either sign',
  'tests compile a fixed set of models; a missing parenthesis or swapped operand shows only for particular nestings',
  ['lang/c/language_c.hpp', 'lang/c/language_c_double.hpp', 'lang/c/language_c_float.hpp'],
  [('expression emitter', 'lang/c/language_c.hpp'), ('conditional assignment emitter', 'lang/c/language_c.hpp')])

P('E01', 'Re-evaluating recorded expressions reproduces the recorded values',
  'Evaluating recorded expressions again (Evaluator on plain, AD or recorded scalars) gives, for every recorded operation code, the value of the '
  'recorded operation with its arguments in their recorded order, and passes every atomic function call on with the recorded direction, orders and '
  'argument arrays. Sub-expressions shared by several results give the same value wherever they are used, wrong argument counts are refused with an '
  'error, and an evaluation does not depend on earlier evaluations made with the same evaluator, failed ones included.',
  ['programs', 'inputs', 'histories'], 'every operation code, every argument position, atomic calls of every direction and order, repeated and failed evaluations',
  'tests evaluate a few models once; atomic calls above order zero and evaluator reuse after errors are not exercised',
  ['evaluator/evaluator.hpp', 'evaluator/evaluator_ad.hpp', 'evaluator/evaluator_cg.hpp', 'evaluator/evaluator_adcg.hpp'],
  [('operation dispatch', 'evaluator/evaluator.hpp'), ('atomic operations on recorded scalars', 'evaluator/evaluator_cg.hpp')])

P('S01', 'Solving a recorded equation gives the inverse of the equation',
  'When the solver is asked to solve a recorded equation (expression equals zero) for a variable, the expression it returns satisfies the equation '
  'for that variable, whichever invertible operation and argument position the variable occurs at, however these are nested, and also when the '
  'variable occurs several times in sums, differences, and products or quotients with other terms. It refuses with an error what it cannot solve, '
  'the solvable query agrees with what solving does, and solving does not change the recorded equation.',
  ['programs', 'inputs'], 'every invertible operation, argument position, nesting of two operations, and pair of occurrences of the unknown in sums and differences',
  'solver tests use a dozen hand-picked equations; sign and position errors show only for particular nestings',
  ['solver.hpp', 'collect_variable.hpp', 'evaluator/evaluator_solve.hpp', 'graph_mod.hpp', 'operation_path.hpp'],
  [('inverse operation per path step', 'solver.hpp'), ('coefficient collection', 'collect_variable.hpp'), ('path search', 'operation_path.hpp')])

P('T01', 'Thread pool shared state is accessed without data races',
  'In the thread pool that is compiled into multithreaded model libraries, every access to state shared between the threads of the pool and the '
  'calling thread (job queue, counters, wake-up flag, configuration read by threads) happens under the lock that protects that state, before the state is '
  'shared, or after the threads ended. Locks are always released, taken in one order, never held while a job runs, and a thread that waits '
  'for a condition tests it again under its lock when it is woken.',
  ['schedules', 'histories'], 'every access to shared state, every path through every function of the pool, any number of threads',
  'tests run a few jobs on an idle machine; a missing lock shows only under a rare interleaving',
  ['model/threadpool/pthread_pool.c'],
  [('job queue and its mutex', 'model/threadpool/pthread_pool.c'), ('binary semaphore', 'model/threadpool/pthread_pool.c'), ('thread counters', 'model/threadpool/pthread_pool.c')])

P('T02', 'Work given to the thread pool is done exactly once and waiting ends',
  'Every job submitted to the thread pool is run exactly once with its own argument, with every scheduling strategy, number of threads and timing '
  'information, with jobs submitted one by one or in groups, also when the strategy, the number of threads or the order changes between '
  'submissions, the pool is disabled or threads cannot be created. Waiting returns only when all of it is done, and does return; submitted work wakes idle '
  'threads; measured times are stored for the job they belong to and the derived execution order is a permutation of the jobs. '
  'Shutting down releases all memory exactly once, when no thread can use it any more.',
  ['schedules', 'histories', 'inputs'], 'every strategy, small numbers of jobs and threads, all comparisons of measured times, sequences of submissions, shutdown with pending work',
  'tests run fixed workloads with one configuration; lost wake-ups, forgotten groups and double execution need particular sequences',
  ['model/threadpool/pthread_pool.c', 'model/threadpool/pthread_pool.h'],
  [('submission', 'model/threadpool/pthread_pool.c'), ('distribution of work', 'model/threadpool/pthread_pool.c'), ('waiting', 'model/threadpool/pthread_pool.c')])

P('M02', 'Loaded compiled models call the compiled functions correctly',
  'A model loaded from a compiled library computes each result - values, dense and sparse Jacobians and Hessians, first order forward and first and '
  'second order reverse directions, sparsity patterns - by calling the compiled function made for it with the arrays the caller gave, in their '
  'right roles, and puts every element of the result where the caller expects it, with every argument container type and calling form (results returned, filled in, or for one equation). It refuses with an error, before '
  'anything compiled runs, when the library is closed, the needed function was not generated, an atomic function it needs has not been provided, '
  'or an array is too short; it reports a failure status of the compiled function. Availability queries agree with what evaluation does, results do not '
  'depend on earlier evaluations, failed ones included, moved models keep working, and a model that was not generated for the loading interface is refused.',
  ['inputs', 'histories', 'configurations'], 'every public evaluation, sparsity and availability method and overload; each compiled function present or absent; '
  'library open or closed; each argument size right or wrong; pairs of consecutive calls',
  'tests load a few complete libraries and call each method with valid arguments; overloads, missing functions and wrong sizes are mostly not exercised',
  ['model/functor_generic_model.hpp', 'model/generic_model.hpp', 'model/dynamic_lib/linux/linux_dynamiclib_model.hpp'],
  [('evaluation methods', 'model/functor_generic_model.hpp'), ('function loading', 'model/functor_generic_model.hpp')])

P('G01', 'Generated C sources compute the recorded functions',
  'For any recorded function, the C sources generated from it compile, write every dependent variable, use no value and no array element before it was '
  'written in the same call, stay inside the arrays they declare, and leave in each dependent the value of its recorded expression - with every combination of '
  'generation options (splitting in several functions, reuse of temporaries, limits on operations per assignment, names, zeroing) and however '
  'operations share operands, dependents repeat, alias or use each other, and atomic functions are called. Generating again from the same session, with the '
  'same or other dependents and options, gives sources with the same guarantees.',
  ['programs', 'configurations', 'histories'], 'enumerated and pseudo-random recorded graphs with all operations, sharing patterns, dependents, '
  'atomic calls of each direction and order, option combinations and sequences of generations; all operand values',
  'the tests generate a few dozen fixed models with default options; defects need particular sharing, option or ordering combinations',
  ['code_handler.hpp', 'code_handler_impl.hpp', 'lang/c/language_c.hpp', 'lang/c/language_c_arrays.hpp', 'lang/c/lang_c_default_var_name_gen.hpp'],
  [('evaluation order and variable ids', 'code_handler_impl.hpp'), ('C emission', 'lang/c/language_c.hpp'), ('array elements kept between calls', 'lang/c/language_c_arrays.hpp')])

P('M01', 'Generated model libraries compute what was requested',
  'For any recorded model, the sources generated for a model library contain exactly the functions that were asked for, compile, and describe themselves '
  'correctly (dimensions, atomic functions, which functions exist). Called with the argument convention of the library interface they compute the values, dense and sparse Jacobians and '
  'Hessians, first order forward and first and second order reverse directions of the recorded function; the reported sparsity patterns and element '
  'positions are those of the returned elements, for the whole pattern or a requested set of elements in the requested order, whatever differentiation '
  'mode, reuse of directional functions, multithreading, names, limits on assignments per function, and atomic function calls are used.',
  ['programs', 'configurations', 'inputs'], 'enumerated and pseudo-random recorded models, all combinations of the generation switches sampled, requested element subsets, atomic calls',
  'tests generate a few dozen models with default switches; index mistakes need particular sparsity, element orders and switch combinations',
  ['model/model_c_source_gen.hpp', 'model/model_c_source_gen_impl.hpp', 'model/model_c_source_gen_jac.hpp', 'model/model_c_source_gen_hes.hpp',
   'model/model_c_source_gen_for0.hpp', 'model/model_c_source_gen_for1.hpp', 'model/model_c_source_gen_rev1.hpp', 'model/model_c_source_gen_rev2.hpp'],
  [('sparse Jacobian and Hessian sources', 'model/model_c_source_gen_jac.hpp'), ('second order reverse sources', 'model/model_c_source_gen_rev2.hpp'), ('model description', 'model/model_c_source_gen_impl.hpp')])

P('T03', 'Multithreaded sparse derivative functions are deterministic',
  'The generated multithreaded sparse Jacobian and Hessian functions give every job an own part of the memory: no job writes what another job reads or writes, '
  'whatever the order or overlap in which the threads run them, all jobs are complete when the function returns, every element of the result '
  'is written by exactly one job, and the results are those of the single threaded function, with threads enabled, disabled, and with measured (benchmark) '
  'execution, for POSIX threads and OpenMP.',
  ['schedules', 'programs', 'configurations'], 'models, directions and element sets enumerated; every pair of jobs (for all orders and interleavings, by disjointness of their accesses)',
  'tests run a few models on idle machines; shared scratch memory only shows under particular interleavings',
  ['model/model_c_source_gen_jac.hpp', 'model/model_c_source_gen_hes.hpp', 'model/model_c_source_gen_impl.hpp', 'model/threadpool/openmp.c'],
  [('multithreaded Jacobian', 'model/model_c_source_gen_jac.hpp'), ('multithreaded Hessian', 'model/model_c_source_gen_hes.hpp'), ('OpenMP loop', 'model/model_c_source_gen_impl.hpp')])

P('M03', 'Loaded libraries and models stay usable until they are closed',
  'A generated library loads: its files compile together, it reports its version, exactly the models it was generated from (models added late included) '
  'and every function the loading classes call has the type it is called with. A library of another version, or without a required function, is refused '
  'and released again. While a library object exists, its models evaluate as generated, also after the library object or the models were moved and through '
  'the atomic functions made from them; after it is destroyed they refuse to be evaluated instead of calling into the closed library, and can still be '
  'destroyed. Libraries, models and atomic functions can be destroyed in any order: nothing destroyed is used, nothing is destroyed twice, each library is '
  'closed once after its worker threads were stopped. Multithreading settings (enabled, threads, strategy, verbosity, guided work, measurements) given to '
  'a library reach its thread pool or OpenMP setup, can be read back, and do not change each other.',
  ['histories', 'configurations'], 'every order of opening, obtaining, evaluating, moving and destroying up to two libraries and two models; every '
  'threading back end, set of models and setting',
  'tests open one library, use it and let everything go out of scope in one fixed order; nothing moves or destroys in another order, and settings are only set',
  ['model/dynamic_lib/linux/linux_dynamiclib.hpp', 'model/dynamic_lib/linux/linux_dynamiclib_model.hpp', 'model/functor_model_library.hpp',
   'model/model_library_c_source_gen_impl.hpp', 'model/generic_model.hpp', 'model/atomic_generic_model.hpp'],
  [('library lifetime', 'model/dynamic_lib/linux/linux_dynamiclib.hpp'), ('library sources', 'model/model_library_c_source_gen_impl.hpp')])

P('K02', 'Configured options are reported back and leave other options alone',
  'Every option of the configurable classes (source and library generators, language writers, evaluators, compiler and archiver drivers, DAE '
  'index reduction, job timers) that can be queried reports the value it was last set to, whatever else the object holds, and setting one option never changes the '
  'reported value of another.',
  ['inputs', 'histories'], 'every setter with its query, several values of the option type, on objects with all other members on and off',
  'the tests set options and look at the generated results of a few combinations, the queries are mostly not called',
  ['model/model_c_source_gen.hpp', 'model/model_library_c_source_gen.hpp', 'lang/c/language_c.hpp', 'code_handler.hpp', 'model/compiler/abstract_c_compiler.hpp'],
  [('generation switches', 'model/model_c_source_gen.hpp'), ('language options', 'lang/c/language_c.hpp')])

P('A01', 'Recorded atomic calls have the values and derivatives of the function',
  'Using an atomic function while recording - a user function or an operation sequence wrapped in a bridge, in forward or reverse mode, of order zero or one, with any mixture of variables with '
  'and without known values, parameters and zeros - gives results which are the Taylor coefficients or adjoints of the function: in the generated code, as known values, '
  'and as plain numbers. Results that are dropped as zero are zero. The sparsity patterns reported for it are the products of the patterns of the function with the given ones, at the '
  'point given, restricted to the custom elements of a bridge, whatever was asked before; every function has an identifier of its own.',
  ['inputs', 'programs', 'histories'], 'mixtures of variables, parameters and zeros at every argument of functions of several shapes, both directions, orders 0 and 1; sequences of pattern queries and custom elements',
  'the tests use atomic functions with variables everywhere and compare a few models; parameters and zeros among the arguments and repeated queries are not enumerated',
  ['abstract_atomic_fun.hpp', 'base_abstract_atomic_fun.hpp', 'atomic_fun.hpp', 'atomic_fun_bridge.hpp', 'custom_position.hpp', 'util.hpp'],
  [('recording of atomic calls', 'abstract_atomic_fun.hpp'), ('cached patterns', 'atomic_fun_bridge.hpp')])

P('X01', 'Compiled models and atomic functions can stand in for each other',
  'A compiled model used as an atomic function (of CppAD, or inside another compiled model) and an atomic function used by a compiled model compute the same: the adapters pass every operand at its '
  'position, dense or sparse, convert results back to their places, report exactly the sparsity of the model, leave nothing undefined, and report a failure or an order they do not support instead '
  'of returning wrong numbers.',
  ['inputs', 'configurations'], 'every order and direction, every dense or sparse operand layout of small dimensions, every sparsity pattern pair, every failure of the wrapped function',
  'tests nest a few models; sparse operands with gaps, partial patterns and failing functions do not occur',
  ['model/atomic_generic_model.hpp', 'model/atomic_external_function_wrapper.hpp', 'model/generic_model_external_function_wrapper.hpp', 'model/functor_generic_model.hpp'],
  [('model as atomic function', 'model/atomic_generic_model.hpp'), ('atomic function for a model', 'model/atomic_external_function_wrapper.hpp'),
   ('model for a model', 'model/generic_model_external_function_wrapper.hpp')])

P('I01', 'Index patterns and index conditions select exactly the right elements',
  'An index pattern detected for a map of loop iterations to positions (linear, sectioned, over two indexes, or a table) yields the mapped position for every iteration of the map, '
  'also when printed as C and evaluated with the types of C, and after an offset is applied; the printed condition for a set of iterations holds for exactly these '
  'iterations among those the loop runs.',
  ['inputs'], 'every small map, larger structured maps, every subset of the iterations of a small loop',
  'tests contain the patterns of a few models; irregular maps, negative slopes and iteration subsets with gaps hardly occur',
  ['patterns/index/index_pattern.hpp', 'patterns/index/linear_index_pattern.hpp', 'patterns/index/plane_2d_index_pattern.hpp', 'patterns/index/sectioned_index_pattern.hpp',
   'lang/c/language_c_index_patterns.hpp', 'model/patterns/model_c_source_gen_loops.hpp'],
  [('pattern detection', 'patterns/index/index_pattern_impl.hpp'), ('pattern printing', 'lang/c/language_c_index_patterns.hpp')])

P('V01', 'Searching and rewriting recorded graphs is exact',
  'Searching a recorded graph for the ways from an expression to a variable finds every path exactly once (up to the number asked for), exactly the nodes and edges between them and the '
  'number of bifurcations. Substituting an independent variable using an equation leaves graphs in which the equation holds and no longer depends on the variable, keeps the other '
  'independent variables in their order, can be undone unless the variable was removed, and removing a variable that was not substituted is refused.',
  ['programs', 'inputs'], 'every small shared graph and larger random ones, every limit; every variable position and equation form',
  'the solver tests contain graphs with one or two occurrences; shared nodes and limits do not occur',
  ['operation_path.hpp', 'bidir_graph.hpp', 'graph_mod.hpp', 'solver.hpp'],
  [('path search', 'operation_path.hpp'), ('bifurcations', 'bidir_graph.hpp'), ('substitution', 'graph_mod.hpp')])

P('D01', 'Reduced differential-algebraic systems keep the solutions and have index one',
  'The system of equations produced by the index reduction (Pantelides or Soares-Secchi, then dummy derivatives) has the solutions of the original '
  'system and index one, and the reported variable and equation information (names, derivative relations, original indices) describes it.',
  ['inputs'], 'every differential-algebraic system that can be recorded',
  'the tests reduce a few textbook systems; whether the chosen dummy derivatives leave a regular system depends on the values at run time',
  ['dae_index_reduction/pantelides.hpp', 'dae_index_reduction/dummy_deriv.hpp', 'dae_index_reduction/bipartite_graph.hpp'],
  [('structural index reduction', 'dae_index_reduction/pantelides.hpp'), ('selection of the dummy derivatives', 'dae_index_reduction/dummy_deriv.hpp')],
  na='the choice of dummy derivatives is a numerical rank decision (pivoting of a Jacobian evaluated at the given point), and index one and equality of '
     'solutions are properties of the numerical values of those Jacobians along the solution: no static argument in reach bounds them')

P('N01', 'Generated code has the numerical accuracy of evaluating the operations directly',
  'For every input the values computed by the compiled library differ from those of CppAD for the same model only by the rounding errors of the reordered '
  'operations; overflow, underflow and not-a-number results appear for the same inputs.',
  ['inputs'], 'every finite floating point input',
  'tests compare at a few points with a tolerance',
  ['lang/c/language_c.hpp', 'arithmetic.hpp'],
  [('expression emitter', 'lang/c/language_c.hpp')],
  na='a statement about floating point rounding over all inputs; the compiler of the generated code may also contract and reorder operations. The exact real '
     'meaning of the generated code is decided by G01 and M01')

P('C01', 'Compiling a library uses exactly its sources and reports every failure',
  'Creating a dynamic or static library compiles every source of the library generator (models, library, custom sources) once, with the flags that were '
  'set, and links exactly these objects under the requested name, which is the one that is loaded; also when sources are saved first, after a failure and '
  'for a second library. Every failure of an external tool is reported as an error, no temporary file is left, and running a tool gives it its arguments '
  'and all of its input, collects its output, and never hangs, ends the calling program, or leaks descriptors or processes, whatever the tool does.',
  ['inputs', 'faults', 'histories'], 'every driver class, option combination, failure of a tool at any call, amount of input and output and way of ending of a tool',
  'the tests only run tools which succeed, read all of their input and print little',
  ['model/compiler/abstract_c_compiler.hpp', 'model/compiler/gcc_compiler.hpp', 'model/compiler/clang_compiler.hpp', 'model/dynamic_lib/ar_archiver.hpp',
   'model/dynamic_lib/dynamic_library_processor.hpp', 'model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp',
   'model/save_files_model_library_processor.hpp', 'model/system/linux_system.hpp'],
  [('process execution', 'model/system/linux_system.hpp'), ('compilation of all sources', 'model/compiler/abstract_c_compiler.hpp'),
   ('creation of libraries', 'model/dynamic_lib/dynamic_library_processor.hpp')],
  [('_ofiles', 'objects compiled since the last cleanup', 'model/compiler/abstract_c_compiler.hpp'),
   ('FDHandler', 'descriptors owned by a call', 'model/system/linux_system.hpp')])

P('B01', 'Pantelides index reduction differentiates exactly the needed equations',
  'For every differential-algebraic system of first order the Pantelides method ends: a structurally singular system is refused with an exception, any '
  'other is accepted and each equation is differentiated exactly as often as the structural analysis requires. The new model consists of the original '
  'equations in their order and the total time derivatives of equations, with the variables and their new derivatives as arguments; the variable and '
  'equation information (orders, derivative relations, original indices, given names) describes it; the equations differentiated most are assigned to '
  'distinct highest derivatives they contain, and the structural index is right when algebraic variables remain.',
  ['inputs'], 'every incidence structure of one and two equations, random ones of up to five, with parameters and time, in any order of the variables on the tape',
  'the tests reduce a few textbook systems; singular systems, variables in other orders and derivatives that do not appear are absent',
  ['dae_index_reduction/pantelides.hpp', 'dae_index_reduction/bipartite_graph.hpp', 'dae_index_reduction/bipartite_nodes.hpp',
   'dae_index_reduction/augment_path_depth_lookahead.hpp', 'dae_index_reduction/dae_var_info.hpp', 'dae_index_reduction/dae_equation_info.hpp'],
  [('index reduction', 'dae_index_reduction/pantelides.hpp'), ('graph and new model', 'dae_index_reduction/bipartite_graph.hpp'),
   ('matching', 'dae_index_reduction/augment_path_depth_lookahead.hpp')],
  [('vnodes_', 'variables and the derivatives created', 'dae_index_reduction/bipartite_graph.hpp')])

P('J01', 'Models compiled in memory compute the same as loaded libraries',
  'A model compiled in memory with LLVM (just in time) computes the same values, derivatives and sparsity patterns as the library compiled from the same '
  'sources, and stays usable while its library object exists.',
  ['programs', 'histories'], 'every model, every order of operations on the library object',
  'the tests of this part need LLVM development files',
  ['model/llvm/llvm_model_library.hpp', 'model/llvm/llvm_model.hpp'],
  [('in-memory library', 'model/llvm/llvm_model_library.hpp')],
  na='this part of the library cannot be resolved here: the LLVM/Clang headers of the versions it supports are not installed and it is neither built nor '
     'tested by the baseline, so there is no type-checked program to analyse (the shared base class FunctorGenericModel is covered by M02)')
