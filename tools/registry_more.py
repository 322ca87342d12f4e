FNOTE = ('Each function is executed symbolically from its parsed source with array lengths, attributes and random draws as symbols; loops by stated invariants. Real arithmetic, the numpy model of fv/, and the '
         'functions listed as bounded in the evidence are the remaining assumptions.')
prop('P06', 'The evaluation and iteration budget is counted exactly and respected',
     'A task evaluates the problem exactly once per counted evaluation and never more than max_evals times; after the budget, the cutoff or the iteration limit is reached, evaluation returns infinity without calling the problem, and the stopping condition holds. The iteration counter grows by one per completed iteration, and the task stops as soon as the best value reaches the cutoff in the direction of the optimization.',
     ['inputs', 'configurations', 'histories'], 'every sequence of calls on a task, for every max_evals, max_iters, cutoff value and direction',
     'The tests use a handful of budgets on one minimization problem and no cutoff together with a budget.',
     ['src/niapy/task.py'], [('eval', 'Task.eval'), ('stopping_condition', 'Task.stopping_condition'), ('next_iter', 'Task.next_iter'), ('stopping_condition_iter', 'Task.stopping_condition_iter')], FV, FNOTE, ['Problem.evaluate', 'Task.evals', 'Task.iters'])
prop('P07', 'The task records the true best value and the convergence history',
     'At every moment the best value a task reports is the smallest value returned by its evaluations (in the internal, direction-adjusted sense), and each recorded improvement belongs to the evaluation and iteration at which it happened. The convergence data gives, for each evaluation or iteration on its axis, the best value known at that point, in the original direction of the problem.',
     ['inputs', 'configurations', 'histories'], 'every sequence of evaluations and iterations, both directions, both axes, with and without a limit',
     'The tests look at convergence data only for one short run.',
     ['src/niapy/task.py'], [('eval', 'Task.eval'), ('convergence_data', 'Task.convergence_data')], FV, FNOTE, ['Task.convergence_data', 'Task.x_f'])
prop('P08', 'Running an algorithm follows the documented callback and result protocol',
     'A run notifies the callbacks before the run, before and after each iteration and after the run, in that order and with the state of that iteration, counts one task iteration per step, and stops at the first step where the task says so. The result is the best solution with its fitness in the original direction of the problem, and an exception inside a run is reported and stored instead of lost.',
     ['inputs', 'configurations', 'histories'], 'every algorithm, task, callback list and number of iterations, both directions, with and without exceptions',
     'The tests run with no or one passive callback and mostly minimization.',
     ['src/niapy/algorithms/algorithm.py', 'src/niapy/callbacks.py'], [('run', 'Algorithm.run'), ('run_task / iteration_generator', 'Algorithm.run_task'), ('bad_run', 'Algorithm.bad_run'), ('CallbackList', 'src/niapy/callbacks.py')], FV, FNOTE, ['callbacks', 'result of Algorithm.run'])
prop('P09', 'Every repair function returns a point within the bounds',
     'For every point and every pair of bounds, each repair function returns a point of the same length whose components lie within the bounds, leaving components that already lie strictly inside unchanged where its documentation says so, and computes the documented value for the others. Random repair draws only from the generator it is given.',
     ['inputs'], 'every length, point, bounds and generator state',
     'The tests repair a few vectors with fixed symmetric bounds.',
     ['src/niapy/util/repair.py'], [('limit, limit_inverse, wang, rand, reflect', 'src/niapy/util/repair.py')], FV, FNOTE, ['result of the repair functions'])
prop('P10', 'A problem has the dimension and domain the user asked for',
     'A problem constructed with a scalar, short or long bound has bounds of exactly its dimension built from what was given, the default domain of each benchmark problem is the documented one, and evaluation rejects points of the wrong dimension and otherwise returns the value of the function.',
     ['inputs', 'configurations'], 'every dimension, bound (number or array of any length) and problem class',
     'The tests construct problems with a few dimensions and rarely with array bounds.',
     ['src/niapy/problems', 'src/niapy/util/array.py'], [('full_array', 'src/niapy/util/array.py'), ('Problem.__init__ / evaluate', 'src/niapy/problems/problem.py'), ('constructors', 'src/niapy/problems/*.py')], FV, FNOTE, ['Problem.dimension, lower, upper', 'Problem.evaluate'])
prop('P11', 'Individuals, initial populations and the best of a population are consistent',
     'A new individual holds the given point, or a uniformly random point within the bounds of the task drawn from the given generator; evaluating it repairs its point with that generator and stores the fitness of exactly the repaired point, and a copy has the same point and fitness but no shared memory. Initial populations have the requested size, lie within the bounds and carry at each index the fitness of the individual there. The best of a population is a copy of the member with the smallest fitness unless the best known so far is better, and random integers drawn with exclusions are never excluded values.',
     ['inputs', 'configurations'], 'every dimension, population size, bounds, generator state, repair function, direction and fitness values',
     'The tests create a few individuals with the default task and never change a copy, exclude several integers or compare fitness values that are equal.',
     ['src/niapy/algorithms/algorithm.py', 'src/niapy/task.py'], [('Individual', 'src/niapy/algorithms/algorithm.py'), ('get_best', 'Algorithm.get_best'), ('default_numpy_init, default_individual_init', 'src/niapy/algorithms/algorithm.py'), ('integers', 'Algorithm.integers'), ('repair, is_feasible', 'src/niapy/task.py')], FV, FNOTE, ['Individual.x, Individual.f', 'result of get_best', 'result of the initialization functions'])
prop('P13', 'Stock variation operators build offspring by their stated rule',
     'The differential evolution strategies (rand1, rand2, best1, best2, curr2rand1, curr2best1, curr2pbest1), the crossover and mutation operators of the genetic algorithm and the neighbour of simulated annealing and hill climbing build a new point of the dimension of the problem, each component of which is either kept from the parent or made by the formula of the operator from distinct other individuals, according to the rates and draws of the generator passed. Selection operators return a member of the population (the best of the drawn competitors, or the best of the candidates of several strategies), simulated annealing takes a better neighbour always and a worse one with probability exp(-delta / temperature), and none of them modifies the individuals it is given.',
     ['inputs', 'configurations'], 'every population size, dimension, fitness values, individual index, rate and generator state',
     'The tests of the operators run them on a random population and look only at the type of the result.',
     ['src/niapy/algorithms/basic/de.py', 'src/niapy/algorithms/basic/ga.py', 'src/niapy/algorithms/modified/shade.py', 'src/niapy/algorithms/other/sa.py', 'src/niapy/algorithms/other/hc.py'], [('cross_* strategies, multi_mutations', 'src/niapy/algorithms/basic/de.py'), ('selection, crossover and mutation operators', 'src/niapy/algorithms/basic/ga.py'), ('cross_curr2pbest1, parent_medium', 'src/niapy/algorithms/modified/shade.py'), ('run_iteration, cool_delta, cool_linear', 'src/niapy/algorithms/other/sa.py'), ('neighborhood', 'src/niapy/algorithms/other/hc.py')], FV, FNOTE, ['result of the operators'])
prop('P14', 'Parameters given to an algorithm are the parameters it has and reports',
     'For every algorithm class, a value passed to the constructor or to set_parameters for any parameter of their signatures is the value of the attribute of that name and the value get_parameters reports under that name, whatever the algorithm was constructed with before. The other parameters keep their defaults, the same set of parameters is reported on both ways, and every keyword of the signatures is accepted.',
     ['configurations'], 'every algorithm class, parameter and value',
     'The tests set a few parameters of a few classes and many tests never call set_parameters or get_parameters.',
     ALG, [('__init__, set_parameters, get_parameters', 'every algorithm class'), ('set_parameters', 'src/niapy/algorithms/algorithm.py')], FV, FNOTE, ['attributes of the algorithm', 'Algorithm.get_parameters'])

prop('P15', 'A run with an evaluation budget ends',
     'Every run of every algorithm on a task with a finite evaluation budget ends: every iteration that does not end the run evaluates at least one point, every inner search loop either evaluates a point in each pass or is bounded by a counter, and no loop goes on once the task has stopped. Every iteration counts as one iteration of the task, so a run with an iteration limit makes exactly that many iterations unless it stops earlier.',
     ['inputs', 'configurations', 'histories'], 'every algorithm class, task, budget, population size, seed and objective function',
     'The tests run each algorithm with large budgets on two functions; a loop that starves only in a rare state (a population that has become empty, a task that stopped inside a loop) is not reached.',
     ALG, [('Algorithm.run', 'src/niapy/algorithms/algorithm.py'), ('run_iteration', 'every algorithm class')], VC, ALGNOTE, ['Task.evals and Task.iters at iteration boundaries', 'return of Algorithm.run'])
