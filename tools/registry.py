"""Writes properties.jsonl and MANIFEST.json from the one table below (python3 tools/registry.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VC = 'contracts on every algorithm class; verification conditions generated from the parsed source, discharged by z3'
FV = 'contracts on the real functions; symbolic execution over arrays of symbolic length, obligations discharged by z3'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=FV, note='', observe=None, claimed=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, claimed=claimed, reason=reason))
ALG = ['src/niapy/algorithms/algorithm.py', 'src/niapy/algorithms/basic', 'src/niapy/algorithms/modified', 'src/niapy/algorithms/other']
ALGNOTE = ('Proof per algorithm class for the classes the verifier accepts (listed in the evidence); the remaining classes, listed there as bounded, only get a '
           'bounded run-time contract check over generated configurations and are not counted as proved. Assumes mathematical arithmetic, finite fitness values, the array '
           'model of numpy in vc/npmodel.py, default constructor parameters, and the contracts of evaluation and repair.')
prop('P01', 'Every solution an algorithm evaluates or reports lies within the bounds',
     'Whatever algorithm is run on a task, every point it submits for evaluation lies within the lower and upper bounds of the task in every component, has the dimension of the task, and the reported best solution lies within the bounds too. The bounds of the task are not modified by a run.',
     ['inputs', 'configurations', 'histories'], 'every algorithm, problem, dimension, bounds, repair function, population size, random seed, budget and optimization direction',
     'The tests run each algorithm with one seed, two dimensions, symmetric bounds and the default repair, and look only at the final best solution.',
     ALG + ['src/niapy/task.py', 'src/niapy/util/repair.py'], [('repair before evaluation', 'run_iteration / helper methods of every algorithm'), ('Task.repair', 'src/niapy/task.py')], VC, ALGNOTE,
     ['arguments of Problem.evaluate', 'result of Algorithm.run'])
prop('P02', 'The best solution and the best fitness belong together',
     'At the end of a run and at every iteration boundary shown to callbacks, the best fitness is exactly the value that the evaluation of the best solution returned; evaluating the reported solution again gives the reported fitness. No later change of the population alters the remembered best solution.',
     ['inputs', 'configurations', 'histories'], 'every algorithm, problem, direction, seed, population size and evaluation budget, including budgets that run out in the middle of an iteration',
     'The tests compare the two only at the end of one fixed run; aliasing or a stale fitness needs particular histories to show.',
     ALG, [('get_best copies', 'src/niapy/algorithms/algorithm.py'), ('best updates', 'run_iteration of every algorithm')], VC, ALGNOTE, ['callbacks', 'result of Algorithm.run'])
prop('P03', 'The best solution found so far is never lost',
     'The best fitness reported at iteration boundaries and at the end of a run never gets worse from one boundary to the next, and the finally reported fitness is the best value (smallest when minimizing, largest when maximizing) of all evaluations made during the run.',
     ['inputs', 'configurations', 'histories'], 'every algorithm, problem, direction, seed, population size and evaluation budget, including budgets that run out in the middle of an iteration',
     'The tests do not compare the result of a run with the history of its evaluations.',
     ALG, [('get_best', 'src/niapy/algorithms/algorithm.py'), ('best updates', 'run_iteration of every algorithm')], VC, ALGNOTE, ['callbacks', 'arguments and results of Problem.evaluate', 'result of Algorithm.run'])
prop('P04', 'Population and fitness array describe the same individuals',
     'At every iteration boundary the fitness array has as many entries as the population, and each entry is the fitness that was computed for the individual at the same index, as that individual is now. This includes iterations in which the evaluation budget runs out: an individual that was not evaluated carries infinite fitness.',
     ['inputs', 'configurations', 'histories'], 'every population-based algorithm, problem, direction, seed, population size and evaluation budget',
     'The tests never look at the population together with its fitness between iterations.',
     ALG + ['src/niapy/callbacks.py'], [('before_run / after_iteration arguments', 'src/niapy/algorithms/algorithm.py'), ('selection steps', 'run_iteration of every algorithm')], VC, ALGNOTE, ['callbacks'])
prop('P05', 'A seed determines the whole run',
     'Two runs of the same algorithm with the same parameters, the same integer seed and the same task settings evaluate the same points in the same order and give the same result; every random decision, including those of the repair function, is drawn from the generator of the algorithm.',
     ['inputs', 'configurations', 'histories'], 'every algorithm, problem, repair function (including the random one), seed and parameter setting',
     'The tests compare only final results of two runs with the default, deterministic repair; any use of another source of randomness on a rare path goes unnoticed.',
     ALG + ['src/niapy/util/repair.py', 'src/niapy/util/random.py'], [('rng attribute', 'src/niapy/algorithms/algorithm.py'), ('rng arguments', 'calls of Task.repair and Individual')], VC, ALGNOTE, ['points evaluated', 'result of Algorithm.run'])
prop('P12', 'Benchmark problems compute their documented functions',
     'Each benchmark problem returns, for every point of its dimension, the value of the mathematical formula in its documentation, without modifying the point. Constructor options that appear as parameters in a formula are honoured.',
     ['inputs', 'configurations'], 'every problem class, dimension, point and parameter setting',
     'The tests check most problems at the known optimum or a few points in dimension 2 or 10; wrong terms that vanish there are invisible.',
     ['src/niapy/problems'], [('_evaluate', 'src/niapy/problems/*.py')], FV,
     'Proof for all dimensions by symbolic execution of the real _evaluate bodies, the array length being a symbol; transcendental functions uninterpreted with the identities stated in the evidence; real arithmetic.', ['Problem.evaluate'])
exec(open(os.path.join(V, 'tools', 'registry_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'registry_more.py')) else None
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())" && /opt/venv/bin/python -c "import numpy"',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'proof', 'level_note': p['note']} for p in P if p['claimed']],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']],
     'notes': 'See DESIGN.md. No hooks in /repo; the verifier reads the source, run-time monitors wrap Task and Problem from outside.'}
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
